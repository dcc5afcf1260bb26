// C34: property sets are exact typed maps; services find their properties under their prefix.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "lts.hpp"
#include "vmime/propertySet.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/serviceFactory.hpp"
#include "vmime/net/serviceInfos.hpp"
#include <climits>
using namespace vmime;

static S lc(S s) { for (char& c : s) c = char(tolower((unsigned char) c)); return s; }
struct Model { // insertion ordered, first spelling of the name kept
	std::vector <std::pair <S, S> > v;
	std::pair <S, S>* find(const S& n) { for (auto& p : v) if (lc(p.first) == lc(n)) return &p; return nullptr; }
	void set(const S& n, const S& x) { if (auto* p = find(n)) p->second = x; else v.push_back({n, x}); }
	void remove(const S& n) { for (size_t i = 0 ; i < v.size() ; ++i) if (lc(v[i].first) == lc(n)) { v.erase(v.begin() + i); return; } }
	S key() const { S s; for (auto& p : v) s += esc(p.first) + "=" + esc(p.second) + ";"; return s; }
};
static S dump(const propertySet& p) { S s; for (auto& x : p.getPropertyList()) s += esc(x->getName()) + "=" + esc(x->getValue()) + ";"; return s; }

static const std::vector <S> NAMES = {"a", "A", "b", "store.x"};
static const std::vector <S> VALUES = {"1", "true", "some text", ""};
static void compare(const propertySet& cp, Model& m, const S& what) {
	CHECK(dump(cp) == m.key(), what + ": set is " + dump(cp) + " instead of " + m.key());
	propertySet p(cp); const propertySet& q = p; // non-const access on a copy must not create properties
	for (const S n : {"a", "A", "b", "B", "store.x", "STORE.X", "zz", ""}) {
		auto* e = m.find(n);
		CHECK(q.hasProperty(n) == (e != nullptr), what + ": hasProperty(" + n + ")");
		CHECK(q.getProperty <S>(n, S("dflt")) == (e ? e->second : S("dflt")), what + ": value of " + n + " with default");
		for (int form = 0 ; form < 5 ; ++form) {
			S got; bool thrown = false;
			try {
				switch (form) { case 0: got = q.getProperty <S>(n); break; case 1: got = S(q[n]); break; case 2: got = S(p[n]); break; case 3: got = q[n].getValue <S>(); break; case 4: got = p[n].getValue <S>(); break; }
			} catch (exceptions::no_such_property&) { thrown = true; }
			CHECK(thrown == !e && (!e || got == e->second), what + ": form " + str(form) + " of " + n + " gives '" + got + "'");
		}
	}
	CHECK(dump(p) == m.key(), what + ": reading changed the set");
}

struct Sys {
	Model m[2]; std::unique_ptr <propertySet> r[2]; bool real; S log;
	Sys(bool rl) : real(rl) { if (real) for (auto& x : r) x.reset(new propertySet); }
	static const std::vector <S>& defs() { static const std::vector <S> d = {"", "a=7;b", " A = 'q;x' ; b=\"\\\"\" ;", "b;a"}; return d; }
	size_t opCount() const { return 4 * NAMES.size() + NAMES.size() + 6 + defs().size(); }
	S opName(size_t i) const {
		if (i < 16) return "set " + NAMES[i / 4] + "=" + VALUES[i % 4]; i -= 16;
		if (i < 4) return "remove " + NAMES[i]; i -= 4;
		if (i < 6) { static const char* n[] = {"clear", "copy-construct", "assign other", "self-assign", "swap", "set via list"}; return n[i]; } i -= 6;
		return "parse <" + defs()[i] + ">";
	}
	bool enabled(size_t) const { return true; }
	void step(size_t i) {
		const size_t op = i;
		if (i < 16) {
			const S& n = NAMES[i / 4]; const S& v = VALUES[i % 4]; m[0].set(n, v);
			if (real) switch (i % 3) { case 0: r[0]->setProperty(n, v); break; case 1: (*r[0])[n] = v; break; case 2: (*r[0])[n].setValue(v); break; }
			return;
		}
		i -= 16; if (i < 4) { m[0].remove(NAMES[i]); if (real) r[0]->removeProperty(NAMES[i]); return; }
		i -= 4; switch (i) {
			case 0: m[0].v.clear(); if (real) r[0]->removeAllProperties(); return;
			case 1: m[1] = m[0]; if (real) r[1].reset(new propertySet(*r[0])); return;
			case 2: m[0] = m[1]; if (real) *r[0] = *r[1]; return;
			case 3: if (real) *r[0] = static_cast <const propertySet&>(*r[0]); return;
			case 4: std::swap(m[0], m[1]); if (real) std::swap(r[0], r[1]); return;
			case 5: if (!m[0].v.empty()) { m[0].v.back().second = "L"; if (real) r[0]->getPropertyList().back()->setValue(S("L")); } return;
		}
		i -= 6; // definitions
		if (i == 1) { m[0].set("a", "7"); m[0].set("b", "1"); } else if (i == 2) { m[0].set("A", "q;x"); m[0].set("b", "\""); } else if (i == 3) { m[0].set("b", "1"); m[0].set("a", "1"); }
		if (real) r[0]->setFromString(defs()[i]);
		(void) op;
	}
	void check() { for (int k = 0 ; k < 2 ; ++k) compare(*r[k], m[k], k ? "second set" : "set"); }
	S key() const { return m[0].key() + "|" + m[1].key(); }
};

// independent reading of a definition: name[=value](;name[=value])*, value quoted or up to ';' or a space
static Model readDef(const S& d) {
	Model m; size_t p = 0; auto sp = [&](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
	while (p < d.size()) {
		while (p < d.size() && (sp(d[p]) || d[p] == ';')) ++p;
		if (p == d.size()) break;
		size_t b = p; while (p < d.size() && d[p] != '=' && d[p] != ';') ++p;
		S n = d.substr(b, p - b); while (!n.empty() && sp(n.back())) n.pop_back();
		S v = "1";
		if (p < d.size() && d[p] == '=') {
			++p; v.clear(); while (p < d.size() && sp(d[p])) ++p;
			if (p < d.size() && (d[p] == '"' || d[p] == '\'')) { char q = d[p++]; while (p < d.size() && d[p] != q) { if (d[p] == '\\') { if (++p == d.size()) break; } v += d[p++]; } if (p < d.size()) ++p; }
			else while (p < d.size() && !sp(d[p]) && d[p] != ';') v += d[p++];
			while (p < d.size() && d[p] != ';') ++p;
		}
		m.set(n, v);
	}
	return m;
}

template <class T> static void typed(mc::Run& R, const S& tn, const std::vector <T>& vals) {
	for (size_t i = 0 ; i < vals.size() ; ++i) R.testL([&] { return "typed|" + tn + " #" + str(i); }, [&] {
		const T v = vals[i]; propertySet p; p.setProperty("n", v); CHECK(p.getProperty <T>("N") == v, "value read back");
		CHECK(p["n"].template getValue <T>() == v && p.getProperty <T>("n", T()) == v, "value read back");
		p["m"] = v; CHECK(p.getProperty <T>("m") == v, "value through the proxy"); p["m2"].setValue(v); CHECK(p.getProperty <T>("m2") == v, "value through the proxy");
		if (tn != "string") { propertySet q(p.getProperty <S>("n").find_first_of("; ") == S::npos ? "x=" + p.getProperty <S>("n") : S("x='" + p.getProperty <S>("n") + "'")); CHECK(q.getProperty <T>("x") == v, "value through a definition"); }
		CHECK(propertySet::valueFromString <T>(p.getProperty <S>("n")) == v, "valueFromString");
		// an integer stored is read as any integer type that can hold it, and as a boolean
		R.outcome(p.getProperty <S>("n"));
	});
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C34"; R.level = "model_checking";
	R.rule = "all reachable states of a model of two property sets under set/remove/copy/assign/parse operations, each followed by every sequence of further operations on the real class; all definition texts over the delimiters up to a length against an independent reader; every property of every service under its documented prefix";
	R.assumptions = {"names compare case-insensitively in ASCII; the first spelling is kept", "of several definitions of a name the last one counts, as for a map", "a property whose value is missing ('name') is '1', 'name=' is the empty string", "conversion to numbers accepts what std::istringstream accepts (documented)", "floating point values with at most 6 significant digits"};
	mc::lts(R, "propertySet", [](bool real) { return std::unique_ptr <Sys>(new Sys(real)); }, R.thorough ? 2 : 1, R.thorough ? 4 : 3, R.thorough ? 3000 : 700);

	// ---- definitions
	mc::strings({"a", "B", "=", ";", " ", "\"", "'", "\\", "1"}, 0, R.thorough ? 7 : 5, [&](const S& d) { R.testL([&] { return "def|" + esc(d); }, [&] {
		Model m = readDef(d); propertySet p(d); CHECK(dump(p) == m.key(), "definition <" + d + "> gives " + dump(p) + " instead of " + m.key());
		propertySet q; q.setFromString(d); CHECK(dump(q) == dump(p), "setFromString differs from the constructor");
		q.setFromString(d); CHECK(dump(q) == dump(p), "reading a definition twice"); R.outcome(dump(p));
	}); });
	// a map written as a definition reads back
	const std::vector <S> nv = {"x", "long value", "a;b", "it's", "say \"hi\"", "back\\slash", "", "=", "true", " lead"};
	mc::tuples(nv.size(), 3, [&](const std::vector <size_t>& ix) { R.testL([&] { return "write|" + mc::show(ix); }, [&] {
		for (char q : {'"', '\''}) for (const S sep : {";", " ; ", ";;"}) {
			S d; Model m; size_t k = 0; for (size_t i : ix) { S e; for (char c : nv[i]) { if (c == q || c == '\\') e += '\\'; e += c; } const S n = S("n") + char('0' + k++); d += (d.empty() ? "" : sep) + n + "=" + S(1, q) + e + S(1, q); m.set(n, nv[i]); }
			propertySet p(d); CHECK(dump(p) == m.key(), "definition <" + d + "> gives " + dump(p)); R.outcome(dump(p));
		}
	}); });
	// ---- types
	typed <int>(R, "int", {0, 1, -1, 42, INT_MAX, INT_MIN, 1000, 65535});
	typed <unsigned>(R, "unsigned", {0, 1, UINT_MAX, 1234567});
	typed <long>(R, "long", {0, LONG_MAX, LONG_MIN, 123456789012L});
	typed <size_t>(R, "size_t", {0, SIZE_MAX, 1000000});
	typed <unsigned short>(R, "ushort", {0, 65535, 25});
	typed <bool>(R, "bool", {true, false});
	typed <double>(R, "double", {0, 0.5, -1.25, 1e10, 123456});
	typed <S>(R, "string", {"", " ", "a b", "true", "1", "a;b=c", "x\ny", S("\0z", 2), "\"q\"", "\xc3\xa9"});
	for (auto& c : std::vector <std::pair <S, int> >{{"true", 1}, {"TRUE", 1}, {"True", 1}, {"1", 1}, {"42", 1}, {"-1", 1}, {"false", 0}, {"0", 0}, {"", 0}, {"no", 0}, {"abc", 0}}) R.test("bool|" + c.first, [&] {
		propertySet p; p["b"] = c.first; CHECK(p.getProperty <bool>("b") == (c.second != 0), "boolean value of " + c.first); CHECK(p.getProperty <bool>("b", !c.second) == (c.second != 0), "with default"); CHECK(propertySet::valueFromString <bool>(c.first) == (c.second != 0), "valueFromString"); R.outcome(c.first);
	});
	for (const S v : {"", "abc", "true", "x1", "-", "99999999999999999999", "'1'"}) R.test("notnumber|" + v, [&] {
		propertySet p; p["n"] = v; bool t = false; try { p.getProperty <int>("n"); } catch (exceptions::invalid_property_type&) { t = true; } CHECK(t, "'" + v + "' read as a number");
		t = false; try { p.getProperty <int>("n", 5); } catch (exceptions::invalid_property_type&) { t = true; } CHECK(t, "'" + v + "' read as a number with a default");
		t = false; try { p["n"].getValue <int>(); } catch (exceptions::invalid_property_type&) { t = true; } CHECK(t, "'" + v + "' read as a number through the proxy");
		CHECK(p.getProperty <S>("n") == v, "text"); R.outcome(v);
	});

	// ---- services
	struct Doc { S proto, prefix, port; };
	const std::vector <Doc> docs = {{"imap", "store.imap.", "143"}, {"imaps", "store.imaps.", "993"}, {"pop3", "store.pop3.", "110"}, {"pop3s", "store.pop3s.", "995"}, {"smtp", "transport.smtp.", "25"}, {"smtps", "transport.smtps.", "465"}, {"maildir", "store.maildir.", ""}, {"sendmail", "transport.sendmail.", ""}};
	using namespace vmime::net;
	R.test("services|list", [&] {
		auto f = serviceFactory::getInstance(); std::set <S> have; for (auto& s : f->getServiceList()) have.insert(s->getName());
		for (auto& d : docs) { CHECK(have.count(d.proto), "service " + d.proto + " is not registered"); have.erase(d.proto); } CHECK(have.empty(), "more services than documented"); CHECK(f->getServiceCount() == docs.size(), "count");
	});
	for (auto& d : docs) R.test("service|" + d.proto, [&] {
		auto rs = serviceFactory::getInstance()->getServiceByProtocol(d.proto); CHECK(rs, "no service");
		const serviceInfos& inf = rs->getInfos(); CHECK(inf.getPropertyPrefix() == d.prefix, "prefix " + inf.getPropertyPrefix());
		auto props = inf.getAvailableProperties(); std::set <S> names;
		for (auto& p : props) {
			names.insert(p.getName());
			for (auto& other : docs) for (int set = 0 ; set < 2 ; ++set) {
				auto sess = session::create(); const bool own = other.prefix == d.prefix;
				const S v = p.getType() == serviceInfos::property::TYPE_BOOLEAN ? (p.getDefaultValue() == "true" ? "false" : "true") : p.getType() == serviceInfos::property::TYPE_INTEGER ? "7777" : "zz";
				if (set) sess->getProperties()[lc(other.prefix + p.getName())] = v;
				CHECK(inf.hasProperty(sess, p) == (set && own), d.proto + ": hasProperty(" + p.getName() + ") with " + other.prefix);
				const bool req = (p.getFlags() & serviceInfos::property::FLAG_REQUIRED) != 0; bool thrown = false; S got;
				try { got = inf.getPropertyValue <S>(sess, p); if (set && own && p.getType() == serviceInfos::property::TYPE_INTEGER) CHECK(inf.getPropertyValue <int>(sess, p) == 7777, "integer"); if (set && own && p.getType() == serviceInfos::property::TYPE_BOOLEAN) CHECK(inf.getPropertyValue <bool>(sess, p) == (v == "true"), "boolean"); } catch (exceptions::no_such_property&) { thrown = true; }
				CHECK(thrown == (req && !(set && own)), d.proto + ": required property " + p.getName());
				if (!thrown) CHECK(got == (set && own ? v : p.getDefaultValue()), d.proto + ": value of " + p.getName() + " is " + got);
				R.transition();
			}
		}
		if (!d.port.empty()) for (const S n : {"server.address", "server.port", "auth.username", "auth.password", "options.sasl", "options.sasl.fallback"}) CHECK(names.count(n), d.proto + " has no property " + n);
		if (!d.port.empty()) for (auto& p : props) if (p.getName() == "server.port") CHECK(p.getDefaultValue() == d.port, "default port " + p.getDefaultValue());
		R.outcome(d.proto);
	});
	// services created from URLs and from session properties
	for (auto& d : docs) for (int m = 0 ; m < 16 ; ++m) R.testL([&] { return "url|" + d.proto + " " + str(m); }, [&] {
		propertySet init; init["store.protocol"] = S("imap"); auto sess = session::create(init); sess->getProperties()["other"] = S("kept");
		utility::url u(m & 8 ? d.proto : lc(d.proto), "the.host"); if (m & 1) u.setPort(4242); if (m & 2) { u.setUsername("u;ser"); u.setPassword("p w"); } if (m & 4) u.setPath("/a b;c");
		const bool tr = d.prefix.substr(0, 5) == "trans"; vmime::shared_ptr <service> sv; auto t = sess->getTransport(u); auto s = sess->getStore(u);
		CHECK((t != nullptr) == tr && (s != nullptr) == !tr, "kind of service"); if (t) sv = t; else sv = s;
		const propertySet& p = sess->getProperties(); Model w; w.set("store.protocol", "imap"); w.set("other", "kept"); w.set(d.prefix + "server.address", "the.host");
		if (m & 1) w.set(d.prefix + "server.port", "4242"); if (m & 4) w.set(d.prefix + "server.rootpath", "/a b;c"); if (m & 2) { w.set(d.prefix + "auth.username", "u;ser"); w.set(d.prefix + "auth.password", "p w"); }
		for (auto& e : w.v) CHECK(p.getProperty <S>(e.first, "?") == e.second, "property " + e.first + " is " + p.getProperty <S>(e.first, "?"));
		CHECK(p.getPropertyList().size() == w.v.size(), "properties: " + dump(p));
		CHECK(sv->getProtocolName() == d.proto, "protocol " + sv->getProtocolName()); sv->setProperty("extra", 5); CHECK(p.getProperty <int>(d.prefix + "extra") == 5, "service::setProperty");
		CHECK(!init.hasProperty("other"), "session shares the application's set"); R.outcome(dump(p));
	});
	R.test("protocol|unknown", [&] { auto sess = session::create(); bool t = false; try { sess->getStore("nntp"); } catch (exceptions::no_factory_available&) { t = true; } CHECK(t, "unknown protocol"); t = false; try { sess->getStore(); } catch (exceptions::no_such_property&) { t = true; } CHECK(t, "no protocol"); sess->getProperties()["store.protocol"] = S("IMAP"); CHECK(sess->getStore(), "protocol from the properties"); });
}
