// C47: a service is what its URL and the properties of its session say.
#include "maildirsim.hpp"
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/serviceFactory.hpp"
#include "vmime/net/serviceInfos.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/net/tls/TLSProperties.hpp"
using namespace vmime;
typedef shared_ptr <net::session> Ses; typedef shared_ptr <net::service> Srv;
struct Proto { S name, prefix; int port; bool store, tls; };
static const std::vector <Proto> PR = {{"imap", "store.imap.", 143, true, false}, {"imaps", "store.imaps.", 993, true, true}, {"pop3", "store.pop3.", 110, true, false}, {"pop3s", "store.pop3s.", 995, true, true}, {"smtp", "transport.smtp.", 25, false, false}, {"smtps", "transport.smtps.", 465, false, true}};
static const std::vector <Proto> LOCAL = {{"maildir", "store.maildir.", 0, true, false}, {"sendmail", "transport.sendmail.", 0, false, false}};

// ---- one server for all protocols, which notes who connects
struct Login { S host; int port = 0; S user, pass, mech; bool tls = false, loggedIn = false; S helo; };
struct Net { SimNet sim; std::vector <Login> logins; bool sasl = true, apop = false, refuseSasl = false; };
static S unb64(const S& t) { static const S A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; unsigned v = 0, n = 0; for (char c : t) { const size_t p = A.find(c); if (p == S::npos) break; v = (v << 6 | unsigned(p)) & 0xfffff; n += 6; if (n >= 8) { n -= 8; o += char(v >> n); } } return o; }
struct Server : public LineServer {
	Net* n; int proto; size_t me; S tag; bool plain = false; size_t lit = 0; S held;
	Server(Net* x, int p, size_t i) : n(x), proto(p), me(i) {}
	Login& l() { return n->logins[me]; }
	void data(const S& in) { if (PR[proto].tls) { l().tls = !in.empty() && in[0] == 0x16; closed = true; return; } LineServer::data(in); }
	void connected() { if (PR[proto].tls) return; reply(proto == 0 ? S("* OK hi") : proto == 2 ? S(n->apop ? "+OK hi <1.2@sim.example>" : "+OK hi") : S("220 hi")); }
	bool wantRaw() { return lit != 0; }
	bool takeRaw() { if (buf.size() < lit) return false; held += buf.substr(0, lit); buf.erase(0, lit); lit = 0; return true; }
	S astring(const S& s, size_t& p) { S r; while (p < s.size() && s[p] == ' ') ++p; if (p < s.size() && s[p] == '"') { for (++p ; p < s.size() && s[p] != '"' ; ++p) { if (s[p] == '\\') ++p; r += s[p]; } ++p; } else if (p < s.size() && s[p] == '{') { const size_t e = s.find('}', p), k = std::stoul(s.substr(p + 1)); r = s.substr(e + 1, k); p = e + 1 + k; } else while (p < s.size() && s[p] != ' ') r += s[p++]; return r; }
	void creds(const S& b) { const S d = unb64(b); const size_t a = d.find('\0'), c = d.find('\0', a + 1); if (a != S::npos && c != S::npos) { l().user = d.substr(a + 1, c - a - 1); l().pass = d.substr(c + 1); } l().mech = "PLAIN"; l().loggedIn = !n->refuseSasl; }
	void line(const S& part) {
		if (proto == 0) { const size_t b = part.rfind('{'); if (b != S::npos && part[part.size() - 1] == '}') { held += part; lit = std::stoul(part.substr(b + 1)); reply("+ go"); return; } }
		const S s = held + part; held.clear();
		if (plain && s == "*") { plain = false; reply(proto == 0 ? tag + " BAD cancelled" : proto == 2 ? S("-ERR cancelled") : S("501 cancelled")); return; }
		if (plain) { plain = false; creds(s); const bool ok = !n->refuseSasl; reply(proto == 0 ? tag + (ok ? " OK in" : " NO out") : proto == 2 ? S(ok ? "+OK in" : "-ERR out") : S(ok ? "235 in" : "535 out")); return; }
		if (proto == 0) {
			const size_t sp = s.find(' '); tag = s.substr(0, sp); const S c = s.substr(sp + 1);
			if (c == "CAPABILITY") { reply(S("* CAPABILITY IMAP4rev1") + (n->sasl ? " AUTH=PLAIN" : "")); reply(tag + " OK done"); }
			else if (c.compare(0, 6, "LOGIN ") == 0) { size_t p = 6; l().user = astring(c, p); l().pass = astring(c, p); l().mech = "LOGIN"; l().loggedIn = true; reply(tag + " OK in"); }
			else if (c.compare(0, 18, "AUTHENTICATE PLAIN") == 0) { if (c.size() > 19) { creds(c.substr(19)); reply(tag + (n->refuseSasl ? " NO out" : " OK in")); } else { plain = true; reply("+ "); } }
			else if (c == "LOGOUT") { reply("* BYE bye"); reply(tag + " OK done"); closed = true; }
			else if (c.compare(0, 4, "LIST") == 0) { reply("* LIST (\\Noselect) \"/\" \"\""); reply(tag + " OK done"); } else reply(tag + " OK done");
		} else if (proto == 2) {
			if (s == "CAPA") { reply("+OK"); if (n->sasl) reply("SASL PLAIN"); reply("."); } else if (s.compare(0, 5, "USER ") == 0) { l().user = s.substr(5); reply("+OK"); } else if (s.compare(0, 5, "PASS ") == 0) { l().pass = s.substr(5); l().mech = "PASS"; l().loggedIn = true; reply("+OK"); }
			else if (s.compare(0, 5, "APOP ") == 0) { l().user = s.substr(5, s.rfind(' ') - 5); l().pass = s.substr(s.rfind(' ') + 1); l().mech = "APOP"; l().loggedIn = true; reply("+OK"); }
			else if (s.compare(0, 10, "AUTH PLAIN") == 0) { if (s.size() > 11) { creds(s.substr(11)); reply(n->refuseSasl ? "-ERR out" : "+OK in"); } else { plain = true; reply("+ "); } } else if (s == "QUIT") { reply("+OK"); closed = true; } else reply("+OK");
		} else {
			if (s.compare(0, 4, "EHLO") == 0) { l().helo = s; reply("250-sim"); reply(n->sasl ? "250 AUTH PLAIN" : "250 HELP"); } else if (s.compare(0, 10, "AUTH PLAIN") == 0) { if (s.size() > 11) { creds(s.substr(11)); reply(n->refuseSasl ? "535 out" : "235 in"); } else { plain = true; reply("334 "); } }
			else if (s == "QUIT") { reply("221 bye"); closed = true; } else reply("250 ok");
		}
	}
};
struct NSocket : public SimSocket { Net* n; int proto; NSocket(Net* x, int p, shared_ptr <net::timeoutHandler> th) : SimSocket(&x->sim, th), n(x), proto(p) {}
	void connect(const vmime::string& a, const port_t p) { Login l; l.host = a; l.port = p; n->logins.push_back(l); const size_t i = n->logins.size() - 1; Net* nn = n; const int pr = proto; n->sim.server = [nn, pr, i] { return make_shared <Server>(nn, pr, i); }; SimSocket::connect(a, p); } };
struct NFactory : public net::socketFactory { Net* n; int proto; NFactory(Net* x, int p) : n(x), proto(p) {} shared_ptr <net::socket> create() { return make_shared <NSocket>(n, proto, shared_ptr <net::timeoutHandler>()); } shared_ptr <net::socket> create(const shared_ptr <net::timeoutHandler>& th) { return make_shared <NSocket>(n, proto, th); } };

static Srv make(const Ses& s, int proto, const S& url, const shared_ptr <security::authenticator>& a = null) { if (PR[proto].store) return url.empty() ? s->getStore(PR[proto].name, a) : s->getStore(utility::url(url), a); return url.empty() ? s->getTransport(PR[proto].name, a) : s->getTransport(utility::url(url), a); }
static S tryConnect(Net& n, const Srv& sv, int proto) { sv->setSocketFactory(make_shared <NFactory>(&n, proto)); try { sv->connect(); return "ok"; } catch (mc::Violated&) { throw; } catch (exceptions::no_auth_information&) { return "no_auth_information"; } catch (exceptions::no_such_property&) { return "no_such_property"; } catch (exceptions::authentication_error&) { return "authentication_error"; } catch (vmime::exception& e) { return S("failed: ") + e.what(); } }

struct Opt { const char* enc; const char* val; };      // in a URL, and what it means
static const std::vector <Opt> USERS = {{"joe", "joe"}, {"j%40x.example", "j@x.example"}, {"a%3Ab%2Fc%20d", "a:b/c d"}, {"%25%22", "%\""}}, PASSES = {{"pw", "pw"}, {"p%40%3a%2F%3f", "p@:/?"}, {"%20%5C%22", " \\\""}, {"c%C3%A9", "c\xc3\xa9"}};
struct FixedAuth : public security::sasl::defaultSASLAuthenticator { S u, p; FixedAuth(const S& a, const S& b) : u(a), p(b) {} const string getUsername() const { return u; } const string getPassword() const { return p; } };

void mc_main(mc::Run& R) {
	mdsim::init();
	R.property = "C47";
	R.rule = "every protocol x ways to obtain a service x parts given by the URL, by session properties or by both x ways to authenticate: where the service connects and as whom, seen by a fake network; every listed property of every service set, unset and defaulted; every sequence of changes of properties, new services, connections and disconnections up to the depth, against a map as model";
	R.assumptions = {"port 65535 in a URL stands for no port", "a URL which gives a user but no password, or a password but no user, is not specified"};
	const bool T = R.thorough;
	// ---- which service
	std::vector <Proto> all = PR; all.insert(all.end(), LOCAL.begin(), LOCAL.end());
	std::vector <S> names; for (auto& p : all) { S u = p.name, m = p.name; for (auto& c : u) c = char(toupper(c)); m[0] = char(toupper(m[0])); names.push_back(p.name); names.push_back(u); names.push_back(m); } for (S s : {"", "http", "imapx", "ima", "imap ", "pop", "smtpss", "ftp", "mailto", "pop3S3"}) names.push_back(s);
	for (auto& nm : names) for (int how = 0 ; how < 3 ; ++how) for (int store = 0 ; store < 2 ; ++store) R.testL([&] { return "service|" + nm + " " + str(how) + str(store); }, [&] {
		const Proto* p = NULL; for (auto& x : all) { S l = nm; for (auto& c : l) c = char(tolower(c)); if (l == x.name) p = &x; }
		Ses s = net::session::create(); Srv sv; S res = "service"; const S key = store ? "store.protocol" : "transport.protocol"; if (how == 2) s->getProperties()[key] = nm;
		if (how == 1 && nm.find_first_of(" ") != S::npos) return; if (how == 1 && nm.empty()) return;
		try { if (store) sv = how == 0 ? s->getStore(nm) : how == 1 ? s->getStore(utility::url(nm + "://h.example/")) : s->getStore(); else sv = how == 0 ? s->getTransport(nm) : how == 1 ? s->getTransport(utility::url(nm + "://h.example/")) : s->getTransport(); if (!sv) res = "null"; } catch (exceptions::no_factory_available&) { res = "none"; }
		R.outcome(res + nm); R.transition(); R.equal(res, S(!p ? "none" : p->store == bool(store) ? "service" : "null"), "result");
		if (sv) { R.equal(sv->getProtocolName(), p->name, "protocol"); CHECK(sv->getType() == (store ? net::service::TYPE_STORE : net::service::TYPE_TRANSPORT), "type"); R.equal(sv->getInfos().getPropertyPrefix(), p->prefix, "prefix"); CHECK(!sv->isConnected(), "connected"); CHECK(sv->getSession() == s, "session"); }
		auto reg = net::serviceFactory::getInstance()->getServiceByProtocol(nm); CHECK(bool(reg) == bool(p), "registered"); if (p) { R.equal(reg->getName(), p->name, "registered name"); R.equal(reg->getInfos().getPropertyPrefix(), p->prefix, "registered infos"); CHECK(reg->getType() == (p->store ? net::service::TYPE_STORE : net::service::TYPE_TRANSPORT), "registered type"); }
	});
	R.test("factory|list", [&] { auto f = net::serviceFactory::getInstance(); std::set <S> got, want; for (size_t i = 0 ; i < f->getServiceCount() ; ++i) got.insert(f->getServiceAt(i)->getName()); for (auto& p : all) want.insert(p.name); CHECK(got == want && f->getServiceCount() == want.size() && f->getServiceList().size() == want.size(), "services"); });
	R.test("no protocol", [&] { Ses s = net::session::create(); for (int k = 0 ; k < 2 ; ++k) { bool thrown = false; try { if (k) s->getStore(); else s->getTransport(); } catch (exceptions::no_such_property&) { thrown = true; } CHECK(thrown, "no exception without protocol"); } });
	// ---- where it connects and as whom
	for (int p = 0 ; p < 6 ; ++p) for (int up = 0 ; up < 4 ; ++up) for (int sp = 0 ; sp < 3 ; ++sp) for (int uc = 0 ; uc < 5 ; ++uc) for (int sc = 0 ; sc < 4 ; ++sc) for (int path = 0 ; path < 2 ; ++path) for (int viaUrl = 0 ; viaUrl < 2 ; ++viaUrl) {
		if (!viaUrl && (up || uc || path)) continue;
		R.testL([&] { return "settings|" + PR[p].name + " " + str(up) + str(sp) + str(uc) + str(sc) + str(path) + str(viaUrl); }, [&] {
			const int uports[] = {0, 1, 2525, 65534}; S url, u, w; int port = PR[p].port;
			if (viaUrl) { url = PR[p].name + "://"; if (uc) { url += S(USERS[uc - 1].enc) + ":" + PASSES[uc - 1].enc + "@"; } url += path ? "192.0.2.7" : "mail.example"; if (up) url += ":" + str(uports[up]); if (path) url += "/a/b"; }
			for (int mode = 0 ; mode < 6 ; ++mode) {      // ways to authenticate
				Net n; Ses s = net::session::create(); auto& P = s->getProperties(); const S pre = PR[p].prefix; S host = viaUrl ? (path ? "192.0.2.7" : "mail.example") : "other.example"; u.clear(); w.clear(); bool hasU = false, hasP = false; port = PR[p].port;
				P[pre + "server.address"] = S("other.example"); if (sp) { port = sp == 1 ? 7 : 40000; P[pre + "server.port"] = port; } if (up) port = uports[up];
				if (sc & 1) { P[pre + "auth.username"] = u = S("sess user"); hasU = true; } if (sc & 2) { P[pre + "auth.password"] = w = S("sess \"pass"); hasP = true; } if (uc) { u = USERS[uc - 1].val; w = PASSES[uc - 1].val; hasU = hasP = true; }
				// settings of the other protocols must not be used
				for (int q = 0 ; q < 6 ; ++q) if (q != p) { P[PR[q].prefix + "server.address"] = S("wrong.example"); P[PR[q].prefix + "server.port"] = 9; P[PR[q].prefix + "auth.username"] = S("wrong"); P[PR[q].prefix + "auth.password"] = S("wrong"); P[PR[q].prefix + "options.sasl"] = false; P[PR[q].prefix + "options.apop"] = false; }
				n.sasl = mode != 1; n.apop = mode == 2 || mode == 4; n.refuseSasl = mode == 5; if (mode == 2 || mode == 3) P[pre + "options.sasl"] = false; if (mode == 4) P[pre + "options.apop"] = false; if (mode == 5) P[pre + "options.sasl.fallback"] = false; if (p == 4) P[pre + "options.need-authentication"] = mode != 3;
				Srv sv = make(s, p, url); const S res = tryConnect(n, sv, p); R.transition();
				CHECK(n.logins.size() == 1, str(n.logins.size()) + " connections"); const Login& l = n.logins[0]; R.equal(l.host + " " + str(l.port), host + " " + str(port), "connects to");
				R.outcome(res + l.host + str(l.port) + l.user + l.pass + l.mech);
				if (PR[p].tls) { CHECK(l.tls, "does not start with TLS"); CHECK(res != "ok" && !sv->isConnected(), "connected"); continue; }
				if (p == 4 && mode == 3) { CHECK(res == "ok" && l.mech.empty(), "authenticates without need: " + res); continue; }
				if (!hasU || !hasP) { CHECK(res != "ok" && !l.loggedIn, "logged in without credentials: " + res + ", mode " + str(mode) + " as " + l.mech + " " + l.user + "/" + l.pass); CHECK(!sv->isConnected(), "connected"); 
					P[pre + "auth.username"] = S("late"); P[pre + "auth.password"] = S("later"); if (mode == 5) continue; if (p == 4 && mode) continue; const S again = tryConnect(n, sv, p); R.equal(again, S("ok"), "connecting again with credentials"); CHECK(n.logins.size() == 2 && n.logins[1].user == "late", "user of the second try: " + n.logins.back().user); continue; }
				if (p == 4 && mode == 1) { CHECK(res == "authentication_error", "no mechanism: " + res); continue; }
				if (mode == 5) { CHECK(res == "authentication_error" && l.mech == "PLAIN" && l.user == u, "refused: " + res); CHECK(!sv->isConnected(), "connected"); continue; }
				if (p == 4 && mode == 2) { CHECK(res == "authentication_error", "SASL disabled: " + res); continue; }
				R.equal(res, S("ok"), "connecting"); CHECK(l.loggedIn && sv->isConnected(), "not logged in"); R.equal(l.user, u, "user name");
				const S mech = mode == 0 || mode == 4 || p == 4 ? "PLAIN" : p == 0 ? "LOGIN" : mode == 2 ? "APOP" : "PASS"; R.equal(l.mech, mech, "way to authenticate"); if (mech != "APOP") R.equal(l.pass, w, "password");
				auto ci = sv->getConnectionInfos(); CHECK(ci && ci->getHost() == host && ci->getPort() == port, "connection infos"); CHECK(!sv->isSecuredConnection(), "secured"); sv->disconnect(); CHECK(!sv->isConnected(), "still connected");
			}
		});
	}
	// an authenticator of the application is asked instead
	for (int p : {0, 2, 4}) for (int late = 0 ; late < 2 ; ++late) for (int sasl = 0 ; sasl < 2 ; ++sasl) for (int props = 0 ; props < 2 ; ++props) { if (p == 4 && !sasl) continue; R.testL([&] { return "authenticator|" + PR[p].name + " " + str(late) + str(sasl) + str(props); }, [&] {
		Net n; Ses s = net::session::create(); auto& P = s->getProperties(); P[PR[p].prefix + "options.sasl"] = bool(sasl); P[PR[p].prefix + "options.need-authentication"] = true; if (props) { P[PR[p].prefix + "auth.username"] = S("wrong"); P[PR[p].prefix + "auth.password"] = S("wrong"); }
		auto a = make_shared <FixedAuth>("anna", "secret"); Srv sv = make(s, p, PR[p].name + "://h.example", late ? shared_ptr <security::authenticator>() : a); if (late) sv->setAuthenticator(a); CHECK(sv->getAuthenticator() == a, "authenticator"); R.equal(tryConnect(n, sv, p), S("ok"), "connecting"); R.equal(n.logins[0].user + "/" + n.logins[0].pass, S("anna/secret"), "credentials"); R.outcome(n.logins[0].mech);
	}); }
	// ---- the properties of each service
	struct PD { S name, def; int type; bool req; }; typedef net::serviceInfos::property PP;
	const PD sasl{"options.sasl", "true", PP::TYPE_BOOLEAN, false}, user{"auth.username", "", PP::TYPE_STRING, true}, pass{"auth.password", "", PP::TYPE_STRING, true}, addr{"server.address", "", PP::TYPE_STRING, true}, tls{"connection.tls", "false", PP::TYPE_BOOLEAN, false}, tlsr{"connection.tls.required", "false", PP::TYPE_BOOLEAN, false};
	for (size_t k = 0 ; k < all.size() ; ++k) R.testL([&] { return "properties|" + all[k].name; }, [&] {
		const Proto& p = all[k]; std::map <S, PD> want; auto put = [&](const PD& d) { want[d.name] = d; };
		if (k < 6) { put(sasl); put({"options.sasl.fallback", k < 4 ? "true" : "false", PP::TYPE_BOOLEAN, false}); put(user); put(pass); put(addr); put({"server.port", str(p.port), PP::TYPE_INTEGER, false}); if (!p.tls) { put(tls); put(tlsr); } if (k == 2 || k == 3) { put({"options.apop", "true", PP::TYPE_BOOLEAN, false}); put({"options.apop.fallback", "true", PP::TYPE_BOOLEAN, false}); } if (k >= 4) { put({"options.need-authentication", "false", PP::TYPE_BOOLEAN, false}); put({"options.pipelining", "true", PP::TYPE_BOOLEAN, false}); put({"options.chunking", "true", PP::TYPE_BOOLEAN, false}); } }
		else if (p.name == "maildir") put({"server.rootpath", "", PP::TYPE_STRING, true}); else put({"binpath", "*", PP::TYPE_STRING, false});
		Ses s = net::session::create(); auto& inf = net::serviceFactory::getInstance()->getServiceByProtocol(p.name)->getInfos(); std::set <S> got;
		for (auto& x : inf.getAvailableProperties()) {
			CHECK(got.insert(x.getName()).second, "listed twice: " + x.getName()); auto it = want.find(x.getName()); CHECK(it != want.end(), "unknown property " + x.getName()); const PD& d = it->second;
			if (d.def != "*") R.equal(x.getDefaultValue(), d.def, "default of " + d.name); CHECK(x.getType() == d.type, "type of " + d.name); CHECK(bool(x.getFlags() & PP::FLAG_REQUIRED) == d.req, "required: " + d.name);
			CHECK(!inf.hasProperty(s, x), "set: " + d.name); bool thrown = false; S v; try { v = inf.getPropertyValue <string>(s, x); } catch (exceptions::no_such_property&) { thrown = true; } CHECK(thrown == d.req, "reading the unset property " + d.name); if (!thrown && d.def != "*") R.equal(v, d.def, "value of the unset property " + d.name);
			const S val = d.type == PP::TYPE_BOOLEAN ? (d.def == "true" ? "false" : "true") : d.type == PP::TYPE_INTEGER ? "4711" : "some value"; s->getProperties()[p.prefix + d.name] = val; CHECK(inf.hasProperty(s, x), "not set: " + d.name); R.equal(inf.getPropertyValue <string>(s, x), val, "value of " + d.name); if (d.type == PP::TYPE_BOOLEAN) CHECK(inf.getPropertyValue <bool>(s, x) == (val == "true"), "value of " + d.name); if (d.type == PP::TYPE_INTEGER) CHECK(inf.getPropertyValue <port_t>(s, x) == 4711, "value of " + d.name);
			s->getProperties().removeProperty(p.prefix + d.name); CHECK(!inf.hasProperty(s, x), "still set: " + d.name); R.transition();
		}
		for (auto& w : want) CHECK(got.count(w.first), "the property " + w.first + " is not listed");
	});
	// ---- sessions
	R.test("session|copies", [&] {
		propertySet ps; ps["store.imap.server.address"] = S("one"); ps["store.protocol"] = S("imap"); Ses a = net::session::create(ps), b = net::session::create(ps); ps["store.imap.server.address"] = S("two"); a->getProperties()["store.imap.server.port"] = 5; ps["x"] = S("y");
		CHECK(S(a->getProperties()["store.imap.server.address"]) == "one" && S(b->getProperties()["store.imap.server.address"]) == "one" && !b->getProperties().hasProperty("store.imap.server.port") && !ps.hasProperty("store.imap.server.port") && !a->getProperties().hasProperty("x"), "properties are shared"); CHECK(a->getTLSProperties() && b->getTLSProperties() && a->getTLSProperties() != b->getTLSProperties() && net::session::create()->getTLSProperties(), "TLS properties of a session");
		auto t = make_shared <net::tls::TLSProperties>(); t->setCipherSuite("NORMAL:-VERS-SSL3.0"); a->setTLSProperties(t); t->setCipherSuite("NONE"); R.equal(a->getTLSProperties()->getCipherSuite(), S("NORMAL:-VERS-SSL3.0"), "TLS properties"); CHECK(b->getTLSProperties() != a->getTLSProperties(), "TLS properties shared");
	});
	// ---- histories: two sessions of services, changes at any time
	const std::vector <S> ops = {"address A", "address B", "port 1000", "no port", "user", "new by name", "new by URL", "new by URL with port and user", "connect", "disconnect", "connect other"};
	for (int p : {0, 2, 4}) mc::tuples(ops.size(), T ? 5 : 4, [&](const std::vector <size_t>& h) { if (std::count(h.begin(), h.end(), size_t(8)) + std::count(h.begin(), h.end(), size_t(10)) == 0) return; R.testL([&] { return "history|" + PR[p].name + mc::show(h); }, [&] {
		Net n; Ses s = net::session::create(); const S pre = PR[p].prefix; auto& P = s->getProperties(); P[pre + "server.address"] = S("start.example"); P[pre + "auth.username"] = S("u0"); P[pre + "auth.password"] = S("p0"); P[pre + "options.need-authentication"] = true; const int o = p == 0 ? 2 : 0; P[PR[o].prefix + "server.address"] = S("fixed.example"); P[PR[o].prefix + "auth.username"] = S("fix"); P[PR[o].prefix + "auth.password"] = S("fp");
		Srv sv = make(s, p, ""), other = make(s, o, ""); S host = "start.example", u = "u0"; int port = PR[p].port; bool con = false, ocon = false; size_t conns = 0;
		for (size_t x : h) {
			R.transition();
			if (x == 0 || x == 1) P[pre + "server.address"] = host = x ? "b.example" : "a.example"; else if (x == 2) { P[pre + "server.port"] = 1000; port = 1000; } else if (x == 3) { P.removeProperty(pre + "server.port"); port = PR[p].port; } else if (x == 4) P[pre + "auth.username"] = u = "u1";
			else if (x == 5) { sv = make(s, p, ""); con = false; } else if (x == 6) { sv = make(s, p, PR[p].name + "://url.example"); host = "url.example"; con = false; } else if (x == 7) { sv = make(s, p, PR[p].name + "://u2:p2@url2.example:77"); host = "url2.example"; port = 77; u = "u2"; con = false; }
			else if (x == 8) { if (con) { bool thrown = false; try { sv->connect(); } catch (exceptions::already_connected&) { thrown = true; } CHECK(thrown, "connected twice"); continue; } R.equal(tryConnect(n, sv, p), S("ok"), "connecting"); CHECK(n.logins.size() == ++conns, "connections"); const Login& l = n.logins.back(); R.equal(l.host + " " + str(l.port) + " " + l.user, host + " " + str(port) + " " + u, "connects"); con = true; }
			else if (x == 9) { if (!con) { bool thrown = false; try { sv->disconnect(); } catch (exceptions::not_connected&) { thrown = true; } CHECK(thrown, "disconnecting what is not connected"); continue; } sv->disconnect(); con = false; }
			else { if (ocon) { other->disconnect(); ocon = false; continue; } R.equal(tryConnect(n, other, o), S("ok"), "connecting the other"); CHECK(n.logins.size() == ++conns, "connections"); const Login& l = n.logins.back(); R.equal(l.host + " " + str(l.port) + " " + l.user, "fixed.example " + str(PR[o].port) + " fix", "the other connects"); ocon = true; }
			CHECK(sv->isConnected() == con && other->isConnected() == ocon, "connected"); R.state(host + str(port) + u + str(con) + str(ocon));
		}
	}); });
	// ---- maildir: the path is where the messages are
	const std::vector <Opt> paths = {{"/m/root", "/m/root"}, {"/m/with%20space", "/m/with space"}, {"/m/%C3%A9t%25", "/m/\xc3\xa9t%"}, {"/m/a/deep/root", "/m/a/deep/root"}};
	for (auto& o : paths) for (int way = 0 ; way < 3 ; ++way) for (int exists = 0 ; exists < 2 ; ++exists) R.testL([&] { return S("maildir|") + o.val + " " + str(way) + str(exists); }, [&] {
		mdsim::fresh(false, {}); vfs::mkdirs("/m/a/deep"); if (exists) vfs::mkdirs(o.val); vfs::On on; Ses s = net::session::create(); if (way) s->getProperties()["store.maildir.server.rootpath"] = S(way == 1 ? o.val : "/m/wrong");
		auto st = way == 1 ? s->getStore("maildir") : s->getStore(utility::url(S("maildir://localhost") + o.enc)); st->connect(); CHECK(st->isConnected(), "not connected"); bool there = vfs::fs.m.count(o.val), wrong = vfs::fs.m.count("/m/wrong"); CHECK(there && !wrong, "the root directory is not used"); R.outcome(o.val); st->disconnect(); vfs::reset(); vfs::fds.clear();
	});
	R.test("maildir|no path", [&] { mdsim::fresh(false, {}); vfs::On on; auto st = net::session::create()->getStore("maildir"); bool thrown = false; try { st->connect(); } catch (exceptions::no_such_property&) { thrown = true; } CHECK(thrown && !st->isConnected(), "connected without a path"); vfs::reset(); });
}
