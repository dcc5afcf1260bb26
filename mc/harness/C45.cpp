// C45: traces show the dialogue with the server, without its secrets, and change nothing.
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/tracer.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include "vmime/security/sasl/XOAuth2SASLMechanism.hpp"
using namespace vmime; using namespace vmime::net; using namespace vmime::security::sasl;

static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S b64(const S& d) { S o; for (size_t i = 0 ; i < d.size() ; i += 3) { unsigned v = 0; int n = 0; for ( ; n < 3 && i + n < d.size() ; ++n) v |= (unsigned char) d[i + n] << (16 - 8 * n); o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += n > 1 ? A64[v >> 6 & 63] : '='; o += n > 2 ? A64[v & 63] : '='; } return o; }
static S unb64(const S& t, size_t from) {      // what the base64 characters of t stand for, starting at one of them
	S o; unsigned v = 0, n = 0; for (size_t i = from ; i < t.size() ; ++i) { const char* p = strchr(A64, t[i]); if (!t[i] || !p) break; v = (v << 6 | unsigned(p - A64)) & 0xfffff; n += 6; if (n >= 8) { n -= 8; o += char(v >> n); } } return o;
}
static S hex(const S& t) { static const char H[] = "0123456789abcdef"; S o; for (unsigned char c : t) { o += H[c >> 4]; o += H[c & 15]; } return o; }
static bool reveals(const S& t, const S& secret) {
	if (t.find(secret) != S::npos) return true;
	S q; for (char c : secret) { if (c == '"' || c == '\\') q += '\\'; q += c; } if (t.find(q) != S::npos) return true;
	if (t.find(hex(secret)) != S::npos) return true;
	for (size_t i = 0 ; i < t.size() ; ++i) if (!i || strchr(A64, t[i - 1]) == NULL || i < 4) if (unb64(t, i).find(secret) != S::npos) return true;
	return false;
}

// ---- the three servers
struct Plan { int proto = 0; std::vector <S> mechs; std::map <S, std::vector <S> > chal; std::vector <bool> verdicts; bool apop = false, pipelining = false, ir = true; int refuse = 0; };
struct Srv : public LineServer {
	Plan* p; std::vector <S>*lines, *said; std::vector <bool>* secret; S mech, tag; int at = -1; bool inData = false; size_t attempt = 0; S* mail;
	void say(const S& s, bool content = false) { reply(s); said->push_back((content ? "c" : "r") + s); }
	void connected() { say(p->proto == 0 ? "220 hi" : p->proto == 1 ? (p->apop ? S("+OK hi <17.42@sim.example>") : S("+OK hi")) : "* OK hi"); }
	void verdict() { const bool ok = attempt < p->verdicts.size() && p->verdicts[attempt]; ++attempt; at = -1; say(p->proto == 0 ? S(ok ? "235 2.7.0 welcome" : "535 no") : p->proto == 1 ? S(ok ? "+OK welcome" : "-ERR no") : tag + (ok ? " OK welcome" : " NO no")); }
	void next() { auto& c = p->chal[mech]; if (size_t(at) < c.size()) say(p->proto == 0 ? "334 " + b64(c[at]) : "+ " + b64(c[at])); else verdict(); }
	void got(const S& l, bool sec) { lines->push_back(l); secret->push_back(sec); }
	void line(const S& l0) {
		S l = l0;
		if (at >= 0) { got(l, true); if (l == "*") { at = -1; say(p->proto == 0 ? S("501 cancelled") : p->proto == 1 ? S("-ERR cancelled") : tag + " BAD cancelled"); return; } ++at; next(); return; }
		if (inData) { if (l == ".") { inData = false; got(".", false); say("250 ok"); } else *mail += l + "\r\n"; return; }
		if (p->proto == 2) { const size_t sp = l.find(' '); tag = l.substr(0, sp); l = l.substr(sp + 1); }
		std::vector <S> w; { size_t q = 0; while (q <= l.size()) { size_t e = l.find(' ', q); if (e == S::npos) e = l.size(); w.push_back(l.substr(q, e - q)); q = e + 1; } }
		const S cmd = w[0]; const bool auth = cmd == "AUTH" || cmd == "AUTHENTICATE";
		got(l0, cmd == "LOGIN" || cmd == "USER" || cmd == "PASS" || cmd == "APOP" || (auth && w.size() > 2));
		if (auth) { mech = w[1]; at = 0; if (w.size() > 2 && p->chal[mech].size() == 1 && p->chal[mech][0].empty()) at = 1; next(); return; }
		if (p->proto == 0) {
			if (cmd == "EHLO") { S m; for (auto& x : p->mechs) m += " " + x; say("250-sim"); if (p->pipelining) say("250-PIPELINING"); say("250-8BITMIME"); say("250 AUTH" + m); }
			else if (cmd == "DATA") { inData = true; say("354 go"); } else if (cmd == "QUIT") { say("221 bye"); closed = true; }
			else if (cmd == "RCPT" && p->refuse == 1) say("550 5.1.1 no such user"); else say("250 2.0.0 ok");
		} else if (p->proto == 1) {
			if (cmd == "CAPA") { if (p->mechs.empty()) { say("-ERR no"); return; } S m; for (auto& x : p->mechs) m += " " + x; say("+OK"); say("SASL" + m); say("UIDL"); say("."); }
			else if (cmd == "STAT") say("+OK 2 77"); else if (cmd == "LIST" && w.size() > 1) say("+OK " + w[1] + " 40");
			else if (cmd == "LIST") { if (p->refuse == 1) { say("-ERR not now"); return; } say("+OK 2"); say("1 40"); say("2 37"); say("."); }
			else if (cmd == "UIDL") { say("+OK"); say("1 u1"); say("2 u2"); say("."); }
			else if (cmd == "RETR" || cmd == "TOP") { if (p->refuse == 1) { say("-ERR no such message"); return; } say("+OK here"); say("Subject: x", true); say("", true); say("..dot", true); say("."); }
			else if (cmd == "USER") say("+OK"); else if (cmd == "PASS" || cmd == "APOP") verdict();
			else if (cmd == "QUIT") { say("+OK"); closed = true; } else say("+OK");
		} else {
			if (cmd == "CAPABILITY") { S m; for (auto& x : p->mechs) m += " AUTH=" + x; say("* CAPABILITY IMAP4rev1" + m); say(tag + " OK done"); }
			else if (cmd == "LIST") { if (l == "LIST \"\" \"\"") say("* LIST (\\Noselect) \"/\" \"\""); else if (p->refuse == 1) { say(tag + " NO not now"); return; } else { say("* LIST () \"/\" {5}"); out += "a b\"c"; say("", true); } say(tag + " OK done"); }
			else if (cmd == "LOGIN") verdict();
			else if (cmd == "LOGOUT") { say("* BYE bye"); say(tag + " OK done"); closed = true; } else say(tag + " OK done");
		}
	}
};
struct Ev { char kind; S text; size_t n; };
struct Tracer : public net::tracer {
	std::vector <Ev>* e; Tracer(std::vector <Ev>* x) : e(x) {}
	void traceSend(const string& l) { e->push_back({'S', l, 0}); } void traceReceive(const string& l) { e->push_back({'R', l, 0}); }
	void traceSendBytes(const size_t n, const string& s) { e->push_back({'s', s, n}); } void traceReceiveBytes(const size_t n, const string& s) { e->push_back({'r', s, n}); }
};
// the same with the default rendering of byte counts
struct PlainTracer : public net::tracer { std::vector <Ev>* e; PlainTracer(std::vector <Ev>* x) : e(x) {} void traceSend(const string& l) { e->push_back({'S', l, 0}); } void traceReceive(const string& l) { e->push_back({'R', l, 0}); } };
struct TF : public net::tracerFactory { std::vector <Ev>* e; bool plain; TF(std::vector <Ev>* x, bool p) : e(x), plain(p) {} shared_ptr <net::tracer> create(const shared_ptr <service>&, const int) { if (plain) return make_shared <PlainTracer>(e); return make_shared <Tracer>(e); } };
struct Auth : public defaultSASLAuthenticator {
	std::vector <S> names; S user, pass;
	const std::vector <shared_ptr <SASLMechanism> > getAcceptableMechanisms(const std::vector <shared_ptr <SASLMechanism> >& a, const shared_ptr <SASLMechanism>&) const { std::vector <shared_ptr <SASLMechanism> > r; for (auto& n : names) for (auto& m : a) if (m->getName() == n) r.push_back(m); return r; }
	const string getUsername() const { return user; } const string getPassword() const { return pass; } const string getAccessToken() const { return pass; }
};
static const char* PN[3] = {"smtp", "pop3", "imap"};
struct Log { std::vector <S> lines, said, errors; std::vector <bool> secret; std::vector <Ev> ev; S mail, result; size_t bytes = 0; };
static const S MAIL = "From: a@x\r\n\r\n.leading dot\r\nbody\r\n";
static Log play(Plan plan, const S& user, const S& pass, const std::vector <S>& mechs, bool fallback, int tracing, int frag, size_t cut) {
	Log g; SimNet net; net.frag = frag; net.cutTotal = cut;
	net.server = [&] { auto s = make_shared <Srv>(); s->p = &plan; s->lines = &g.lines; s->said = &g.said; s->secret = &g.secret; s->mail = &g.mail; return s; };
	auto ses = session::create(); auto& p = ses->getProperties(); auto a = make_shared <Auth>(); a->user = user; a->pass = pass; a->names = mechs;
	const S pre = plan.proto ? S("store.") + PN[plan.proto] : S("transport.smtp");
	p[pre + ".options.sasl"] = !mechs.empty(); p[pre + ".options.sasl.fallback"] = fallback; p["transport.smtp.options.need-authentication"] = true; p["store.pop3.options.apop"] = plan.apop; p["store.pop3.options.apop.fallback"] = true;
	auto setup = [&](const shared_ptr <service>& s) { s->setSocketFactory(make_shared <SimSocketFactory>(&net)); if (tracing) s->setTracerFactory(make_shared <TF>(&g.ev, tracing == 2)); };
	auto step = [&](const S& nm, const std::function <void()>& f) { try { f(); g.result += nm + " ok;"; return true; } catch (mc::Violated&) { throw; } catch (std::exception& e) { g.errors.push_back(e.what()); if (auto* c = dynamic_cast <exceptions::command_error*>(&e)) { g.errors.push_back(c->command()); g.errors.push_back(c->response()); } else if (auto* u = dynamic_cast <exceptions::authentication_error*>(&e)) g.errors.push_back(u->response()); g.result += nm + " failed;"; return false; } };
	if (!plan.proto) {
		auto t = ses->getTransport(utility::url("smtp://sim.example"), a); setup(t);
		if (step("connect", [&] { t->connect(); })) {
			step("send", [&] { mailboxList to; to.appendMailbox(make_shared <mailbox>("b@y.example")); to.appendMailbox(make_shared <mailbox>("c@y.example")); utility::inputStreamStringAdapter is(MAIL); t->send(mailbox("a@x.example"), to, is, MAIL.size(), NULL); });
			step("noop", [&] { t->noop(); }); step("disconnect", [&] { t->disconnect(); });
		}
	} else {
		auto st = ses->getStore(utility::url(S(PN[plan.proto]) + "://sim.example"), a); setup(st);
		if (step("connect", [&] { st->connect(); })) {
			if (plan.proto == 1) {
				auto f = st->getDefaultFolder();
				if (step("open", [&] { f->open(folder::MODE_READ_ONLY); })) {
					step("list", [&] { auto m = f->getMessages(messageSet::byNumber(1, 2)); f->fetchMessages(m, fetchAttributes(fetchAttributes::SIZE | fetchAttributes::UID)); });
					step("retr", [&] { auto m = f->getMessage(1); S s; utility::outputStreamStringAdapter os(s); m->extract(os); g.bytes = s.size(); }); step("close", [&] { f->close(false); });
				}
			} else step("folders", [&] { auto v = st->getRootFolder()->getFolders(false); g.result += str(v.size()) + " folders;"; });
			step("noop", [&] { st->noop(); }); step("disconnect", [&] { st->disconnect(); });
		}
	}
	CHECK(!net.deadlock, "the client waits for ever");
	return g;
}
static S trimmed(S s) { while (!s.empty() && strchr(" \t\r\n", s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && strchr(" \t", s[i])) ++i; return s.substr(i); }
static S all(const std::vector <Ev>& v) { S r; for (auto& e : v) r += S(1, e.kind) + "[" + e.text + (e.n ? " " + str(e.n) : S()) + "] "; return r; }

static void one(mc::Run& R, const Plan& plan, const S& user, const S& pass, const std::vector <S>& mechs, bool fallback, int frag, size_t cut, S* full = NULL) {
	const bool tearing = cut != size_t(-1);
	const Log bare = play(plan, user, pass, mechs, fallback, 0, frag, cut), t = play(plan, user, pass, mechs, fallback, 1, frag, cut), d = play(plan, user, pass, mechs, fallback, 2, frag, cut);
	if (full) { size_t n = 0; for (auto& x : bare.said) n += x.size() + 1; *full = str(n); }
	R.outcome(t.result + all(t.ev)); R.transition();
	// a tracer changes nothing
	R.equal(mc::show(t.lines), mc::show(bare.lines), "what is sent with a tracer"); R.equal(t.mail, bare.mail, "message sent with a tracer"); R.equal(t.result, bare.result, "result with a tracer"); R.equal(mc::show(d.lines), mc::show(bare.lines), "what is sent with a plain tracer"); R.equal(d.result, bare.result, "result with a plain tracer");
	// no secret, in any trace or error
	for (const Log* g : {&t, &d}) for (auto& e : g->ev) CHECK(!reveals(e.text, pass), "the password can be read in the trace '" + e.text + "'");
	for (const Log* g : {&bare, &t}) for (auto& e : g->errors) CHECK(!reveals(e, pass), "the password can be read in the error '" + e + "'");
	// what was sent
	std::vector <S> sent; for (auto& e : t.ev) if (e.kind == 'S') sent.push_back(e.text);
	std::vector <S> want; for (size_t i = 0 ; i < t.lines.size() ; ++i) if (!t.secret[i]) want.push_back(t.lines[i]);
	size_t w = 0; for (auto& s : sent) if (w < want.size() && s == want[w]) ++w;
	CHECK(w == want.size(), "the command '" + (w < want.size() ? want[w] : S()) + "' is not in the trace, at its place: " + all(t.ev));
	size_t secretLines = 0; for (bool b : t.secret) secretLines += b; size_t events = 0, bytes = 0; for (auto& e : t.ev) { events += e.kind == 'S' || (e.kind == 's' && !e.text.empty()); if (e.kind == 's' && e.text.empty()) bytes += e.n; }
	CHECK(events == want.size() + secretLines, str(want.size() + secretLines) + " lines sent, " + str(events) + " in the trace: " + all(t.ev));
	if (!tearing) CHECK(bytes == (t.mail.empty() ? 0 : MAIL.size()), "message data traced as " + str(bytes) + " bytes");
	// what was received
	std::vector <S> rec; for (auto& e : t.ev) if (e.kind == 'R') rec.push_back(trimmed(e.text));
	size_t k = 0; std::vector <bool> seen(t.said.size());
	for (auto& r : rec) { size_t j = k; while (j < t.said.size() && trimmed(t.said[j].substr(1)) != r) ++j; CHECK(j < t.said.size(), "the trace shows '" + r + "', which the server did not say there: " + all(t.ev)); if (j < t.said.size()) { seen[j] = true; k = j + 1; } }
	if (!tearing) for (size_t i = 0 ; i < t.said.size() ; ++i) if (t.said[i][0] == 'r' && !seen[i]) { const bool last = i + 2 >= t.said.size() && (t.lines.empty() || t.lines.back().find("QUIT") != S::npos || t.lines.back().find("LOGOUT") != S::npos); CHECK(last, "the answer '" + t.said[i].substr(1) + "' is not in the trace: " + all(t.ev)); }
	// the default rendering of byte counts
	std::vector <Ev> exp; for (auto& e : t.ev) if (e.kind == 's' || e.kind == 'r') exp.push_back({char(toupper(e.kind)), "{..." + (e.text.empty() ? S() : e.text + ": ") + str(e.n) + " bytes of data...}", 0}); else exp.push_back(e);
	R.equal(all(d.ev), all(exp), "trace with the default rendering");
}

void mc_main(mc::Run& R) {
	initPlatform(); SASLMechanismFactory::getInstance()->registerMechanism <XOAuth2SASLMechanism>("XOAUTH2");
	R.property = "C45";
	R.rule = "every protocol x way to authenticate x answers of the server x user name and password, every place where the connection breaks, every fragmentation listed; without a tracer, with one, and with one that keeps the default rendering";
	R.assumptions = {"the server does not send the password back", "a hash of the password (APOP, CRAM-MD5) is not the password"};
	const std::vector <S> users = {"joe", "a b@y.example", "\xc3\xa9t\xc3\xa9"}, passes = {"tanstaaf", "two words", "qu\"o\\te1", "p\xc3\xa4ssw\xc3\xb6rd", S(70, 'k') + "ey"};
	struct Way { S name; std::vector <S> mechs; bool apop, fallback; };
	const std::vector <Way> ways = {{"login", {}, false, false}, {"apop", {}, true, false}, {"PLAIN", {"PLAIN"}, false, false}, {"LOGIN", {"LOGIN"}, false, false}, {"CRAM-MD5", {"CRAM-MD5"}, false, false}, {"XOAUTH2", {"XOAUTH2"}, false, false}, {"PLAIN, LOGIN", {"PLAIN", "LOGIN"}, false, false}, {"CRAM-MD5, PLAIN, fallback", {"CRAM-MD5", "PLAIN"}, false, true}, {"XOAUTH2, fallback", {"XOAUTH2"}, true, true}};
	for (int proto = 0 ; proto < 3 ; ++proto) for (auto& way : ways) {
		if (proto == 0 && way.mechs.empty()) continue; if (proto != 1 && way.name == "apop") continue;
		Plan p; p.proto = proto; p.apop = way.apop; if (!way.mechs.empty()) p.mechs = {"PLAIN", "LOGIN", "CRAM-MD5", "XOAUTH2"};
		p.chal["PLAIN"] = {""}; p.chal["LOGIN"] = {"User Name", "Password"}; p.chal["CRAM-MD5"] = {"<1896.697170952@postoffice.reston.mci.net>"};
		for (auto& u : users) for (auto& pw : passes) for (int v = 0 ; v < 8 ; ++v) for (int x = 0 ; x < 4 ; ++x) R.testL([&] { return S("dialogue|") + PN[proto] + " " + way.name + " " + u + "|" + pw + " verdicts " + str(v) + " variant " + str(x); }, [&] {
			Plan q = p; q.verdicts = {(v & 1) != 0, (v & 2) != 0, (v & 4) != 0, true}; q.pipelining = x & 1; q.refuse = x >> 1; for (int frag : {0, 1, 3}) { if (frag && (v & 6)) continue; one(R, q, u, pw, way.mechs, way.fallback, frag, size_t(-1)); }
		});
		// the connection breaks at every place
		for (int v = 0 ; v < 4 ; ++v) for (auto& pw : {S("tanstaaf"), S("qu\"o\\te1")}) {
			Plan q = p; q.verdicts = {(v & 1) != 0, (v & 2) != 0, true}; size_t n = 0; { const Log g = play(q, "joe", pw, way.mechs, way.fallback, 0, 0, size_t(-1)); for (auto& s : g.said) n += s.size() + 1; }
			for (size_t c = 0 ; c < n ; ++c) { if (!R.thorough && pw[0] == 'q' && c % 3) continue; R.testL([&] { return S("broken|") + PN[proto] + " " + way.name + "|" + pw + " verdicts " + str(v) + " after " + str(c); }, [&] { one(R, q, "joe", pw, way.mechs, way.fallback, 0, c); if (R.thorough) one(R, q, "joe", pw, way.mechs, way.fallback, 1, c); }); }
		}
	}
}
