// C53: logging in is done as configured: what identifies the user is sent only in the ways asked for, and a refusal is one.
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/XOAuth2SASLMechanism.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include <gnutls/crypto.h>
using namespace vmime; using namespace vmime::net; using namespace vmime::security::sasl;

static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S b64(const S& d) { S o; for (size_t i = 0 ; i < d.size() ; i += 3) { unsigned v = 0; int n = 0; for ( ; n < 3 && i + n < d.size() ; ++n) v |= (unsigned char) d[i + n] << (16 - 8 * n); o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += n > 1 ? A64[v >> 6 & 63] : '='; o += n > 2 ? A64[v & 63] : '='; } return o; }
static S unb64(const S& t) { S o; unsigned v = 0, n = 0; for (char c : t) { const char* p = c ? strchr(A64, c) : NULL; if (!p) break; v = (v << 6 | unsigned(p - A64)) & 0xfffff; n += 6; if (n >= 8) { n -= 8; o += char(v >> n); } } return o; }
static S hex(const unsigned char* b, size_t n) { static const char H[] = "0123456789abcdef"; S o; for (size_t i = 0 ; i < n ; ++i) { o += H[b[i] >> 4]; o += H[b[i] & 15]; } return o; }
static S md5(const S& t) { unsigned char d[16]; gnutls_hash_fast(GNUTLS_DIG_MD5, t.data(), t.size(), d); return hex(d, 16); }
static S hmac(const S& k, const S& t) { unsigned char d[16]; gnutls_hmac_fast(GNUTLS_MAC_MD5, k.data(), k.size(), t.data(), t.size(), d); return hex(d, 16); }
static const S CHAL = "<1896.697170952@postoffice.reston.mci.net>";

// ---- the configuration, and the server. Verdicts on what identifies the user, one after the other: k accepted, n refused, b refused (BAD), x the connection is closed, l refused then closed
struct Plan {
	int proto = 0; S greeting; S stamp; bool refused = false, preauth = false; bool ehlo = true, helo = true, specialBefore = false; std::vector <S> offered, wanted; int capWhere = 0; bool loginDisabled = false, capa = true, userRefused = false; S verdicts;
	bool sasl = false, fallback = false, apop = false, apopFallback = false, needAuth = true, saslAuth = true; S user = "joe", pass = "tanstaaf";
};
struct Srv : public LineServer {
	const Plan* p; std::vector <S>* log; int* open; size_t attempt = 0; S mech, tag, who; int at = -1; bool in = false, goneSeen = false;
	void connected() { ++*open; out += p->greeting; if (p->refused) closed = true; in = p->preauth || (p->proto == 0 && !p->needAuth); }
	void gone() { if (!goneSeen) --*open; goneSeen = true; }
	S caps() const { S m = "IMAP4rev1"; for (auto& x : p->offered) m += " AUTH=" + x; if (p->loginDisabled) m += " LOGINDISABLED"; if (in != p->specialBefore) m += " CREATE-SPECIAL-USE"; return m; }
	void verdict() {
		const char v = attempt < p->verdicts.size() ? p->verdicts[attempt] : 'n'; ++attempt; at = -1; if (v == 'x') { closed = true; return; }
		in = v == 'k'; if (v == 'l') closed = true;
		reply(p->proto == 0 ? S(in ? "235 2.7.0 welcome" : "535 no") : p->proto == 1 ? S(in ? "+OK welcome" : "-ERR no") : tag + (in ? (p->capWhere == 2 ? " OK [CAPABILITY " + caps() + "] welcome" : S(" OK welcome")) : S(v == 'b' ? " BAD no" : " NO no")));
	}
	void ask(const S& c) { reply((p->proto == 0 ? "334 " : "+ ") + b64(c)); }
	void token(const S& t) {
		const S d = unb64(t);
		if (mech == "PLAIN") { size_t a = d.find('\0'), b = a == S::npos ? a : d.find('\0', a + 1); if (b == S::npos || (a && d.substr(0, a) != d.substr(a + 1, b - a - 1))) log->push_back("PLAIN ?" + d); else log->push_back("PLAIN " + d.substr(a + 1, b - a - 1) + "/" + d.substr(b + 1)); verdict(); }
		else if (mech == "LOGIN") { if (at == 0) { who = d; at = 1; ask("Password"); } else { log->push_back("LOGIN mechanism " + who + "/" + d); verdict(); } }
		else if (mech == "CRAM-MD5") { const size_t s = d.rfind(' '); log->push_back("CRAM-MD5 " + d.substr(0, s) + "/" + (s != S::npos && d.substr(s + 1) == hmac(p->pass, CHAL) ? p->pass : S("?"))); verdict(); }
		else if (mech == "XOAUTH2") { const S want = "user=" + p->user + "\x01" "auth=Bearer ", e = "\x01\x01"; log->push_back("XOAUTH2 " + (d.size() >= want.size() + 2 && d.compare(0, want.size(), want) == 0 && d.substr(d.size() - 2) == e ? p->user + "/" + d.substr(want.size(), d.size() - want.size() - 2) : "?" + d)); verdict(); }
		else { log->push_back("unknown mechanism " + mech); verdict(); }
	}
	void line(const S& l0) {
		S l = l0;
		if (at >= 0) { if (l == "*") { log->push_back(mech + " cancelled"); at = -1; reply(p->proto == 0 ? S("501 cancelled") : p->proto == 1 ? S("-ERR cancelled") : tag + " BAD cancelled"); return; } token(l); return; }
		if (p->proto == 2) { const size_t sp = l.find(' '); tag = l.substr(0, sp); l = l.substr(sp + 1); }
		std::vector <S> w; { size_t q = 0; while (q <= l.size()) { size_t e = l.find(' ', q); if (e == S::npos) e = l.size(); w.push_back(l.substr(q, e - q)); q = e + 1; } }
		const S cmd = w[0];
		if ((cmd == "AUTH" || cmd == "AUTHENTICATE") && w.size() > 1) {
			mech = w[1]; bool has = false; for (auto& o : p->offered) has = has || o == mech; if (!has) log->push_back("mechanism " + mech + " not offered"); if (in) log->push_back("logging in again");
			at = 0; if (w.size() > 2) { token(w[2]); return; } if (mech == "PLAIN") ask(""); else if (mech == "LOGIN") ask("User Name"); else ask(mech == "DIGEST-MD5" ? S("no challenge") : CHAL); return;
		}
		if (p->proto == 0) {
			if (cmd == "EHLO") { if (!p->ehlo) { reply("502 what?"); return; } reply("250-sim"); S m; for (auto& x : p->offered) m += " " + x; if (p->capWhere == 1 && !p->offered.empty()) m[0] = '='; if (!p->offered.empty()) reply((p->capWhere == 2 ? "250-AUTH" : "250-8BITMIME\r\n250 AUTH") + m); if (p->offered.empty() || p->capWhere == 2) reply("250 SIZE"); }
			else if (cmd == "HELO") reply(p->helo ? "250 sim" : "550 no"); else if (cmd == "QUIT") { reply("221 bye"); closed = true; } else if (cmd == "NOOP") reply(in ? "250 ok" : "530 who are you"); else { log->push_back(l); reply("502 what?"); }
		} else if (p->proto == 1) {
			if (cmd == "CAPA") { if (!p->capa) { reply("-ERR no"); return; } S m; for (auto& x : p->offered) m += " " + x; reply("+OK"); reply("TOP"); if (!p->offered.empty()) reply("SASL" + m); reply("UIDL"); reply("."); }
			else if (cmd == "USER") { who = l.substr(std::min(l.size(), size_t(5))); if (p->userRefused) log->push_back("USER " + who); reply(p->userRefused ? "-ERR who?" : "+OK"); }
			else if (cmd == "PASS") { log->push_back("USER/PASS " + who + "/" + l.substr(std::min(l.size(), size_t(5)))); if (in) log->push_back("logging in again"); verdict(); }
			else if (cmd == "APOP") { log->push_back("APOP " + (w.size() == 3 ? w[1] + "/" + (w[2] == md5(p->stamp + p->pass) ? p->pass : "?") : l)); verdict(); }
			else if (cmd == "QUIT") { reply("+OK"); closed = true; } else if (cmd == "NOOP") reply("+OK"); else { log->push_back(l); reply("-ERR what?"); }
		} else {
			if (cmd == "CAPABILITY") { reply("* CAPABILITY " + caps()); reply(tag + " OK done"); }
			else if (cmd == "LIST") { if (!in) { log->push_back("LIST before logging in"); reply(tag + " BAD who are you"); return; } if (l.find("\"\" \"\"") != S::npos) reply("* LIST (\\Noselect) \"/\" \"\""); reply(tag + " OK done"); }
			else if (cmd == "CREATE" && in) reply(tag + (in != p->specialBefore ? " OK done" : " NO not that"));
			else if (cmd == "LOGIN") { log->push_back("LOGIN " + l.substr(std::min(l.size(), size_t(6)))); if (in) log->push_back("logging in again"); verdict(); }
			else if (cmd == "LOGOUT") { reply("* BYE bye"); reply(tag + " OK done"); closed = true; } else if (cmd == "NOOP") reply(tag + (in ? " OK done" : " BAD who are you")); else { log->push_back(l); reply(tag + " BAD what?"); }
		}
	}
};

// ---- what is to happen
static bool model(const Plan& p, std::vector <S>& log) {
	size_t n = 0; auto next = [&] { return n < p.verdicts.size() ? p.verdicts[n++] : 'n'; };
	const S both = p.user + "/" + p.pass;
	if (p.refused) return false; if (p.preauth) return true;
	if (p.proto == 0) { if (!p.ehlo && !p.helo) return false; if (!p.needAuth) return true; if (!p.ehlo || !p.sasl) return false; }
	if (p.sasl) {
		if (p.saslAuth && (p.proto != 1 || p.capa)) for (auto& m : p.wanted) {
			bool has = false; for (auto& o : p.offered) has = has || o == m; if (!has || m == "X-UNKNOWN") continue; if (m == "DIGEST-MD5") { log.push_back(m + " cancelled"); continue; }
			log.push_back((m == "LOGIN" ? S("LOGIN mechanism") : m) + " " + both); const char v = next(); if (v == 'k') return true; if (v == 'x' || v == 'l') { if (v == 'x') return false; n = 1000; break; }
		}
		if (n == 1000) return false;      // the server has gone: nothing can be tried any more (at most one more command is lost)
		if (p.proto == 0 || !p.fallback) return false;
	}
	if (p.proto == 2) { if (p.loginDisabled) return false; log.push_back("LOGIN " + p.user + " " + p.pass); return next() == 'k'; }
	if (p.apop) {
		if (!p.stamp.empty()) { log.push_back("APOP " + both); const char v = next(); if (v == 'k') return true; if (v == 'x' || v == 'l') return false; if (!p.apopFallback) return false; }
		else if (!p.apopFallback) return false;
	}
	if (p.userRefused) { log.push_back("USER " + p.user); return false; }
	log.push_back("USER/PASS " + both); return next() == 'k';
}

struct SaslAuth : public defaultSASLAuthenticator {
	std::vector <S> names; S user, pass;
	const std::vector <shared_ptr <SASLMechanism> > getAcceptableMechanisms(const std::vector <shared_ptr <SASLMechanism> >& a, const shared_ptr <SASLMechanism>&) const { std::vector <shared_ptr <SASLMechanism> > r; for (auto& n : names) for (auto& m : a) if (m->getName() == n) r.push_back(m); return r; }
	const string getUsername() const { return user; } const string getPassword() const { return pass; } const string getAccessToken() const { return pass; }
};
struct PlainAuth : public security::defaultAuthenticator { S user, pass; const string getUsername() const { return user; } const string getPassword() const { return pass; } };
static const char* PN[3] = {"smtp", "pop3", "imap"};

static void one(mc::Run& R, const Plan& plan0, int frag) {
	Plan plan = plan0; std::vector <S> log, want; int open = 0; const bool ok = model(plan, want); R.transition();
	SimNet net; net.frag = frag; net.server = [&] { auto s = make_shared <Srv>(); s->p = &plan; s->log = &log; s->open = &open; return s; };
	{
		auto ses = session::create(); auto& p = ses->getProperties(); shared_ptr <security::authenticator> auth;
		if (plan.saslAuth) { auto a = make_shared <SaslAuth>(); a->user = plan.user; a->pass = plan.pass; a->names = plan.wanted; auth = a; } else { auto a = make_shared <PlainAuth>(); a->user = plan.user; a->pass = plan.pass; auth = a; }
		const S pre = plan.proto ? S("store.") + PN[plan.proto] : S("transport.smtp");
		p[pre + ".options.sasl"] = plan.sasl; p[pre + ".options.sasl.fallback"] = plan.fallback; p["transport.smtp.options.need-authentication"] = plan.needAuth; p["store.pop3.options.apop"] = plan.apop; p["store.pop3.options.apop.fallback"] = plan.apopFallback;
		shared_ptr <service> sv; shared_ptr <transport> tr; shared_ptr <store> st;
		if (plan.proto) { st = ses->getStore(utility::url(S(PN[plan.proto]) + "://sim.example"), auth); sv = st; } else { tr = ses->getTransport(utility::url("smtp://sim.example"), auth); sv = tr; }
		sv->setSocketFactory(make_shared <SimSocketFactory>(&net));
		S kind; auto go = [&] { kind.clear(); try { sv->connect(); } catch (mc::Violated&) { throw; } catch (vmime::exception& e) { kind = e.name(); if (kind.empty()) kind = "?"; } };
		auto use = [&](const S& when) {
			CHECK(sv->isConnected(), when + ": not connected"); bool again = false; try { sv->connect(); } catch (exceptions::already_connected&) { again = true; } CHECK(again && sv->isConnected(), when + ": connecting again is not refused");
			try { sv->noop(); } catch (vmime::exception& e) { CHECK(false, when + ": not usable: " + e.what()); }
			if (plan.proto == 2) {      // what the server offers is what it offers now, not before logging in
				S what = "created"; try { folderAttributes at; at.setSpecialUse(folderAttributes::SPECIALUSE_DRAFTS); st->getFolder(folder::path(folder::path::component("x")))->create(at); } catch (mc::Violated&) { throw; } catch (exceptions::operation_not_supported&) { what = "not supported"; } catch (vmime::exception& e) { what = e.what(); }
				R.equal(what, plan.specialBefore ? S("not supported") : S("created"), when + ": creating a special-use mailbox where the server offers it " + (plan.specialBefore ? "only before logging in" : "only after logging in"));
			}
			sv->disconnect(); CHECK(!sv->isConnected(), when + ": still connected after disconnect"); CHECK(open == 0, when + ": a connection stays open after disconnect");
		};
		CHECK(!sv->isConnected(), "connected before it is");
		go(); CHECK(!net.deadlock, "the client waits for ever"); R.outcome(kind + mc::show(log)); R.state(mc::show(log) + plan.verdicts);
		R.equal(mc::show(log), mc::show(want), "what the client used to log in");
		R.equal(kind.empty() ? S("logged in") : S("refused"), ok ? S("logged in") : S("refused"), "result (" + kind + ")");
		if (ok) use("logged in");
		else {
			CHECK(!sv->isConnected(), "said to be connected although logging in failed (" + kind + ")"); CHECK(open == 0, "a connection stays open although logging in failed (" + kind + ")");
			bool no = false; try { sv->noop(); } catch (exceptions::not_connected&) { no = true; } catch (vmime::exception&) { } CHECK(no, "usable although logging in failed");
			if (plan.refused) CHECK(kind == "connection_greeting_error", "greeting refused: reported as " + kind);
		}
		// the same objects, once the server agrees: nothing of the failure is left
		Plan good; good.proto = plan.proto; good.user = plan.user; good.pass = plan.pass; good.sasl = plan.sasl; good.fallback = plan.fallback; good.apop = plan.apop; good.apopFallback = plan.apopFallback; good.needAuth = plan.needAuth; good.saslAuth = plan.saslAuth; good.wanted = plan.wanted; good.offered = {"PLAIN", "LOGIN", "CRAM-MD5", "XOAUTH2"}; good.stamp = "<17.42@sim.example>"; good.verdicts = "kkkk";
		good.greeting = plan.proto == 0 ? "220 hi\r\n" : plan.proto == 1 ? "+OK hi <17.42@sim.example>\r\n" : "* OK hi\r\n"; good.specialBefore = !plan.specialBefore; plan = good; log.clear(); want.clear(); const bool ok2 = model(plan, want);
		go(); R.equal(mc::show(log), mc::show(want), "what the client used to log in the next time"); R.equal(kind.empty() ? S("logged in") : S("refused"), ok2 ? S("logged in") : S("refused"), "result the next time (" + kind + ")"); if (ok2) use("logged in the next time");
	}
	CHECK(open == 0, "a connection stays open for ever");
}

static std::vector <S> words(const S& alpha, size_t max) { std::vector <S> r(1); for (size_t i = 0 ; i < r.size() ; ++i) if (r[i].size() < max) { if (!r[i].empty() && strchr("kxl", r[i].back())) continue; const S b = r[i]; for (char c : alpha) r.push_back(b + c); } std::vector <S> o; for (auto& x : r) if (!x.empty()) o.push_back(x); return o; }
void mc_main(mc::Run& R) {
	initPlatform(); SASLMechanismFactory::getInstance()->registerMechanism <XOAuth2SASLMechanism>("XOAUTH2"); R.property = "C53";
	R.rule = "every protocol x options x kind of authenticator x greeting x mechanisms offered x mechanisms wanted x answers listed, every fragmentation listed; then the same objects with a server that agrees";
	R.assumptions = {"the reference is a model of the documented options and of RFC 1939, 3501, 4954 and 5034; only what identifies the user is compared, not the other commands"};
	const std::vector <std::vector <S> > offers = {{}, {"PLAIN"}, {"X-UNKNOWN"}, {"X-UNKNOWN", "CRAM-MD5"}, {"CRAM-MD5", "PLAIN"}, {"LOGIN", "PLAIN", "CRAM-MD5"}, {"DIGEST-MD5", "PLAIN"}, {"PLAIN", "XOAUTH2"}}, wants = {{"PLAIN"}, {"PLAIN", "CRAM-MD5"}, {"CRAM-MD5", "LOGIN"}, {"LOGIN"}, {}, {"DIGEST-MD5", "PLAIN"}, {"XOAUTH2", "PLAIN"}};
	const std::vector <S> verdicts = words(R.thorough ? "knbxl" : "knbx", R.thorough ? 4 : 3);
	struct G { const char* text; const char* stamp; bool refused, preauth; };
	const std::vector <G> greets[3] = {
		{{"220 hi\r\n", "", false, false}, {"220-hi\r\n220-there\r\n220 you\r\n", "", false, false}, {"554 no\r\n", "", true, false}, {"421-no\r\n421 no\r\n", "", true, false}},
		{{"+OK hi\r\n", "", false, false}, {"+OK\r\n", "", false, false}, {"+OK hi <17.42@sim.example>\r\n", "<17.42@sim.example>", false, false}, {"+OK <17.42@sim.example>\r\n", "<17.42@sim.example>", false, false}, {"+OK POP3 (v1.2) ready <1896.697170952@dbc.mtview.ca.us> go\r\n", "<1896.697170952@dbc.mtview.ca.us>", false, false}, {"+OK (Qpopper <17.42@sim.example>)\r\n", "<17.42@sim.example>", false, false}, {"+OK write to postmaster@sim.example\r\n", "", false, false}, {"+OK <no stamp>\r\n", "", false, false}, {"-ERR no\r\n", "", true, false}},
		{{"* OK hi\r\n", "", false, false}, {"* PREAUTH hi joe\r\n", "", false, true}, {"* BYE no\r\n", "", true, false}}};
	for (int proto = 0 ; proto < 3 ; ++proto) for (size_t gi = 0 ; gi < greets[proto].size() ; ++gi) for (size_t oi = 0 ; oi < offers.size() ; ++oi) for (int opt = 0 ; opt < 32 ; ++opt) {
		Plan b; b.proto = proto; b.offered = offers[oi]; const G& g = greets[proto][gi]; b.greeting = g.text; b.stamp = g.stamp; b.refused = g.refused; b.preauth = g.preauth;
		b.sasl = opt & 1; b.saslAuth = opt & 2; if (proto == 0) { b.needAuth = opt & 4; b.ehlo = !(opt & 8); b.helo = !(opt & 16); if (b.ehlo && !b.helo) continue; } else { b.fallback = opt & 4; b.apop = opt & 8; b.apopFallback = opt & 16; if (proto == 2 && (opt & 16)) continue; if (proto == 2) { b.loginDisabled = b.apop; b.apop = false; } if (proto == 1 && !b.apop && b.apopFallback) continue; if (!b.sasl && (b.fallback || (oi > 1 && !b.saslAuth))) continue; }
		R.testL([&] { return S(PN[proto]) + "|greeting " + str(gi) + "|offer " + str(oi) + "|options " + str(opt); }, [&] {
			for (auto& want : wants) for (auto& v : verdicts) for (int where = 0 ; where < 3 ; ++where) {
				Plan p = b; p.wanted = want; p.verdicts = v; p.capWhere = where; if (p.refused && (v != "k" || where)) continue; if (!p.sasl && want.size() != 1) continue; if (!want.empty() && want[0] == "XOAUTH2" && oi != 0 && oi != offers.size() - 1) continue;
				if (proto == 1) { p.capa = where != 1; p.userRefused = where == 2; }
				if (proto == 2 && where == 1) { const size_t sp = p.greeting.find(' ', 2); p.greeting.insert(sp, " [CAPABILITY " + [&] { S m = "IMAP4rev1"; for (auto& x : p.offered) m += " AUTH=" + x; if (p.loginDisabled) m += " LOGINDISABLED"; if (p.preauth != p.specialBefore) m += " CREATE-SPECIAL-USE"; return m; }() + "]"); if (p.refused) continue; }
				{ std::vector <S> l; model(p, l); if (v.size() > std::max(l.size(), size_t(1))) continue; }    // answers nothing asks for
				for (int frag : {0, 1, 3}) { if (frag && !R.thorough && (where || v.size() > 1)) continue; one(R, p, frag); }
				if (proto == 2 && v.back() == 'k') { const size_t e = p.greeting.find("]"); if (where == 1 && e != S::npos) { if (p.preauth) p.greeting.erase(p.greeting.find(" CREATE-SPECIAL-USE"), 19); else p.greeting.insert(e, " CREATE-SPECIAL-USE"); } p.specialBefore = true; one(R, p, 0); }
			}
		});
	}
	// names and passwords
	for (int proto = 0 ; proto < 3 ; ++proto) for (const char* m : {"PLAIN", "LOGIN", "CRAM-MD5", "XOAUTH2", ""}) if (proto || *m) for (const char* u : {"joe", "joe@sim.example", "\xc3\xa9t\xc3\xa9", "j"}) for (const char* pw : {"tanstaaf", "x", "p\xc3\xa4ss", "with,=/+", "0123456789012345678901234567890123456789012345678901234567890123456789"}) R.testL([&] { return S("names|") + PN[proto] + " " + m + " " + u + " " + pw; }, [&] {
		if (proto == 2 && !*m) { bool atom = true; for (const char* q = pw ; *q ; ++q) atom = atom && (isalnum((unsigned char) *q) || strchr(",=/+", *q)); for (const char* q = u ; *q ; ++q) atom = atom && (isalnum((unsigned char) *q) || strchr("@.", *q)); if (!atom) return; }
		for (int apop = 0 ; apop < 2 ; ++apop) { Plan p; p.proto = proto; p.greeting = proto == 0 ? "220 hi\r\n" : proto == 1 ? "+OK hi <17.42@sim.example>\r\n" : "* OK hi\r\n"; p.stamp = proto == 1 ? "<17.42@sim.example>" : ""; p.user = u; p.pass = pw; p.sasl = *m; p.offered = p.wanted = {m}; p.apop = apop; p.verdicts = "k"; if (apop && (proto != 1 || *m)) continue; one(R, p, 0); }
	});
}
