// C38: a secured connection is really secured (TLS sockets, implicit TLS and STARTTLS).
#include "tlssim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/securedConnectionInfos.hpp"
#include "vmime/net/tls/TLSSession.hpp"
#include "vmime/net/tls/TLSSocket.hpp"
#include "vmime/net/tls/TLSProperties.hpp"
#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/certificateChain.hpp"
#include "vmime/security/defaultAuthenticator.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
using namespace vmime; using namespace vmime::net; using namespace vmime::security::cert; using certs::Cert; using certs::DAY;

struct Handler : public platforms::posix::posixHandler { const string getHostName() const { return "client.example"; } };
static const S HOST = "sim.example";

// ---- certificates: what the server presents, and whether a client that trusts 'root' may go on
struct Pki {
	Cert root, inter, other, good, viaInter, wrong, expired, early, self, badSigner, otherLeaf; std::map <S, std::pair <std::vector <Cert>, bool> > kinds;
	Pki() {
		const time_t n = ::time(NULL), a = n - 100 * DAY, b = n + 100 * DAY;
		root = certs::make({"root", "Root", "Root", 10, 10, true, a, b, {}, "", {}, true});
		inter = certs::make({"inter", "Inter", "Root", 11, 10, true, a, b, {}, "", {}, true});
		other = certs::make({"other", "Other", "Other", 12, 12, true, a, b, {}, "", {}, true});
		good = certs::make({"good", "good", "Root", 1, 10, false, a, b, {HOST}, "", {}, true});
		viaInter = certs::make({"viaInter", "via", "Inter", 1, 11, false, a, b, {HOST}, "", {}, true});
		wrong = certs::make({"wrong", "w", "Root", 1, 10, false, a, b, {"sim.example.org"}, "", {}, true});
		expired = certs::make({"expired", "e", "Root", 1, 10, false, a, n - DAY, {HOST}, "", {}, true});
		early = certs::make({"early", "y", "Root", 1, 10, false, n + DAY, b, {HOST}, "", {}, true});
		self = certs::make({"self", "s", "s", 1, 1, false, a, b, {HOST}, "", {}, true});
		badSigner = certs::make({"badSigner", "z", "Root", 1, 12, false, a, b, {HOST}, "", {}, false});
		otherLeaf = certs::make({"otherLeaf", "o", "Other", 1, 12, false, a, b, {HOST}, "", {}, true});
		kinds["good"] = {{good}, true}; kinds["with an intermediate"] = {{viaInter, inter}, true}; kinds["without its intermediate"] = {{viaInter}, false}; kinds["for another host"] = {{wrong}, false}; kinds["expired"] = {{expired}, false}; kinds["not yet valid"] = {{early}, false}; kinds["self-signed"] = {{self}, false}; kinds["signed by a key that is not the root's"] = {{badSigner}, false}; kinds["of an unknown authority"] = {{otherLeaf, other}, false}; kinds["good, the key being another"] = {{good}, false};
	}
};
static Pki& pki() { static Pki p; return p; }
static shared_ptr <certificateVerifier> verifier() {
	auto v = make_shared <defaultCertificateVerifier>(); std::vector <shared_ptr <X509Certificate> > r; r.push_back(X509Certificate::import((const byte_t*) pki().root.der.data(), pki().root.der.size())); v->setX509RootCAs(r); return v;
}
static tlssim::Cfg server(const S& kind = "good", bool implicit = true) { tlssim::Cfg c; c.chain = pki().kinds[kind].first; c.key = kind == "good, the key being another" ? 2 : 1; c.implicit = implicit; return c; }
#ifdef VMIME_CHECK_OPENSSL
static const char* const V12 = "NORMAL:-VERS-ALL:+VERS-TLS1.2";
#else
static const char* const V12 = "NORMAL:-VERS-ALL:+VERS-TLS1.2";
#endif

// ---- part A: the socket
struct RawApp : public SimServer { S send, got; size_t closeAt = size_t(-1), sendAt = 0; void connected() { data(S()); } void data(const S& in) { got += in; if (got.size() >= sendAt) { out += send; send.clear(); } if (got.size() >= closeAt) closed = true; } };
struct RawCase { tlssim::Cfg cfg; S up, down; size_t chunk = size_t(-1), readMax = 65536; bool nonBlocking = false, echo = false, close = false; };
struct RawOut { S got, serverGot, error, phase; bool handshaken = false, closedSeen = false; std::shared_ptr <RawApp> app; shared_ptr <tlssim::Server> srv; bool timedOut = false; bool connAfter = false, wireAfter = false; };
static S payload(size_t n, int salt) { S s; for (size_t i = 0 ; s.size() < n ; ++i) s += "MARK" + str(i * 7 + salt) + char(i * 31 + salt); s.resize(n); return s; }
static RawOut play(SimNet& net, const RawCase& k, shared_ptr <timeoutHandler> th = shared_ptr <timeoutHandler>()) {
	RawOut o; o.app = std::make_shared <RawApp>(); o.app->send = k.down; if (k.echo) o.app->sendAt = k.up.size(); if (k.close) o.app->closeAt = k.up.size();
	net.server = [&] { o.srv = make_shared <tlssim::Server>(k.cfg, o.app); return o.srv; };
	auto plain = make_shared <SimSocket>(&net, th); auto ses = tls::TLSSession::create(verifier(), make_shared <tls::TLSProperties>()); auto s = ses->getSocket(plain);
	CHECK(!s->isConnected(), "said to be connected before it is");
	try {
		o.phase = "connect"; s->connect(HOST, 993); o.handshaken = true; CHECK(s->isConnected(), "not said to be connected"); CHECK(s->getPeerName() == HOST, "peer name");
		auto pc = s->getPeerCertificates(); CHECK(pc && pc->getCount() == k.cfg.chain.size(), "number of peer certificates"); for (size_t i = 0 ; i < pc->getCount() ; ++i) { auto e = pc->getAt(i)->getEncoded(); CHECK(S(e.begin(), e.end()) == k.cfg.chain[i].der, "peer certificate " + str(i)); }
		o.phase = "send";
		for (size_t p = 0 ; p < k.up.size() ; ) {
			const size_t n = std::min(k.chunk, k.up.size() - p);
			if (!k.nonBlocking) { s->sendRaw((const byte_t*) k.up.data() + p, n); p += n; continue; }
			unsigned idle = 0; const size_t w = s->sendRawNonBlocking((const byte_t*) k.up.data() + p, n); CHECK(w <= n, "more bytes sent than given");
			if (w == 0) { CHECK(++idle < 1000, "never sent"); CHECK(s->getStatus() & (net::socket::STATUS_WANT_WRITE | net::socket::STATUS_WANT_READ | net::socket::STATUS_WOULDBLOCK), "nothing sent, and no status says why"); } p += w;
		}
		o.phase = "receive"; unsigned idle = 0; std::vector <byte_t> b(k.readMax);
		while (k.close || o.got.size() < k.down.size()) {
			size_t n;
			if (k.readMax == 65536) { S x; s->receive(x); o.got += x; n = x.size(); } else { n = s->receiveRaw(&b[0], k.readMax); CHECK(n <= k.readMax, "more bytes than asked for"); o.got.append((const char*) &b[0], n); }
			if (n == 0) { s->waitForRead(1000); if (th && th->isTimeOut() && !th->handleTimeOut()) throw exceptions::operation_timed_out(); if (++idle > 100000) { o.error = "reads give nothing, forever"; break; } } else idle = 0;
		}
		o.phase = "disconnect"; o.serverGot = o.app->got; s->disconnect(); CHECK(!s->isConnected(), "still connected after disconnect"); o.phase = "done";
	} catch (exceptions::operation_timed_out& e) { o.error = e.what(); o.timedOut = true; o.serverGot = o.app->got; }
	catch (vmime::exception& e) { o.error = S(e.name()) + ": " + e.what(); o.serverGot = o.app->got; }
	o.wireAfter = plain->isConnected(); o.connAfter = s->isConnected();
	if (o.error.empty()) o.error = o.phase == "done" ? "" : "?";
	return o;
}
static bool prefix(const S& a, const S& b) { return b.compare(0, a.size(), a) == 0; }
static void wire(const SimNet& net, const RawCase& k, const S& ctx) {
	if (k.up.size() >= 8) CHECK(net.sent.find(k.up.substr(0, 8)) == S::npos, ctx + ": data sent in clear");
}
static void raw(mc::Run& R) {
	for (const char* v : {"NORMAL", V12}) for (int mode = 0 ; mode < (R.thorough ? 12 : 6) ; ++mode) R.testL([&] { return S("bytes both ways, ") + v + ", mode " + str(mode); }, [&] {
		const std::vector <size_t> sizes = {0, 1, 2, 100, 16383, 16384, 16385, 40000}; const std::vector <size_t> records = {1, 3, 100, 16384};
		for (size_t u : sizes) for (size_t d : sizes) for (size_t rec : records) {
			if (rec < 100 && d > 200) continue; if (!R.thorough && u > 20000 && d > 20000) continue;
			{
				RawCase k; k.cfg = server(); k.cfg.priority = v; k.cfg.record = rec; k.up = payload(u, 1); k.down = payload(d, 2); SimNet net; if (mode & 1) k.cfg.tickets = 2, k.cfg.rekeyAt = 1;
				if (mode == 1) net.frag = 3, net.acceptMax = 1, net.writeBlock = 1; if (mode == 2) net.frag = 4, net.splitAt = u > 200 || d > 200 ? 131 : 7, net.acceptMax = u > 200 || d > 200 ? 97 : 5; if (mode == 3) k.echo = true, k.chunk = 1000, k.nonBlocking = true, net.writeBlock = 1; if (mode == 4) k.readMax = 1, k.chunk = 13; if (mode == 5) k.readMax = 17, k.close = true, k.nonBlocking = true, net.acceptMax = 100;
				if (mode > 5) { k.readMax = mode == 6 ? 16384 : 65536; k.echo = mode & 2; net.acceptMax = size_t(mode) * 100; net.frag = 4; net.splitAt = size_t(mode - 5) * 5; k.cfg.rekeyAt = mode - 6; k.cfg.tickets = 1; }
				if ((mode == 1 || mode == 4) && (u > 20000 || d > 20000)) continue; if (!R.thorough && mode == 1 && (u > 200 || d > 200) && (u > 200) == (d > 200)) continue;
				if (!R.thorough && mode == 1 && (u == 16383 || u == 16384 || d == 16383 || d == 16384)) continue; if (!R.thorough && mode == 2 && u > 20000 && d > 200) continue;
				R.transition(); const S ctx = S(v) + ", " + str(u) + " bytes up, " + str(d) + " down in records of " + str(rec) + ", mode " + str(mode);
				const RawOut o = play(net, k); R.trace();
				CHECK(o.handshaken, ctx + ": handshake: " + o.error); CHECK(o.serverGot == k.up, ctx + ": the server received " + str(o.serverGot.size()) + " bytes, or others"); CHECK(o.got == k.down, ctx + ": received " + str(o.got.size()) + " bytes, or others (" + o.error + ")");
				wire(net, k, ctx);
				if (k.close) CHECK(!o.error.empty() && o.error[0] != 'r', ctx + ": closed by the server: " + (o.error.empty() ? "not noticed" : o.error));
				else { CHECK(o.error.empty(), ctx + ": " + o.error); CHECK(o.srv->clientBye || net.writeBlock, ctx + ": no close notification for the server"); CHECK(o.srv->afterBye.empty(), ctx + ": data after the close notification"); CHECK(!o.wireAfter, ctx + ": the connection stays open"); }
				R.state(ctx);
			}
		}
	});
	for (const char* v : {"NORMAL", V12}) for (int how = 0 ; how < (R.thorough ? 6 : 5) ; ++how) for (size_t part = 0 ; part < 4 ; ++part) R.testL([&] { return S("the network fails at every byte, ") + v + ", way " + str(how) + ", part " + str(part); }, [&] {
		{
			RawCase k; k.cfg = server("with an intermediate"); k.cfg.priority = v; k.cfg.tickets = 1; k.cfg.record = 11; k.up = payload(20, 1); k.down = payload(40, 2); k.echo = true;
			SimNet ref; RawOut o = play(ref, k); CHECK(o.error.empty(), o.error); const size_t total = ref.total; CHECK(total > 300, "total"); R.count("bytes_cut", total);
			for (size_t at = part ; at < total ; at += 4) {
				if (!R.thorough && v == S(V12) && at / 4 % 3 != size_t(how) % 3) continue;
				SimNet net; RawCase x = k; int fired = 0; shared_ptr <timeoutHandler> th; if (how == 2 || how == 3) th = make_shared <SimTimeout>(&net, 60000, &fired);
				const char* const names[] = {"broken", "corrupted", "stalled", "stalled (socket without time-outs)", "cut in two reads", "broken, byte by byte"};
				if (how == 0 || how == 5) net.cutTotal = at; if (how == 5) net.frag = 3; if (how == 1) x.cfg.corrupt = at; if (how == 2 || how == 3) { net.stallAt = at; net.posixWaits = how == 2; } if (how == 4) net.frag = 5, net.splitAt = at;
				R.transition(); const S ctx = S(v) + ", " + names[how] + " at byte " + str(at) + " of " + str(total); o = play(net, x, th); R.trace(); wire(net, x, ctx);
				CHECK(prefix(o.got, k.down), ctx + ": wrong data received"); CHECK(prefix(o.serverGot, k.up), ctx + ": wrong data sent");
				CHECK(o.handshaken || o.serverGot.empty(), ctx + ": data sent although the handshake failed"); CHECK(o.error != "reads give nothing, forever", ctx + ": " + o.error);
				if (how == 4) { CHECK(o.error.empty() && o.got == k.down && o.serverGot == k.up, ctx + ": " + o.error); }
				else if (how == 1) { if (o.error.empty()) CHECK(o.got == k.down && o.serverGot == k.up, ctx + ": not noticed"); }
				else CHECK(!o.error.empty(), ctx + ": not noticed");
				if (how == 2 || how == 3) CHECK(o.timedOut && fired > 0, ctx + ": no time-out (" + o.error + ")");
				if (!o.handshaken) { CHECK(!o.connAfter, ctx + ": said to be connected"); CHECK(!o.wireAfter, ctx + ": the connection stays open"); }
				R.outcome(o.phase);
			}
		}
	});
	R.testL([&] { return S("who the server is"); }, [&] {
		for (auto& c : pki().kinds) for (const char* v : {"NORMAL", V12}) for (int frag : {0, 1, 3}) {
			RawCase k; k.cfg = server(c.first); k.cfg.priority = v; k.up = payload(20, 1); k.down = payload(20, 2); SimNet net; net.frag = frag; R.transition();
			const S ctx = S(v) + ", certificate " + c.first; const RawOut o = play(net, k); R.trace();
			CHECK(o.handshaken == c.second.second, ctx + ": " + (o.handshaken ? "accepted" : "refused: " + o.error));
			if (!o.handshaken) { CHECK(o.serverGot.empty() && o.got.empty(), ctx + ": data exchanged"); CHECK(!o.connAfter, ctx + ": said to be connected"); CHECK(!o.wireAfter, ctx + ": the connection stays open"); CHECK(o.phase == "connect", ctx + ": " + o.phase); }
			else CHECK(o.error.empty() && o.serverGot == k.up && o.got == k.down, ctx + ": " + o.error);
			R.outcome(o.error);
		}
		// not a TLS server at all
		for (const S& g : {S("* OK ready\r\n"), S("220 hello\r\n220 hello\r\n220 hello\r\n"), S("\x16\x03\x03\x00\x02\x00\x00", 7), S("\x15\x03\x03\x00\x02\x02\x28", 7), S("\x17\x03\x03\x00\x05hello", 10), S("")}) for (int close = 0 ; close < 2 ; ++close) {
			SimNet net; net.server = [&] { struct Fixed : public LineServer { S g; bool c; void connected() { out = g; closed = c; } void line(const S&) {} }; auto f = make_shared <Fixed>(); f->g = g; f->c = close; return f; };
			auto p = make_shared <SimSocket>(&net, make_shared <SimTimeout>(&net, 60000, new int(0))); auto s = tls::TLSSession::create(verifier(), make_shared <tls::TLSProperties>())->getSocket(p); bool ok = false; R.transition();
			try { s->connect(HOST, 1); ok = true; } catch (vmime::exception& e) { R.outcome(e.name()); }
			CHECK(!ok && !s->isConnected() && !p->isConnected(), "handshake with a server that says " + esc(g) + " succeeded, or the connection stays open");
		}
	});
}

// ---- part B: the protocols
enum React { OK, REFUSE, BAD, GARBAGE, CLOSE, INJECT, PLAINTEXT };
struct Proto { S scheme, prefix; bool implicit; int p; };     // p: 0 smtp, 1 pop3, 2 imap
static const std::vector <Proto> PROTOS = {{"smtp", "transport.smtp.", false, 0}, {"smtps", "transport.smtps.", true, 0}, {"pop3", "store.pop3.", false, 1}, {"pop3s", "store.pop3s.", true, 1}, {"imap", "store.imap.", false, 2}, {"imaps", "store.imaps.", true, 2}};
struct Env; 
struct App : public LineServer {
	int p; React react; S inject; tlssim::Server* t = NULL; std::vector <S>* clear; std::vector <S>* sec; int auth = 0; bool preauth = false, greetBye = false, forget = false; S tag; bool plainMode = false;
	void connected() { if (p == 0) reply("220 sim ESMTP"); else if (p == 1) reply("+OK sim <1.2@sim>"); else reply(preauth ? "* PREAUTH ready" : forget ? "* OK [CAPABILITY IMAP4rev1 STARTTLS AUTH=PLAIN] ready" : "* OK ready"); }
	void data(const S& in) { if (plainMode) { if (!wantsQuit(in)) { connected(); out += out; } return; } LineServer::data(in); }
	static bool wantsQuit(const S& in) { return in.find("QUIT") != S::npos || in.find("LOGOUT") != S::npos; }
	void line(const S& l) {
		(t->tls ? *sec : *clear).push_back(l);
		const size_t sp = p == 2 ? l.find(' ') : 0; const S tg = p == 2 ? l.substr(0, sp) : S(); S cmd = p == 2 ? l.substr(sp + 1) : l; S w = cmd.substr(0, cmd.find(' ')); for (auto& c : w) c = char(toupper(c));
		if (auth) { auth = 0; if (p == 0) reply("235 ok"); else if (p == 1) reply("+OK"); else reply(tag + " OK in"); return; }
		if (w == "STARTTLS" || w == "STLS") {
			if (t->tls) { reply(p == 0 ? "503 already" : p == 1 ? "-ERR already" : tg + " BAD already"); return; }
			if (preauth) { reply(tg + " BAD not now"); return; }
			switch (react) {
			case OK: case INJECT: case PLAINTEXT: reply(p == 0 ? "220 go" : p == 1 ? "+OK go" : tg + " OK go"); if (react == INJECT) out += inject; if (react == PLAINTEXT) plainMode = true; else t->wantTls = true; buf.clear(); break;
			case REFUSE: reply(p == 0 ? "454 not now" : p == 1 ? "-ERR no" : tg + " NO no"); break;
			case BAD: reply(p == 0 ? "502 what?" : p == 1 ? "-ERR what?" : tg + " BAD what?"); break;
			case GARBAGE: reply("!!"); break;
			case CLOSE: closed = true; break;
			}
			return;
		}
		if (p == 0) {
			if (w == "EHLO") { reply("250-sim"); if (!t->tls) reply("250-STARTTLS"); if (t->tls) reply("250-SIZE 1000"); reply(t->tls && forget ? "250 HELP" : "250 AUTH PLAIN LOGIN"); }
			else if (w == "AUTH") { if (l == "AUTH PLAIN" ) { auth = 1; reply("334 "); } else if (l.compare(0, 11, "AUTH PLAIN ") == 0) reply("235 ok"); else reply("504 no"); }
			else if (w == "QUIT") { reply("221 bye"); closed = true; }
			else if (w == "NOOP" || w == "RSET" || w == "HELO") reply("250 ok"); else reply("500 what?");
		} else if (p == 1) {
			if (w == "CAPA") { reply("+OK"); if (!t->tls || !forget) reply("SASL PLAIN"); if (!t->tls) reply("STLS"); reply("."); }
			else if (w == "AUTH") { if (l == "AUTH PLAIN") { auth = 1; reply("+ "); } else if (l.compare(0, 11, "AUTH PLAIN ") == 0) reply("+OK"); else reply("-ERR no"); }
			else if (w == "USER" || w == "PASS" || w == "APOP" || w == "NOOP") reply("+OK"); else if (w == "QUIT") { reply("+OK bye"); closed = true; } else reply("-ERR what?");
		} else {
			if (w == "CAPABILITY") { reply(S("* CAPABILITY IMAP4rev1") + (t->tls && forget ? "" : " AUTH=PLAIN") + (t->tls ? " SECURED" : " STARTTLS")); reply(tg + " OK done"); }
			else if (w == "AUTHENTICATE") { if (cmd == "AUTHENTICATE PLAIN") { auth = 1; tag = tg; reply("+ "); } else if (cmd.compare(0, 19, "AUTHENTICATE PLAIN ") == 0) reply(tg + " OK in"); else reply(tg + " NO no"); }
			else if (w == "LOGIN") reply(tg + " OK in"); else if (w == "LIST") { reply("* LIST (\\Noselect) \"/\" \"\""); reply(tg + " OK done"); } else if (w == "NOOP") reply(tg + " OK done"); else if (w == "LOGOUT") { reply("* BYE bye"); reply(tg + " OK bye"); closed = true; } else reply(tg + " BAD what?");
		}
	}
};
struct Case { int proto; int tls; React react = OK; S cert = "good", inject; bool sasl = false, auth = true, preauth = false, forget = false; const char* priority = "NORMAL"; };   // tls: 0 not wanted, 1 wanted, 2 required
struct Session { S error, trace; bool ok = false, securedClaim = false, claimAfter = false, infos = false, up = false, crypted = false, timedOut = false; std::vector <S> clear, sec; S wire; bool stillConnected = false; shared_ptr <tlssim::Server> srv; std::shared_ptr <App> app; shared_ptr <net::service> sv; };
static Session session1(SimNet& net, const Case& c, shared_ptr <timeoutHandlerFactory> tf, shared_ptr <net::service> again = shared_ptr <net::service>()) {
	Session o; const Proto& P = PROTOS[c.proto]; auto ses = net::session::create(); auto& pr = ses->getProperties();
	net.server = [&]() -> shared_ptr <SimServer> { o.app = std::make_shared <App>(); o.app->p = P.p; o.app->react = c.react; o.app->inject = c.inject; o.app->clear = &o.clear; o.app->sec = &o.sec; o.app->preauth = c.preauth; o.app->forget = c.forget; auto g = server(c.cert, P.implicit); g.priority = c.priority; if (P.implicit && c.react == PLAINTEXT) g.implicit = false; o.srv = make_shared <tlssim::Server>(g, o.app); o.app->t = o.srv.get(); return o.srv; };
	pr[P.prefix + "auth.username"] = S("joeuser"); pr[P.prefix + "auth.password"] = S("secretpw"); pr[P.prefix + "options.sasl"] = c.sasl || P.p == 0; pr[P.prefix + "options.sasl.fallback"] = false; pr[P.prefix + "options.apop"] = false; pr[P.prefix + "connection.tls"] = c.tls > 0; pr[P.prefix + "connection.tls.required"] = c.tls > 1; pr[P.prefix + "options.need-authentication"] = c.auth;
	shared_ptr <net::service> s = again; if (!s) { const utility::url u(P.scheme + "://" + HOST); if (P.p == 0) s = ses->getTransport(u); else s = ses->getStore(u); s->setSocketFactory(make_shared <SimSocketFactory>(&net)); if (tf) s->setTimeoutHandlerFactory(tf); s->setCertificateVerifier(verifier()); }
	o.sv = s;
	try {
		s->connect(); o.ok = true; o.trace = "connected "; o.securedClaim = s->isSecuredConnection(); auto ci = s->getConnectionInfos(); o.infos = ci && dynamicCast <tls::TLSSecuredConnectionInfos>(ci); o.up = s->isConnected();
		if (o.infos) { auto pc = dynamicCast <tls::TLSSecuredConnectionInfos>(ci)->getPeerCertificates(); CHECK(pc && pc->getCount() == o.srv->c.chain.size(), "peer certificates"); }
		o.crypted = o.srv && o.srv->up; const size_t before = o.sec.size(); (void) before;
		s->noop(); o.trace += "noop "; s->disconnect(); o.trace += "done"; o.stillConnected = s->isConnected(); o.claimAfter = s->isSecuredConnection();
	} catch (exceptions::operation_timed_out& e) { o.error = e.what(); o.timedOut = true; } catch (vmime::exception& e) { o.error = S(e.name()) + ": " + e.what(); }
	if (!o.ok) { o.stillConnected = s->isConnected(); o.claimAfter = s->isSecuredConnection(); }
	o.wire = net.sent; return o;
}
static bool harmless(const S& l, int p) {
	const size_t sp = p == 2 ? l.find(' ') : 0; const S cmd = p == 2 ? l.substr(sp + 1) : l; const S w = cmd.substr(0, cmd.find(' '));
	static const std::set <S> ok = {"EHLO", "HELO", "STARTTLS", "QUIT", "CAPA", "STLS", "CAPABILITY", "LOGOUT", "NOOP"}; return ok.count(w) && l.find("secretpw") == S::npos;
}
static bool leaks(const S& w) { for (const char* x : {"secretpw", "joeuser", "AGpvZXVzZXIAc2VjcmV0cHc", "c2VjcmV0cHc", "am9ldXNlcg"}) if (w.find(x) != S::npos) return true; return false; }
static S show(const Case& c) { static const char* const r[] = {"accepted", "refused", "rejected", "answered by garbage", "answered by closing", "accepted, with extra plaintext", "not followed by TLS"}; static const char* const t[] = {"not wanted", "wanted", "required"}; return PROTOS[c.proto].scheme + ", TLS " + t[c.tls] + " and " + r[c.react] + ", certificate " + c.cert + (c.sasl ? ", SASL" : "") + (c.auth ? "" : ", no authentication") + (c.preauth ? ", pre-authenticated" : "") + (c.inject.empty() ? S() : ", injected " + esc(c.inject)); }
// what must hold of every session, whatever happened
static void invariants(const Case& c, const Session& o, const S& ctx) {
	const Proto& P = PROTOS[c.proto]; const bool must = P.implicit || c.tls == 2, started = P.implicit || (o.srv && o.srv->tls);
	const bool noise = P.implicit && c.react == PLAINTEXT;   // lines are pieces of the random ClientHello
	if (must || started) { if (!noise) for (auto& l : o.clear) CHECK(harmless(l, P.p), ctx + ": sent in clear: " + l); CHECK(!leaks(o.wire), ctx + ": credentials sent in clear"); }
	if (!pki().kinds[c.cert].second) CHECK(o.sec.empty(), ctx + ": talked to a server that cannot be trusted: " + (o.sec.empty() ? S() : o.sec[0]));
	if (o.ok) { CHECK(o.up, ctx + ": connect() returned, but not connected"); CHECK(o.securedClaim == o.crypted && o.infos == o.crypted, ctx + ": connection said to be " + (o.securedClaim ? "" : "not ") + "secured, infos " + (o.infos ? "" : "not ") + "so; it is " + (o.crypted ? "" : "not ") + "so"); if (must) CHECK(o.crypted, ctx + ": connected without TLS"); CHECK(o.crypted || c.tls < 2, ctx); }
	else { CHECK(!o.stillConnected, ctx + ": connect() failed, but still connected"); }
	if (o.ok || !o.srv || !o.srv->up || !pki().kinds[c.cert].second) CHECK(!o.claimAfter, ctx + ": said to be secured although there is no connection");
}
static void protocols(mc::Run& R) {
	auto one = [&](const Case& c, Session* out = NULL, int frag = 0, size_t splitAt = 0) {
		SimNet net; net.frag = frag; net.splitAt = splitAt; R.transition(); const S ctx = show(c); Session o = session1(net, c, shared_ptr <timeoutHandlerFactory>()); R.trace(); CHECK(!net.deadlock || c.react == GARBAGE || c.react == INJECT || c.react == PLAINTEXT, ctx + ": both sides wait"); invariants(c, o, ctx); R.outcome(o.ok ? o.trace : o.error); R.state(ctx + o.trace); if (out) *out = o; return o.ok;
	};
	for (int p = 0 ; p < 6 ; ++p) R.testL([&] { return PROTOS[p].scheme + ": every server, every wish, every certificate"; }, [&] {
		for (int t = 0 ; t < 3 ; ++t) for (int r = OK ; r <= PLAINTEXT ; ++r) { if (r == INJECT) continue; for (auto& k : pki().kinds) for (int v = 0 ; v < 6 ; ++v) {
			const Proto& P = PROTOS[p]; Case c; c.proto = p; c.tls = t; c.react = React(r); c.cert = k.first; c.sasl = v == 1; c.auth = v != 2; c.preauth = v == 3; if (v == 4) c.priority = V12;
			if (c.preauth && P.p != 2) continue; if (!c.auth && P.p) continue; if (c.sasl && !P.p) continue; if (P.implicit && r != OK && r != PLAINTEXT) continue; if (k.first != "good" && r != OK) continue;
			Session o; one(c, &o, v == 5 ? 3 : 0);
			const bool wants = P.implicit || t > 0, good = k.second.second; const S ctx = show(c);
			if (P.implicit) { CHECK(o.ok == (r == OK && good), ctx + ": " + (o.ok ? "connected" : "failed: " + o.error)); }
			else if (!wants) { CHECK(o.ok, ctx + ": failed: " + o.error); CHECK(!o.crypted, ctx); }
			else if (c.preauth) CHECK(o.ok == (t == 1) && !o.crypted, ctx + ": " + (o.ok ? "connected" : "failed: " + o.error));
			else if (r == OK) CHECK(o.ok == good, ctx + ": " + (o.ok ? "connected" : "failed: " + o.error));
			else if (r == REFUSE || r == BAD) CHECK(o.ok == (t == 1), ctx + ": " + (o.ok ? "connected" : "failed: " + o.error));
			else if (r == CLOSE || r == PLAINTEXT) CHECK(!o.ok, ctx + ": connected");
			if (o.ok) { CHECK(o.error.empty() && o.trace == "connected noop done", ctx + ": " + o.error); CHECK(o.app->p == 0 && !c.auth ? true : (o.crypted ? o.sec : o.clear).size() > 1, ctx); }
		} }
	});
	for (int p : {0, 2, 4}) R.testL([&] { return PROTOS[p].scheme + ": what was announced in clear is forgotten"; }, [&] {
		for (int t = 1 ; t < 3 ; ++t) for (int v = 0 ; v < 2 ; ++v) for (int frag : {0, 1, 3}) {
			Case c; c.proto = p; c.tls = t; c.sasl = true; c.forget = true; c.priority = v ? V12 : "NORMAL"; Session o; one(c, &o, frag); const S ctx = show(c) + ", no way to authenticate announced in TLS";
			CHECK(!o.ok, ctx + ": connected"); for (auto& l : o.sec) CHECK(harmless(l, PROTOS[p].p), ctx + ": sent " + l);
		}
	});
	for (int p : {0, 2, 4}) for (int sasl = 0 ; sasl < 2 ; ++sasl) R.testL([&] { return PROTOS[p].scheme + ": plaintext slipped in behind the answer to STARTTLS, " + str(sasl); }, [&] {
		static const std::vector <S> inj[3] = {
			{"250-evil\r\n250 AUTH LOGIN\r\n", "250 evil\r\n", "250-evil", "250-evil\r\n", "250", "5", "\r\n", "\n", " ", "500 no\r\n", "500 no\r\n500 no\r\n", "235 ok\r\n", "421 bye\r\n", "220 again\r\n", "250 evil\r\n250 evil\r\n235 welcome\r\n", "250-evil\r\n250 AUTH LOGIN\r\n334 \r\n235 ok\r\n250 noop\r\n221 bye\r\n"},
			{"+OK\r\n", "-ERR no\r\n", "+OK", "+", "+OK\r\nSASL LOGIN\r\n.\r\n", "+OK\r\n+OK\r\n+OK\r\n", "\r\n", "\n", " ", "-ERR no\r\n-ERR no\r\n", "."},
			{"* CAPABILITY IMAP4rev1 AUTH=LOGIN\r\n", "* CAPABILITY IMAP4rev1 LOGINDISABLED\r\na002 OK done\r\n", "a002 OK done\r\n", "a003 OK done\r\n", "* BAD evil\r\n", "* BYE\r\n", "* ", "a002 NO", "+ go\r\n", "\r\n", "\n", " ", "a002 OK\r\na003 OK\r\na004 OK\r\na005 OK\r\n", "* CAPABILITY IMAP4rev1 AUTH=LOGIN\r\na002 OK\r\n+ x\r\n", "* OK [ALERT] evil\r\n", "* OK {5}\r\n"}};
		for (int t = 1 ; t < 3 ; ++t) for (int v = 0 ; v < 2 ; ++v) {
			Case c; c.proto = p; c.tls = t; c.sasl = sasl && p; if (sasl && !p) c.auth = false; c.priority = v ? V12 : "NORMAL"; Session ref; one(c, &ref); CHECK(ref.ok, "reference: " + ref.error);
			for (auto& x : inj[p / 2]) for (size_t f = 0 ; f <= x.size() + 1 ; ++f) {
				c.react = INJECT; c.inject = x; Session o;
				if (f > 2 && !R.thorough && f != x.size() + 1) continue;
				// the reads are cut inside or right before the injected bytes: total bytes before them are the same in every run
				size_t before = 0; { const Proto& P = PROTOS[p]; before = P.p == 0 ? S("220 sim ESMTP\r\n250-sim\r\n250-STARTTLS\r\n250 AUTH PLAIN LOGIN\r\n220 go\r\n").size() : P.p == 1 ? S("+OK sim <1.2@sim>\r\n+OK go\r\n").size() : S("* OK ready\r\na001 OK go\r\n").size(); }
				one(c, &o, f ? 5 : 0, before + f - 1); const S ctx = show(c) + (f ? ", reads cut before its byte " + str(f - 1) : S());
				if (o.ok) { CHECK(o.error.empty() && o.sec == ref.sec && o.trace == ref.trace, ctx + ": the session took the plaintext for the server's: " + o.error); }
				else CHECK(o.sec.empty() || o.sec.size() <= ref.sec.size(), ctx);
				if (!o.ok) for (size_t i = 0 ; i < o.sec.size() ; ++i) CHECK(false, ctx + ": the plaintext was taken for the server's answer: " + o.error);
			}
		}
	});
	for (int p = 0 ; p < 6 ; ++p) for (int how = 0 ; how < 2 ; ++how) for (size_t part = 0 ; part < 4 ; ++part) R.testL([&] { return PROTOS[p].scheme + ": the connection " + (how ? "stalls" : "breaks") + " at every byte, then another is made, part " + str(part); }, [&] {
		{
			Case c; c.proto = p; c.tls = 2; SimNet n0; Session ref = session1(n0, c, shared_ptr <timeoutHandlerFactory>()); CHECK(ref.ok, "reference: " + ref.error); const size_t total = n0.total;
			for (size_t at = part ; at < total ; at += 4) {
				if (!R.thorough && at / 4 % 3 != size_t(p) % 3 && how == 1) continue;
				SimNet net; int fired = 0; if (how) net.stallAt = at; else net.cutTotal = at; R.transition(); const S ctx = PROTOS[p].scheme + (how ? ", stalled" : ", broken") + " at byte " + str(at) + " of " + str(total);
				Session o = session1(net, c, make_shared <SimTimeoutFactory>(&net, 60000, &fired)); R.trace(); invariants(c, o, ctx);
				if (!o.ok) { CHECK(!o.error.empty(), ctx); if (how) CHECK(fired > 0, ctx + ": no time-out"); }
				// the same service object connects again
				if ((!o.ok || !o.sv->isConnected()) && (R.thorough || at / 4 % 4 == size_t(p) % 4)) { net.stallAt = net.cutTotal = size_t(-1); Session o2 = session1(net, c, shared_ptr <timeoutHandlerFactory>(), o.sv); invariants(c, o2, ctx + ", second connection"); CHECK(o2.ok && o2.trace == ref.trace && o2.sec == ref.sec && o2.clear == ref.clear, ctx + ": then another connection: " + o2.error); }
				R.outcome(o.error);
			}
		}
	});
}
void mc_main(mc::Run& R) {
	platform::setHandler <Handler>(); R.property = "C38"; R.level = "model_checking";
	R.rule = "a TLS socket carries exactly the bytes given to it both ways, shows none of them on the wire, and fails on any break, change or silence of the network; service objects connect with TLS exactly when server, wish and certificate allow it, never send credentials in clear when TLS is required or begun, and never use plaintext received before TLS began";
	R.assumptions = {"the TLS server is GnuTLS's, in the process, over a simulated network", "TLS 1.3 and 1.2 with Ed25519 certificates", "nothing is assumed about the strength of the ciphers"};
	raw(R); protocols(R);
}
