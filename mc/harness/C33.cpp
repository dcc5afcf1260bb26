// C33: SASL exchanges and secured sockets carry bytes faithfully.
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/security/sasl/SASLContext.hpp"
#include "vmime/security/sasl/SASLSession.hpp"
#include "vmime/security/sasl/SASLSocket.hpp"
#include "vmime/security/sasl/SASLMechanism.hpp"
#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/defaultSASLAuthenticator.hpp"
#include "vmime/security/sasl/XOAuth2SASLAuthenticator.hpp"
#include "vmime/security/sasl/XOAuth2SASLMechanism.hpp"
using namespace vmime; using namespace vmime::net; using namespace vmime::security::sasl;

// ---- the security layer of the model: frames of [length:2][sequence number:1][payload xor f(sequence number)]
struct Codec {
	size_t max; unsigned seqOut = 0, seqIn = 0; S in; bool bad = false;
	Codec(size_t m = 64) : max(m) {}
	S frame(const S& p) { S r; r += char(p.size() >> 8); r += char(p.size() & 255); r += char(seqOut & 255); for (char c : p) r += char(c ^ (seqOut * 37 + 1)); ++seqOut; return r; }
	S encode(const S& p) { S r; for (size_t i = 0 ; i < p.size() ; i += max) r += frame(p.substr(i, max)); return r; }
	S decode(const S& d) {
		in += d; S r;
		while (in.size() >= 3) {
			const size_t n = (unsigned char) in[0] << 8 | (unsigned char) in[1]; if (in.size() < n + 3) break;
			if ((unsigned char) in[2] != (seqIn & 255)) { bad = true; throw exceptions::sasl_exception("frame out of order"); }
			for (size_t i = 0 ; i < n ; ++i) r += char(in[3 + i] ^ (seqIn * 37 + 1)); ++seqIn; in.erase(0, n + 3);
		}
		return r;
	}
};
struct Cfg { bool initial = false; std::vector <S> chal, resp; int throwAt = -1; bool last = true; size_t frame = 64; std::vector <S> seen; int sessions = 0; };
static std::map <S, Cfg> CFG; static const S EMPTY;

class FakeMech : public SASLMechanism {
public:
	FakeMech(const shared_ptr <SASLContext>&, const string& n) : name(n), codec(CFG[n].frame) {}
	const string getName() const { return name; }
	bool step(const shared_ptr <SASLSession>&, const byte_t* c, const size_t n, byte_t** r, size_t* rn) {
		Cfg& g = CFG[name]; const int k = at++; g.seen.push_back(S((const char*) c, n));
		if (k == g.throwAt) throw exceptions::sasl_exception("refused by the mechanism");
		const S& o = k < (int) g.resp.size() ? g.resp[k] : EMPTY; *r = new byte_t[o.size()]; std::copy(o.begin(), o.end(), *r); *rn = o.size(); return at >= (int) g.resp.size();
	}
	bool isComplete() const { return at >= (int) CFG[name].resp.size(); }
	bool hasInitialResponse() const { return CFG[name].initial; }
	static void put(const S& s, byte_t** o, size_t* n) { *o = new byte_t[s.size()]; std::copy(s.begin(), s.end(), *o); *n = s.size(); }
	void encode(const shared_ptr <SASLSession>&, const byte_t* i, const size_t n, byte_t** o, size_t* on) { put(codec.encode(S((const char*) i, n)), o, on); }
	void decode(const shared_ptr <SASLSession>&, const byte_t* i, const size_t n, byte_t** o, size_t* on) { put(codec.decode(S((const char*) i, n)), o, on); }
	S name; Codec codec; int at = 0;
};

// ---- a wire controlled operation by operation
struct Pipe : public net::socket {
	S in, out; size_t avail = 0, accept = size_t(-1); bool conn = true; unsigned st = 0;
	void connect(const string&, const port_t) {} void disconnect() { conn = false; } bool isConnected() const { return conn; }
	bool waitForRead(const int = 0) { return avail > 0; } bool waitForWrite(const int = 0) { return true; }
	void receive(string& s) { byte_t b[100]; s.assign((char*) b, receiveRaw(b, 100)); }
	size_t receiveRaw(byte_t* b, const size_t n) { st = 0; const size_t k = std::min(n, avail); if (!k) { st = STATUS_WANT_READ; return 0; } memcpy(b, in.data(), k); in.erase(0, k); avail -= k; return k; }
	void send(const string& s) { out += s; } void send(const char* s) { out += s; } void sendRaw(const byte_t* b, const size_t n) { out.append((const char*) b, n); }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) { st = 0; const size_t k = std::min(n, accept); accept -= accept == size_t(-1) ? 0 : k; if (!k && n) st = STATUS_WANT_WRITE; out.append((const char*) b, k); return k; }
	size_t getBlockSize() const { return 16384; } unsigned int getStatus() const { return st; } const string getPeerName() const { return "p"; } const string getPeerAddress() const { return "a"; }
	shared_ptr <timeoutHandler> getTimeoutHandler() { return null; } void setTracer(const shared_ptr <tracer>&) {} shared_ptr <tracer> getTracer() { return null; }
};
struct Auth : public defaultSASLAuthenticator {
	std::vector <S> names; S user, pass;
	const std::vector <shared_ptr <SASLMechanism> > getAcceptableMechanisms(const std::vector <shared_ptr <SASLMechanism> >& a, const shared_ptr <SASLMechanism>&) const { std::vector <shared_ptr <SASLMechanism> > r; for (auto& n : names) for (auto& m : a) if (m->getName() == n) r.push_back(m); return r; }
	const string getUsername() const { return user; } const string getPassword() const { return pass; } const string getAccessToken() const { return pass; }
};
struct Lab { shared_ptr <SASLContext> ctx = SASLContext::create(); shared_ptr <Auth> auth = make_shared <Auth>(); shared_ptr <SASLSession> ses; shared_ptr <Pipe> pipe = make_shared <Pipe>(); shared_ptr <net::socket> s; Codec srv;
	Lab(size_t frame = 64) { CFG.clear(); CFG["X-ONE"].frame = frame; ses = ctx->createSession("imap", auth, ctx->createMechanism("X-ONE")); s = ses->getSecuredSocket(pipe); } };

// strict base64
static bool unb64(const S& s, S& out) {
	static const S A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; out.clear(); if (s.size() % 4) return false;
	for (size_t i = 0 ; i < s.size() ; i += 4) {
		int v[4], pad = 0; for (int k = 0 ; k < 4 ; ++k) { const size_t p = A.find(s[i + k]); if (s[i + k] == '=' && i + 4 == s.size() && k >= 2) { ++pad; v[k] = 0; } else { if (p == S::npos || pad) return false; v[k] = int(p); } }
		const int w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3]; out += char(w >> 16); if (pad < 2) out += char(w >> 8); if (pad < 1) out += char(w);
		if ((pad == 2 && (v[1] & 15)) || (pad == 1 && (v[2] & 3))) return false;
	}
	return true;
}
static S b64(const S& d) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r;
	for (size_t i = 0 ; i < d.size() ; i += 3) { const int n = int(std::min <size_t>(3, d.size() - i)); int w = 0; for (int k = 0 ; k < 3 ; ++k) w = w << 8 | (k < n ? (unsigned char) d[i + k] : 0); r += A[w >> 18]; r += A[w >> 12 & 63]; r += n > 1 ? A[w >> 6 & 63] : '='; r += n > 2 ? A[w & 63] : '='; }
	return r;
}

// ---- a server for the three protocols
struct Srv {
	int proto = 0; std::vector <S> mechs; std::map <S, bool> accept;        // which mechanisms end in success
	bool layer = true; S err; std::vector <S> got; std::vector <S> cmds; S mail; bool done = false; int cancels = 0; S chosen; S message = "Subject: x\r\n\r\n.dots\r\nbody\r\n"; S user, pass;
};
struct AuthServer : public SimServer {
	Srv* c; Codec* codec = NULL; Codec own; S buf, tag; int at = -1; S mech; bool inData = false;
	AuthServer(Srv* x) : c(x) {}
	void put(const S& s) { out += codec ? codec->encode(s) : s; }
	void say(const S& s) { put(s + "\r\n"); }
	void connected() { say(c->proto == 0 ? "220 hi" : c->proto == 1 ? "+OK hi" : "* OK hi"); }
	void fail(const S& e) { if (c->err.empty()) c->err = e; }
	void data(const S& in) { if (!out.empty() && !c->done && in.find("QUIT") == S::npos && in.find("LOGOUT") == S::npos) fail("'" + esc(in, 60) + "' is sent before the reply '" + esc(out, 60) + "' was read"); try { buf += codec ? codec->decode(in) : in; } catch (...) { fail("frames sent out of order"); closed = true; return; } size_t e; while (!closed && (e = buf.find("\r\n")) != S::npos) { const S l = buf.substr(0, e); buf.erase(0, e + 2); line(l); } }
	void next() {      // send the next challenge, or the verdict
		Cfg& g = CFG[mech];
		const size_t nchal = g.chal.size();
		if (size_t(at) < nchal) { const S ch = b64(g.chal[at]); say(c->proto == 0 ? "334 " + ch : "+ " + ch); return; }
		const bool ok = c->accept[mech]; at = -1;
		if (ok) { c->chosen = mech; c->done = true; }
		say(c->proto == 0 ? S(ok ? "235 2.7.0 welcome" : "535 no") : c->proto == 1 ? S(ok ? "+OK welcome" : "-ERR no") : tag + (ok ? " OK welcome" : " NO no"));
		if (ok && c->layer) { own = Codec(g.frame); codec = &own; if (!buf.empty()) fail("data after the authentication"); }
	}
	void line(const S& l0) {
		S l = l0;
		if (at >= 0) {
			if (l == "*") { ++c->cancels; at = -1; say(c->proto == 0 ? S("501 cancelled") : c->proto == 1 ? S("-ERR cancelled") : tag + " BAD cancelled"); return; }
			S d; if (!unb64(l, d)) fail("'" + esc(l) + "' is not base64"); c->got.push_back(d); ++at; next(); return;
		}
		if (inData) { if (l == ".") { inData = false; say("250 ok"); } else c->mail += (l.size() && l[0] == '.' ? l.substr(1) : l) + "\r\n"; return; }
		c->cmds.push_back(l);
		if (c->proto == 2) { const size_t sp = l.find(' '); if (sp == S::npos) { fail("command '" + esc(l) + "'"); return; } tag = l.substr(0, sp); l = l.substr(sp + 1); }
		std::vector <S> w; { size_t p = 0; while (p <= l.size()) { size_t e = l.find(' ', p); if (e == S::npos) e = l.size(); w.push_back(l.substr(p, e - p)); p = e + 1; } }
		const S cmd = w[0]; const bool isAuth = cmd == "AUTH" || cmd == "AUTHENTICATE";
		if (isAuth) {
			if (codec || c->done) { fail("second authentication"); return; }
			mech = w.size() > 1 ? w[1] : S(); at = 0; 
			if (w.size() > 3) fail("'" + esc(l) + "'");
			if (w.size() == 3) { S d; if (w[2] != "=") { if (!unb64(w[2], d) || d.empty()) fail("initial response '" + esc(w[2]) + "'"); } c->got.push_back(d); }
			next(); return;
		}
		if (c->proto == 0) {
			if (cmd == "EHLO") { S m; for (auto& x : c->mechs) m += " " + x; put("250-sim\r\n250 AUTH" + m + "\r\n"); }
			else if (cmd == "DATA") { inData = true; say("354 go"); }
			else if (cmd == "QUIT") { say("221 bye"); closed = true; }
			else if (cmd == "MAIL" || cmd == "RCPT" || cmd == "NOOP" || cmd == "RSET") say("250 ok");
			else { fail("command '" + esc(l) + "'"); say("500 what"); }
		} else if (c->proto == 1) {
			if (cmd == "CAPA") { S m; for (auto& x : c->mechs) m += " " + x; put("+OK\r\nSASL" + m + "\r\nUIDL\r\n.\r\n"); }
			else if (cmd == "STAT") say("+OK 1 " + str(c->message.size()));
			else if (cmd == "RETR") { S m = c->message; for (size_t p = 0 ; (p = m.find("\r\n.", p)) != S::npos ; p += 4) m.insert(p + 2, "."); put("+OK\r\n" + m + ".\r\n"); }
			else if (cmd == "NOOP" || cmd == "RSET") say("+OK");
			else if (cmd == "QUIT") { say("+OK"); closed = true; }
			else if (cmd == "USER") { c->user = l.substr(5); say("+OK"); } else if (cmd == "PASS") { c->pass = l.substr(5); say("+OK"); }
			else { fail("command '" + esc(l) + "'"); say("-ERR what"); }
		} else {
			if (cmd == "CAPABILITY") { S m; for (auto& x : c->mechs) m += " AUTH=" + x; put("* CAPABILITY IMAP4rev1" + m + "\r\n" + tag + " OK done\r\n"); }
			else if (cmd == "LIST") put("* LIST (\\Noselect) \"/\" \"\"\r\n" + tag + " OK done\r\n");
			else if (cmd == "NOOP") say(tag + " OK done");
			else if (cmd == "LOGIN") { c->user = l; say(tag + " OK done"); }
			else if (cmd == "LOGOUT") { put("* BYE bye\r\n" + tag + " OK done\r\n"); closed = true; }
			else { fail("command '" + esc(l) + "'"); say(tag + " BAD what"); }
		}
	}
};
static const char* PN[3] = {"smtp", "pop3", "imap"};
struct World {
	SimNet net; Srv srv; shared_ptr <session> ses = session::create(); shared_ptr <store> st; shared_ptr <transport> tr; shared_ptr <folder> f;
	World(int proto, const shared_ptr <security::authenticator>& auth, bool fallback = false) {
		srv.proto = proto; net.server = [this] { return make_shared <AuthServer>(&srv); };
		auto& p = ses->getProperties();
		if (proto == 0) { p["transport.smtp.options.need-authentication"] = true; tr = ses->getTransport(utility::url("smtp://sim.example"), auth); tr->setSocketFactory(make_shared <SimSocketFactory>(&net)); }
		else { p[S("store.") + PN[proto] + ".options.sasl.fallback"] = fallback; p["store.pop3.options.apop"] = false; st = ses->getStore(utility::url(S(PN[proto]) + "://sim.example"), auth); st->setSocketFactory(make_shared <SimSocketFactory>(&net)); }
	}
	void connect() { if (tr) tr->connect(); else st->connect(); }
	void use() {
		if (tr) {
			tr->noop(); const S m = "From: a@x\r\n\r\n.leading dot\r\n" + S(300, 'z') + "\r\nend\r\n"; mailboxList to; to.appendMailbox(make_shared <mailbox>("b@y.example")); utility::inputStreamStringAdapter is(m);
			tr->send(mailbox("a@x.example"), to, is, m.size(), NULL); CHECK(srv.mail == m || srv.mail == m + "\r\n", "message delivered as '" + esc(srv.mail, 300) + "'"); tr->disconnect();
		} else if (srv.proto == 1) { f = st->getDefaultFolder(); f->open(folder::MODE_READ_ONLY); S s; utility::outputStreamStringAdapter os(s); f->getMessage(1)->extract(os); CHECK(s == srv.message, "message retrieved as '" + esc(s, 300) + "'"); f->close(false); st->noop(); st->disconnect(); }
		else { st->noop(); st->noop(); st->disconnect(); }
		CHECK(srv.err.empty(), srv.err); CHECK(!net.deadlock, "the client waits for ever");
	}
};

void mc_main(mc::Run& R) {
	initPlatform(); SASLMechanismFactory::getInstance()->registerMechanism <FakeMech>("X-ONE"); SASLMechanismFactory::getInstance()->registerMechanism <FakeMech>("X-TWO"); SASLMechanismFactory::getInstance()->registerMechanism <XOAuth2SASLMechanism>("XOAUTH2");
	R.property = "C33"; R.level = "model_checking";
	R.rule = "a model security layer (numbered, length-prefixed frames): every schedule up to depth N of frames arriving, pieces being delivered and reads of several sizes; every schedule of non-blocking and blocking writes against a wire accepting 0, 1, 5 or all bytes; authentication exchanges over the three protocols with every token of a set, every number of rounds, verdict and failure, then whole sessions inside the security layer under every fragmentation";
	R.assumptions = {"the mechanism's own encoding is the model's; mechanisms of GNU SASL are exercised for their exchanges only (they negotiate no security layer here)", "servers keep to the syntax of SASL profiles (\"+ \" before a challenge, even an empty one)"};
	const bool T = R.thorough;

	// ---- receiving
	const std::vector <S> rops = {"frame", "wire 1", "wire 4", "wire all", "read 1", "read 2", "read 9", "receive"};
	const size_t sizes[] = {5, 0, 1, 11, 2, 3, 0, 7};
	mc::tuples(rops.size(), T ? 7 : 5, [&](const std::vector <size_t>& ops) {
		R.testL([&] { S s = "receive|"; for (size_t o : ops) s += rops[o] + ","; return s; }, [&] {
			for (int pre = 0 ; pre < 3 ; ++pre) {
				Lab l; S sent, got; int nf = 0; size_t total = 0;
				auto emit = [&] { S p; for (size_t i = 0 ; i < sizes[nf % 8] ; ++i) p += char('a' + total++ % 26); ++nf; sent += p; l.pipe->in += l.srv.frame(p); };
				auto read = [&](size_t n) { byte_t b[16]; memset(b, '!', 16); const size_t k = l.s->receiveRaw(b, n); CHECK(k <= n, "more bytes than the buffer holds"); for (size_t i = n ; i < 16 ; ++i) CHECK(b[i] == '!', "written after the buffer"); got.append((char*) b, k); CHECK(sent.compare(0, got.size(), got) == 0, "received '" + got + "' of '" + sent + "'"); };
				for (int i = 0 ; i < pre * 2 ; ++i) emit(); if (pre == 2) l.pipe->avail = l.pipe->in.size() / 2;
				for (size_t o : ops) { if (o == 0) emit(); else if (o < 4) l.pipe->avail = std::min(l.pipe->in.size(), o == 3 ? l.pipe->in.size() : l.pipe->avail + (o == 1 ? 1 : 4)); else if (o < 7) read(o == 4 ? 1 : o == 5 ? 2 : 9); else { S x; l.s->receive(x); got += x; CHECK(sent.compare(0, got.size(), got) == 0, "received '" + got + "' of '" + sent + "'"); } R.transition(); R.state("r" + str(l.pipe->avail) + "," + str(l.pipe->in.size()) + "," + str(got.size()) + "," + str(nf)); }
				l.pipe->avail = l.pipe->in.size(); for (int i = 0 ; i < 100 && got.size() < sent.size() ; ++i) read(1 + i % 9);
				CHECK(got == sent, "received '" + got + "' instead of '" + sent + "'"); R.outcome(got.size());
			}
		});
	});
	// frames larger than the buffers, for every application buffer size and fragment size
	for (size_t n = 1 ; n <= 40 ; ++n) for (size_t k = 1 ; k <= 45 ; ++k) R.testL([&] { return "sizes|" + str(n) + " " + str(k); }, [&] {
		Lab l; S sent, got; for (size_t z : {37u, 0u, 5u, 64u, 1u}) { S p; for (size_t i = 0 ; i < z ; ++i) p += char(sent.size() + i * 7); sent += p; l.pipe->in += l.srv.frame(p); }
		for (int i = 0 ; i < 2000 && got.size() < sent.size() ; ++i) { l.pipe->avail = std::min(l.pipe->in.size(), l.pipe->avail + k); std::vector <byte_t> b(n); const size_t r = l.s->receiveRaw(b.data(), n); CHECK(r <= n, "size"); got.append((char*) b.data(), r); }
		CHECK(got == sent, "received " + str(got.size()) + " bytes, different"); R.outcome(n);
	});
	for (size_t z : {65535u, 65536u, 65534u, 200000u}) R.testL([&] { return "large|" + str(z); }, [&] { Lab l; S sent; for (size_t p = 0 ; p < z ; p += 60000) { S x(std::min <size_t>(60000, z - p), char('a' + p % 23)); sent += x; l.pipe->in += l.srv.frame(x); } S got; for (int i = 0 ; i < 100 && got.size() < z ; ++i) { l.pipe->avail = l.pipe->in.size(); S x; l.s->receive(x); got += x; } CHECK(got == sent, "received " + str(got.size())); R.outcome(z); });
	R.test("receive|broken", [&] { Lab l; l.pipe->in = l.srv.frame("ab") + S("\0\1\7z", 4) + S(1, 0); l.pipe->in[5] = 0; l.pipe->avail = l.pipe->in.size(); bool t = false; S got; try { for (int i = 0 ; i < 5 ; ++i) { S x; l.s->receive(x); got += x; } } catch (exceptions::sasl_exception&) { t = true; } CHECK(t && (got.empty() || got == "ab"), "a frame out of order was accepted"); });

	// ---- sending
	const std::vector <S> sops = {"try 1", "try 5", "try 3", "send 2", "accept 0", "accept 1", "accept 5", "accept all", "read", "wait"};
	for (size_t frame : {2u, 64u}) mc::tuples(sops.size(), T ? 6 : 4, [&](const std::vector <size_t>& ops) {
		R.testL([&] { S s = "send " + str(frame) + "|"; for (size_t o : ops) s += sops[o] + ","; return s; }, [&] {
			for (size_t start : {size_t(-1), size_t(0), size_t(4)}) {
				Lab l(frame); l.pipe->accept = start; S acc; size_t total = 0; l.srv.max = frame; S seen;
				auto chk = [&] { seen += l.srv.decode(l.pipe->out); l.pipe->out.clear(); CHECK(acc.compare(0, seen.size(), seen) == 0, "on the wire: '" + esc(seen) + "', accepted: '" + acc + "'"); };
				for (size_t o : ops) {
					R.transition();
					if (o < 4) { S p; for (size_t i = 0 ; i < (o == 0 ? 1u : o == 1 ? 5u : o == 2 ? 3u : 2u) ; ++i) p += char('a' + total++ % 26); if (o == 3) { l.pipe->accept = l.pipe->accept; l.s->send(p); acc += p; chk(); CHECK(seen == acc, "a blocking write left '" + acc.substr(seen.size()) + "' unsent"); } else { const size_t k = l.s->sendRawNonBlocking((const byte_t*) p.data(), p.size()); CHECK(k <= p.size(), "wrote " + str(k) + " of " + str(p.size()) + " bytes"); total -= p.size() - k; acc += p.substr(0, k); } }
					else if (o < 8) l.pipe->accept = o == 4 ? 0 : o == 5 ? 1 : o == 6 ? 5 : size_t(-1);
					else if (o == 8) { byte_t b[4]; CHECK(l.s->receiveRaw(b, 4) == 0, "data"); }
					else l.s->waitForWrite(1);
					chk(); R.state("s" + str(frame) + "," + str(l.pipe->accept) + "," + str(acc.size()) + "," + str(seen.size()));
				}
				l.pipe->accept = size_t(-1); l.s->send("."); acc += "."; chk(); CHECK(seen == acc, "on the wire: '" + esc(seen) + "' instead of '" + acc + "'"); R.outcome(acc.size());
			}
		});
	});
	// what was accepted is on the wire before an answer is awaited, and a caller that retries what was not accepted loses nothing
	for (size_t z = 1 ; z <= 40 ; ++z) for (size_t k = 1 ; k <= 12 ; ++k) for (size_t frame : {1u, 7u, 64u}) R.testL([&] { return "retry|" + str(z) + " " + str(k) + " " + str(frame); }, [&] {
		Lab l(frame); S d; for (size_t i = 0 ; i < z ; ++i) d += char(i * 11); size_t off = 0; int i = 0;
		for ( ; i < 4000 && off < z ; ++i) { l.pipe->accept = k; off += l.s->sendRawNonBlocking((const byte_t*) d.data() + off, z - off); CHECK(off <= z, "too many bytes reported"); }
		CHECK(off == z, "no progress"); for (i = 0 ; i < 400 ; ++i) { l.pipe->accept = k; byte_t b[1]; l.s->receiveRaw(b, 1); }
		CHECK(l.srv.decode(l.pipe->out) == d, "different bytes on the wire"); R.outcome(frame);
	});
	{ R.test("send|forms", [&] { Lab l; l.s->send("abc"); l.s->send(S("d\0e", 3)); l.s->sendRaw((const byte_t*) "fg", 2); l.s->send(""); l.s->send(S(150, 'x')); CHECK(l.srv.decode(l.pipe->out) == "abc" + S("d\0e", 3) + "fg" + S(150, 'x'), "sent"); CHECK(l.s->isConnected() && l.s->getBlockSize() == 16384 && l.s->getPeerName() == "p" && l.s->getPeerAddress() == "a", "forwarded"); l.s->disconnect(); CHECK(!l.pipe->conn && !l.s->isConnected(), "disconnect"); }); }

	// ---- tokens through base64
	{
		auto tok = [&](const S& t) {
			auto ctx = SASLContext::create(); const S e = ctx->encodeB64((const byte_t*) t.data(), t.size()); CHECK(e == b64(t), "'" + esc(t, 100) + "' encoded as '" + esc(e, 300) + "'");
			byte_t* o = NULL; size_t n = 0; ctx->decodeB64(b64(t), &o, &n); const S d((const char*) o, n); delete [] o; CHECK(d == t, "'" + b64(t) + "' decoded as '" + esc(d, 100) + "'");
		};
		for (int c = 0 ; c < 256 ; ++c) R.testL([&] { return "base64|" + str(c); }, [&] { for (int d = 0 ; d < 256 ; d += T ? 1 : 5) { tok(S(1, char(c)) + char(d)); tok(S(1, char(d)) + "x" + char(c)); tok(S("\0\xff", 2) + char(c) + char(d)); } tok(S(1, char(c))); R.outcome(c); });
		for (size_t n = 0 ; n < 400 ; ++n) R.testL([&] { return "base64 length|" + str(n); }, [&] { S t; for (size_t i = 0 ; i < n ; ++i) t += char(i * 31 + n); tok(t); R.outcome(n % 3); });
	}

	// ---- exchanges
	std::vector <S> toks = {"", "a", S("\0", 1), "\r\n", "*", "=", S("user\0pass\xff", 10), S(57, 'b'), S(58, '\xfe'), S(600, 'c')};
	auto run = [&](int proto, bool initial, const std::vector <S>& chal, const std::vector <S>& resp, bool accept, int throwAt, int frag, size_t split, size_t frame, bool two) {
		CFG.clear(); auto a = make_shared <Auth>(); a->names = two ? std::vector <S>{"X-ONE", "X-TWO"} : std::vector <S>{"X-TWO"}; a->user = "u"; a->pass = "p";
		Cfg& g = CFG["X-TWO"]; g.initial = initial; g.chal = chal; g.resp = resp; g.throwAt = throwAt; g.frame = frame;
		if (two) { CFG["X-ONE"].chal = {"first"}; CFG["X-ONE"].resp = {"no"}; CFG["X-ONE"].frame = 3; }
		World w(proto, a); w.net.frag = frag; w.net.splitAt = split; w.srv.mechs = {"PLAIN", "X-ONE", "X-TWO"}; w.srv.accept = {{"X-TWO", accept}};
		bool thrown = false; S why; try { w.connect(); } catch (vmime::exception& e) { thrown = true; why = e.what(); }
		CHECK(w.srv.err.empty(), w.srv.err); CHECK(!w.net.deadlock, "the client waits for ever");
		const bool ok = accept && throwAt < 0; CHECK(thrown == !ok, thrown ? "authentication failed: " + why : S("authenticated although the exchange failed"));
		std::vector <S> wc; if (initial) wc.push_back(""); wc.insert(wc.end(), chal.begin(), chal.end()); std::vector <S> wr = resp;
		if (throwAt >= 0) { wc.resize(throwAt + 1); wr.resize(throwAt); CHECK(w.srv.cancels == (initial && throwAt == 0 ? 0 : 1), "the exchange is not cancelled"); } else CHECK(w.srv.cancels == 0, "cancelled");
		if (two) wr.insert(wr.begin(), "no");
		CHECK(CFG["X-TWO"].seen == wc, "challenges seen " + mc::show(CFG["X-TWO"].seen) + " instead of " + mc::show(wc)); CHECK(w.srv.got == wr, "responses " + mc::show(w.srv.got) + " instead of " + mc::show(wr));
		if (ok) { w.use(); R.trace(); }
		R.outcome(str(proto) + (ok ? "ok" : "no"));
	};
	for (int proto = 0 ; proto < 3 ; ++proto) for (int initial = 0 ; initial < 2 ; ++initial) for (int rounds = 0 ; rounds <= 2 ; ++rounds) {
		if (!initial && !rounds) continue;
		const size_t n = rounds * 2 + initial, base = (T || n <= 2) ? toks.size() : 4;
		if (n > 4) continue;
		mc::tuples(base, n, [&](const std::vector <size_t>& ix) {
			std::vector <S> ch, re; size_t k = 0; if (initial) re.push_back(toks[ix[k++]]); for (int i = 0 ; i < rounds ; ++i) { ch.push_back(toks[ix[k++]]); re.push_back(toks[ix[k++]]); }
			R.testL([&] { return S("exchange|") + PN[proto] + " " + mc::show(ix) + " " + str(initial); }, [&] { run(proto, initial, ch, re, true, -1, 0, 0, 64, false); });
		});
	}
	for (int proto = 0 ; proto < 3 ; ++proto) for (int initial = 0 ; initial < 2 ; ++initial) for (int rounds = 1 ; rounds <= 3 ; ++rounds) for (int accept = 0 ; accept < 2 ; ++accept) for (int thr = -1 ; thr < rounds + initial ; ++thr) for (int two = 0 ; two < 2 ; ++two) for (int frag : {0, 1, 3}) R.testL([&] { return S("verdict|") + PN[proto] + " " + str(initial) + str(rounds) + str(accept) + " " + str(thr) + str(two) + str(frag); }, [&] {
		std::vector <S> ch, re; if (initial) re.push_back("initial"); for (int i = 0 ; i < rounds ; ++i) { ch.push_back("challenge " + str(i)); re.push_back("response " + str(i)); }
		if (initial && thr == 0) { R.outcome("-"); return; }      // the mechanism refuses before anything is sent: an exception, see below
		run(proto, initial, ch, re, accept, thr, frag, 0, 64, two);
	});
	for (int proto = 0 ; proto < 3 ; ++proto) for (size_t frame : {1u, 2u, 5u, 40u, 1000u}) for (int frag : {0, 1, 3}) R.testL([&] { return S("layer|") + PN[proto] + " " + str(frame) + " " + str(frag); }, [&] { run(proto, false, {"c"}, {"r"}, true, -1, frag, 0, frame, false); });
	for (int proto = 0 ; proto < 3 ; ++proto) for (size_t k = 1 ; k <= (T ? 700u : 250u) ; ++k) for (int frag : {2, 4}) { if (frag == 4 && k > 60) continue; R.testL([&] { return S("layer cut|") + PN[proto] + " " + str(k) + " " + str(frag); }, [&] { run(proto, k & 1, {"c"}, k & 1 ? std::vector <S>{"i", "r"} : std::vector <S>{"r"}, true, -1, frag, k, 6, false); }); }

	// ---- falling back on the protocol's own login when allowed, and only then
	for (int proto = 1 ; proto < 3 ; ++proto) for (int fb = 0 ; fb < 2 ; ++fb) for (int two = 0 ; two < 2 ; ++two) for (int thr = -1 ; thr < 1 ; ++thr) R.testL([&] { return S("fallback|") + PN[proto] + " " + str(fb) + str(two) + str(thr); }, [&] {
		CFG.clear(); auto a = make_shared <Auth>(); a->names = two ? std::vector <S>{"X-ONE", "X-TWO"} : std::vector <S>{"X-TWO"}; a->user = "tim"; a->pass = "sesame";
		for (auto& n : {S("X-ONE"), S("X-TWO")}) { CFG[n].chal = {"c"}; CFG[n].resp = {"r"}; CFG[n].throwAt = thr; }
		World w(proto, a, fb); w.srv.mechs = {"X-ONE", "X-TWO"}; bool t = false; try { w.connect(); } catch (exceptions::authentication_error&) { t = true; }
		CHECK(w.srv.err.empty(), w.srv.err); CHECK(t == !fb, t ? "no fallback" : "connected"); CHECK((w.srv.user.find("tim") != S::npos) == (fb == 1), "login '" + w.srv.user + "'"); if (proto == 1) CHECK((w.srv.pass == "sesame") == (fb == 1), "password '" + w.srv.pass + "'");
		if (fb) w.use(); R.outcome(str(fb) + str(two));
	});

	// ---- mechanisms of the SASL library and XOAUTH2: what the server is told
	const std::vector <S> users = {"tim", "a b", "\xc3\xa9", "x@y.example", "=,", S(100, 'u')}, passes = {"tanstaaftanstaaf", "p", " p ", "\"\\", "\xe2\x82\xac", S(80, 'p')};
	for (int proto = 0 ; proto < 3 ; ++proto) for (auto& u : users) for (auto& p : passes) for (auto& m : {S("PLAIN"), S("LOGIN"), S("CRAM-MD5"), S("XOAUTH2")}) R.testL([&] { return S("mechanism|") + PN[proto] + " " + m + " " + u + "|" + p; }, [&] {
		CFG.clear(); auto a = make_shared <Auth>(); a->names = {m}; a->user = u; a->pass = p; World w(proto, a); w.srv.mechs = {"PLAIN", "LOGIN", "CRAM-MD5", "XOAUTH2"}; w.srv.accept[m] = true; w.srv.layer = false;
		const S nonce = "<1896.697170952@postoffice.reston.mci.net>"; CFG[m].chal = m == "PLAIN" ? std::vector <S>{""} : m == "LOGIN" ? std::vector <S>{"User Name\0", "Password"} : m == "CRAM-MD5" ? std::vector <S>{nonce} : std::vector <S>{};
		bool t = false; S why; try { w.connect(); } catch (vmime::exception& e) { t = true; why = e.what(); }
		CHECK(w.srv.err.empty(), w.srv.err); CHECK(!t, "authentication failed: " + why);
		std::vector <S> want; if (m == "PLAIN") want = {S(1, '\0') + u + S(1, '\0') + p}; else if (m == "LOGIN") want = {u, p}; else if (m == "XOAUTH2") want = {"user=" + u + "\x01" "auth=Bearer " + p + "\x01\x01"};
		if (m != "CRAM-MD5") CHECK(w.srv.got == want, "told " + mc::show(w.srv.got) + " instead of " + mc::show(want));
		else { CHECK(w.srv.got.size() == 1 && w.srv.got[0].size() == u.size() + 33 && w.srv.got[0].compare(0, u.size() + 1, u + " ") == 0, "CRAM-MD5 " + mc::show(w.srv.got)); if (u == "tim" && p == "tanstaaftanstaaf") CHECK(w.srv.got[0] == "tim b913a602c7eda7a495b4e6e7334d3890", "example of RFC 2195"); }
		w.use(); R.outcome(m);
	});
}
