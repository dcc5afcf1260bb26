// C21: the SMTP client delivers exactly the message or reports failure.
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
#include "vmime/net/smtp/SMTPSendOptions.hpp"
#include "vmime/net/smtp/DSNAttributes.hpp"
using namespace vmime; using namespace vmime::net;

struct Handler : public platforms::posix::posixHandler { const string getHostName() const { return "client.example"; } };

struct Delivery { S from; std::vector <S> rcpts; S data; bool utf8 = false; size_t size = 0; };
static S show(const Delivery& d) { S s = d.from + " ->"; for (auto& r : d.rcpts) s += " " + r; return s + " : " + esc(d.data, 200); }

enum { PIPE = 1, CHUNK = 2, SIZEX = 4, UTF8X = 8, DSNX = 16 };
static mc::Run* G = NULL;
struct Script { std::map <int, S> dev; int n = 0; std::vector <Delivery> done; std::vector <S> log; S protoError; int conns = 0; bool strict354 = true; int failures = 0, exts = 0; bool lower = false, lenient = false; int heloOnly = 0; };

// the server: RFC 5321 / 1854 / 3030, replying as the script says
struct Smtp : public LineServer {
	Script* sc; bool tx = false, inData = false, aborted = false, chunkOpen = false; Delivery cur; size_t bdat = 0; bool bdatMode = false, bdatLast = false; S bdatBuf;
	Smtp(Script* s) : sc(s) { ++sc->conns; }
	void connected() { reply("220 sim ESMTP"); }
	// reply for the next scripted command; true if it is the code that accepts
	bool answer(const S& okCode, const S& okText) {
		auto it = sc->dev.find(sc->n++);
		S t = it == sc->dev.end() ? okCode + " " + okText : it->second;
		bool good = it == sc->dev.end();
		if (!good) {
			// a deviation accepts if every line carries the accepting code
			if (t == "hang") { closed = true; ++sc->failures; return false; }
			S l = t; bool all = true; size_t p = 0;
			while (p <= l.size()) { size_t e = l.find("\r\n", p); if (e == S::npos) e = l.size(); const S ln = l.substr(p, e - p); all = all && ln.compare(0, 3, okCode) == 0 && (ln.size() == 3 || ln[3] == ' ' || ln[3] == '-'); p = e + 2; }
			good = all;
		}
		reply(t);
		if (t.compare(0, 3, "421") == 0) closed = true;
		if (!good) ++sc->failures;
		return good;
	}
	bool wantRaw() { return inData || bdatMode; }
	bool takeRaw() {
		if (bdatMode) {
			if (buf.size() < bdat) return false;
			bdatBuf = buf.substr(0, bdat); buf.erase(0, bdat); bdatMode = false;
			if (!tx || cur.rcpts.empty() || aborted) { ++sc->n; ++sc->failures; reply("503 no transaction"); return true; }
			if (!bdatLast) { if (answer("250", "more")) cur.data += bdatBuf; else aborted = !sc->lenient; return true; }
			if (answer("250", "accepted")) { cur.data += bdatBuf; sc->done.push_back(cur); }
			tx = false; aborted = false; return true;
		}
		const S term = "\r\n.\r\n"; size_t e;
		if (buf.compare(0, 3, ".\r\n") == 0) { finish(S()); buf.erase(0, 3); return true; }
		e = buf.find(term); if (e == S::npos) return false;
		const S d = buf.substr(0, e + 2); buf.erase(0, e + term.size()); finish(d); return true;
	}
	void finish(const S& raw) {
		S d; bool bol = true;
		for (size_t i = 0 ; i < raw.size() ; ++i) { if (bol && raw[i] == '.') { bol = false; continue; } d += raw[i]; bol = raw[i] == '\n' && i && raw[i - 1] == '\r'; }
		inData = false;
		if (answer("250", "queued")) { cur.data = d; sc->done.push_back(cur); }
		tx = false;
	}
	bool path(const S& l, size_t at, S& addr, S& rest) {
		if (l.compare(at, 1, "<")) return false;
		bool q = false; size_t i = at + 1;
		for ( ; i < l.size() ; ++i) { if (l[i] == '"') q = !q; else if (l[i] == '\\' && q) ++i; else if (l[i] == '>' && !q) break; else if (!q && (l[i] == ' ' || l[i] == '<' || l[i] == '\r' || l[i] == '\n')) return false; }
		if (i >= l.size()) return false;
		addr = l.substr(at + 1, i - at - 1); rest = l.substr(i + 1); return true;
	}
	bool params(const S& rest, bool& u8, size_t& size) {
		std::istringstream is(rest); S p; if (!rest.empty() && rest[0] != ' ') return false;
		while (is >> p) {
			if (p == "SMTPUTF8" && (sc->exts & UTF8X)) u8 = true;
			else if (p.compare(0, 5, "SIZE=") == 0 && (sc->exts & SIZEX)) size = std::stoul(p.substr(5));
			else if ((p.compare(0, 4, "RET=") == 0 || p.compare(0, 6, "ENVID=") == 0 || p.compare(0, 7, "NOTIFY=") == 0) && (sc->exts & DSNX)) ;
			else return false;
		}
		return true;
	}
	void bad(const S& why, const S& l) { if (sc->protoError.empty()) sc->protoError = why + ": " + l; reply("501 " + why); ++sc->failures; }
	void line(const S& l) {
		sc->log.push_back(l);
		G->state(str(sc->exts) + (tx ? "T" : "") + (aborted ? "A" : "") + str(cur.rcpts.size()) + "," + str(sc->done.size()) + "," + str(sc->n) + "," + str(sc->dev.size()) + l.substr(0, 4));
		for (char c : l) if (c == '\r' || c == '\n' || c == 0) { bad("control character in command", l); return; }
		S addr, rest; bool u8 = false; size_t size = 0;
		if (l.compare(0, 5, "EHLO ") == 0) {
			if (sc->heloOnly) { reply("500 what"); return; }
			tx = false; S r = "250-sim"; std::vector <S> x; if (sc->conns % 2) x.push_back("HELP"); if (sc->exts & PIPE) x.push_back("PIPELINING"); if (sc->exts & CHUNK) x.push_back("CHUNKING"); if (sc->exts & SIZEX) x.push_back("SIZE 1000000"); if (sc->exts & UTF8X) x.push_back("SMTPUTF8"); if (sc->exts & DSNX) x.push_back("DSN");
			if (sc->conns % 2 == 0 || x.size() == 1) x.push_back("XEND"); for (size_t i = 0 ; i < x.size() ; ++i) r += "\r\n250" + S(i + 1 < x.size() ? "-" : " ") + x[i];
			reply(r);
		}
		else if (l.compare(0, 5, "HELO ") == 0) { tx = false; reply("250 sim"); }
		else if (l == "RSET") { if (answer("250", "flushed")) tx = false; }
		else if (l == "NOOP") { reply("250 ok"); }
		else if (l == "QUIT") { reply("221 bye"); closed = true; }
		else if (l.compare(0, 10, "MAIL FROM:") == 0) {
			if (!path(l, 10, addr, rest) || !params(rest, u8, size)) { bad("bad MAIL", l); return; }
			if (tx) { ++sc->n; ++sc->failures; reply("503 nested MAIL"); return; }
			if (answer("250", "sender ok")) { tx = true; aborted = false; cur = Delivery(); cur.from = addr; cur.utf8 = u8; cur.size = size; }
		}
		else if (l.compare(0, 8, "RCPT TO:") == 0) {
			if (!path(l, 8, addr, rest) || !params(rest, u8, size)) { bad("bad RCPT", l); return; }
			if (!tx) { ++sc->n; ++sc->failures; reply("503 need MAIL"); return; }
			auto it = sc->dev.find(sc->n);
			if (it != sc->dev.end() && it->second.compare(0, 4, "251 ") == 0) { ++sc->n; reply(it->second); cur.rcpts.push_back(addr); }
			else if (answer("250", "recipient ok")) cur.rcpts.push_back(addr);
		}
		else if (l == "DATA") {
			if (!tx || (cur.rcpts.empty() && sc->strict354)) { ++sc->n; ++sc->failures; reply(tx ? "554 no valid recipients" : "503 need MAIL"); return; }
			if (answer("354", "go ahead")) inData = true;
		}
		else if (l.compare(0, 5, "BDAT ") == 0) {
			std::istringstream is(l.substr(5)); S last; size_t n = 0; if (!(is >> n)) { bad("bad BDAT", l); return; } is >> last;
			if (!(sc->exts & CHUNK) || (!last.empty() && last != "LAST")) { bad("bad BDAT", l); return; }
			bdat = n; bdatMode = true; bdatLast = last == "LAST";
		}
		else bad("unknown command", l);
	}
};

// a stream delivering its content in pieces and failing after `failAt` bytes
struct Source : public utility::inputStream {
	S d; size_t p = 0, piece, failAt;
	Source(const S& x, size_t pc, size_t f) : d(x), piece(pc), failAt(f) {}
	bool eof() const { return p >= d.size(); }
	void reset() { p = 0; }
	size_t read(byte_t* const b, const size_t n) { if (p >= failAt) throw vmime::exception("source failed"); const size_t k = std::min(std::min(n, piece), d.size() - p); memcpy(b, d.data() + p, k); p += k; return k; }
	size_t skip(const size_t n) { const size_t k = std::min(n, d.size() - p); p += k; return k; }
};

struct Want { S from; std::vector <S> rcpts; S data; };
struct Job {       // one call of send
	int api = 0;   // 0 stream, 1 message + addresses, 2 message only
	S from = "me@a.example"; std::vector <S> rcpts; S sender, data; size_t piece = 1000, failAt = size_t(-1);
	shared_ptr <vmime::message> msg; bool dsn = false;
};

static bool sameData(const S& got, const S& want) { return got == want || got == want + "\r\n"; }

// runs one send; returns true if it reported success. Checks everything about it.
static bool attempt(SimNet& net, Script& sc, const shared_ptr <transport>& tr, const Job& j, const Want& w, bool mustSucceed, const S& what) {
	const size_t before = sc.done.size(); const int failBefore = sc.failures; bool ok = true; S err;
	try {
		if (j.api == 0) {
			mailboxList rc; for (auto& r : j.rcpts) rc.appendMailbox(make_shared <mailbox>(emailAddress(r)));
			Source src(j.data, j.piece, j.failAt); mailbox snd; if (!j.sender.empty()) snd = mailbox(emailAddress(j.sender));
			smtp::SMTPSendOptions so; if (j.dsn) so.setDSNAttributes(make_shared <smtp::DSNAttributes>("SUCCESS", "FULL", "id1"));
			tr->send(mailbox(emailAddress(j.from)), rc, src, j.data.size(), NULL, snd, so);
		} else if (j.api == 1) {
			mailboxList rc; for (auto& r : j.rcpts) rc.appendMailbox(make_shared <mailbox>(emailAddress(r)));
			tr->send(j.msg, mailbox(emailAddress(j.from)), rc);
		} else tr->send(j.msg);
	}
	catch (vmime::exception& e) { ok = false; err = e.what(); }
	CHECK(!net.deadlock, what + ": the client waits for a reply the server never sends (after " + str(sc.log.size()) + " commands, last " + (sc.log.empty() ? S() : esc(sc.log.back())) + ")");
	CHECK(sc.protoError.empty(), what + ": protocol error: " + esc(sc.protoError));
	if (ok) {
		CHECK(sc.failures == failBefore, what + ": success reported although the server refused a command");
		CHECK(sc.done.size() == before + 1, what + ": success reported but " + str(sc.done.size() - before) + " messages were accepted");
		const Delivery& d = sc.done.back();
		CHECK(d.from == w.from, what + ": sender is '" + esc(d.from) + "' instead of '" + esc(w.from) + "'");
		CHECK(d.rcpts == w.rcpts, what + ": recipients are " + mc::show(d.rcpts) + " instead of " + mc::show(w.rcpts));
		if (j.api == 0) CHECK(d.size == ((sc.exts & SIZEX) ? j.data.size() : 0), what + ": declared size is " + str(d.size) + " instead of " + str(j.data.size()));
		CHECK(sameData(d.data, w.data), what + ": server received '" + esc(d.data, 300) + "' instead of '" + esc(w.data, 300) + "'");
	} else {
		if (!sc.lenient) CHECK(sc.done.size() == before, what + ": failure reported ('" + esc(err) + "') but the server accepted " + (sc.done.size() > before ? show(sc.done.back()) : S()));
		CHECK(!mustSucceed, what + ": failed although the server accepts everything: " + esc(err));
	}
	return ok;
}

static void setup(SimNet& net, Script& sc, shared_ptr <session>& ses, shared_ptr <transport>& tr, int exts, int propPipe = 1, int propChunk = 1) {
	sc.exts = exts; net.server = [&sc] { return make_shared <Smtp>(&sc); };
	ses = session::create();
	ses->getProperties()["transport.smtp.options.pipelining"] = propPipe != 0;
	ses->getProperties()["transport.smtp.options.chunking"] = propChunk != 0;
	tr = ses->getTransport(utility::url("smtp://sim.example"));
	tr->setSocketFactory(make_shared <SimSocketFactory>(&net));
}

static shared_ptr <vmime::message> makeMsg(const S& text, bool attach = false, const S& extra = S()) {
	auto m = make_shared <vmime::message>();
	S raw = "From: me@a.example\r\nTo: r0@b.example\r\nDate: Thu, 1 Jan 2015 10:00:00 +0000\r\nMessage-ID: <1@a.example>\r\nMIME-Version: 1.0\r\n" + extra;
	raw += attach ? "Content-Type: multipart/mixed; boundary=bb\r\n\r\n--bb\r\nContent-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\n" + text + "\r\n--bb\r\nContent-Type: application/octet-stream\r\nContent-Transfer-Encoding: base64\r\n\r\nAAEC\r\n--bb--\r\n" : "Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\n" + text;
	m->parse(raw); return m;
}
static S gen(const shared_ptr <vmime::message>& m, bool utf8) { generationContext ctx(generationContext::getDefaultContext()); ctx.setInternationalizedEmailSupport(utf8); S s; utility::outputStreamStringAdapter os(s); m->generate(ctx, os); return s; }

// after an attempt, whatever happened, a further message must go through unharmed
static void following(SimNet& net, Script& sc, const shared_ptr <transport>& tr) {
	sc.dev.clear();
	for (int k = 0 ; k < 2 ; ++k) {
		if (!tr->isConnected()) tr->connect();
		Job j; j.rcpts = {"n1@c.example", "n2@c.example"}; j.from = "next@a.example"; j.data = "next " + str(k) + "\r\n.dot\r\n";
		Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data;
		bool dead = false; try { tr->noop(); } catch (vmime::exception&) { dead = true; }
		CHECK(!net.deadlock, "deadlock in NOOP after a transaction");
		if (dead) {      // the server closed the connection: a new one is needed
			try { if (tr->isConnected()) tr->disconnect(); } catch (vmime::exception&) {}
			tr->connect();
		}
		attempt(net, sc, tr, j, w, true, "following transaction");
	}
}

void mc_main(mc::Run& R) {
	platform::setHandler <Handler>();
	R.property = "C21";
	R.level = "model_checking";
	R.rule = "every extension set, number of recipients and sending interface, against a model SMTP server replying with every code of a set at every command (one or two deviations), every reply fragmentation, every message of CRLF lines over {text, dot} up to a length, every failure point of the message source; then further messages on the same transport. The server model records what it accepted; success must mean exactly that, failure that nothing was accepted";
	R.assumptions = {"messages consist of CRLF lines (no bare CR or LF)", "one line end added at the end of the message by the DATA terminator is allowed", "a server that is not spoken to any more and has an unterminated message discards it", "local parts that need SMTPUTF8 are only sent to servers offering it (the fallback encoding is fixed by the test suite)", "no TLS, no authentication"};
	const bool T = R.thorough; G = &R;
	auto rcptsN = [](int n) { std::vector <S> v; for (int i = 0 ; i < n ; ++i) v.push_back("r" + str(i) + "@b.example"); return v; };

	// ---- message contents through DATA, in all splits of the source
	const std::vector <S> tok = {"a", ".", "\r\n"};
	for (size_t n = 0 ; n <= (T ? 8u : 6u) ; ++n) mc::tuples(3, n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { return "content|" + mc::show(ix); }, [&] {
			S d; for (size_t i : ix) d += tok[i];
			for (int ext : {0, (int) PIPE}) for (size_t piece : {size_t(1), size_t(2), size_t(1000)}) {
				SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
				Job j; j.rcpts = {"r@b.example"}; j.data = d; j.piece = piece; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = d;
				attempt(net, sc, tr, j, w, true, "content"); R.trace(); R.transition(sc.log.size());
				j.data = w.data = "second\r\n"; attempt(net, sc, tr, j, w, true, "second message");
			}
			R.outcome(n);
		});
	});
	// around the sizes of the buffers on the way
	for (size_t size : {4094u, 4095u, 4096u, 4097u, 16384u, 32766u, 32767u, 32768u, 32769u, 65536u}) for (int k = 0 ; k < 6 ; ++k) R.testL([&] { return "buffers|" + str(size) + " " + str(k); }, [&] {
		S d(size, 'x'); const S ins = "\r\n..\r\n.\r\n"; for (size_t at = 60 ; at + 20 < d.size() ; at += 997) d.replace(at, ins.size(), ins);
		if (d.size() >= ins.size() + 6) d.replace(d.size() - ins.size() - k, ins.size(), ins);
		for (size_t piece : {size_t(1021), size_t(100000)}) {
			SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, PIPE | SIZEX); tr->connect();
			Job j; j.rcpts = {"r@b.example"}; j.data = d; j.piece = piece; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = d;
			attempt(net, sc, tr, j, w, true, "long content"); R.trace();
		}
		R.outcome(size);
	});

	// ---- deviations: each reply code at each command
	const std::vector <S> codes = {"421 go away", "450 no", "452 full", "550 no", "552 too big", "503 no", "250-a\r\n250 b", "250-\r\n250 b", "250-a\r\n550 b", "550-a\r\n550 b", "354 what", "251 fwd", "hang", "", "2", "25x a", "nonsense", "250", "550"};
	struct Cfg { int ext, pp, pc, api, nr; bool strict; };
	std::vector <Cfg> cfgs;
	for (int ext = 0 ; ext < 8 ; ++ext) for (int api = 0 ; api < 2 ; ++api) for (int nr = 1 ; nr <= 3 ; ++nr) for (int strict = 0 ; strict < 2 ; ++strict) cfgs.push_back({ext, 1, 1, api, nr, strict == 0});
	for (int pp = 0 ; pp < 2 ; ++pp) for (int pc = 0 ; pc < 2 ; ++pc) if (!pp || !pc) for (int api = 0 ; api < 3 ; ++api) cfgs.push_back({PIPE | CHUNK, pp, pc, api, 2, true});
	auto cname = [](const Cfg& c) { S s; if (c.ext & PIPE) s += "P"; if (c.ext & CHUNK) s += "C"; if (c.ext & SIZEX) s += "S"; return s + (c.pp ? "" : "-p") + (c.pc ? "" : "-c") + " api" + str(c.api) + " r" + str(c.nr) + (c.strict ? "" : " 354always"); };
	auto scenario = [&](const Cfg& c, const std::map <int, S>& dev, int frag, size_t splitAt) {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, c.ext, c.pp, c.pc); sc.strict354 = c.strict; net.frag = frag; net.splitAt = splitAt;
		tr->connect(); sc.dev = dev;
		Job j; j.api = c.api; j.rcpts = rcptsN(c.nr); j.data = "Subject: x\r\n\r\nhello\r\n.dot\r\n"; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data;
		if (c.api) { j.msg = makeMsg("hello\r\n.dot\r\n"); w.data = gen(j.msg, false); if (c.api == 2) { w.rcpts = {"r0@b.example"}; } }
		bool harmless = true; for (auto& d : dev) if (d.second != "250-a\r\n250 b" && d.second != "250") harmless = false;
		const bool ok = attempt(net, sc, tr, j, w, dev.empty(), "transaction"); (void) harmless;
		R.trace(); R.transition(sc.log.size()); R.outcome(ok);
		following(net, sc, tr);
		return sc.n;
	};
	for (auto& c : cfgs) {
		R.testL([&] { return "clean|" + cname(c); }, [&] { for (int f : {0, 1, 3}) scenario(c, {}, f, 0); });
		const int maxN = c.nr + 4;
		for (int at = 0 ; at < maxN ; ++at) for (auto& code : codes) R.testL([&] { return "fault|" + cname(c) + " @" + str(at) + " " + code; }, [&] {
			std::map <int, S> d; d[at] = code; scenario(c, d, 0, 0); scenario(c, d, 1, 0);
		});
		if (T || c.nr >= 2) for (int a = 0 ; a < maxN ; ++a) for (int b = a + 1 ; b < maxN ; ++b) for (auto& x : {S("550 no"), S("450 no"), S("354 what"), S("250-a\r\n250 b")}) for (auto& y : {S("550 no"), S("421 bye"), S("hang"), S("250-a\r\n550 b")}) R.testL([&] { return "two|" + cname(c) + " @" + str(a) + " " + x + " @" + str(b) + " " + y; }, [&] {
			std::map <int, S> d; d[a] = x; d[b] = y; scenario(c, d, 0, 0);
		});
	}
	// harmless reply forms must not make a transaction fail
	for (auto& c : cfgs) if (c.nr == 2) for (int at = 0 ; at < c.nr + 2 ; ++at) R.testL([&] { return "multiline|" + cname(c) + " @" + str(at); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, c.ext, c.pp, c.pc); sc.strict354 = c.strict; tr->connect();
		const bool isData = !(c.api && (c.ext & CHUNK) && c.pc) && at == c.nr + 1; const S k = isData ? "354" : "250";
		sc.dev[at] = k + "-a\r\n" + k + "-2.1.5 b\r\n" + k + " c";
		Job j; j.api = c.api; j.rcpts = rcptsN(c.nr); j.data = "x\r\n"; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data;
		if (c.api) { j.msg = makeMsg("x\r\n"); w.data = gen(j.msg, false); if (c.api == 2) w.rcpts = {"r0@b.example"}; }
		attempt(net, sc, tr, j, w, !(c.api == 2 && at >= 2), "multi-line reply"); R.trace(); R.outcome(1);
	});
	// every position of a single cut in the server's output; every position where the connection breaks
	for (int ext : {0, (int) PIPE, PIPE | CHUNK, (int) CHUNK}) for (int api = 0 ; api < 2 ; ++api) for (size_t at = 0 ; at < 330 ; ++at) {
		R.testL([&] { return "cut|" + str(ext) + " api" + str(api) + " " + str(at); }, [&] { scenario({ext, 1, 1, api, 2, true}, {}, 2, at); std::map <int, S> d; d[2] = "550-a\r\n550 b"; scenario({ext, 1, 1, api, 2, true}, d, 2, at); });
		R.testL([&] { return "broken|" + str(ext) + " api" + str(api) + " " + str(at); }, [&] {
			SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); net.cutAt = at;
			try { tr->connect(); } catch (vmime::exception&) { R.outcome("connect"); return; }
			Job j; j.api = api; j.rcpts = rcptsN(2); j.data = "hello\r\n"; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data; if (api) { j.msg = makeMsg("hello\r\n"); w.data = gen(j.msg, false); }
			const size_t before = sc.done.size(); bool ok = true;
			mailboxList rc; for (auto& r : j.rcpts) rc.appendMailbox(make_shared <mailbox>(emailAddress(r)));
			Source src(j.data, 100, size_t(-1));
			try { if (api) tr->send(j.msg, mailbox(emailAddress(j.from)), rc); else tr->send(mailbox(emailAddress(j.from)), rc, src, j.data.size()); } catch (vmime::exception&) { ok = false; }
			CHECK(!net.deadlock, "deadlock");
			if (ok) { CHECK(sc.done.size() == before + 1 && sc.done.back().rcpts == w.rcpts && sameData(sc.done.back().data, w.data), "success although not accepted"); }
			else CHECK(sc.done.size() <= before + 1, "accepted twice");      // the acceptance itself may have been lost
			net.cutAt = size_t(-1); try { if (tr->isConnected()) tr->disconnect(); } catch (vmime::exception&) {}
			following(net, sc, tr); R.outcome(ok);
		});
	}
	// ---- the message source fails after some bytes
	const S srcData = "line 1\r\n.line 2\r\nline 3\r\n";
	for (int ext : {0, (int) PIPE}) for (size_t f = 0 ; f <= srcData.size() ; ++f) for (size_t piece : {size_t(1), size_t(5)}) R.testL([&] { return "source|" + str(ext) + " " + str(f) + " " + str(piece); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		Job j; j.rcpts = rcptsN(2); j.data = srcData; j.piece = piece; j.failAt = f; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data;
		attempt(net, sc, tr, j, w, false, "failing source"); R.trace(); following(net, sc, tr); R.outcome(f);
	});
	// ---- chunks
	for (size_t size : {0u, 1u, 262000u, 262143u, 262144u, 262145u, 524288u, 600000u}) for (int ext : {(int) CHUNK, CHUNK | PIPE}) for (int fail = -1 ; fail < 7 ; ++fail) for (int lenient = 0 ; lenient < 2 ; ++lenient) R.testL([&] { return "chunks|" + str(size) + " " + str(ext) + " " + str(fail) + (lenient ? " lenient" : ""); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); sc.lenient = lenient; tr->connect();
		Job j; j.api = 1; j.rcpts = {"r0@b.example"}; S body; while (body.size() + 66 <= size) body += S(64, 'b') + "\r\n"; body += S(size - body.size(), 'e'); j.msg = makeMsg(body);
		S all = gen(j.msg, false);
		// make the total size exactly the wanted one where possible
		if (size >= 262000u) { const size_t over = all.size() - size; if (over < body.size()) { j.msg = makeMsg(body.substr(over)); all = gen(j.msg, false); CHECK(all.size() == size, "test setup"); } }
		Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = all; if (fail >= 0) sc.dev[fail] = "552 too big";
		attempt(net, sc, tr, j, w, fail < 0, "chunked message"); R.trace(); following(net, sc, tr); R.outcome(fail);
	});
	// messages with parts that need conversion while they are generated
	for (int ext = 0 ; ext < 16 ; ++ext) for (int attach = 0 ; attach < 2 ; ++attach) for (auto& text : {S("plain\r\n"), S("\xc3\xa9t\xc3\xa9\r\n.\r\n..x\r\n"), S("")}) for (auto& extra : {S(), S("Cc: c1@b.example, \"N, m\" <c2@b.example>\r\nBcc: hidden@b.example\r\n"), S("Sender: boss@a.example\r\nSubject: =?utf-8?Q?=C3=A9?=\r\n"), S("Cc: Team: t1@b.example, t2@b.example;, c3@b.example\r\n"), S("Return-Path: <x@y>\r\nOriginal-Recipient: rfc822;q@z\r\n")})
	R.testL([&] { return "message|" + str(ext) + " " + str(attach) + " " + text + "|" + extra; }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		Job j; j.api = 2; j.msg = makeMsg(text, attach, extra); const S orig = gen(j.msg, false);
		Want w; w.from = extra.find("Sender") == 0 ? "boss@a.example" : "me@a.example"; w.rcpts = {"r0@b.example"};
		if (extra.find("c1@") != S::npos) w.rcpts = {"r0@b.example", "c1@b.example", "c2@b.example", "hidden@b.example"};
		if (extra.find("t1@") != S::npos) w.rcpts = {"r0@b.example", "t1@b.example", "t2@b.example", "c3@b.example"};
		// what must be transmitted: the message without Bcc, Return-Path, Original-Recipient
		auto m2 = vmime::clone(j.msg); for (const char* f : {"Bcc", "Return-Path", "Original-Recipient"}) if (m2->getHeader()->hasField(f)) m2->getHeader()->removeField(m2->getHeader()->findField(f));
		w.data = gen(m2, ext & UTF8X);
		attempt(net, sc, tr, j, w, true, "message"); R.trace();
		CHECK(gen(j.msg, false) == orig, "sending changed the message object");
		if (sc.done.size()) CHECK(sc.done.back().data.find("hidden@") == S::npos, "blind copy recipient disclosed");
		following(net, sc, tr); R.outcome(ext);
	});
	// ---- addresses
	const std::vector <std::pair <S, S> > addrs = {{"a@x.example", "a@x.example"}, {"a b@x.example", "\"a b\"@x.example"}, {"a.b+c@x.example", "a.b+c@x.example"}};
	for (int ext : {0, (int) PIPE, PIPE | UTF8X}) for (auto& a : addrs) for (auto& b : addrs) R.testL([&] { return "address|" + str(ext) + " " + a.first + " " + b.first; }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		auto addr = [](const S& x) { const size_t p = x.rfind('@'); return emailAddress(word(x.substr(0, p), charset("utf-8")), word(x.substr(p + 1), charset("utf-8"))); };
		mailboxList rc; rc.appendMailbox(make_shared <mailbox>(addr(b.first))); rc.appendMailbox(make_shared <mailbox>(text("Display, Name"), addr(a.first)));
		Source src("x\r\n", 10, size_t(-1)); tr->send(mailbox(addr(a.first)), rc, src, 3);
		CHECK(sc.protoError.empty() && sc.done.size() == 1, "not delivered: " + esc(sc.protoError));
		CHECK(sc.done[0].from == a.second && sc.done[0].rcpts.size() == 2 && sc.done[0].rcpts[0] == b.second && sc.done[0].rcpts[1] == a.second, "delivered as " + show(sc.done[0]));
		R.outcome(ext);
	});
	for (int ext : {(int) UTF8X, UTF8X | PIPE, UTF8X | SIZEX}) for (int who = 0 ; who < 4 ; ++who) for (auto& loc : {S("\xc3\xa9"), S("\xc3\xa9 x"), S("\xc3\xa9>x"), S("\xc3\xa9\"x")}) R.testL([&] { return "utf8|" + str(ext) + " " + str(who) + " " + loc; }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		auto u = [&](bool on) { return on ? emailAddress(word(loc, charset("utf-8")), word("\xc3\xa9.example", charset("utf-8"))) : emailAddress("b@x.example"); };
		mailboxList rc; rc.appendMailbox(make_shared <mailbox>(u(who & 1))); Source src("x\r\n", 10, size_t(-1)); tr->send(mailbox(u(who & 2)), rc, src, 3);
		CHECK(sc.protoError.empty() && sc.done.size() == 1, "not delivered: " + esc(sc.protoError));
		S q; for (char c : loc) { if (c == '"') q += '\\'; q += c; } const S full = (loc.size() > 2 ? "\"" + q + "\"" : q) + "@\xc3\xa9.example";
		CHECK(sc.done[0].from == (who & 2 ? full : S("b@x.example")) && sc.done[0].rcpts[0] == (who & 1 ? full : S("b@x.example")), "delivered as " + esc(show(sc.done[0])));
		CHECK(sc.done[0].utf8 == (who != 0), "SMTPUTF8 parameter"); R.outcome(who);
	});
	// an envelope sender of its own
	for (int ext : {0, (int) SIZEX, (int) UTF8X, UTF8X | PIPE, UTF8X | SIZEX}) for (int from = 0 ; from < 2 ; ++from) for (int snd = 0 ; snd < 3 ; ++snd) for (int rc = 0 ; rc < 2 ; ++rc) { if (!(ext & UTF8X) && (from || snd == 2 || rc)) continue; R.testL([&] { return "sender|" + str(ext) + " " + str(from) + str(snd) + str(rc); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		auto u = [&](bool on, const S& plain) { return on ? emailAddress(word("\xc3\xa9" + plain, charset("utf-8")), word("h.example", charset("utf-8"))) : emailAddress(plain + "@h.example"); };
		mailboxList l; l.appendMailbox(make_shared <mailbox>(u(rc, "rcpt"))); Source src("x\r\n", 10, size_t(-1)); tr->send(mailbox(u(from, "from")), l, src, 3, NULL, snd ? mailbox(u(snd == 2, "snd")) : mailbox());
		CHECK(sc.protoError.empty() && sc.done.size() == 1, "not delivered: " + esc(sc.protoError)); const bool fu = snd ? snd == 2 : from != 0; CHECK(sc.done[0].from == S(fu ? "\xc3\xa9" : "") + (snd ? "snd" : "from") + "@h.example" && sc.done[0].rcpts[0] == S(rc ? "\xc3\xa9" : "") + "rcpt@h.example", "delivered as " + esc(show(sc.done[0])));
		CHECK(sc.done[0].utf8 || !(fu || rc), "addresses which are not ASCII without SMTPUTF8"); CHECK(sc.done[0].size == (ext & SIZEX ? 3 : 0), "declared size"); R.outcome(str(fu) + str(rc)); }); }
	// no address can inject a command
	for (int ext : {0, (int) UTF8X, PIPE | UTF8X}) for (auto& evil : {S("x\r\nRCPT TO:<evil@x.example>\r\n"), S("x>\r\nDATA"), S("\n"), S("\r"), S("x\xc3\xa9\r\nRSET"), S("a> SIZE=1"), S("\xc3\xa9> SIZE=1"), S("a\\> SIZE=1"), S("a\\>SIZE=1"), S("\xc3\xa9\\>SIZE=1"), S("\xc3\xa9\\> SIZE=1"), S("\\"), S("a\x01z"), S("a b\x01"), S("\xc3\xa9 \x7f"), S("a\0b", 3), S("\xc3\xa9\0 b", 5), S("\xc3\xa9\r\n")}) for (int where = 0 ; where < 4 ; ++where) R.testL([&] { return "inject|" + str(ext) + " " + evil + " " + str(where); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect();
		const word ev(evil, charset("utf-8")); emailAddress bad = where & 1 ? emailAddress(word("a"), ev) : emailAddress(ev, word("x.example")), good("b@x.example");
		mailboxList rc; rc.appendMailbox(make_shared <mailbox>(where & 2 ? good : bad)); Source src("x\r\n", 10, size_t(-1));
		try { tr->send(mailbox(where & 2 ? bad : good), rc, src, 3); } catch (vmime::exception&) { R.outcome("refused"); }
		CHECK(!net.deadlock, "deadlock");
		std::vector <S> l; for (auto& x : sc.log) if (x.compare(0, 4, "EHLO") && x != "QUIT") l.push_back(x);
		CHECK(l.size() <= 3, "address became commands: " + esc(mc::show(l)));
		for (size_t i = 0 ; i < l.size() ; ++i) CHECK(l[i].compare(0, 4, i == 0 ? "MAIL" : i == 1 ? "RCPT" : "DATA") == 0, "command sequence " + esc(mc::show(l)));
		for (auto& x : l) for (unsigned char c : x) CHECK(c >= 32 && c != 127, "control character in a command: " + esc(x));
		for (auto& x : l) if (!(ext & SIZEX)) { bool q = false; size_t e = 0; for (size_t i = 0 ; i < x.size() ; ++i) { if (x[i] == '"') q = !q; if (x[i] == '\\' && q) ++i; else if (x[i] == '>' && !q) { e = i; break; } } CHECK(x == "DATA" || x.substr(e + 1).find("SIZE") == S::npos, "address became a parameter: " + esc(x)); }
	});
	// ---- options: refused before anything is sent; DSN parameters in place
	for (int ext : {0, (int) PIPE, (int) DSNX, DSNX | PIPE | SIZEX}) R.testL([&] { return "dsn|" + str(ext); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect(); const size_t l0 = sc.log.size();
		Job j; j.rcpts = rcptsN(2); j.data = "x\r\n"; j.dsn = true; Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = j.data;
		const bool ok = attempt(net, sc, tr, j, w, ext & DSNX, "DSN"); CHECK(ok == !!(ext & DSNX), "DSN outcome"); if (!ok) CHECK(sc.log.size() == l0, "commands sent although the extension is missing");
		else for (auto& x : sc.log) { if (!x.compare(0, 4, "MAIL")) CHECK(x.find(" RET=FULL") != S::npos && x.find(" ENVID=") != S::npos, "MAIL without DSN: " + x); if (!x.compare(0, 4, "RCPT")) CHECK(x.find(" NOTIFY=SUCCESS") != S::npos, "RCPT without DSN: " + x); }
		following(net, sc, tr); R.outcome(ok);
	});
	for (int ext : {0, (int) PIPE}) for (int k = 0 ; k < 3 ; ++k) R.testL([&] { return "nothing|" + str(ext) + " " + str(k); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, ext); tr->connect(); const size_t l0 = sc.log.size(); bool thrown = false;
		Source src("x\r\n", 10, size_t(-1)); mailboxList rc; if (k) rc.appendMailbox(make_shared <mailbox>(emailAddress("a@b.example")));
		try { tr->send(k == 1 ? mailbox() : mailbox(emailAddress("me@a.example")), k == 2 ? mailboxList() : rc, src, 3); } catch (exceptions::no_recipient&) { thrown = k != 1; } catch (exceptions::no_expeditor&) { thrown = k == 1; }
		CHECK(thrown && sc.log.size() == l0, "message without sender or recipient"); following(net, sc, tr); R.outcome(k);
	});
	// a server without EHLO
	for (int api = 0 ; api < 2 ; ++api) R.testL([&] { return "helo|" + str(api); }, [&] {
		SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, PIPE | CHUNK | SIZEX); sc.heloOnly = 1; sc.exts = 0; tr->connect();
		Job j; j.api = api; j.rcpts = rcptsN(2); j.data = "x\r\n"; j.msg = makeMsg("x\r\n"); Want w; w.from = j.from; w.rcpts = j.rcpts; w.data = api ? gen(j.msg, false) : j.data;
		attempt(net, sc, tr, j, w, true, "HELO server"); following(net, sc, tr); R.outcome(api);
	});
	// not connected
	R.test("unconnected|", [&] { SimNet net; Script sc; shared_ptr <session> s; shared_ptr <transport> tr; setup(net, sc, s, tr, 0); Job j; j.rcpts = rcptsN(1); j.data = "x"; bool t = false; Source src("x", 1, size_t(-1)); mailboxList rc; rc.appendMailbox(make_shared <mailbox>(emailAddress("a@b.example"))); try { tr->send(mailbox(emailAddress("a@b.example")), rc, src, 1); } catch (exceptions::not_connected&) { t = true; } CHECK(t && net.connects == 0, "not connected"); });
}
