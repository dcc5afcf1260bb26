// C46: progress listeners are told the truth: start, progress, stop, in this order and consistently.
#include "maildirsim.hpp"
#include "imapsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/utility/progressListener.hpp"
#include "vmime/utility/streamUtils.hpp"
#include "vmime/emptyContentHandler.hpp"
using namespace vmime;
typedef shared_ptr <net::folder> F;

struct Ev { char k; size_t a, b; };
struct Rec : public utility::progressListener {
	std::vector <Ev> e; int failAt = -1; bool failed = false;
	void tick() { if (int(e.size()) - 1 == failAt) { failed = true; throw std::runtime_error("listener"); } }
	void start(const size_t t) { e.push_back({'>', t, t}); tick(); } void progress(const size_t c, const size_t t) { e.push_back({'.', c, t}); tick(); } void stop(const size_t t) { e.push_back({'<', t, t}); tick(); }
	S show() const { S r; for (size_t i = 0 ; i < e.size() ; ++i) if (e.size() < 30 || i < 12 || i + 12 >= e.size()) r += e[i].k == '>' ? " start(" + str(e[i].a) + ")" : e[i].k == '<' ? " stop(" + str(e[i].a) + ")" : " " + str(e[i].a) + "/" + str(e[i].b); else if (i == 12) r += " ..."; return r; }
};
static const size_t ANY = size_t(-1);
/** what an operation which succeeded must have told: predicted total, position reached at the end, final total */
struct Want { size_t start = ANY, last = ANY, stop = ANY; bool units = false, fixed = false; };
static void prefix(const Rec& r) {          // holds for every operation, also failed ones
	bool stopped = false; size_t cur = 0, tot = 0;
	for (size_t i = 0 ; i < r.e.size() ; ++i) {
		const Ev& e = r.e[i]; auto at = [&] { return " at event " + str(i + 1) + " of" + r.show(); };
		CHECK(!stopped, S("told something after stop") + at());
		CHECK((e.k == '>') == (i == 0), S(i ? "started again" : "the first event is not start") + at());
		if (e.k == '<') { stopped = true; CHECK(e.a >= cur, "the final total is less than what was done" + at()); }
		if (e.k == '.') { CHECK(e.a >= cur, "progress goes back" + at()); CHECK(e.a <= e.b, "more than everything is done" + at()); CHECK(e.b >= tot, "the total shrinks" + at()); cur = e.a; tot = e.b; }
	}
}
static void verify(mc::Run& R, const Rec& r, const Want& w) {
	R.outcome(r.show()); R.transition();
	CHECK(!r.e.empty(), "the listener was told nothing");
	prefix(r); const S all = ":" + r.show();
	CHECK(r.e.back().k == '<', "the end was not told" + all);
	if (w.start != ANY) CHECK(r.e[0].a == w.start, "predicted total is not " + str(w.start) + all);
	if (w.stop != ANY) CHECK(r.e.back().a == w.stop, "final total is not " + str(w.stop) + all);
	size_t last = 0, n = 0; for (auto& e : r.e) if (e.k == '.') { last = e.a; ++n; if (w.units) CHECK(e.a == n, "not one unit at a time" + all); if (w.fixed) CHECK(e.b == w.start, "the total is not " + str(w.start) + all); }
	if (w.last != ANY) CHECK(last == w.last, "ends at " + str(last) + " instead of " + str(w.last) + all);
}
static S pattern(size_t n) { S s; for (size_t i = 0 ; i < n ; ++i) s += i % 61 == 60 ? '\n' : i % 61 == 59 ? '\r' : char('a' + i % 23); return s; }
struct FailIn : public ChunkIn { size_t failAt; FailIn(const S& d, const Cuts& c, size_t f) : ChunkIn(d, c), failAt(f) {} size_t read(byte_t* const d, const size_t n) { if (getPosition() >= failAt) throw exceptions::system_error("source"); return ChunkIn::read(d, n); } };

// ---- servers
struct Pop : public LineServer {
	std::vector <S>* m; Pop(std::vector <S>* x) : m(x) {}
	void connected() { reply("+OK hi"); }
	void line(const S& l) {
		std::istringstream is(l); S c; size_t a = 0; is >> c >> a;
		if (c == "CAPA") { reply("+OK"); reply("TOP"); reply("UIDL"); reply("."); } else if (c == "STAT") reply("+OK " + str(m->size()) + " 100");
		else if (c == "LIST" && a) reply("+OK " + str(a) + " " + str((*m)[a - 1].size())); else if (c == "UIDL" && a) reply("+OK " + str(a) + " u" + str(a));
		else if (c == "LIST") { reply("+OK"); for (size_t i = 0 ; i < m->size() ; ++i) reply(str(i + 1) + " " + str((*m)[i].size())); reply("."); }
		else if (c == "UIDL") { reply("+OK"); for (size_t i = 0 ; i < m->size() ; ++i) reply(str(i + 1) + " u" + str(i + 1)); reply("."); }
		else if (c == "RETR" || c == "TOP") { reply("+OK"); S d = (*m)[a - 1]; if (c == "TOP") d = d.substr(0, d.find("\r\n\r\n") + 4); bool bol = true; for (char x : d) { if (bol && x == '.') out += '.'; out += x; bol = x == '\n'; } out += ".\r\n"; }
		else if (c == "QUIT") { reply("+OK"); closed = true; } else reply("+OK");
	}
};
struct Smtp : public LineServer {
	bool chunking, pipe; S* got; size_t failBdat; bool inData = false, bdat = false; size_t left = 0, n = 0; bool last = false;
	Smtp(bool c, bool p, S* g, size_t f) : chunking(c), pipe(p), got(g), failBdat(f) {}
	void connected() { reply("220 hi"); }
	bool wantRaw() { return bdat; }
	bool takeRaw() { const size_t k = std::min(left, buf.size()); *got += buf.substr(0, k); buf.erase(0, k); left -= k; if (left) return false; bdat = false; reply(n++ == failBdat ? "552 too much" : "250 ok"); return true; }
	void line(const S& l) {
		if (inData) { if (l == ".") { inData = false; reply(failBdat == 0 ? "552 no" : "250 ok"); } else *got += (l[0] == '.' ? l.substr(1) : l) + "\r\n"; return; }
		if (l.compare(0, 4, "EHLO") == 0) { reply("250-sim"); if (chunking) reply("250-CHUNKING"); if (pipe) reply("250-PIPELINING"); reply("250 HELP"); }
		else if (l == "DATA") { inData = true; reply("354 go"); }
		else if (l.compare(0, 5, "BDAT ") == 0) { left = std::stoul(l.substr(5)); last = l.find("LAST") != S::npos; bdat = true; }
		else if (l == "QUIT") { reply("221 bye"); closed = true; } else reply("250 ok");
	}
};
static shared_ptr <net::store> popStore(SimNet& net, shared_ptr <net::session>& ses) {
	ses = net::session::create(); auto& p = ses->getProperties(); p["store.pop3.auth.username"] = S("joe"); p["store.pop3.auth.password"] = S("pw"); p["store.pop3.options.sasl"] = false; p["store.pop3.options.apop"] = false;
	auto st = ses->getStore(utility::url("pop3://sim.example")); st->setSocketFactory(make_shared <SimSocketFactory>(&net)); return st;
}
static shared_ptr <net::transport> smtpOf(SimNet& net, shared_ptr <net::session>& ses) { ses = net::session::create(); auto t = ses->getTransport(utility::url("smtp://sim.example")); t->setSocketFactory(make_shared <SimSocketFactory>(&net)); return t; }
static mailboxList to() { mailboxList l; l.appendMailbox(make_shared <mailbox>("b@y.example")); return l; }

void mc_main(mc::Run& R) {
	mdsim::init();
	R.property = "C46";
	R.rule = "every operation which takes a progress listener x sizes around its buffers x how the source or the network delivers the data x every point where the source fails, the connection breaks or the listener throws; "
		"stream copies, the five encoders in both directions on every short input, content handlers, the size adapter on every short sequence of notifications, maildir, IMAP, POP3 and SMTP operations";
	R.assumptions = {"a listener may be told nothing when there is nothing to do", "nothing is promised about stop when an operation fails, except that it comes at most once and last"};
	const bool T = R.thorough; const S NL = "\r\n";
	// ---- copies of streams
	for (size_t n : {0, 1, 2, 5, 17, 4096, 32767, 32768, 32769, 65536, 100001}) for (int len = 0 ; len < 4 ; ++len) for (size_t piece : {1, 2, 5, 1000, 100000}) for (int late = 0 ; late < 2 ; ++late) for (size_t idle = 0 ; idle < 2 ; ++idle) {
		if (n > 100 && piece < 1000) continue;
		R.testL([&] { return "copy|" + str(n) + " " + str(len) + " " + str(piece) + " " + str(late) + str(idle); }, [&] {
			const S d = pattern(n); const size_t l = len == 0 ? n : len == 1 ? 0 : len == 2 ? n / 2 : n + 7; ChunkIn in(d, Cuts(n / piece + 1, piece), late); in.idle = idle; CollectOut out; Rec r;
			CHECK(utility::bufferedStreamCopy(in, out, l, &r) == n, "copied"); R.equal(out.data, d, "copy"); verify(R, r, {l, n, n, false, false});
		});
	}
	// ---- encoders
	const std::vector <S> encs = {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"};
	auto code = [&](const S& enc, bool decode, const S& d, const Cuts& cuts, bool late) {
		auto e = makeEncoder(enc); ChunkIn in(d, cuts, late), in2(d, cuts, late); CollectOut a, b; Rec r; size_t n1 = 0, n2 = 0;
		n1 = decode ? e->decode(in, a, &r) : e->encode(in, a, &r); n2 = decode ? e->decode(in2, b) : e->encode(in2, b);
		R.equal(a.data, b.data, "result with a listener"); CHECK(n1 == n2, "sizes differ");
		Want w; if (!decode || enc[1] == 'b' || enc[0] == '8' || enc == "binary") w.last = w.stop = d.size(); if (!decode && enc == "uuencode") w.last = ANY;
		verify(R, r, w); CHECK(r.e.back().a <= d.size(), "more read than there is:" + r.show());
	};
	for (auto& enc : encs) {
		mc::strings({"a", "=", NL, " ", "4", "\xe9"}, 0, T ? 4 : 3, [&](const S& s) { R.testL([&] { return "code|" + enc + "|" + esc(s); }, [&] { mc::compositions(s.size(), [&](const Cuts& c) { if (c.size() > 4) return; for (int late = 0 ; late < 2 ; ++late) { code(enc, false, s, c, late); code(enc, true, s, c, late); } }); }); });
		for (size_t n : {0, 1, 2, 3, 44, 45, 46, 57, 58, 75, 76, 77, 300, 5000, 16383, 16384, 16385, 40000, 65537}) for (size_t piece : {1, 3, 64, 100000}) { if (n > 400 && piece < 64) continue; R.testL([&] { return "encode|" + enc + " " + str(n) + " " + str(piece); }, [&] {
			const S d = pattern(n); code(enc, false, d, Cuts(n / piece + 1, piece), false); code(enc, true, d, Cuts(n / piece + 1, piece), true);
			S t; { auto e = makeEncoder(enc); ChunkIn in(d); CollectOut o; e->encode(in, o); t = o.data; } code(enc, true, t, Cuts(t.size() / piece + 1, piece), false); code(enc, true, t + "trailing" + NL, Cuts(t.size() / piece + 1, piece), true);
			auto h = makeEncoder(enc); ChunkIn in(t); CollectOut o; Rec r; h->decode(in, o, &r); if (enc == "quoted-printable") { Want w; w.last = w.stop = t.size(); verify(R, r, w); }
		}); }
		if (enc == "uuencode") for (S s : {S("begin 644 x\r\n#86)C\r\n`\r\nend\r\n"), S("begin 644 x\n#86)C\nend\n"), S("begin"), S("begin 6"), S("begin "), S("\r\nbegin 644 x\r\n#86)C"), S("b"), S("beg"), S("xx\nbegin 644 x\n#86)C\n`\nend\nmore\n"), "begin 644 " + S(600, 'n') + "\n#86)C\n`\nend\n"}) R.testL([&] { return "uu|" + esc(s, 60); }, [&] { for (size_t piece : {1, 2, 3, 7, 1000}) for (int late = 0 ; late < 2 ; ++late) code(enc, true, s, Cuts(s.size() / piece + 1, piece), late); });
		// failures in the middle
		const S d = pattern(400); S t; { auto e = makeEncoder(enc); ChunkIn in(d); CollectOut o; e->encode(in, o); t = o.data; }
		for (int dec = 0 ; dec < 2 ; ++dec) for (size_t f = 0 ; f < t.size() ; f += (T ? 1 : 7)) R.testL([&] { return "source fails|" + enc + " " + str(dec) + " " + str(f); }, [&] {
			const S& s = dec ? t : d; if (f >= s.size()) return; FailIn in(s, Cuts(s.size(), 5), f); CollectOut o; Rec r; auto e = makeEncoder(enc); bool ok = true;
			try { dec ? e->decode(in, o, &r) : e->encode(in, o, &r); } catch (exceptions::system_error&) { ok = false; }
			prefix(r); if (!ok) CHECK(r.e.empty() || r.e.back().k != '<' || r.e.back().a <= s.size(), "ended beyond the end:" + r.show()); R.outcome(r.show());
		});
	}
	// ---- the size adapter
	mc::tuples(4, 4, [&](const std::vector <size_t>& v) { for (size_t total : {0, 1, 2, 3, 7}) R.testL([&] { return "adapter|" + str(total) + mc::show(v); }, [&] {
		Rec r; utility::progressListenerSizeAdapter a(&r, total); const size_t p = std::min(v[0], v[1]), c = v[2], last = std::max(p, std::min(c, v[3])); size_t tot = total;
		a.start(v[0]); tot = std::max(tot, v[0]); CHECK(r.e[0].a == tot, "predicted total " + str(r.e[0].a) + " instead of " + str(tot)); a.progress(p, v[1]); tot = std::max(tot, v[1]); CHECK(r.e[1].a == p && r.e[1].b == tot, "progress:" + r.show());
		a.progress(last, v[3] > last ? v[3] : last); tot = std::max(tot, std::max(v[3], last)); CHECK(r.e[2].a == last && r.e[2].b == tot, "progress:" + r.show()); a.stop(last); CHECK(r.e[3].a == tot && r.e.size() == 4, "stop:" + r.show()); verify(R, r, Want());
		utility::progressListenerSizeAdapter none(NULL, total); none.start(1); none.progress(1, 2); none.stop(2);
	}); });
	// ---- content handlers
	for (size_t n : {0, 1, 2, 3, 57, 100, 4097, 33000, 70000}) for (auto& enc : encs) for (int kind = 0 ; kind < 4 ; ++kind) for (int op = 0 ; op < 3 ; ++op) R.testL([&] { return "handler|" + str(n) + " " + enc + " " + str(kind) + str(op); }, [&] {
		const S d = pattern(n); S raw; { auto e = makeEncoder(enc); ChunkIn in(d); CollectOut o; e->encode(in, o); raw = o.data; } const encoding x(enc); const size_t len = raw.size();
		auto make = [&]() -> shared_ptr <contentHandler> { if (kind == 0) return make_shared <stringContentHandler>(raw, x); return make_shared <streamContentHandler>(make_shared <ChunkIn>(raw, kind == 1 ? Cuts() : kind == 2 ? Cuts(len / 100 + 1, 100) : Cuts{2, 3}, kind == 3), len, x); };
		auto h = make(), g = make(); for (int again = 0 ; again < 2 ; ++again) {
			CollectOut a, b; Rec r; Want w; w.start = len; w.stop = len; w.fixed = true;
			if (op == 0) { h->extract(a, &r); g->extract(b); if (enc != "uuencode" && enc != "base64") w.last = len; R.equal(a.data, d, "extracted"); } else if (op == 1) { h->extractRaw(a, &r); g->extractRaw(b); w.last = len; R.equal(a.data, raw, "extracted"); } else { h->extract(a, NULL); g->extract(b); }
			R.equal(a.data, b.data, "with a listener"); if (op < 2) { verify(R, r, w); }
		}
	});
	R.test("handler|empty", [&] { emptyContentHandler h; for (int raw = 0 ; raw < 2 ; ++raw) { Rec r; CollectOut o; raw ? h.extractRaw(o, &r) : h.extract(o, &r); verify(R, r, {0, 0, 0, false, true}); } });
	for (auto& enc : encs) R.testL([&] { return "body|" + enc; }, [&] {      // contents of a parsed message
		for (size_t n : {0, 1, 500, 9000}) { const S d = pattern(n); S raw; { auto e = makeEncoder(enc); ChunkIn in(d); CollectOut o; e->encode(in, o); raw = o.data; } vmime::message m; m.parse("Content-Transfer-Encoding: " + enc + NL + NL + raw); auto c = m.getBody()->getContents(); Rec r; CollectOut o; c->extract(o, &r); if (!r.e.empty() || n) { verify(R, r, {c->getLength(), ANY, c->getLength(), false, true}); } R.equal(o.data, d, "contents"); }
	});
	// ---- maildir
	const std::vector <size_t> sizes = {0, 1, 5, 100, 8191, 8192, 8193, 65535, 65536, 65537, 140000};
	auto text = [&](size_t n) { return "Subject: m" + str(n) + NL + NL + pattern(n); };
	for (size_t n : sizes) for (size_t piece : {100, 8192, 1000000}) R.testL([&] { return "maildir add|" + str(n) + " " + str(piece); }, [&] {
		mdsim::fresh(false, {"a"}); mdsim::Box b; b.connect(); { vfs::On o; F f = b.folder(mdsim::P("a")); f->open(net::folder::MODE_READ_WRITE); const S d = text(n);
			{ Rec r; ChunkIn in(d, Cuts(d.size() / piece + 1, piece)); f->addMessage(in, d.size(), -1, NULL, &r); verify(R, r, {d.size(), d.size(), d.size(), false, true}); }
			{ Rec r; auto m = make_shared <vmime::message>(); m->parse(d); f->addMessage(m, -1, NULL, &r); const size_t k = m->generate().size(); verify(R, r, {k, k, k, false, true}); }
			auto msgs = f->getMessages(net::messageSet::byNumber(1, size_t(-1))); CHECK(msgs.size() == 2, "messages");
			for (int flags = 0 ; flags < 3 ; ++flags) { Rec r; auto v = f->getMessages(net::messageSet::byNumber(1, size_t(-1))); f->fetchMessages(v, net::fetchAttributes(flags == 0 ? net::fetchAttributes::SIZE : flags == 1 ? net::fetchAttributes::FULL_HEADER : net::fetchAttributes::STRUCTURE | net::fetchAttributes::UID), &r); verify(R, r, {2, 2, 2, true, true}); }
			{ Rec r; std::vector <shared_ptr <net::message> > none; f->fetchMessages(none, net::fetchAttributes(net::fetchAttributes::SIZE), &r); prefix(r); }
			f->fetchMessages(msgs, net::fetchAttributes(net::fetchAttributes::STRUCTURE | net::fetchAttributes::FULL_HEADER | net::fetchAttributes::SIZE));
			for (size_t st : {size_t(0), size_t(1), d.size() - 1, d.size(), d.size() + 5}) for (size_t len : {size_t(-1), size_t(0), size_t(1), size_t(50), d.size(), d.size() + 9}) { Rec r; CollectOut o; for (auto& x : f->getMessages(net::messageSet::byNumber(1))) { f->fetchMessage(x, net::fetchAttributes(net::fetchAttributes::SIZE)); x->extract(o, &r, st, len); } const S want = st < d.size() ? d.substr(st, len) : S(); R.equal(o.data, want, "extracted"); verify(R, r, {want.size(), want.size(), want.size(), false, true}); }
			auto ms = msgs[0]->getStructure(); if (ms->getPartCount()) { Rec r; CollectOut o; msgs[0]->extractPart(ms->getPartAt(0), o, &r); R.equal(o.data, pattern(n), "extracted part"); verify(R, r, {n, n, n, false, true}); }
		}
	});
	for (int who = 0 ; who < 2 ; ++who) for (int k = 0 ; k < 12 ; ++k) R.testL([&] { return S("maildir add fails|") + (who ? "listener " : "source ") + str(k); }, [&] {
		mdsim::fresh(false, {"a"}); mdsim::Box b; b.connect(); vfs::On on; F f = b.folder(mdsim::P("a")); f->open(net::folder::MODE_READ_WRITE); const S d = text(1000); Rec r; if (who) r.failAt = k; FailIn in(d, Cuts(20, 130), who ? size_t(-1) : size_t(k) * 130); bool ok = true;
		try { f->addMessage(in, d.size(), -1, NULL, &r); } catch (mc::Violated&) { throw; } catch (std::exception&) { ok = false; } prefix(r);
		const bool failing = who ? r.failed : size_t(k) * 130 < d.size(); if (!(who && failing && r.e.back().k == '<')) CHECK(ok == !failing, "result"); if (ok) verify(R, r, {d.size(), d.size(), d.size(), false, true}); R.outcome(r.show());
	});
	// ---- IMAP
	auto imap = [&](imapsim::Client& c, int frag) { c.net.frag = frag; c.net.splitAt = 1000; c.start(); F f = c.folder("INBOX"); f->open(net::folder::MODE_READ_WRITE); return f; };
	for (size_t n : sizes) for (int frag : {0, 1, 3, 4}) { if (n > 1000 && (frag == 1 || frag == 3)) continue; R.testL([&] { return "imap add|" + str(n) + " " + str(frag); }, [&] {
		imapsim::Client c; F f = imap(c, frag); const S d = text(n);
		for (size_t piece : {100, 100000}) { Rec r; ChunkIn in(d, Cuts(d.size() / piece + 1, piece)); f->addMessage(in, d.size(), -1, NULL, &r); verify(R, r, {d.size(), d.size(), d.size(), false, true}); imapsim::wantEq(c.w.box["INBOX"].m.back()->data, d, "stored"); }
		{ Rec r; auto m = make_shared <vmime::message>(); m->parse(d); f->addMessage(m, -1, NULL, &r); const size_t k = m->generate().size(); verify(R, r, {k, k, k, false, true}); } c.ok();
	}); }
	for (size_t n : sizes) for (int frag : {0, 1, 3, 4}) for (int lit = 0 ; lit < 2 ; ++lit) { if (n > 1000 && (frag == 1 || frag == 3)) continue; R.testL([&] { return "imap extract|" + str(n) + " " + str(frag) + str(lit); }, [&] {
		imapsim::Client c; c.w.strings = lit; const S d = text(n); c.w.add("INBOX", d); c.w.add("INBOX", "X: y" + NL + NL + "z" + NL); F f = imap(c, frag); auto m = f->getMessage(1);
		for (size_t st : {size_t(0), size_t(1), d.size() - 1}) for (size_t len : {size_t(-1), size_t(1), size_t(50), d.size()}) { Rec r; CollectOut o; m->extract(o, &r, st, len); const S want = d.substr(st, len); R.equal(o.data, want, "extracted"); verify(R, r, {want.size(), ANY, want.size(), false, true}); }
		c.ok();
	}); }
	for (size_t n = 1 ; n <= 6 ; ++n) for (int order = 0 ; order < 3 ; ++order) for (int frag : {0, 1}) for (int extra = 0 ; extra < 2 ; ++extra) R.testL([&] { return "imap fetch|" + str(n) + " " + str(order) + str(frag) + str(extra); }, [&] {
		imapsim::Client c; c.w.order = order; c.w.extraFlags = extra; for (size_t i = 0 ; i < n ; ++i) c.w.add("INBOX", text(i)); F f = imap(c, frag);
		for (int a : {net::fetchAttributes::SIZE | 0, net::fetchAttributes::UID | net::fetchAttributes::FLAGS, net::fetchAttributes::FULL_HEADER | net::fetchAttributes::UID}) { Rec r; auto v = f->getMessages(net::messageSet::byNumber(1, n)); f->fetchMessages(v, net::fetchAttributes(a), &r); Want w{n, n, n, order != 2, true}; if (order == 2) { w.last = n; } verify(R, r, w); }
		for (size_t k = 1 ; k <= n ; ++k) { Rec r; std::vector <shared_ptr <net::message> > v = {f->getMessage(k)}; f->fetchMessages(v, net::fetchAttributes(net::fetchAttributes::SIZE), &r); verify(R, r, {1, 1, 1, order != 2, true}); }
		{ Rec r; std::vector <shared_ptr <net::message> > none; f->fetchMessages(none, net::fetchAttributes(net::fetchAttributes::SIZE), &r); prefix(r); } c.ok();
	});
	// every point where the connection breaks or the listener throws
	auto imapOps = [&](int op, imapsim::Client& c, F f, Rec& r) {
		const S d = text(200); if (op == 0) { ChunkIn in(d, Cuts(10, 50)); f->addMessage(in, d.size(), -1, NULL, &r); } else if (op == 1) { CollectOut o; f->getMessage(1)->extract(o, &r); } else { auto v = f->getMessages(net::messageSet::byNumber(1, 2)); f->fetchMessages(v, net::fetchAttributes(net::fetchAttributes::FULL_HEADER | net::fetchAttributes::UID), &r); } (void) c;
	};
	for (int op = 0 ; op < 3 ; ++op) { const size_t upTo = T ? 1500 : 900; for (size_t cut = 150 ; cut < upTo ; cut += (T ? 1 : 5)) R.testL([&] { return "imap broken|" + str(op) + " " + str(cut); }, [&] {
		imapsim::Client c; c.w.add("INBOX", text(200)); c.w.add("INBOX", text(10)); c.net.cutTotal = cut; Rec r; F f; bool ok = false; try { f = imap(c, 0); imapOps(op, c, f, r); ok = true; } catch (mc::Violated&) { throw; } catch (std::exception&) {} prefix(r); if (ok) verify(R, r, Want()); R.outcome(r.show());
	}); for (int k = 0 ; k < 14 ; ++k) R.testL([&] { return "imap listener throws|" + str(op) + " " + str(k); }, [&] {
		imapsim::Client c; c.w.add("INBOX", text(200)); c.w.add("INBOX", text(10)); Rec r; r.failAt = k; F f = imap(c, 4); bool ok = true; try { imapOps(op, c, f, r); } catch (mc::Violated&) { throw; } catch (std::exception&) { ok = false; } if (!(r.failed && r.e.back().k == '<')) { prefix(r); CHECK(ok == !r.failed, "result"); } R.outcome(r.show());
	}); }
	// ---- POP3
	for (size_t n : sizes) for (int frag : {0, 1, 3, 4}) for (int sized = 0 ; sized < 2 ; ++sized) { if (n > 1000 && (frag == 1 || frag == 3)) continue; R.testL([&] { return "pop3|" + str(n) + " " + str(frag) + str(sized); }, [&] {
		std::vector <S> m = {text(n) + NL + ".dot" + NL, text(3) + NL, "A: b" + NL + NL}; SimNet net; net.frag = frag; net.splitAt = 1000; net.server = [&] { return make_shared <Pop>(&m); }; shared_ptr <net::session> ses; auto st = popStore(net, ses); st->connect(); F f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_ONLY);
		for (size_t k = 1 ; k <= 3 ; ++k) { auto x = f->getMessage(k); if (sized) f->fetchMessage(x, net::fetchAttributes(net::fetchAttributes::SIZE)); Rec r; CollectOut o; x->extract(o, &r); R.equal(o.data, m[k - 1], "extracted"); Want w; w.last = m[k - 1].size(); w.stop = m[k - 1].size(); if (sized) { w.start = m[k - 1].size(); w.fixed = true; } verify(R, r, w); }
		for (int a : {net::fetchAttributes::SIZE | 0, net::fetchAttributes::UID | net::fetchAttributes::SIZE, net::fetchAttributes::FULL_HEADER | 0}) { auto v = f->getMessages(net::messageSet::byNumber(1, 3)); Rec r; f->fetchMessages(v, net::fetchAttributes(a), &r); verify(R, r, {3, 3, 3, true, true}); }
		{ Rec r; std::vector <shared_ptr <net::message> > none; f->fetchMessages(none, net::fetchAttributes(net::fetchAttributes::SIZE), &r); prefix(r); } CHECK(!net.deadlock, "the client waits for ever");
	}); }
	for (int op = 0 ; op < 2 ; ++op) for (int way = 0 ; way < 2 ; ++way) for (size_t k = 0 ; k < (way ? 14u : 700u) ; k += (way || T ? 1 : 3)) R.testL([&] { return S(way ? "pop3 listener throws|" : "pop3 broken|") + str(op) + " " + str(k); }, [&] {
		std::vector <S> m = {text(400), text(3)}; SimNet net; net.frag = 4; net.splitAt = 50; if (!way) net.cutTotal = k; net.server = [&] { return make_shared <Pop>(&m); }; shared_ptr <net::session> ses; auto st = popStore(net, ses); Rec r; if (way) r.failAt = int(k); bool ok = false;
		try { st->connect(); F f = st->getDefaultFolder(); f->open(net::folder::MODE_READ_ONLY); if (op == 0) { CollectOut o; f->getMessage(1)->extract(o, &r); } else { auto v = f->getMessages(net::messageSet::byNumber(1, 2)); f->fetchMessages(v, net::fetchAttributes(net::fetchAttributes::FULL_HEADER), &r); } ok = true; } catch (mc::Violated&) { throw; } catch (std::exception&) {}
		if (!(r.failed && r.e.back().k == '<')) prefix(r); if (ok) verify(R, r, Want()); R.outcome(r.show());
	});
	// ---- SMTP
	for (size_t n : {0, 1, 5, 100, 65536, 140000, 262143, 262144, 262145, 600000}) for (int chunk = 0 ; chunk < 2 ; ++chunk) for (int pipe = 0 ; pipe < 2 ; ++pipe) for (int api = 0 ; api < 2 ; ++api) for (int fail = 0 ; fail < 3 ; ++fail) R.testL([&] { return "smtp|" + str(n) + " " + str(chunk) + str(pipe) + str(api) + str(fail); }, [&] {
		SimNet net; S got; net.server = [&] { return make_shared <Smtp>(chunk, pipe, &got, fail == 0 ? ANY : size_t(fail - 1)); }; shared_ptr <net::session> ses; auto t = smtpOf(net, ses); t->connect(); const S d = text(n); Rec r; bool ok = true; size_t size = d.size(); const bool bdat = api == 1 && chunk;
		auto m = make_shared <vmime::message>(); m->parse(d); if (api == 1) size = m->generate().size();
		try { if (api == 0) { ChunkIn in(d, Cuts(d.size() / 30000 + 1, 30000)); t->send(mailbox("a@x.example"), to(), in, d.size(), &r); } else t->send(m, mailbox("a@x.example"), to(), &r); } catch (mc::Violated&) { throw; } catch (std::exception&) { ok = false; }
		if (ok) { Want w; w.last = size; if (!bdat) { w.start = w.stop = size; w.fixed = true; } verify(R, r, w); if (bdat) { CHECK(got.size() == size, "sent " + str(got.size()) + " bytes of " + str(size)); CHECK(r.e[0].a >= size, "predicted less than was sent:" + r.show()); } } else prefix(r);
		CHECK(ok || fail, "failed"); R.outcome(r.show()); CHECK(!net.deadlock, "the client waits for ever");
	});
	for (int bdat = 0 ; bdat < 2 ; ++bdat) for (int k = 0 ; k < 12 ; ++k) R.testL([&] { return "smtp listener throws|" + str(bdat) + " " + str(k); }, [&] {
		SimNet net; S got; net.server = [&] { return make_shared <Smtp>(bdat, true, &got, ANY); }; shared_ptr <net::session> ses; auto t = smtpOf(net, ses); t->connect(); const S d = text(600000); Rec r; r.failAt = k; bool ok = true; auto m = make_shared <vmime::message>(); m->parse(d);
		try { t->send(m, mailbox("a@x.example"), to(), &r); } catch (mc::Violated&) { throw; } catch (std::exception&) { ok = false; } prefix(r); CHECK(ok == !r.failed || r.e.back().k == '<', "result"); R.outcome(r.show());
	});
}
