// C14: parsing does not depend on the data source; reported offsets are those of the source text.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

static S extractAll(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extract(os); return o; }
static S extractRaw(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extractRaw(os); return o; }
/** Non-seekable stream */
class Plain : public utility::inputStream { public: ChunkIn in; Plain(const S& d, const Cuts& c) : in(d, c) {} bool eof() const { return in.eof(); } void reset() { in.reset(); } size_t read(byte_t* const d, const size_t n) { return in.read(d, n); } size_t skip(const size_t n) { return in.skip(n); } };

/** structure, values and offsets (relative to base) */
static void dump(component& c, long base, bool bounds, S& o) {
	if (bounds && c.getParsedLength()) o += "[" + str(long(c.getParsedOffset()) - base) + "+" + str(c.getParsedLength()) + "]";
	if (auto f = dynamic_cast <headerField*>(&c)) o += "F(" + f->getName() + "=" + f->getValue()->generate() + ")";
	if (auto p = dynamic_cast <parameter*>(&c)) o += "P(" + p->getName() + "=" + p->getValue().getBuffer() + ")";
	if (auto b = dynamic_cast <body*>(&c)) { o += "B(" + b->getPrologText() + "|" + b->getEpilogText() + "|" + b->getContentType().generate() + "|" + b->getEncoding().generate() + "|" + extractRaw(b->getContents()) + "|"; try { o += extractAll(b->getContents()); } catch (exception& e) { o += e.name(); } o += ")"; }
	o += "{"; for (auto& k : c.getChildComponents()) dump(*k, base, bounds, o); o += "}";
}
static S dump(component& c, long base, bool bounds) { S o; dump(c, base, bounds, o); return o; }
static void bounds(mc::Run& R, component& c, size_t lo, size_t hi, const S& src) {
	const size_t b = c.getParsedOffset(), e = b + c.getParsedLength();
	if (c.getParsedLength() == 0) { for (auto& k : c.getChildComponents()) bounds(R, *k, lo, hi, src); return; }
	if (!(lo <= b && e <= hi)) throw mc::Violated("range " + str(b) + ".." + str(e) + " of a component (" + typeid(c).name() + ") not in that of its container " + str(lo) + ".." + str(hi) + " in " + R.show(src));
	size_t last = b;
	for (auto& k : c.getChildComponents()) {
		bounds(R, *k, b, e, src);
		if (k->getParsedLength() && (dynamic_cast <bodyPart*>(k.get()) || dynamic_cast <headerField*>(k.get()) || dynamic_cast <body*>(k.get()) || dynamic_cast <header*>(k.get()))) {
			if (k->getParsedOffset() < last) throw mc::Violated("ranges of successive components overlap at " + str(last) + " in " + R.show(src));
			last = k->getParsedOffset() + k->getParsedLength();
		}
	}
}
/** the bytes in the range of every field and part are the source of that component */
static void sources(mc::Run& R, bodyPart& p, const S& src, bool top) {
	for (auto& f : p.getHeader()->getFieldList()) {
		const S t = src.substr(f->getParsedOffset(), f->getParsedLength());
		CHECK(f->getParsedLength() > 0, "field without a range: " + R.show(src));
		R.equal(t.substr(0, f->getName().size()), f->getName(), "beginning of the range of a field in " + R.show(src));
		header h; h.parse(t); R.equal(h.getFieldCount(), size_t(1), "fields in the range of a field " + R.show(t) + " of " + R.show(src));
		R.equal(dump(*h.getFieldAt(0), 0, true), dump(*f, f->getParsedOffset(), true), "field in its range " + R.show(t));
		R.equal(f->getParsedOffset() == 0 || src[f->getParsedOffset() - 1] == '\n' || f == p.getHeader()->getFieldAt(0), true, "field begins a line");
	}
	if (!top && p.getParsedLength()) { bodyPart q; q.parse(src.substr(p.getParsedOffset(), p.getParsedLength())); R.equal(dump(q, 0, true), dump(p, p.getParsedOffset(), true), "part in its range of " + R.show(src)); }
	if (p.getBody()->getPartCount() == 0 && p.getBody()->getParsedLength() && !p.getBody()->getContents()->isEmpty()) R.equal(extractRaw(p.getBody()->getContents()), src.substr(p.getBody()->getParsedOffset(), p.getBody()->getParsedLength()), "content in the range of the body of " + R.show(src));
	for (auto& k : p.getBody()->getPartList()) sources(R, *k, src, false);
}
static void check(mc::Run& R, const S& src, size_t ncuts, bool full) {
	message m; m.parse(src);
	const S want = dump(m, 0, true), wantNB = dump(m, 0, false); R.outcome(want);
	R.equal(m.getParsedOffset(), size_t(0), "offset"); R.equal(m.getParsedLength(), src.size(), "length of " + R.show(src));
	bounds(R, m, 0, src.size(), src); sources(R, m, src, true);
	auto one = [&](const Cuts& c, bool late) { message p; p.parse(make_shared <ChunkIn>(src, c, late), src.size()); R.equal(dump(p, 0, true), want, "read from a stream in pieces " + mc::show(c) + ": " + R.show(src)); R.transition(); };
	mc::cuts(src.size(), ncuts, [&](const Cuts& c) { one(c, false); });
	if (full) {
		Cuts ones(src.size(), 1); one(ones, false); one(ones, true); one(Cuts(), true);
		{ message p; p.parse(make_shared <Plain>(src, ones), src.size()); R.equal(dump(p, 0, false), wantNB, "read from a stream which cannot seek: " + R.show(src)); R.transition(); }
		// in the middle of a larger source, by string and by stream
		const std::vector <S> PRE = {"x", "\r\n--b\r\n", "A: 1\r\n"}; for (auto& pre : PRE) if (ncuts || &pre == &PRE[mc::hash(src) % 3]) for (const S post : {"", "\r\n--b--\r\n", "--b\r\n", " z\r\n", "\n", "b", "-"}) {
			const S big = pre + src + post; const size_t b = pre.size(), e = b + src.size(); size_t np = 0;
			message p; p.parse(big, b, e, &np); R.equal(dump(p, b, true), want, "region of " + R.show(big)); R.equal(np, e, "new position"); bounds(R, p, b, e, big);
			message q; np = 0; q.parse(make_shared <ChunkIn>(big, Cuts{2, 1, 5}), b, e, &np); R.equal(dump(q, b, true), want, "region of a stream " + R.show(big)); R.equal(np, e, "new position"); bounds(R, q, b, e, big);
			R.transition(2);
		}
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C14";
	R.rule = "every message made of up to 4 (thorough 5) lines of an alphabet (fields of each kind, folds, garbage, boundaries, blank lines, LF and CRLF), alone and behind the header of a multipart; each read from a string, from streams for every single cut and bytewise (early and late end), from a stream which cannot seek, and from the middle of larger sources; messages around the sizes of internal buffers with cuts near the edges";
	R.assumptions = {"offsets are compared for sources which can seek (others are copied first)"};
	const bool T = R.thorough;
	const S MP = "Content-Type: multipart/mixed; boundary=b\r\n";
	const std::vector <S> H = {"Subject: =?utf-8?Q?a=C3=A9?= b\r\n", "To: \"A\" <a@b.c>, G: c@d, =?utf-8?q?e?= <f@g>;, h@i\r\n", MP, "\r\n", " folded: x\r\n", "garbage\r\n", "--b\r\n", "text", "Date: Fri, 21 Nov 1997 09:55:06 -0600\n", "X:\r\n", "Content-Transfer-Encoding: base64\r\n", "YWJj\r\n", "Content-Type: multipart/x\r\n", "\n", "References: <a@b>\r\n <c@d>\r\n", "Content-Disposition: attachment; filename=\"x y\";\r\n size=3\r\n", "--b--\r\n"};
	mc::strings(H, 0, 2, [&](const S& s) { R.testL([&] { return "lines|" + s; }, [&] { check(R, s, 1, true); }); });
	mc::tuples(H.size(), 3, [&](const std::vector <size_t>& ix) { R.testL([&] { return "lines|" + mc::show(ix); }, [&] { S s; for (size_t i : ix) s += H[i]; check(R, s, T ? 1 : 0, true); }); });
	if (T) mc::tuples(H.size(), 4, [&](const std::vector <size_t>& ix) { R.testL([&] { return "lines|" + mc::show(ix); }, [&] { S s; for (size_t i : ix) s += H[i]; check(R, s, 0, true); }); });
	const std::vector <S> B = {"--b\r\n", "--b--\r\n", "\r\n", "A: 1\r\n", "t", "Content-Type: multipart/mixed; boundary=c\r\n\r\n", "--c\r\n", "--c--\r\n", "--b x\r\n", "--b\n", "--b--", "--b", MP + "\r\n", "--bx\r\n"};
	for (size_t n = 0 ; n <= (T ? 5u : 4u) ; ++n) mc::tuples(B.size(), n, [&](const std::vector <size_t>& ix) { if (n == 4 && !T && (ix[0] > 5 || ix[1] > 5)) return; R.testL([&] { return "body|" + mc::show(ix); }, [&] { S s = MP + "\r\n"; for (size_t i : ix) s += B[i]; check(R, s, n <= 2 ? 1 : 0, n <= 3); }); });
	// without a boundary parameter: it is guessed
	for (size_t n = 0 ; n <= (T ? 5u : 4u) ; ++n) mc::tuples(6, n, [&](const std::vector <size_t>& ix) { R.testL([&] { return "guess|" + mc::show(ix); }, [&] { const std::vector <S> G = {"--b\r\n", "--b--\r\n", "\r\n", "--", " ", "t\n"}; S s = "Content-Type: multipart/mixed\r\n\r\n"; for (size_t i : ix) s += G[i]; check(R, s, n <= 2 ? 1 : 0, true); }); });
	for (size_t n : {90u, 99u, 100u, 101u, 250u, 253u, 254u, 255u, 256u, 257u, 300u}) for (const S f : {" ", "b", "\r\n"}) R.testL([&] { return "guess-long|" + str(n) + f; }, [&] { S l; for (size_t i = 0 ; i < n ; ++i) l += f; for (const S s : {"--" + l, "--" + l + "\r\n\r\nx\r\n--" + l + "--\r\n", "--" + l + "q\r\n\r\nx\r\n--q--\r\n", "z\r\n--" + l}) check(R, "Content-Type: multipart/mixed\r\n\r\n" + s, 0, true); });
	// around buffer sizes of the search for boundaries, with cuts around the edges
	for (size_t len : {2040u, 4080u, 6130u}) for (size_t d = 0 ; d < (T ? 40u : 24u) ; ++d) R.testL([&] { return "edge|" + str(len) + "+" + str(d); }, [&] {
		S s = MP + "\r\n" + S(len + d - 45, 'p') + "\r\n--b\r\n\r\n" + S(2040, 'q') + "\r\n--b\r\nA: 1\r\n\r\nz\r\n--b--\r\n";
		check(R, s, 0, false); message m; m.parse(s); const S want = dump(m, 0, true); R.equal(m.getBody()->getPartCount(), size_t(2), "parts");
		for (size_t k : {1u, 2u, 7u, 45u, 2047u, 2048u, 2049u, 4095u, 4096u, 4097u}) for (size_t j : {331u, 1000u, 2048u, 4096u}) { message p; p.parse(make_shared <ChunkIn>(s, Cuts(1, k), true), s.size()); R.equal(dump(p, 0, true), want, "cut at " + str(k)); Cuts c(s.size() / j, j); message q; q.parse(make_shared <ChunkIn>(s, c), s.size()); R.equal(dump(q, 0, true), want, "pieces of " + str(j)); R.transition(2); }
	});
}
