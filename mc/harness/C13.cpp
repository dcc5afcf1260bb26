// C13: trees of parts survive generation and parsing.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
using namespace vmime;

struct Node { std::vector <Node> kids; S content, enc, type = "application/octet-stream", prolog, epilog, boundary; std::vector <std::pair <S, S> > fields; bool noFields = false; };

static S collapse(const S& s) { S o; bool ws = false; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ws = true; continue; } if (ws && !o.empty()) o += ' '; ws = false; o += c; } return o; }
static S extractAll(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extract(os); return o; }
static bool g_stream = false;

static void build(const Node& n, bodyPart& p) {
	for (auto& f : n.fields) { auto h = headerFieldFactory::getInstance()->create(f.first); h->setValue(f.second); p.getHeader()->appendField(h); }
	if (!n.kids.empty()) {
		if (!n.boundary.empty()) {
			auto ctf = p.getHeader()->getField <contentTypeField>(fields::CONTENT_TYPE);
			ctf->setValue(mediaType("multipart", "mixed")); ctf->setBoundary(n.boundary);
		}
		for (auto& k : n.kids) { auto c = make_shared <bodyPart>(); build(k, *c); p.getBody()->appendPart(c); }
		p.getBody()->setPrologText(n.prolog); p.getBody()->setEpilogText(n.epilog);
	} else if (!n.noFields) {
		shared_ptr <contentHandler> ch;
		if (g_stream) ch = make_shared <streamContentHandler>(make_shared <ChunkIn>(n.content, Cuts{1, 3, 2}), n.content.size()); else ch = make_shared <stringContentHandler>(n.content);
		p.getBody()->setContents(ch, mediaType(n.type));
		p.getBody()->setEncoding(encoding(n.enc));
	} else p.getBody()->setContents(make_shared <stringContentHandler>(n.content));
}
static void compare(mc::Run& R, const Node& n, const bodyPart& p, const bodyPart* parent, const S& at, const S& src, const S& defProlog, const S& defEpilog) {
	const S ctx = " at part " + at + " of " + R.show(src);
	CHECK(p.getParentPart() == parent, "parent" + ctx);
	R.equal(p.getBody()->getPartCount(), n.kids.size(), "number of parts" + ctx);
	size_t i = 0; for (auto& f : n.fields) { CHECK(i < p.getHeader()->getFieldCount(), "field missing" + ctx); auto h = p.getHeader()->getFieldAt(i++); R.equal(h->getName(), f.first, "field name" + ctx); R.equal(h->getValue <text>()->getWholeBuffer(), f.second, "field value" + ctx); }
	if (n.kids.empty()) {
		R.equal(extractAll(p.getBody()->getContents()), n.content, "content" + ctx);
		if (!n.noFields) { R.equal(p.getHeader()->getFieldCount(), n.fields.size() + 2, "number of fields" + ctx); CHECK(p.getBody()->getContentType() == mediaType(n.type), "type" + ctx); CHECK(p.getBody()->getEncoding() == encoding(n.enc), "encoding" + ctx); }
		else R.equal(p.getHeader()->getFieldCount(), n.fields.size(), "number of fields" + ctx);
		R.equal(p.getBody()->getPrologText(), S(), "prolog" + ctx);
	} else {
		R.equal(p.getHeader()->getFieldCount(), n.fields.size() + 1, "number of fields" + ctx);
		CHECK(p.getHeader()->ContentType()->getValue <mediaType>()->getType() == "multipart", "type" + ctx);
		R.equal(collapse(p.getBody()->getPrologText()), collapse(n.prolog.empty() && !parent ? defProlog : n.prolog), "prolog" + ctx);
		R.equal(collapse(p.getBody()->getEpilogText()), collapse(n.epilog.empty() && !parent ? defEpilog : n.epilog), "epilog" + ctx);
		CHECK(extractAll(p.getBody()->getContents()).empty(), "multipart with contents" + ctx);
		for (size_t k = 0 ; k < n.kids.size() ; ++k) compare(R, n.kids[k], *p.getBody()->getPartAt(k), &p, at + "." + str(k), src, defProlog, defEpilog);
	}
}
static void check(mc::Run& R, const Node& n, int mode = 0) {
	generationContext ctx(generationContext::getDefaultContext());
	if (mode & 1) ctx.setPrologText("");
	if (mode & 2) ctx.setEpilogText("The end.");
	if (mode & 4) ctx.setMaxLineLength(lineLengthLimits::infinite);
	message m; build(n, m);
	S g; { utility::outputStreamStringAdapter os(g); m.generate(ctx, os); }
	R.outcome(g.size());
	CHECK(m.getGeneratedSize(ctx) >= g.size(), "announced size " + str(m.getGeneratedSize(ctx)) + " smaller than the real size " + str(g.size()) + ": " + R.show(g));
	{ auto p = make_shared <message>(); p->parse(g); compare(R, n, *p, nullptr, "0", g, ctx.getPrologText(), ctx.getEpilogText()); R.transition();
	  // once more: what was parsed is generated again
	  S g2; { utility::outputStreamStringAdapter os(g2); p->generate(ctx, os); } message q; q.parse(g2); compare(R, n, q, nullptr, "0", g2, ctx.getPrologText(), ctx.getEpilogText()); R.transition();
	  // parsed into a used object
	  m.parse(g); compare(R, n, m, nullptr, "0", g, ctx.getPrologText(), ctx.getEpilogText());
	  auto c = vmime::clone(p); compare(R, n, *c, nullptr, "0", g, ctx.getPrologText(), ctx.getEpilogText());
	}
	{ message p; p.parse(make_shared <ChunkIn>(g, Cuts{5, 1, 60, 7}), g.size()); compare(R, n, p, nullptr, "0", g, ctx.getPrologText(), ctx.getEpilogText()); R.transition(); }
}
/** all ordered trees with n nodes and at most d levels */
static void forests(size_t n, size_t d, const std::function <void(const std::vector <Node>&)>& f) {
	if (n == 0) { f({}); return; }
	if (d == 0) return;
	for (size_t k = 1 ; k <= n ; ++k) forests(k - 1, d - 1, [&](const std::vector <Node>& kids) { forests(n - k, d, [&](const std::vector <Node>& rest) {
		Node x; x.kids = kids; std::vector <Node> v{x}; v.insert(v.end(), rest.begin(), rest.end()); f(v); }); });
}
static void visit(Node& n, size_t depth, const std::function <void(Node&, size_t)>& f) { f(n, depth); for (auto& k : n.kids) visit(k, depth + 1, f); }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C13";
	R.rule = "every ordered tree of up to 5 (thorough 7) parts and 4 levels with contents, encodings, prologs, epilogs, boundaries and header fields dealt in every rotation; every content up to 3 (4) pieces of an alphabet of line ends, dashes, field-like and boundary-like text x encodings x position in a multipart; every byte; every prolog and epilog over a small alphabet; boundaries which are prefixes of one another; each generated, parsed from string and short-reading stream, into a used object, cloned, and generated and parsed again";
	R.assumptions = {"no line of an unencoded content begins with '--' and the complete boundary of an enclosing multipart (RFC 2046)", "prolog and epilog are compared with runs of white space and line breaks taken as one space (the test suite requires line breaks in them to become spaces)", "7bit/8bit/binary contents are those the encoding can represent"};
	const bool T = R.thorough;
	const std::vector <S> encs = {"7bit", "quoted-printable", "base64", "binary", "8bit", "uuencode"};
	const std::vector <S> contents = {"", "abc", "\r\n", "a\r\n", "\r\n\r\nx", "--", "--bx\r\n", "Subject: z\r\n\r\ny", "\n", "a--b\r\n --b\r\n-b\r\n-", "\r\n--", S("\0\xff\r\n\r", 5), "--=_\r\n--=_--\r\n", "\r", S(3000, 'x') + "\r\n--" + S(3000, '-')};
	const std::vector <S> prologs = {"", "This is a prologue", "a\r\nb", "=?utf-8?Q?=41?=", "caf\xc3\xa9 " + S(100, 'p') + " q", "--", "X: y"};
	const std::vector <S> bounds = {"", "b", "b.x", "bb", "b_long_one", "=_b", "b-1", "b:c(d)", "--b"};
	auto plain = [](const S& c) { for (unsigned char ch : c) if (ch >= 128 || !ch) return false; return true; };
	auto fix = [&](Node& n) { if (n.enc == "7bit" && !plain(n.content)) n.enc = "base64"; if (n.enc == "8bit" && !plain(n.content)) n.enc = "binary"; };
	// trees
	for (size_t n = 0 ; n <= (T ? 6u : 4u) ; ++n) { size_t shape = 0; forests(n, 3, [&](const std::vector <Node>& v) {
		++shape;
		for (size_t rot = 0 ; rot < (T ? 210u : n >= 4 ? 40u : 60u) ; ++rot) R.testL([&] { return "tree|" + str(n) + "/" + str(shape) + "/" + str(rot); }, [&] {
			Node t; t.kids = v; size_t i = 0;
			visit(t, 0, [&](Node& x, size_t d) { const size_t z = rot + i++;
				x.content = contents[(z * 7 + rot / 5) % contents.size()]; x.enc = encs[(z + rot / 3) % encs.size()]; x.prolog = prologs[(z + d) % prologs.size()]; x.epilog = prologs[(z * 3 + d + rot / 7) % prologs.size()];
				x.boundary = rot % 3 == 0 ? "" : d == 0 ? "top_boundary" : "=_lvl" + S(d, 'q') + str(i);
				if (z % 4 == 1) x.fields = {{"Subject", "part " + str(i)}, {"X-Some", "--b"}}; if (z % 4 == 3) x.fields = {{"X-A", ""}};
				if (z % 5 == 2 && plain(x.content) && d) { x.noFields = true; x.enc = "7bit"; }
				fix(x);
			});
			g_stream = rot & 1; check(R, t, rot % 8); g_stream = false;
		});
	}); }
	// contents at every position, next to every kind of neighbour
	mc::strings({"\r\n", "\n", "-", "--", "b", "a:", " ", "\r"}, 0, T ? 4 : 3, [&](const S& c) { R.testL([&] { return "content|" + c; }, [&] {
		for (auto& e : encs) for (const S bd : {"bnd", ""}) for (int pos = 0 ; pos < 3 ; ++pos) {
			Node a; a.content = "A"; a.enc = "7bit"; Node x; x.content = c; x.enc = e; fix(x);
			Node t; t.boundary = bd; t.kids = pos == 0 ? std::vector <Node>{x} : pos == 1 ? std::vector <Node>{x, a} : std::vector <Node>{a, x};
			check(R, t, 1);
			if (pos == 0) { check(R, x); Node w; w.boundary = "outer"; w.kids = {t, a}; check(R, w, 1); Node y = x; if (plain(c)) { y.noFields = true; y.enc = "7bit"; Node u; u.boundary = bd; u.kids = {y, y}; check(R, u, 1); check(R, y); } }
		}
	}); });
	for (int b = 0 ; b < 256 ; ++b) R.testL([&] { return "byte|" + str(b); }, [&] { for (auto& e : {"quoted-printable", "base64", "binary"}) for (const S c : {S(1, char(b)), S(3, char(b)) + "\r\n", "x" + S(1, char(b)) + "\r\n" + S(100, char(b))}) { Node x; x.content = c; x.enc = e; Node t; t.kids = {x}; check(R, t); check(R, x); } });
	for (size_t n : {1000u, 2040u, 2045u, 2046u, 2047u, 2048u, 2049u, 2050u, 4090u, 4094u, 4095u, 4096u, 4097u, 8191u, 8192u, 8193u}) for (size_t d = 0 ; d < (T ? 64u : 12u) ; ++d) R.testL([&] { return "long|" + str(n) + "+" + str(d); }, [&] {
		Node x; x.content = S(n + d, 'l'); x.enc = "binary"; Node y; y.content = S(n, '-') + "\r\n" + S(d, '-'); y.enc = "7bit"; Node t; t.boundary = "boundary" + S(d % 50, 'b'); t.kids = {x, y}; check(R, t); });
	// prolog and epilog
	mc::strings({"a", " ", "-", "\r\n", "b:", "=?utf-8?q?x?="}, 0, T ? 5 : 3, [&](const S& s) { R.testL([&] { return "prolog|" + s; }, [&] {
		Node x; x.content = "A"; x.enc = "7bit"; Node t; t.kids = {x}; t.prolog = s; check(R, t, 1); t.epilog = s; check(R, t, 1); t.prolog = ""; check(R, t, 1); t.prolog = "P"; Node w; w.kids = {t, x}; check(R, w, 1);
	}); });
	// boundaries which begin with one another; lines which begin with a part of one
	for (auto& b1 : bounds) for (auto& b2 : bounds) for (auto& b3 : bounds) { if (b2.substr(0, b1.size()) == b1 && b1.size() || b3.substr(0, b2.size()) == b2 && b2.size() || b3.substr(0, b1.size()) == b1 && b1.size()) {
			// a boundary which starts with the boundary of an enclosing multipart is legal only if another character than space or dash follows
			auto bad = [](const S& o, const S& i) { return !o.empty() && i.substr(0, o.size()) == o && (i.size() == o.size() || i[o.size()] == '-'); };
			if (bad(b1, b2) || bad(b1, b3) || bad(b2, b3)) continue; }
		R.testL([&] { return "boundaries|" + b1 + "|" + b2 + "|" + b3; }, [&] {
			Node x; x.content = "A"; x.enc = "7bit"; Node y = x; y.content = "--bogus\r\n--b~\r\n--bb3\r\n"; Node in; in.boundary = b3; in.kids = {x, y}; Node mid; mid.boundary = b2; mid.kids = {x, in, y}; mid.epilog = "e"; Node t; t.boundary = b1; t.kids = {mid, mid, x}; if (b1 == "bb" || b2 == "bb" || b3 == "bb") { } check(R, t, 1); }); }
}
