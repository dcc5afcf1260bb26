// C48: multipart messages of others are split as RFC 2046 says.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;

/** what a region of a message means, found by reading lines */
struct Part { size_t from, to; bool multi = false, split = false, closed = false; std::vector <std::pair <S, S> > fields; bool known = true; S content, boundary, prolog, epilog; std::vector <Part> kids; };
struct Line { size_t at, textEnd, next; };      // text without its line end

static std::vector <Line> lines(const S& s, size_t from, size_t to) { std::vector <Line> r; for (size_t p = from ; p < to ; ) { size_t n = s.find('\n', p); Line l; l.at = p; if (n == S::npos || n >= to) { l.textEnd = l.next = to; } else { l.next = n + 1; l.textEnd = n > p && s[n - 1] == '\r' ? n - 1 : n; } r.push_back(l); p = l.next; } return r; }
static S collapse(const S& s) { S o; bool ws = false; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ws = true; continue; } if (ws && !o.empty()) o += ' '; ws = false; o += c; } return o; }
static S trim(const S& s) { const size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == S::npos ? S() : s.substr(a, b - a + 1); }

/** 0: not a delimiter, 1: delimiter, 2: close delimiter */
static int delimiter(const S& t, const S& b) { const S d = "--" + b; if (t.compare(0, d.size(), d) != 0) return 0; S r = t.substr(d.size()); int k = 1; if (r.compare(0, 2, "--") == 0) { k = 2; r = r.substr(2); } return r.find_first_not_of(" \t") == S::npos ? k : 0; }

static Part understand(const S& s, size_t from, size_t to, const S* top = NULL, bool topMulti = false) {
	Part p; p.from = from; p.to = to; size_t body = to; S type; bool more = false;
	// header: lines "Name: value" up to an empty line
	auto ls = lines(s, from, to); bool end = false;
	for (auto& l : ls) { const S t = s.substr(l.at, l.textEnd - l.at); if (t.empty()) { body = l.next; end = true; break; } const size_t c = t.find(": "); if ((c == S::npos || t.find_first_of(" -\t") < std::min(c, t.find("Content-Type: ") == 0 ? size_t(0) : c))) { p.known = false; break; } p.fields.push_back(std::make_pair(t.substr(0, c), t.substr(c + 2))); if (t.compare(0, c, "Content-Type") == 0) { if (more) p.known = false; more = true; type = t.substr(c + 2); } }
	if (!end && !p.fields.empty() && p.known && !s.empty() && to > from && s[to - 1] != '\n') p.known = true;
	if (!p.known) return p;
	if (top) { p.multi = topMulti; p.boundary = *top; } else if (type.compare(0, 10, "multipart/") == 0) { p.multi = true; const size_t b = type.find("boundary="); if (b != S::npos) { p.boundary = type.substr(b + 9); if (p.boundary[0] == '"') p.boundary = p.boundary.substr(1, p.boundary.size() - 2); } }
	p.content = s.substr(body, to - body);
	if (!p.multi || body == to) { p.multi = p.multi && false; return p; }
	auto bl = lines(s, body, to);
	if (p.boundary.empty()) for (auto& l : bl) { const S t = s.substr(l.at, l.textEnd - l.at); if (t.compare(0, 2, "--") == 0) { p.boundary = trim(t.substr(2)); break; } }      // not given: the first line which looks like one
	if (p.boundary.empty()) { p.multi = false; return p; }
	size_t start = body; int n = 0; auto before = [&](size_t at) { size_t e = at; if (e > start && s[e - 1] == '\n') { --e; if (e > start && s[e - 1] == '\r') --e; } return e; };
	for (auto& l : bl) { const int k = delimiter(s.substr(l.at, l.textEnd - l.at), p.boundary); if (!k) continue; const size_t e = before(l.at); if (n++ == 0) p.prolog = s.substr(start, e - start); else p.kids.push_back(understand(s, start, e)); start = l.next; if (k == 2) { p.closed = true; break; } }
	p.split = n > 0; if (p.closed) p.epilog = s.substr(start, to - start); else if (p.split) p.kids.push_back(understand(s, start, to));
	return p;
}
static S extractAll(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extract(os); return o; }
static void compare(mc::Run& R, const Part& w, const bodyPart& g, const S& src, const S& at) {
	const S ctx = " at part " + at;
	R.equal(g.getParsedOffset(), w.from, "start" + ctx); R.equal(g.getParsedLength(), w.to - w.from, "length" + ctx);
	if (!w.known) return;
	auto h = g.getHeader(); R.equal(h->getFieldCount(), w.fields.size(), "fields" + ctx); for (size_t i = 0 ; i < w.fields.size() ; ++i) { R.equal(h->getFieldAt(i)->getName(), w.fields[i].first, "field name" + ctx); if (w.fields[i].first == "X") R.equal(h->getFieldAt(i)->getValue <text>()->getWholeBuffer(), w.fields[i].second, "field value" + ctx); }
	auto b = g.getBody();
	if (!w.multi) { R.equal(b->getPartCount(), size_t(0), "parts of a simple part" + ctx); R.equal(extractAll(b->getContents()), w.content, "contents" + ctx); return; }
	if (!w.split) return;      // no delimiter at all
	R.equal(b->getPartCount(), w.kids.size(), "number of parts" + ctx);
	R.equal(collapse(b->getPrologText()), collapse(w.prolog), "prolog" + ctx); R.equal(collapse(b->getEpilogText()), collapse(w.epilog), "epilog" + ctx);
	if (trim(w.prolog).find_first_of("\r\n") == S::npos) R.equal(b->getPrologText(), trim(w.prolog), "prolog" + ctx); if (trim(w.epilog).find_first_of("\r\n") == S::npos) R.equal(b->getEpilogText(), trim(w.epilog), "epilog" + ctx);
	for (size_t i = 0 ; i < w.kids.size() ; ++i) { CHECK(b->getPartAt(i)->getParentPart() == &g, "parent" + ctx); compare(R, w.kids[i], *b->getPartAt(i), src, at + "." + str(i)); }
}
static void flat(const Part& p, S& o) { o += p.multi ? "(" : p.known ? "." : "?"; for (auto& k : p.kids) flat(k, o); if (p.multi) o += p.closed ? ")" : "|"; }
static bool allKnown(const Part& p) { if (!p.known || (p.multi && (!p.closed || p.kids.empty()))) return false; for (auto& k : p.kids) if (!allKnown(k)) return false; return true; }
static void leaves(const Part& p, std::vector <S>& o) { if (!p.multi) o.push_back(p.content); for (auto& k : p.kids) leaves(k, o); }
static void leavesOf(const bodyPart& p, std::vector <S>& o) { if (p.getBody()->getPartCount() == 0) o.push_back(extractAll(p.getBody()->getContents())); for (size_t i = 0 ; i < p.getBody()->getPartCount() ; ++i) leavesOf(*p.getBody()->getPartAt(i), o); }

/** a prolog which begins like a delimiter once it is trimmed (known finding) */
static bool like(const Part& p) { if (p.multi && trim(p.prolog).compare(0, p.boundary.size() + 2, "--" + p.boundary) == 0) return true; for (auto& k : p.kids) if (like(k)) return true; return false; }
static const S USED = "Content-Type: multipart/mixed; boundary=old\r\nX: old\r\n\r\nold prolog\r\n--old\r\n\r\nold part\r\n--old--\r\nold epilog";
static void check(mc::Run& R, const S& type, const S& boundary, const S& bodyText, const S& eol, bool again = false) {
	const S head = "Content-Type: " + type + eol + eol; const S src = head + bodyText; Part w = understand(src, 0, src.size(), &boundary, true); S f; flat(w, f); R.outcome(f + eol);
	try {
		message m; m.parse(src); compare(R, w, m, src, "0"); R.transition();
		{ message u; u.parse(USED); u.parse(src); compare(R, w, u, src, "0"); if (w.split) { CHECK(w.prolog.find_first_not_of(" \t\r\n") != S::npos || u.getBody()->getPrologText().empty(), "old prolog"); CHECK(w.epilog.find_first_not_of(" \t\r\n") != S::npos || u.getBody()->getEpilogText().empty(), "old epilog"); } else if (!w.multi) CHECK(u.getBody()->getPrologText().empty() && u.getBody()->getEpilogText().empty(), "old prolog or epilog"); R.transition(); }
		{ message q; q.parse(make_shared <ChunkIn>(src, Cuts{3, 1, 7, 2, 50}), src.size()); compare(R, w, q, src, "0"); R.transition(); }
		{ const S big = "--b\r\n" + src + "\r\n--b--\r\n--b"; message q; q.parse(big, 5, 5 + src.size()); Part x = understand(big, 5, 5 + src.size(), &boundary, true); compare(R, x, q, big, "0"); R.transition(); }
		if (allKnown(w) && w.split && (!like(w) || again)) { generationContext gc(generationContext::getDefaultContext()); gc.setPrologText(""); gc.setEpilogText(""); S g; utility::outputStreamStringAdapter os(g); m.generate(gc, os); message q; q.parse(g); std::vector <S> a, b; leaves(w, a); leavesOf(q, b); CHECK(a == b, "the parts changed when generated again: " + R.show(g)); }
	} catch (mc::Violated& v) { throw mc::Violated(v.what() + S(" of ") + R.show(src)); }
}
static S join(const std::vector <S>& v, const S& eol, bool last) { S o; for (size_t i = 0 ; i < v.size() ; ++i) o += v[i] + (i + 1 < v.size() || last ? eol : S()); return o; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C48";
	R.rule = "every sequence of up to 3 (thorough 5) lines over 19 kinds (delimiters with and without padding, close delimiters, near misses, header fields, text, nested multiparts) and of up to 5 (7) lines over a smaller alphabet, with CRLF, LF and mixed line ends, with and without a last line end, from a string, from a stream in pieces and inside a larger buffer; boundaries of all kinds of characters and lengths, given quoted, plain, or not at all; the tree compared with a line-based reading of RFC 2046";
	R.assumptions = {"a line '--boundary' followed by anything else than white space is text", "a multipart without any delimiter line, and the header of a part which is not made of well-formed fields, are not specified", "a part after which there is no delimiter extends to the end", "line breaks in prolog and epilog, with the white space around them, are one space"};
	const bool T = R.thorough;
	const std::vector <S> eols = {"\r\n", "\n"};
	const std::vector <S> all = {"--b", "--b  ", "--b\t", "--b--", "--b-- \t", "--b---", "--b-", "--bx", "--b x", " --b", "-b", "x--b", "", "text", "X: y", "Content-Type: multipart/mixed; boundary=c", "--c", "--c--", "--b--x"};
	for (auto& eol : eols) for (int last = 0 ; last < 2 ; ++last) for (size_t n = 0 ; n <= (T ? 5u : 3u) ; ++n) mc::tuples(all.size(), n, [&](const std::vector <size_t>& v) { if (v.size() != n) return; R.testL([&] { return "lines|" + eol + str(last) + mc::show(v); }, [&] { std::vector <S> l; for (size_t i : v) l.push_back(all[i]); check(R, "multipart/mixed; boundary=b", "b", join(l, eol, last), eol); if (n <= 3 && eol.size() == 2) { l.insert(l.begin(), {"--b", "", "first"}); check(R, "multipart/mixed; boundary=b", "b", join(l, eol, last), eol); } }); });
	// longer, fewer kinds
	const std::vector <S> few = {"--b", "--b--", "", "text", "Content-Type: multipart/mixed; boundary=b2", "--b2", "--b2--"};
	mc::tuples(few.size(), T ? 7 : 5, [&](const std::vector <size_t>& v) { R.testL([&] { return "nested|" + mc::show(v); }, [&] { std::vector <S> l; for (size_t i : v) l.push_back(few[i]); check(R, "multipart/mixed; boundary=\"b\"", "b", join(l, "\r\n", true), "\r\n"); l.insert(l.begin(), {"pro", "--b", "Content-Type: multipart/x; boundary=b2", "", "--b2"}); check(R, "multipart/mixed; boundary=\"b\"", "b", join(l, "\n", false), "\r\n"); }); });
	// line ends of every line
	const std::vector <S> mix = {"--b\r\n", "--b\n", "--b \n", "--b", "--b--\n", "--b--\r\n", "\r\n", "\n", "\r", "t", "-", "--"};
	mc::tuples(mix.size(), T ? 6 : 4, [&](const std::vector <size_t>& v) { R.testL([&] { return "ends|" + mc::show(v); }, [&] { S b; for (size_t i : v) b += mix[i]; if (b.find("\r") != S::npos) { for (size_t p = 0 ; (p = b.find('\r', p)) != S::npos ; ++p) if (p + 1 >= b.size() || b[p + 1] != '\n') { if (p >= 1 && b[p - 1] != '\n' && b[p - 1] != 't' && b[p - 1] != '\r') return; } } check(R, "multipart/mixed; boundary=b", "b", b, "\r\n"); }); });
	// boundaries
	std::vector <S> bs = {"b", "=_b", "----=_Part_1.2", "a b", "x:y/z?", "'()+_,-./:=?", "0", S(69, 'L'), S(70, 'L'), "b--", "--b", "-", "--", "B.b", "a=b", "a;b", "a(b)c"}; for (size_t n = 1 ; n <= 70 ; n += T ? 1 : 7) bs.push_back(S(n, 'n'));
	for (auto& b : bs) for (int how = 0 ; how < 3 ; ++how) { if (how == 0 && b.find_first_of(" :/?()=,;'") != S::npos) continue; R.testL([&] { return "boundary|" + b + "|" + str(how); }, [&] {
		for (auto& eol : eols) for (int pad = 0 ; pad < 3 ; ++pad) for (int pro = 0 ; pro < 4 ; ++pro) for (int near = 0 ; near < 4 ; ++near) for (int close = 0 ; close < 3 ; ++close) {
			if (how == 2 && (b.find_first_not_of("-") == S::npos || b[0] == '-' || b.compare(b.size() > 1 ? b.size() - 2 : 0, 2, "--") == 0)) continue;
			const S d = "--" + b + S(pad, pad == 1 ? ' ' : '\t'); std::vector <S> l; if (pro == 1) l = {"prolog"}; else if (pro == 2) l = {"", "pro  log", ""}; else if (pro == 3) l = {"-", " --" + b, b, "-" + b}; l.push_back(d); l.push_back("X: 1"); l.push_back(""); l.push_back("one");
			if (near == 1) l.push_back("--" + b + "x"); else if (near == 2) { if (how != 2 && b.size() > 1 && b.substr(0, b.size() - 1) != b) l.push_back("--" + b.substr(0, b.size() - 1)); } else if (near == 3) l.push_back("text --" + b); l.push_back(d); l.push_back(""); l.push_back("two"); l.push_back(""); if (close) l.push_back("--" + b + "--" + S(pad, ' ')); if (close == 2) { l.push_back("epi"); l.push_back(d); l.push_back("log"); }
			check(R, how == 0 ? "multipart/alternative; boundary=" + b : how == 1 ? "multipart/mixed; charset=x; boundary=\"" + b + "\"; z=1" : S("Multipart/Mixed"), how == 2 ? S() : b, join(l, eol, close != 1), eol);
		}
	}); }
	// text of any length around the delimiters
	for (size_t n = 0 ; n < (T ? 400u : 60u) ; ++n) R.testL([&] { return "long|" + str(n); }, [&] { for (size_t base : {0u, 200u, 240u, 1000u, 2000u, 4060u, 8160u, 16350u, 32740u}) for (auto& eol : eols) { const S x = S(base + n, '-'), y = S(base, 'y') + eol + S(n, '-'); check(R, "multipart/mixed; boundary=bnd", "bnd", join({x, "--bnd", "", y, "--bnd", "X: z", "", x, "", "--bnd--", y}, eol, true), eol); } });
	R.test("regenerate|prolog which begins like a delimiter", [&] { check(R, "multipart/mixed; boundary=b", "b", " --b\r\n--b\r\n\r\none\r\n--b--\r\n", "\r\n", true); });
	// nesting
	for (size_t d = 1 ; d <= (T ? 60u : 25u) ; ++d) R.testL([&] { return "deep|" + str(d); }, [&] { for (auto& eol : eols) for (int closed = 0 ; closed < 3 ; ++closed) for (int same = 0 ; same < 2 ; ++same) { S b; for (size_t i = 0 ; i < d ; ++i) { const S n = same ? "q" + S(i, 'q') : "l" + str(i) + "."; b += "pro" + str(i) + eol + "--" + n + eol + eol + "leaf" + eol + "--" + n + eol; b += i + 1 < d ? "Content-Type: multipart/mixed; boundary=" + (same ? "q" + S(i + 1, 'q') : "l" + str(i + 1) + ".") + eol + eol : eol + "core" + eol; } for (size_t i = d ; i-- > 0 ; ) { const S n = same ? "q" + S(i, 'q') : "l" + str(i) + "."; if (closed == 0 || (closed == 1 && i % 2 == 0) || (closed == 2 && i == 0)) b += "--" + n + "--" + eol + "epi" + eol; } check(R, "multipart/mixed; boundary=" + S(same ? "q" : "l0."), same ? "q" : "l0.", b, eol); } });
}
