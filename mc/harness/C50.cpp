// C50: headers of others are read as RFC 5322 says.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

struct Field { S name, value; size_t from, to; };
struct Head { std::vector <Field> f; size_t end; bool bad = false; };
static S collapse(const S& s) { S o; bool ws = false; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ws = true; continue; } if (ws && !o.empty()) o += ' '; ws = false; o += c; } return o; }
static bool blank(char c) { return c == ' ' || c == '\t'; }

/** line by line */
static Head understand(const S& s, size_t from, size_t to, bool skip) {
	Head h; bool field = false; size_t p = from;
	while (p < to) {
		size_t n = s.find('\n', p); size_t next, te; if (n == S::npos || n >= to) next = te = to; else { next = n + 1; te = n > p && s[n - 1] == '\r' ? n - 1 : n; }
		const S t = s.substr(p, te - p); const bool ws = t.find_first_not_of(" \t") == S::npos;
		if (t.empty()) { h.end = next; return h; }
		if (blank(t[0])) { if (field) { h.f.back().value += t; h.f.back().to = next; } else if (ws && te < next) { h.end = next; return h; } }
		else {
			size_t e = 0; while (e < t.size() && t[e] != ':' && !blank(t[e])) ++e; size_t c = e; while (c < t.size() && blank(t[c])) ++c;
			if (c < t.size() && t[c] == ':') { Field f; f.name = t.substr(0, e); f.value = t.substr(c + 1); f.from = p; f.to = next; h.f.push_back(f); field = true; }
			else { h.bad = true; field = false; if (!skip) { h.end = h.f.empty() ? from : p; return h; } }
		}
		p = next;
	}
	h.end = to; return h;
}
static S low(S s) { for (auto& c : s) c = char(tolower(c)); return s; }
static S val(const headerField& f) { return collapse(f.getValue <text>()->getWholeBuffer()); }
static void compare(mc::Run& R, const header& h, const Head& w, const S& src, const S& how) {
	const S ctx = how + " in " + R.show(src); S got, want; for (size_t i = 0 ; i < h.getFieldCount() ; ++i) { auto f = h.getFieldAt(i); got += f->getName() + "=" + val(*f) + "|" + str(f->getParsedOffset()) + "+" + str(f->getParsedLength()) + ";"; } for (auto& f : w.f) want += f.name + "=" + collapse(f.value) + "|" + str(f.from) + "+" + str(f.to - f.from) + ";";
	R.equal(got, want, "fields" + ctx);
	std::map <S, std::vector <size_t> > by; for (size_t i = 0 ; i < w.f.size() ; ++i) by[low(w.f[i].name)].push_back(i);
	for (auto& kv : by) for (int up = 0 ; up < 2 ; ++up) { S nm = kv.first; if (up) for (auto& c : nm) c = char(toupper(c)); CHECK(h.hasField(nm), "hasField " + nm + ctx); CHECK(h.findField(nm) == h.getFieldAt(kv.second[0]), "findField " + nm + ctx); auto all = const_cast <header&>(h).findAllFields(nm); CHECK(all.size() == kv.second.size(), "findAllFields " + nm + ctx); for (size_t i = 0 ; i < all.size() ; ++i) CHECK(all[i] == h.getFieldAt(kv.second[i]), "findAllFields " + nm + ctx); }
	CHECK(!h.hasField("Zz") && !h.findField("Zz"), "field which is not there" + ctx);
}
static S extractAll(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extract(os); return o; }

static void check(mc::Run& R, const S& src) {
	for (int skip = 0 ; skip < 2 ; ++skip) {
		const Head w = understand(src, 0, src.size(), skip); R.outcome(str(w.f.size()) + "," + str(w.end == src.size()) + str(w.bad) + (w.f.empty() ? S() : w.f.back().name + w.f.back().value)); R.transition();
		parsingContext pc; pc.setHeaderParseErrorRecoveryMethod(skip ? headerParseRecoveryMethod::SKIP_LINE : headerParseRecoveryMethod::ASSUME_END_OF_HEADERS);
		{ header h; size_t np = 12345; h.parse(pc, src, 0, src.size(), &np); compare(R, h, w, src, ""); R.equal(np, w.end, "end of the header in " + R.show(src)); CHECK(pc.getHeaderRecoveryNeeded() == w.bad, "recovery needed is not told for " + R.show(src)); 
		  const S big = "Q: 1\r\n" + src + " tail\r\nR: 2\r\n"; h.parse(pc, big, 6, 6 + src.size(), &np); const Head x = understand(big, 6, 6 + src.size(), skip); compare(R, h, x, big, " (in a buffer, used object)"); R.equal(np, x.end, "end of the header in a buffer: " + R.show(src)); }
		if (src.empty()) continue;
		parsingContext pm; pm.setHeaderParseErrorRecoveryMethod(pc.getHeaderParseErrorRecoveryMethod());
		for (int st = 0 ; st < 2 ; ++st) { message m; if (st) { shared_ptr <utility::inputStream> in = make_shared <ChunkIn>(src, Cuts{2, 1, 5}); m.parse(pm, in, 0, src.size()); } else m.parse(pm, src); compare(R, *m.getHeader(), w, src, st ? " (message from a stream)" : " (message)"); R.equal(extractAll(m.getBody()->getContents()), src.substr(w.end), "body of " + R.show(src)); CHECK(pm.getHeaderRecoveryNeeded() == w.bad, "recovery needed"); if (!w.f.empty() && !st && !w.bad) {
			S g; { utility::outputStreamStringAdapter os(g); m.generate(os); } message q; q.parse(g); R.equal(q.getHeader()->getFieldCount(), w.f.size(), "fields generated again from " + R.show(src)); for (size_t i = 0 ; i < w.f.size() ; ++i) { R.equal(q.getHeader()->getFieldAt(i)->getName(), w.f[i].name, "name generated again from " + R.show(src)); R.equal(val(*q.getHeader()->getFieldAt(i)), collapse(w.f[i].value), "value generated again from " + R.show(src)); } } }
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C50";
	R.rule = "every sequence of up to 4 (thorough 5) lines of 16 kinds (fields with white space around the colon, empty, with colons in the value; folds; blank lines; lines which are no fields) with CRLF and LF, with and without a last line end; every sequence of up to 6 (8) pieces of fields and line ends; long names, values and folds; with both ways to go on after a bad line; compared with a line-based reading of RFC 5322, offsets, end of the header, look-up by name and the message generated again included";
	R.assumptions = {"white space in values is compared as one space", "lines which begin with a colon, and carriage returns alone, are not specified", "a line of white space which does not follow a field ends the header", "folds at the beginning, without a field, are skipped, or belong to the text if the header ends with them"};
	const bool T = R.thorough;
	const std::vector <S> L = {"A: one", "B:two", "C : three", "D:\t four \t", "E:", "F:: five", "a: 1:2", "Subject: s =?q? x", " fold", "\tfold: x", " ", "\t \t", "", "junk", "junk here: x", "From me@x Thu 10:00"};
	for (const S eol : {"\r\n", "\n"}) for (int last = 0 ; last < 2 ; ++last) for (size_t n = 1 ; n <= (T ? 5u : 4u) ; ++n) mc::tuples(L.size(), n, [&](const std::vector <size_t>& v) { if (v.size() != n) return; if (!T && n == 4 && (last ? eol.size() == 1 : eol.size() == 2)) return; R.testL([&] { return "lines|" + eol + str(last) + mc::show(v); }, [&] { S s; for (size_t i = 0 ; i < n ; ++i) s += L[v[i]] + (i + 1 < n || last ? eol : S()); check(R, s); }); });
	const std::vector <S> P = {"A", ":", " ", "\t", "\r\n", "\n", "b"};
	mc::tuples(P.size(), T ? 8 : 6, [&](const std::vector <size_t>& v) { S s; for (size_t i : v) s += P[i]; if (s.empty()) return; { size_t p = 0; for ( ; ; ) { size_t q = p; while (q < s.size() && blank(s[q])) ++q; if (p < s.size() && s[p] == ':') return; p = s.find('\n', p); if (p == S::npos) break; ++p; } } R.testL([&] { return "pieces|" + mc::show(v); }, [&] { check(R, s); }); });
	for (size_t n = 1 ; n <= (T ? 4000u : 300u) ; n += n < 100 ? 1 : 37) R.testL([&] { return "long|" + str(n); }, [&] { for (const S eol : {"\r\n", "\n"}) for (size_t base : {0u, 990u, 2040u, 4080u, 8180u, 16370u}) { const size_t k = base + n; check(R, S(k % 900 + 1, 'N') + ": " + S(k, 'v') + eol + "B: x" + eol + eol + "body"); S f = "Folded:"; for (size_t i = 0 ; i < n ; ++i) f += (i % 3 ? " w" : eol + "\tx") + str(i); check(R, "A: " + S(base, 'a') + eol + f + eol + "Z: z" + eol + eol + "A: not a field" + eol); S many; for (size_t i = 0 ; i < n ; ++i) many += "X" + str(i % 7) + ": " + str(i) + eol; if (base == 0) check(R, many + eol + "text"); } });
}
