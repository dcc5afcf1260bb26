// C06: RFC 2047 text.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "rfc2047.hpp"
using namespace vmime;

static S conv(const S& s, const S& a, const S& b) {
	if (a == b) return s;
	S o; charsetConverterOptions op; op.silentlyReplaceInvalidSequences = false;
	charset::convert(s, o, charset(a), charset(b), op); return o;
}
static S trim(const S& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == S::npos ? S() : s.substr(a, b - a + 1); }
/** white space containing a tab or line break may get or lose spaces where words meet */
static S norm(const S& s) {
	S o; size_t i = 0; const S t = trim(s);
	while (i < t.size()) {
		size_t j = i; while (j < t.size() && strchr(" \t\n", t[j])) ++j;
		if (j > i) { S w = t.substr(i, j - i); if (w.find_first_of("\t\n") != S::npos) { S x; for (char c : w) if (c != ' ') x += c; w = x; } o += w; i = j; }
		else o += t[i++];
	}
	return o;
}
static S u8(const text& t) { return t.getConvertedText(charset("utf-8")); }

struct Mode { bool eai; size_t max, cur; };
static S genText(const text& t, const Mode& m, size_t* end = nullptr) {
	generationContext ctx(generationContext::getDefaultContext());
	ctx.setInternationalizedEmailSupport(m.eai); ctx.setMaxLineLength(m.max);
	S s; utility::outputStreamStringAdapter os(s); size_t e = 0; t.encodeAndFold(ctx, os, m.cur, &e, 0);
	if (end) *end = e;
	return s;
}

/** expected: list of acceptable decoded texts (UTF-8), compared without outer white space */
static void check(mc::Run& R, const text& t, const std::vector <S>& want, const Mode& m) {
	const S g = genText(t, m);
	const S what = "; generated " + R.show(g) + (m.eai ? " EAI" : "") + " max " + str(m.max) + " at " + str(m.cur);
	R.outcome(g); R.transition();
	auto ok = [&](const S& got, const char* how) {
		for (auto& w : want) if (norm(got) == norm(w)) return;
		CHECK(false, S(how) + " decodes to " + R.show(got) + ", expected " + R.show(want[0]) + what);
	};
	parsingContext pc; pc.setInternationalizedEmailSupport(m.eai);
	text d; text::decodeAndUnfold(pc, g, &d); ok(u8(d), "decodeAndUnfold");
	text p; p.parse(pc, g); ok(u8(p), "parse");
	const rfc2047::Decoded x = rfc2047::decode(g);
	S all; for (auto& pt : x.parts) all += pt.encoded ? conv(pt.data, pt.charset, "utf-8") : pt.data;   // throws if a word does not hold whole characters
	ok(all, "independent RFC 2047 decoder");
	for (auto& pt : x.parts) if (pt.encoded) {
		CHECK(pt.bad.empty(), "invalid encoded word " + pt.raw + ": " + pt.bad + what);
		if (m.max <= 78) CHECK(pt.raw.size() <= 75, "encoded word of " + str(pt.raw.size()) + " characters" + what);
	}
	CHECK(x.bad.empty(), x.bad + what);
	// raw line breaks only as folds
	for (size_t i = 0 ; i < g.size() ; ++i) if (g[i] == '\n' || g[i] == '\r') {
		if (g[i] == '\r') CHECK(i + 1 < g.size() && g[i + 1] == '\n', "bare CR" + what);
		else { CHECK(i > 0 && g[i - 1] == '\r', "bare LF" + what); CHECK(i + 1 < g.size() && (g[i + 1] == ' ' || g[i + 1] == '\t'), "line break not followed by white space" + what); }
	}
	// the result is stable when parsed and generated again
	R.equal(norm(u8(*text::decodeAndUnfold(pc, genText(d, m)))), norm(u8(d)), "second round trip" + what);
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C06";
	R.rule = "every text up to the stated length over an alphabet of ASCII, non-ASCII, spaces, '=?' fragments, in several charsets, as string and as every split into words; "
		"long texts of every length, first-line offset and maximum line length; decoded with the library (two interfaces) and an independent RFC 2047 decoder";
	R.assumptions = {"white space at the very start and end of a value is not compared", "a space may appear where an encoded and an unencoded word are adjacent in a hand-made word list"};
	const bool T = R.thorough;
	const S E = "\xc3\xa9", J = "\xe6\x97\xa5", G = "\xf0\x9f\x98\x80";
	const std::vector <Mode> modes = {{false, 78, 0}, {false, 78, 9}, {false, 78, 60}, {false, lineLengthLimits::infinite, 0}, {false, 30, 9}, {true, 78, 0}, {true, 30, 9}};
	auto all = [&](const S& fam, const S& s, const S& cs) { R.testL([&] { return fam + " " + cs + "|" + esc(s); }, [&] {
		S d; try { d = conv(s, "utf-8", cs); } catch (std::exception&) { return; }
		text t; t.createFromString(d, charset(cs));
		R.equal(conv(t.getWholeBuffer(), cs, "utf-8"), s, "words made from the string");
		text w1(word(d, charset(cs)));
		for (auto& m : modes) { check(R, t, {s}, m); check(R, w1, {s}, m); }
	}); };
	const std::vector <S> A = {"a", " ", "=?", "?=", "_", E, J, "\t", "\n", "?", "="};
	for (auto cs : {"utf-8", "iso-8859-1", "iso-2022-jp", "us-ascii"}) mc::strings(A, 1, S(cs) == "utf-8" ? (T ? 5 : 4) : 3, [&](const S& s) { if (s.find('\n') != S::npos && s.find(J) != S::npos && S(cs) == "iso-2022-jp") return; all("string", s, cs); });
	mc::strings({"ab", " ", E, "cde", "=?x?q?y?="}, 1, T ? 7 : 5, [&](const S& s) { all("mix", s, "utf-8"); });
	mc::strings({"a", " ", "  ", E, G}, 1, T ? 6 : 5, [&](const S& s) { all("spaces", s, "utf-8"); });
	mc::strings({"a", " ", E, "\xd0\xb4"}, 1, T ? 5 : 4, [&](const S& s) { for (auto cs : {"koi8-r", "gb18030", "utf-16be", "windows-1252", "utf-7", "hz-gb-2312"}) all("charsets", s, cs); });
	// word lists
	const std::vector <S> W = {"a", " a", "a ", E, " " + E, E + " ", "=?", "b c", J, "=?u?q?x?", "=", "?u?q?x?="};
	for (size_t n = 2 ; n <= (T ? 4u : 3u) ; ++n) mc::tuples(W.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { S s = "words|"; for (size_t i : ix) s += "[" + W[i] + "]"; return s; }, [&] {
			for (int csm = 0 ; csm < 2 ; ++csm) for (auto& m : modes) {
				text t; S exact; std::vector <S> want = {""};
				bool prevEnc = false; S prev; bool first = true;
				for (size_t k = 0 ; k < ix.size() ; ++k) {
					const S& w = W[ix[k]];
					const S cs = (csm && k == 1 && w.find(J) == S::npos) ? "iso-8859-1" : "utf-8";
					t.appendWord(make_shared <word>(conv(w, "utf-8", cs), charset(cs)));
					bool e = !m.eai && cs == "iso-8859-1"; for (unsigned char c : w) if (c > 127 && !m.eai) e = true; if (w.find("=?") != S::npos) e = true;
					std::vector <S> nw;
					for (auto& x : want) {
						nw.push_back(x + w);
						// a space where the notation needs one
						if (!first && (e != prevEnc || m.eai) && !(prev.size() && prev[prev.size() - 1] == ' ') && w[0] != ' ') nw.push_back(x + " " + w);
					}
					want = nw; prevEnc = e; prev = w; first = false;
				}
				check(R, t, want, m);
			}
		});
	});
	// lengths and folding
	const std::vector <S> units = {"a", E, J, G, "abc ", E + " ", "a" + E + " ", "ab " + E + " ", "a  ", "=?", "a b\t"};
	for (auto& u : units) for (size_t n = 1 ; n <= (T ? 200u : 130u) ; n += (n < 100 ? 1 : 7)) R.testL([&] { return "long|" + esc(u) + "*" + str(n); }, [&] {
		S s; for (size_t i = 0 ; i < n && s.size() < 400 ; ++i) s += u;
		for (auto cs : {"utf-8", "iso-8859-1"}) {
			S d; try { d = conv(s, "utf-8", cs); } catch (std::exception&) { continue; }
			text t; t.createFromString(d, charset(cs)); text w1(word(d, charset(cs)));
			for (size_t max : {78, 40, 20}) for (size_t cur : {0, 1, 9, 30, 77}) for (bool eai : {false, true}) { if (!T && eai && (n % 4)) continue; if (!T && max == 20 && n % 3) continue; Mode m{eai, max, cur}; check(R, t, {s}, m); check(R, w1, {s}, m); }
		}
	});
	for (size_t max = 20 ; max <= 80 ; max += (T ? 1 : 3)) for (size_t cur = 0 ; cur < max ; cur += (T ? 1 : 4)) R.testL([&] { return "fold|" + str(max) + "," + str(cur); }, [&] {
		for (const S& s : std::vector <S>{S("The quick brown fox jumps over the lazy dog and  then some   more words follow until the line is full, really full."),
			"Un caf\xc3\xa9 cr\xc3\xa8me et un th\xc3\xa9  vert pour Fran\xc3\xa7ois et Ren\xc3\xa9" "e dans une tr\xc3\xa8s longue ligne d'objet", S(30, 'x') + " " + S(90, 'y') + " z " + S(40, 'w') + " " + E,
			E + " " + S(100, 'x') + " " + E + " a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o " + E})
		for (bool eai : {false, true}) { text t(s, charset("utf-8")); Mode m{eai, max, cur}; check(R, t, {s}, m); check(R, text(word(s, charset("utf-8"))), {s}, m); }
	});
}
