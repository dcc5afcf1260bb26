// C05: e-mail addresses.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

static void u8(S& o, uint32_t c) {
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
static bool ascii(const S& s) { for (unsigned char c : s) if (c >= 128) return false; return true; }
static S utf8of(const word& w) { return w.getConvertedText(charset(charsets::UTF_8)); }

static S genAddr(const emailAddress& a, bool eai, size_t maxLine) {
	generationContext ctx(generationContext::getDefaultContext());
	ctx.setInternationalizedEmailSupport(eai); ctx.setMaxLineLength(maxLine);
	S s; utility::outputStreamStringAdapter os(s); a.generate(ctx, os); return s;
}
static emailAddress parseAddr(const S& s, bool eai) {
	parsingContext ctx; ctx.setInternationalizedEmailSupport(eai);
	emailAddress a; a.parse(ctx, s); return a;
}

static void roundTrip(mc::Run& R, const S& l, const S& d, const S& cs = "utf-8") {
	S lc = l; if (cs != "utf-8") charset::convert(l, lc, charset("utf-8"), charset(cs));
	emailAddress a(word(lc, charset(cs)), word(d, charset("utf-8")));
	for (bool eai : {false, true}) for (size_t ml : {size_t(lineLengthLimits::infinite), size_t(78), size_t(20)}) {
		const S g = genAddr(a, eai, ml);
		const S what = S(eai ? " (EAI" : " (ASCII") + ", generated " + R.show(g) + ")";
		if (!eai) CHECK(ascii(g), "non-ASCII bytes without internationalized e-mail support: " + R.show(g));
		for (char c : g) if (c == '\r' || c == '\n') CHECK(false, "generated address contains a line break" + what);
		// an address generated without EAI support is readable in both modes
		for (bool peai : {false, true}) {
			if (eai && !peai && !ascii(g)) { /* still readable: UTF-8 is accepted */ }
			emailAddress b = parseAddr(g, peai);
			R.equal(utf8of(b.getLocalName()), l, "local part after parsing" + what);
			R.equal(utf8of(b.getDomainName()), d, "domain after parsing" + what);
			R.equal(genAddr(b, eai, ml) == g || cs != "utf-8", true, "generating again" + what);
			// copies and string forms
			R.equal(b == emailAddress(b), true, "copy equal");
			R.transition();
		}
		size_t np = 12345; parsingContext pc; emailAddress e; const S pre = "xx" + g + " rest";
		R.outcome(g);
	}
	R.equal(utf8of(emailAddress(a.toString()).getLocalName()), l, "toString() local part");
	emailAddress same(l, d), other(l + "x", d), other2(l, d + "x");
	R.equal(same == emailAddress(l, d), true, "operator=="); R.equal(same != other, true, "operator!="); R.equal(same == other2, false, "operator== domain");
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C05";
	R.rule = "every local part up to the stated length over an alphabet of specials and non-ASCII x domains; every domain of up to 3 labels over a label alphabet; "
		"every code point (step in quick mode) as an IDN label; all in ASCII and EAI mode, several maximum line lengths, two charsets; every length up to the 254 limit";
	R.assumptions = {"local part and domain are not empty and together shorter than 255 bytes; ASCII labels starting with xn-- are valid Punycode (otherwise they are kept verbatim)"};
	const bool T = R.thorough;
	const S E = "\xc3\xa9", J = "\xe6\x97\xa5", G = "\xf0\x9f\x98\x80";
	// local parts
	std::vector <S> A = {"a", ".", "\"", "\\", " ", "@", "(", ")", "<", ",", "=", "?", "_", "\t", E, J};
	const std::vector <S> B = {"a", ".", "\"", "\\", " ", "@", "(", ")", "<", ">", ",", ":", ";", "[", "]", "=", "?", "_", "'", "-", "+", "\t", "\r", "\n", "\x01", "\x7f", E, J, G};
	mc::strings(B, 1, 2, [&](const S& l) { R.testL([&] { return "local|" + esc(l); }, [&] { roundTrip(R, l, "d.e"); }); });
	mc::strings(A, 3, 3, [&](const S& l) { R.testL([&] { return "local|" + esc(l); }, [&] { roundTrip(R, l, "d.e"); }); });
	if (T) mc::strings(A, 4, 4, [&](const S& l) { R.testL([&] { return "local|" + esc(l); }, [&] { roundTrip(R, l, "d.e"); }); });
	mc::strings({"a", "=?", "?=", "?", "=", E, "Q?"}, 1, T ? 6 : 4, [&](const S& l) { R.testL([&] { return "rfc2047|" + esc(l); }, [&] { roundTrip(R, l, "d"); }); });
	mc::strings({"a", ".", "\"", E, "="}, 1, T ? 6 : 5, [&](const S& l) { R.testL([&] { return "dots|" + esc(l); }, [&] { roundTrip(R, l, "d"); }); });
	mc::strings({"a", "b", ".", " ", "@", E}, 1, T ? 5 : 4, [&](const S& l) { R.testL([&] { return "latin1|" + esc(l); }, [&] { roundTrip(R, l, E + ".d", "iso-8859-1"); }); });
	// lengths
	for (size_t n = 1 ; n <= 250 ; ++n) for (auto& u : {S("a"), E, J, S("\"")}) {
		S l; while (l.size() + u.size() <= n) l += u;
		if (l.empty()) continue;
		for (bool mixed : {false, true}) for (bool idn : {false, true}) {
			S m = mixed ? "a" + l.substr(0, l.size() - u.size()) : l; if (m.empty()) continue;
			if (m.size() > 248) continue;
			if (!T && mixed && n > 80 && n % 5) continue;
			// limit of the parser: what is between the white space must be shorter than 256 bytes
			S enc = genAddr(emailAddress(m, idn ? J + ".d" : "d.e"), false, 78);
			if (enc.size() > 254) continue;
			R.testL([&] { return "length|" + str(n) + "," + esc(u) + (mixed ? "mixed" : "") + (idn ? "idn" : ""); }, [&] { roundTrip(R, m, idn ? J + ".d" : "d.e"); });
		}
	}
	// domains
	std::vector <S> L = {"a", "A", "ab-c", "9", "-", "xn", "xn-", "xn--", E, "a" + E, E + "a", E + "-", "-" + E, J + "\xe6\x9c\xac", "A" + E, "\xc3\x89", G + "b" + G, "[1:2]", "_x", "xn--" + E};
	for (size_t n = 1 ; n <= 3 ; ++n) mc::tuples(L.size(), n, [&](const std::vector <size_t>& ix) {
		S d; for (size_t i = 0 ; i < n ; ++i) d += (i ? "." : "") + L[ix[i]];
		for (auto& dd : {d, d + ".", "." + d}) { if (n == 3 && !T && dd != d) continue;
		R.testL([&] { return "domain|" + esc(dd); }, [&] { roundTrip(R, "u", dd); if (n < 3) roundTrip(R, E, dd); }); }
	});
	for (size_t n = 1 ; n <= 60 ; ++n) for (auto& u : {E, J, G}) for (auto& pre : {S(), S("a"), S("a-")}) {
		S d = pre; for (size_t i = 0 ; i < n && d.size() < 200 ; ++i) { d += u; if (n % 3 == 0) d += "b"; }
		R.testL([&] { return "longlabel|" + esc(d); }, [&] { roundTrip(R, "u", d); });
	}
	// IDN label by label
	const charset U("utf-8"), I("idna");
	auto idn = [&](const S& d) {
		S e, b, e2; charset::convert(d, e, U, I); CHECK(ascii(e), "IDN encoding of " + R.show(d) + " is not ASCII: " + R.show(e));
		CHECK(!e.empty() || d.empty(), "IDN encoding of " + R.show(d) + " is empty");
		charset::convert(e, b, I, U); R.equal(b, d, "IDN decoding of " + R.show(e));
		ChunkIn in(d, {1}, true); CollectOut o; charset::convert(in, o, U, I); R.equal(o.data, e, "IDN encoding through streams");
		ChunkIn in2(e, {1, 1}); CollectOut o2; charset::convert(in2, o2, I, U); R.equal(o2.data, d, "IDN decoding through streams");
		S l1; charset::convert(d, l1, U, charset("gb18030")); S e3; charset::convert(l1, e3, charset("gb18030"), I); S l2; charset::convert(l1, l2, charset("gb18030"), U); if (!ascii(d) && l2 == d) R.equal(e3, e, "IDN encoding from GB18030");
		R.outcome(e);
	};
	// code points in blocks
	const uint32_t step = T ? 1 : 13;
	for (uint32_t b = 0x80 ; b < 0x110000 ; b += 1024) R.testL([&] { return "codepoints|" + str(b); }, [&] {
		for (uint32_t c = b + (b / 1024) % step ; c < b + 1024 && c < 0x110000 ; c += step) { if (c >= 0xd800 && c < 0xe000) continue; if (c == 0xfeff) continue; S d; u8(d, c); idn(d); R.transition(); }
	});
	std::vector <S> ic = {"a", "b", "-", "0", "Z", "=", "\xc2\x80", E, "\xdf\xbf", "\xe0\xa0\x80", J, "\xef\xbf\xbd", G, "\xf4\x8f\xbf\xbf"};
	mc::strings(ic, 1, T ? 5 : 4, [&](const S& d) { R.testL([&] { return "label|" + esc(d); }, [&] { idn(d); }); });
	// encoded domains that are kept: parse, generate gives the same
	auto keep = [&](const S& d) { R.testL([&] { return "xn|" + esc(d); }, [&] {
		emailAddress a("u@" + d); const S g = genAddr(a, false, 78); CHECK(!a.getDomainName().isEmpty(), "domain lost");
		S g2 = g, d2 = "u@" + d; for (char& c : g2) c = tolower(c); for (char& c : d2) c = tolower(c);
		CHECK(g2 == d2 || a.getDomainName().getBuffer() != d, "parsing and generating u@" + d + " gives " + g);
		// nothing but whole labels, as many as before
		CHECK(std::count(g.begin(), g.end(), '.') == std::count(d.begin(), d.end(), '.'), "labels lost: " + g);
		S lab; std::stringstream ss(g.substr(2)); while (std::getline(ss, lab, '.')) CHECK(!lab.empty(), "label lost: parsing and generating u@" + d + " gives " + g);
		R.equal(genAddr(emailAddress(g), false, 78), g, "stable");
	}); };
	mc::strings({"a", "b", "9", "-", "z", "_"}, 1, T ? 5 : 4, [&](const S& x) { keep("xn--" + x); keep("xn--" + x + ".c"); });
}
