// C04: charset conversion.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

typedef uint32_t cp; typedef std::vector <cp> Text;

// ---- independent codecs ------------------------------------------------------------------
static void u8(S& o, cp c) {
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
static bool enc1(const S& cs, cp c, S& o) {
	if (cs == "utf-8") { u8(o, c); return true; }
	if (cs == "utf-16be" || cs == "utf-16le") {
		auto w = [&](unsigned u) { if (cs == "utf-16be") { o += char(u >> 8); o += char(u); } else { o += char(u); o += char(u >> 8); } };
		if (c >= 0x10000) { w(0xd800 + ((c - 0x10000) >> 10)); w(0xdc00 + ((c - 0x10000) & 0x3ff)); } else w(c);
		return true;
	}
	if (cs == "utf-32be") { o += char(c >> 24); o += char(c >> 16); o += char(c >> 8); o += char(c); return true; }
	if (cs == "us-ascii") { if (c < 128) { o += char(c); return true; } return false; }
	if (cs == "iso-8859-1") { if (c < 256) { o += char(c); return true; } return false; }
	if (cs == "iso-8859-15") {
		if (c == 0x20ac) { o += char(0xa4); return true; }
		if (c == 0x153) { o += char(0xbd); return true; }
		if (c < 256 && c != 0xa4 && c != 0xa6 && c != 0xa8 && c != 0xb4 && c != 0xb8 && c != 0xbc && c != 0xbd && c != 0xbe) { o += char(c); return true; }
		return false;
	}
	if (cs == "windows-1252") {
		if (c == 0x20ac) { o += char(0x80); return true; }
		if (c == 0x153) { o += char(0x9c); return true; }
		if (c < 0x80 || (c >= 0xa0 && c < 256)) { o += char(c); return true; }
		return false;
	}
	if (cs == "koi8-r") { if (c < 128) { o += char(c); return true; } if (c == 0x434) { o += char(0xc4); return true; } return false; }
	throw std::runtime_error("no codec");
}
static bool encode(const S& cs, const Text& t, S& o) { o.clear(); for (cp c : t) if (!enc1(cs, c, o)) return false; return true; }
static S nameT(const Text& t) { S s; for (cp c : t) { char b[16]; snprintf(b, 16, "U+%04X ", c); s += b; } return s; }

static const std::vector <S> known = {"utf-8", "utf-16be", "utf-16le", "utf-32be", "us-ascii", "iso-8859-1", "iso-8859-15", "windows-1252", "koi8-r"};

struct Res { S out; S err; size_t in = 0, outN = 0; };
static S exName(const std::exception& e) {
	if (dynamic_cast <const exceptions::illegal_byte_sequence_for_charset*>(&e)) return "illegal";
	if (dynamic_cast <const exceptions::charset_conv_error*>(&e)) return "conv";
	return S("other: ") + e.what();
}
static Res viaString(const S& d, const S& a, const S& b, const charsetConverterOptions& o) {
	Res r; charsetConverter::status st;
	try { auto c = charsetConverter::create(charset(a), charset(b), o); c->convert(d, r.out, &st); } catch (std::exception& e) { r.err = exName(e); }
	r.in = st.inputBytesRead; r.outN = st.outputBytesWritten; return r;
}
static Res viaStream(const S& d, const S& a, const S& b, const charsetConverterOptions& o, const Cuts& c, bool late) {
	Res r; charsetConverter::status st;
	try { auto cv = charsetConverter::create(charset(a), charset(b), o); ChunkIn in(d, c, late); CollectOut out; try { cv->convert(in, out, &st); } catch (...) { r.out = out.data; throw; } r.out = out.data; }
	catch (std::exception& e) { r.err = exName(e); }
	r.in = st.inputBytesRead; r.outN = st.outputBytesWritten; return r;
}
static Res viaFilter(const S& d, const S& a, const S& b, const charsetConverterOptions& o, const Cuts& c) {
	Res r;
	try {
		auto cv = charsetConverter::create(charset(a), charset(b), o); CollectOut out; auto f = cv->getFilteredOutputStream(out, o);
		try { writeChunks(*f, d, c); f->flush(); } catch (...) { r.out = out.data; throw; }
		r.out = out.data;
	} catch (std::exception& e) { r.err = exName(e); }
	return r;
}

static charsetConverterOptions strict() { charsetConverterOptions o; o.silentlyReplaceInvalidSequences = false; return o; }
static charsetConverterOptions repl(const S& s) { charsetConverterOptions o; o.invalidSequence = s; return o; }

/** All interfaces and chunkings give `want`. */
static void allWays(mc::Run& R, const S& d, const S& a, const S& b, const charsetConverterOptions& o, const S& want, size_t comp) {
	Res r = viaString(d, a, b, o);
	R.equal(r.err, S(), "error converting " + R.show(d) + " from " + a + " to " + b);
	R.equal(r.out, want, "string conversion of " + R.show(d) + " from " + a + " to " + b);
	R.equal(r.in, d.size(), "input byte count"); R.equal(r.outN, r.out.size(), "output byte count");
	auto one = [&](const Cuts& c) {
		for (bool late : {false, true}) {
			Res s = viaStream(d, a, b, o, c, late); R.transition();
			R.equal(s.err + s.out, want, "stream conversion of " + R.show(d) + " " + a + " -> " + b + " reading " + mc::show(c) + (late ? " late eof" : ""));
			R.equal(s.in, d.size(), "stream input byte count"); R.equal(s.outN, want.size(), "stream output byte count");
		}
		if (c.size() > 1) {
			auto cv = charsetConverter::create(charset(a), charset(b), o); CollectOut out; auto fl = cv->getFilteredOutputStream(out, o);
			size_t p = 0; for (size_t k : c) { fl->write("", size_t(0)); fl->write(d.data() + p, k); p += k; } fl->write("", size_t(0)); fl->flush();
			R.equal(out.data, want, "filtered stream with empty writes in between, " + mc::show(c));
		}
		Res f = viaFilter(d, a, b, o, c); R.transition();
		R.equal(f.err + f.out, want, "filtered stream conversion of " + R.show(d) + " " + a + " -> " + b + " writing " + mc::show(c));
	};
	if (d.size() <= comp) mc::compositions(d.size(), one); else mc::cuts(d.size(), d.size() < 24 ? 2 : 1, one);
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C04";
	R.rule = "every text up to the stated length over representative code points x every pair of charsets x strict/replace x string, stream and filter interface x every partition; "
		"every position of a multi-byte, malformed or unrepresentable character around the 16-byte conversion buffer";
	R.assumptions = {"expected bytes come from independent codecs for UTF-8/16/32, ISO-8859-1/15, windows-1252, KOI8-R (one letter), ASCII; other charsets are checked by round trip and cross-interface equality"};
	const bool T = R.thorough;
	const Text cps = {'A', ' ', 0x7f, 0xe9, 0x153, 0x20ac, 0x434, 0x3042, 0x1f600, 0x10ffff};
	// ---- valid text, known codecs
	for (auto& a : known) for (auto& b : known) for (size_t n = 0 ; n <= (T ? 4u : 3u) ; ++n) mc::tuples(cps.size(), n, [&](const std::vector <size_t>& ix) {
		Text t; for (size_t i : ix) t.push_back(cps[i]);
		S da, db; if (!encode(a, t, da) || !encode(b, t, db)) return;
		if (!T && n == 3 && a != "utf-8" && b != "utf-8") return;
		R.testL([&] { return "valid " + a + ">" + b + "|" + nameT(t); }, [&] {
			allWays(R, da, a, b, strict(), db, 7);
			Res r = viaString(da, a, b, repl("?")); R.equal(r.err + r.out, db, "conversion with replacement enabled");
			R.equal(r.in, da.size(), "input byte count (replace mode)"); R.equal(r.outN, db.size(), "output byte count (replace mode)");
			S back; charset::convert(db, back, charset(b), charset(a)); R.equal(back, da, "conversion back");
			CHECK(charset(a).isValidText(da, NULL), "isValidText() false for valid text");
			R.outcome(a + b + da);
		});
	});
	// ---- every offset around the internal buffer
	for (auto& a : known) for (auto& b : known) for (size_t k = 0 ; k <= 36 ; ++k) for (cp c : cps) for (size_t m : {0u, 1u, 17u}) {
		Text t(k, 'x'); t.push_back(c); t.push_back(c); t.insert(t.end(), m, 'y');
		S da, db; if (!encode(a, t, da) || !encode(b, t, db)) continue;
		if (!T && a != "utf-8" && b != "utf-8" && (k % 3)) continue;
		R.testL([&] { return "offset " + a + ">" + b + "|" + str(k) + "," + str(m) + nameT({c}); }, [&] {
			for (auto& o : {strict(), repl("?")}) {
				Res r = viaString(da, a, b, o); R.equal(r.err + r.out, db, "string conversion"); R.equal(r.in, da.size(), "input byte count"); R.equal(r.outN, db.size(), "output byte count");
			}
			mc::cuts(da.size(), 1, [&](const Cuts& cc) {
				Res s = viaStream(da, a, b, strict(), cc, true); R.equal(s.err + s.out, db, "stream conversion reading " + mc::show(cc)); R.transition();
				Res f = viaFilter(da, a, b, repl("?"), cc); R.equal(f.err + f.out, db, "filter conversion writing " + mc::show(cc)); R.transition();
			});
			R.outcome(da + b);
		});
	}
	// ---- other charsets: round trip and equality of the interfaces
	const std::vector <S> others = {"utf-7", "utf-16", "iso-2022-jp", "shift_jis", "euc-jp", "gb18030", "big5", "iso-2022-kr", "hz-gb-2312", "utf-32", "iso-8859-2", "windows-1251"};
	const Text ocp = {'A', '+', '~', '\\' == 92 ? cp('-') : cp('-'), 0x3042, 0x4e00, 0x434, 0xe9, 0x1f600};
	for (auto& b : others) for (size_t n = 1 ; n <= (T ? 4u : 3u) ; ++n) mc::tuples(ocp.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { Text t; for (size_t i : ix) t.push_back(ocp[i]); return "other " + b + "|" + nameT(t); }, [&] {
			Text t; for (size_t i : ix) t.push_back(ocp[i]);
			S d; encode("utf-8", t, d);
			Res r = viaString(d, "utf-8", b, strict());
			if (!r.err.empty()) {               // not representable: must be an error in every interface
				R.equal(r.err, S("illegal"), "error kind");
				mc::cuts(d.size(), 1, [&](const Cuts& c) { R.equal(viaFilter(d, "utf-8", b, strict(), c).err, S("illegal"), "filter error"); R.equal(viaStream(d, "utf-8", b, strict(), c, false).err, S("illegal"), "stream error"); });
				R.outcome("unrep"); return;
			}
			Res back = viaString(r.out, b, "utf-8", strict());
			if (!d.empty()) R.equal(back.err + back.out, d, "round trip through " + b + " " + R.show(r.out));
			R.equal(r.in, d.size(), "input byte count"); R.equal(r.outN, r.out.size(), "output byte count");
			mc::compositions(std::min <size_t>(d.size(), 9), [&](const Cuts& c) {
				Res f = viaFilter(d, "utf-8", b, strict(), c); R.equal(f.err + f.out, r.out, "filter to " + b + " writing " + mc::show(c)); R.transition();
				Res s = viaStream(d, "utf-8", b, strict(), c, true); R.equal(s.err + s.out, r.out, "stream to " + b + " reading " + mc::show(c));
			});
			if (b != "utf-16" && b != "utf-32") mc::cuts(r.out.size(), 2, [&](const Cuts& c) {
				Res f = viaFilter(r.out, b, "utf-8", strict(), c); R.equal(f.err + f.out, d, "filter from " + b + " writing " + mc::show(c)); R.transition();
			});
			R.outcome(b + r.out);
		});
	});
	// ---- malformed UTF-8
	const std::vector <S> bad = {"\x80", "\xbf", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\xff", "\xfe", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xe3", "\xf0\x9f"};
	for (auto& x : bad) for (size_t k = 0 ; k <= 34 ; ++k) for (auto& suf : {S(), S("b"), S("\xc3\xa9 tail text of some length")}) for (auto& pre : {S("a"), S("\xc3\xa9")}) for (S dst : {"utf-16be", "iso-8859-1", "utf-8"})
		R.testL([&] { return "malformed " + dst + "|" + str(k) + pre + x + suf; }, [&] {
			S p; for (size_t i = 0 ; i < k ; ++i) p += pre;
			const S d = p + x + suf;
			auto conv = [&](const S& s) { Text t; S o; for (size_t i = 0 ; i < s.size() ;) { if ((unsigned char) s[i] < 0x80) t.push_back(s[i++]); else { t.push_back((s[i] & 31) << 6 | (s[i + 1] & 63)); i += 2; } } encode(dst, t, o); return o; };
			const S wp = conv(p), ws = conv(suf);
			Res r = viaString(d, "utf-8", dst, strict());
			R.equal(r.err, S("illegal"), "strict conversion of malformed text");
			R.equal(r.in, p.size(), "number of input bytes converted before the malformed sequence");
			if (dst == "utf-8") {
				size_t first = 99999; CHECK(!charset("utf-8").isValidText(d, &first), "isValidText() true for malformed text");
				R.equal(first, p.size(), "offset of the first invalid byte");
			}
			auto okRepl = [&](const Res& q, const S& what) {
				R.equal(q.err, S(), what + " error");
				CHECK(q.out.size() > wp.size() + ws.size() && q.out.compare(0, wp.size(), wp) == 0 && q.out.compare(q.out.size() - ws.size(), ws.size(), ws) == 0, what + ": valid text around the malformed sequence is lost: " + R.show(q.out));
				S mid = q.out.substr(wp.size(), q.out.size() - wp.size() - ws.size()), fffd, rep; enc1("utf-8", 0xfffd, fffd); if (dst == "utf-16be") { fffd = "\xff\xfd"; rep = S("\0#", 2); } else rep = "#";
				for (size_t i = 0 ; i < mid.size() ;) { if (mid.compare(i, fffd.size(), fffd) == 0) i += fffd.size(); else if (mid.compare(i, rep.size(), rep) == 0) i += rep.size(); else throw mc::Violated(what + ": unexpected replacement " + R.show(mid)); }
			};
			Res q = viaString(d, "utf-8", dst, repl("#")); okRepl(q, "replacing conversion");
			mc::cuts(d.size(), 1, [&](const Cuts& c) {
				R.equal(viaStream(d, "utf-8", dst, strict(), c, true).err, S("illegal"), "strict stream conversion reading " + mc::show(c));
				Res f = viaFilter(d, "utf-8", dst, strict(), c);
				CHECK(!f.err.empty(), "strict filter conversion accepted malformed text, writing " + mc::show(c) + " gives " + R.show(f.out));
				if (!suf.empty()) R.equal(f.err, S("illegal"), "strict filter conversion writing " + mc::show(c));
				Res g = viaFilter(d, "utf-8", dst, repl("#"), c); R.equal(g.err + g.out, q.out, "replacing filter conversion writing " + mc::show(c));
				Res h = viaStream(d, "utf-8", dst, repl("#"), c, false); R.equal(h.err + h.out, q.out, "replacing stream conversion reading " + mc::show(c));
				R.transition(4);
			});
			R.outcome(q.out);
		});
	// ---- unrepresentable characters
	for (auto& b : known) for (size_t k = 0 ; k <= 20 ; ++k) for (cp c : cps) for (auto& rs : {S("?"), S("#"), S("[?]"), S("_")}) {
		S dummy; if (enc1(b, c, dummy)) continue;
		R.testL([&] { return "unrepresentable " + b + "|" + str(k) + nameT({c}) + rs; }, [&] {
			Text t(k, 'x'); t.push_back(c); t.push_back('y'); S d; encode("utf-8", t, d);
			const S want = S(k, 'x') + rs + "y";
			Res r = viaString(d, "utf-8", b, repl(rs)); R.equal(r.err + r.out, want, "replacement"); R.equal(r.outN, want.size(), "output byte count");
			R.equal(viaString(d, "utf-8", b, strict()).err, S("illegal"), "strict conversion");
			mc::cuts(d.size(), 1, [&](const Cuts& cc) {
				Res f = viaFilter(d, "utf-8", b, repl(rs), cc); R.equal(f.err + f.out, want, "filter replacement writing " + mc::show(cc));
				R.equal(viaFilter(d, "utf-8", b, strict(), cc).err, S("illegal"), "strict filter writing " + mc::show(cc));
				Res s = viaStream(d, "utf-8", b, repl(rs), cc, false); R.equal(s.err + s.out, want, "stream replacement reading " + mc::show(cc));
			});
			R.outcome(want + b);
		});
	}
	// ---- long texts through the filter and stream (several buffers)
	for (size_t n : {255u, 1023u, 1024u, 1025u, 4096u, 40000u}) for (auto& b : {S("utf-16be"), S("iso-8859-1"), S("utf-7"), S("iso-2022-jp")}) R.testL([&] { return "long " + b + "|" + str(n); }, [&] {
		S d; while (d.size() < n) d += b == "iso-2022-jp" ? "ab\xe3\x81\x82" : "ab\xc3\xa9";
		Res r = viaString(d, "utf-8", b, strict()); R.equal(r.err, S(), "error"); R.equal(r.in, d.size(), "count"); R.equal(r.outN, r.out.size(), "count");
		S back; charset::convert(r.out, back, charset(b), charset("utf-8")); CHECK(back == d, "round trip of a long text");
		for (size_t cut : {size_t(1), size_t(3), n / 2, n - 1}) { Res f = viaFilter(d, "utf-8", b, strict(), {cut}); CHECK(f.err.empty() && f.out == r.out, "filter, cut " + str(cut) + " " + f.err); }
		R.outcome(r.out);
	});
}
