// C01: transfer encodings are lossless.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

struct Cfg { S enc; long maxLine; bool text, rfc2047; };

static shared_ptr <utility::encoder::encoder> mk(const Cfg& c) {
	auto e = makeEncoder(c.enc);
	if (c.maxLine >= 0) e->getProperties()["maxlinelength"] = size_t(c.maxLine);
	if (c.text) e->getProperties()["text"] = true;
	if (c.rfc2047) e->getProperties()["rfc2047"] = true;
	return e;
}
static S name(const Cfg& c) { return c.enc + (c.text ? "+text" : "") + (c.rfc2047 ? "+2047" : "") + "/" + std::to_string(c.maxLine); }

static void roundTrip(mc::Run& R, const Cfg& c, const S& d) {
	auto e = mk(c);
	utility::inputStreamStringAdapter in(d); CollectOut out;
	const size_t n = e->encode(in, out);
	auto e2 = mk(c);
	utility::inputStreamStringAdapter in2(out.data); CollectOut back;
	const size_t m = e2->decode(in2, back);
	R.equal(back.data, d, "decode(encode(x)), encoded form " + mc::Run::show(out.data));
	R.equal(n, out.data.size(), "value returned by encode()");
	R.equal(m, back.data.size(), "value returned by decode()");
	R.outcome(out.data);
	// the same object used again (state kept between calls)
	utility::inputStreamStringAdapter in3(d); CollectOut out3;
	e2->encode(in3, out3);
	R.equal(out3.data, out.data, "second use of one encoder object");
	// a source which gives a few bytes per read, and reports the end only after an empty read
	if (d.size() < 170 && (d.size() != 2) && (R.thorough || d.size() <= 4 || d.size() % 7 == 0)) for (size_t k = 1 ; k <= (R.thorough ? 3u : 1u) ; ++k) {
		ChunkIn s1(d, Cuts(d.size() / k, k), k != 2); CollectOut o1; mk(c)->encode(s1, o1);
		R.equal(o1.data, out.data, "encoding from a source giving " + str(k) + " bytes per read");
		ChunkIn s2(out.data, Cuts(out.data.size() / k, k), k != 2); CollectOut o2; mk(c)->decode(s2, o2);
		R.equal(o2.data, d, "decoding from a source giving " + str(k) + " bytes per read");
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C01";
	R.rule = "every byte string up to the stated length over the encoder's special characters, all 256 bytes and byte pairs, "
		"and long periodic inputs around every block and line boundary, for every encoder and line length";
	R.assumptions = {"7bit/8bit/binary are identity codecs; inputs outside their domain are still copied verbatim"};
	std::vector <Cfg> cfgs;
	for (long ml : {-1L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 11L, 12L, 16L, 30L, 74L, 75L, 76L, 78L, 998L}) {
		cfgs.push_back({"base64", ml, 0, 0});
		cfgs.push_back({"quoted-printable", ml, 0, 0});
		cfgs.push_back({"quoted-printable", ml, 1, 0});
	}
	for (long ml : {0L, 1L, 2L, 3L}) { cfgs.push_back({"quoted-printable", ml, 0, 0}); cfgs.push_back({"quoted-printable", ml, 1, 0}); }
	for (long ml : {0L, 1L, 2L, 3L}) cfgs.push_back({"base64", ml, 0, 0});
	cfgs.push_back({"quoted-printable", -1, 0, 1});
	for (long ml : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 10L, 30L, 45L, 46L, 47L, 76L, 998L}) cfgs.push_back({"uuencode", ml, 0, 0});
	for (auto n : {"7bit", "8bit", "binary"}) { cfgs.push_back({n, -1, 0, 0}); cfgs.push_back({n, 10, 0, 0}); }

	const std::vector <S> special = {"a", "=", " ", "\r", "\n", ".", "_", "\t", S(1, '\0'), "\xff", "?"};
	for (auto& c : cfgs) {
		const S nm = name(c);
		const bool small = c.maxLine < 0 || c.maxLine <= 7;
		// (1) all short strings over the special characters
		mc::strings(special, 0, small ? (R.thorough ? 5 : 3) : 2, [&](const S& s) {
			R.testL([&] { return "short " + nm + "|" + s; }, [&] { roundTrip(R, c, s); });
		});
		// (2) every byte, every pair of bytes (pairs: in blocks of one first byte)
		for (int a = 0 ; a < 256 ; ++a) R.testL([&] { return "bytes " + nm + "|" + S(1, char(a)); }, [&] {
			roundTrip(R, c, S(1, char(a)));
			if (c.maxLine < 0 || R.thorough) for (int b = 0 ; b < 256 ; ++b) { S p; p += char(a); p += char(b); roundTrip(R, c, p); }
		});
		// (3) every length across several lines, for several fillings
		const S fills[] = {"a", S("\0\xff\x80", 3), " ", "\r\n", "ab\r\ncd \r\n.", "=", "x\n", "\xc3\xa9 b", ".", "end\n", "begin 644 x\r\n"};
		for (auto& f : fills) for (size_t n = 0 ; n <= (R.thorough ? 400u : 165u) ; ++n) {
			R.testL([&] { return "length " + nm + "|" + f + "*" + str(n); }, [&] {
				S d; while (d.size() < n) d += f; d.resize(n); roundTrip(R, c, d);
			});
		}
		// (4) a special character at every offset of a line, followed by every special character
		for (size_t off = 0 ; off <= 80 ; ++off) for (auto& x : special) for (auto& y : special) {
			if (!R.thorough && off > 14 && (off < 26 || off > 32) && (off < 68 || off > 78)) continue;
			R.testL([&] { return "offset " + nm + "|" + str(off) + x + y; }, [&] {
				roundTrip(R, c, S(off, 'a') + x + y + "zz"); roundTrip(R, c, S(off, 'a') + x + y);
			});
		}
		// (5) around the internal buffer sizes
		if (c.maxLine < 0 || c.maxLine == 74 || c.maxLine == 45) {
			for (size_t base : {2730u, 5461u, 10922u, 16384u, 32768u, 65536u}) for (int k = -4 ; k <= 4 ; ++k) for (auto f : {S("a"), S("\x80"), S(" ="), S("x\r\n"), S("\0", 1)}) {
				if (!R.thorough && base > 16384 && c.maxLine >= 0) continue;
				R.testL([&] { return "buffer " + nm + "|" + f + "*" + str(base + k); }, [&] {
					S d; while (d.size() < base + k) d += f; d.resize(base + k); roundTrip(R, c, d);
				});
			}
		}
		// (6) long inputs whose encoded form reaches the end of the internal buffers in every alignment
		if (c.enc != "7bit" && c.enc != "8bit" && c.enc != "binary" && (c.maxLine == -1 || c.maxLine == 7 || c.maxLine == 74 || c.maxLine == 78)) {
			const S big[] = {"\x80", "\x80" "a", " ", "a \x80 \r\n", "=.\r\n", "abcdefg \xff" "."};
			for (auto& f : big) for (size_t k = 0 ; k <= (R.thorough ? 160u : 77u) ; ++k) {
				if (c.enc != "quoted-printable" && k % 7) continue;
				R.testL([&] { return "aligned " + nm + "|" + f + "+" + str(k); }, [&] {
					S d(k, 'a'); while (d.size() < 17000) d += f;
					utility::inputStreamStringAdapter in(d); CollectOut out; const size_t n = mk(c)->encode(in, out);
					utility::inputStreamStringAdapter in2(out.data); CollectOut back; const size_t m = mk(c)->decode(in2, back);
					CHECK(back.data == d, "decode(encode(x)) differs from x (" + str(back.data.size()) + " bytes for " + str(d.size()) + ")");
					R.equal(n, out.data.size(), "value returned by encode()"); R.equal(m, back.data.size(), "value returned by decode()");
				});
			}
		}
	}
	// uuencode: file name and mode
	for (size_t fl : {0u, 1u, 2u, 3u, 10u, 31u, 32u, 63u, 64u, 100u, 127u, 128u, 254u, 255u, 256u, 300u}) for (auto& mode : {S(), S("644"), S("0644"), S("7"), S("100755")}) for (auto& fc : {S("f"), S("a b.c"), S("\xc3\xa9")}) for (auto& d : {S(), S("x"), S("end\n"), S(100, 'q'), S("\0\xff\x80", 3)}) {
		if (fl == 0 && fc != "f") continue;
		R.testL([&] { return "uu name " + str(fl) + fc + "|" + mode + "|" + d; }, [&] {
			S fn; while (fn.size() < fl) fn += fc; fn.resize(fl); if (fl && (fn.back() == ' ' || fn.back() == '\xc3')) fn.back() = 'z';
			auto e = makeEncoder("uuencode"); if (fl) e->getProperties()["filename"] = fn; if (!mode.empty()) e->getProperties()["mode"] = mode;
			utility::inputStreamStringAdapter in(d); CollectOut out; const size_t n = e->encode(in, out);
			R.equal(n, out.data.size(), "value returned by encode() with a file name");
			CHECK(out.data.size() <= e->getEncodedSize(d.size()), "announced size " + str(e->getEncodedSize(d.size())) + " is less than the " + str(out.data.size()) + " bytes produced");
			auto e2 = makeEncoder("uuencode"); utility::inputStreamStringAdapter in2(out.data); CollectOut back; const size_t m = e2->decode(in2, back);
			R.equal(back.data, d, "decode(encode(x)) with a file name"); R.equal(m, d.size(), "value returned by decode()");
			if (fl) { const utility::encoder::encoder& e3 = *e2; R.equal(e3.getResults().getProperty <string>("filename"), fn, "file name read back"); R.equal(e3.getResults().getProperty <string>("mode"), mode.empty() ? S("644") : mode, "mode read back"); }
		});
	}
	R.count("configurations", R.shard == 0 ? cfgs.size() : 0);
}
