// C02: encoded output conforms to its transfer encoding; announced sizes; automatic choice.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

struct Cfg { S enc; long maxLine; bool text, rfc2047; };
static S name(const Cfg& c) { return c.enc + (c.text ? "+text" : "") + (c.rfc2047 ? "+2047" : "") + "/" + std::to_string(c.maxLine); }
static shared_ptr <utility::encoder::encoder> mk(const Cfg& c) {
	auto e = makeEncoder(c.enc);
	if (c.maxLine >= 0) e->getProperties()["maxlinelength"] = size_t(c.maxLine);
	if (c.text) e->getProperties()["text"] = true;
	if (c.rfc2047) e->getProperties()["rfc2047"] = true;
	return e;
}

static std::vector <S> linesOf(const S& o, mc::Run& R) {       // split at CRLF; bare CR/LF is an error
	std::vector <S> v; S cur;
	for (size_t i = 0 ; i < o.size() ; ++i) {
		if (o[i] == '\r' && i + 1 < o.size() && o[i + 1] == '\n') { v.push_back(cur); cur.clear(); ++i; continue; }
		CHECK(o[i] != '\r' && o[i] != '\n', "bare CR or LF in output " + R.show(o));
		cur += o[i];
	}
	v.push_back(cur); return v;
}
static bool onlyCRLF(const S& d) {
	for (size_t i = 0 ; i < d.size() ; ++i) {
		if (d[i] == '\r' && !(i + 1 < d.size() && d[i + 1] == '\n')) return false;
		if (d[i] == '\n' && !(i && d[i - 1] == '\r')) return false;
	}
	return true;
}

static void conform(mc::Run& R, const Cfg& c, const S& d) {
	auto e = mk(c);
	utility::inputStreamStringAdapter in(d); CollectOut out;
	e->encode(in, out);
	const S& o = out.data;
	R.outcome(o);
	CHECK(o.size() <= e->getEncodedSize(d.size()), "output of " + str(o.size()) + " bytes, announced " + str(e->getEncodedSize(d.size())));
	CHECK(d.size() <= e->getDecodedSize(o.size()), "announced decoded size " + str(e->getDecodedSize(o.size())) + " for " + str(d.size()) + " bytes");
	const bool cut = c.maxLine >= 0;
	if (c.enc == "base64") {
		S all;
		for (auto& l : linesOf(o, R)) {
			if (cut) CHECK(l.size() <= std::max <size_t>(4, std::min <size_t>(c.maxLine, 76)), "line too long: " + R.show(l));
			all += l;
		}
		CHECK(all.size() == (d.size() + 2) / 3 * 4, "not the right number of base64 characters: " + R.show(o));
		const size_t pad = d.size() % 3 ? 3 - d.size() % 3 : 0;
		for (size_t i = 0 ; i < all.size() ; ++i) {
			const bool isPad = i >= all.size() - pad;
			CHECK(isPad ? all[i] == '=' : (isalnum((unsigned char) all[i]) || all[i] == '+' || all[i] == '/'), "bad base64 character in " + R.show(o));
		}
	} else if (c.enc == "quoted-printable" && c.rfc2047) {
		for (size_t i = 0 ; i < o.size() ; ++i) {
			if (o[i] == '=') {
				CHECK(i + 2 < o.size() && isxdigit((unsigned char) o[i + 1]) && isxdigit((unsigned char) o[i + 2])
					&& !islower((unsigned char) o[i + 1]) && !islower((unsigned char) o[i + 2]), "bad escape in " + R.show(o));
				i += 2;
			} else CHECK(isalnum((unsigned char) o[i]) || strchr("!*+-/_", o[i]), "character not allowed in an encoded word: " + R.show(o));
		}
	} else if (c.enc == "quoted-printable") {
		const bool strict = !c.text || onlyCRLF(d);
		std::vector <S> ls;
		if (strict) ls = linesOf(o, R);
		else { S t; for (char x : o) { if (x == '\n' || x == '\r') { ls.push_back(t); t.clear(); } else t += x; } ls.push_back(t); }
		for (size_t k = 0 ; k < ls.size() ; ++k) {
			const S& l = ls[k];
			if (cut && c.maxLine >= 5 && strict) CHECK(l.size() <= std::max <size_t>(4, std::min <size_t>(c.maxLine, 74) + 2), "line of " + str(l.size()) + " characters: " + R.show(l));
			for (size_t i = 0 ; i < l.size() ; ++i) {
				if (l[i] == '=') {
					if (i + 1 == l.size()) { CHECK(k + 1 < ls.size(), "output ends with a dangling '=': " + R.show(o)); continue; }
					CHECK(i + 2 < l.size() && isxdigit((unsigned char) l[i + 1]) && isxdigit((unsigned char) l[i + 2])
						&& !islower((unsigned char) l[i + 1]) && !islower((unsigned char) l[i + 2]), "bad escape in " + R.show(l));
					i += 2;
				} else CHECK(l[i] >= 32 && l[i] <= 126, "unencoded byte in " + R.show(l));
			}
			CHECK(l.empty() || (l.back() != ' ' && l.back() != '\t'), "trailing white space in line " + R.show(l));
		}
	} else if (c.enc == "uuencode") {
		auto ls = linesOf(o, R);
		CHECK(ls.size() >= 3 && ls[0].substr(0, 6) == "begin " && ls[ls.size() - 2] == "end" && ls.back().empty(), "bad framing " + R.show(o));
		size_t tot = 0;
		const size_t per = std::max <size_t>(2, std::min <size_t>(cut ? c.maxLine : 46, 46)) - 1;
		for (size_t k = 1 ; k + 2 < ls.size() ; ++k) {
			const S& l = ls[k];
			for (char x : l) CHECK(x >= ' ' && x <= '`', "byte outside the uuencode alphabet in " + R.show(l));
			CHECK(!l.empty(), "empty line");
			const size_t n = (l[0] - ' ') & 63; tot += n;
			CHECK(n <= per, "line carries " + str(n) + " bytes, limit " + str(per));
			CHECK(l.size() == 1 + (n + 2) / 3 * 4, "line " + R.show(l) + " is inconsistent with its length byte");
		}
		R.equal(tot, d.size(), "sum of the line lengths");
	} else {
		R.equal(o, d, "identity encoding");
	}
}

static void checkDecide(mc::Run& R, const S& d, const S& cs, bool useCs, encoding::EncodingUsage u, const S& held = "") {
	shared_ptr <contentHandler> ch;
	if (held.empty()) ch = make_shared <stringContentHandler>(d);
	else {    // the content is held already encoded
		S e; utility::inputStreamStringAdapter is(d); utility::outputStreamStringAdapter os(e);
		encoding(held).getEncoder()->encode(is, os); ch = make_shared <stringContentHandler>(e, encoding(held));
	}
	const encoding e = useCs ? encoding::decide(ch, charset(cs), u) : encoding::decide(ch, u);
	const S n = e.getName();
	R.outcome(n + str(d.size()));
	if (n == "7bit" || n == "8bit") {
		size_t len = 0;
		for (size_t i = 0 ; i < d.size() ; ++i) {
			unsigned char x = d[i];
			CHECK(x != 0, n + " chosen for content with a NUL byte");
			if (n == "7bit") CHECK(x < 128, "7bit chosen for content with 8-bit bytes");
			if (x == '\n') len = 0; else ++len;
			CHECK(len <= 998, n + " chosen for content with a line of more than 998 characters");
		}
	} else CHECK(n == "quoted-printable" || n == "base64" || n == "uuencode", "unexpected choice " + n);
	// what is generated with the choice can be decoded
	S gend; { utility::outputStreamStringAdapter os(gend); ch->generate(os, e, 78); }
	if (n != "7bit" && n != "8bit") for (char x : gend) CHECK((unsigned char) x < 128 && x != 0, "8-bit or NUL byte in generated content " + R.show(gend));
	S back; { utility::inputStreamStringAdapter is(gend); utility::outputStreamStringAdapter os(back); e.getEncoder()->decode(is, os); }
	R.equal(back, d, "content after generating with the chosen encoding (" + n + ") and decoding");
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C02";
	R.rule = "as C01 for the encoders; for the automatic choice: every short content over its special characters, every line length around the limits, "
		"every ratio of 8-bit bytes";
	R.assumptions = {"in text mode the line structure is checked for inputs whose line breaks are CRLF", "quoted-printable: an escape may exceed the configured maximum by two bytes (pinned by the existing tests)"};
	std::vector <Cfg> cfgs;
	for (long ml : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 10L, 11L, 12L, 13L, 14L, 15L, 16L, 30L, 72L, 73L, 74L, 75L, 76L, 77L, 78L, 998L}) {
		cfgs.push_back({"base64", ml, 0, 0});
		cfgs.push_back({"quoted-printable", ml, 0, 0});
		cfgs.push_back({"quoted-printable", ml, 1, 0});
	}
	cfgs.push_back({"quoted-printable", -1, 0, 1});
	for (long ml : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 10L, 30L, 45L, 46L, 47L, 76L, 998L}) cfgs.push_back({"uuencode", ml, 0, 0});
	for (auto n : {"7bit", "8bit", "binary"}) cfgs.push_back({n, -1, 0, 0});
	const std::vector <S> special = {"a", "=", " ", "\r", "\n", "\r\n", ".", "\t", S(1, '\0'), "\xff", "?", "_"};
	for (auto& c : cfgs) {
		const S nm = name(c);
		const bool small = c.maxLine < 0 || c.maxLine <= 6;
		mc::strings(special, 0, small ? (R.thorough ? 5 : 3) : 2, [&](const S& s) {
			R.testL([&] { return "short " + nm + "|" + s; }, [&] { conform(R, c, s); });
		});
		for (int a = 0 ; a < 256 ; ++a) R.testL([&] { return "bytes " + nm + "|" + S(1, char(a)); }, [&] {
			S s(1, char(a)); conform(R, c, s);
			if (c.maxLine < 0 || R.thorough) for (int b = 0 ; b < 256 ; ++b) conform(R, c, s + char(b));
		});
		const S fills[] = {"a", S("\0\xff\x80", 3), " ", "\r\n", "ab\r\ncd \r\n.", "=", "x\n", "\xc3\xa9 b", ".", "a\r\n\x80\x81"};
		for (auto& f : fills) for (size_t n = 0 ; n <= (R.thorough ? 400u : 165u) ; ++n)
			R.testL([&] { return "length " + nm + "|" + f + "*" + str(n); }, [&] {
				S d; while (d.size() < n) d += f; d.resize(n); conform(R, c, d);
			});
		for (size_t off = 0 ; off <= 80 ; ++off) for (auto& x : special) for (auto& y : special) {
			if (!R.thorough && off > 14 && (off < 26 || off > 32) && (off < 66 || off > 79)) continue;
			R.testL([&] { return "offset " + nm + "|" + str(off) + x + y; }, [&] {
				conform(R, c, S(off, 'a') + x + y + "zz"); conform(R, c, S(off, 'a') + x + y);
			});
		}
		if (c.maxLine < 0 || c.maxLine == 74)
			for (size_t base : {2730u, 5461u, 10922u, 16384u, 65536u}) for (int k = -4 ; k <= 4 ; ++k) for (auto f : {S("a"), S("\x80"), S(" ="), S("x\r\n")}) {
				R.testL([&] { return "buffer " + nm + "|" + f + "*" + str(base + k); }, [&] {
					S d; while (d.size() < base + k) d += f; d.resize(base + k); conform(R, c, d);
				});
			}
	}
	// ---- automatic choice
	const encoding::EncodingUsage us[] = {encoding::USAGE_TEXT, encoding::USAGE_BINARY_DATA, encoding::USAGE_UNKNOWN};
	const std::vector <S> css = {"us-ascii", "iso-8859-1", "utf-8", "iso-2022-jp", "x-unknown", "utf-7", "ISO8859-15"};
	auto dec = [&](const S& lab, const S& d) {
		for (auto u : us) {
			R.testL([&] { return "decide " + str(u) + "|" + lab; }, [&] { checkDecide(R, d, "", false, u); });
			for (auto& cs : css) R.testL([&] { return "decide " + cs + str(u) + "|" + lab; }, [&] { checkDecide(R, d, cs, true, u); });
		}
	};
	const std::vector <S> dsp = {"a", "\r\n", "\n", "\r", ".", S(1, '\0'), "\x80", "\xff", " ", "\x7f"};
	mc::strings(dsp, 0, R.thorough ? 5 : 3, [&](const S& s) { dec(s, s); });
	for (int a = 0 ; a < 256 ; ++a) dec(S(1, char(a)), S(1, char(a)));
	for (size_t n : {76u, 77u, 78u, 79u, 80u, 997u, 998u, 999u, 1000u, 2000u}) for (auto& x : dsp) {
		dec("line" + str(n) + x, S(n, 'b') + x); dec("2line" + str(n) + x, "ab\r\n" + S(n, 'b') + x + "\r\ncd");
		dec("line" + str(n) + "x" + x, x + S(n, 'b')); dec("line3" + str(n) + x, S(n / 2, 'b') + x + S(n - n / 2, 'c'));
	}
	for (size_t n = 1 ; n <= 30 ; ++n) for (size_t k = 0 ; k <= n ; ++k) dec("ratio" + str(k) + "/" + str(n), S(n - k, 'a') + S(k, '\x90'));
	for (size_t n : {32766u, 32767u, 32768u, 40000u}) { S d; while (d.size() < n) d += "line of text\r\n"; d.resize(n); dec("big" + str(n), d); dec("big8" + str(n), d + "\xe9"); }
	for (int a = 0 ; a < 256 ; ++a) { dec("many" + str(a), S(9, 'a') + S(6, char(a)) + "a"); dec("few" + str(a), S(30, 'a') + char(a) + S(30, 'a')); }
	for (auto h : {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"}) for (auto& d : {S("text\r\n"), S("caf\xc3\xa9"), S("a\0b", 3), S(1200, 'l'), S(40, '\xe9'), S("a\r\n.b\r\n"), S("lone\rcr\nlf"), S()}) {
		if (S(h) == "7bit" && (d.find_first_of("\xc3\xe9") != S::npos || d.find('\0') != S::npos)) continue;      // would not be 7bit
		for (auto u : us) {
			R.testL([&] { return S("held ") + h + str(u) + "|" + d.substr(0, 20); }, [&] { checkDecide(R, d, "", false, u, h); });
			for (auto& cs : css) R.testL([&] { return S("held ") + h + cs + str(u) + "|" + d.substr(0, 20); }, [&] { checkDecide(R, d, cs, true, u, h); });
		}
	}
	for (auto sep : {"\r", "\x0b", "\x0c", "\x85", "\t", "\0x"}) for (int n : {20, 40, 70}) { S d; while (d.size() < 1100) d += S(n, 's') + sep; dec(S("sep") + str(int(sep[0])) + "/" + str(n), d); }
	for (int p = 6 ; p <= 14 ; ++p) for (int k = -2 ; k <= 2 ; ++k) for (auto& x : {S("\xe9"), S(1, '\0'), S("\r\n.\r\n"), S(990, 'y')}) {
		S d; while (d.size() < size_t((1 << p) + k)) d += "line of text\r\n"; d.resize((1 << p) + k); d += x;
		dec("pow" + str(p) + str(k) + x.substr(0, 4), d);
	}
	// one thing 7bit cannot carry, anywhere in a longer content
	for (size_t n : {600u, 5000u, 20000u, 32767u}) for (auto& x : {S("\xe9"), S(1, '\0'), S(999, 'y'), S("\r\n."), S(500, 'y') + "\r" + S(500, 'y')}) for (int q = 0 ; q <= 8 ; ++q) {
		S d; while (d.size() < n - 2 - x.size() && d.size() < n) d += "line of text\r\n";
		const size_t at = d.size() * q / 8 / 14 * 14; d.insert(at, x);
		dec("in" + str(n) + x.substr(0, 2) + str(x.size()) + "@" + str(q), d);
	}
}
