// C29: MD5 and SHA-1 digests depend only on the bytes and equal the standards' values.
// Oracle: independent implementations written from RFC 1321 / RFC 3174, themselves checked
// against the published test vectors.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
#include <cmath>
using namespace vmime;

static S refPad(const S& m, bool be) {
	S p = m; p += char(0x80); while (p.size() % 64 != 56) p += '\0';
	uint64_t bits = uint64_t(m.size()) * 8; for (int i = 0 ; i < 8 ; ++i) p += char((bits >> (be ? 56 - 8 * i : 8 * i)) & 255);
	return p;
}
static uint32_t rl(uint32_t x, int n) { return n % 32 ? (x << (n % 32)) | (x >> (32 - n % 32)) : x; }
static S refMd5(const S& m) {
	static uint32_t K[64]; static bool init = false;
	if (!init) { for (int i = 0 ; i < 64 ; ++i) K[i] = uint32_t(std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0)); init = true; }
	static const int s[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; const S p = refPad(m, false);
	for (size_t o = 0 ; o < p.size() ; o += 64) {
		uint32_t w[16]; for (int i = 0 ; i < 16 ; ++i) { w[i] = 0; for (int k = 3 ; k >= 0 ; --k) w[i] = w[i] << 8 | (unsigned char) p[o + 4 * i + k]; }
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for (int i = 0 ; i < 64 ; ++i) {
			uint32_t f; int g;
			switch (i / 16) { case 0: f = (b & c) | (~b & d); g = i; break; case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
				case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~d); g = (7 * i) % 16; }
			uint32_t t = d; d = c; c = b; b = b + rl(a + f + K[i] + w[g], s[i / 16][i % 4]); a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	S r; for (int i = 0 ; i < 16 ; ++i) r += char(h[i / 4] >> (8 * (i % 4))); return r;
}
static S refSha1(const S& m) {
	uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; const S p = refPad(m, true);
	for (size_t o = 0 ; o < p.size() ; o += 64) {
		uint32_t w[80]; for (int i = 0 ; i < 16 ; ++i) { w[i] = 0; for (int k = 0 ; k < 4 ; ++k) w[i] = w[i] << 8 | (unsigned char) p[o + 4 * i + k]; }
		for (int i = 16 ; i < 80 ; ++i) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0 ; i < 80 ; ++i) {
			uint32_t f, k;
			if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
			else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc; else f = b ^ c ^ d, k = 0xca62c1d6;
			uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	S r; for (int i = 0 ; i < 20 ; ++i) r += char(h[i / 4] >> (24 - 8 * (i % 4))); return r;
}
static S hex(const S& b) { S h; for (unsigned char c : b) { h += "0123456789abcdef"[c >> 4]; h += "0123456789abcdef"[c & 15]; } return h; }

typedef vmime::shared_ptr <security::digest::messageDigest> D;
static D mk(const S& alg) { return security::digest::messageDigestFactory::getInstance()->create(alg); }
static S digest(const D& d) { return S((const char*) d->getDigest(), d->getDigestLength()); }
// hands over exactly these bytes in one of the forms update() has
static void feed(const D& d, const S& b, int form) {
	std::vector <byte_t> v(b.begin(), b.end()); v.reserve(1);
	switch (form) {
		case 0: d->update(v.data(), v.size()); break;
		case 1: d->update(b); break;
		case 2: { std::vector <byte_t> w(3, 0xee); w.insert(w.end(), v.begin(), v.end()); d->update(w.data(), 3, v.size()); break; }
		case 3: for (byte_t c : v) d->update(c); break;
	}
}
static void finish(const D& d, const S& b, int form) {
	std::vector <byte_t> v(b.begin(), b.end()); v.reserve(1);
	switch (form) {
		case 0: d->finalize(v.data(), v.size()); break;
		case 1: d->finalize(b); break;
		case 2: { std::vector <byte_t> w(5, 0xdd); w.insert(w.end(), v.begin(), v.end()); d->finalize(w.data(), 5, v.size()); break; }
		case 3: feed(d, b, 0); d->finalize(); break;
	}
}
static S content(size_t n, int kind) {
	S s(n, 0); uint32_t x = 12345 + kind;
	for (size_t i = 0 ; i < n ; ++i) { x = x * 1664525 + 1013904223; s[i] = kind == 0 ? char(x >> 24) : kind == 1 ? char(0) : kind == 2 ? char(0xff) : kind == 3 ? char(0x80) : char('a' + i % 26); }
	return s;
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C29";
	R.rule = "every length up to several blocks, every split into two and three updates around block boundaries, every form of update/finalize, every history of feeding, finishing and resetting up to a depth: digest equals an independent implementation of RFC 1321 / RFC 3174";
	R.assumptions = {"messages shorter than 2^32 bytes", "update after finalize without reset is outside the interface"};
	R.test("oracle|vectors", [&] {
		CHECK(hex(refMd5("")) == "d41d8cd98f00b204e9800998ecf8427e" && hex(refMd5("message digest")) == "f96b697d7cb7938d525a2f31aaf161d0", "reference MD5");
		CHECK(hex(refMd5("12345678901234567890123456789012345678901234567890123456789012345678901234567890")) == "57edf4a22be3c955ac49da2e2107b67a", "reference MD5");
		CHECK(hex(refSha1("abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d" && hex(refSha1("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")) == "84983e441c3bd26ebaae4aa1f95129e5e54670f1", "reference SHA-1");
		CHECK(hex(refSha1("")) == "da39a3ee5e6b4b0d3255bfef95601890afd80709", "reference SHA-1");
	});
	for (const S alg : {"md5", "sha1"}) {
		auto ref = [alg](const S& m) { return alg == "md5" ? refMd5(m) : refSha1(m); };
		auto verify = [&](const D& d, const S& m, const S& what) {
			const S w = ref(m);
			CHECK(d->getDigestLength() == w.size(), "digest length");
			CHECK(digest(d) == w, what + ": digest of " + str(m.size()) + " bytes is " + hex(digest(d)) + ", expected " + hex(w));
			CHECK(d->getHexDigest() == hex(w), "hex digest " + d->getHexDigest());
			CHECK(digest(d) == w && d->getHexDigest() == hex(w), "digest changes when asked for again");
		};
		const size_t N = R.thorough ? 400 : 200;
		for (size_t n = 0 ; n <= N ; ++n) for (int kind = 0 ; kind < 5 ; ++kind) R.testL([&] { return alg + "-length|" + str(n) + " k" + str(kind); }, [&] {
			const S m = content(n, kind);
			for (int f = 0 ; f < 4 ; ++f) {
				D d = mk(alg); feed(d, m, f); d->finalize(); verify(d, m, "update form " + str(f)); R.outcome(digest(d));
				D e = mk(alg); finish(e, m, f); verify(e, m, "finalize form " + str(f));
			}
		});
		// all two-way splits of every length, in all forms
		for (size_t n = 0 ; n <= (R.thorough ? 200u : 136u) ; ++n) R.testL([&] { return alg + "-split2|" + str(n); }, [&] {
			const S m = content(n, 0);
			for (size_t a = 0 ; a <= n ; ++a) {
				D d = mk(alg); feed(d, m.substr(0, a), a % 4); feed(d, m.substr(a), (a / 4) % 4); d->finalize(); verify(d, m, "split at " + str(a));
				D e = mk(alg); feed(e, m.substr(0, a), 0); finish(e, m.substr(a), a % 4); verify(e, m, "split with finalize at " + str(a)); R.trace();
			}
		});
		// three-way splits with cut points around block boundaries
		std::vector <size_t> near; for (size_t b : {0, 64, 128, 192}) for (int k = (R.thorough ? -10 : -3) ; k <= (R.thorough ? 10 : 3) ; ++k) if (int(b) + k >= 0) near.push_back(b + k);
		for (size_t p : {55, 56, 57, 119, 120, 121}) near.push_back(p);
		std::sort(near.begin(), near.end()); near.erase(std::unique(near.begin(), near.end()), near.end());
		for (size_t n : near) R.testL([&] { return alg + "-split3|" + str(n); }, [&] {
			const S m = content(n, 4);
			for (size_t a : near) for (size_t b : near) if (a <= b && b <= n) { D d = mk(alg); feed(d, m.substr(0, a), 0); feed(d, m.substr(a, b - a), 0); feed(d, m.substr(b), 0); d->finalize(); verify(d, m, "split " + str(a) + "," + str(b)); R.trace(); }
		});
		// every composition of a few short messages
		for (size_t n : {size_t(3), size_t(R.thorough ? 12 : 8)}) mc::compositions(n, [&](const std::vector <size_t>& v) { R.testL([&] { return alg + "-composition|" + mc::show(v); }, [&] {
			for (size_t pre : {0, 57, 60, 120}) { const S m = content(pre + n, 0); D d = mk(alg); feed(d, m.substr(0, pre), 0); size_t p = pre; for (size_t k : v) { feed(d, m.substr(p, k), k % 4); p += k; } d->finalize(); verify(d, m, "pieces"); }
		}); });
		// histories: feed / finish / reset / other object interleaved
		const std::vector <S> ops = {"feed0", "feed1", "feed55", "feed64", "feed70", "reset", "finish", "finish9", "other"};
		const size_t depth = R.thorough ? 6 : 4;
		for (size_t n = 1 ; n <= depth ; ++n) mc::tuples(ops.size(), n, [&](const std::vector <size_t>& ix) {
			// update after finalize is only allowed after a reset
			bool fin = false; for (size_t i : ix) { if (ops[i] == "reset") fin = false; else if (ops[i] != "other" && fin) return; else if (ops[i].substr(0, 6) == "finish") fin = true; }
			R.testL([&] { S l; for (size_t i : ix) l += ops[i] + " "; return alg + "-history|" + l; }, [&] {
				D d = mk(alg), o = mk(alg == "md5" ? "sha1" : "md5"), o2 = mk(alg); S m, om; bool done = false; S w;
				for (size_t i : ix) {
					const S& op = ops[i]; R.transition();
					if (op == "reset") { d->reset(); m.clear(); done = false; }
					else if (op == "other") { const S x = content(64, 2); o->update(x); o2->update(x); om += x; }
					else if (op[1] == 'e') { const S x = content(atoi(op.c_str() + 4), 0); feed(d, x, i % 4); m += x; }
					else { const S x = content(op == "finish9" ? 9 : 0, 0); if (x.empty()) d->finalize(); else finish(d, x, 1); m += x; done = true; w = ref(m); }
					if (done) verify(d, m, "after " + op);
				}
				if (!done) { d->finalize(); verify(d, m, "at the end"); }
				o2->finalize(); verify(o2, om, "second object");
				d->reset(); d->update("abc"); d->finalize(); verify(d, "abc", "reused object");
				R.state(alg + ops[ix.back()] + str(m.size())); R.outcome(digest(d));
			});
		});
	}
	R.test("factory|names", [&] {
		auto f = security::digest::messageDigestFactory::getInstance();
		for (const S n : {"md5", "MD5", "sha1", "SHA1"}) { D d = f->create(n); d->finalize("abc"); CHECK(d->getHexDigest() == hex(n[0] == 'm' || n[0] == 'M' ? refMd5("abc") : refSha1("abc")), "factory " + n); }
		bool t = false; try { f->create("nothing"); } catch (exceptions::no_digest_algorithm_available&) { t = true; } CHECK(t, "unknown algorithm");
	});
}
