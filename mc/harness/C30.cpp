// C30: certificate verification accepts only what it should.
#include "mc_main.hpp"
#include "certs.hpp"
#include <gnutls/crypto.h>
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/X509Certificate.hpp"
#include "vmime/security/cert/certificateChain.hpp"
#include "vmime/security/cert/certificateException.hpp"
#include "vmime/security/cert/certificateExpiredException.hpp"
#include "vmime/security/cert/certificateNotYetValidException.hpp"
#include "vmime/security/cert/certificateNotTrustedException.hpp"
#include "vmime/security/cert/serverIdentityException.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
using namespace vmime; using namespace vmime::security::cert; using certs::Cert; using certs::NOW; using certs::DAY;

static time_t theTime = 0;
extern "C" time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); const time_t r = theTime ? theTime : ts.tv_sec; if (t) *t = r; return r; }
static time_t gnutlsTime(time_t* t) { if (t) *t = theTime; return theTime; }

typedef shared_ptr <X509Certificate> P;
static P load(const S& der) { P p = X509Certificate::import((const byte_t*) der.data(), der.size()); CHECK(p, "certificate not imported"); return p; }
static P get(const Cert& c) { static std::map <S, P> m; P& p = m[c.der]; if (!p) p = load(c.der); return p; }

enum Verdict { ACCEPT, REJECT, EITHER };
struct Trust { std::vector <const Cert*> roots, leaves; S name; };
static bool lower1(char a, char b) { return tolower(a) == tolower(b); }
static bool nameEq(const S& a, const S& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), lower1); }
static bool hostOk(const Cert& c, const S& host) {
	std::vector <S> n = c.dns; if (n.empty() && c.ip.empty()) n.push_back(c.cn.empty() ? c.subject : c.cn);
	for (auto& d : n) { if (nameEq(d, host)) return true; const size_t p = host.find('.'); if (d.compare(0, 2, "*.") == 0 && p != S::npos && p > 0 && nameEq(d.substr(1), host.substr(p))) return true; }
	return false;
}
// is this chain, exactly as it is, acceptable?
static bool sound(const std::vector <const Cert*>& c, size_t n, const Trust& t, time_t at) {
	for (size_t i = 0 ; i + 1 < n ; ++i) if (!certs::issued(*c[i], *c[i + 1])) return false;
	for (size_t i = 0 ; i < n ; ++i) if (!certs::validAt(*c[i], at)) return false;
	for (auto r : t.roots) if (c[n - 1]->der == r->der || certs::issued(*c[n - 1], *r)) return true;
	for (auto l : t.leaves) if (c[0]->der == l->der) return true;
	return false;
}
static Verdict expected(const std::vector <const Cert*>& c, const Trust& t, const S& host, time_t at) {
	if (c.empty() || !hostOk(*c[0], host)) return REJECT;
	if (sound(c, c.size(), t, at)) return ACCEPT;
	for (size_t n = 1 ; n < c.size() ; ++n) if (sound(c, n, t, at)) return EITHER;   // followed by certificates that do not belong to it
	return REJECT;
}
static void run(mc::Run& R, const std::vector <const Cert*>& c, const Trust& t, const S& host, time_t at) {
	theTime = at; R.transition(); const Verdict v = expected(c, t, host, at); S what;
	std::vector <shared_ptr <certificate> > cc; for (auto x : c) cc.push_back(get(*x));
	defaultCertificateVerifier ver; std::vector <P> ro, le; for (auto x : t.roots) ro.push_back(get(*x)); for (auto x : t.leaves) le.push_back(get(*x)); ver.setX509RootCAs(ro); ver.setX509TrustedCerts(le);
	S d; for (auto x : c) d += (d.empty() ? "" : ",") + x->name;
	const S ctx = "chain [" + d + "], " + t.name + ", host " + host + (at == NOW ? S() : ", at " + str(at - NOW));
	bool ok = false;
	try { ver.verify(make_shared <certificateChain>(cc), host); ok = true; }
	catch (certificateException& e) { what = typeid(e).name(); CHECK(v != ACCEPT, ctx + ": rejected (" + e.what() + ")"); }
	catch (vmime::exception& e) { what = e.name(); CHECK(v != ACCEPT, ctx + ": rejected (" + S(e.what()) + ")"); }
	CHECK(!ok || v != REJECT, ctx + ": accepted");
	R.outcome(what);
	// the reason, where there is only one
	if (!ok && v == REJECT && !c.empty()) {
		size_t bad = 0, where = 0; bool early = false; for (size_t i = 0 ; i < c.size() ; ++i) if (!certs::validAt(*c[i], at)) { ++bad; where = i; early = at < c[i]->from; }
		bool links = true; for (size_t i = 0 ; i + 1 < c.size() ; ++i) links = links && certs::issued(*c[i], *c[i + 1]);
		const bool host1 = hostOk(*c[0], host);
		std::vector <const Cert*> one = c; 
		if (links && host1 && bad == 1) CHECK(what == typeid(certificateExpiredException).name() || what == typeid(certificateNotYetValidException).name(), ctx + ": wrong reason " + what);
		if (links && host1 && bad == 1) CHECK((what == typeid(certificateNotYetValidException).name()) == early, ctx + ": wrong reason " + what);
		if (links && !bad && host1) CHECK(what == typeid(certificateNotTrustedException).name(), ctx + ": wrong reason " + what);
		if (!host1 && sound(c, c.size(), t, at)) CHECK(what == typeid(serverIdentityException).name(), ctx + ": wrong reason " + what);
		(void) where;
	}
}

void mc_main(mc::Run& R) {
	initPlatform(); R.property = "C30"; const bool T = R.thorough; gnutls_global_set_time_function(gnutlsTime); theTime = NOW;
	R.rule = "Certificates are generated so that names, signing keys, CA status, validity and host names are known by construction: genuine ones, and ones with a wrong key, forged issuer name, expired, not yet valid, not a CA, self-signed, issued by a stranger with the trusted authority's name. All chains over them up to a length, with all trust settings and host names, are verified by the default verifier at simulated times, and the verdict is compared with the one that follows from the construction; likewise all host names over a label alphabet against all name patterns, and all times around both ends of each validity period in several time zones. Only the host names of the first certificate count; a certificate that differs from a trusted one in one respect is not trusted. Certificates, serial numbers and fingerprints survive DER and PEM.";
	R.assumptions = {"Ed25519 signatures of GnuTLS cannot be forged", "chains that are valid only if trailing certificates are ignored may be accepted or not"};
	enum { KR = 1, KI, KL, KX, KR2, KI2, KM };
	const time_t a = NOW - 100 * DAY, z = NOW + 100 * DAY; const std::vector <S> H = {"mail.example.com"};
	std::vector <Cert> all; auto add = [&](const char* n, const char* subj, const char* iss, int k, int s, bool ca, time_t from, time_t to, bool aki = true) { all.push_back(certs::make({n, subj, iss, k, s, ca, from, to, H, "", {}, aki})); };
	add("root", "Root", "Root", KR, KR, true, a, z);
	add("inter", "Inter", "Root", KI, KR, true, a, z);
	add("leaf", "Leaf", "Inter", KL, KI, false, a, z);
	add("leaf-by-root", "Leaf", "Root", KL, KR, false, a, z);
	add("expired-leaf", "Leaf", "Inter", KL, KI, false, a, NOW - DAY);
	add("future-leaf", "Leaf", "Inter", KL, KI, false, NOW + DAY, z);
	add("expired-inter", "Inter", "Root", KI, KR, true, a, NOW - DAY);
	add("forged-leaf", "Leaf", "Inter", KX, KX, false, a, z, false);            // names the intermediate as issuer, signed by somebody else
	add("forged-leaf-by-root", "Leaf", "Root", KX, KX, false, a, z, false);
	add("forged-inter", "Inter", "Root", KX, KX, true, a, z, false);
	add("leaf-by-forged", "Leaf", "Inter", KM, KX, false, a, z, false);         // really signed by the forged intermediate
	add("stranger-root", "Root", "Root", KX, KX, true, a, z, false);             // a self-made authority with the trusted one's name
	add("root2", "Other", "Other", KR2, KR2, true, a, z);
	add("leaf2", "Leaf", "Other", KM, KR2, false, a, z);
	add("self", "Self", "Self", KM, KM, false, a, z);
	add("leaf-by-leaf", "Sub", "Leaf", KM, KL, false, a, z);                     // issued by a certificate that is not an authority
	auto C = [&](const S& n) -> const Cert* { for (auto& x : all) if (x.name == n) return &x; CHECK(false, "no " + n); return NULL; };
	std::vector <Trust> trusts = {{{}, {}, "nothing trusted"}, {{C("root")}, {}, "root trusted"}, {{C("root2"), C("root")}, {}, "two roots trusted"}, {{C("root2")}, {}, "other root trusted"}, {{C("inter")}, {}, "intermediate trusted"}, {{}, {C("leaf")}, "leaf trusted"}, {{}, {C("self"), C("forged-leaf")}, "self-signed leaves trusted"}, {{C("root")}, {C("expired-leaf")}, "root and expired leaf trusted"}, {{}, {C("root")}, "root as trusted leaf"}, {{}, {C("inter"), C("leaf-by-leaf")}, "intermediate as trusted leaf"}};
	for (size_t len = 0 ; len <= (T ? 4 : 3) ; ++len) {
		if (len < 2) { std::vector <std::vector <const Cert*> > v; if (len == 0) v.push_back({}); else for (auto& x : all) v.push_back({&x}); for (auto& c : v) R.testL([&] { return "chain of " + str(len) + "|" + (c.empty() ? S() : c[0]->name); }, [&] { for (auto& t : trusts) for (const char* h : {"mail.example.com", "other.example.com", ""}) run(R, c, t, h, NOW); }); continue; }
		for (auto& x : all) for (auto& y : all) R.testL([&] { return "chains of " + str(len) + "|" + x.name + "," + y.name; }, [&] {
			std::vector <const Cert*> c = {&x, &y};
			std::function <void()> rec = [&] { if (c.size() == len) { for (size_t k = 0 ; k < trusts.size() ; ++k) { if (len > 2 && !T && k > 6) break; if (len == 4 && k != 1 && k != 5) continue; run(R, c, trusts[k], "mail.example.com", NOW); if (len == 2) run(R, c, trusts[k], "example.com", NOW); } return; } for (auto& w : all) { c.push_back(&w); rec(); c.pop_back(); } };
			rec();
		});
	}
	// each certificate of the chain names its own hosts: only the first one's count
	R.test("whose host names", [&] {
		const std::vector <S> names = {"a.example.com", "b.example.com", "c.example.com", "*.example.com"};
		for (size_t i = 0 ; i < names.size() ; ++i) for (size_t j = 0 ; j < names.size() ; ++j) for (size_t k = 0 ; k < names.size() ; ++k) {
			const Cert ro = certs::make({"root", "Root", "Root", KR, KR, true, a, z, {names[k]}, "", {}, true}), in = certs::make({"inter", "Inter", "Root", KI, KR, true, a, z, {names[j]}, "", {}, true}), le = certs::make({"leaf", "Leaf", "Inter", KL, KI, false, a, z, {names[i]}, "", {}, true});
			const Trust tr = {{&ro}, {}, "root trusted"}, tl = {{}, {&le}, "leaf trusted"};
			for (const char* h : {"a.example.com", "b.example.com", "c.example.com", "d.example.com"}) for (auto t : {tr, tl}) { run(R, {&le, &in, &ro}, t, h, NOW); run(R, {&le, &in}, t, h, NOW); run(R, {&le}, t, h, NOW); run(R, {&in, &ro}, t, h, NOW); }
		}
	});
	// certificates that differ from a trusted one in a single respect are not that one
	R.test("look-alikes", [&] {
		const certs::Spec base = {"leaf", "Leaf", "Inter", KL, KI, false, a, z, H, "", {}, true, S("\x01\x02\x03\x04", 4)}; std::vector <Cert> v; v.push_back(certs::make(base)); auto vary = [&](const char* n, std::function <void(certs::Spec&)> f) { certs::Spec s = base; s.name = n; f(s); v.push_back(certs::make(s)); };
		vary("other-key", [&](certs::Spec& s) { s.key = KM; }); vary("other-signer", [&](certs::Spec& s) { s.signer = KX; s.aki = false; }); vary("other-serial", [&](certs::Spec& s) { s.sn[3] = 5; }); vary("longer", [&](certs::Spec& s) { s.to += DAY; }); vary("sooner", [&](certs::Spec& s) { s.from -= 1; }); vary("more-names", [&](certs::Spec& s) { s.dns.push_back("other.example.com"); }); vary("other-subject", [&](certs::Spec& s) { s.subject = "Leae"; }); vary("authority", [&](certs::Spec& s) { s.ca = true; }); vary("other-issuer", [&](certs::Spec& s) { s.issuer = "Intes"; });
		for (auto& x : v) for (auto& y : v) { const Trust t = {{}, {&y}, y.name + " trusted"}; run(R, {&x}, t, H[0], NOW); const Trust t2 = {{&y}, {}, y.name + " as authority"}; run(R, {&x}, t2, H[0], NOW); CHECK(get(x)->equals(get(y)) == (&x == &y), x.name + " equals " + y.name); }
	});
	for (size_t n : {1, 2, 4, 8, 9, 16, 20}) R.test("serial number|" + str(n), [&] {
		for (int hi : {0x01, 0x7f}) { S sn; for (size_t i = 0 ; i < n ; ++i) sn += char(i ? (i * 37) & 0xff : hi); const Cert c = certs::make({"leaf", "Leaf", "Inter", KL, KI, false, a, z, H, "", {}, true, sn}); const byteArray g = get(c)->getSerialNumber(); R.transition(); CHECK(S(g.begin(), g.end()) == sn, "serial number " + R.show(S(g.begin(), g.end()))); }
	});
	R.test("fingerprints", [&] {
		for (auto& x : all) { const std::pair <X509Certificate::DigestAlgorithm, gnutls_digest_algorithm_t> al[] = {{X509Certificate::DIGEST_MD5, GNUTLS_DIG_MD5}, {X509Certificate::DIGEST_SHA1, GNUTLS_DIG_SHA1}, {X509Certificate::DIGEST_SHA256, GNUTLS_DIG_SHA256}}; for (auto& d : al) { unsigned char b[64]; const size_t n = gnutls_hash_get_len(d.second); CHECK(gnutls_hash_fast(d.second, x.der.data(), x.der.size(), b) == 0, "hash"); const byteArray f = get(x)->getFingerprint(d.first); R.transition(); CHECK(S(f.begin(), f.end()) == S((char*) b, n), x.name + ": fingerprint"); } }
	});
	// host names
	std::vector <S> labels = {"mail", "Example", "com", "x"}; if (T) labels.push_back("MAIL"); std::vector <S> hosts = {"", ".", "mail.example.com.", "*.example.com", "192.0.2.1", "10.0.0.1", "mailXexample.com", "amail.example.com", "mail.example.comx"};
	for (size_t n = 1 ; n <= (T ? 5 : 4) ; ++n) mc::tuples(labels.size(), n, [&](const std::vector <size_t>& v) { S h; for (size_t i : v) h += (h.empty() ? "" : ".") + labels[i]; hosts.push_back(h); });
	struct Pat { std::vector <S> dns; S cn; std::vector <S> ip; };
	std::vector <Pat> pats = {{{"mail.example.com"}, "", {}}, {{"MAIL.eXample.com"}, "", {}}, {{"*.example.com"}, "", {}}, {{"x.com", "*.x.com"}, "", {}}, {{"mail.*.com"}, "", {}}, {{"mail.example.*"}, "", {}}, {{"*.*.com"}, "", {}}, {{}, "mail.example.com", {}}, {{}, "*.example.com", {}}, {{"x.com"}, "mail.example.com", {}}, {{"example.com"}, "", {}}, {{"com"}, "", {}}, {{"*.0.2.1", "192.0.2.1"}, "", {}}, {{}, "192.0.2.1", {}}, {{}, "", {S("\xc0\x00\x02\x01", 4)}}, {{"mail.example.com"}, "x", {S("\xc0\x00\x02\x01", 4)}}};
	for (size_t i = 0 ; i < pats.size() ; ++i) R.testL([&] { S n; for (auto& d : pats[i].dns) n += d + ","; return "host names|" + esc(n) + "CN=" + pats[i].cn; }, [&] {
		const Pat& p = pats[i]; const Cert c = certs::make({"cert", "Somebody", "Root", KL, KR, false, a, z, p.dns, p.cn, p.ip, true});
		for (const S& h : hosts) {
			theTime = NOW; bool ok = true; defaultCertificateVerifier v; v.setX509RootCAs({get(*C("root"))});
			try { v.verify(make_shared <certificateChain>(std::vector <shared_ptr <certificate> >{get(c)}), h); } catch (serverIdentityException&) { ok = false; }
			const bool addr = h == "192.0.2.1" || h == "10.0.0.1"; bool want = hostOk(c, h); if (h.empty()) want = false;
			if (addr) { if (!p.ip.empty() && p.dns.empty()) want = h == "192.0.2.1"; else { if (want && (h == "192.0.2.1")) continue; if (!p.ip.empty() && h == "192.0.2.1") want = true; } }
			if (!p.ip.empty() && !addr && p.dns.empty()) want = false;
			if (want && !h.empty() && h[0] == '*') continue;                    // a host name that is a pattern
			if (h.size() > 1 && h.back() == '.' && !want && hostOk(c, h.substr(0, h.size() - 1))) continue;     // the same name, written as absolute
			R.transition(); CHECK(ok == want, "host '" + h + "' " + (ok ? "accepted" : "rejected"));
			CHECK(get(c)->verifyHostName(h) == ok, "verifyHostName"); std::vector <std::string> nm; CHECK(get(c)->verifyHostName(h, &nm) == ok, "verifyHostName with names");
			if (!ok) for (auto& d : p.dns) if (d.find('\0') == S::npos && !d.empty()) CHECK(std::count(nm.begin(), nm.end(), d), "name " + d + " is not among the names that do not match");
			R.outcome(ok ? "match" : "no match");
		}
	});
	// validity
	for (const char* tz : {"UTC0", "XXX-5:30", "XXX8", "XXX-14"}) for (size_t i = 0 ; i < 3 ; ++i) R.testL([&] { return S("validity|") + tz + "|" + str(i); }, [&] {
		setenv("TZ", tz, 1); tzset();
		const time_t f = NOW - 3 * DAY, t = NOW + 3 * DAY; std::vector <Cert> c = {certs::make({"leaf", "L", "I", KL, KI, false, i == 0 ? f : a, i == 0 ? t : z, H, "", {}, true}), certs::make({"inter", "I", "R", KI, KR, true, i == 1 ? f : a, i == 1 ? t : z, H, "", {}, true}), certs::make({"root", "R", "R", KR, KR, true, i == 2 ? f : a, i == 2 ? t : z, H, "", {}, true})};
		std::vector <time_t> times; for (time_t b : {f, t}) for (time_t d : {-DAY, time_t(-3600 * 9), time_t(-61), time_t(-60), time_t(-59), time_t(-2), time_t(-1), time_t(0), time_t(1), time_t(2), time_t(59), time_t(60), time_t(61), time_t(3600 * 9), DAY}) times.push_back(b + d);
		for (time_t at : times) { const Trust tr = {{&c[2]}, {}, "root trusted"}, tl = {{}, {&c[0]}, "leaf trusted"}; run(R, {&c[0], &c[1], &c[2]}, tr, H[0], at); run(R, {&c[0], &c[1], &c[2]}, tl, H[0], at); run(R, {&c[0]}, tl, H[0], at); if (i < 2) run(R, {&c[0], &c[1]}, tr, H[0], at); }
		CHECK(get(c[i])->getActivationDate() == datetime(f) && get(c[i])->getExpirationDate() == datetime(t), "dates");
		theTime = NOW; setenv("TZ", "UTC0", 1); tzset();
	});
	// representation
	for (auto& x : all) R.testL([&] { return "representation|" + x.name; }, [&] {
		const S both[2] = {x.der, x.pem};
		for (int f = 0 ; f < 2 ; ++f) {
			P p = load(both[f]); S w; { utility::outputStreamStringAdapter os(w); p->write(os, X509Certificate::FORMAT_DER); os.flush(); } CHECK(w == x.der, "DER");
			w.clear(); { utility::outputStreamStringAdapter os(w); p->write(os, X509Certificate::FORMAT_PEM); os.flush(); } CHECK(w == x.pem, "PEM"); const byteArray e = p->getEncoded(); CHECK(S(e.begin(), e.end()) == x.der, "encoded");
			for (size_t k : {size_t(1), size_t(7), both[f].size() / 2}) { ChunkIn is(both[f], Cuts(both[f].size() / k, k), true); P q = X509Certificate::import(is); CHECK(q && q->equals(p) && p->equals(q), "import from a stream"); }
			for (auto& y : all) { R.transition(); CHECK(p->equals(get(y)) == (x.der == y.der), "equals " + y.name); if (certs::issued(x, y) || x.issuer != y.subject || x.signer != y.key) CHECK(p->checkIssuer(get(y)) == certs::issued(x, y), "checkIssuer(" + y.name + ")"); CHECK((p->getFingerprint(X509Certificate::DIGEST_SHA256) == get(y)->getFingerprint(X509Certificate::DIGEST_SHA256)) == (x.der == y.der), "fingerprint"); }
			CHECK(p->getType() == "X.509" && p->getVersion() == 3, "type"); CHECK(p->getIssuerString().find(x.issuer) != S::npos, "issuer");
			std::vector <P> v; X509Certificate::import((const byte_t*) both[f].data(), both[f].size(), v); CHECK(v.size() == 1 && v[0]->equals(p), "list of one");
			for (size_t cut = 0 ; cut < both[f].size() ; cut += T ? 1 : 13) { const S s = both[f].substr(0, cut); std::vector <byte_t> b(s.begin(), s.end()); P q = X509Certificate::import(b.data(), b.size()); CHECK(!q || q->equals(p), "truncated"); }
		}
		S list; for (auto& y : all) { list += y.pem; if (&y == &x) break; } std::vector <P> v; ChunkIn is(list, Cuts(), false); X509Certificate::import(is, v); const size_t n = &x - &all[0] + 1; CHECK(v.size() == n, "list: " + str(v.size())); for (size_t i = 0 ; i < n ; ++i) CHECK(v[i]->equals(get(all[i])), "list item " + str(i)); R.outcome("ok");
	});
	R.test("name with a NUL character", [&] { Cert c = certs::make({"cert", "Somebody", "Root", KL, KR, false, a, z, {"mail.example.com_.x.com"}, "", {}, true}); const size_t p = c.der.find("com_.x"); CHECK(p != S::npos, "name"); c.der[p + 3] = 0; P q = load(c.der); CHECK(!q->verifyHostName("mail.example.com"), "matches mail.example.com"); std::vector <std::string> n; q->verifyHostName("mail.example.com", &n); });
	R.test("nothing to import", [&] { ChunkIn e(""), g("garbage"); CHECK(!X509Certificate::import(e), "empty"); CHECK(!X509Certificate::import(g), "garbage"); std::vector <P> v; ChunkIn e2(""); X509Certificate::import(e2, v); CHECK(v.empty(), "list"); });
}
