// Certificates generated at run time, with their issuer relations known by construction.
#pragma once
#include "mcv.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <gnutls/abstract.h>
namespace certs {
const time_t NOW = 1700000000, DAY = 86400;
struct Spec { S name, subject, issuer; int key, signer; bool ca; time_t from, to; std::vector <S> dns; S cn; std::vector <S> ip; bool aki; S sn = S(); };
struct Cert : public Spec { S der, pem; };
inline gnutls_x509_privkey_t key(int i) {
	static std::map <int, gnutls_x509_privkey_t> keys; auto& k = keys[i];
	if (!k) { gnutls_x509_privkey_init(&k); CHECK(gnutls_x509_privkey_generate(k, GNUTLS_PK_EDDSA_ED25519, 256, 0) == 0, "key"); }
	return k;
}
inline S exportCert(gnutls_x509_crt_t c, gnutls_x509_crt_fmt_t f) { gnutls_datum_t d; CHECK(gnutls_x509_crt_export2(c, f, &d) == 0, "export"); S s((const char*) d.data, d.size); gnutls_free(d.data); return s; }
inline Cert make(const Spec& s) {
	static unsigned serial = 100;
	Cert r; static_cast <Spec&>(r) = s; gnutls_x509_crt_t c, i; gnutls_x509_crt_init(&c); gnutls_x509_crt_init(&i);
	auto dn = [](gnutls_x509_crt_t x, const S& d) { CHECK(gnutls_x509_crt_set_dn(x, ("CN=" + d).c_str(), NULL) == 0, "dn"); };
	gnutls_x509_crt_set_version(c, 3); dn(c, s.cn.empty() ? s.subject : s.cn); gnutls_x509_crt_set_key(c, key(s.key));
	const unsigned char sn[4] = {1, (unsigned char) (serial >> 16), (unsigned char) (serial >> 8), (unsigned char) serial}; ++serial; if (s.sn.empty()) gnutls_x509_crt_set_serial(c, sn, 4); else CHECK(gnutls_x509_crt_set_serial(c, s.sn.data(), s.sn.size()) == 0, "serial");
	gnutls_x509_crt_set_activation_time(c, s.from); gnutls_x509_crt_set_expiration_time(c, s.to);
	gnutls_x509_crt_set_basic_constraints(c, s.ca, -1); gnutls_x509_crt_set_key_usage(c, s.ca ? GNUTLS_KEY_KEY_CERT_SIGN | GNUTLS_KEY_CRL_SIGN | GNUTLS_KEY_DIGITAL_SIGNATURE : GNUTLS_KEY_DIGITAL_SIGNATURE);
	for (auto& d : s.dns) gnutls_x509_crt_set_subject_alt_name(c, GNUTLS_SAN_DNSNAME, d.data(), d.size(), GNUTLS_FSAN_APPEND);
	for (auto& d : s.ip) gnutls_x509_crt_set_subject_alt_name(c, GNUTLS_SAN_IPADDRESS, d.data(), d.size(), GNUTLS_FSAN_APPEND);
	auto kid = [](int k) { unsigned char b[64]; size_t n = sizeof(b); CHECK(gnutls_x509_privkey_get_key_id(key(k), 0, b, &n) == 0, "id"); return S((char*) b, n); };
	if (s.aki) { const S a = kid(s.key), b = kid(s.signer); gnutls_x509_crt_set_subject_key_id(c, a.data(), a.size()); gnutls_x509_crt_set_authority_key_id(c, b.data(), b.size()); }
	// the issuer: a certificate that exists only to lend its name and key
	gnutls_x509_crt_set_version(i, 3); dn(i, s.issuer); gnutls_x509_crt_set_key(i, key(s.signer)); gnutls_x509_crt_set_serial(i, sn, 4); gnutls_x509_crt_set_basic_constraints(i, 1, -1); gnutls_x509_crt_set_activation_time(i, 0); gnutls_x509_crt_set_expiration_time(i, NOW + 9999 * DAY);
	CHECK(gnutls_x509_crt_sign2(c, i, key(s.signer), GNUTLS_DIG_SHA512, 0) == 0, "sign");
	r.der = exportCert(c, GNUTLS_X509_FMT_DER); r.pem = exportCert(c, GNUTLS_X509_FMT_PEM); gnutls_x509_crt_deinit(c); gnutls_x509_crt_deinit(i); return r;
}
inline bool issued(const Cert& a, const Cert& by) { return a.issuer == (by.cn.empty() ? by.subject : by.cn) && a.signer == by.key && by.ca; }
inline bool validAt(const Cert& a, time_t t) { return t >= a.from && t <= a.to; }
}
