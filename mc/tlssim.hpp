// A TLS server in the process (GnuTLS), wrapped around a plain application server.
#pragma once
#include "netsim.hpp"
#include "certs.hpp"
namespace tlssim {

struct Cfg {
	bool implicit = true;                    // TLS from the first byte
	std::vector <certs::Cert> chain; int key = 1;
	S priority = "NORMAL"; size_t record = 16384;   // most bytes put into one record
	int tickets = 0, rekeyAt = -1;           // session tickets sent after the handshake; key update before the n-th record
	bool bye = true;                         // sends close_notify when it closes
	size_t corrupt = size_t(-1);             // index, over the connection, of a byte the network changes
};

struct Server : public SimServer {
	Cfg c; std::shared_ptr <SimServer> app;
	gnutls_session_t s = NULL; gnutls_certificate_credentials_t cred = NULL; gnutls_datum_t tk = {NULL, 0};
	S in, plain, secret; bool tls = false, up = false, dead = false, clientBye = false; int alert = -1; size_t emitted = 0; int records = 0; S afterBye; bool wantTls = false; S error;
	Server(const Cfg& x, std::shared_ptr <SimServer> a) : c(x), app(a) {}
	~Server() { if (s) gnutls_deinit(s); if (cred) gnutls_certificate_free_credentials(cred); if (tk.data) gnutls_free(tk.data); }
	static ssize_t push(gnutls_transport_ptr_t p, const void* d, size_t n) { ((Server*) p)->emit(S((const char*) d, n)); return ssize_t(n); }
	static ssize_t pull(gnutls_transport_ptr_t p, void* d, size_t n) {
		Server* t = (Server*) p; if (t->in.empty()) { gnutls_transport_set_errno(t->s, EAGAIN); return -1; }
		n = std::min(n, t->in.size()); memcpy(d, t->in.data(), n); t->in.erase(0, n); return ssize_t(n);
	}
	static int wait(gnutls_transport_ptr_t p, unsigned) { return !((Server*) p)->in.empty(); }
	void emit(S d) { if (c.corrupt >= emitted && c.corrupt < emitted + d.size()) d[c.corrupt - emitted] ^= 0x10; emitted += d.size(); out += d; }
	void start() {
		tls = true; CHECK(gnutls_certificate_allocate_credentials(&cred) == 0, "credentials");
		std::vector <gnutls_x509_crt_t> v; for (auto& k : c.chain) { gnutls_x509_crt_t x; gnutls_x509_crt_init(&x); gnutls_datum_t d = {(unsigned char*) k.der.data(), (unsigned) k.der.size()}; CHECK(gnutls_x509_crt_import(x, &d, GNUTLS_X509_FMT_DER) == 0, "import"); v.push_back(x); }
		gnutls_certificate_set_flags(cred, GNUTLS_CERTIFICATE_SKIP_KEY_CERT_MATCH | GNUTLS_CERTIFICATE_SKIP_OCSP_RESPONSE_CHECK);
		const int kr = gnutls_certificate_set_x509_key(cred, v.data(), int(v.size()), certs::key(c.key)); CHECK(kr >= 0, S("set key: ") + gnutls_strerror(kr));
		for (auto x : v) gnutls_x509_crt_deinit(x);
		gnutls_init(&s, GNUTLS_SERVER | GNUTLS_NONBLOCK | (c.tickets ? GNUTLS_NO_AUTO_SEND_TICKET : GNUTLS_NO_TICKETS)); CHECK(gnutls_priority_set_direct(s, c.priority.c_str(), NULL) == 0, "priority");
		if (c.tickets) { gnutls_session_ticket_key_generate(&tk); gnutls_session_ticket_enable_server(s, &tk); }
		gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred); gnutls_transport_set_ptr(s, this); gnutls_transport_set_push_function(s, push); gnutls_transport_set_pull_function(s, pull); gnutls_transport_set_pull_timeout_function(s, wait);
	}
	void connected() { if (c.implicit) start(); else { app->connected(); flush(); } }
	void fail() { dead = true; closed = true; }
	// the application's bytes go out; then TLS starts if it has asked for it (wantTls)
	void flush() {
		if (dead) return;
		if (!tls) { emit(app->out); app->out.clear(); }
		else if (up) {
			for (size_t p = 0 ; p < app->out.size() ; ) {
				if (records++ == c.rekeyAt && gnutls_protocol_get_version(s) == GNUTLS_TLS1_3) gnutls_session_key_update(s, 0);
				const ssize_t r = gnutls_record_send(s, app->out.data() + p, std::min(c.record, app->out.size() - p)); if (r <= 0) { fail(); return; } p += size_t(r);
			}
			app->out.clear();
			if (app->closed && !closed) { if (c.bye) gnutls_bye(s, GNUTLS_SHUT_WR); closed = true; }
		}
		if (!tls && app->closed) closed = true;
		if (!tls && wantTls && !closed) start();
	}
	void pump() {
		if (dead || closed) return;
		if (!up) {
			const int r = gnutls_handshake(s);
			if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED || r == GNUTLS_E_WARNING_ALERT_RECEIVED) return;
			if (r < 0) { if (r == GNUTLS_E_FATAL_ALERT_RECEIVED) alert = gnutls_alert_get(s); else gnutls_alert_send_appropriate(s, r); fail(); return; }
			up = true; if (c.tickets) gnutls_session_ticket_send(s, c.tickets, 0);
			if (c.implicit) app->connected(); flush();
		}
		for ( ; ; ) {
			char b[16384]; const ssize_t r = gnutls_record_recv(s, b, sizeof(b));
			if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) break;
			if (r == 0) { clientBye = true; closed = true; app->gone(); return; }
			if (r < 0) { if (r == GNUTLS_E_FATAL_ALERT_RECEIVED) alert = gnutls_alert_get(s); fail(); return; }
			if (closed) break;
			secret.append(b, size_t(r)); app->data(S(b, size_t(r))); flush();
		}
	}
	void data(const S& d) { if (clientBye) { afterBye += d; return; } if (!tls) { plain += d; app->data(d); flush(); return; } in += d; pump(); }
	void gone() { if (!clientBye) app->gone(); closed = true; }
};
}
