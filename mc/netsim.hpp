// Simulated network: sockets connected to an in-process server model. Reads deliver the
// server's bytes in pieces chosen by the check; nothing here depends on time or scheduling.
#pragma once
#include "mcv.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/timeoutHandler.hpp"
#include <functional>

struct SimServer {
	S out; bool closed = false;              // bytes not yet delivered; closes once they are
	virtual ~SimServer() {}
	virtual void connected() {}
	virtual void data(const S& in) = 0;       // bytes the client sent
	virtual void gone() {}                    // the client closed the connection
};

struct SimNet {
	// how reads are cut: 0 all that is there; 1 single bytes; 2 one cut at splitAt; 3 single bytes, each after an empty read; 4 pieces of splitAt bytes
	int frag = 0; size_t splitAt = 0;
	size_t cutAt = size_t(-1);                // the connection breaks when this many bytes were delivered
	size_t total = 0, cutTotal = size_t(-1);  // the same over all connections together (and frag 5: one cut at splitAt of these)
	size_t delivered = 0, connects = 0; bool deadlock = false; S sent;
	unsigned long clock = 0, activity = 0;    // milliseconds; advanced by waiting; when bytes were last exchanged
	size_t stallAt = size_t(-1);              // the server falls silent when this many bytes were delivered (over all connections)
	unsigned long slow = 0;                   // time the server needs for each byte
	bool posixWaits = false;                  // waiting consults the time-out handler, as posixSocket does
	size_t acceptMax = size_t(-1);            // most bytes taken by one non-blocking write
	int writeBlock = 0;                       // 1: every other non-blocking write takes nothing
	std::function <vmime::shared_ptr <SimServer>()> server;
	std::vector <vmime::shared_ptr <SimServer> > servers;
};

struct SimTimeout : public vmime::net::timeoutHandler {
	SimNet* net; unsigned long delay, start; int* fired; bool keepWaiting;
	SimTimeout(SimNet* n, unsigned long d, int* f = NULL, bool k = false) : net(n), delay(d), start(n->clock), fired(f), keepWaiting(k) {}
	bool isTimeOut() { return net->clock - start >= delay; }
	void resetTimeOut() { start = net->clock; }
	bool handleTimeOut() { if (fired) ++*fired; return keepWaiting && *fired < 5; }
};
struct SimTimeoutFactory : public vmime::net::timeoutHandlerFactory {
	SimNet* net; unsigned long delay; int* fired; bool keepWaiting;
	SimTimeoutFactory(SimNet* n, unsigned long d, int* f = NULL, bool k = false) : net(n), delay(d), fired(f), keepWaiting(k) {}
	vmime::shared_ptr <vmime::net::timeoutHandler> create() { return vmime::make_shared <SimTimeout>(net, delay, fired, keepWaiting); }
};

class SimSocket : public vmime::net::socket {
public:
	SimSocket(SimNet* n, vmime::shared_ptr <vmime::net::timeoutHandler> th) : net(n), m_th(th) {}
	~SimSocket() { if (m_conn) { m_conn = false; m_srv->gone(); } }
	void connect(const vmime::string&, const vmime::port_t) { ++net->connects; net->delivered = 0; net->sent.clear(); m_srv = net->server(); net->servers.push_back(m_srv); m_conn = true; net->activity = net->clock; m_srv->connected(); }
	void disconnect() { if (m_conn) { m_conn = false; m_srv->gone(); } }
	bool isConnected() const { return m_conn; }
	bool starved() const { return net->total >= net->stallAt || net->clock - net->activity < net->slow; }
	bool pause(unsigned long ms) {            // lets time pass; true when there are bytes
		if (!net->posixWaits) { if (!m_srv->out.empty() && net->total < net->stallAt && net->activity + net->slow <= net->clock + ms) { net->clock = net->activity + net->slow; return true; } net->clock += ms; return false; }
		for (unsigned long i = 0 ; i <= ms / 10 ; ++i) {
			if (!m_srv->out.empty() && !starved()) return true;
			net->clock += 10; ++m_polls; if (m_polls > 100000) { net->deadlock = true; lost(); }
			if (m_th && m_th->isTimeOut()) { if (!m_th->handleTimeOut()) throw vmime::exceptions::operation_timed_out(); m_th->resetTimeOut(); }
		}
		return false;
	}
	bool waitForRead(const int ms = 30000) { if (m_conn && starved() && (!m_srv->closed || !m_srv->out.empty() || net->total >= net->stallAt)) return pause(ms > 0 ? ms : 0); if (!m_conn || !m_srv->out.empty() || m_srv->closed || net->delivered >= net->cutAt || net->total >= net->cutTotal) return true; return pause(ms > 0 ? ms : 0); }
	bool waitForWrite(const int ms = 30000) { (void) ms; return true; }
	size_t take(vmime::byte_t* b, size_t count) {
		m_status &= ~STATUS_WOULDBLOCK;
		need();
		if (net->delivered >= net->cutAt || net->total >= net->cutTotal) { lost(); }
		if (m_srv->out.empty() || starved()) {
			if (m_srv->closed && m_srv->out.empty() && net->total < net->stallAt) lost();
			m_status |= STATUS_WOULDBLOCK; pause(50);
			if (++m_idle > (m_th ? 3000u : 20u)) { net->deadlock = true; lost(); }
			return 0;
		}
		if (net->frag == 3 && (m_tog = !m_tog)) { m_status |= STATUS_WOULDBLOCK; return 0; }
		size_t n = std::min(count, m_srv->out.size());
		if (net->frag == 1 || net->frag == 3) n = std::min(n, size_t(1));
		else if (net->frag == 2 && net->delivered < net->splitAt) n = std::min(n, net->splitAt - net->delivered);
		else if (net->frag == 4) n = std::min(n, net->splitAt);
		else if (net->frag == 5 && net->total < net->splitAt) n = std::min(n, net->splitAt - net->total);
		n = std::min(n, std::min(std::min(net->cutAt - net->delivered, net->cutTotal - net->total), net->slow ? 1 : net->stallAt - net->total));
		memcpy(b, m_srv->out.data(), n); m_srv->out.erase(0, n); net->delivered += n; net->total += n; net->activity = net->clock; m_idle = m_polls = 0;
		if (m_th) m_th->resetTimeOut();
		return n;
	}
	void receive(vmime::string& s) { vmime::byte_t b[4096]; const size_t n = take(b, sizeof(b)); s.assign((const char*) b, n); }
	size_t receiveRaw(vmime::byte_t* b, const size_t n) { return take(b, n); }
	void send(const vmime::string& s) { need(); if (m_srv->closed && m_srv->out.empty()) lost(); m_idle = 0; net->activity = net->clock; net->sent += s; m_srv->data(s); if (m_th) m_th->resetTimeOut(); }
	void send(const char* s) { send(S(s)); }
	void sendRaw(const vmime::byte_t* b, const size_t n) { send(S((const char*) b, n)); }
	size_t sendRawNonBlocking(const vmime::byte_t* b, const size_t n) {
		m_status &= ~STATUS_WOULDBLOCK;
		if (net->writeBlock && (m_wtog = !m_wtog)) { m_status |= STATUS_WOULDBLOCK; return 0; }
		const size_t k = std::min(n, net->acceptMax); send(S((const char*) b, k)); return k;
	}
	size_t getBlockSize() const { return 16384; }
	unsigned int getStatus() const { return m_status; }
	const vmime::string getPeerName() const { return "sim.example"; }
	const vmime::string getPeerAddress() const { return "192.0.2.1"; }
	vmime::shared_ptr <vmime::net::timeoutHandler> getTimeoutHandler() { return m_th; }
	void setTracer(const vmime::shared_ptr <vmime::net::tracer>& t) { m_tr = t; }
	vmime::shared_ptr <vmime::net::tracer> getTracer() { return m_tr; }
	SimNet* net;
private:
	void need() { if (!m_conn) throw vmime::exceptions::socket_exception("not connected"); }
	void lost() { throw vmime::exceptions::socket_exception("connection closed by server"); }
	vmime::shared_ptr <vmime::net::timeoutHandler> m_th; vmime::shared_ptr <vmime::net::tracer> m_tr; vmime::shared_ptr <SimServer> m_srv;
	bool m_conn = false, m_tog = false, m_wtog = false; unsigned m_idle = 0, m_polls = 0, m_status = 0;
};
struct SimSocketFactory : public vmime::net::socketFactory {
	SimNet* net; SimSocketFactory(SimNet* n) : net(n) {}
	vmime::shared_ptr <vmime::net::socket> create() { return vmime::make_shared <SimSocket>(net, vmime::shared_ptr <vmime::net::timeoutHandler>()); }
	vmime::shared_ptr <vmime::net::socket> create(const vmime::shared_ptr <vmime::net::timeoutHandler>& th) { return vmime::make_shared <SimSocket>(net, th); }
};

// line-oriented server: collects CRLF-terminated lines
struct LineServer : public SimServer {
	S buf; bool raw = false;
	void data(const S& in) { buf += in; pump(); }
	virtual void pump() {
		for ( ; ; ) {
			if (closed) { buf.clear(); return; }
			if (wantRaw()) { if (!takeRaw()) return; continue; }
			const size_t e = buf.find("\r\n"); if (e == S::npos) return;
			const S l = buf.substr(0, e); buf.erase(0, e + 2); line(l);
		}
	}
	virtual bool wantRaw() { return false; }
	virtual bool takeRaw() { return false; }
	virtual void line(const S& l) = 0;
	void reply(const S& s) { out += s + "\r\n"; }
};
