// C40: the socket of POSIX platforms over every behaviour of the system calls.
#include "socksim.hpp"
#include "mcv.hpp"
#include "mc_main.hpp"
#include <vmime/platforms/posix/posixSocket.hpp>
using namespace vmime;
typedef std::string S; using mc::str; using mc::esc;
typedef platforms::posix::posixSocket Socket;

/** asked for every elapsed period; declines the n-th time it is asked (-1: never) */
struct Handler : public net::timeoutHandler {
	long period, since = 0; int declineAt; int asked = 0; bool declined = false, wrong = false; long declinedAt = -1, worst = 0;
	Handler(long p, int d) : period(p), declineAt(d) {}
	bool isTimeOut() { worst = std::max(worst, sk::now - since); return sk::now - since >= period; }
	void resetTimeOut() { worst = std::max(worst, sk::now - since); since = sk::now; }
	bool handleTimeOut() { if (sk::now - since < period) wrong = true; if (declined) wrong = true; if (asked++ == declineAt) { declined = true; declinedAt = sk::now; sk::ex->log.push_back("declined"); return false; } return true; }
};
static mc::Explorer E;
static S what(const std::exception& e) { S s = mc::describe(e); const vmime::exception* v = dynamic_cast <const vmime::exception*>(&e); while (v && v->other()) { v = v->other(); s += " <- " + mc::describe(*v); } return s; }
static size_t openOnes() { size_t n = 0; for (auto& s : sk::socks) n += s.open; return n; }

static void connectOnce(mc::Run& R, const std::vector <int>& kinds, int resolution, long period, int decline) {
	struct Guard { Guard() { sk::on = true; } ~Guard() { sk::on = false; } };
	sk::reset(); sk::ex = &E; sk::kinds = kinds; sk::resolveResult = resolution == 1 ? EAI_NONAME : 0; sk::resolveAt = resolution == 2 ? 7000 : resolution == 3 ? 100000000 : 20;
	shared_ptr <Handler> h; if (period) h = make_shared <Handler>(period, decline);
	bool ok = false, timedOut = false; S err; size_t pendingRequest = 0; R.transition();
	{
		Socket s(h);
		{ Guard g; try { s.connect("mail.example.org", 143); ok = true; } catch (exceptions::operation_timed_out& e) { timedOut = true; err = what(e); } catch (exceptions::connection_error& e) { err = what(e); } catch (vmime::exception& e) { CHECK(false, "unexpected " + what(e) + " after " + E.tail()); } }
		const S log = " [" + E.tail() + "] " + err; R.outcome(ok ? "connected" : timedOut ? "timed out" : err);
		CHECK(!sk::bad, "a descriptor was used after it was closed" + log);
		if (h) { CHECK(!h->wrong, "the time-out handler was asked too early, or again after it declined" + log); CHECK(h->worst < h->period + 1200, "the handler was not consulted for " + str(h->worst) + " ms" + log); }
		// the resolver must not be left with memory that is gone
		if (sk::pending) {
			pendingRequest = 1; CHECK(!sk::onStack(sk::pending) && !sk::onStack(sk::pending->ar_name) && !sk::onStack(sk::pending->ar_service) && !sk::onStack(sk::pending->ar_request), "the resolver still works on a request that is gone" + log);
			sk::now = sk::resolveAt; struct gaicb* r = sk::pending; CHECK(S(r->ar_name) == "mail.example.org" && S(r->ar_service) == "143" && (!r->ar_request || r->ar_request->ai_socktype == SOCK_STREAM), "the request was changed" + log);
			sk::complete(); CHECK(!ok, "connected although the name is not resolved" + log);
		}
		if (!pendingRequest) CHECK(sk::lists.empty(), "the list of addresses was not released" + log);
		std::vector <int> order; bool faulted = false; for (auto& x : sk::socks) { if (x.addr >= 0) order.push_back(x.addr); faulted = faulted || x.faulted; }
		for (size_t i = 1 ; i < order.size() ; ++i) CHECK(order[i] > order[i - 1], "addresses tried out of order or twice" + log);
		if (ok) {
			CHECK(openOnes() == 1 && sk::socks.back().open && sk::socks.back().connected(sk::now), "not connected" + log);
			CHECK(sk::socks.back().nonblock, "the connected socket blocks" + log); CHECK(!h || !h->declined, "connected after the handler declined" + log);
			sk::Sock& c = sk::socks.back(); c.in = "hello"; { Guard g; E.on = false; s.sendRaw((const byte_t*) "xyz", 3); S b; s.receive(b); CHECK(c.out == "xyz" && b == "hello", "data do not pass: '" + c.out + "' '" + b + "'" + log); CHECK(s.isConnected(), "isConnected" + log); s.disconnect(); CHECK(!s.isConnected(), "isConnected after disconnecting" + log); E.on = true; }
			CHECK(openOnes() == 0, "not closed" + log);
		} else {
			CHECK(openOnes() == 0, "a descriptor was left open" + log);
			CHECK(timedOut == (h && h->declined), S(timedOut ? "time-out reported although nobody declined to wait" : "the handler declined but no time-out was reported") + log);
		}
		if (!ok && !timedOut && sk::resolveResult == 0 && !sk::socks.empty() && !faulted) for (size_t i = 0 ; i < kinds.size() ; ++i) if (kinds[i] != sk::OTHER && kinds[i] != sk::NOSOCKET) CHECK(std::find(order.begin(), order.end(), int(i)) != order.end(), "address " + str(i) + " was not tried" + log);
		for (size_t i = 0 ; i < sk::socks.size() ; ++i) {
			const sk::Sock& x = sk::socks[i]; if (x.addr < 0 || !x.started || x.faulted) continue; bool more = false; for (size_t k = x.addr + 1 ; k < kinds.size() ; ++k) more = more || (kinds[k] != sk::OTHER);
			if (ok && i + 1 == sk::socks.size()) { continue; }
			const long spent = x.ended - x.began; if (x.result) continue;
			const bool declinedHere = h && h->declined && i + 1 == sk::socks.size();
			CHECK(declinedHere || (size_t(x.addr) + 1 < kinds.size() && spent >= 5000), "address " + str(x.addr) + " which would accept was given up after " + str(spent) + " ms" + log);
			(void) more;
		}
		// an address that does not answer does not keep the others from being tried
		if (h) for (auto& x : sk::socks) if (x.addr >= 0 && size_t(x.addr) + 1 < kinds.size()) CHECK(x.ended - x.began < 7500 || (ok && &x == &sk::socks.back()), "address " + str(x.addr) + " held up the others for " + str(x.ended - x.began) + " ms" + log);
		// what is reported is what happened
		if (!ok && !timedOut && resolution != 1 && !kinds.empty() && !faulted) { bool allRefuse = true; for (int k : kinds) allRefuse = allRefuse && (k == sk::REFUSE || k == sk::REFUSE2); if (allRefuse && order.size() == kinds.size()) CHECK(err.find("ECONNREFUSED") != S::npos, "refused connections reported as something else" + log); }
		if (resolution == 1) CHECK(!ok, "connected to a name that does not exist" + log);
		if (!faulted && resolution == 0 && !(h && h->declined) && E.log.size()) { bool should = false; for (size_t i = 0 ; i < kinds.size() ; ++i) should = should || kinds[i] == sk::ACCEPT || kinds[i] == sk::ACCEPT2 || (kinds[i] == sk::ACCEPT8 && (!h || i + 1 == kinds.size())); bool asked = !sk::socks.empty(); if (asked && should) CHECK(ok, "no connection although an address accepts" + log); }
	}
	sk::reset();
}

/** a connected socket and what the other side has seen */
struct Conn {
	shared_ptr <Handler> h; std::unique_ptr <Socket> s;
	Conn(long period, int decline, int family = 0) {
		sk::reset(); sk::ex = &E; sk::kinds.assign(family ? 2 : 1, sk::ACCEPT); if (family) sk::kinds[0] = sk::REFUSE; sk::resolveResult = 0; sk::resolveAt = 20; if (period) h = make_shared <Handler>(period, decline);
		s.reset(new Socket(h)); E.on = false; sk::on = true; s->connect("mail.example.org", 143); E.on = true; E.log.clear();
	}
	~Conn() { E.on = false; s.reset(); sk::on = false; sk::reset(); }
	sk::Sock& k() { return sk::socks.back(); }
};

static void transfer(mc::Run& R, const std::vector <int>& ops, long period, int decline) {
	Conn c(period, decline); S sent, got, peer; bool broken = false, timedOut = false; int n = 0; bool open = true; R.transition(ops.size());
	bool partial = false; S err;
	for (int op : ops) {
		const size_t before = c.k().out.size(); const int asked = c.h ? c.h->asked : 0; (void) asked;
		auto log = [&] { return " [" + E.tail() + "] " + err; };
		sk::idle = 0; S pay; for (int i = 0 ; i < 5 ; ++i) pay += char('a' + (n++ % 26));
		try {
			switch (op) {
				case 0: c.s->sendRaw((const byte_t*) pay.data(), 5); sent += pay; CHECK(c.k().out == sent, "sendRaw() returned but the other side has '" + c.k().out + "' of '" + sent + "'" + log()); break;
				case 1: { const size_t k = c.s->sendRawNonBlocking((const byte_t*) pay.data(), 5); CHECK(k <= 5, "sent more than given"); sent += pay.substr(0, k); CHECK(c.k().out == sent, "sendRawNonBlocking() reports " + str(k) + " bytes, the other side has '" + c.k().out + "'" + log()); CHECK((k == 0) == ((c.s->getStatus() & net::socket::STATUS_WOULDBLOCK) != 0), "STATUS_WOULDBLOCK" + log()); break; }
				case 2: { byte_t b[8]; memset(b, '!', 8); const size_t k = c.s->receiveRaw(b, 3); CHECK(k <= 3, "received more than fits" + log()); for (size_t i = 3 ; i < 8 ; ++i) CHECK(b[i] == '!', "written behind the buffer"); got.append((char*) b, k); CHECK((k == 0) == ((c.s->getStatus() & net::socket::STATUS_WOULDBLOCK) != 0), "STATUS_WOULDBLOCK" + log()); break; }
				case 3: { S b = "junk"; c.s->receive(b); got += b; break; }
				case 4: c.k().in += pay; peer += pay; break;
				case 5: c.k().eof = true; break;
				case 6: c.k().dead = ECONNRESET; c.k().in.clear(); break;
				case 7: c.k().room = 2; break;
				case 8: { const bool is = c.s->isConnected(); if (is) CHECK(!c.k().dead, "connected although the connection is broken" + log()); if (is) CHECK(!(c.k().eof && c.k().in.empty()) || E.tr.size(), "connected although it was closed" + log()); if (!is) CHECK(c.k().dead || c.k().eof, "not connected" + log()); break; }
				case 9: c.k().room = 1 << 20; break;
				case 10: { const bool r = c.s->waitForRead(50); if (r) CHECK(!c.k().in.empty() || c.k().eof || c.k().dead, "nothing to be read" + log()); break; }
				case 11: c.s->send("\r\n"); sent += "\r\n"; CHECK(c.k().out == sent, "send() returned but the other side has '" + c.k().out + "'" + log()); break;
			}
		} catch (exceptions::operation_timed_out& e) { err = what(e); timedOut = true; CHECK(c.h && c.h->declined, "time-out although the handler did not decline" + log()); break; }
		catch (exceptions::socket_exception& e) {
			err = what(e); broken = true; partial = true; bool fault = c.k().dead || c.k().faulted || (c.k().eof && c.k().in.empty()); CHECK(fault, "failed without reason" + log()); CHECK(!(c.h && c.h->declined), "the handler declined, yet '" + err + "'" + log()); break;
		}
		if (c.h) { CHECK(!c.h->declined, "went on after the handler declined" + log()); CHECK(!c.h->wrong, "handler asked at the wrong time" + log()); }
		(void) before;
	}
	const S log = " [" + E.tail() + "] " + err;
	CHECK(peer.compare(0, got.size(), got) == 0, "received '" + got + "' of '" + peer + "'" + log);
	CHECK(sk::noSignal, "a broken connection would raise SIGPIPE" + log); CHECK(!sk::bad, "bad descriptor" + log);
	if (!broken && !timedOut && open) CHECK(c.k().out == sent, "sent '" + c.k().out + "' instead of '" + sent + "'" + log);
	{ E.on = false; c.s->disconnect(); CHECK(openOnes() == 0 && !c.s->isConnected(), "not closed" + log); }
	R.outcome(err); (void) partial;
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C40"; R.level = "model_checking";
	R.rule = "A model of name resolution, connection attempts and connected sockets below the system calls with a simulated clock: all combinations of up to three addresses of eight behaviours, of how the name is resolved and of what the time-out handler answers, and in each every placement of up to one or two (thorough: three) unusual answers (interruption, error, late or partial result) of any system call; all short sequences of transfers with the same unusual answers.";
	R.assumptions = {"system calls behave as POSIX allows", "the time-out handler is asked about once a second while connecting"};
	const bool T = R.thorough; if (T) sk::patience = 8; const size_t dev = T ? 3 : 2;
	std::vector <std::vector <int> > K; for (size_t n = 0 ; n <= 3 ; ++n) mc::tuples(sk::KINDS, n, [&](const std::vector <size_t>& ix) { K.push_back(std::vector <int>(ix.begin(), ix.end())); });
	const std::vector <std::pair <long, int> > H = {{0, -1}, {3000, -1}, {3000, 0}, {30000, 0}, {3000, 2}};
	for (auto& k : K) for (int res = 0 ; res < 4 ; ++res) {
		if (res && k.size() > 1) continue;
		R.testL([&] { S l = "connect|res" + str(res); for (int x : k) l += S("|") + sk::kindName(x); return l; }, [&] {
			for (auto& p : H) {
				if (res == 3 && (!p.first || p.second < 0)) continue;
				bool silent = false; for (size_t i = 0 ; i < k.size() ; ++i) silent = silent || (i + 1 == k.size() && k[i] == sk::SILENT); if (silent && p.first && p.second < 0) continue;   // waits as long as it is told to
				E.explore(k.size() > 2 ? dev - 1 : dev, [&] { connectOnce(R, k, res, p.first, p.second); }); R.state("connect" + str(p.first) + "," + str(p.second) + "," + str(res) + "," + str(E.runs));
			}
		});
	}
	mc::tuples(12, T ? 4 : 3, [&](const std::vector <size_t>& ix) {
		R.testL([&] { S l = "transfer"; for (size_t i : ix) l += "|" + str(i); return l; }, [&] {
			const std::vector <int> ops(ix.begin(), ix.end()); bool stall = false; for (int o : ops) stall = stall || o == 7;
			for (auto& p : H) { if (stall && (!p.first || p.second < 0)) continue; E.explore(dev, [&] { transfer(R, ops, p.first, p.second); }); R.state("t"); }
		});
	});
	for (int fam = 0 ; fam < 2 ; ++fam) R.test("peer|" + str(fam), [&] {
		E.explore(dev, [&] { Conn c(3000, 0, fam); CHECK(c.s->getPeerAddress() == (fam ? "2001:db8:1:2:3:4:5:6" : "192.0.2.17"), "address of the other side: " + c.s->getPeerAddress()); CHECK(c.s->getPeerName() == "mail.example.org", "name of the other side: " + c.s->getPeerName()); CHECK(c.s->getBlockSize() > 0, "block size"); });
		E.explore(dev, [&] {
			sk::reset(); sk::ex = &E; sk::kinds.assign(fam ? 2 : 1, sk::ACCEPT); if (fam) sk::kinds[0] = sk::REFUSE; sk::resolveAt = 20; Socket s(null); E.on = false; sk::on = true; s.connect(fam ? "2001:db8:1:2:3:4:5:6" : "192.0.2.17", 143); E.on = true;
			const S n = s.getPeerName(); CHECK(n == (!E.tr.empty() && E.tr[0].second ? fam ? "2001:db8:1:2:3:4:5:6" : "192.0.2.17" : "name" + str(fam) + ".example.org"), "name of the other side: " + n); E.on = false; sk::on = false; });
		sk::reset();
	});
}
