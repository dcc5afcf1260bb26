// C42: a failure in the middle of an operation never leaves a connection out of step. Every
// operation of the POP3, SMTP and IMAP clients is interrupted at every point where it calls the
// application's code or waits for the server, then other operations follow, before and after
// reconnecting.
#include "imapsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/tracer.hpp"
#include "vmime/net/events.hpp"
using namespace vmime; using namespace vmime::net;
using imapsim::wantEq;
static mc::Run* G = NULL;

enum { NONE, SINK, PROGRESS, TRACE, SEND, STALL, SOURCE, SHORT, LONG, LISTENER, NKINDS };
static const char* KIND[] = {"none", "sink", "progress", "trace", "send", "stall", "source", "short", "long", "listener"};
struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") {} };
// where the interruption happens: the n-th call of the kind since the operation began
struct Ctl {
	bool armed = false; int kind = NONE; size_t at = 0; int how = 0; size_t part = 0; size_t count[NKINDS] = {0}; bool hit = false; S got;   // got: what was received
	void boom() { hit = true; if (how == 1) throw exceptions::command_error("X", "+OK not an answer"); if (how == 2) throw exceptions::operation_timed_out(); throw Boom(); }
	void tick(int k) { if (!armed) return; ++count[k]; if (k == kind && count[k] == at) boom(); }
};
struct Sink : public utility::outputStream { S s; Ctl* c; Sink(Ctl* x) : c(x) {} void writeImpl(const byte_t* const d, const size_t n) { c->tick(SINK); s.append((const char*) d, n); } void flush() {} };
struct Source : public utility::inputStream {
	S s; size_t p = 0; Ctl* c; size_t block; bool lateEof; bool seenEnd = false; Source(const S& x, Ctl* ctl, size_t b, bool le) : s(x), c(ctl), block(b), lateEof(le) {}
	bool eof() const { return lateEof ? seenEnd : p >= s.size(); } void reset() { p = 0; seenEnd = false; }
	size_t read(byte_t* const d, const size_t n) { c->tick(SOURCE); const size_t k = std::min(std::min(n, block), s.size() - p); memcpy(d, s.data() + p, k); p += k; if (!k) seenEnd = true; return k; }
	size_t skip(const size_t n) { const size_t k = std::min(n, s.size() - p); p += k; return k; } size_t getBlockSize() { return block; }
};
struct Prog : public utility::progressListener { Ctl* c; Prog(Ctl* x) : c(x) {} void start(const size_t) { c->tick(PROGRESS); } void progress(const size_t, const size_t) { c->tick(PROGRESS); } void stop(const size_t) { c->tick(PROGRESS); } };
struct Tracer : public net::tracer { Ctl* c; Tracer(Ctl* x) : c(x) {} void traceSend(const string&) { c->tick(TRACE); } void traceReceive(const string&) { c->tick(TRACE); } void traceSendBytes(const size_t, const string&) { c->tick(TRACE); } void traceReceiveBytes(const size_t, const string&) { c->tick(TRACE); } };
struct TracerFactory : public net::tracerFactory { Ctl* c; TracerFactory(Ctl* x) : c(x) {} shared_ptr <net::tracer> create(const shared_ptr <service>&, const int) { return make_shared <Tracer>(c); } };
// a socket whose n-th write delivers only a part of the data and fails, without closing
struct FaultSocket : public SimSocket {
	Ctl* c; FaultSocket(SimNet* n, shared_ptr <timeoutHandler> th, Ctl* x) : SimSocket(n, th), c(x) {}
	void send(const string& s) {
		if (c->armed && c->kind == SEND && c->count[SEND] + 1 == c->at) { const size_t k = c->part == 0 ? 0 : c->part == 1 ? std::min <size_t>(1, s.size()) : c->part == 2 ? s.size() / 2 : c->part == 3 ? s.size() - std::min <size_t>(s.size(), 6) : s.size(); if (k) SimSocket::send(s.substr(0, k)); }
		c->tick(SEND); SimSocket::send(s);
	}
	void send(const char* s) { send(S(s)); }
	void sendRaw(const byte_t* b, const size_t n) { send(S((const char*) b, n)); }
	void receive(string& s) { SimSocket::receive(s); if (c->armed) c->got += s; }
	size_t receiveRaw(byte_t* b, const size_t n) { const size_t k = SimSocket::receiveRaw(b, n); if (c->armed) c->got.append((const char*) b, k); return k; }
};
struct FaultFactory : public SimSocketFactory {
	Ctl* c; FaultFactory(SimNet* n, Ctl* x) : SimSocketFactory(n), c(x) {}
	shared_ptr <socket> create() { return make_shared <FaultSocket>(net, shared_ptr <timeoutHandler>(), c); }
	shared_ptr <socket> create(const shared_ptr <timeoutHandler>& th) { return make_shared <FaultSocket>(net, th, c); }
};

// what every client under test has in common
struct Base {
	Ctl ctl; SimNet net; int fired = 0; shared_ptr <session> ses;
	virtual ~Base() {}
	void service_(const shared_ptr <service>& s) { s->setSocketFactory(make_shared <FaultFactory>(&net, &ctl)); s->setTimeoutHandlerFactory(make_shared <SimTimeoutFactory>(&net, 1000, &fired)); s->setTracerFactory(make_shared <TracerFactory>(&ctl)); }
	virtual void open() = 0;                                     // connects; every object is fresh
	virtual void op(int k, bool first, bool old) = 0;            // checks its own result; throws when it fails
	virtual void reconnect() = 0;                                // closes what is open, the world changes, connects again
	virtual void check() = 0;                                    // what the server saw
	virtual void again() {}
	virtual int ops() const = 0;
	virtual S opName(int k) const = 0;
	void arm(int kind, size_t at, int how, size_t part) { ctl = Ctl(); ctl.armed = true; ctl.kind = kind; ctl.at = at; ctl.how = how; ctl.part = part; if (kind == STALL) net.stallAt = net.total + at; }
	void disarm() { ctl.armed = false; net.stallAt = size_t(-1); }
	// an operation after the interruption: the right result, or an error; it never waits in vain
	S later(int k, bool old, const S& when) {
		const int f = fired; S r = "ok";
		try { op(k, false, old); }
		catch (mc::Violated&) { throw; }
		catch (std::exception& e) { r = "error"; G->count("operations refused after an interruption"); }
		CHECK(fired == f, when + ": " + opName(k) + " waits for something that never comes");
		CHECK(!net.deadlock, when + ": deadlock in " + opName(k));
		check(); return r;
	}
};

// ---------------------------------------------------------------- POP3
struct PMsg { S uid, data; bool del = false; };
struct PBox { std::vector <PMsg> m; std::vector <S> removed; S protoError; std::vector <S> log; };
struct Pop3 : public LineServer {
	PBox* b; bool auth = false; std::vector <PMsg> v; Pop3(PBox* x) : b(x) {}
	void connected() { reply("+OK ready"); }
	void bad(const S& l) { if (b->protoError.empty()) b->protoError = l; reply("-ERR bad command"); }
	void multi(const S& first, const std::vector <S>& lines) { reply(first); for (auto& l : lines) reply(!l.empty() && l[0] == '.' ? "." + l : l); reply("."); }
	static std::vector <S> split(const S& d) { std::vector <S> r; size_t p = 0; while (p < d.size()) { const size_t e = d.find("\r\n", p); r.push_back(d.substr(p, e - p)); p = e + 2; } return r; }
	PMsg* arg(const S& a) { if (a.size() != 1 || !isdigit(a[0])) { bad("argument " + a); return NULL; } const size_t i = a[0] - '0'; if (i < 1 || i > v.size() || v[i - 1].del) { reply("-ERR no such message"); return NULL; } return &v[i - 1]; }
	void line(const S& l) {
		b->log.push_back(l); size_t i = 0;
		if (l == "QUIT") { if (auth) for (auto& x : v) if (x.del) { b->removed.push_back(x.data); for (size_t k = 0 ; k < b->m.size() ; ++k) if (b->m[k].uid == x.uid) { b->m.erase(b->m.begin() + k); break; } } reply("+OK bye"); closed = true; return; }
		if (l == "CAPA") { multi("+OK", {"TOP", "UIDL"}); return; }
		if (!auth) { if (l.compare(0, 5, "USER ") == 0) reply("+OK"); else if (l.compare(0, 5, "PASS ") == 0) { auth = true; v = b->m; reply("+OK"); } else bad(l); return; }
		if (l == "STAT") { size_t n = 0, z = 0; for (auto& x : v) if (!x.del) { ++n; z += x.data.size(); } reply("+OK " + str(n) + " " + str(z)); }
		else if (l == "NOOP") reply("+OK");
		else if (l == "RSET") { for (auto& x : v) x.del = false; reply("+OK"); }
		else if (l == "LIST") { std::vector <S> r; for (auto& x : v) { ++i; if (!x.del) r.push_back(str(i) + " " + str(x.data.size())); } multi("+OK", r); }
		else if (l == "UIDL") { std::vector <S> r; for (auto& x : v) { ++i; if (!x.del) r.push_back(str(i) + " " + x.uid); } multi("+OK", r); }
		else if (l.compare(0, 5, "LIST ") == 0) { if (auto* m = arg(l.substr(5))) reply("+OK " + l.substr(5) + " " + str(m->data.size())); }
		else if (l.compare(0, 5, "UIDL ") == 0) { if (auto* m = arg(l.substr(5))) reply("+OK " + l.substr(5) + " " + m->uid); }
		else if (l.compare(0, 5, "DELE ") == 0) { if (auto* m = arg(l.substr(5))) { m->del = true; reply("+OK"); } }
		else if (l.compare(0, 5, "RETR ") == 0) { if (auto* m = arg(l.substr(5))) multi("+OK " + str(m->data.size()) + " octets", split(m->data)); }
		else if (l.compare(0, 4, "TOP ") == 0 && l.size() > 7 && l.substr(5) == " 0") { if (auto* m = arg(l.substr(4, 1))) { std::vector <S> r; for (auto& x : split(m->data)) { r.push_back(x); if (x.empty()) break; } multi("+OK", r); } }
		else if (l.compare(0, 4, "TOP ") == 0 && l.substr(5) == " 0") { if (auto* m = arg(l.substr(4, 1))) { std::vector <S> r; for (auto& x : split(m->data)) { r.push_back(x); if (x.empty()) break; } multi("+OK", r); } }
		else bad(l);
	}
};
struct P : public Base {
	enum { RETR1, RETR2, TOP2, NOOP, STAT, UIDL, LIST, DELE3, COUNT };
	PBox box; shared_ptr <store> st; shared_ptr <folder> f, of; std::vector <shared_ptr <net::message> > h, oh; std::vector <S> data; std::set <S> mayRemove; int drained = 0;
	static std::vector <PMsg> initial() { return {{"u1", "Subject: one\r\n\r\n+OK 9 octets\r\n-ERR no\r\n.\r\n+OK\r\n1 fake\r\n2 77\r\n"}, {"u2", "Subject: two\r\nX: y\r\n\r\ntwo\r\n"}, {"u3", "Subject: three\r\n\r\n3\r\n"}, {"u4", "Subject: four\r\n\r\n..\r\n"}}; }
	P() { box.m = initial(); net.server = [this] { return make_shared <Pop3>(&box); }; ses = session::create(); ses->getProperties()["store.pop3.auth.username"] = S("joe"); ses->getProperties()["store.pop3.auth.password"] = S("secret"); ses->getProperties()["store.pop3.options.sasl"] = false; ses->getProperties()["store.pop3.options.apop"] = false; st = ses->getStore(utility::url("pop3://sim.example")); service_(st); }
	int ops() const { return COUNT; }
	S opName(int k) const { static const char* n[] = {"RETR 1", "RETR 2", "TOP 2", "NOOP", "STAT", "UIDL", "LIST", "DELE 3"}; return n[k]; }
	void open() { st->connect(); take(); }
	void take() { f = st->getDefaultFolder(); f->open(folder::MODE_READ_WRITE); h.clear(); data.clear(); for (size_t i = 1 ; i <= f->getMessageCount() ; ++i) { h.push_back(f->getMessage(i)); data.push_back(box.m[i - 1].data); } }
	S uidOf(const S& d) const { for (auto& x : initial()) if (x.data == d) return x.uid; return "u5"; }
	std::vector <S> odata;
	void op(int k, bool first, bool old) {
		auto& F = old ? of : f; auto& H = old ? oh : h; auto& D = old ? odata : data; Prog pr(&ctl);
		switch (k) {
		case RETR1: case RETR2: { const size_t i = k == RETR1 ? 0 : 1; Sink s(&ctl); try { H[i]->extract(s, &pr); } catch (...) { CHECK(D[i].compare(0, s.s.size(), s.s) == 0, opName(k) + " gave wrong data before failing: " + esc(s.s, 200)); throw; } wantEq(s.s, D[i], opName(k)); break; }
		case TOP2: { F->fetchMessage(H[1], fetchAttributes(fetchAttributes::FULL_HEADER)); const S g = H[1]->getHeader()->generate(); wantEq(g, D[1].substr(0, D[1].find("\r\n\r\n") + 2), "header of message 2"); break; }
		case NOOP: st->noop(); break;
		case STAT: { auto s = F->getStatus(); if (!old) { size_t n = 0; for (auto& x : dynamicCast <Pop3>(net.servers.back())->v) n += !x.del; CHECK(s->getMessageCount() == n, "message count " + str(s->getMessageCount())); } break; }
		case UIDL: case LIST: {
			auto v = H; F->fetchMessages(v, fetchAttributes(k == UIDL ? fetchAttributes::UID : fetchAttributes::SIZE));
			for (size_t i = 0 ; i < v.size() ; ++i) { if (k == UIDL) { const S u = v[i]->getUID(); CHECK(u.empty() || u == uidOf(D[i]), "UID of message " + str(i + 1) + ": " + u); } else { const size_t z = v[i]->getSize(); CHECK(z == size_t(-1) || z == D[i].size(), "size of message " + str(i + 1) + ": " + str(z)); } }
			break; }
		case DELE3: mayRemove.insert(D[2]); F->deleteMessages(messageSet::byNumber(3)); break;
		}
		(void) first;
	}
	void reconnect() {
		of = f; oh = h; odata = data; if (st->isConnected()) { try { st->disconnect(); } catch (exception&) {} }
		for (size_t k = 0 ; k < box.m.size() ; ++k) if (box.m[k].uid == "u1") { box.m.erase(box.m.begin()); break; }
		box.m.push_back({"u5", "Subject: five\r\n\r\n+OK\r\n"});
		st->connect(); take();
	}
	void check() { CHECK(box.protoError.empty(), "the server got a line that is not a command: " + esc(box.protoError)); for (auto& d : box.removed) CHECK(mayRemove.count(d), "a message was deleted that nobody deleted: " + esc(d, 100)); }
};

// ---------------------------------------------------------------- SMTP
struct Delivery { S from; std::vector <S> to; S data; };
struct SBox { bool pipe = false, chunk = false; std::vector <Delivery> done; S protoError; };
struct Smtp : public LineServer {
	SBox* b; bool tx = false, inData = false, chunkMode = false, last = false; Delivery cur; size_t n = 0; Smtp(SBox* x) : b(x) {}
	void connected() { reply("220 sim"); }
	void bad(const S& l) { if (b->protoError.empty()) b->protoError = l; reply("501 bad"); }
	bool wantRaw() { return inData || chunkMode; }
	bool takeRaw() {
		if (chunkMode) { if (buf.size() < n) return false; const S d = buf.substr(0, n); buf.erase(0, n); chunkMode = false; if (!tx || cur.to.empty()) { reply("503 no"); return true; } cur.data += d; if (last) { b->done.push_back(cur); tx = false; } reply("250 chunk"); return true; }
		size_t e = buf.compare(0, 3, ".\r\n") == 0 ? 0 : buf.find("\r\n.\r\n"); if (e == S::npos) return false;
		S raw; if (e == 0 && buf.compare(0, 3, ".\r\n") == 0) buf.erase(0, 3); else { raw = buf.substr(0, e + 2); buf.erase(0, e + 5); }
		S d; bool bol = true; for (size_t i = 0 ; i < raw.size() ; ++i) { if (bol && raw[i] == '.') { bol = false; continue; } d += raw[i]; bol = raw[i] == '\n'; }
		inData = false; tx = false; cur.data = d; b->done.push_back(cur); reply("250 queued"); return true;
	}
	void line(const S& l) {
		for (char c : l) if (c == '\r' || c == '\n' || c == 0) { bad(l); return; }
		auto addr = [&](size_t at, S& a) { const size_t e = l.find('>'); if (l.size() <= at || l[at] != '<' || e == S::npos) return false; a = l.substr(at + 1, e - at - 1); return true; };
		S a;
		if (l.compare(0, 5, "EHLO ") == 0) { tx = false; S r = "250-sim"; if (b->pipe) r += "\r\n250-PIPELINING"; if (b->chunk) r += "\r\n250-CHUNKING"; reply(r + "\r\n250 HELP"); }
		else if (l == "RSET") { tx = false; reply("250 flushed"); }
		else if (l == "NOOP") reply("250 ok");
		else if (l == "QUIT") { reply("221 bye"); closed = true; }
		else if (l.compare(0, 10, "MAIL FROM:") == 0) { if (!addr(10, a)) return bad(l); if (tx) { reply("503 nested MAIL"); return; } tx = true; cur = Delivery(); cur.from = a; reply("250 sender"); }
		else if (l.compare(0, 8, "RCPT TO:") == 0) { if (!addr(8, a)) return bad(l); if (!tx) { reply("503 need MAIL"); return; } if (a.compare(0, 6, "refuse") == 0) { reply("550 no such user"); return; } cur.to.push_back(a); reply("250 recipient"); }
		else if (l == "DATA") { if (!tx || cur.to.empty()) { reply("554 no recipients"); return; } inData = true; reply("354 go"); }
		else if (l.compare(0, 5, "BDAT ") == 0) { std::istringstream is(l.substr(5)); S w; if (!(is >> n)) return bad(l); last = bool(is >> w); if (last && w != "LAST") return bad(l); if (!b->chunk) return bad(l); chunkMode = true; }
		else bad(l);
	}
};
struct M : public Base {
	enum { SEND1, SENDMSG, SENDREF, MSGREF, NOOP, COUNT };
	SBox box; shared_ptr <transport> tr; struct Want { S from; std::vector <S> to; S data; bool ok, may; size_t before; }; std::vector <Want> wants; int serial = 0; int cut = 0;   // cut: the source is shorter / longer than announced
	M(bool p, bool c) { box.pipe = p; box.chunk = c; net.server = [this] { return make_shared <Smtp>(&box); }; ses = session::create(); tr = ses->getTransport(utility::url("smtp://sim.example")); service_(tr); }
	int ops() const { return COUNT; }
	S opName(int k) const { static const char* n[] = {"sending a stream", "sending a message", "sending a stream to a refused recipient", "sending a message to a refused recipient", "NOOP"}; return n[k]; }
	void open() { tr->connect(); }
	void op(int k, bool first, bool old) {
		(void) old; Prog pr(&ctl); if (k == NOOP) { tr->noop(); return; }
		const S id = "m" + str(++serial); Want w; w.from = id + "@from.example"; w.to = {id + "a@to.example"}; w.ok = false; w.may = true; w.before = box.done.size();
		if (k == SENDREF || k == MSGREF) w.to.push_back("refuse" + id + "@to.example"); else w.to.push_back(id + "b@to.example");
		mailboxList to; for (auto& a : w.to) to.appendMailbox(make_shared <mailbox>(emailAddress(a)));
		if (k == SEND1 || k == SENDREF) {
			w.data = "Subject: " + id + "\r\n\r\n.\r\n250 ok\r\nQUIT\r\n..\r\nend " + id + "\r\n"; wants.push_back(w);
			S d = w.data; if (first && ctl.kind == SHORT) d.resize(d.size() - ctl.at); if (first && ctl.kind == LONG) d += S(ctl.at, 'x');
			Source s(d, &ctl, 16, serial & 1); tr->send(mailbox(emailAddress(w.from)), to, s, w.data.size(), &pr);
			if (d != w.data) wants.back().data = d;       // the announced size is only a hint here
		} else {
			const S raw = "Subject: " + id + "\r\nFrom: f@from.example\r\nDate: Mon, 01 Jan 2024 00:00:00 +0000\r\nMime-Version: 1.0\r\n\r\n.\r\n250 " + id + "\r\n" + (first ? S(40000, 'z') + "\r\n" : S()); auto m = make_shared <vmime::message>(); m->parse(raw);
			w.data = m->generate(); wants.push_back(w); tr->send(m, mailbox(emailAddress(w.from)), to, &pr);
		}
		wants.back().ok = true;
		if (k == SENDREF || k == MSGREF) CHECK(false, "sending succeeded although a recipient was refused");
	}
	void reconnect() { if (tr->isConnected()) tr->disconnect(); tr->connect(); }
	void again() { if (!tr->isConnected()) tr->connect(); }      // it hangs up when only some recipients of a pipelined message are accepted
	void check() {
		CHECK(box.protoError.empty(), "the server got a line that is not a command: " + esc(box.protoError));
		std::map <S, int> seen;
		for (auto& d : box.done) {
			bool found = false;
			for (auto& w : wants) if (w.from == d.from) { found = true; ++seen[w.from]; CHECK(d.to == w.to, "message of " + d.from + " accepted for " + (d.to.empty() ? S("nobody") : d.to[0])); const bool same = d.data == w.data || d.data == w.data + "\r\n"; CHECK(same, "message of " + d.from + " accepted as '" + esc(d.data.substr(0, 200)) + "' (" + str(d.data.size()) + " bytes) instead of '" + esc(w.data.substr(0, 200)) + "' (" + str(w.data.size()) + ")"); }
			CHECK(found, "unknown sender " + d.from);
		}
		for (auto& w : wants) { const int n = seen[w.from]; CHECK(n <= 1, "message of " + w.from + " accepted " + str(n) + " times"); CHECK(!w.ok || n == 1, "message of " + w.from + " was reported as sent but not accepted"); }
	}
};

// ---------------------------------------------------------------- IMAP
struct I : public Base, public events::messageCountListener, public events::messageChangedListener {
	enum { EXTRACT1, EXTRACT3, EXTRACTPART, FETCH, STORE, APPEND, APPENDMSG, COPY, EXPUNGE, NOOP, STATUS, FSTATUS, SEARCH, FOLDERS, NUMBER, COUNT };
	imapsim::World w; shared_ptr <store> st; shared_ptr <folder> f, of; struct Held { shared_ptr <net::message> m; imapsim::PMsg s; }; std::vector <Held> h, oh; bool change = false; int serial = 0; std::vector <S> sent; std::vector <std::pair <S, bool> > appended;
	void messagesAdded(const shared_ptr <events::messageCountEvent>&) { ctl.tick(LISTENER); } void messagesRemoved(const shared_ptr <events::messageCountEvent>&) { ctl.tick(LISTENER); } void messageChanged(const shared_ptr <events::messageChangedEvent>&) { ctl.tick(LISTENER); }
	I(bool lit, bool chg) : change(chg) {
		w.box["INBOX"]; w.box["Copy"]; w.strings = lit; net.server = [this] { return make_shared <imapsim::Conn>(&w); };
		const char* d[] = {"Subject: one\r\n\r\n* 1 FETCH (BODY[] {3}\r\nabc)\r\na005 OK done\r\n)\r\n", "Subject: two\r\n\r\ntwo\r\n", "Subject: three\r\n\r\n* 9 EXISTS\r\na004 OK x\r\na006 OK x\r\n", "Subject: four\r\n\r\n4\r\n"};
		for (int i = 0 ; i < 4 ; ++i) { auto m = w.add("INBOX", d[i]); m->root = std::make_shared <imapsim::MPart>(); m->root->type = "text"; m->root->sub = "plain"; m->root->body = m->text(); m->root->hdr = {m->data.substr(0, m->data.find("\r\n"))}; }
		ses = session::create(); ses->getProperties()["store.imap.auth.username"] = S("joe"); ses->getProperties()["store.imap.auth.password"] = S("secret"); ses->getProperties()["store.imap.options.sasl"] = false;
		st = ses->getStore(utility::url("imap://sim.example")); service_(st);
	}
	~I() { if (f) { f->removeMessageCountListener(this); f->removeMessageChangedListener(this); } if (of) { of->removeMessageCountListener(this); of->removeMessageChangedListener(this); } h.clear(); oh.clear(); f.reset(); of.reset(); st.reset(); ses.reset(); net.servers.clear(); }
	int ops() const { return COUNT; }
	S opName(int k) const { static const char* n[] = {"extracting message 1", "extracting message 3", "extracting a part", "FETCH", "STORE", "APPEND of a stream", "APPEND of a message", "COPY", "EXPUNGE", "NOOP", "STATUS", "STATUS of the folder", "SEARCH", "LIST", "the number of messages"}; return n[k]; }
	void open() { st->connect(); take(); if (change) { w.expunge("INBOX", 2); w.expunge("INBOX", 1); } }
	void take() { f = st->getFolder(folder::path("INBOX")); f->addMessageCountListener(this); f->addMessageChangedListener(this); f->open(folder::MODE_READ_WRITE); h.clear(); auto& v = w.box["INBOX"].m; for (size_t i = 0 ; i < v.size() ; ++i) h.push_back({f->getMessage(i + 1), v[i]}); }
	void op(int k, bool first, bool old) {
		auto& F = old ? of : f; auto& H = old ? oh : h; Prog pr(&ctl); typedef net::message N;
		auto at = [&](unsigned uid) -> Held* { for (auto& x : H) if (x.s->uid == uid) return &x; return NULL; };
		switch (k) {
		case EXTRACT1: case EXTRACT3: { Held* x = at(k == EXTRACT1 ? 1 : 3); if (!x) break; Sink s(&ctl); try { x->m->extract(s, &pr, 0, size_t(-1), k == EXTRACT3); } catch (exceptions::command_error&) { if (!ctl.armed) throw; throw; } wantEq(s.s, x->s->data, opName(k)); break; }
		case EXTRACTPART: { Held* x = at(4); if (!x) break; F->fetchMessage(x->m, fetchAttributes(fetchAttributes::STRUCTURE)); auto p = x->m->getStructure()->getPartAt(0); Sink s(&ctl); x->m->extractPart(p, s, &pr); wantEq(s.s, x->s->data, opName(k)); break; }
		case FETCH: { std::vector <shared_ptr <net::message> > v; for (auto& x : H) if (!x.m->isExpunged()) v.push_back(x.m); if (v.empty()) break; F->fetchMessages(v, fetchAttributes(fetchAttributes::UID | fetchAttributes::SIZE | fetchAttributes::FLAGS | fetchAttributes::FULL_HEADER), &pr);
			for (auto& x : H) if (!x.m->isExpunged()) { bool there = false; for (auto& y : w.box["INBOX"].m) there |= y == x.s; if (!there) continue; CHECK(S(x.m->getUID()) == str(x.s->uid), "UID " + S(x.m->getUID()) + " of message with UID " + str(x.s->uid)); CHECK(x.m->getSize() == x.s->data.size(), "size of message with UID " + str(x.s->uid) + ": " + str(x.m->getSize())); wantEq(x.m->getHeader()->generate(), x.s->header().substr(0, x.s->header().size() - 2), "header of message with UID " + str(x.s->uid)); CHECK(bool(x.m->getFlags() & N::FLAG_MARKED) == bool(x.s->flags.count("\\Flagged")), "flags"); } break; }
		case STORE: { Held* x = at(3); if (!x) break; x->m->setFlags(N::FLAG_MARKED, N::FLAG_MODE_ADD); CHECK(x->s->flags.count("\\Flagged"), "the flag was not set"); break; }
		case APPEND: { const S d = "Subject: new " + str(++serial) + "\r\n\r\n1234567890\r\na00" + str(serial) + " NOOP\r\nend\r\n"; S e = d; if (first && ctl.kind == SHORT) e.resize(d.size() - ctl.at); if (first && ctl.kind == LONG) e += S(ctl.at, 'x'); sent.push_back(d); Source s(e, &ctl, 16, serial & 1); F->addMessage(s, d.size(), N::FLAG_SEEN, NULL, &pr); CHECK(e == d, "a message of another size than announced was appended"); bool in = false; for (auto& m : w.box["INBOX"].m) in |= m->data == d; CHECK(in, "the appended message is not there"); break; }
		case APPENDMSG: { auto m = make_shared <vmime::message>(); m->parse("Subject: gen " + str(++serial) + "\r\nFrom: f@from.example\r\nDate: Mon, 01 Jan 2024 00:00:00 +0000\r\nMime-Version: 1.0\r\n\r\nbody\r\n"); const S d = m->generate(); sent.push_back(d); F->addMessage(m, -1, NULL, &pr); bool in = false; for (auto& x : w.box["INBOX"].m) in |= x->data == d; CHECK(in, "the appended message is not there"); break; }
		case COPY: { Held* x = at(4); if (!x || x->m->isExpunged()) break; const size_t n = w.box["Copy"].m.size(); F->copyMessages(folder::path("Copy"), messageSet::byNumber(x->m->getNumber())); CHECK(w.box["Copy"].m.size() == n + 1 && w.box["Copy"].m.back()->data == x->s->data, "copy of message 4"); break; }
		case EXPUNGE: { Held* x = at(4); if (!x || x->m->isExpunged()) break; F->deleteMessages(messageSet::byNumber(x->m->getNumber())); F->expunge(); for (auto& m : w.box["INBOX"].m) CHECK(m->uid != 4, "message 4 was not expunged"); break; }
		case NOOP: st->noop(); break;
		case STATUS: { size_t c = 0, u = 0; F->status(c, u); CHECK(c == w.box["INBOX"].m.size(), "message count " + str(c)); break; }
		case FSTATUS: { auto s = F->getStatus(); CHECK(s->getMessageCount() == w.box["INBOX"].m.size(), "message count " + str(s->getMessageCount())); break; }
		case SEARCH: { auto v = F->getMessageNumbersStartingOnUID("3"); auto* c = conn(); if (c && !old) { std::vector <size_t> x; for (size_t i = 0 ; i < c->view.size() ; ++i) if (c->view[i]->uid >= 3) x.push_back(i + 1); CHECK(v == x, "numbers from UID 3: " + mc::show(v) + " instead of " + mc::show(x)); } break; }
		case NUMBER: { const size_t n = F->getMessageCount(); auto* c = conn(); if (c && !old) CHECK(n == c->view.size(), "number of messages: " + str(n) + " instead of " + str(c->view.size())); break; }
		case FOLDERS: { auto v = st->getRootFolder()->getFolders(false); CHECK(v.size() == 2, "folders: " + str(v.size())); break; }
		}
	}
	imapsim::Conn* conn() { imapsim::Conn* r = NULL; for (auto* c : w.conns) if (c->sel == "INBOX") r = c; return r; }
	void reconnect() {
		if (f) { f->removeMessageCountListener(this); f->removeMessageChangedListener(this); }
		of = f; oh = h; try { st->disconnect(); } catch (std::exception&) {}
		w.expunge("INBOX", 1); w.add("INBOX", "Subject: five\r\n\r\n5\r\n"); w.box["INBOX"].m.back()->root = w.box["INBOX"].m[0]->root;
		st->connect(); take();
	}
	void check() {
		CHECK(w.protoError.empty(), "the server got a line that is not a command: " + esc(w.protoError));
		for (auto& m : w.box["INBOX"].m) if (m->uid > 4 && m->data.compare(0, 13, "Subject: five")) { bool in = false; for (auto& d : sent) in |= d == m->data; CHECK(in, "a message was appended that nobody sent: " + esc(m->data, 200)); }
		for (auto& m : w.box["INBOX"].m) { if (m->flags.count("\\Flagged")) CHECK(m->uid == 3, "flag set on the message with UID " + str(m->uid)); if (m->flags.count("\\Deleted")) CHECK(m->uid == 4, "the message with UID " + str(m->uid) + " was deleted"); }
		for (auto& m : w.box["Copy"].m) CHECK(m->data.compare(0, 13, "Subject: four") == 0, "another message was copied: " + esc(m->data, 100));
		unsigned there = 0; for (auto& m : w.box["INBOX"].m) there |= 1u << m->uid; CHECK(there & 8u, "the message with UID 3 is gone");
	}
};

template <class F> static void cases(mc::Run& R, const S& name, F make, const std::vector <int>& kinds, int later1) {
	std::unique_ptr <Base> probe(make()); const int n = probe->ops();
	for (int a = 0 ; a < n ; ++a) for (int kd : kinds) R.testL([&] { return name + "|" + str(a) + " " + probe->opName(a) + " " + KIND[kd] + (later1 ? " then two" : ""); }, [&] {
		// how often each kind of call happens without interruption
		size_t cnt[NKINDS]; S got; { std::unique_ptr <Base> c(make()); c->open(); c->arm(NONE, 0, 0, 0); try { c->op(a, true, false); } catch (mc::Violated&) { throw; } catch (std::exception&) {} c->disarm(); memcpy(cnt, c->ctl.count, sizeof(cnt)); got = c->ctl.got; c->check(); R.outcome(name + str(a) + "u"); }
		struct Pt { int kind; size_t at; int how; size_t part; };
		std::vector <Pt> pts;
		{ const int k = kd;
			if (k == STALL) { for (size_t i = 0 ; i < got.size() ; ++i) { bool in = (R.thorough && !later1) || i < 2; for (size_t j = i < 2 ? 0 : i - 2 ; j < got.size() && j <= i + 1 ; ++j) in |= got[j] == '\n' || got[j] == '{'; if (in) pts.push_back({k, i, 0, 0}); } }
			else if (k == SHORT || k == LONG) { if (cnt[SOURCE]) for (size_t i : {1, 2, 16, 17}) pts.push_back({k, i, 0, 0}); }
			else if (k == SEND) { for (size_t i = 1 ; i <= cnt[k] ; ++i) for (size_t p = 0 ; p < 5 ; ++p) pts.push_back({k, i, 2, p}); }
			else for (size_t i = 1 ; i <= cnt[k] ; ++i) for (int h = 0 ; h < 2 ; ++h) pts.push_back({k, i, h, 0});
		}
		for (auto& pt : pts) for (int b = 0 ; b < n ; ++b) for (int b2 = later1 ? 0 : n - 1 ; b2 < n ; ++b2) {
			std::unique_ptr <Base> c(make()); c->open(); c->arm(pt.kind, pt.at, pt.how, pt.part); R.transition();
			const S when = S(KIND[pt.kind]) + " " + str(pt.at) + "/" + str(pt.how) + "/" + str(pt.part) + " in " + c->opName(a);
			S r = "ok";
			try { try { c->op(a, true, false); } catch (mc::Violated&) { throw; } catch (std::exception& e) { r = "error"; } } catch (mc::Violated& e) { throw mc::Violated(when + ": " + e.what()); }
			c->disarm(); CHECK(!c->net.deadlock, when + ": deadlock");
			if (c->ctl.hit && pt.kind != LISTENER) CHECK(r == "error", when + ": reported as success");
			try {
				c->check();
				S o = r + c->later(b, false, when);
				if (later1) o += c->later(b2, false, when);
				R.outcome(name + str(a) + KIND[pt.kind] + str(b) + o);
				c->reconnect(); c->later(b, true, when + ", after reconnecting, with the old objects");
				for (int k = 0 ; k < 2 ; ++k) { c->again(); try { c->op(k ? 1 : b, false, false); } catch (mc::Violated&) { throw; } catch (std::exception& e) { const bool refused = c->opName(b).find("refused") != S::npos; CHECK(refused && !k, "after reconnecting, " + c->opName(k ? 1 : b) + " fails: " + e.what()); } c->check(); }
				CHECK(c->fired <= (pt.kind == STALL ? 1 : 0), "time-outs: " + str(c->fired));
			} catch (mc::Violated& e) { throw mc::Violated(when + ", then " + c->opName(b) + ": " + e.what()); }
		}
		R.state(name + str(a)); R.trace();
	});
}

void mc_main(mc::Run& R) {
	R.property = "C42"; R.level = "model_checking"; G = &R; initPlatform();
	R.rule = "Model servers for POP3, SMTP (with and without PIPELINING and CHUNKING) and IMAP, strict about every line. Every operation of the clients is interrupted at every call of the application's code (output stream, source, progress listener, tracer, message listeners), at every write (with five lengths of what was sent), by a source of another length than announced, and by a declined time-out while waiting for the answer (quick: within two bytes of the line ends and literals; thorough: at every byte); then every other operation (thorough: every pair) follows, then a new connection in a changed world, the same operation with the old objects, and with new ones.";
	R.assumptions = {"an interruption is an exception of the application or a declined time-out; the loss of the connection itself is C21, C22, C35 and C37", "the folder of the IMAP server is changed by one other client"};
	const std::vector <int> common = {PROGRESS, TRACE, SEND, STALL};
	auto with = [&](std::vector <int> x) { x.insert(x.end(), common.begin(), common.end()); return x; };
	for (int two = 0 ; two < (R.thorough ? 2 : 1) ; ++two) {
		cases(R, "pop3", [] { return new P; }, with({SINK}), two);
		for (int p = 0 ; p < 2 ; ++p) for (int c = 0 ; c < 2 ; ++c) cases(R, S("smtp") + (p ? "+pipelining" : "") + (c ? "+chunking" : ""), [p, c] { return new M(p, c); }, with({SOURCE, SHORT, LONG}), two);
		for (int l = 0 ; l < 2 ; ++l) for (int c = 0 ; c < 2 ; ++c) if (R.thorough || l != c) cases(R, S("imap") + (l ? "+literals" : "") + (c ? "+changes" : ""), [l, c] { return new I(l, c); }, with({SINK, SOURCE, SHORT, LONG, LISTENER}), two);
	}
}
