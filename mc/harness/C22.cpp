// C22: the POP3 client retrieves exactly what the server stores.
#include "netsim.hpp"
#include "lts.hpp"
#include "mc_main.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
using namespace vmime; using namespace vmime::net;

struct Msg { S uid, data; bool del = false; };
struct Box {
	std::vector <Msg> m; std::map <int, S> dev; int n = 0; std::vector <S> log; S banner = "+OK sim ready", user, pass; S protoError; bool crlfCapa = true; int apop = 0; bool refuseUser = false, refuseApop = false; S apopLine;
	S anyError; int refused = 0; bool stuffList = false; bool lf = false; bool early = false;
};
static mc::Run* G = NULL;

// the server: RFC 1939, strict about everything it is sent
struct Pop3 : public LineServer {
	Box* b; bool auth = false;
	Pop3(Box* x) : b(x) {}
	void connected() { reply(b->banner); if (b->lf) toLF(0); }
	void toLF(size_t from) { S o = out.substr(0, from); for (size_t i = from ; i < out.size() ; ++i) if (out[i] != '\r' || i + 1 >= out.size() || out[i + 1] != '\n') o += out[i]; out = o; }
	void data(const S& in) { if (!out.empty() && in.compare(0, 4, "QUIT") != 0) b->early = true; const size_t had = out.size(); LineServer::data(in); if (b->lf) toLF(had); }
	bool scripted() {      // a deviation replaces the reply, and the command has no effect
		auto it = b->dev.find(b->n++); if (it == b->dev.end()) return false;
		if (it->second == "hang") closed = true; else reply(it->second);
		++b->refused; return true;
	}
	void bad(const S& l) { if (b->protoError.empty()) b->protoError = l; reply("-ERR bad command"); }
	void multi(const S& first, const std::vector <S>& lines) { reply(first); for (auto& l : lines) reply(!l.empty() && l[0] == '.' ? "." + l : l); reply("."); }
	static std::vector <S> split(const S& d) { std::vector <S> v; size_t p = 0; while (p < d.size()) { size_t e = d.find("\r\n", p); if (e == S::npos) e = d.size(); v.push_back(d.substr(p, e - p)); p = e + 2; } return v; }
	bool arg(const S& l, size_t at, size_t& i) { const S a = l.substr(at); if (a.empty() || a.find_first_not_of("0123456789") != S::npos) { bad(l); return false; } i = std::stoul(a); if (i < 1 || i > b->m.size() || b->m[i - 1].del) { reply("-ERR no such message"); ++b->refused; return false; } return true; }
	void line(const S& l) {
		b->log.push_back(l);
		G->state(str(auth) + l.substr(0, 4) + str(b->n) + "," + str(b->m.size()) + "," + str(b->dev.size()));
		for (char c : l) if (c == '\r' || c == '\n' || c == 0) { bad(l); return; }
		size_t i = 0;
		if (l == "QUIT") { if (scripted()) return; if (auth) { std::vector <Msg> k; for (auto& x : b->m) if (!x.del) k.push_back(x); b->m = k; } reply("+OK bye"); closed = true; return; }
		if (l == "CAPA") { if (scripted()) return; std::vector <S> c = {"TOP", "UIDL"}; if (b->stuffList) c = {".x", "...", "..a", ".", "TOP"}; multi("+OK", c); return; }
		if (!auth) {
			if (l.compare(0, 5, "USER ") == 0) { if (scripted()) return; b->user = l.substr(5); reply(b->refuseUser ? "-ERR no" : "+OK"); }
			else if (l.compare(0, 5, "PASS ") == 0) { if (scripted()) return; b->pass = l.substr(5); auth = true; reset(); reply("+OK"); }
			else if (l.compare(0, 5, "APOP ") == 0) { if (scripted()) return; b->apopLine = l; if (b->refuseApop) { reply("-ERR no"); return; } auth = true; reset(); reply("+OK"); }
			else if (l == "NOOP") reply("-ERR not now");
			else bad(l);
			return;
		}
		if (scripted()) return;
		if (l == "STAT") { size_t n = 0, z = 0; for (auto& x : b->m) if (!x.del) { ++n; z += x.data.size(); } reply("+OK " + str(n) + " " + str(z)); }
		else if (l == "NOOP") reply("+OK");
		else if (l == "RSET") { reset(); reply("+OK"); }
		else if (l == "LIST") { std::vector <S> v; for (auto& x : b->m) { ++i; if (!x.del) v.push_back(str(i) + " " + str(x.data.size())); } multi("+OK " + str(v.size()) + " messages", v); }
		else if (l == "UIDL") { std::vector <S> v; for (auto& x : b->m) { ++i; if (!x.del) v.push_back(str(i) + " " + x.uid); } multi("+OK", v); }
		else if (l.compare(0, 5, "LIST ") == 0) { if (arg(l, 5, i)) reply("+OK " + str(i) + " " + str(b->m[i - 1].data.size())); }
		else if (l.compare(0, 5, "UIDL ") == 0) { if (arg(l, 5, i)) reply("+OK " + str(i) + " " + b->m[i - 1].uid); }
		else if (l.compare(0, 5, "DELE ") == 0) { if (arg(l, 5, i)) { b->m[i - 1].del = true; reply("+OK deleted"); } }
		else if (l.compare(0, 5, "RETR ") == 0) { if (arg(l, 5, i)) multi("+OK " + str(b->m[i - 1].data.size()) + " octets", split(b->m[i - 1].data)); }
		else if (l.compare(0, 4, "TOP ") == 0) {
			const size_t sp = l.find(' ', 4); if (sp == S::npos) { bad(l); return; }
			if (!arg(l.substr(0, sp), 4, i)) return;
			size_t n = std::stoul(l.substr(sp + 1)); std::vector <S> v; bool body = false;
			for (auto& x : split(b->m[i - 1].data)) { if (body && !n--) break; v.push_back(x); if (x.empty()) body = true; if (body && n == 0) break; }
			multi("+OK top", v);
		}
		else bad(l);
	}
	void reset() { for (auto& x : b->m) x.del = false; }
};

struct Client {
	SimNet net; Box box; shared_ptr <session> ses; shared_ptr <store> st; shared_ptr <folder> f;
	Client() { net.server = [this] { return make_shared <Pop3>(&box); }; make(); }
	void make(const S& user = "joe", const S& pass = "secret") {
		ses = session::create(); ses->getProperties()["store.pop3.auth.username"] = user; ses->getProperties()["store.pop3.auth.password"] = pass;
		st = ses->getStore(utility::url("pop3://sim.example")); st->setSocketFactory(make_shared <SimSocketFactory>(&net));
	}
	void open() { if (!st->isConnected()) st->connect(); f = st->getDefaultFolder(); f->open(folder::MODE_READ_WRITE); }
	S extract(size_t n) { auto m = f->getMessage(n); S s; utility::outputStreamStringAdapter os(s); m->extract(os); return s; }
	void ok() { CHECK(!net.deadlock, "the client waits for something the server never sends (last command " + (box.log.empty() ? S() : esc(box.log.back())) + ")"); CHECK(box.protoError.empty(), "protocol error: " + esc(box.protoError)); CHECK(!box.early || !box.dev.empty() || net.cutAt != size_t(-1), "a command is sent before the reply to the previous one was read (" + (box.log.empty() ? S() : esc(box.log.back())) + ")"); }
};
static void wantEq(const S& got, const S& want, const S& what) { CHECK(got == want, what + ": got '" + esc(got, 300) + "' instead of '" + esc(want, 300) + "'"); }

// ---- histories over a small mailbox
struct Sys {
	bool real; std::unique_ptr <Client> c; std::vector <Msg> m; bool open = false; S last, want, past; std::map <size_t, shared_ptr <net::message> > held, held2;
	struct Ev : public events::messageChangedListener, public events::messageCountListener { std::vector <S> got; void messageChanged(const shared_ptr <events::messageChangedEvent>& e) { S s = "changed"; for (size_t n : e->getNumbers()) s += " " + str(n); got.push_back(s); } void messagesAdded(const shared_ptr <events::messageCountEvent>&) { got.push_back("added"); } void messagesRemoved(const shared_ptr <events::messageCountEvent>&) { got.push_back("removed"); } } ev;
	static std::vector <Msg> initial() { return {{"u1", "Subject: one\r\nX: .\r\n\r\n.\r\n..\r\nbody\r\n"}, {"u2", "Subject: two\r\n\r\n"}, {"u3", "Subject: three\r\n\r\n.end\r\n"}}; }
	Sys(bool r) : real(r), m(initial()) { if (real) { c.reset(new Client); c->box.m = m; } }
	~Sys() { held.clear(); held2.clear(); if (c && c->f) c->f->removeMessageChangedListener(&ev); }
	// 0 open; 1 close(true); 2 close(false); 3-5 extract; 6-8 delete one; 9 delete 2:*; 10 delete {3,1}; 11 fetch all; 12-14 fetch one; 15 reconnect; 16 status; 17-19 hold; 20 noop; 21 delete via store of numbers 1:2
	size_t opCount() const { return 22; }
	S opName(size_t i) const { static const char* n[] = {"open", "close+expunge", "close", "extract 1", "extract 2", "extract 3", "delete 1", "delete 2", "delete 3", "delete 2:*", "delete 3,1", "fetch all", "fetch 1", "fetch 2", "fetch 3", "reconnect", "status", "hold 1", "hold 2", "hold 3", "noop", "delete 1:2"}; return n[i]; }
	bool dirty = false;      // folder closed with deletions pending on the server
	bool enabled(size_t i) const {
		if (i == 0) return !open && !dirty;      // reopening needs a new session once messages are gone
		if (i == 15 || i == 20) return true;
		if (!open) return false;
		auto has = [&](size_t k) { return k <= m.size(); };
		if (i >= 3 && i <= 5) return has(i - 2);
		if (i >= 6 && i <= 8) return has(i - 5);
		if (i == 9) return has(2);
		if (i == 10) return has(3);
		if (i >= 12 && i <= 14) return has(i - 11);
		if (i >= 17 && i <= 19) return has(i - 16);
		if (i == 21) return has(2);
		return true;
	}
	void need() { if (!c->st->isConnected()) c->st->connect(); }
	void step(size_t i) {
		if (real) need();
		ev.got.clear();
		auto all = [&](bool uid) { int a = fetchAttributes::SIZE | fetchAttributes::FULL_HEADER; if (uid) a |= fetchAttributes::UID; return fetchAttributes(a); };
		auto subject = [](const S& d) { return d.substr(9, d.find("\r\n") - 9); };
		auto checkMsg = [&](const shared_ptr <net::message>& x, size_t n) {
			CHECK(x->getNumber() == n && x->getSize() == m[n - 1].data.size(), "message " + str(n) + " has number " + str(x->getNumber()) + " size " + str(x->getSize()));
			wantEq(S(x->getUID()), m[n - 1].uid, "uid of message " + str(n));
			wantEq(x->getHeader()->Subject()->generate().substr(9), subject(m[n - 1].data), "subject of message " + str(n));
		};
		auto del = [&](const messageSet& set, std::vector <size_t> nums) {
			bool fail = false; size_t done = 0; for (size_t n : nums) { if (m[n - 1].del) { fail = true; break; } m[n - 1].del = true; ++done; }
			if (!real) return;
			bool thrown = false; try { c->f->deleteMessages(set); } catch (exceptions::command_error&) { thrown = true; }
			CHECK(thrown == fail, thrown ? "deletion failed" : "deletion of a deleted message accepted");
			if (!fail) { std::sort(nums.begin(), nums.end()); S w = "changed"; for (size_t n : nums) w += " " + str(n); CHECK(ev.got.size() == 1 && ev.got[0] == w, "events " + mc::show(ev.got) + " instead of " + w); }
		};
		if (i == 0) { open = true; for (auto& x : m) x.del = false; if (real) { if (past.empty() || !c->f) { c->f = c->st->getDefaultFolder(); c->f->addMessageChangedListener(&ev); } c->f->open(folder::MODE_READ_WRITE); } }
		else if (i == 1 || i == 2) { open = false; past = held.empty() ? "c" : "ch"; if (i == 2) for (auto& x : m) x.del = false; for (auto& x : m) if (x.del) dirty = true; if (real) { c->f->close(i == 1); CHECK(!c->f->isOpen(), "still open"); for (auto& h : held) { bool t = false; try { S x; utility::outputStreamStringAdapter o(x); h.second->extract(o); } catch (vmime::exception&) { t = true; } CHECK(t, "message of a closed folder extracted"); } } held.clear(); held2.clear(); }
		else if (i >= 3 && i <= 5) {
			const size_t n = i - 2; if (!real) return;
			bool thrown = false; S got; try { got = c->extract(n); } catch (exceptions::command_error&) { thrown = true; }
			CHECK(thrown == m[n - 1].del, thrown ? "message " + str(n) + " cannot be extracted" : "deleted message " + str(n) + " extracted");
			if (!thrown) wantEq(got, m[n - 1].data, "message " + str(n));
		}
		else if (i >= 6 && i <= 8) del(messageSet::byNumber(i - 5), {i - 5});
		else if (i == 9) { std::vector <size_t> v; for (size_t k = 2 ; k <= m.size() ; ++k) v.push_back(k); del(messageSet::byNumber(2, size_t(-1)), v); }
		else if (i == 10) { del(messageSet::byNumber(std::vector <size_t>{3, 1}), {1, 3}); }
		else if (i == 21) del(messageSet::byNumber(1, 2), {1, 2});
		else if (i == 11) {
			if (!real) return;
			bool any = false; for (auto& x : m) any = any || x.del;
			std::vector <shared_ptr <net::message> > v = c->f->getMessages(messageSet::byNumber(1, size_t(-1))); CHECK(v.size() == m.size(), "number of messages");
			if (!any) { c->f->fetchMessages(v, all(true)); for (size_t k = 0 ; k < v.size() ; ++k) checkMsg(v[k], k + 1); }
			else {
				std::vector <shared_ptr <net::message> > w; for (size_t k = 0 ; k < v.size() ; ++k) if (!m[k].del) w.push_back(v[k]);
				c->f->fetchMessages(w, all(true)); for (auto& x : w) checkMsg(x, x->getNumber());
				c->f->fetchMessages(v, fetchAttributes::SIZE); for (size_t k = 0 ; k < v.size() ; ++k) if (m[k].del) { bool t = false; try { v[k]->getSize(); } catch (exceptions::unfetched_object&) { t = true; } CHECK(t, "size of a deleted message"); }
			}
		}
		else if (i >= 12 && i <= 14) {
			const size_t n = i - 11; if (!real) return;
			auto x = c->f->getMessage(n); bool thrown = false; try { c->f->fetchMessage(x, all(true)); } catch (vmime::exception&) { thrown = true; }
			CHECK(thrown == m[n - 1].del, thrown ? "fetch failed" : "deleted message fetched"); if (!thrown) checkMsg(x, n);
		}
		else if (i == 15) {
			std::vector <Msg> k; for (auto& x : m) if (!x.del) k.push_back(x); m = k; open = false; dirty = false; past.clear(); 
			if (real) { auto f = c->f; c->st->disconnect(); CHECK(!c->st->isConnected(), "still connected"); c->st->connect(); if (f) { bool t = false; try { f->getMessageCount(); } catch (exceptions::illegal_state&) { t = true; } CHECK(t, "folder of the previous connection still usable"); f->removeMessageChangedListener(&ev); c->f = null; } for (auto& h : held) { bool t = false; try { S s; utility::outputStreamStringAdapter os(s); h.second->extract(os); } catch (vmime::exception&) { t = true; } CHECK(t, "message of the previous connection still usable"); } }
			held.clear();
		}
		else if (i == 16) { if (!real) return; auto s = c->f->getStatus(); size_t n = 0; for (auto& x : m) if (!x.del) ++n; CHECK(s->getMessageCount() == n, "status reports " + str(s->getMessageCount()) + " messages"); CHECK(ev.got.empty(), "event without a change"); }
		else if (i >= 17 && i <= 19) { const size_t n = i - 16; if (real) { held[n] = c->f->getMessage(n); held2[n] = c->f->getMessage(n); } else held[n]; if (real && m[n - 1].del) { held.erase(n); held2.erase(n); } }
		else if (i == 20) { if (real) c->st->noop(); }
	}
	void check() {
		if (!real) return;
		c->ok();
		S a, b; for (auto& x : m) a += x.uid + (x.del ? "D " : " "); for (auto& x : c->box.m) b += x.uid + (x.del ? "D " : " "); 
		CHECK(a == b, "mailbox on the server is [" + b + "] instead of [" + a + "]");
		if (open) {
			CHECK(c->f->isOpen() && c->f->getMessageCount() == m.size(), "message count " + str(c->f->getMessageCount()) + " instead of " + str(m.size()));
			for (auto& h : held) { CHECK(h.second->getNumber() == h.first && bool(h.second->getFlags() & net::message::FLAG_DELETED) == m[h.first - 1].del, "flags of message " + str(h.first)); }
			for (auto& h : held2) CHECK(bool(h.second->getFlags() & net::message::FLAG_DELETED) == m[h.first - 1].del, "flags of another object for message " + str(h.first));
			bool t = false; try { c->f->getMessage(m.size() + 1); } catch (exceptions::message_not_found&) { t = true; } CHECK(t, "message beyond the end");
			t = false; try { c->f->getMessage(0); } catch (exceptions::message_not_found&) { t = true; } CHECK(t, "message 0");
			for (size_t n = 1 ; n <= m.size() ; ++n) if (!m[n - 1].del) wantEq(c->extract(n), m[n - 1].data, "message " + str(n));
			c->ok();
		}
		if (c->st->isConnected()) { c->st->noop(); c->ok(); }
	}
	S key() const { S s; for (auto& x : m) s += x.uid + (x.del ? "D" : "") + ","; s += open ? "o" : ""; s += dirty ? "d" : ""; s += past; for (auto& h : held) s += "h" + str(h.first); return s; }
};

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C22";
	R.level = "model_checking";
	R.rule = "a model POP3 server; every message of up to N lines over a set of dotted lines, under every kind of fragmentation and every position of a single cut; every position where the connection breaks; every reply deviation at every command; every reachable state of a small mailbox under open/close/extract/fetch/delete/status/reconnect with every further sequence of operations, compared with a model of the mailbox; credentials and APOP digests over an alphabet";
	R.assumptions = {"messages consist of CRLF lines", "the server follows RFC 1939 except where a deviation is scripted", "a folder closed with deletions pending is not reopened before the end of the session (POP3 does not renumber)", "no TLS, no SASL"};
	const bool T = R.thorough; G = &R;

	// ---- contents, fragmentation
	const std::vector <S> lines = {"", ".", "..", "...", "a", ".a", "..a"};
	for (size_t n = 0 ; n <= (T ? 5u : 4u) ; ++n) mc::tuples(lines.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { return "content|" + mc::show(ix); }, [&] {
			Client c; S d; for (size_t i : ix) d += lines[i] + "\r\n";
			c.box.m = {{"u", d}}; c.open();
			auto once = [&](const S& what) { c.net.delivered = 0; wantEq(c.extract(1), d, what); R.trace(); c.ok(); };
			for (int f : {0, 1, 3}) { c.net.frag = f; once("fragmentation " + str(f)); }
			c.net.frag = 2; size_t total = 30 + d.size() * 2; for (size_t k = 1 ; k < total ; ++k) { c.net.splitAt = k; once("cut at " + str(k)); }
			c.net.frag = 4; for (size_t k = 2 ; k < 8 ; ++k) { c.net.splitAt = k; once("pieces of " + str(k)); }
			R.transition(c.box.log.size()); R.outcome(n);
		});
	});
	mc::strings({"a", ".", "\r\n"}, 0, T ? 10 : 8, [&](const S& s) {
		R.testL([&] { return "mix|" + s; }, [&] {
			Client c; S d = s; if (!d.empty() && (d.size() < 2 || d.substr(d.size() - 2) != "\r\n")) d += "\r\n";
			c.box.m = {{"u", "Subject: x\r\n\r\n" + d}}; c.open();
			for (int f : {0, 1, 3, 4}) { c.net.frag = f; c.net.splitAt = 5; wantEq(c.extract(1), "Subject: x\r\n\r\n" + d, "fragmentation " + str(f)); R.trace(); }
			c.ok(); R.outcome(s.size());
		});
	});
	// carriage returns and line feeds which end no line (not where a server which ends lines with LF would have sent the same)
	mc::strings({"a", ".", "\r\n", "\r", "\n"}, 0, T ? 7 : 5, [&](const S& s) {
		if (s.find_first_of("\r\n") == S::npos) return; const S d = "x\r\n" + s + "\r\n"; for (size_t i = 1 ; i < d.size() ; ++i) if (d[i] == '\n' && d[i - 1] != '\r' && (d.compare(i + 1, 2, "..") == 0 || d.compare(i + 1, 2, ".\n") == 0)) return;
		R.testL([&] { return "bare|" + s; }, [&] { Client c; c.box.m = {{"u", d}, {"v", "next\r\n"}}; c.open(); for (int f : {0, 1, 3, 4}) { c.net.frag = f; c.net.splitAt = 3; wantEq(c.extract(1), d, "fragmentation " + str(f)); wantEq(c.extract(2), "next\r\n", "message after it"); R.trace(); } c.ok(); R.outcome(s.size()); });
	});
	// a server which ends its lines with LF
	for (size_t n = 0 ; n <= (T ? 4u : 3u) ; ++n) mc::tuples(lines.size(), n, [&](const std::vector <size_t>& ix) {
		if (ix.size() != n) return; R.testL([&] { return "LF|" + mc::show(ix); }, [&] { Client c; S d, w; for (size_t i : ix) { d += lines[i] + "\r\n"; w += lines[i] + "\n"; } c.box.lf = true; c.box.m = {{"u.", d}, {".v", "Subject: s\r\n\r\n.\r\n"}}; c.open();
			for (int f : {0, 1, 3}) { c.net.frag = f; wantEq(c.extract(1), w, "message of a server with LF, fragmentation " + str(f)); wantEq(c.extract(2), "Subject: s\n\n.\n", "message after it"); auto v = c.f->getMessages(messageSet::byNumber(1, size_t(-1))); c.f->fetchMessages(v, fetchAttributes(fetchAttributes::UID | fetchAttributes::SIZE)); wantEq(S(v[0]->getUID()) + S(v[1]->getUID()), "u..v", "identifiers"); CHECK(v[0]->getSize() == d.size(), "size"); R.trace(); } c.ok(); R.outcome(n); });
	});
	// messages which arrive during the session, seen by one or two folders
	for (int more = 0 ; more < 3 ; ++more) for (int two = 0 ; two < 2 ; ++two) for (int f : {0, 1}) R.testL([&] { return "grown|" + str(more) + " " + str(two) + " " + str(f); }, [&] {
		struct L : public events::messageCountListener { S got; void messagesAdded(const shared_ptr <events::messageCountEvent>& e) { got += "+"; for (size_t n : e->getNumbers()) got += str(n) + ","; } void messagesRemoved(const shared_ptr <events::messageCountEvent>&) { got += "-"; } } l1, l2;
		Client c; c.box.m = Sys::initial(); c.net.frag = f; c.open(); auto g = two ? c.st->getDefaultFolder() : shared_ptr <folder>(); if (g) { g->open(folder::MODE_READ_WRITE); g->addMessageCountListener(&l2); } c.f->addMessageCountListener(&l1); auto old = c.f->getMessage(3); S w;
		for (int k = 0 ; k < more ; ++k) c.box.m.push_back({"n" + str(k), "Subject: new" + str(k) + "\r\n\r\nx\r\n"}); if (more) { w = "+"; for (int k = 0 ; k < more ; ++k) w += str(4 + k) + ","; }
		CHECK(c.f->getStatus()->getMessageCount() == size_t(3 + more), "status"); wantEq(l1.got, w, "events"); CHECK(c.f->getMessageCount() == size_t(3 + more), "number of messages"); if (g) { wantEq(l2.got, w, "events of the other folder"); CHECK(g->getMessageCount() == size_t(3 + more), "number of messages of the other folder"); }
		for (auto fo : {c.f, g}) if (fo) { for (size_t n = 1 ; n <= size_t(3 + more) ; ++n) { S s; utility::outputStreamStringAdapter os(s); fo->getMessage(n)->extract(os); wantEq(s, c.box.m[n - 1].data, "message " + str(n)); } auto v = fo->getMessages(messageSet::byNumber(2, size_t(-1))); CHECK(v.size() == size_t(2 + more), "messages to the end"); bool t = false; try { fo->getMessage(4 + more); } catch (exceptions::message_not_found&) { t = true; } CHECK(t, "message beyond the end"); t = false; try { fo->getMessages(messageSet::byNumber(2, size_t(4 + more))); } catch (exceptions::message_not_found&) { t = true; } CHECK(t, "range beyond the end"); }
		CHECK(old->getNumber() == 3, "number of an old message"); c.ok(); c.f->removeMessageCountListener(&l1); if (g) { g->removeMessageCountListener(&l2); g->close(false); } c.f->close(false); R.outcome(w); });
	for (size_t size : {4090u, 4096u, 65530u, 65536u, 131072u}) for (int k = 0 ; k < 14 ; ++k) R.testL([&] { return "buffers|" + str(size) + " " + str(k); }, [&] {
		S d(size + k, 'x'); d += "\r\n..\r\n.\r\n.x\r\n" + S(70, 'y') + "\r\n"; Client c; c.box.m = {{"u", d}, {"v", ".\r\n"}}; c.open();
		for (int f : {0, 4}) { c.net.frag = f; c.net.splitAt = 4093; wantEq(c.extract(1), d, "long message"); wantEq(c.extract(2), ".\r\n", "message after it"); R.trace(); } c.ok(); R.outcome(k);
	});
	// predicted size known from a previous fetch; progress reports
	struct Prog : public utility::progressListener { size_t max = 0, last = 0; bool started = false, stopped = false, decreasing = false; bool cancel() const { return false; } void start(const size_t) { started = true; } void progress(const size_t c, const size_t t) { if (c > t || c < last) decreasing = true; last = c; } void stop(const size_t) { stopped = true; } };
	for (int fetched = 0 ; fetched < 2 ; ++fetched) R.testL([&] { return "progress|" + str(fetched); }, [&] {
		Client c; c.box.m = {{"u", "a\r\n..b\r\n" + S(100000, 'x') + "\r\n"}}; c.open(); auto m = c.f->getMessage(1); if (fetched) c.f->fetchMessage(m, fetchAttributes::SIZE);
		Prog p; S s; utility::outputStreamStringAdapter os(s); m->extract(os, &p); CHECK(p.started && p.stopped && !p.decreasing, "progress reports"); wantEq(s, c.box.m[0].data, "message"); R.outcome(fetched);
	});

	for (int k = 0 ; k < 4 ; ++k) R.testL([&] { return "partial|" + str(k); }, [&] { Client c; c.box.m = Sys::initial(); c.open(); auto m = c.f->getMessage(1); S s; utility::outputStreamStringAdapter os(s); bool t = false; try { m->extract(os, NULL, k & 1 ? 3 : 0, k & 2 ? 5 : size_t(-1)); } catch (exceptions::partial_fetch_not_supported&) { t = true; } CHECK(t == (k != 0), "partial retrieval of POP3 messages is not supported, but the call succeeds"); CHECK(!t || s.empty(), "data"); wantEq(c.extract(1), c.box.m[0].data, "message"); R.outcome(t); });

	// ---- a complete session
	auto sessionRun = [&](Client& c, S& trace) {       // returns normally or throws
		const auto boxm = c.box.m;
		c.open(); trace += "count " + str(c.f->getMessageCount()) + ";";
		auto v = c.f->getMessages(messageSet::byNumber(1, size_t(-1)));
		c.f->fetchMessages(v, fetchAttributes(fetchAttributes::SIZE | fetchAttributes::UID | fetchAttributes::ENVELOPE));
		for (auto& m : v) { trace += str(m->getNumber()) + ":" + str(m->getSize()) + ":" + S(m->getUID()) + ":" + m->getHeader()->Subject()->generate() + ";"; }
		auto one = c.f->getMessage(2); c.f->fetchMessage(one, fetchAttributes(fetchAttributes::SIZE | fetchAttributes::UID)); trace += str(one->getSize()) + ":" + S(one->getUID()) + ";";
		for (size_t n = 1 ; n <= v.size() ; ++n) trace += c.extract(n) + ";";
		{ auto p = v[0]->getParsedMessage(); trace += p->getHeader()->Subject()->generate() + ";"; }
		c.f->deleteMessages(messageSet::byNumber(1)); trace += "deleted;";
		trace += "status " + str(c.f->getStatus()->getMessageCount()) + ";";
		c.f->close(true); c.st->disconnect(); trace += "end";
	};
	auto mkBox = [&](Client& c) { c.box.m = Sys::initial(); };
	S ref; size_t bytes = 0, cmds = 0;
	{ Client c; mkBox(c); size_t total = 0; try { sessionRun(c, ref); } catch (const std::exception& e) { ref = S("failed: ") + e.what(); } total = c.net.delivered; bytes = total; cmds = c.box.n; }
	R.test("session|reference", [&] {
		const auto m = Sys::initial(); S w = "count 3;";
		for (size_t i = 0 ; i < 3 ; ++i) w += str(i + 1) + ":" + str(m[i].data.size()) + ":" + m[i].uid + ":" + m[i].data.substr(0, m[i].data.find("\r\n")) + ";";
		w += str(m[1].data.size()) + ":u2;"; for (auto& x : m) w += x.data + ";"; w += "Subject: one;deleted;status 2;end";
		wantEq(ref, w, "session");
	});
	for (int f : {1, 3}) R.testL([&] { return "session|fragmentation " + str(f); }, [&] { Client c; mkBox(c); c.net.frag = f; S t; sessionRun(c, t); c.ok(); wantEq(t, ref, "session"); CHECK(c.box.m.size() == 2 && c.box.m[0].uid == "u2", "wrong message deleted"); R.outcome(f); });
	for (size_t k = 1 ; k <= bytes ; ++k) R.testL([&] { return "session|cut " + str(k); }, [&] { Client c; mkBox(c); c.net.frag = 2; c.net.splitAt = k; S t; sessionRun(c, t); c.ok(); wantEq(t, ref, "session"); CHECK(c.box.m.size() == 2, "deletion"); R.outcome(k % 7); });
	for (size_t k = 1 ; k <= 40 ; ++k) R.testL([&] { return "session|pieces " + str(k); }, [&] { Client c; mkBox(c); c.net.frag = 4; c.net.splitAt = k; S t; sessionRun(c, t); c.ok(); wantEq(t, ref, "session"); R.outcome(k); });
	for (size_t k = 0 ; k <= bytes ; ++k) for (int f = 0 ; f < 2 ; ++f) R.testL([&] { return "broken|" + str(k) + " " + str(f); }, [&] {
		Client c; mkBox(c); c.net.cutAt = k; c.net.frag = f; S t; bool thrown = false;
		try { sessionRun(c, t); } catch (vmime::exception&) { thrown = true; }
		CHECK(!c.net.deadlock, "the client waits although the connection is closed");
		CHECK(ref.compare(0, t.size(), t) == 0, "before the connection broke the application saw '" + esc(t, 300) + "'");
		CHECK(thrown || t.find("end") != S::npos, "session ended early without an exception");
		CHECK(thrown || k + 40 >= bytes, "a connection broken at " + str(k) + " of " + str(bytes) + " bytes went unnoticed");
		// the library must be usable again
		c.f = null; try { if (c.st->isConnected()) c.st->disconnect(); } catch (vmime::exception&) {}
		c.net.cutAt = size_t(-1); mkBox(c); c.net.deadlock = false; c.box.log.clear(); S t2; sessionRun(c, t2); wantEq(t2, ref, "session on a new connection"); c.ok(); R.trace(); R.outcome(thrown);
	});
	// ---- deviations: the reply to one command is replaced and the command has no effect
	const std::vector <S> devs = {"-ERR no", "-ERR", "-", "hang", "+OKAY", "+OK", "+OK garbage", "+ what", "ERR", "", "-ERR a\r\n-ERR b", "+OK x y z"};
	for (int at = 0 ; at < (int) cmds ; ++at) for (auto& d : devs) for (int f : {0, 1}) R.testL([&] { return "reply|" + str(at) + " " + d + " " + str(f); }, [&] {
		Client c; mkBox(c); c.box.dev[at] = d; c.net.frag = f; S t; bool thrown = false; S err;
		try { sessionRun(c, t); } catch (vmime::exception& e) { thrown = true; err = e.what(); }
		const bool positive = d.compare(0, 3, "+OK") == 0, neg = !positive;
		// a positive first line for a command with a multi-line reply leaves the client waiting for the rest: expected
		if (positive) { R.outcome("positive"); c.net.deadlock = false; return; }
		c.ok();
		S closing = c.box.log.empty() ? S() : c.box.log.back(); const S cmd = size_t(at) < c.box.log.size() ? c.box.log[at] : S();
		const bool optional = cmd == "QUIT" || cmd.compare(0, 4, "APOP") == 0 || cmd == "CAPA";
		if (cmd.compare(0, 4, "UIDL") == 0) {      // unique identifiers are optional: none, rather than a wrong one
			S w = ref; auto drop = [&](const S& a, const S& b) { const size_t p = w.find(a); CHECK(p != S::npos, "reference"); w.replace(p, a.size(), b); };
			if (cmd == "UIDL") { drop(":u1:", "::"); drop(":u2:", "::"); drop(":u3:", "::"); } else drop(":u2;", ":;");
			CHECK(thrown ? w.compare(0, t.size(), t) == 0 : t == w, "reply '" + esc(d) + "' to '" + cmd + "' made the application see '" + esc(t, 400) + "'"); R.outcome("uidl"); return;
		}
		CHECK(thrown || optional || !neg, "reply '" + esc(d) + "' to '" + cmd + "' went unnoticed: " + esc(t, 300));
		if (!optional) CHECK(ref.compare(0, t.size(), t) == 0, "reply '" + esc(d) + "' to '" + cmd + "' made the application see '" + esc(t, 400) + "'");
		R.outcome(thrown);
	});
	// negative replies to the retrieval commands fail at once, and the connection stays usable
	for (auto& d : {S("-ERR no such message"), S("-ERR"), S("-ERR\tx"), S("-"), S("-ERR .\r\n")}) for (int f : {0, 1, 3}) for (int what = 0 ; what < 6 ; ++what) R.testL([&] { return "refused|" + d + " " + str(f) + " " + str(what); }, [&] {
		Client c; mkBox(c); c.open(); c.box.dev[c.box.n] = d.substr(0, d.find("\r\n")); c.net.frag = f; bool thrown = false;
		auto m = c.f->getMessage(1); S out;
		try {
			if (what == 0) out = c.extract(1); else if (what == 1) c.f->fetchMessage(m, fetchAttributes::ENVELOPE); else if (what == 2) { c.f->fetchMessage(m, fetchAttributes::SIZE); m->getSize(); } else if (what == 3) { std::vector <shared_ptr <net::message> > v = {m}; c.f->fetchMessages(v, fetchAttributes::SIZE); m->getSize(); } else if (what == 4) c.f->deleteMessages(messageSet::byNumber(1)); else c.f->getStatus();
		} catch (vmime::exception&) { thrown = true; }
		c.ok(); CHECK(thrown, "refusal unnoticed"); CHECK(out.empty(), "data");
		wantEq(c.extract(1), c.box.m[0].data, "message 1 afterwards"); wantEq(c.extract(3), c.box.m[2].data, "message 3 afterwards"); c.ok(); R.outcome(what);
	});
	// numbers the server did not send are not made up
	for (auto& d : {S("+OK"), S("+OK "), S("+OK x"), S("+OK -"), S("+OK 1x")}) R.testL([&] { return "numbers|" + d; }, [&] {
		Client c; mkBox(c); c.open(); c.box.dev[c.box.n] = d; bool thrown = false; size_t n = 99; try { n = c.f->getStatus()->getMessageCount(); } catch (vmime::exception&) { thrown = true; }
		CHECK(thrown || (d == "+OK 1x" && n == 1), "reply '" + d + "' to STAT read as " + str(n)); R.outcome(thrown);
	});
	// ---- lines of multi-line replies starting with dots, in all fragmentations
	{ R.test("uids|dots", [&] {
		const std::vector <S> uids = {".", "..", "!", "~~", S(70, '.'), "1", "a.b", "-ERR", "+OK"};
		Client c; for (auto& u : uids) c.box.m.push_back({u, "x: y\r\n\r\n"}); c.open();
		for (int f = 0 ; f < 80 ; ++f) { c.net.frag = f < 2 ? f : f < 40 ? 2 : 4; c.net.splitAt = f; c.net.delivered = 0; auto v = c.f->getMessages(messageSet::byNumber(1, size_t(-1))); c.f->fetchMessages(v, fetchAttributes::UID); for (size_t i = 0 ; i < uids.size() ; ++i) { wantEq(S(v[i]->getUID()), uids[i], "uid"); c.f->fetchMessage(v[i], fetchAttributes::UID); wantEq(S(v[i]->getUID()), uids[i], "uid"); } } c.ok();
	}); }
	for (size_t k = 1 ; k < 60 ; ++k) for (int f : {1, 2, 4}) R.testL([&] { return "capa|" + str(k) + " " + str(f); }, [&] {
		// the capability list is read when a SASL authenticator is there; here only through the generic reader
		Client c; mkBox(c); c.box.stuffList = true; c.net.frag = f; c.net.splitAt = k; S t; sessionRun(c, t); wantEq(t, ref, "session"); c.ok(); R.outcome(f);
	});
	// ---- credentials
	mc::strings({"a", " ", "\"", "\\", "\xc3\xa9", "\r\n", "\n", "\r", "<", S(1, '\0')}, 1, T ? 3 : 2, [&](const S& s) {
		R.testL([&] { return "credentials|" + s; }, [&] {
			for (int which = 0 ; which < 2 ; ++which) {
				Client c; mkBox(c); c.make(which ? "joe" : s, which ? s : "secret"); bool thrown = false;
				try { c.open(); } catch (vmime::exception&) { thrown = true; }
				c.ok();
				const bool clean = s.find_first_of(S("\r\n\0", 3)) == S::npos; CHECK(clean || thrown, "credentials with a line break accepted"); CHECK(!clean || !thrown, "credentials refused");
				for (auto& l : c.box.log) CHECK(l == "QUIT" || l == "STAT" || l == "CAPA" || l.compare(0, 5, "USER ") == 0 || l.compare(0, 5, "PASS ") == 0, "unexpected command '" + esc(l) + "'");
				if (clean) { wantEq(c.box.user, which ? S("joe") : s, "user"); wantEq(c.box.pass, which ? s : S("secret"), "password"); }
			}
			R.outcome(s.size());
		});
	});
	for (auto& stamp : {S("<1896.697170952@dbc.mtview.ca.us>"), S("<a@b>"), S("<1.2.3+x_y@[192.0.2.1]>"), S("<123@host:110>")}) for (auto& pre : {S("+OK "), S("+OK POP3 server ready "), S("+OK a < b ")}) for (auto& post : {S(), S(" bye")}) for (auto& pw : {S("tanstaaf"), S(), S("p w"), S("\xc3\xa9")}) for (int refuse = 0 ; refuse < 2 ; ++refuse)
	R.testL([&] { return "apop|" + pre + stamp + post + "|" + pw + " " + str(refuse); }, [&] {
		Client c; mkBox(c); c.box.banner = pre + stamp + post; c.make("mrose", pw); c.box.refuseApop = refuse; if (pre.find("a <") != S::npos) { R.outcome("-"); return; }
		c.open(); c.ok();
		auto md = security::digest::messageDigestFactory::getInstance()->create("md5"); md->update(stamp + pw); md->finalize();
		wantEq(c.box.apopLine, "APOP mrose " + md->getHexDigest(), "APOP"); 
		if (stamp[1] == '1' && pw == "tanstaaf" && stamp.find("dbc") != S::npos) wantEq(c.box.apopLine, "APOP mrose c4c9334bac560ecc979e58001b3e22fb", "APOP example of RFC 1939");
		if (refuse) wantEq(c.box.pass, pw, "password"); else CHECK(c.box.pass.empty() && c.box.user.empty(), "password sent in clear although APOP succeeded");
		R.outcome(refuse);
	});
	for (int fallback = 0 ; fallback < 2 ; ++fallback) for (int can = 0 ; can < 2 ; ++can) R.testL([&] { return "apop-fallback|" + str(fallback) + " " + str(can); }, [&] {
		Client c; mkBox(c); if (can) c.box.banner = "+OK <1@b>"; c.box.refuseApop = true; c.ses->getProperties()["store.pop3.options.apop.fallback"] = fallback != 0; bool thrown = false;
		try { c.open(); } catch (exceptions::authentication_error&) { thrown = true; } c.ok(); CHECK(thrown == !fallback, "fallback"); CHECK(fallback || c.box.pass.empty(), "password disclosed"); R.outcome(thrown);
	});
	for (auto& g : {S("-ERR busy"), S("-ERR"), S("nonsense"), S("+"), S("")}) R.testL([&] { return "greeting|" + g; }, [&] { Client c; mkBox(c); c.box.banner = g; bool t = false; try { c.open(); } catch (vmime::exception&) { t = true; } c.ok(); CHECK(t && !c.st->isConnected(), "connected after '" + g + "'"); CHECK(c.box.pass.empty(), "credentials sent"); R.outcome(g); });

	// ---- histories
	mc::lts(R, "mailbox", [](bool real) { return std::unique_ptr <Sys>(new Sys(real)); }, T ? 2 : 1, T ? 6 : 4, T ? 4000 : 500);
}
