// C25: an open IMAP folder tracks the server's mailbox.
#include "imapsim.hpp"
#include "lts.hpp"
#include "mc_main.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPMessage.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace vmime; using namespace vmime::net;
using imapsim::Client; using imapsim::wantEq; using imapsim::Conn; using imapsim::World; using imapsim::PMsg;
typedef shared_ptr <net::message> NMsg;

struct Sys {
	bool real; int timing, act; bool objectsOnly;
	// the server; when not real it is driven with the commands' text instead of by the client
	Client c; std::unique_ptr <Conn> solo; Conn* conn; std::map <unsigned, PMsg> all; unsigned appended = 0;
	shared_ptr <net::folder> f; std::vector <NMsg> held; std::vector <PMsg> heldMsg; std::vector <bool> heldFlags;
	// what the listeners were told
	std::vector <PMsg> mirror; S eventError; std::vector <PMsg> changed;
	struct L : public events::messageCountListener, public events::messageChangedListener {
		Sys* s; L(Sys* x) : s(x) {}
		void bad(const S& e) { if (s->eventError.empty()) s->eventError = e; }
		void messagesAdded(const shared_ptr <events::messageCountEvent>& e) { if (e->getType() != events::messageCountEvent::TYPE_ADDED) bad("type"); if (e->getFolder() != s->f) bad("folder"); if (e->getNumbers().empty()) bad("nothing added"); for (size_t n : e->getNumbers()) { if (n != s->mirror.size() + 1) bad("message " + str(n) + " announced as new although there were " + str(s->mirror.size())); s->mirror.push_back(PMsg()); } }
		void messagesRemoved(const shared_ptr <events::messageCountEvent>& e) { if (e->getType() != events::messageCountEvent::TYPE_REMOVED) bad("type"); if (e->getNumbers().empty()) bad("nothing removed"); for (size_t n : e->getNumbers()) { if (n < 1 || n > s->mirror.size()) bad("message " + str(n) + " announced as removed although there were " + str(s->mirror.size())); else s->mirror.erase(s->mirror.begin() + (n - 1)); } }
		void messageChanged(const shared_ptr <events::messageChangedEvent>& e) { if (e->getType() != events::messageChangedEvent::TYPE_FLAGS) bad("type"); for (size_t n : e->getNumbers()) { if (n < 1 || n > s->mirror.size()) bad("message " + str(n) + " announced as changed although there were " + str(s->mirror.size())); else s->changed.push_back(s->mirror[n - 1]); } }
	} lis;
	S cmd;
	Sys(bool r, int t, int a, bool o) : real(r), timing(t), act(a), objectsOnly(o), lis(this) {
		c.w.flushFirst = t == 1; for (size_t i = 0 ; i < 3 ; ++i) add(i == 1); c.w.box["Copy"];
		if (real) { c.start(); f = c.folder("INBOX"); f->open(net::folder::MODE_READ_WRITE); f->addMessageCountListener(&lis); f->addMessageChangedListener(&lis); conn = c.conn("INBOX"); }
		else { solo.reset(new Conn(&c.w)); conn = solo.get(); conn->connected(); raw("LOGIN a b"); raw("SELECT INBOX"); }
		mirror = conn->view;
	}
	~Sys() { if (f) { f->removeMessageCountListener(&lis); f->removeMessageChangedListener(&lis); } held.clear(); f.reset(); solo.reset(); }
	void raw(const S& l, const S& lit = S()) { conn->data("A " + l + "\r\n"); if (!lit.empty()) conn->data(lit + "\r\n"); conn->out.clear(); }
	void add(bool seen) { const S d = "Subject: m" + str(all.size()) + "\r\n\r\nbody\r\n"; PMsg m = c.w.add("INBOX", d, seen ? std::set <S>{"\\Seen"} : std::set <S>()); m->root = std::make_shared <imapsim::MPart>(); m->root->type = "text"; m->root->sub = "plain"; m->root->hdr = {"Subject: m" + str(all.size())}; m->root->body = "body\r\n"; all[m->uid] = m; ++appended; }
	// what somebody else does
	bool possible(int a) const { auto& v = c.w.box.find("INBOX")->second.m; return a == 0 ? appended < 5 : a == 1 || a == 4 ? !v.empty() : a == 2 ? v.size() >= 2 : a == 3 ? v.size() >= 3 : a == 5 ? v.size() >= 2 : a == 6 ? v.size() >= 2 && appended < 5 : false; }
	void other(int a) {
		if (!possible(a)) return;
		auto& v = c.w.box["INBOX"].m;
		switch (a) {
		case 0: add(false); break;
		case 1: c.w.expunge("INBOX", v[0]->uid); break;
		case 2: c.w.expunge("INBOX", v.back()->uid); break;
		case 3: c.w.expunge("INBOX", v[1]->uid); break;
		case 4: { auto x = v[0]->flags; if (!x.erase("\\Flagged")) x.insert("\\Flagged"); c.w.setFlags("INBOX", v[0]->uid, x); break; }
		case 5: { auto x = v.back()->flags; if (!x.erase("\\Seen")) x.insert("\\Seen"); c.w.setFlags("INBOX", v.back()->uid, x); break; }
		case 6: c.w.expunge("INBOX", v[0]->uid); add(true); c.w.expunge("INBOX", v[0]->uid); break;
		}
	}
	enum { ADD, EXP1, EXPL, EXP2, FLAG1, FLAGL, MIX, NOOP, STATUS, LIST, STORE, UIDSTORE, DELUID, EXPUNGE, COPY, UIDCOPY, APPEND, SEARCH, UIDSEARCH, EXTRACT, UIDEXTRACT, FETCH, FETCHALL, UIDFETCH, HOLD, HOLDUID, HELDFETCH, HELDFLAG, DROP, NOPS };
	size_t opCount() const { return NOPS; }
	S opName(size_t i) const { static const char* n[] = {"other:append", "other:expunge first", "other:expunge last", "other:expunge 2", "other:flag first", "other:flag last", "other:expunge,append,expunge", "noop", "status", "exists", "store 1", "uid store", "uid delete", "expunge", "copy", "uid copy", "append", "search", "uid search", "extract 1", "uid extract", "fetch 1", "fetch all", "uid fetch", "hold", "hold uid", "fetch held", "flag held", "drop"}; return n[i]; }
	bool enabled(size_t i) const {
		if (i <= MIX) return act < 0 && possible(int(i));
		const bool any = !conn->view.empty();
		switch (i) {
		case STORE: case EXTRACT: case FETCH: case FETCHALL: case SEARCH: return any;
		case COPY: case UIDCOPY: return any && c.w.box.find("Copy")->second.m.size() < 1;
		case APPEND: return appended < 5;
		case HOLD: return any && heldMsg.size() < 1;
		case HOLDUID: return any && heldMsg.size() < 5;
		case HELDFETCH: case HELDFLAG: case DROP: return !heldMsg.empty();
		}
		return true;
	}
	void hold(const NMsg& m, const PMsg& p) { held.push_back(m); heldMsg.push_back(p); }
	unsigned firstUid() const { return conn->view.empty() ? 1 : conn->view[0]->uid; }
	void step(size_t i) {
		eventError.clear(); changed.clear(); conn->toldLog.clear(); const auto before = conn->told; const auto view0 = conn->view;
		if (i <= MIX) { other(int(i)); return; }
		bool once = true; if (act >= 0) c.w.beforeDone = [&](Conn& k) { if (once && &k == conn) { once = false; other(act); } };
		typedef net::message N; typedef net::imap::IMAPSearchTokenFactory F;
		auto imf = dynamicCast <net::imap::IMAPFolder>(f); const unsigned u = firstUid();
		switch (i) {
		case NOOP: if (real) imf->noop(); else raw("NOOP"); break;
		case STATUS: if (real) f->getStatus(); else raw("STATUS INBOX (MESSAGES)"); break;
		case LIST: if (real) CHECK(f->exists(), "folder does not exist"); else {} if (!real) raw("LIST \"\" INBOX"); break;
		case STORE: if (real) f->setMessageFlags(messageSet::byNumber(1), N::FLAG_REPLIED, N::FLAG_MODE_ADD); else raw("STORE 1 +FLAGS (\\Answered)"); break;
		case UIDSTORE: if (real) f->setMessageFlags(messageSet::byUID(2, 3), N::FLAG_REPLIED, N::FLAG_MODE_SET); else raw("UID STORE 2:3 FLAGS (\\Answered)"); break;
		case DELUID: if (real) f->deleteMessages(messageSet::byUID(1, 2)); else raw("UID STORE 1:2 +FLAGS (\\Deleted)"); break;
		case EXPUNGE: if (real) f->expunge(); else raw("EXPUNGE"); break;
		case COPY: if (real) f->copyMessages(net::folder::path("Copy"), messageSet::byNumber(1)); else raw("COPY 1 Copy"); break;
		case UIDCOPY: if (real) f->copyMessages(net::folder::path("Copy"), messageSet::byUID(u)); else raw("UID COPY " + str(u) + " Copy"); break;
		case APPEND: { const S d = "Subject: mine\r\n\r\nx\r\n"; ++appended; if (real) { utility::inputStreamStringAdapter is(d); f->addMessage(is, d.size(), N::FLAG_DRAFT); } else raw("APPEND INBOX (\\Draft) {" + str(d.size()) + "}", d); auto& v = c.w.box["INBOX"].m; for (auto& m : v) { all[m->uid] = m; if (!m->root) { m->root = std::make_shared <imapsim::MPart>(); m->root->type = "text"; m->root->sub = "plain"; m->root->body = "x\r\n"; m->root->hdr = {"Subject: mine"}; } } break; }
		case SEARCH: if (real) { net::imap::IMAPSearchAttributes sa; sa.add(F::SEEN()); std::vector <size_t> w; for (size_t k = 0 ; k < view0.size() ; ++k) if (view0[k]->flags.count("\\Seen")) w.push_back(k + 1); const auto g = imf->getMessageNumbersMatchingSearchAttributes(sa, NULL); if (timing == 0) CHECK(g == w, "search"); } else raw("SEARCH SEEN"); break;
		case UIDSEARCH: if (real) { net::imap::IMAPSearchAttributes sa; sa.add(F::UNSEEN()); imf->getMessageUIDsMatchingSearchAttributes(sa, NULL); } else raw("UID SEARCH UNSEEN"); break;
		case EXTRACT: if (real) { const S want = view0[0]->data; S s; { utility::outputStreamStringAdapter os(s); f->getMessage(1)->extract(os); } wantEq(s, want, "message 1"); } else raw("FETCH 1 (BODY[])"); break;
		case UIDEXTRACT: if (real) { auto v = f->getMessages(messageSet::byUID(2, 2)); if (v.empty()) break; CHECK(v.size() == 1, "messages"); S s; bool t = false; try { utility::outputStreamStringAdapter os(s); v[0]->extract(os); } catch (exceptions::message_not_found&) { t = true; } if (!t) wantEq(s, all[2]->data, "message with UID 2"); } else { bool in = false; raw("UID FETCH 2:2 UID"); for (auto& m : conn->view) in |= m->uid == 2; if (in) raw("UID FETCH 2 (BODY[])"); } break;
		case FETCH: if (real) { auto m = f->getMessage(1); f->fetchMessage(m, fetchAttributes::FLAGS | fetchAttributes::SIZE); CHECK(m->getSize() == view0[0]->data.size() || timing == 1, "size"); } else raw("FETCH 1 (FLAGS RFC822.SIZE)"); break;
		case FETCHALL: if (real) { auto v = f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes::FLAGS); compare(v); } else raw("FETCH 1:* (FLAGS UID)"); break;
		case UIDFETCH: if (real) { auto v = f->getAndFetchMessages(messageSet::byUID(2, 4), fetchAttributes::FLAGS | fetchAttributes::SIZE); compare(v); } else raw("UID FETCH 2:4 (FLAGS RFC822.SIZE)"); break;
		case HOLD: case HOLDUID: {
			std::vector <PMsg> w;
			if (real) { const auto a = fetchAttributes(fetchAttributes::FLAGS); auto v = i == HOLD ? f->getMessages(messageSet::byNumber(1, size_t(-1))) : f->getMessages(messageSet::byUID(1, size_t(-1))); for (auto& m : v) { const unsigned n = unsigned(atoi(S(m->getUID()).c_str())); CHECK(all.count(n), "UID"); hold(m, all[n]); w.push_back(all[n]); } f->fetchMessages(v, a); }
			else { const auto v = conn->view; raw(i == HOLD ? "FETCH 1:* UID" : "UID FETCH 1:* UID"); for (auto& m : (i == HOLD && timing != 1 ? v : i == HOLD ? conn->view : conn->view)) if (i == HOLD || std::find(v.begin(), v.end(), m) != v.end() || timing == 1) heldMsg.push_back(m); (void) w; if (!conn->view.empty()) raw("FETCH 1:" + str(conn->view.size()) + " FLAGS"); }
			break; }
		case HELDFETCH: if (real) { auto v = held; f->fetchMessages(v, fetchAttributes(fetchAttributes::FLAGS)); } else { S l; for (size_t k = 0 ; k < conn->view.size() ; ++k) if (std::find(heldMsg.begin(), heldMsg.end(), conn->view[k]) != heldMsg.end()) l += (l.empty() ? "" : ",") + str(k + 1); if (!l.empty()) raw("FETCH " + l + " FLAGS"); } break;
		case HELDFLAG: { const PMsg p = heldMsg.back(); const bool in = std::find(conn->view.begin(), conn->view.end(), p) != conn->view.end(); if (real) { bool t = false; try { held.back()->setFlags(N::FLAG_MARKED, N::FLAG_MODE_ADD); } catch (exceptions::message_not_found&) { t = true; } if (timing == 0) CHECK(t == !in, t ? "message not found" : "flags of an expunged message changed"); } else if (in) raw("UID STORE " + str(p->uid) + " +FLAGS (\\Flagged)"); break; }
		case DROP: if (real) held.erase(held.begin() + held.size() / 2, held.end()); heldMsg.resize(heldMsg.size() / 2); break;
		}
		c.w.beforeDone = nullptr; c.w.protoError.clear();
		if (!real) return;
		CHECK(!c.net.deadlock, "the client waits for something the server never sends");
		CHECK(eventError.empty(), "events: " + eventError);
		CHECK(mirror.size() == conn->view.size(), "a listener counts " + str(mirror.size()) + " messages, the server " + str(conn->view.size()));
		for (size_t k = 0 ; k < mirror.size() ; ++k) { if (mirror[k]) CHECK(mirror[k] == conn->view[k], "a listener takes message " + str(k + 1) + " for the wrong message"); mirror[k] = conn->view[k]; }
		for (auto& m : conn->view) if (before.count(m.get()) && before.at(m.get()) != conn->told[m.get()]) CHECK(std::count(changed.begin(), changed.end(), m), "no event for the changed flags of the message with UID " + str(m->uid));
		for (auto& m : changed) if (m) CHECK(std::count(conn->toldLog.begin(), conn->toldLog.end(), m), "event for message with UID " + str(m->uid) + " whose flags the server did not mention");
	}
	void compare(const std::vector <NMsg>& v) { for (auto& m : v) { const unsigned n = unsigned(atoi(S(m->getUID()).c_str())); CHECK(all.count(n), "UID " + str(n)); one(m, all[n], true); } }
	void one(const NMsg& m, const PMsg& p, bool flags) {
		const size_t at = std::find(conn->view.begin(), conn->view.end(), p) - conn->view.begin();
		if (at == conn->view.size()) { CHECK(m->isExpunged(), "the object of expunged message (UID " + str(p->uid) + ") believes it is message " + str(m->getNumber())); flagsOf(m, p, flags); return; }
		CHECK(!m->isExpunged(), "the object of message " + str(at + 1) + " (UID " + str(p->uid) + ") believes it is expunged"); CHECK(m->getNumber() == at + 1, "the object of message " + str(at + 1) + " (UID " + str(p->uid) + ") believes it is message " + str(m->getNumber()));
		wantEq(S(m->getUID()), str(p->uid), "UID"); flagsOf(m, p, flags);
	}
	// the flags last told, also once it is expunged
	void flagsOf(const NMsg& m, const PMsg& p, bool flags) {
		if (!flags || !conn->told.count(p.get())) return;
		std::set <S> g; const int x = m->getFlags(); if (x & net::message::FLAG_SEEN) g.insert("\\Seen"); if (x & net::message::FLAG_REPLIED) g.insert("\\Answered"); if (x & net::message::FLAG_MARKED) g.insert("\\Flagged"); if (x & net::message::FLAG_DELETED) g.insert("\\Deleted"); if (x & net::message::FLAG_DRAFT) g.insert("\\Draft");
		wantEq(conn->flagList(g), conn->flagList(conn->told[p.get()]), "flags of the message with UID " + str(p->uid));
	}
	void check() {
		if (!real) return;
		CHECK(c.st->isConnected() && f->isOpen(), "connection lost");
		CHECK(f->getMessageCount() == conn->view.size(), "the folder counts " + str(f->getMessageCount()) + " messages, the server " + str(conn->view.size()));
		for (size_t k = 0 ; k < held.size() ; ++k) one(held[k], heldMsg[k], true);
		// message numbers of the API reach the right message
		for (size_t k = 1 ; k <= conn->view.size() ; ++k) { auto m = f->getMessage(k); CHECK(m->getNumber() == k, "number"); }
		bool t = false; try { f->getMessage(conn->view.size() + 1); } catch (exceptions::message_not_found&) { t = true; } CHECK(t, "message beyond the last");
		// held objects retrieve their own messages, and nothing else
		const auto fl = c.w.flushFirst; c.w.flushFirst = false;
		for (size_t k = 0 ; k < held.size() ; ++k) { S s; bool t = false; try { utility::outputStreamStringAdapter os(s); held[k]->extract(os, NULL, 0, size_t(-1), true); } catch (vmime::exception&) { t = true; } if (!t) wantEq(s, heldMsg[k]->data, "text of the message with UID " + str(heldMsg[k]->uid)); else CHECK(s.empty(), "partial text"); const bool in = std::find(c.w.box["INBOX"].m.begin(), c.w.box["INBOX"].m.end(), heldMsg[k]) != c.w.box["INBOX"].m.end(); if (in) CHECK(!t, "message with UID " + str(heldMsg[k]->uid) + " cannot be retrieved"); one(held[k], heldMsg[k], true); }
		c.w.flushFirst = fl;
		dynamicCast <net::imap::IMAPFolder>(f)->noop(); CHECK(conn->pend.empty(), "pending"); for (size_t k = 0 ; k < held.size() ; ++k) one(held[k], heldMsg[k], true);
		auto v = f->getAndFetchMessages(messageSet::byUID(1, size_t(-1)), fetchAttributes(fetchAttributes::FLAGS)); CHECK(v.size() == conn->view.size(), "messages"); compare(v);
		CHECK(c.w.protoError.empty(), "protocol error: " + c.w.protoError);
	}
	S key() const {
		std::ostringstream o; auto id = [&](const PMsg& m) { o << m->uid << conn->flagList(m->flags); auto t = conn->told.find(m.get()); if (t != conn->told.end()) o << "/" << conn->flagList(t->second); o << ","; };
		for (auto& m : c.w.box.find("INBOX")->second.m) id(m); o << "|"; for (auto& m : conn->view) id(m); o << "|"; for (auto& e : conn->pend) o << e.k << e.m->uid << ","; o << "|"; for (auto& m : heldMsg) o << m->uid << ","; o << "|" << c.w.box.find("Copy")->second.m.size() << appended; return o.str();
	}
};

void mc_main(mc::Run& R) {
	initPlatform(); R.property = "C25"; R.level = "model_checking"; const bool T = R.thorough;
	R.rule = "A model IMAP server shared with another client announces appends, expunges and flag changes in order, on any command, before or after its answer, and with changes happening while a command runs. All states of the server model reachable within the depth are enumerated; in each, every operation of the real client is executed and the count, numbers, identifiers, expunged state and flags of all message objects held by the application, and a mailbox reconstructed from the events delivered to listeners, are compared with the server's view for that connection.";
	R.assumptions = {"the server follows RFC 3501 (no EXPUNGE during FETCH, STORE, SEARCH without UID)"};
	for (int t = 0 ; t < 2 ; ++t) mc::lts(R, t ? "before" : "after", [t](bool real) { return std::unique_ptr <Sys>(new Sys(real, t, -1, false)); }, 1, T ? 7 : 5, T ? 6000 : 320);
	for (int a = 0 ; a < 7 ; ++a) mc::lts(R, "during" + str(a), [a](bool real) { return std::unique_ptr <Sys>(new Sys(real, 0, a, false)); }, 1, T ? 5 : 3, T ? 2000 : 50);
}
