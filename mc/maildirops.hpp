// A store with some messages, and the operations of the folder API on it.
#pragma once
#include "maildirsim.hpp"
using namespace vmime; using namespace vmime::net; using namespace mdsim;
typedef shared_ptr <net::folder> NFolder;
enum { SEEN = 1, RECENT = 2, DEL = 4, REPL = 8, MARK = 16, PASS = 32, DRAFT = 64 };
static const int ADD = net::message::FLAG_MODE_ADD, REM = net::message::FLAG_MODE_REMOVE, SET = net::message::FLAG_MODE_SET;

static S small(const S& k) { return msgText(k); }
static const S& big(const S& k) { static std::map <S, S> memo; S& s = memo[k]; if (!s.empty()) return s; s = "Subject: " + k + "\r\n\r\n"; for (int i = 0 ; s.size() < 70000 ; ++i) s += "line " + str(i) + " of " + k + "\r\n"; return s; }

struct Ctx;
struct Op { S name; std::function <void(Ctx&)> run; std::function <void(Ctx&, Disk&)> model; std::function <void(Ctx&)> prep; };

/** a store with some messages and two folder objects on the folder "a" */
struct Ctx {
	bool courier; Box box; NFolder F, G;
	struct L : public events::messageCountListener { long n = 0; void messagesAdded(const shared_ptr <events::messageCountEvent>& e) { n += e->getNumbers().size(); } void messagesRemoved(const shared_ptr <events::messageCountEvent>& e) { n -= e->getNumbers().size(); } } lf, lg;
	std::set <S> texts; int made = 0;
	std::vector <std::pair <S, int> > order;    // texts and flags of F's messages
	void put(const S& dir, const S& name, const S& d) { texts.insert(d); vfs::put(dir + "/" + name, d); }
	S dir(const S& f) const { return fsDir(courier, f); }
	S text(bool b) { const S k = "n" + str(++made); const S t = b ? big(k) : small(k); texts.insert(t); return t; }
	Ctx(bool c) : courier(c) {
		fresh(c, {"a", "b", "b/s"});
		put(dir("a"), "cur/900.1." + host + ":2,", small("m1")); put(dir("a"), "cur/900.2." + host + ":2,S", small("m2")); put(dir("a"), "cur/900.3.x-y:2,FT", big("m3")); put(dir("a"), "new/900.4.h", small("m4"));
		put(dir("b"), "cur/900.5." + host + ":2,R", small("m5")); put(dir("b/s"), "cur/900.6." + host + ":2,", small("m6"));
		box.connect(); vfs::On o; F = box.folder(P("a")); G = box.folder(P("a"));
		open(F, lf); open(G, lg); see();
	}
	void open(NFolder f, L& l) { f->open(net::folder::MODE_READ_WRITE); f->removeMessageCountListener(&l); f->addMessageCountListener(&l); l.n = f->getMessageCount(); }
	~Ctx() { vfs::On o; if (F) F->removeMessageCountListener(&lf); if (G) G->removeMessageCountListener(&lg); F.reset(); G.reset(); box.drop(); vfs::reset(); vfs::fds.clear(); }
	/** notes which messages F lists */
	void see() { order.clear(); if (!F->isOpen()) return; for (auto& s : look(F)) order.push_back({s.data, s.flags}); vfs::reset(); }
	void add(const S& t, int flags) { utility::inputStreamStringAdapter is(t); F->addMessage(is, t.size(), flags); }
	S next(bool b) const { const S k = "n" + str(made); return b ? big(k) : small(k); }
};
static std::vector <Op> ops() {
	std::vector <Op> v;
	auto add = [&](const S& n, bool b, int fl) { v.push_back({n, [=](Ctx& c) { const S t = c.text(b); c.add(t, fl); }, [=](Ctx& c, Disk& d) { d[{c.dir("a"), c.next(b)}].insert(fl == -1 ? 0 : fl & ~RECENT); }}); };
	add("add", false, -1); add("add big SEEN", true, SEEN); add("add RECENT", false, RECENT);
	v.push_back({"add object", [](Ctx& c) { auto m = make_shared <vmime::message>(); m->parse(c.text(false)); c.F->addMessage(m, MARK); }, [](Ctx& c, Disk& d) { d[{c.dir("a"), c.next(false)}].insert(MARK); }});
	auto copy = [&](const S& n, size_t first, size_t last, const S& to) { v.push_back({n, [=](Ctx& c) { c.F->copyMessages(P(to), messageSet::byNumber(first, last)); }, [=](Ctx& c, Disk& d) { for (size_t i = first ; i <= last && i <= c.order.size() ; ++i) d[{c.dir(to), c.order[i - 1].first}].insert(c.order[i - 1].second); }}); };
	copy("copy(1:*,b)", 1, size_t(-1), "b"); copy("copy(2,a)", 2, 2, "a"); copy("copy(3,b/s)", 3, 3, "b/s");
	auto set = [&](const S& n, size_t first, size_t last, int fl, int mode) { v.push_back({n, [=](Ctx& c) { if (fl == DEL) c.F->deleteMessages(messageSet::byNumber(first, last)); else c.F->setMessageFlags(messageSet::byNumber(first, last), fl, mode); }, [=](Ctx& c, Disk& d) { for (size_t i = first ; i <= last && i <= c.order.size() ; ++i) { auto& o = c.order[i - 1]; auto& s = d[{c.dir("a"), o.first}]; auto it = s.find(o.second); if (it != s.end()) s.erase(it); s.insert(mode == ADD ? o.second | fl : mode == REM ? o.second & ~fl : fl); } }}); };
	set("set(1,+SEEN)", 1, 1, SEEN, ADD); set("set(1:*,-SEEN)", 1, size_t(-1), SEEN, REM); set("set(2:3,=PASSED|DRAFT)", 2, 3, PASS | DRAFT, SET); set("delete(1:*)", 1, size_t(-1), DEL, ADD); set("delete(2)", 2, 2, DEL, ADD);
	auto exp = [](Ctx& c, Disk& d) { for (auto& o : c.order) if (o.second & DEL) { auto& s = d[{c.dir("a"), o.first}]; auto it = s.find(o.second); if (it != s.end()) s.erase(it); } };
	v.push_back({"expunge", [](Ctx& c) { c.F->expunge(); }, exp});
	v.push_back({"close(expunge)", [](Ctx& c) { c.F->close(true); }, exp});
	v.push_back({"reopen", [](Ctx& c) { c.F->close(false); c.open(c.F, c.lf); }, [](Ctx&, Disk&) {}});
	v.push_back({"deliver+status", [](Ctx& c) { size_t n, u; c.G->status(n, u); }, [](Ctx&, Disk&) {}, [](Ctx& c) { ++c.made; c.put(c.dir("a"), "new/901." + str(c.made) + ".h", c.next(false)); }});
	// operations on other folders: no message of this one, nor one that stays, is concerned
	v.push_back({"create c", [](Ctx& c) { c.box.folder(P("c"))->create(folderAttributes()); }, [](Ctx&, Disk&) {}});
	v.push_back({"rename b", [](Ctx& c) { c.box.folder(P("b"))->rename(P("d")); }, [](Ctx& c, Disk& d) { for (const char* f : {"b", "b/s"}) { const S to = S("d") + (f + 1); Disk n; for (auto& e : d) { auto k = e.first; if (k.first == c.dir(f)) k.first = c.dir(to); n[k].insert(e.second.begin(), e.second.end()); } d = n; } }});
	v.push_back({"destroy b/s", [](Ctx& c) { c.box.folder(P("b/s"))->destroy(); }, [](Ctx& c, Disk& d) { for (auto it = d.begin() ; it != d.end() ; ) if (it->first.first == c.dir("b/s")) it = d.erase(it); else ++it; }});
	return v;
}
