// C27: a maildir store behaves as the mailbox it represents.
#include "maildirsim.hpp"
#include "lts.hpp"
#include "mc_main.hpp"
using namespace vmime; using namespace vmime::net; using namespace mdsim;
typedef shared_ptr <net::message> NMsg; typedef shared_ptr <net::folder> NFolder;
enum { SEEN = 1, RECENT = 2, DEL = 4, REPL = 8, MARK = 16, PASS = 32, DRAFT = 64 };
static const int ADD = net::message::FLAG_MODE_ADD, REM = net::message::FLAG_MODE_REMOVE, SET = net::message::FLAG_MODE_SET;

// ---- messages ------------------------------------------------------------------------------
struct Sys {
	bool real, courier;
	struct M { S data, uid; int flags; };
	typedef std::shared_ptr <M> PM;
	std::vector <PM> a, b; size_t made = 0;      // the mailboxes
	Box box;
	struct View : public events::messageCountListener, public events::messageChangedListener {
		Sys* s = NULL; NFolder f; bool open = false; std::vector <PM> v;
		std::vector <std::pair <NMsg, PM> > held;
		std::vector <size_t> added, removed, changed; S err;
		void got(std::vector <size_t>& to, const std::vector <size_t>& n, NFolder x) { if (x != f) err = "event of another folder"; to.insert(to.end(), n.begin(), n.end()); }
		void messagesAdded(const shared_ptr <events::messageCountEvent>& e) { got(added, e->getNumbers(), e->getFolder()); }
		void messagesRemoved(const shared_ptr <events::messageCountEvent>& e) { got(removed, e->getNumbers(), e->getFolder()); }
		void messageChanged(const shared_ptr <events::messageChangedEvent>& e) { got(changed, e->getNumbers(), e->getFolder()); }
		void clear() { added.clear(); removed.clear(); changed.clear(); }
	} F, G;
	std::set <PM> gone;
	struct Op { S name; std::function <bool()> can; std::function <void()> run; };
	std::vector <Op> ops;

	Sys(bool r, bool c) : real(r), courier(c) {
		if (real) { fresh(courier, {"a", "b"}); }
		for (int i = 0 ; i < 2 ; ++i) put(i ? SEEN : 0, i == 0);
		if (real) link();
		F.s = G.s = this; define();
	}
	~Sys() { vfs::On o; unlink(); box.drop(); vfs::reset(); }
	void link() { box.connect(); vfs::On o; for (View* x : {&F, &G}) { x->f = box.folder(P("a")); x->f->addMessageCountListener(x); x->f->addMessageChangedListener(x); } }
	void unlink() { for (View* x : {&F, &G}) { x->held.clear(); if (x->f) { x->f->removeMessageCountListener(x); x->f->removeMessageChangedListener(x); } x->f.reset(); } }
	S text() { return msgText("m" + str(++made)); }
	/** a message delivered by somebody else */
	void put(int flags, bool isNew) {
		PM m(new M{text(), S(), flags}); a.push_back(m);
		if (real) { const S id = "900." + str(made) + "." + host; m->uid = id; vfs::put(fsDir(courier, "a") + (isNew ? "/new/" + id : "/cur/" + id + (flags ? ":2,S" : ":2,")), m->data); }
	}
	template <class T> void call(T t) { if (!real) return; vfs::On o; t(); }
	template <class T> void refused(const S& what, T t) { if (!real) return; bool thrown = false; { vfs::On o; try { t(); } catch (vmime::exception&) { thrown = true; } } CHECK(thrown, what + " was accepted"); }
	void define() {
		for (View* x : {&F, &G}) {
			const bool f = x == &F; const S n = f ? "F" : "G";
			auto isOpen = [=] { return x->open; };
			ops.push_back({n + ".open", [=] { return !x->open; }, [=] { call([&] { x->f->open(net::folder::MODE_READ_WRITE); }); x->open = true; x->v = a; if (real) adopt(*x); x->clear(); }});
			ops.push_back({n + ".close", isOpen, [=] { call([&] { x->f->close(false); }); shut(*x); }});
			if (f) ops.push_back({n + ".close(expunge)", isOpen, [=] { call([&] { x->f->close(true); }); expunge(*x); x->clear(); shut(*x); }});
			auto add = [=](const S& nm, int flags) { ops.push_back({n + ".add(" + nm + ")", [=] { return x->open && a.size() < 4; }, [=] {
				PM m(new M{text(), S(), flags == -1 ? 0 : flags & ~RECENT}); a.push_back(m);
				call([&] { utility::inputStreamStringAdapter is(m->data); CHECK(x->f->addMessage(is, m->data.size(), flags).isEmpty(), "numbers returned"); });
				adoptGrowth(*x, m); adoptGrowth(other(*x), m);
			}}); };
			add("", -1); if (f) { add("SEEN", SEEN); add("DELETED|MARKED", DEL | MARK); add("RECENT", RECENT); }
			auto set = [=](const S& nm, size_t first, size_t last, int flags, int mode) { ops.push_back({n + "." + nm, [=] { return x->open && x->v.size() >= first; }, [=] {
				const size_t l = std::min(last, x->v.size()); call([&] { if (nm.compare(0, 6, "delete") == 0) x->f->deleteMessages(messageSet::byNumber(first, last)); else x->f->setMessageFlags(messageSet::byNumber(first, last), flags, mode); });
				std::vector <size_t> nums; for (size_t i = first ; i <= l ; ++i) { int& g = x->v[i - 1]->flags; g = mode == ADD ? g | flags : mode == REM ? g & ~flags : flags; nums.push_back(i); }
				if (real) CHECK(x->changed == nums, "announced as changed: " + mc::show(x->changed) + " instead of " + mc::show(nums)); x->clear();
			}}); };
			set("delete(1)", 1, 1, DEL, ADD); set("set(1,+SEEN)", 1, 1, SEEN, ADD);
			if (f) { set("delete(2)", 2, 2, DEL, ADD); set("delete(2:*)", 2, size_t(-1), DEL, ADD); set("set(1:*,-SEEN)", 1, size_t(-1), SEEN, REM); set("set(1,-DELETED)", 1, 1, DEL, REM); set("set(2,=PASSED|REPLIED)", 2, 2, PASS | REPL, SET); set("set(2,=DRAFT)", 2, 2, DRAFT, SET); set("set(1,=DELETED|SEEN)", 1, 1, DEL | SEEN, SET); }
			ops.push_back({n + ".expunge", isOpen, [=] { call([&] { x->f->expunge(); }); expunge(*x); }});
			ops.push_back({n + ".status", [] { return true; }, [=] {
				call([&] { size_t c = 0, u = 0; x->f->status(c, u); size_t want = 0; for (auto& m : a) want += !(m->flags & SEEN); CHECK(c == a.size(), "status reports " + str(c) + " messages, there are " + str(a.size())); CHECK(u == want, "status reports " + str(u) + " unseen messages, there are " + str(want)); });
				if (x->open) { if (real) { adoptGrowth(*x); adoptGrowth(other(*x)); } else for (View* y : {&F, &G}) if (y->open) for (auto& m : a) if (std::find(y->v.begin(), y->v.end(), m) == y->v.end()) y->v.push_back(m); CHECK(!real || x->v.size() == a.size(), "after status the folder lists " + str(x->v.size()) + " of " + str(a.size()) + " messages"); }
				else { x->clear(); if (real) adoptGrowth(other(*x)); }
			}});
			if (f) {
				ops.push_back({"F.copy(1:*,b)", [=] { return x->open && b.empty() && !x->v.empty(); }, [=] { call([&] { x->f->copyMessages(P("b"), messageSet::byNumber(1, size_t(-1))); }); for (auto& m : x->v) b.push_back(PM(new M{m->data, S(), m->flags})); }});
				ops.push_back({"F.copy(2,a)", [=] { return x->open && x->v.size() >= 2 && a.size() < 4; }, [=] {
					call([&] { x->f->copyMessages(P("a"), messageSet::byNumber(2)); }); a.push_back(PM(new M{x->v[1]->data, S(), x->v[1]->flags}));
					if (real) { adoptGrowth(F); adoptGrowth(G); } else if (G.open) for (View* y : {&F, &G}) y->v.push_back(a.back());
				}});
				ops.push_back({"F.hold", [=] { return x->open && x->held.empty() && !x->v.empty(); }, [=] {
					if (real) { vfs::On o; auto ms = x->f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes(fetchAttributes::FLAGS)); CHECK(ms.size() == x->v.size(), "messages listed"); for (size_t i = 0 ; i < ms.size() ; ++i) x->held.push_back({ms[i], x->v[i]}); }
					else for (auto& m : x->v) x->held.push_back({NMsg(), m});
				}});
				ops.push_back({"F.absent", isOpen, [=] {
					const size_t k = x->v.size() + 1;
					refused("setting flags of message " + str(k), [&] { x->f->setMessageFlags(messageSet::byNumber(k), SEEN, ADD); });
					refused("copying message " + str(k), [&] { x->f->copyMessages(P("b"), messageSet::byNumber(k)); });
					refused("getting message " + str(k), [&] { x->f->getMessage(k); });
					refused("getting messages 0", [&] { x->f->getMessages(messageSet::byNumber(k)); });
					refused("opening it again", [&] { x->f->open(net::folder::MODE_READ_WRITE); });
				}});
			}
		}
		ops.push_back({"deliver", [=] { return a.size() < 4; }, [=] { put(0, true); }});
		ops.push_back({"reconnect", [] { return true; }, [=] {
			for (View* x : {&F, &G}) { x->open = false; x->v.clear(); }
			if (!real) { F.held.clear(); return; }
			{ vfs::On o; NFolder f = F.f; auto held = F.held; unlink(); box.st->disconnect();
			// the folder objects outlive the connection: refused, but nothing worse
			std::vector <std::function <void()> > use = {[&] { f->getMessageCount(); }, [&] { f->getAttributes(); }, [&] { f->exists(); }, [&] { f->getStatus(); }, [&] { f->getFolders(true); }, [&] { f->getParent(); }, [&] { f->getMessage(1); }, [&] { f->expunge(); }, [&] { f->getStore(); }, [&] { for (auto& h : held) bytes(h.first); }, [&] { for (auto& h : held) h.first->setFlags(SEEN, ADD); }, [&] { size_t c, u; f->status(c, u); }, [&] { f->open(net::folder::MODE_READ_ONLY); }, [&] { f->close(false); }, [&] { f->destroy(); }, [&] { f->copyMessages(P("b"), messageSet::byNumber(1)); }, [&] { f->getFolder(folder::path::component("q")); }};
			for (auto& u : use) try { u(); } catch (vmime::exception&) {} }
			box.drop(); link();
		}});
	}
	View& other(View& x) { return &x == &F ? G : F; }
	void shut(View& x) {
		x.open = false; x.v.clear(); x.clear();
		if (real) for (auto& h : x.held) { vfs::On o; bool thrown = false; try { bytes(h.first); } catch (vmime::exception&) { thrown = true; } CHECK(thrown, "a message of a closed folder can be read"); }
		x.held.clear();
	}
	/** the numbering found when the folder is opened is the application's; it must consist of the messages there are */
	void adopt(View& x) {
		vfs::On o; auto l = look(x.f); std::vector <PM> v, left = a;
		CHECK(l.size() == a.size(), "the opened folder has " + str(l.size()) + " messages instead of " + str(a.size()));
		for (auto& s : l) v.push_back(match(s, left));
		x.v = v;
	}
	PM match(const Seen& s, std::vector <PM>& left) {
		size_t best = size_t(-1);
		for (size_t i = 0 ; i < left.size() ; ++i) if (left[i]->data == s.data && left[i]->flags == s.flags && (left[i]->uid.empty() || left[i]->uid == s.uid)) if (best == size_t(-1) || !left[i]->uid.empty()) best = i;
		if (best == size_t(-1)) { S d; for (auto& m : left) d += " [" + m->uid + " " + flagStr(m->flags) + " " + esc(m->data.substr(0, 14)) + "]"; CHECK(false, "unexpected message " + s.uid + " with flags " + flagStr(s.flags) + ": " + esc(s.data.substr(0, 60)) + "; expected one of" + d); }
		PM m = left[best]; left.erase(left.begin() + best); m->uid = s.uid; return m;
	}
	/** messages of the mailbox may be appended to the list of an open folder, when announced; this one must be */
	void adoptGrowth(View& x, PM must = PM()) {
		if (!real) { if (x.open && must) x.v.push_back(must); return; }
		if (!x.open) { x.clear(); return; }
		vfs::On o; auto l = look(x.f); std::vector <PM> left; for (auto& m : a) if (std::find(x.v.begin(), x.v.end(), m) == x.v.end()) left.push_back(m);
		std::vector <size_t> nums; CHECK(l.size() >= x.v.size(), "messages disappeared");
		for (size_t k = x.v.size() ; k < l.size() ; ++k) { x.v.push_back(match(l[k], left)); nums.push_back(k + 1); }
		CHECK(x.added == nums, "announced as added: " + mc::show(x.added) + " instead of " + mc::show(nums));
		CHECK(x.removed.empty() && x.changed.empty(), "messages announced as removed or changed");
		CHECK(!must || std::find(x.v.begin(), x.v.end(), must) != x.v.end(), "the message is not listed");
		x.clear();
	}
	void expunge(View& x) {
		std::set <PM> del; for (auto& m : x.v) if (m->flags & DEL) del.insert(m);
		for (View* y : {&F, &G}) {
			std::vector <size_t> nums; std::vector <PM> keep; for (size_t i = 0 ; i < y->v.size() ; ++i) if (del.count(y->v[i])) nums.push_back(i + 1); else keep.push_back(y->v[i]);
			if (y->open) y->v = keep;
			if (real && y->open) CHECK(y->removed == nums, "announced as removed: " + mc::show(y->removed) + " instead of " + mc::show(nums));
			y->clear();
		}
		std::vector <PM> keep; for (auto& m : a) if (!del.count(m)) keep.push_back(m); else gone.insert(m); a = keep;
	}
	// ---- lts interface
	size_t opCount() const { return ops.size(); }
	S opName(size_t i) const { return ops[i].name; }
	bool enabled(size_t i) const { return ops[i].can(); }
	void step(size_t i) { F.clear(); G.clear(); ops[i].run(); if (real) { for (View* x : {&F, &G}) CHECK(x->err.empty(), x->err); contained(); CHECK(vfs::fds.empty() && vfs::dirs.empty(), "a file was left open"); } }
	S mk(const PM& m) const { return m->data.substr(9, 2) + flagStr(m->flags); }
	S key() const {
		// contents do not matter, only which message is which
		std::map <M*, S> n; S s; auto name = [&](const PM& m) { S& k = n[m.get()]; if (k.empty()) k = str(n.size()); return k; };
		for (const View* x : {&F, &G}) { s += x->open ? "|O" : "|C"; for (auto& m : x->v) s += " " + name(m) + flagStr(m->flags); }
		s += "|"; for (auto& m : a) s += " " + name(m) + flagStr(m->flags); s += "|" + str(b.size()); s += "|h"; for (auto& h : F.held) s += " " + (gone.count(h.second) ? S("x") : name(h.second)); return s;
	}
	void check() {
		{ vfs::On o;
		for (View* x : {&F, &G}) {
			CHECK(x->f->isOpen() == x->open, "open?"); if (!x->open) continue;
			auto l = look(x->f); S got, want; for (auto& s : l) got += " " + s.uid + "/" + flagStr(s.flags) + "/" + esc(s.data); for (auto& m : x->v) want += " " + (m->uid) + "/" + flagStr(m->flags) + "/" + esc(m->data);
			if (l.size() == x->v.size()) for (size_t i = 0 ; i < l.size() ; ++i) if (x->v[i]->uid.empty()) x->v[i]->uid = l[i].uid;
			want.clear(); for (auto& m : x->v) want += " " + (m->uid) + "/" + flagStr(m->flags) + "/" + esc(m->data);
			CHECK(got == want, S(x == &F ? "F" : "G") + " lists" + got + " instead of" + want);
			for (auto& h : x->held) {
				if (gone.count(h.second)) { CHECK(h.first->isExpunged(), "an expunged message does not know it"); bool thrown = false; try { bytes(h.first); } catch (vmime::exception&) { thrown = true; } CHECK(thrown, "an expunged message can be read"); thrown = false; try { h.first->setFlags(SEEN, ADD); } catch (vmime::exception&) { thrown = true; } CHECK(thrown, "the flags of an expunged message can be set"); continue; }
				CHECK(!h.first->isExpunged(), "a message is taken for expunged"); const size_t n = std::find(x->v.begin(), x->v.end(), h.second) - x->v.begin() + 1;
				CHECK(h.first->getNumber() == n, "a message has number " + str(h.first->getNumber()) + " instead of " + str(n)); CHECK(h.first->getFlags() == h.second->flags, "a message has flags " + flagStr(h.first->getFlags()) + " instead of " + flagStr(h.second->flags));
				CHECK(bytes(h.first) == h.second->data, "a message has other contents");
			}
		} }
		// what somebody else finds in the folders
		vfs::FS saved = vfs::fs.clone(); { Box o; o.connect(); vfs::On on;
		for (auto& p : {std::make_pair(S("a"), &a), std::make_pair(S("b"), &b)}) {
			size_t c = 0, u = 0, wu = 0; for (auto& m : *p.second) wu += !(m->flags & SEEN);
			NFolder f = o.folder(P(p.first)); f->status(c, u); CHECK(c == p.second->size() && u == wu, "somebody else counts " + str(c) + " messages, " + str(u) + " unseen, in " + p.first + " instead of " + str(p.second->size()) + ", " + str(wu));
			f->open(net::folder::MODE_READ_ONLY); auto l = look(f); std::vector <PM> left = *p.second; CHECK(l.size() == left.size(), "somebody else finds " + str(l.size()) + " messages in " + p.first + " instead of " + str(left.size())); for (auto& s : l) match(s, left);
			bool thrown = false; try { f->addMessage(make_shared <vmime::message>()); } catch (exceptions::illegal_state&) { thrown = true; } CHECK(thrown, "added to a folder opened for reading"); thrown = false; try { f->expunge(); } catch (exceptions::illegal_state&) { thrown = true; } CHECK(thrown, "expunged a folder opened for reading"); thrown = false; try { f->setMessageFlags(messageSet::byNumber(1), SEEN); } catch (exceptions::illegal_state&) { thrown = true; } CHECK(thrown, "changed a folder opened for reading");
		} }
		contained(); vfs::fs = saved.clone(); for (auto& e : vfs::fs.m) CHECK(e.first.find("/tmp/") == S::npos || e.first.find("canary") != S::npos, "left behind: " + e.first);
	}
};

// ---- folders -------------------------------------------------------------------------------
static const std::vector <S> TREE = {"a", "ab", "a/s", "a/s/t", "ab/s", "c"};
struct Tree {
	bool real, courier; Box box; std::map <S, S> have; size_t made = 0;
	struct H { NFolder f; S path; }; std::vector <H> held;
	struct Op { S name; std::function <bool()> can; std::function <void()> run; }; std::vector <Op> ops;
	static S parent(const S& p) { const size_t k = p.rfind('/'); return k == S::npos ? "" : p.substr(0, k); }
	static bool under(const S& p, const S& of) { return p.size() > of.size() && p.compare(0, of.size() + 1, of + "/") == 0; }
	Tree(bool r, bool c) : real(r), courier(c) {
		if (courier) have["z"] = "";
		if (real) { fresh(courier); box.connect(); vfs::On o; for (auto& p : TREE) held.push_back({box.folder(P(p)), p}); } else for (auto& p : TREE) held.push_back({NFolder(), p});
		for (auto& p : TREE) {
			ops.push_back({"create " + p, [=] { return !have.count(p) && (parent(p).empty() || have.count(parent(p))) && have.size() < 6; }, [=] {
				const S tag = "tag" + str(++made); have[p] = tag;
				if (real) { vfs::On o; NFolder f = box.folder(P(p)); f->create(folderAttributes()); f->open(net::folder::MODE_READ_WRITE); const S d = msgText(tag); utility::inputStreamStringAdapter is(d); f->addMessage(is, d.size()); f->close(false); bool thrown = false; try { f->create(folderAttributes()); } catch (exceptions::illegal_state&) { thrown = true; } CHECK(thrown, "created twice"); }
			}});
			ops.push_back({"destroy " + p, [=] { return have.count(p); }, [=] { if (real) { vfs::On o; box.folder(P(p))->destroy(); } for (auto it = have.begin() ; it != have.end() ; ) if (it->first == p || under(it->first, p)) it = have.erase(it); else ++it; }});
			for (auto& q : TREE) if (p != q) {
				ops.push_back({"rename " + p + " -> " + q, [=] { return have.count(p) && (have.count(q) || under(q, p) || parent(q).empty() || have.count(parent(q))); }, [=] {
					const bool ok = !have.count(q) && !under(q, p);
					if (real) { vfs::On o; bool thrown = false; S why; NFolder f = box.folder(P(p)); try { f->rename(P(q)); } catch (vmime::exception& e) { thrown = true; why = describeVmime(e); } CHECK(thrown == !ok, ok ? "rename refused: " + why : S("an impossible rename was accepted")); CHECK(pathStr(f->getFullPath()) == (ok ? q : p), "the folder says it is " + pathStr(f->getFullPath())); CHECK(f->getName().getBuffer() == (ok ? q : p).substr((ok ? q : p).rfind('/') + 1), "the folder says its name is " + f->getName().getBuffer()); }
					if (!ok) return;
					std::map <S, S> n; for (auto& e : have) n[e.first == p || under(e.first, p) ? q + e.first.substr(p.size()) : e.first] = e.second; have = n;
					for (auto& h : held) if (h.path == p || under(h.path, p)) h.path = q + h.path.substr(p.size());
				}});
			}
		}
	}
	~Tree() { vfs::On o; held.clear(); box.drop(); vfs::reset(); }
	size_t opCount() const { return ops.size(); }
	S opName(size_t i) const { return ops[i].name; }
	bool enabled(size_t i) const { return ops[i].can(); }
	void step(size_t i) { ops[i].run(); if (real) contained(); }
	S key() const { S s; std::map <S, S> n; for (auto& e : have) { S& k = n[e.second]; if (k.empty()) k = str(n.size()); s += " " + e.first + "=" + k; } s += "|"; for (auto& h : held) s += " " + h.path; return s; }
	static S names(const std::vector <NFolder>& l, std::vector <S>* out = NULL) { std::vector <S> v; for (auto& f : l) v.push_back(pathStr(f->getFullPath())); std::sort(v.begin(), v.end()); return mc::show(v); }
	void view(Box& b) {
		auto kids = [&](const S& p, bool rec) { std::vector <S> v; for (auto& e : have) if (p.empty() ? rec || e.first.find('/') == S::npos : under(e.first, p) && (rec || parent(e.first) == p)) v.push_back(e.first); std::sort(v.begin(), v.end()); return mc::show(v); };
		auto chk = [&](NFolder f, const S& p) {
			for (bool rec : {false, true}) { const S g = names(f->getFolders(rec)); CHECK(g == kids(p, rec), "folders below '" + p + "'" + (rec ? " (all)" : "") + ": " + g + " instead of " + kids(p, rec)); }
			const auto at = f->getAttributes(); CHECK(!!(at.getFlags() & folderAttributes::FLAG_HAS_CHILDREN) == (kids(p, false) != mc::show(std::vector <S>())), "'" + p + "' has children?");
		};
		chk(b.st->getRootFolder(), "");
		std::vector <S> all = TREE; for (auto& e : have) all.push_back(e.first);
		for (auto& p : all) {
			NFolder f = b.folder(P(p)); CHECK(f->exists() == !!have.count(p), "'" + p + "' exists?");
			CHECK(pathStr(f->getParent()->getFullPath()) == parent(p), "parent");
			if (!have.count(p)) { bool thrown = false; try { f->open(net::folder::MODE_READ_ONLY); } catch (vmime::exception&) { thrown = true; } CHECK(thrown, "opened '" + p + "' that does not exist"); continue; }
			chk(f, p); content(f, p);
		}
	}
	void content(NFolder f, const S& p) {
		f->open(net::folder::MODE_READ_ONLY); auto l = look(f); const S want = have[p];
		CHECK(l.size() == (want.empty() ? 0 : 1), "'" + p + "' has " + str(l.size()) + " messages"); if (!want.empty()) CHECK(l[0].data == msgText(want), "'" + p + "' has the message of another folder"); f->close(false);
	}
	void check() {
		{ vfs::On o; view(box);
		for (auto& h : held) { CHECK(pathStr(h.f->getFullPath()) == h.path, "a folder object says it is " + pathStr(h.f->getFullPath()) + " instead of " + h.path); CHECK(h.f->getName().getBuffer() == h.path.substr(h.path.rfind('/') + 1), "the name of " + h.path + " is given as " + h.f->getName().getBuffer()); CHECK(h.f->exists() == !!have.count(h.path), "exists?"); if (have.count(h.path)) content(h.f, h.path); } }
		{ Box o; o.connect(); vfs::On on; view(o); }
		contained();
	}
};

void mc_main(mc::Run& R) {
	init();
	R.property = "C27"; R.level = "model_checking";
	R.rule = "Explicit-state exploration of a mailbox model with every transition executed by the real store (on an in-memory file system below the POSIX calls): all states of up to four messages, two folder objects on one folder, held message objects, copies, deliveries by others and reconnections; all states of a folder tree under creation, renaming and destruction; all short folder names; file names; all ranges of extraction; both layouts.";
	R.assumptions = {"the simulated file system answers like a POSIX one", "message numbers at opening may be in any order", "messages removed from the folder by other programs while it is open are not explored"};
	const bool T = R.thorough;
	for (bool c : {false, true}) mc::lts(R, c ? "messages courier" : "messages kmail", [=](bool real) { return std::unique_ptr <Sys>(new Sys(real, c)); }, 1, 99, T ? 1500 : c ? 120 : 250);
	for (bool c : {false, true}) mc::lts(R, c ? "folders courier" : "folders kmail", [=](bool real) { return std::unique_ptr <Tree>(new Tree(real, c)); }, 1, 99, T ? 1000 : 80);

	// ---- folders opened again: what was before must not shine through
	for (bool c : {false, true}) { std::vector <S> names; { Sys m(false, c); for (size_t i = 0 ; i < m.opCount() ; ++i) names.push_back(m.opName(i)); }
		for (size_t i = 0 ; i < names.size() ; ++i) for (size_t j = 0 ; j < names.size() ; ++j) for (int how = 0 ; how < (T ? 4 : 2) ; ++how) R.testL([&] { return S("reopened ") + (c ? "courier " : "kmail ") + names[i] + "," + names[j] + "|" + str(how); }, [&] {
			Sys s(true, c); S did; auto go = [&](const S& n) { for (size_t k = 0 ; k < names.size() ; ++k) if (names[k] == n && s.enabled(k)) { s.step(k); s.check(); did += n + " "; } };
			go("F.open"); go("F.hold"); if (how & 2) go("G.open"); go(names[i]); go(how & 1 ? "F.close(expunge)" : "F.close"); go("deliver"); go("F.open"); go(names[j]); go("F.hold"); go("F.close"); go("F.open"); R.transition(); R.outcome(did.size());
		});
	}
	// ---- folders of the same name in different places, with files of the same names
	for (bool c : {false, true}) for (int first = 0 ; first < 2 ; ++first) for (int op = 0 ; op < 9 ; ++op) R.testL([&] { return S("namesakes ") + (c ? "courier" : "kmail") + "|" + str(first) + "," + str(op); }, [&] {
		fresh(c, {"a", "b", "b/a"}); for (auto d : {"a", "b/a"}) for (int k = 1 ; k <= 3 ; ++k) vfs::put(fsDir(c, d) + "/cur/900." + str(k) + ".h:2,", msgText(S(d) + str(k)));
		Box b; b.connect(); vfs::On o; NFolder x = b.folder(P(first ? "b/a" : "a")), y = b.folder(P(first ? "a" : "b/a"));
		struct L : public events::messageCountListener, public events::messageChangedListener, public events::folderListener { int n = 0; void messagesAdded(const shared_ptr <events::messageCountEvent>&) { ++n; } void messagesRemoved(const shared_ptr <events::messageCountEvent>&) { ++n; } void messageChanged(const shared_ptr <events::messageChangedEvent>&) { ++n; } void folderCreated(const shared_ptr <events::folderEvent>&) { ++n; } void folderRenamed(const shared_ptr <events::folderEvent>&) { ++n; } void folderDeleted(const shared_ptr <events::folderEvent>&) { ++n; } } l;
		x->open(net::folder::MODE_READ_WRITE); y->open(net::folder::MODE_READ_WRITE); auto show = [&] { S r; for (auto& s : look(y)) r += s.uid + "/" + flagStr(s.flags) + "/" + s.data + ";"; return r; };
		const S before = show(); auto held = y->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes(fetchAttributes::FLAGS)); CHECK(held.size() == 3, "messages"); y->addMessageCountListener(&l); y->addMessageChangedListener(&l); y->addFolderListener(&l); vfs::FS was = vfs::fs.clone();
		switch (op) { case 0: x->setMessageFlags(messageSet::byNumber(2), SEEN, ADD); break; case 1: x->deleteMessages(messageSet::byNumber(1, size_t(-1))); break; case 2: x->deleteMessages(messageSet::byNumber(2)); x->expunge(); break; case 3: { utility::inputStreamStringAdapter is("Subject: n\r\n\r\n"); x->addMessage(is, 16, SEEN); break; } case 4: x->copyMessages(P("b"), messageSet::byNumber(1, 2)); break; case 5: x->getMessage(1)->setFlags(MARK, SET); break; case 6: { size_t n, u; vfs::put(fsDir(c, first ? "b/a" : "a") + "/new/901.1.h", msgText("new")); x->status(n, u); CHECK(n == 4, "status"); break; } case 7: x->close(true); break; case 8: { x->deleteMessages(messageSet::byNumber(3)); size_t n, u; x->status(n, u); x->close(true); x->destroy(); break; } }
		R.transition(); CHECK(l.n == 0, "an event of the other folder"); R.equal(show(), before, "messages of the other folder"); for (size_t k = 0 ; k < 3 ; ++k) CHECK(held[k]->getNumber() == k + 1 && held[k]->getFlags() == 0 && !held[k]->isExpunged() && !bytes(held[k]).empty(), "a message of the other folder"); size_t n = 0, u = 0; y->status(n, u); CHECK(n == 3 && u == 3, "status of the other folder"); CHECK(y->isOpen(), "the other folder was closed"); R.outcome(op);
		y->removeMessageCountListener(&l); y->removeMessageChangedListener(&l); y->removeFolderListener(&l); held.clear(); x.reset(); y.reset(); b.drop();
	});
	// ---- names of folders
	std::vector <S> names; {
		mc::strings({"a", ".", "&", "+", "-", "B", " ", ",", "~", "\\", "%", ":"}, 1, T ? 3 : 2, [&](const S& s) { names.push_back(s); });
		mc::strings({"a", "\xc3\xa9", ".", "&", "-", "\xe6\x97\xa5", "+", "\xf0\x9f\x98\x80", "0"}, 1, T ? 4 : 3, [&](const S& s) { names.push_back(s); });
		for (const char* s : {"/", "a/b", "*", "a*", "..", "../x", "cur", "new", "tmp", "x.directory", ".x.directory", "maildirfolder", "&AOk-", "+AOk-", "inbox"}) names.push_back(s);
		std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end());
	}
	for (bool c : {false, true}) for (auto& nm : names) {
		bool ascii = true; for (unsigned char ch : nm) if (ch >= 128) ascii = false;
		if (!c && !ascii) continue;
		R.testL([&] { return S("name ") + (c ? "courier " : "kmail ") + nm; }, [&] {
			fresh(c); const S before = vfs::fs.dump(); Box b; b.connect(); vfs::On o;
			const folder::path p = folder::path() / folder::path::component(nm, charset("UTF-8")), sub = p / folder::path::component("sub", charset("UTF-8")), q = folder::path() / folder::path::component("q", charset("UTF-8"));
			NFolder f = b.folder(p); bool ok = true;
			CHECK(!f->exists(), "exists before it is created");
			try { f->create(folderAttributes()); } catch (exceptions::invalid_folder_name&) { ok = false; } catch (exceptions::command_error&) { ok = false; }
			contained(); R.outcome(ok ? "valid" : "invalid");
			const bool must = !nm.empty() && nm.find_first_of("/*.") == S::npos && nm[0] != ' ' && nm.back() != ' ' ;
			CHECK(ok || !must, "the name is refused");
			if (!ok) { CHECK(vfs::fs.dump() == before, "a refused folder was created in part"); return; }
			f = b.folder(p); CHECK(f->exists(), "does not exist");
			{ f->open(net::folder::MODE_READ_WRITE); const S d = msgText("x"); utility::inputStreamStringAdapter is(d); f->addMessage(is, d.size()); f->close(false); }
			b.folder(sub)->create(folderAttributes());
			auto listed = [&](Box& x, const folder::path& want) {
				size_t n = 0, m = 0; for (auto& y : x.st->getRootFolder()->getFolders(false)) if (y->getFullPath() == want) ++n; else CHECK(c && pathStr(y->getFullPath()) == "z", "a folder is listed as '" + esc(pathStr(y->getFullPath())) + "'");
				for (auto& y : x.folder(want)->getFolders(true)) { CHECK(y->getFullPath() == want / folder::path::component("sub"), "the subfolder is listed as '" + esc(pathStr(y->getFullPath())) + "'"); ++m; }
				CHECK(n == 1, "listed " + str(n) + " times"); CHECK(m == 1, "the subfolder is listed " + str(m) + " times");
			};
			listed(b, p); { Box x; x.connect(); vfs::On on; listed(x, p); }
			f->rename(q); listed(b, q); CHECK(!b.folder(p)->exists(), "exists after it was renamed"); f->rename(p); listed(b, p);
			f->open(net::folder::MODE_READ_ONLY); CHECK(f->getMessageCount() == 1 && bytes(f->getMessage(1)) == msgText("x"), "the message is lost"); f->close(false);
			f->destroy(); CHECK(!b.folder(p)->exists() && !b.folder(sub)->exists(), "exists after it was destroyed");
			contained();
			// different names are different folders: covered by the names alone, since each maps to its own directory
			for (auto& e : vfs::fs.m) CHECK(c || before.find(e.first) != S::npos || e.first.find(".directory") != S::npos, "left behind: " + e.first);
		});
	}
	for (bool c : {false, true}) R.test(c ? "distinct names courier" : "distinct names kmail", [&] {
		fresh(c); Box b; b.connect(); vfs::On o; auto fmt = dynamicCast <net::maildir::maildirStore>(b.st)->getFormat();
		std::map <S, S> dir; for (auto& nm : names) { bool ascii = true; for (unsigned char ch : nm) if (ch >= 128) ascii = false; if ((!c && !ascii) || nm.find_first_of("/*") != S::npos || nm[0] == '.') continue;
			S d; const auto fp = fmt->folderPathToFileSystemPath(folder::path() / folder::path::component(nm, charset("UTF-8")), maildir::maildirFormat::ROOT_DIRECTORY); for (size_t i = 0 ; i < fp.getSize() ; ++i) d += "/" + fp[i].getBuffer();
			CHECK(dir.insert({d, nm}).second, "'" + esc(nm) + "' and '" + esc(dir[d]) + "' share the directory " + d); }
	});
	// names that would lead elsewhere, in all operations
	for (bool c : {false, true}) for (const S& nm : {S(".."), S("."), S(""), S("../other"), S("a/../../other"), S("../.."), S("../../m/other"), S("/"), S("a/.."), S("..\0x", 4), S("../s")})
	for (int pos = 0 ; pos < 4 ; ++pos) for (int op = 0 ; op < 11 ; ++op) R.testL([&] { return S("hostile ") + (c ? "courier '" : "kmail '") + esc(nm) + "' " + str(pos) + " op " + str(op); }, [&] {
		fresh(c, {"a", "b"}); vfs::put(fsDir(c, "b") + "/cur/1.2.x:2,", msgText("x")); Box b; b.connect(); vfs::On o;
		const folder::path::component h(nm, charset("UTF-8")), a("a"), e("");
		const folder::path p = pos == 0 ? folder::path() / h : pos == 1 ? folder::path() / a / h : pos == 2 ? folder::path() / h / a : folder::path() / h / h;
		try {
			NFolder f = b.folder(p), g = b.folder(P("b"));
			switch (op) {
				case 0: f->exists(); break;
				case 1: f->open(net::folder::MODE_READ_ONLY); break;
				case 2: f->destroy(); break;
				case 3: f->getFolders(true); break;
				case 4: { size_t n, u; f->status(n, u); break; }
				case 5: f->create(folderAttributes()); break;
				case 6: g->rename(p); break;
				case 7: f->rename(P("c")); break;
				case 8: g->open(net::folder::MODE_READ_WRITE); g->copyMessages(p, messageSet::byNumber(1)); break;
				case 9: f->getAttributes(); break;
				case 10: f->open(net::folder::MODE_READ_WRITE); { const S d = "x"; utility::inputStreamStringAdapter is(d); f->addMessage(is, 1); } break;
			}
			R.outcome("accepted");
		} catch (vmime::exception& x) { R.outcome("refused"); }
		contained();
		CHECK(vfs::fs.m.count(fsDir(c, "a") + "/cur") && (op == 6 || vfs::fs.m.count(fsDir(c, "b") + "/cur/1.2.x:2,")), "another folder was destroyed");
	});

	// links to what is outside of the store: neither removed, nor emptied with the folder
	for (bool c : {false, true}) for (int where = 0 ; where < 8 ; ++where) for (const S& to : {S("/m/other"), S("/m/other/cur"), S("/m/other/cur/1.2.canary:2,"), S("/m/nowhere"), S("/m")}) for (int op = 0 ; op < 3 ; ++op)
	R.testL([&] { return S("link ") + (c ? "courier" : "kmail") + " " + str(where) + " to " + to + " op " + str(op); }, [&] {
		fresh(c, {"a", "a/b", "d"}); const S d = fsDir(c, "a"); S l = where == 0 ? d + "/cur/ln" : where == 1 ? d + "/ln" : where == 2 ? d + "/new/1.2.y:2,S" : where == 3 ? fsDir(c, "a/ln") : where == 4 ? fsDir(c, "a/b") + "/cur/ln" : where == 5 ? d + "/.ln" : where == 6 ? d + "/tmp/deep/ln" : fsDir(c, "a/b") + "/tmp/ln";
		vfs::put(d + "/cur/1.2.x:2,", msgText("x")); vfs::symlink(l, to); Box b; b.connect(); vfs::On o; NFolder f = b.folder(P("a"));
		if (op == 1) { f->rename(P("e")); f = b.folder(P("e")); }
		if (op == 2) b.folder(P("d"))->destroy(); else f->destroy();
		vfs::log.clear(); contained();
		if (op == 2) CHECK(vfs::fs.m.count(l), "the link is gone"); else { const bool noFolder = c && where == 3 && (to.find("canary") != S::npos || to == "/m/nowhere"); if (!noFolder) for (auto& e : vfs::fs.m) CHECK(e.second->link.empty(), "the link is left in " + e.first); CHECK(!f->exists(), "the folder still exists"); }
		CHECK(vfs::fs.m.count(fsDir(c, "d") + "/cur") == size_t(op != 2), "another folder was destroyed, or not the one to be destroyed");
	});

	// ---- names of files
	{
		const std::vector <S> ids = {"1043236113.351.EmqD.host", "1.2.a-b.c", "1.2.my-host-st", "1.2.x-FS", "1,S=12.x-t", "1.V2I3M4.h", "a"};
		struct Sfx { S s; int f; }; std::vector <Sfx> sfx = {{"", 0}, {":2,", 0}, {":2,S", SEEN}, {":2,FS", MARK | SEEN}, {":2,T", DEL}, {":2,DFPRST", DRAFT | MARK | PASS | REPL | SEEN | DEL}, {":2,R", REPL}, {":2,P", PASS}, {":2,D", DRAFT}, {":2,Sa", SEEN}, {"-2,S", SEEN}, {"-2,", 0}};
		for (bool c : {false, true}) for (auto& id : ids) for (auto& x : sfx) for (bool inNew : {false, true}) for (int set = 0 ; set < 128 ; ++set) {
			if (set & RECENT) continue; if (inNew && x.s != "") continue; if (!T && set && set != SEEN && set != (DEL | DRAFT) && set != 0x7d && id != ids[1]) continue;
			R.testL([&] { return S("file ") + (c ? "courier " : "kmail ") + (inNew ? "new/" : "cur/") + id + x.s + " set " + flagStr(set); }, [&] {
				fresh(c, {"a"}); const S d = fsDir(c, "a"); vfs::put(d + (inNew ? "/new/" : "/cur/") + id + x.s, msgText("x")); Box b; b.connect(); vfs::On o;
				NFolder f = b.folder(P("a")); f->open(net::folder::MODE_READ_WRITE); auto l = look(f); CHECK(l.size() == 1, str(l.size()) + " messages"); CHECK(l[0].uid == id, "identifier " + l[0].uid); CHECK(l[0].flags == x.f, "flags " + flagStr(l[0].flags) + " instead of " + flagStr(x.f));
				f->setMessageFlags(messageSet::byNumber(1), set, SET); l = look(f); CHECK(l[0].uid == id && l[0].flags == set && l[0].data == msgText("x"), "after setting: " + l[0].uid + " " + flagStr(l[0].flags));
				std::vector <S> files = vfs::list(d + "/cur"); CHECK(files.size() == 1 && vfs::list(d + "/new").empty(), "files: " + mc::show(files));
				// the standard form: flags in ASCII order
				S want = id + ":2,"; for (auto& p : {std::make_pair('D', DRAFT), std::make_pair('F', MARK), std::make_pair('P', PASS), std::make_pair('R', REPL), std::make_pair('S', SEEN), std::make_pair('T', DEL)}) if (set & p.second) want += p.first;
				S got = files[0]; if (got.size() == want.size()) std::sort(got.begin() + got.rfind(',') + 1, got.end());
				CHECK(got == want, "the file is called " + files[0] + " instead of " + want);
				Box y; y.connect(); NFolder g = y.folder(P("a")); g->open(net::folder::MODE_READ_ONLY); l = look(g); CHECK(l.size() == 1 && l[0].uid == id && l[0].flags == set, "read again: " + l[0].uid + " " + flagStr(l[0].flags)); contained();
			});
		}
		for (bool c : {false, true}) for (auto& i1 : ids) for (auto& i2 : ids) for (int where = 0 ; where < 4 ; ++where) if (i1 < i2) R.testL([&] { return S("files ") + (c ? "courier " : "kmail ") + i1 + " " + i2 + " " + str(where); }, [&] {
			for (bool rev : {false, true}) {
			vfs::reversed = rev; fresh(c, {"a"}); const S d = fsDir(c, "a"); vfs::put(d + (where & 1 ? "/new/" + i1 : "/cur/" + i1 + ":2,S"), msgText("x1")); vfs::put(d + (where & 2 ? "/new/" + i2 : "/cur/" + i2 + ":2,"), msgText("x2")); vfs::put(d + "/cur/.hidden", "x"); vfs::mkdirs(d + "/cur/dir");
			Box b; b.connect(); vfs::On o; NFolder f = b.folder(P("a")); size_t n, u; f->status(n, u); CHECK(n == 2, str(n) + " messages");
			f->open(net::folder::MODE_READ_WRITE); auto l = look(f); CHECK(l.size() == 2 && l[0].data != l[1].data && l[0].uid != l[1].uid, "messages lost"); f->status(n, u); CHECK(n == 2 && f->getMessageCount() == 2, "counted again: " + str(n)); l = look(f); CHECK(l.size() == 2 && l[0].data != l[1].data, "messages lost");
			vfs::reversed = false; }
		});
	}
	// ---- contents: whole, in part, and the parts of a structure
	{
		const S hdr = "Subject: c\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n";
		struct Part { S path, hdr, body; };
		const std::vector <std::pair <S, std::vector <Part> > > msgs = {
			{"Subject: plain\r\n\r\nbody\r\n", {{"0", "", "body\r\n"}}},
			{"Subject: c\n\nx\ny", {{"0", "", "x\ny"}}},
			{hdr + "pre\r\n--b\r\nContent-Type: text/plain\r\n\r\none\r\n--b\r\nSubject: two\r\nContent-Type: text/html\r\n\r\n<b>2</b>\r\n--b--\r\nepi\r\n", {{"0/0", "Content-Type: text/plain\r\n", "one"}, {"0/1", "Subject: two\r\nContent-Type: text/html\r\n", "<b>2</b>"}}},
			{hdr + "--b\r\nContent-Type: multipart/alternative; boundary=c\r\n\r\n--c\r\nX-P: 1\r\n\r\nA\r\n--c\r\n\r\nBB\r\n--c--\r\n--b\r\n\r\n\r\n--b--\r\n", {{"0/0/0", "X-P: 1\r\n", "A"}, {"0/0/1", "", "BB"}, {"0/1", "", ""}}},
			{"Subject: big\r\n\r\n" + S(20000, 'y') + "\r\nend", {{"0", "", S(20000, 'y') + "\r\nend"}}},
			{"Subject: " + S(900, 'h') + "\r\nX-Long: " + S(1200, 'k') + "\r\n\r\nbody\r\n\r\nmore\r\n", {{"0", "", "body\r\n\r\nmore\r\n"}}}};
		for (size_t mi = 0 ; mi < msgs.size() ; ++mi) for (int sized = 0 ; sized < 2 ; ++sized) R.testL([&] { return "contents " + str(mi) + (sized ? " with size" : ""); }, [&] {
			const S& d = msgs[mi].first; fresh(false, {"a"}); vfs::put(fsDir(false, "a") + "/cur/1.2.h:2,", d); Box b; b.connect(); vfs::On o;
			NFolder f = b.folder(P("a")); f->open(net::folder::MODE_READ_ONLY); NMsg m = f->getMessage(1);
			bool thrown = false; try { m->getFlags(); } catch (exceptions::unfetched_object&) { thrown = true; } CHECK(thrown, "flags known before they were fetched");
			f->fetchMessage(m, fetchAttributes(fetchAttributes::STRUCTURE | fetchAttributes::FULL_HEADER | (sized ? fetchAttributes::SIZE : 0)));
			{ vmime::message pm; pm.parse(d); CHECK(gen(*m->getHeader()) == gen(*pm.getHeader()), "header"); NMsg m2 = f->getMessage(1); f->fetchMessage(m2, fetchAttributes(fetchAttributes::FULL_HEADER)); CHECK(gen(*m2->getHeader()) == gen(*pm.getHeader()), "header alone: " + esc(gen(*m2->getHeader()))); CHECK(gen(*m->getParsedMessage()->getHeader()) == gen(*pm.getHeader()), "parsed message"); }
			const size_t step = d.size() > 5000 ? 1999 : d.size() > 1000 ? 97 : T ? 1 : 3;
			auto ranges = [&](const S& want, std::function <S(size_t, size_t)> get) {
				const size_t st = want.size() < 60 ? 1 : step;
				for (size_t s = 0 ; s <= want.size() + 2 ; s += st) for (size_t n = 0 ; n <= want.size() + 3 ; n += st) { const S g = get(s, n), w = s >= want.size() ? S() : want.substr(s, n); CHECK(g == w, "from " + str(s) + ", " + str(n) + " bytes: " + mc::Run::show(g) + " instead of " + mc::Run::show(w)); R.count("ranges"); }
				for (size_t s = 0 ; s <= want.size() + 1 ; s += st) CHECK(get(s, size_t(-1)) == (s >= want.size() ? S() : want.substr(s)), "from " + str(s));
			};
			ranges(d, [&](size_t s, size_t n) { vfs::log.clear(); return bytes(m, s, n); });
			for (auto& p : msgs[mi].second) {
				shared_ptr <messageStructure> st = m->getStructure(); shared_ptr <net::messagePart> part; S rest = p.path;
				while (!rest.empty()) { const size_t k = atoi(rest.c_str()); CHECK(k < st->getPartCount(), "no part " + p.path); part = st->getPartAt(k); st = part->getStructure(); const size_t s = rest.find('/'); rest = s == S::npos ? S() : rest.substr(s + 1); }
				CHECK(part->getSize() == p.body.size(), "part " + p.path + " has size " + str(part->getSize()));
				ranges(p.body, [&](size_t s, size_t n) { vfs::log.clear(); S x; utility::outputStreamStringAdapter os(x); m->extractPart(part, os, NULL, s, n); return x; });
				if (!p.hdr.empty()) { m->fetchPartHeader(part); vmime::header h; h.parse(p.hdr + "\r\n"); CHECK(gen(*part->getHeader()) == gen(h), "header of part " + p.path + ": " + esc(gen(*part->getHeader()))); }
			}
			contained();
		});
	}
}
