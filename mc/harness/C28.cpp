// C28: maildir messages survive crashes and write failures.
#include "maildirops.hpp"
#include "mc_main.hpp"
static Disk clean(const Disk& d) { Disk r; for (auto& e : d) if (!e.second.empty()) r.insert(e); return r; }
/** every message of both states is there, the others are one or the other; nothing is truncated */
static void between(const Ctx& c, const Disk& pre, const Disk& post, const Disk& now, const S& when, bool done) {
	// a folder being renamed has its messages at one of both places
	auto merge = [&](const Disk& d, bool& moved) { Disk r; for (auto& e : d) { auto k = e.first; for (const char* f : {"b", "b/s"}) if (k.first == c.dir(S("d") + (f + 1))) { k.first = c.dir(f); moved = true; } r[k].insert(e.second.begin(), e.second.end()); } return r; };
	bool mv = false, x = false; Disk P = merge(pre, x), Q = merge(post, mv), N = done ? now : mv ? merge(now, x) : now;
	if (done) { CHECK(clean(now) == clean(post), when + ": on the disk is" + show(now) + "\n instead of" + show(post)); return; }
	for (auto& e : N) { CHECK(c.texts.count(e.first.second), when + ": an incomplete or damaged message is there: " + e.first.first + ": " + brief(e.first.second)); CHECK(P.count(e.first) || Q.count(e.first), when + ": a message appeared in " + e.first.first + ": " + brief(e.first.second)); }
	Disk all = P; for (auto& e : Q) all[e.first];
	for (auto& e : all) {
		auto get = [](const Disk& d, const std::pair <S, S>& k) { auto it = d.find(k); return it == d.end() ? std::multiset <int>() : it->second; };
		const auto p = get(P, e.first), q = get(Q, e.first), n = get(N, e.first);
		CHECK(n.size() >= std::min(p.size(), q.size()), when + ": a message is lost from " + e.first.first + ": " + brief(e.first.second)); CHECK(n.size() <= std::max(p.size(), q.size()), when + ": a message is there twice in " + e.first.first + ": " + brief(e.first.second));
		for (int f : n) CHECK(p.count(f) || q.count(f), when + ": flags " + flagStr(f) + " of " + brief(e.first.second));
	}
}
/** what a program finds that opens the store now */
static bool whole(const S& dir) { for (const char* s : {"/cur", "/new", "/tmp"}) if (!vfs::fs.m.count(dir + s)) return false; return true; }
static void reopened(const Disk& want, bool courier, const S& when, bool moving) {
	static std::set <size_t> seen; if (!seen.insert(std::hash <S>()(vfs::fs.dump() + (courier ? "c" : "k"))).second) return;
	Box b; b.connect(); vfs::On o; Disk got, exp;
	for (auto& f : b.st->getRootFolder()->getFolders(true)) {
		const S dir = fsDir(courier, pathStr(f->getFullPath())); if (!f->exists()) { CHECK(!whole(dir) || courier, when + ": a folder does not exist although it is there: " + dir); continue; }
		f->open(net::folder::MODE_READ_ONLY); for (auto& s : look(f)) got[{dir, s.data}].insert(s.flags); f->close(false);
	}
	for (auto& e : want) if (!e.second.empty() && whole(e.first.first) && (got.count(e.first) || !moving)) exp.insert(e);
	if (NFolder f = b.folder(P("c"))) if (!f->exists()) { f->create(folderAttributes()); CHECK(f->exists() && b.folder(P("c"))->exists(), when + ": a folder cannot be created any more"); }
	CHECK(got == exp, when + ": found when the store is opened again:" + show(got) + "\n on the disk:" + show(exp));
}

struct Mode { S name; std::function <int(const vfs::Call&, size_t, size_t)> f; };   // call, its number, the chosen one
static std::vector <Mode> modes() {
	auto one = [](int e, std::set <S> which) { return [=](const vfs::Call& c, size_t n, size_t at) { return n == at && (which.empty() || which.count(c.name)) ? e : 0; }; };
	auto grows = [](const vfs::Call& c) { return c.name == "write" || c.name == "mkdir" || c.name == "fsync" || c.name == "link" || (c.name == "open" && c.path2 == "create"); };
	auto writes = [=](const vfs::Call& c) { return grows(c) || c.name == "rename" || c.name == "unlink" || c.name == "rmdir" || (c.name == "open" && c.path2 == "write"); };
	return {
		{"EIO", one(EIO, {})}, {"ENOSPC", one(ENOSPC, {"open", "write", "mkdir", "rename", "fsync", "close"})}, {"EINTR", one(EINTR, {"read", "write"})}, {"EMFILE", one(EMFILE, {"open", "opendir"})}, {"ENOENT", one(ENOENT, {"rename", "unlink", "open"})},
		{"1 byte", one(-1, {"read", "write"})}, {"half", one(vfs::HALF, {"read", "write"})},
		{"full from", [=](const vfs::Call& c, size_t n, size_t at) { return n >= at && grows(c) ? ENOSPC : 0; }},
		{"read-only from", [=](const vfs::Call& c, size_t n, size_t at) { return n >= at && writes(c) ? EROFS : 0; }},
		{"dead from", [=](const vfs::Call&, size_t n, size_t at) { return n >= at ? EIO : 0; }},
	};
}

static void drive(Ctx& c, const Op& op) { vfs::On o; op.run(c); }

void mc_main(mc::Run& R) {
	init();
	R.property = "C28"; R.level = "fault_enumeration";
	R.rule = "Histories of one and two (thorough: three) operations on two folder objects of a store in memory below the POSIX calls, in both layouts. For the last one: the state of the file system before each changing call (with all, none and half of the data that was not synced), and each call failing with each error, short reads and writes, and the disk becoming full, read-only or unusable from there on.";
	R.assumptions = {"renames and directory entries are durable in the order they were made", "a call that fails changes nothing"};
	const bool T = R.thorough; const auto O = ops(); auto M = modes(); const size_t basic = M.size();
	// two failures: that of what is done because of the first, for instance
	for (size_t k = 1 ; k <= (T ? 30 : 3) ; ++k) M.push_back({"EIO from time to time, +" + str(k), [k](const vfs::Call&, size_t n, size_t at) { return n == at || n == at + k ? EIO : 0; }});
	const std::set <S> first = {"add", "copy(2,a)", "delete(1:*)", "deliver+status"};
	std::vector <std::vector <size_t> > H; for (size_t i = 0 ; i < O.size() ; ++i) H.push_back({i});
	for (size_t i = 0 ; i < O.size() ; ++i) for (size_t j = 0 ; j < O.size() ; ++j) if ((T || first.count(O[i].name)) && O[i].name != "close(expunge)" && !(i == j && O[i].name == "create c") && !((O[i].name == "rename b" || O[i].name == "destroy b/s") && (O[j].name.find("b") != S::npos || j == i))) { H.push_back({i, j}); }
	for (bool cr : {false, true}) for (auto& h : H) {
		const Op& op = O[h.back()]; const bool moving = op.name == "rename b"; S hn; for (size_t i : h) hn += (hn.empty() ? "" : " ; ") + O[i].name; const S lay = cr ? "courier " : "kmail ";
		auto pre = [&](Ctx& c) { for (size_t i = 0 ; i + 1 < h.size() ; ++i) { if (O[h[i]].prep) O[h[i]].prep(c); drive(c, O[h[i]]); vfs::On o; c.see(); } if (op.prep) op.prep(c); vfs::reset(); };
		// ---- crashes, and other programs looking at the store
		R.testL([&] { return "crash " + lay + hn; }, [&] {
			Ctx c(cr); pre(c); const Disk before = disk(vfs::fs);
			std::vector <std::pair <S, vfs::FS> > snaps; vfs::before = [&](const vfs::Call& k) { for (int lost = 0 ; lost < 3 ; ++lost) snaps.push_back({"before " + k.name + " " + k.path + " (" + (lost == 0 ? "all" : lost == 1 ? "nothing" : "half") + " of the unsynced data on the disk)", vfs::fs.clone(lost)}); };
			drive(c, op); vfs::before = nullptr; Disk after = before; op.model(c, after); after = clean(after);
			for (int lost = 0 ; lost < 3 ; ++lost) { auto s = vfs::fs.clone(lost); between(c, before, after, disk(s), "when the operation is done" + S(lost ? " and the system crashes" : ""), true); }
			const vfs::FS live = vfs::fs; S last;
			for (auto& s : snaps) { between(c, before, after, disk(s.second), s.first, false); R.count("crash states"); const S d = s.second.dump(); if (d == last) continue; last = d; vfs::fs = s.second.clone(); reopened(disk(s.second), cr, s.first, moving); }
			vfs::fs = live; vfs::reset(); R.outcome(str(snaps.size()));
		});
		// ---- faults: all modes for single operations
		const bool pair = h.size() > 1;
		for (size_t mi = 0 ; mi < M.size() ; ++mi) {
			if (pair && mi >= basic) continue;
			if (pair && !T && mi != 0) continue;
			R.testL([&] { return M[mi].name + " " + lay + hn; }, [&] {
				std::vector <vfs::Call> plain; { Ctx c(cr); pre(c); drive(c, op); plain = vfs::log; }
				for (size_t at = 0 ; at < plain.size() ; ++at) {
					if (!M[mi].f(plain[at], at, at)) continue;
					Ctx c(cr); pre(c); const Disk before = disk(vfs::fs); bool thrown = false; S why; S what; std::set <S> lf, lg; { vfs::On o; lf = listed(c.F); lg = listed(c.G); vfs::calls = 0; vfs::log.clear(); }
					vfs::fault = [&](const vfs::Call& k, size_t n) { const int r = M[mi].f(k, n, at); if (r && what.empty()) what = k.name + " " + k.path; return r; };
					try { drive(c, op); } catch (vmime::exception& e) { thrown = true; why = describeVmime(e); }
					const size_t faults = vfs::faults; const bool dirsLeft = !vfs::dirs.empty(), fdsLeft = !vfs::fds.empty(); const bool contd = M[mi].name.find("from") != S::npos;
					vfs::reset(); const S when = M[mi].name + " at call " + str(at) + " (" + what + ")" + (thrown ? ", refused with " + why : S());
					Disk after = before; op.model(c, after); after = clean(after);
					CHECK(faults, "the operation is not repeatable"); {
						R.count("faults");
						const Disk now = disk(vfs::fs); between(c, before, after, now, when, false); CHECK(!fdsLeft && !dirsLeft, when + ": a file was left open");
						const S& nm = op.name; 
						if (!thrown && (nm.compare(0, 3, "add") == 0 || nm.compare(0, 4, "copy") == 0)) between(c, before, after, now, when + ", but reported as done", true);
						if (M[mi].name == "1 byte" || M[mi].name == "half" || M[mi].name == "EINTR") { CHECK(!thrown, when + ": not an error"); between(c, before, after, now, when, true); }
						// what is left is removed when that works
						if (!contd && what.compare(0, 6, "unlink") != 0 && what.compare(0, 4, "stat") != 0) for (auto& e : vfs::fs.m) CHECK(e.first.find("/tmp/") == S::npos || e.first.find("canary") != S::npos, when + ": left behind: " + e.first);
						{ vfs::On o;
						if (mi < basic && M[mi].name != "dead from") { const auto there = ids(c.dir("a")); for (auto& x : {std::make_pair(c.F, &lf), std::make_pair(c.G, &lg)}) if (x.first->isOpen()) { const auto l = listed(x.first); for (auto& i : *x.second) CHECK(!there.count(i) || l.count(i), when + ": " + i + " is not listed any more although it is there"); } }
						// the folder objects go on with what there is
						if (nm == "close(expunge)" || nm == "reopen") { if (!c.F->isOpen()) c.open(c.F, c.lf); }
						for (auto& x : {std::make_pair(c.F, &c.lf), std::make_pair(c.G, &c.lg)}) {
							CHECK(x.first->isOpen(), when + ": closed"); size_t n, u; x.first->status(n, u);
							Disk got, want; for (auto& s : look(x.first)) got[{c.dir("a"), s.data}].insert(s.flags); for (auto& e : disk(vfs::fs)) if (e.first.first == c.dir("a")) want.insert(e);
							CHECK(got == want, when + ": the folder lists" + show(got) + "\n on the disk:" + show(want));
							size_t wu = 0, wn = 0; for (auto& e : want) for (int f : e.second) { ++wn; wu += !(f & SEEN); } CHECK(n == wn && u == wu, when + ": status says " + str(n) + " messages, " + str(u) + " unseen; there are " + str(wn) + ", " + str(wu));
							CHECK(x.second->n == long(n), when + ": according to the events there are " + str(x.second->n) + " messages, there are " + str(n));
						}
						const S t = c.text(false); c.add(t, -1); auto d = disk(vfs::fs); CHECK(d[std::make_pair(c.dir("a"), t)].size() == 1, when + ": no message can be added any more"); CHECK(look(c.F).back().data == t && look(c.G).back().data == t, when + ": a message added later is not listed"); }
						reopened(disk(vfs::fs), cr, when, moving); R.outcome(what.substr(0, what.find(' ')) + (thrown ? " refused" : " done"));
					}
				}
			});
		}
	}
}
