// C39: several programs can use a maildir at once.
#include "maildirops.hpp"
#include "mc_main.hpp"

/** the other program: another instance of the library with the folder open, or something else */
struct Other { Box box; NFolder H; Other() { box.connect(); vfs::On o; H = box.folder(P("a")); H->open(net::folder::MODE_READ_WRITE); } ~Other() { vfs::On o; H.reset(); box.drop(); } };
struct Effect {
	std::set <S> mayGo, gone; std::map <std::pair <S, S>, int> more; std::map <std::pair <S, S>, int> less;  // texts that may be removed, are; copies that are made, if it works
	std::function <int(const S& text, int)> flags;                     // what becomes of the flags of a message
};
struct Act { S name; std::function <void(Ctx&, Other&)> run; std::function <void(Ctx&, Effect&)> model; };

static S where(const S& dir, const S& id) { for (const char* s : {"/cur", "/new"}) for (auto& n : vfs::list(dir + s)) if (fileId(n) == id) return dir + s + "/" + n; return ""; }
static std::vector <std::pair <S, int> > HO;   // what H lists
static std::vector <Act> others() {
	std::vector <Act> v;
	v.push_back({"deliver", [](Ctx& c, Other&) { ++c.made; const S t = c.next(false); c.texts.insert(t); vfs::put(c.dir("a") + "/tmp/902.1.h", t); vfs::doRename(c.dir("a") + "/tmp/902.1.h", c.dir("a") + "/new/902.1.h"); }, [](Ctx& c, Effect& e) { e.more[{c.dir("a"), c.next(false)}] += 1; }});
	v.push_back({"flag m1", [](Ctx& c, Other&) { const S p = where(c.dir("a"), "900.1." + host); if (!p.empty()) vfs::doRename(p, c.dir("a") + "/cur/900.1." + host + ":2,F" + (fileFlags(p) & SEEN ? "S" : "") + (fileFlags(p) & DEL ? "T" : "")); }, [](Ctx&, Effect& e) { e.flags = [](const S& t, int f) { return t == small("m1") ? MARK | (f & (SEEN | DEL)) : f; }; }});
	v.push_back({"remove m2", [](Ctx& c, Other&) { const S p = where(c.dir("a"), "900.2." + host); if (!p.empty()) vfs::doUnlink(p, false); }, [](Ctx&, Effect& e) { e.gone.insert(small("m2")); }});
	v.push_back({"see", [](Ctx& c, Other&) { for (auto& n : vfs::list(c.dir("a") + "/new")) vfs::doRename(c.dir("a") + "/new/" + n, c.dir("a") + "/cur/" + n + ":2,S"); }, [](Ctx&, Effect& e) { e.flags = [](const S& t, int f) { return t == small("q1") || t == small("p1") ? f | SEEN : f; }; }});
	v.push_back({"H.add", [](Ctx& c, Other& o) { const S t = c.text(false); utility::inputStreamStringAdapter is(t); o.H->addMessage(is, t.size(), SEEN); }, [](Ctx& c, Effect& e) { e.more[{c.dir("a"), c.next(false)}] += 1; }});
	v.push_back({"H.set(1:*,+MARKED)", [](Ctx&, Other& o) { o.H->setMessageFlags(messageSet::byNumber(1, size_t(-1)), MARK, ADD); }, [](Ctx&, Effect& e) { e.flags = [](const S&, int f) { return f | MARK; }; }});
	v.push_back({"H.expunge", [](Ctx&, Other& o) { o.H->deleteMessages(messageSet::byNumber(1)); o.H->expunge(); }, [](Ctx& c, Effect& e) { e.mayGo.insert(HO[0].first); for (auto& x : HO) if (x.second & DEL) e.mayGo.insert(x.first); const S one = HO[0].first; e.flags = [one](const S& t, int f) { return t == one ? f | DEL : f; }; }});
	v.push_back({"H.status", [](Ctx&, Other& o) { size_t n, u; o.H->status(n, u); }, [](Ctx&, Effect&) {}});
	v.push_back({"H.reopen", [](Ctx&, Other& o) { o.H->close(false); o.H->open(net::folder::MODE_READ_WRITE); }, [](Ctx&, Effect&) {}});
	v.push_back({"H.copy(1,b)", [](Ctx&, Other& o) { o.H->copyMessages(P("b"), messageSet::byNumber(1)); }, [](Ctx& c, Effect& e) { e.more[{c.dir("b"), HO[0].first}] += 1; }});
	v.push_back({"H.copy(1:*,a)", [](Ctx&, Other& o) { o.H->copyMessages(P("a"), messageSet::byNumber(1, size_t(-1))); }, [](Ctx& c, Effect& e) { for (auto& x : HO) e.more[{c.dir("a"), x.first}] += 1; }});
	return v;
}
static std::vector <Act> mine() {
	std::vector <Act> v;
	auto add = [&](const S& n, bool b, int fl) { v.push_back({n, [=](Ctx& c, Other&) { const S t = c.text(b); c.add(t, fl); }, [=](Ctx& c, Effect& e) { e.more[{c.dir("a"), c.next(b)}] += 1; }}); };
	add("add big", true, SEEN); add("add RECENT", false, RECENT);
	auto copy = [&](const S& n, size_t first, size_t last, const S& to) { v.push_back({n, [=](Ctx& c, Other&) { c.F->copyMessages(P(to), messageSet::byNumber(first, last)); }, [=](Ctx& c, Effect& e) { for (size_t i = first ; i <= last && i <= c.order.size() ; ++i) e.more[{c.dir(to), c.order[i - 1].first}] += 1; }}); };
	copy("copy(1:*,b)", 1, size_t(-1), "b"); copy("copy(2,a)", 2, 2, "a");
	auto set = [&](const S& n, size_t first, size_t last, int fl, int mode) { v.push_back({n, [=](Ctx& c, Other&) { c.F->setMessageFlags(messageSet::byNumber(first, last), fl, mode); }, [=](Ctx& c, Effect& e) { std::set <S> t; for (size_t i = first ; i <= last && i <= c.order.size() ; ++i) t.insert(c.order[i - 1].first); e.flags = [=](const S& x, int o) { return !t.count(x) ? o : mode == ADD ? o | fl : mode == REM ? o & ~fl : fl; }; }}); };
	set("set(1:*,+SEEN)", 1, size_t(-1), SEEN, ADD); set("set(1:*,-SEEN)", 1, size_t(-1), SEEN, REM); set("delete(1:*)", 1, size_t(-1), DEL, ADD); set("set(1:2,=DRAFT)", 1, 2, DRAFT, SET);
	auto exp = [](Ctx& c, Effect& e) { for (auto& x : c.order) if (x.second & DEL) e.mayGo.insert(x.first); };
	v.push_back({"expunge", [](Ctx& c, Other&) { c.F->expunge(); }, exp}); v.push_back({"close(expunge)", [](Ctx& c, Other&) { c.F->close(true); }, exp});
	v.push_back({"reopen", [](Ctx& c, Other&) { c.F->close(false); c.open(c.F, c.lf); }, [](Ctx&, Effect&) {}});
	v.push_back({"status", [](Ctx& c, Other&) { size_t n, u; c.G->status(n, u); }, [](Ctx&, Effect&) {}});
	v.push_back({"read", [](Ctx& c, Other&) {
		auto ms = c.F->getMessages(messageSet::byNumber(1, size_t(-1)));
		for (size_t i = 0 ; i < ms.size() ; ++i) {
			S t; int fl = 0; try { c.F->fetchMessage(ms[i], fetchAttributes(fetchAttributes::FLAGS | fetchAttributes::FULL_HEADER | fetchAttributes::UID)); t = bytes(ms[i]); } catch (vmime::exception&) { continue; }
			CHECK(t == c.order[i].first, "message " + str(i + 1) + " has become " + brief(t)); (void) fl;
			const S subj = ms[i]->getHeader()->Subject()->getValue <text>()->getWholeBuffer(); CHECK(t.compare(9, subj.size() + 2, subj + "\r\n") == 0, "message " + str(i + 1) + " has the header of another one");
		}
	}, [](Ctx&, Effect&) {}});
	v.push_back({"set held", [](Ctx& c, Other&) { auto m = c.F->getMessage(1); c.F->fetchMessage(m, fetchAttributes(fetchAttributes::FLAGS)); m->setFlags(REPL, ADD); }, [](Ctx& c, Effect& e) { const S one = c.order[0].first; e.flags = [one](const S& t, int f) { return t == one ? f | REPL : f; }; }});
	return v;
}

void mc_main(mc::Run& R) {
	init();
	R.property = "C39"; R.level = "model_checking";
	R.rule = "Every operation of one program (with two folder objects) interrupted before each of its file system calls by each action of another one - another instance of the library, a delivery agent or another mail reader - on a store in memory below the POSIX calls; what is on the disk then, what the program lists, and what it finds when the folder is opened again.";
	R.assumptions = {"the list of a directory is read at once", "the action of the other program is not interrupted itself", "a message moved by the other program while a folder is scanned may be listed only after the next update", "calls on open files and directories commute with what the other program does to names: it acts before each call that concerns a name"};
	const bool T = R.thorough; const auto A = mine(), B = others(); std::set <size_t> states;
	for (bool cr : {false, true}) for (auto& a : A) for (auto& b : B) for (int prep = 0 ; prep < (T ? 3 : 2) ; ++prep) {
		if (cr && !T && prep) continue;
		R.testL([&] { return S(cr ? "courier " : "kmail ") + (prep == 0 ? "" : prep == 1 ? "after delete(1), " : "after deliveries, ") + a.name + " / " + b.name; }, [&] {
			S last; size_t points = size_t(-1);
			for (size_t at = 0 ; at <= points ; ++at) {
				Ctx c(cr); Other o;
				if (prep) { vfs::On on; if (prep == 1) { size_t n, u; c.F->setMessageFlags(messageSet::byNumber(1), DEL, ADD); o.H->status(n, u); } else { vfs::put(c.dir("a") + "/new/903.1.h", small("p1")); vfs::put(c.dir("a") + "/cur/903.2.h:2,R", small("p2")); c.texts.insert(small("p1")); c.texts.insert(small("p2")); } c.see(); }
				if (a.name == "status" || a.name == "reopen") { vfs::put(c.dir("a") + "/new/904.1.h", small("q1")); vfs::put(c.dir("a") + "/cur/904.2.h:2,R", small("q2")); c.texts.insert(small("q1")); c.texts.insert(small("q2")); }
				Disk d = disk(vfs::fs); Effect ea, eb; bool inside = false, done = false, ra = true, rb = true; size_t n = 0; S when = "at the end"; { vfs::On on; HO.clear(); for (auto& x : look(o.H)) HO.push_back({x.data, x.flags}); } vfs::reset();
				auto other = [&] { inside = done = true; const size_t fdsBefore = vfs::fds.size(); try { vfs::On on; b.run(c, o); } catch (vmime::exception& x) { rb = false; } CHECK(vfs::fds.size() == fdsBefore, "a file was left open"); b.model(c, eb); inside = false; };
				vfs::each = [&](const vfs::Call& k) { if (inside || k.path.empty() || k.name == "read" || k.name == "write" || k.name == "close" || k.name == "fsync" || k.name == "lseek") return; if (n++ == at) { when = "before " + k.name + " " + k.path; other(); } };
				S err; { vfs::On on; try { a.run(c, o); } catch (vmime::exception& x) { ra = false; } catch (std::exception& x) { err = x.what(); } }
				CHECK(err.empty(), when + ": " + err); vfs::each = nullptr; if (!done) { points = at; other(); } 
				a.model(c, ea);
				const bool newA = a.name.compare(0, 3, "add") == 0, newB = b.name == "deliver" || b.name == "H.add";
				// messages that did not exist before are counted below
				auto news = [&](Effect& x) { for (auto it = x.more.begin() ; it != x.more.end() ; ) if (it->first.second.compare(0, 10, "Subject: n") == 0 && std::find_if(c.order.begin(), c.order.end(), [&](const std::pair <S, int>& y) { return y.first == it->first.second; }) == c.order.end()) it = x.more.erase(it); else ++it; };
				news(ea); news(eb);
				CHECK(vfs::fds.empty() && vfs::dirs.empty(), when + ": a file was left open");
				Disk now = disk(vfs::fs); states.insert(std::hash <S>()(show(now))); R.transition(); R.outcome(a.name + (ra ? " done" : " refused") + "/" + b.name + (rb ? " done" : " refused"));
				size_t fresh = 0;
				for (auto& x : now) {
					CHECK(c.texts.count(x.first.second), when + ": an incomplete or damaged message is there: " + x.first.first + ": " + brief(x.first.second));
					if (!d.count(x.first) && !ea.more.count(x.first) && !eb.more.count(x.first)) { CHECK(x.first.first == c.dir("a") && x.second.size() == 1 && (newA || newB), when + ": a message appeared: " + brief(x.first.second)); ++fresh; }
				}
				CHECK(fresh >= size_t((newA && ra) + (newB && rb)) && fresh <= size_t(newA + newB), when + ": a message added is not there");
				std::set <std::pair <S, S> > keys; for (auto& x : d) keys.insert(x.first); for (auto& x : ea.more) keys.insert(x.first); for (auto& x : eb.more) keys.insert(x.first);
				for (auto& k : keys) {
					const long start = d.count(k) ? d[k].size() : 0, hi = start + (ea.more.count(k) ? ea.more[k] : 0) + (eb.more.count(k) ? eb.more[k] : 0);
					long lo = start + (ra && ea.more.count(k) ? ea.more[k] : 0) + (rb && eb.more.count(k) ? eb.more[k] : 0), top = hi; const bool here = k.first == c.dir("a");
					if (here && (eb.gone.count(k.second) || ea.gone.count(k.second))) { --lo; --top; } if (here && (ea.mayGo.count(k.second) || eb.mayGo.count(k.second))) --lo;
					const long got = now.count(k) ? now[k].size() : 0;
					CHECK(got >= lo, when + ": a message is lost from " + k.first + ": " + brief(k.second) + (ra ? "" : ", refused")); CHECK(got <= top, when + ": a message is there twice in " + k.first + ": " + brief(k.second));
					if (now.count(k)) for (int f : now[k]) {
						std::set <int> may; auto fa = [&](int x) { return ea.flags && here ? ea.flags(k.second, x) : x; }; auto fb = [&](int x) { return eb.flags && here ? eb.flags(k.second, x) : x; };
						std::set <int> from; if (d.count(k)) from.insert(d[k].begin(), d[k].end()); else for (auto& y : d) if (y.first.second == k.second) for (int x : y.second) from.insert(x);
						std::set <int> all = from; if (!d.count(k)) for (int x : from) { auto ga = [&](int z) { return ea.flags ? ea.flags(k.second, z) : z; }; auto gb = [&](int z) { return eb.flags ? eb.flags(k.second, z) : z; }; all.insert({ga(x), gb(x), ga(gb(x)), gb(ga(x))}); }
						const bool raw = b.name.compare(0, 2, "H.") != 0, moved = here && start;
						for (int x : from) { if (!(raw && moved)) may.insert({x, fa(x)}); may.insert({fb(x), fa(fb(x)), fb(fa(x))}); if (b.name == "see" || hi > start) may.insert({x, fa(x)}); }
						may.insert(all.begin(), all.end()); if (raw && moved && b.name == "flag m1" && hi == start) { may.clear(); for (int x : from) may.insert({fb(x), fa(fb(x)), fb(fa(x))}); }
						CHECK(may.count(f), when + ": flags " + flagStr(f) + " of " + brief(k.second));
					}
				}
				// what the programs list once they have updated
				{ vfs::On on;
				if (!c.F->isOpen()) c.open(c.F, c.lf);
				auto lists = [&](NFolder f, const S& who, Ctx::L* l) {
					CHECK(f->isOpen(), when + ": closed"); size_t cnt, un; f->status(cnt, un); CHECK(f->getMessageCount() == cnt, when + ": " + who + " counts"); if (l) CHECK(l->n == long(cnt), when + ": according to the events there are " + str(l->n) + " messages, " + who + " has " + str(cnt));
					Disk got, want; for (auto& x : disk(vfs::fs)) if (x.first.first == c.dir("a")) want.insert(x);
					auto ms = f->getMessages(messageSet::byNumber(1, size_t(-1)));
					for (size_t i = 0 ; i < ms.size() ; ++i) try {
						f->fetchMessage(ms[i], fetchAttributes(fetchAttributes::FLAGS | fetchAttributes::UID | fetchAttributes::SIZE)); const S t = bytes(ms[i]);
						const S p = where(c.dir("a"), S(ms[i]->getUID())); CHECK(!p.empty() && vfs::fs.m[p]->data == t, when + ": " + who + " reads another message under the number of " + p); CHECK(ms[i]->getSize() == t.size(), when + ": size"); got[{c.dir("a"), t}].insert(ms[i]->getFlags());
					} catch (vmime::exception&) {}
					CHECK(got == want, when + ": " + who + " lists" + show(got) + "\n on the disk:" + show(want));
				};
				lists(c.F, "F", &c.lf); lists(c.G, "G", &c.lg); lists(o.H, "H", NULL);
				// the messages that are gone leave when they are expunged: exactly the others stay
				c.F->close(false); c.F->open(net::folder::MODE_READ_ONLY); Disk got, want; for (auto& s : look(c.F)) got[{c.dir("a"), s.data}].insert(s.flags); for (auto& x : disk(vfs::fs)) if (x.first.first == c.dir("a")) want.insert(x);
				CHECK(got == want, when + ": opened again, the folder lists" + show(got) + "\n on the disk:" + show(want)); }
				vfs::reset();
			}
			for (size_t s : states) R.state(str(s)); R.trace();
		});
	}
}
