// C41: messages handed to a sendmail program, over every behaviour of the program and of the system calls.
#include "procsim.hpp"
#include "mcv.hpp"
#include "mc_main.hpp"
#include <vmime/platforms/posix/posixChildProcess.hpp>
#include <vmime/utility/progressListener.hpp>
using namespace vmime;
typedef std::string S; using mc::str; using mc::esc;
static mc::Explorer E;
static S what(const std::exception& e) { S s = mc::describe(e); const vmime::exception* v = dynamic_cast <const vmime::exception*>(&e); while (v && v->other()) { v = v->other(); s += " <- " + mc::describe(*v); } return s; }
static S lf(const S& s) { S r; for (size_t i = 0 ; i < s.size() ; ++i) if (!(s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')) r += s[i]; return r; }

/** gives the message in pieces; fails at the n-th read */
struct Source : public utility::inputStream {
	S data; size_t at = 0, piece; int failAt, n = 0; bool failed = false;
	Source(const S& d, size_t p, int f) : data(d), piece(p), failAt(f) {}
	bool eof() const { return at == data.size() && failAt < 0; }
	void reset() { at = 0; }
	size_t skip(const size_t c) { const size_t k = std::min(c, data.size() - at); at += k; return k; }
	size_t read(byte_t* const b, const size_t c) { if (n++ == failAt) { failed = true; throw exceptions::system_error("source"); } const size_t k = std::min(std::min(c, piece), data.size() - at); memcpy(b, data.data() + at, k); at += k; return k; }
};
struct Progress : public utility::progressListener {
	int failAt, n = 0, starts = 0, stops = 0; bool failed = false;
	Progress(int f) : failAt(f) {}
	void tick() { if (n++ == failAt) { failed = true; throw std::runtime_error("progress"); } }
	void start(const size_t) { ++starts; tick(); }
	void progress(const size_t, const size_t) { tick(); }
	void stop(const size_t) { ++stops; }
};
struct Scenario { S data = "a\r\nb\r\n"; size_t piece = 100; int readFails = -1, progressFails = -1; S from = "me@x.org", sender; std::vector <S> to{"you@y.org"}; S path = "/usr/lib/sendmail"; px::Program prog; bool pipeIgnored = false, childIgnored = false; bool connected = true; };
static S show(const px::Program& p) { return (p.execs ? p.readMax < 0 ? S("reads all") : "reads " + str(p.readMax) : S("cannot be executed")) + ", " + (p.bySignal ? "signal " : "exit ") + str(p.end); }
static S list(const std::vector <S>& v) { S s; for (auto& x : v) s += "[" + esc(x) + "]"; return s; }
struct On { On() { px::on = true; } ~On() { px::on = false; } };

static shared_ptr <net::session> sess;
static std::vector <S> wanted(const Scenario& c) { std::vector <S> a{c.path.substr(c.path.rfind('/') + 1), "-i", "-f", c.sender.empty() ? c.from : c.sender, "--"}; a.insert(a.end(), c.to.begin(), c.to.end()); return a; }

/** what the child did before it became the program */
static void checkRecord(const px::Record& r, const S& path, const std::vector <S>& argv, const sigset_t& mask) {
	CHECK(r.executed, "the program is not executed"); CHECK(r.path == path, "executes " + r.path + " instead of " + path); CHECK(r.argv == argv, "executed with " + list(r.argv) + " instead of " + list(argv));
	CHECK(r.exitCode > 0, "the child does not end with a failure (" + str(r.exitCode) + ") if the program cannot be executed");
	CHECK(!r.allocations, "the child allocates memory between fork() and exec(), which may block for ever if another thread was allocating");
	for (int s = 1 ; s < 32 ; ++s) CHECK(sigismember(&r.mask, s) == sigismember(&mask, s), "the program starts with signal " + str(s) + (sigismember(&r.mask, s) ? " blocked" : " not blocked"));
}
static void checkClean(const sigset_t& before, const S& log) {
	CHECK(!px::bad, "a descriptor or process which does not exist was used" + log); CHECK(!px::killed, "the application was killed by SIGPIPE" + log);
	CHECK(px::mine.size() == 3, "descriptors left open" + log); for (auto& c : px::children) CHECK(c.reaped, "a process was left behind " + S(c.ended ? "(zombie)" : "(running)") + log);
	for (int s = 1 ; s < 32 ; ++s) CHECK(sigismember(&px::mask, s) == sigismember(&before, s), "signal " + str(s) + (sigismember(&px::mask, s) ? " left blocked" : " unblocked") + log);
}

static void sendOnce(mc::Run& R, const Scenario& c) {
	auto tr = sess->getTransport(utility::url("sendmail://localhost")); sess->getProperties()["transport.sendmail.binpath"] = c.path;
	auto scenario = [&] {
		px::pipeIgnored = c.pipeIgnored; px::childIgnored = c.childIgnored;
		Source src(c.data, c.piece, c.readFails); Progress pr(c.progressFails); mailboxList to; for (auto& t : c.to) to.appendMailbox(make_shared <mailbox>(emailAddress(t)));
		tr->send(mailbox(emailAddress(c.from)), to, src, c.data.size(), &pr, c.sender.empty() ? mailbox() : mailbox(emailAddress(c.sender)));
	};
	tr->connect();
	px::ex = &E; E.on = false; px::programs.assign(1, px::Program()); px::learn(1, [&] { Scenario k = c; scenario(); });
	px::programs.assign(1, c.prog); sigset_t before = px::mask; checkRecord(px::records[0], c.path, wanted(c), before);
	E.explore(R.thorough ? 3 : 2, [&] {
		px::reset(); px::pipeIgnored = c.pipeIgnored; px::childIgnored = c.childIgnored; before = px::mask; bool ok = false, own = false, user = false; S err; R.transition();
		Source src(c.data, c.piece, c.readFails); Progress pr(c.progressFails); mailboxList to; for (auto& t : c.to) to.appendMailbox(make_shared <mailbox>(emailAddress(t)));
		try { On on; tr->send(mailbox(emailAddress(c.from)), to, src, c.data.size(), &pr, c.sender.empty() ? mailbox() : mailbox(emailAddress(c.sender))); ok = true; }
		catch (exceptions::command_error& e) { own = true; err = what(e); } catch (std::runtime_error& e) { err = e.what(); user = err == "progress"; CHECK(user, err); }
		E.on = false; const S log = " [" + show(c.prog) + "] [" + E.tail() + "] " + err; R.outcome(ok ? "ok" : err);
		CHECK(px::children.size() <= 1, "the program was run twice" + log); const px::Child* k = px::children.empty() ? NULL : &px::children[0]; const bool aborted = src.failed || pr.failed;
		checkClean(before, log);
		if (k) { const px::FD* in = k->fds.count(0) ? &k->fds.at(0) : NULL; (void) in; }
		if (ok) {
			CHECK(k && k->path == c.path && k->argv == wanted(c), "not executed as it must" + log); CHECK(k->status == 0 && k->prog.execs && !k->killed, "reported as sent although the program failed" + log); CHECK(!aborted, "an exception was swallowed" + log); CHECK(!c.childIgnored, "success without knowing how the program ended" + log);
			const S w = lf(c.data); if (c.prog.readMax < 0) CHECK(k->got == w && k->sawEof, "the program received '" + esc(k->got) + "' instead of '" + esc(w) + "'" + log);
			CHECK(w.compare(0, k->got.size(), k->got) == 0, "the program received '" + esc(k->got) + "'" + log); CHECK(pr.starts == 1 && pr.stops == 1, "progress" + log);
		} else {
			if (k && aborted) CHECK(!(k->sawEof && !k->killed) , "the program took an incomplete message for a complete one: '" + esc(k->got) + "'" + log);
			if (k && aborted && k->sawEof) CHECK(false, "the program saw the end of an incomplete message" + log);
			CHECK(aborted || !px::fault.empty() || c.childIgnored || (k && (!k->prog.execs || k->status != 0 || k->got.size() < lf(c.data).size())), "failed without reason" + log);
			CHECK(own || pr.failed, "error of another kind" + log);
		}
		px::reset();
	});
	tr->disconnect();
	{ px::reset(); px::ex = &E; E.on = false; bool refused = false; Source src("x", 9, -1); mailboxList to; to.appendMailbox(make_shared <mailbox>("a@b")); px::records.assign(1, px::Record()); try { On on; tr->send(mailbox("a@b"), to, src, 1); } catch (exceptions::not_connected&) { refused = true; } catch (vmime::exception&) {} CHECK(refused && px::children.empty(), "sent although not connected"); px::reset(); }
}

/** the process object by itself: flags, several at once, destroyed at any point */
enum { START, WRITE, READ, WAIT, DROP, OPS };
static void processes(mc::Run& R, const std::vector <int>& ops, int flags, const px::Program& prog) {
	const size_t N = 2; px::programs.assign(N, prog); px::ex = &E; E.on = false; px::pipeIgnored = px::childIgnored = false; auto fsf = platform::getHandler()->getFileSystemFactory();
	struct One { shared_ptr <utility::childProcess> p; S in, got; bool started = false, waited = false, failed = false, eof = false; };
	std::vector <One> v; S log;
	// the children started, in this order
	size_t starts = 0; { std::vector <bool> has(N, false); for (int o : ops) { if (o % OPS == START && !has[o / OPS]) { has[o / OPS] = true; ++starts; } if (o % OPS == DROP) has[o / OPS] = false; } }
	auto run = [&](bool real) {
		new std::vector <One>(std::move(v));   // what a child left by longjmp() is not destroyed
		v.assign(N, One()); size_t nextStart = 0;
		for (int o : ops) {
			if (!px::fault.empty() && starts > 1) break;   // the others are not the children recorded
			const size_t i = o / OPS; One& x = v[i];
			try {
				switch (o % OPS) {
					case START: if (x.p) break; x.p = make_shared <platforms::posix::posixChildProcess>(fsf->stringToPath("/bin/prog")); x.p->start(std::vector <S>(1, "arg"), flags); x.started = true; ++nextStart; break;
					case WRITE: if (x.started && !x.waited && !x.failed && (flags & 1)) { const S d = "dat" + str(x.in.size()); if (prog.readMax == 0 && (flags & 2) && x.in.size() + d.size() > px::capacity) break; x.p->getStdIn()->write(d.data(), d.size()); x.in += d; } break;
					case READ: if (x.started && !x.waited && (flags & 2) && prog.readMax == 0) { auto s = x.p->getStdOut(); while (!s->eof()) { byte_t b[4]; const size_t k = s->read(b, 4); x.got.append((char*) b, k); } x.eof = true; } break;
					case WAIT: if (x.started && !x.waited && (!(flags & 2) || prog.output.empty() || x.eof)) { x.waited = true; x.p->waitForFinish(); } break;
					case DROP: x = One(); break;
				}
			} catch (exceptions::system_error& e) { x.failed = true; if (real) log += what(e) + "; "; }
		}
		for (auto& x : v) x.p = null;
	};
	if (!starts) return; px::programs.assign(starts, prog);
	px::learn(starts, [&] { run(false); });
	E.explore(1, [&] {
		px::reset(); log.clear(); const sigset_t before = px::mask; R.transition(ops.size());
		{ On on; run(true); } E.on = false; const S l = " [" + E.tail() + "] " + log;
		CHECK(!px::bad, "a descriptor or process which does not exist was used" + l); CHECK(!px::killed, "killed by SIGPIPE" + l); CHECK(px::mine.size() == 3, "descriptors left open" + l);
		for (int s = 1 ; s < 32 ; ++s) CHECK(sigismember(&px::mask, s) == sigismember(&before, s), "signal " + str(s) + " left " + (sigismember(&px::mask, s) ? "blocked" : "unblocked") + l);
		for (auto& r : px::records) CHECK(r.executed && r.argv == (std::vector <S>{"prog", "arg"}), "execution");
		for (auto& c : px::children) {
			const bool in = flags & 1; px::Table t = c.fds; (void) t;
			if (in && prog.execs && prog.readMax < 0 && c.reaped && !c.killed) CHECK(c.sawEof, "end of input not seen" + l);
		}
		if (px::children.size() == starts && px::fault.empty()) { size_t k = 0; for (size_t i = 0 ; i < N ; ++i) { One& x = v[i]; (void) k; if (x.waited && !x.failed && starts == 1) { const px::Child& c = px::children[0]; CHECK(c.status == 0 && c.reaped, "finished normally although it did not" + l); if ((flags & 1) && prog.readMax < 0) CHECK(c.got == x.in, "the process read '" + c.got + "' instead of '" + x.in + "'" + l); if (x.eof) CHECK(x.got == prog.output, "read '" + x.got + "' instead of '" + prog.output + "'" + l); } } }
		px::reset();
	});
}

void mc_main(mc::Run& R) {
	initPlatform(); sess = net::session::create();
	R.property = "C41"; R.level = "model_checking";
	R.rule = "A model of processes, pipes and signals below the system calls: all messages over an alphabet of line ends, all programs (how much they read, how they end, not executable), all ways the source or the progress listener fails, all recipients, and in each every placement of up to two (thorough: three) unusual answers of any system call (interruption, partial write, scheduling of the program before a write, failure of pipe or fork); all short histories of two process objects.";
	R.assumptions = {"the child between fork() and exec() does the same whatever the earlier answers were", "what a process prints is read before waiting for its end", "the pipe holds 7 bytes (the real one 64 KB): only which writes are cut depends on it"};
	const bool T = R.thorough;
	std::vector <px::Program> P; auto prog = [&](int rd, int e, bool sg) { px::Program p; p.readMax = rd; p.end = e; p.bySignal = sg; P.push_back(p); };
	prog(-1, 0, false); for (int e : {1, 75, 127, 255}) prog(-1, e, false); prog(-1, SIGKILL, true); prog(-1, SIGTERM, true); for (int k : {0, 1, 3, 6, 12}) { prog(k, 0, false); prog(k, 1, false); prog(k, SIGSEGV, true); }
	{ px::Program p; p.execs = false; P.push_back(p); }
	const S longer = "line one\r\nline two\r\n.\r\nline three\r\n";
	for (auto& p : P) for (int dispo = 0 ; dispo < 3 ; ++dispo) for (const S& d : {S(), S("a\r\n"), longer}) for (size_t piece : {100, 5})
		R.test("program|" + show(p) + "|" + str(dispo) + "|" + str(d.size()) + "|" + str(piece), [&] { Scenario c; c.prog = p; c.pipeIgnored = dispo == 1; c.childIgnored = dispo == 2; c.data = d; c.piece = piece; sendOnce(R, c); R.state("p" + show(p) + str(dispo)); });
	for (int e = 1 ; e < 256 ; ++e) for (int kind = 0 ; kind < 3 ; ++kind) { px::Program p; p.bySignal = kind > 0; p.end = kind ? e | (kind == 2 ? 0x80 : 0) : e; if (kind && e > 31) continue; R.test("end|" + show(p), [&] { Scenario c; c.prog = p; sendOnce(R, c); R.state("e" + show(p)); }); }   // every way a process can end
	mc::strings(mc::chars("a\r\n."), 0, T ? 6 : 4, [&](const S& d) { R.testL([&] { return "data|" + esc(d); }, [&] { for (size_t piece : {100, 2, 1}) { Scenario c; c.data = d; c.piece = piece; sendOnce(R, c); R.state("d" + d + str(piece)); } }); });
	for (int f = 0 ; f < 6 ; ++f) for (int who = 0 ; who < 2 ; ++who) for (size_t k = 0 ; k < P.size() ; ++k) R.test("aborted|" + str(who) + "|" + str(f) + "|" + show(P[k]), [&] { Scenario c; c.data = longer; c.piece = 9; c.prog = P[k]; (who ? c.progressFails : c.readFails) = f; sendOnce(R, c); R.state("a" + str(f) + str(who) + show(P[k])); });
	const std::vector <S> A = {"you@y.org", "-x@y.org", "a.very.long.address.which.would.not.fit.into.one.line.of.a.header.field.because.it.is.longer@a.very.long.host.name.example.org", "a+b/c=d@y.org", "root@localhost", "-f@-f"};
	for (auto& a : A) for (auto& b : A) for (auto& s : A) R.test("args|" + a + "|" + b + "|" + s, [&] { Scenario c; c.from = a; c.sender = s == A[0] ? S() : s; c.to = {b, s, a, b}; c.to.resize(1 + (a.size() + b.size()) % 4); c.path = "/opt/my mail/sendmail.x"; sendOnce(R, c); R.state("g" + a + b + s); });
	// the process object
	for (int flags = 0 ; flags < 4 ; ++flags) for (int pk = 0 ; pk < 4 ; ++pk) {
		px::Program p; if (pk == 1) { p.readMax = 0; p.output = "0123456789abcdef"; } if (pk == 2) { p.readMax = 0; p.end = 3; } if (pk == 3) p.execs = false;
		if (pk == 0 && !(flags & 1)) p.readMax = 0;
		mc::tuples(2 * OPS, T ? 5 : 4, [&](const std::vector <size_t>& ix) {
			std::vector <int> ops{START}; ops.insert(ops.end(), ix.begin(), ix.end()); bool use = false; for (size_t i : ix) use = use || i == WAIT; if (!use) return;
			R.testL([&] { S l = "process|" + str(flags) + "|" + str(pk); for (size_t i : ix) l += "|" + str(i); return l; }, [&] { processes(R, ops, flags, p); S z; for (int o : ops) z += str(o) + ","; R.state(str(flags) + str(pk) + z); });
		});
	}
}
