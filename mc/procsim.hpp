// A model of processes, pipes and signals below the system calls: while px::on is set, pipe(), fork(), exec(),
// dup2(), read(), write(), waitpid(), kill() and the signal mask of the process work on simulated
// children. fork() "returns twice" by running the scenario twice: once as the child (until it executes a program),
// which records what the child does, and then as the parent. Include it in exactly one translation unit.
#pragma once
#include "explore.hpp"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace px {
typedef std::string S;
enum { BASE = 1 << 23, TTY = -1 };
struct FD { int pipe = TTY; bool write = false, cloexec = false; };
typedef std::map <int, FD> Table;
struct Program { int readMax = -1; int end = 0; bool bySignal = false; S output; bool execs = true; };   // reads so much (-1: all), writes output, ends
struct Child { int pid; Table fds; Program prog; S path; std::vector <S> argv; S got; bool sawEof = false, ended = false, reaped = false, killed = false, wrote = false; int status = 0; size_t outAt = 0; sigset_t mask; };
/** what the n-th child does between fork() and exec() */
struct Record { bool known = false; std::vector <std::function <void(Table&)> > ops; S path; std::vector <S> argv; sigset_t mask; int exitCode = -1; size_t allocations = 0; bool executed = false; };

inline bool on = false; inline mc::Explorer* ex = NULL;
inline std::vector <S> pipes; inline size_t capacity = 7;
inline Table mine; inline std::vector <Child> children; inline std::vector <Program> programs; inline std::vector <Record> records;
inline size_t forks = 0, bad = 0; inline int childPass = -1; inline bool execFails = false, inChild = false; inline jmp_buf out;
inline sigset_t mask, pend; inline bool pipeIgnored = false, childIgnored = false, killed = false; inline bool forkFault = false; inline size_t calls = 0; inline S fault;
inline void note(const S& s) { if (!inChild) ex->log.push_back(s); if (++calls > 3000) throw std::runtime_error("does not end: " + ex->tail()); }
inline S str(long n) { return std::to_string(n); }
inline bool sim(int fd) { return fd >= BASE || (inChild && fd >= 0 && fd < 3); }
template <class T> T real(const char* n) { static std::map <S, void*> c; void*& p = c[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (T) p; }
inline Table& table() { return mine; }
inline FD* get(int fd) { auto i = mine.find(fd); if (i == mine.end()) { ++bad; ex->log.push_back("bad descriptor " + str(fd)); errno = EBADF; return NULL; } return &i->second; }
inline bool anyone(int pipe, bool write) { for (auto& f : mine) if (f.second.pipe == pipe && f.second.write == write) return true; for (auto& c : children) if (!c.ended) for (auto& f : c.fds) if (f.second.pipe == pipe && f.second.write == write) return true; return false; }
inline void end(Child& c, int status) { c.ended = true; c.status = status; c.fds.clear(); if (childIgnored) c.reaped = true; }
/** lets a child go on as far as it can; true: it did something */
inline bool step(Child& c) {
	if (c.ended) return false;
	if (!c.prog.execs) { end(c, records[&c - &children[0]].exitCode << 8); return true; }
	if (!c.sawEof && (c.prog.readMax < 0 || c.got.size() < size_t(c.prog.readMax))) {
		auto f = c.fds.find(0); const int p = f == c.fds.end() ? TTY : f->second.pipe;
		if (p == TTY) { c.sawEof = true; return true; }
		if (!pipes[p].empty()) { size_t n = pipes[p].size(); if (c.prog.readMax >= 0) n = std::min(n, size_t(c.prog.readMax) - c.got.size()); c.got += pipes[p].substr(0, n); pipes[p].erase(0, n); return true; }
		if (!anyone(p, true)) { c.sawEof = true; return true; }
		return false;
	}
	if (c.outAt < c.prog.output.size()) {
		auto f = c.fds.find(1); const int p = f == c.fds.end() ? TTY : f->second.pipe;
		if (p == TTY) { c.outAt = c.prog.output.size(); return true; }
		if (!anyone(p, false)) { end(c, SIGPIPE); return true; }
		const size_t room = capacity - pipes[p].size(); if (!room) return false;
		const size_t n = std::min(room, c.prog.output.size() - c.outAt); pipes[p] += c.prog.output.substr(c.outAt, n); c.outAt += n; return true;
	}
	end(c, c.prog.bySignal ? c.prog.end : c.prog.end << 8); return true;
}
inline void runChildren() { for (bool again = true ; again ; ) { again = false; for (auto& c : children) while (step(c)) again = true; } }
inline void raisePipe() { if (sigismember(&mask, SIGPIPE)) sigaddset(&pend, SIGPIPE); else if (!pipeIgnored) { killed = true; ex->log.push_back("killed by SIGPIPE"); } }
inline void unpend() { if (sigismember(&pend, SIGPIPE) && !sigismember(&mask, SIGPIPE)) { sigdelset(&pend, SIGPIPE); if (!pipeIgnored) { killed = true; ex->log.push_back("killed by a pending SIGPIPE"); } } }
inline void setMask(int how, const sigset_t* s, sigset_t* old) {
	if (old) *old = mask; if (!s) return;
	for (int i = 1 ; i < 32 ; ++i) { const bool in = sigismember(s, i) == 1; if (how == SIG_BLOCK ? in : how == SIG_UNBLOCK ? in : true) { if (how == SIG_BLOCK || (how == SIG_SETMASK && in)) sigaddset(&mask, i); else sigdelset(&mask, i); } }
	if (inChild) records[childPass].mask = mask; else unpend();
}
inline int newFd() { int f = BASE; while (mine.count(f)) ++f; return f; }
inline bool internal = false;
template <class F> inline void op(F f) { internal = true; if (inChild) records[childPass].ops.push_back(f); f(mine); internal = false; }
inline void reset() { pipes.clear(); mine.clear(); children.clear(); forks = bad = calls = 0; inChild = false; forkFault = false; fault.clear(); killed = false; sigemptyset(&mask); sigaddset(&mask, SIGUSR2); sigemptyset(&pend); for (int i = 0 ; i < 3 ; ++i) mine[i] = FD(); }
inline void mallocHook(const volatile void*, size_t) { if (inChild && !internal) ++records[childPass].allocations; }
inline void freeHook(const volatile void*) { }
/** runs f once as each of the first n children, to learn what they do */
template <class F> void learn(size_t n, F f) {
	static bool hooked = false; if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook); }
	records.assign(n, Record());
	for (size_t i = 0 ; i < n ; ++i) for (int fails = 1 ; fails >= 0 ; --fails) {
		reset(); childPass = int(i); execFails = fails; Record old = records[i]; records[i] = Record();
		if (!setjmp(out)) { on = true; f(); }
		on = false; inChild = false; if (!fails) { records[i].exitCode = old.exitCode; records[i].allocations = std::max(records[i].allocations, old.allocations); } childPass = -1;
	}
	reset();
}
}
#define PX_REAL(T, name, args) return px::real <T>(name) args
extern "C" {
static int px_pipe(int* fd, bool cx) {
	px::note("pipe"); if (px::ex->choose(2)) { px::fault = "pipe"; errno = EMFILE; return -1; }
	const int p = int(px::pipes.size()); px::pipes.push_back(""); for (int i = 0 ; i < 2 ; ++i) { fd[i] = px::newFd(); px::FD f; f.pipe = p; f.write = i; f.cloexec = cx; px::mine[fd[i]] = f; } return 0;
}
int pipe(int* fd) noexcept { if (!px::on) PX_REAL(int(*)(int*), "pipe", (fd)); return px_pipe(fd, false); }
int pipe2(int* fd, int flags) noexcept { if (!px::on) PX_REAL(int(*)(int*, int), "pipe2", (fd, flags)); return px_pipe(fd, flags & O_CLOEXEC); }
pid_t fork() noexcept {
	if (!px::on) PX_REAL(pid_t(*)(), "fork", ());
	const size_t n = px::forks++;
	if (px::childPass == int(n)) { px::inChild = true; px::records[n].mask = px::mask; return 0; }
	px::note("fork"); if (px::ex->choose(2)) { px::fault = "fork"; errno = EAGAIN; return -1; }
	px::Child c; c.pid = 5000 + int(n); c.fds = px::mine; c.prog = n < px::programs.size() ? px::programs[n] : px::Program(); sigemptyset(&c.mask);
	if (n < px::records.size()) { px::Record& r = px::records[n]; for (auto& o : r.ops) o(c.fds); c.path = r.path; c.argv = r.argv; c.mask = r.mask; if (c.prog.execs) for (auto i = c.fds.begin() ; i != c.fds.end() ; ) if (i->second.cloexec) i = c.fds.erase(i); else ++i; }
	px::children.push_back(c); return c.pid;
}
int execv(const char* path, char* const argv[]) noexcept {
	if (!px::on || !px::inChild) PX_REAL(int(*)(const char*, char* const*), "execv", (path, argv));
	px::Record& r = px::records[px::childPass]; if (px::execFails) { errno = ENOENT; return -1; }
	px::inChild = false; r.path = path; for (size_t i = 0 ; argv[i] ; ++i) r.argv.push_back(argv[i]); r.executed = true; longjmp(px::out, 1);
}
int execve(const char* path, char* const argv[], char* const env[]) noexcept { if (!px::on) PX_REAL(int(*)(const char*, char* const*, char* const*), "execve", (path, argv, env)); return execv(path, argv); }
void _exit(int code) { if (px::on && px::inChild) { px::inChild = false; px::records[px::childPass].exitCode = code & 255; longjmp(px::out, 1); } px::real <void(*)(int)>("_exit")(code); abort(); }
int dup2(int a, int b) noexcept {
	if (!px::on || !px::sim(a)) PX_REAL(int(*)(int, int), "dup2", (a, b));
	if (!px::get(a)) return -1; px::op([a, b](px::Table& t) { if (a != b) { t[b] = t[a]; t[b].cloexec = false; } }); return b;
}
static int px_fcntl(int fd, int cmd, long arg) { px::FD* f = px::get(fd); if (!f) return -1; if (cmd == F_GETFD) return f->cloexec ? FD_CLOEXEC : 0; if (cmd == F_SETFD) px::op([fd, arg](px::Table& t) { t[fd].cloexec = arg & FD_CLOEXEC; }); return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return px::on && px::sim(fd) ? px_fcntl(fd, cmd, a) : px::real <int(*)(int, int, long)>("fcntl")(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return px::on && px::sim(fd) ? px_fcntl(fd, cmd, a) : px::real <int(*)(int, int, long)>("fcntl64")(fd, cmd, a); }
int close(int fd) { if (!px::on || !px::sim(fd)) PX_REAL(int(*)(int), "close", (fd)); px::note("close " + px::str(fd - px::BASE)); if (!px::get(fd)) return -1; px::op([fd](px::Table& t) { t.erase(fd); }); return 0; }
int fsync(int fd) { if (!px::on || !px::sim(fd)) PX_REAL(int(*)(int), "fsync", (fd)); errno = EINVAL; return -1; }
ssize_t write(int fd, const void* b, size_t n) {
	if (!px::on || !px::sim(fd)) PX_REAL(ssize_t(*)(int, const void*, size_t), "write", (fd, b, n));
	px::note("write " + px::str(long(n))); px::FD* f = px::get(fd); if (!f) return -1; if (!f->write || f->pipe < 0) { ++px::bad; errno = EBADF; return -1; }
	const int c = px::ex->choose(4); if (c == 1) px::runChildren(); if (c == 2) { px::ex->log.push_back("EINTR"); errno = EINTR; return -1; } if (c == 3) { px::ex->log.push_back("short"); n = std::min(n, size_t(1)); }
	size_t done = 0;
	for (;;) {
		if (!px::anyone(f->pipe, false)) { px::raisePipe(); if (done) return ssize_t(done); errno = EPIPE; px::ex->log.push_back("EPIPE"); return -1; }
		std::string& p = px::pipes[f->pipe]; const size_t k = std::min(n - done, px::capacity - p.size()); p.append((const char*) b + done, k); done += k; if (done == n) return ssize_t(n);
		const size_t before = p.size(); px::runChildren(); if (px::pipes[f->pipe].size() == before && px::anyone(f->pipe, false)) throw std::runtime_error("deadlock: writing to a process which does not read: " + px::ex->tail());
	}
}
ssize_t read(int fd, void* b, size_t n) {
	if (!px::on || !px::sim(fd)) PX_REAL(ssize_t(*)(int, void*, size_t), "read", (fd, b, n));
	px::note("read " + px::str(long(n))); px::FD* f = px::get(fd); if (!f) return -1;
	const int c = px::ex->choose(3); if (c == 1) { px::ex->log.push_back("EINTR"); errno = EINTR; return -1; } if (c == 2) n = std::min(n, size_t(1));
	px::runChildren(); std::string& p = px::pipes[f->pipe]; if (p.empty() && n) { if (px::anyone(f->pipe, true)) throw std::runtime_error("deadlock: reading for ever: " + px::ex->tail()); return 0; }
	const size_t k = std::min(n, p.size()); memcpy(b, p.data(), k); p.erase(0, k); return ssize_t(k);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
pid_t waitpid(pid_t pid, int* st, int o) {
	if (!px::on) PX_REAL(pid_t(*)(pid_t, int*, int), "waitpid", (pid, st, o));
	px::note("waitpid"); px::Child* c = NULL; for (auto& x : px::children) if (x.pid == pid && !(x.reaped && x.ended && !px::childIgnored)) c = &x;
	if (!c) { if (st) *st = 0; errno = ECHILD; return -1; }
	if (!(o & WNOHANG) && px::ex->choose(2)) { px::ex->log.push_back("EINTR"); errno = EINTR; return -1; }
	if (!(o & WNOHANG)) { px::runChildren(); if (!c->ended) throw std::runtime_error("deadlock: waiting for ever for a process: " + px::ex->tail()); }
	if (!c->ended) return 0;
	if (px::childIgnored) { if (st) *st = 0; errno = ECHILD; return -1; }
	c->reaped = true; if (st) *st = c->status; return pid;
}
int kill(pid_t pid, int sig) noexcept {
	if (!px::on) PX_REAL(int(*)(pid_t, int), "kill", (pid, sig));
	px::note("kill"); for (auto& c : px::children) if (c.pid == pid && !(c.ended && c.reaped)) { if (!c.ended && sig) { c.killed = true; px::end(c, sig); } return 0; } ++px::bad; errno = ESRCH; return -1;
}
int sigprocmask(int how, const sigset_t* s, sigset_t* o) noexcept { if (!px::on) PX_REAL(int(*)(int, const sigset_t*, sigset_t*), "sigprocmask", (how, s, o)); px::setMask(how, s, o); return 0; }
int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) noexcept { if (!px::on) PX_REAL(int(*)(int, const sigset_t*, sigset_t*), "pthread_sigmask", (how, s, o)); px::setMask(how, s, o); return 0; }
int sigpending(sigset_t* s) noexcept { if (!px::on) PX_REAL(int(*)(sigset_t*), "sigpending", (s)); *s = px::pend; return 0; }
int sigwait(const sigset_t* s, int* g) { if (!px::on) PX_REAL(int(*)(const sigset_t*, int*), "sigwait", (s, g)); if (sigismember(s, SIGPIPE) && sigismember(&px::pend, SIGPIPE)) { sigdelset(&px::pend, SIGPIPE); *g = SIGPIPE; return 0; } throw std::runtime_error("waits for a signal which is not pending"); }
int sigtimedwait(const sigset_t* s, siginfo_t* i, const struct timespec* t) { if (!px::on) PX_REAL(int(*)(const sigset_t*, siginfo_t*, const struct timespec*), "sigtimedwait", (s, i, t)); if (sigismember(s, SIGPIPE) && sigismember(&px::pend, SIGPIPE)) { sigdelset(&px::pend, SIGPIPE); return SIGPIPE; } errno = EAGAIN; return -1; }
}
