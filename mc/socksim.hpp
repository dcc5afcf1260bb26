// A model of the network below the socket system calls: while sk::on is set, the socket calls of the
// process work on sk::socks and a simulated clock; every call may be answered in unusual ways chosen by
// an mc::Explorer. Include it in exactly one translation unit.
#pragma once
#include "explore.hpp"
#include <memory>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/time.h>

namespace sk {
typedef std::string S;
/** what an address does */
enum Kind { ACCEPT, ACCEPT2, ACCEPT8, REFUSE, REFUSE2, SILENT, NOSOCKET, OTHER, KINDS };
inline const char* kindName(int k) { static const char* n[] = {"accepts", "accepts after 2 s", "accepts after 8 s", "refuses", "refuses after 2 s", "silent", "no socket", "other family"}; return n[k]; }

struct Sock {
	int family = 0, addr = -1; bool nonblock = false, open = true, started = false; long readyAt = 0, began = 0, ended = -1; int result = 0; bool faulted = false, noPoll = false;
	S out, in; bool eof = false; int dead = 0;    // dead: the error of a broken connection
	size_t room = 1 << 20;                        // what the other side still takes
	bool connected(long now) const { return started && result == 0 && now >= readyAt; }
};
inline bool on = false;
inline mc::Explorer* ex = NULL;
inline long now = 0;                               // milliseconds
inline std::vector <Sock> socks; inline std::vector <int> kinds;
inline std::vector <struct addrinfo*> lists; inline int resolveResult = 0; inline long resolveAt = 0;
inline struct gaicb* pending = NULL; inline S name, service; inline bool noSignal = true; inline size_t bad = 0, stuck = 0; inline long lastNow = -1;
enum { BASE = 1 << 22 };
inline bool mine(int fd) { return fd >= BASE && fd < BASE + (1 << 16); }
inline S str(long n) { return std::to_string(n); }
inline void note(const S& s) { if (now == lastNow) ++stuck; else { stuck = 0; lastNow = now; } ex->log.push_back(str(now) + ":" + s); }
/** A call that changes nothing is repeated while waiting: unusual answers are tried for the first `patience` of them only. */
inline int idle = 0, patience = 4;
inline int pick(int n) { return idle++ < patience ? ex->choose(n) : 0; }
inline void live() { if (stuck > 300) throw std::runtime_error("busy loop: " + ex->tail()); if (ex->log.size() > 4000) throw std::runtime_error("does not end: " + ex->tail()); }
inline Sock* get(int fd) { if (!mine(fd) || size_t(fd - BASE) >= socks.size() || !socks[fd - BASE].open) { ++bad; ex->log.push_back("bad descriptor " + str(fd)); errno = EBADF; return NULL; } return &socks[fd - BASE]; }
template <class T> T real(const char* n) { static std::map <S, void*> c; void*& p = c[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (T) p; }

inline struct addrinfo* makeList() {
	struct addrinfo *first = NULL, **at = &first;
	for (size_t i = 0 ; i < kinds.size() ; ++i) {
		struct addrinfo* a = new addrinfo; memset(a, 0, sizeof *a);
		const bool v6 = i % 2;
		a->ai_family = kinds[i] == OTHER ? AF_UNIX : v6 ? AF_INET6 : AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
		if (v6) { sockaddr_in6* s = new sockaddr_in6; memset(s, 0, sizeof *s); s->sin6_family = AF_INET6; s->sin6_port = htons(uint16_t(i)); a->ai_addr = (sockaddr*) s; a->ai_addrlen = sizeof *s; }
		else { sockaddr_in* s = new sockaddr_in; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(uint16_t(i)); a->ai_addr = (sockaddr*) s; a->ai_addrlen = sizeof *s; }
		*at = a; at = &a->ai_next;
	}
	lists.push_back(first); return first;
}
inline void freeList(struct addrinfo* a) { while (a) { struct addrinfo* n = a->ai_next; if (a->ai_family == AF_INET6 || (a->ai_addrlen == sizeof(sockaddr_in6))) delete (sockaddr_in6*) a->ai_addr; else delete (sockaddr_in*) a->ai_addr; delete a; a = n; } }
inline bool onStack(const void* p) {
	pthread_attr_t a; void* lo; size_t n; if (pthread_getattr_np(pthread_self(), &a)) return false; pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
	return p >= lo && p < (char*) lo + n;
}
inline void complete() { if (pending && now >= resolveAt) { struct gaicb* r = pending; pending = NULL; if (!resolveResult) r->ar_result = makeList(); } }
inline size_t skipped = 0;
inline void reset() { skipped = 0; idle = 0; for (auto& l : lists) freeList(l); lists.clear(); socks.clear(); pending = NULL; now = 0; bad = 0; stuck = 0; lastNow = -1; noSignal = true; }
}

extern "C" {
int getaddrinfo_a(int mode, struct gaicb** list, int n, struct sigevent* ev) {
	if (!sk::on) return sk::real <int(*)(int, struct gaicb**, int, struct sigevent*)>("getaddrinfo_a")(mode, list, n, ev);
	sk::note("getaddrinfo_a"); if (sk::ex->choose(2)) { sk::ex->log.push_back("EAI_AGAIN"); return EAI_AGAIN; }
	sk::pending = list[0]; sk::name = list[0]->ar_name; sk::service = list[0]->ar_service; list[0]->ar_result = NULL; return 0;
}
int gai_suspend(const struct gaicb* const* list, int n, const struct timespec* t) {
	if (!sk::on) return sk::real <int(*)(const struct gaicb* const*, int, const struct timespec*)>("gai_suspend")(list, n, t);
	sk::note("gai_suspend"); sk::live(); if (!sk::pending) return EAI_ALLDONE;
	if (sk::pick(2)) { sk::ex->log.push_back("EAI_INTR"); sk::now += 1; errno = EINTR; return EAI_INTR; }
	const long end = sk::now + t->tv_sec * 1000 + t->tv_nsec / 1000000;
	if (sk::resolveAt <= end) { sk::now = std::max(sk::now, sk::resolveAt); sk::complete(); return 0; }
	sk::now = end; return EAI_AGAIN;
}
int gai_error(struct gaicb* r) noexcept { if (!sk::on) return sk::real <int(*)(struct gaicb*)>("gai_error")(r); return sk::pending == r ? EAI_INPROGRESS : sk::resolveResult; }
int gai_cancel(struct gaicb* r) noexcept {
	if (!sk::on) return sk::real <int(*)(struct gaicb*)>("gai_cancel")(r);
	if (sk::pending != r) return EAI_ALLDONE;
	if (sk::ex->choose(2)) { sk::pending = NULL; return EAI_CANCELED; } return EAI_NOTCANCELED;
}
int getaddrinfo(const char* a, const char* s, const struct addrinfo* h, struct addrinfo** r) {
	if (!sk::on || (h && (h->ai_flags & AI_NUMERICHOST))) return sk::real <int(*)(const char*, const char*, const struct addrinfo*, struct addrinfo**)>("getaddrinfo")(a, s, h, r);
	sk::note("getaddrinfo"); sk::name = a; sk::service = s; sk::now += 10; if (sk::resolveResult) return sk::resolveResult; *r = sk::makeList(); return 0;
}
void freeaddrinfo(struct addrinfo* a) noexcept {
	for (size_t i = 0 ; i < sk::lists.size() ; ++i) if (sk::lists[i] == a) { sk::lists.erase(sk::lists.begin() + i); sk::freeList(a); return; }
	if (a) sk::real <void(*)(struct addrinfo*)>("freeaddrinfo")(a);
}
int getnameinfo(const struct sockaddr* sa, socklen_t l, char* h, socklen_t hl, char* s, socklen_t sl, int f) {
	if (!sk::on) return sk::real <int(*)(const struct sockaddr*, socklen_t, char*, socklen_t, char*, socklen_t, int)>("getnameinfo")(sa, l, h, hl, s, sl, f);
	volatile char sum = 0; for (socklen_t i = 0 ; i < l ; ++i) sum = sum + ((const char*) sa)[i];   // it reads all of it
	if (l != (sa->sa_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in))) return EAI_FAMILY;
	if (sk::ex->choose(2)) return EAI_NONAME;
	snprintf(h, hl, "name%u.example.org", (unsigned) ntohs(((const sockaddr_in*) sa)->sin_port)); if (s && sl) s[0] = 0; return 0;
}
struct hostent* gethostbyaddr(const void* a, socklen_t l, int f) {
	if (!sk::on) return sk::real <struct hostent*(*)(const void*, socklen_t, int)>("gethostbyaddr")(a, l, f);
	static struct hostent h; static char n[32]; unsigned char w[16]; inet_pton(f == AF_INET6 ? AF_INET6 : AF_INET, f == AF_INET6 ? "2001:db8:1:2:3:4:5:6" : "192.0.2.17", w);
	if (l != (f == AF_INET6 ? 16u : 4u) || memcmp(a, w, l)) return NULL;
	if (sk::ex->choose(2)) return NULL;
	snprintf(n, sizeof n, "name%d.example.org", f == AF_INET6 ? 1 : 0); h.h_name = n; return &h;
}
int socket(int family, int type, int proto) noexcept {
	if (!sk::on) return sk::real <int(*)(int, int, int)>("socket")(family, type, proto);
	sk::note("socket");
	// which address this is for is told by connect(); NOSOCKET: no socket of that family (the address after the last one tried)
	size_t next = 0; for (auto& s : sk::socks) if (s.addr >= 0) next = std::max(next, size_t(s.addr) + 1); next = std::max(next, sk::skipped);
	while (next < sk::kinds.size() && sk::kinds[next] == sk::OTHER) ++next;
	if (next < sk::kinds.size() && sk::kinds[next] == sk::NOSOCKET) { sk::skipped = next + 1; errno = EAFNOSUPPORT; return -1; }
	sk::Sock s; s.family = family; sk::socks.push_back(s); return sk::BASE + int(sk::socks.size()) - 1;
}

int setsockopt(int fd, int level, int o, const void* v, socklen_t l) noexcept { if (!sk::mine(fd)) return sk::real <int(*)(int, int, int, const void*, socklen_t)>("setsockopt")(fd, level, o, v, l); return sk::get(fd) ? 0 : -1; }
int getsockopt(int fd, int level, int o, void* v, socklen_t* l) noexcept {
	if (!sk::mine(fd)) return sk::real <int(*)(int, int, int, void*, socklen_t*)>("getsockopt")(fd, level, o, v, l);
	sk::Sock* s = sk::get(fd); if (!s) return -1; sk::ex->log.push_back("getsockopt"); if (sk::ex->choose(2)) { s->faulted = true; errno = ENOBUFS; return -1; }
	*(int*) v = s->started && sk::now >= s->readyAt ? s->result : s->dead; s->ended = sk::now; return 0;
}
static int sk_fcntl(int fd, int cmd, long arg) { sk::Sock* s = sk::get(fd); if (!s) return -1; if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK; return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return sk::mine(fd) ? sk_fcntl(fd, cmd, a) : sk::real <int(*)(int, int, long)>("fcntl")(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return sk::mine(fd) ? sk_fcntl(fd, cmd, a) : sk::real <int(*)(int, int, long)>("fcntl64")(fd, cmd, a); }
int connect(int fd, const struct sockaddr* a, socklen_t len) {
	if (!sk::mine(fd)) return sk::real <int(*)(int, const struct sockaddr*, socklen_t)>("connect")(fd, a, len);
	sk::Sock* s = sk::get(fd); if (!s) return -1; const int i = ntohs(((const sockaddr_in*) a)->sin_port); s->addr = i; s->started = true; s->began = sk::now; const int k = sk::kinds[i];
	sk::note("connect to " + sk::str(i)); sk::idle = 0;
	long d = k == sk::ACCEPT2 || k == sk::REFUSE2 ? 2000 : k == sk::ACCEPT8 ? 8000 : k == sk::SILENT ? 130000 : 0;
	s->result = k == sk::REFUSE || k == sk::REFUSE2 ? ECONNREFUSED : k == sk::SILENT ? ETIMEDOUT : 0;
	if (!s->nonblock) { if (sk::ex->choose(2)) { s->faulted = true; sk::now += 5; s->readyAt = sk::now + d; errno = EINTR; return -1; } sk::now += d; s->readyAt = sk::now; if (s->result) { s->started = false; errno = s->result; return -1; } return 0; }
	const int c = d ? 0 : sk::ex->choose(2); if (c) d = 20;                  // an answer may take a little
	s->readyAt = sk::now + d;
	if (!d) { if (s->result) { s->started = false; errno = s->result; return -1; } return 0; }
	errno = sk::ex->choose(2) ? EINTR : EINPROGRESS; return -1;
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
	if (!sk::on || !n || !sk::mine(f[0].fd)) { if (sk::on) { sk::note("poll of nothing"); sk::live(); sk::now += timeout; if (n) f[0].revents = 0; return 0; } return sk::real <int(*)(struct pollfd*, nfds_t, int)>("poll")(f, n, timeout); }
	f[0].revents = 0; sk::note("poll"); sk::live(); sk::Sock* s = sk::get(f[0].fd); if (!s) { --sk::bad; f[0].revents = POLLNVAL; return 1; }
	const int c = sk::pick(3); if (c == 1) { sk::ex->log.push_back("EINTR"); sk::now += 1; errno = EINTR; return -1; } if (c == 2 || s->noPoll) { sk::ex->log.push_back("ENOMEM"); s->noPoll = s->faulted = true; errno = ENOMEM; return -1; }
	if (s->started && sk::now < s->readyAt) { if (s->readyAt > sk::now + timeout) { sk::now += timeout; return 0; } sk::now = s->readyAt; }
	if (s->result || s->dead) { const int h = sk::ex->choose(2); f[0].revents = h ? POLLERR | POLLHUP : (f[0].events & (POLLIN | POLLOUT)) | POLLERR | POLLHUP; return 1; }
	if ((f[0].events & POLLIN) && (!s->in.empty() || s->eof)) f[0].revents |= POLLIN;
	if ((f[0].events & POLLOUT) && s->room) f[0].revents |= POLLOUT;
	if (f[0].revents) { if (sk::pick(2)) { sk::ex->log.push_back("not ready yet"); f[0].revents = 0; sk::now += timeout; return 0; } return 1; }
	sk::now += timeout; return 0;
}
int __poll_chk(struct pollfd* f, nfds_t n, int timeout, size_t) { return poll(f, n, timeout); }
ssize_t send(int fd, const void* b, size_t n, int flags) {
	if (!sk::mine(fd)) return sk::real <ssize_t(*)(int, const void*, size_t, int)>("send")(fd, b, n, flags);
	sk::note("send " + sk::str(n)); sk::live(); sk::Sock* s = sk::get(fd); if (!s) return -1; if (!(flags & MSG_NOSIGNAL)) sk::noSignal = false;
	const int c = sk::pick(5); if (c) sk::ex->log.push_back("choice " + sk::str(c));
	if (c == 4) { s->dead = EPIPE; } if (s->dead) { errno = s->dead; return -1; }
	if (c == 1) { errno = EAGAIN; return -1; } if (c == 2) { errno = EINTR; return -1; }
	size_t k = std::min(n, s->room); if (c == 3) k = std::min(k, size_t(1)); if (!k && n) { errno = EAGAIN; return -1; }
	sk::idle = 0; s->out.append((const char*) b, k); s->room -= k; return ssize_t(k);
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
	if (!sk::mine(fd)) return sk::real <ssize_t(*)(int, void*, size_t, int)>("recv")(fd, b, n, flags);
	sk::note("recv"); sk::live(); sk::Sock* s = sk::get(fd); if (!s) return -1;
	const int c = sk::pick(5); if (c) sk::ex->log.push_back("choice " + sk::str(c));
	if (c == 4) s->dead = ECONNRESET; if (s->dead) { errno = s->dead; return -1; }
	if (c == 1) { errno = EAGAIN; return -1; } if (c == 2) { errno = EINTR; return -1; }
	size_t k = std::min(n, s->in.size()); if (c == 3) k = std::min(k, size_t(1));
	if (!k) { if (s->eof) return 0; errno = EAGAIN; return -1; }
	memcpy(b, s->in.data(), k); if (!(flags & MSG_PEEK)) { sk::idle = 0; s->in.erase(0, k); } return ssize_t(k);
}
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int flags) { return recv(fd, b, n, flags); }
int shutdown(int fd, int how) noexcept { if (!sk::mine(fd)) return sk::real <int(*)(int, int)>("shutdown")(fd, how); return sk::get(fd) ? 0 : -1; }
int close(int fd) { if (!sk::mine(fd)) return sk::real <int(*)(int)>("close")(fd); sk::Sock* s = sk::get(fd); if (!s) return -1; sk::ex->log.push_back("close " + sk::str(fd - sk::BASE)); s->open = false; if (s->ended < 0) s->ended = sk::now; return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept {
	if (!sk::mine(fd)) return sk::real <int(*)(int, struct sockaddr*, socklen_t*)>("getpeername")(fd, a, l);
	sk::Sock* s = sk::get(fd); if (!s) return -1; sockaddr_in6 x; memset(&x, 0, sizeof x); socklen_t n;
	if (s->family == AF_INET6) { n = sizeof x; x.sin6_family = AF_INET6; x.sin6_port = htons(uint16_t(s->addr)); inet_pton(AF_INET6, "2001:db8:1:2:3:4:5:6", &x.sin6_addr); }
	else { n = sizeof(sockaddr_in); sockaddr_in* y = (sockaddr_in*) &x; y->sin_family = AF_INET; y->sin_port = htons(uint16_t(s->addr)); inet_pton(AF_INET, "192.0.2.17", &y->sin_addr); }
	memcpy(a, &x, std::min(n, *l)); *l = n; return 0;
}
int gettimeofday(struct timeval* t, void* z) noexcept {
	if (!sk::on) return sk::real <int(*)(struct timeval*, void*)>("gettimeofday")(t, z);
	const long ms = 1000000000L * 1000 + 700 + sk::now; t->tv_sec = ms / 1000; t->tv_usec = ms % 1000 * 1000; return 0;
}
}
