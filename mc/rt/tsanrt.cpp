// Runtime for code compiled with -fsanitize=thread (instead of libtsan): records which memory
// each of two threads uses, schedules them one at a time, switches at given points, and
// detects accesses not ordered by synchronisation (vector clocks). Itself not instrumented.
#include "../tsanrt.hpp"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
typedef uintptr_t U; typedef unsigned char u8;
using namespace rt;

// ---- state
static __thread int tid = -1;                 // 0, 1: one of the two threads
static __thread U stackLo, stackHi; static __thread bool inside;
static Info* I; static bool recording; static Schedule sch; static bool stopped;
static volatile int cur; static volatile int finished[2]; static uint32_t nextAt;
static uint32_t vc[2][2];                     // vector clocks
static void* page(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(97); return p; }
static void wake() { syscall(SYS_futex, &cur, FUTEX_WAKE, 8, 0, 0, 0); }
static void waitTurn(int t) { int c; while ((c = __atomic_load_n(&cur, __ATOMIC_SEQ_CST)) != t) syscall(SYS_futex, &cur, FUTEX_WAIT, c, 0, 0, 0); }
static void pass(int t) { ++I->switches; __atomic_store_n(&cur, 1 - t, __ATOMIC_SEQ_CST); wake(); waitTurn(t); }

// ---- recorded accesses: per thread, memory by granules of 8 bytes
struct Rec { U g; u8 r, w, ar, aw, odd; U pcr, pcw; };   // plain and atomic accesses; odd: atomic accesses other than counting
struct Tab { Rec* t; size_t cap, n; };
static Tab tab[2];
static void initTab(Tab& t) { t.cap = 1 << 20; t.t = (Rec*) page(t.cap * sizeof(Rec)); t.n = 0; }
static Rec* slot(Tab& t, U g, bool make) {
	size_t i = (g * 0x9E3779B97F4A7C15ULL) >> 44;
	for ( ; ; i = (i + 1) & (t.cap - 1)) { Rec& r = t.t[i]; if (r.g == g) return &r; if (!r.g) { if (!make) return NULL; if (++t.n > t.cap / 2) { I->leftover = 1; return NULL; } r.g = g; return &r; } }
}
// ---- accesses to data both threads use
struct Seen { U g; struct { uint32_t clk; u8 mask; bool write, atomic; U pc; } a[2][6]; u8 n[2]; };
static Seen seen[MAXHOT]; static uint32_t nseen;
static Seen* hotOf(U g) {
	uint32_t lo = 0, hi = nseen; while (lo < hi) { const uint32_t m = (lo + hi) / 2; if (seen[m].g < g) lo = m + 1; else hi = m; }
	return lo < nseen && seen[lo].g == g ? &seen[lo] : NULL;
}
static void point() {
	if (I->points < MAXPOINTS) I->pointThread[I->points] = u8(tid);
	const uint32_t p = I->points++; bool sw = false;
	while (nextAt < sch.n && sch.at[nextAt] <= p) { sw |= sch.at[nextAt] == p; ++nextAt; }
	if (sw && !finished[1 - tid]) pass(tid);
}
static void access(U a, size_t n, bool write, bool atomic, bool odd, U pc) {
	if (tid < 0 || inside || stopped || (a >= stackLo && a < stackHi) || !n) return;
	inside = true; const int e = errno;
	++I->accesses[tid];
	const U g1 = (a + n - 1) >> 3;
	for (U g = a >> 3 ; g <= g1 ; ++g) {
		u8 m = 0xff; if (g == a >> 3) m &= u8(0xff << (a & 7)); if (g == g1) m &= u8(0xff >> (7 - ((a + n - 1) & 7)));
		if (recording) {
			Rec* r = slot(tab[tid], g, true); if (!r) break;
			if (atomic) { if (write) r->aw |= m; else r->ar |= m; r->odd |= odd; } else if (write) r->w |= m; else r->r |= m;
			if (write) { if (!r->pcw) r->pcw = pc; } else if (!r->pcr) r->pcr = pc;
		} else if (Seen* s = hotOf(g)) {
			inside = false; point(); inside = true;
			auto* o = s->a[1 - tid];
			for (int i = 0 ; i < s->n[1 - tid] ; ++i) if ((o[i].mask & m) && (write || o[i].write) && !(atomic && o[i].atomic) && o[i].clk > vc[tid][1 - tid]) {
				if (I->races < 16) { Hot& h = I->race[I->races++]; h.granule = g; h.mask = o[i].mask & m; h.pc[tid] = pc; h.pc[1 - tid] = o[i].pc; h.write[tid] = write; h.write[1 - tid] = o[i].write; }
			}
			bool put = false; auto* q = s->a[tid]; for (int i = 0 ; i < s->n[tid] ; ++i) if (q[i].mask == m && q[i].write == write && q[i].atomic == atomic) { q[i].clk = vc[tid][tid]; q[i].pc = pc; put = true; }
			if (!put && s->n[tid] < 6) { auto& x = q[s->n[tid]++]; x.clk = vc[tid][tid]; x.mask = m; x.write = write; x.atomic = atomic; x.pc = pc; }
		}
	}
	errno = e; inside = false;
}
static void forget(U a, size_t n) {            // the memory gets a new life
	if (tid < 0 || !recording || stopped || !n) return;
	for (U g = a >> 3 ; g <= (a + n - 1) >> 3 ; ++g) for (int t = 0 ; t < 2 ; ++t) if (Rec* r = slot(tab[t], g, false)) { r->r = r->w = r->ar = r->aw = r->odd = 0; r->pcr = r->pcw = 0; }
}
// ---- synchronisation: objects and their clocks
struct Sync { U a; uint32_t c[2]; }; static Sync syncs[1 << 16];
static Sync* syncOf(U a) { size_t i = (a * 0x9E3779B97F4A7C15ULL) >> 48; for (size_t k = 0 ; k < (1 << 16) ; ++k, i = (i + 1) & 0xffff) { if (syncs[i].a == a) return &syncs[i]; if (!syncs[i].a) { syncs[i].a = a; return &syncs[i]; } } _exit(96); }
static void acquire(U a) { if (tid < 0 || recording) return; Sync* s = syncOf(a); for (int i = 0 ; i < 2 ; ++i) if (s->c[i] > vc[tid][i]) vc[tid][i] = s->c[i]; }
static void release(U a) { if (tid < 0 || recording) return; Sync* s = syncOf(a); for (int i = 0 ; i < 2 ; ++i) if (vc[tid][i] > s->c[i]) s->c[i] = vc[tid][i]; ++vc[tid][tid]; }
static void blocked() { if (finished[1 - tid]) { I->deadlock = 1; _exit(95); } static uint32_t spins; if (++spins > 1000000) { I->deadlock = 1; _exit(95); } pass(tid); }

#define PC U(__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(U(a), n, false, false, false, PC); } void __tsan_write##n(void* a) { access(U(a), n, true, false, false, PC); } \
 void __tsan_unaligned_read##n(void* a) { access(U(a), n, false, false, false, PC); } void __tsan_unaligned_write##n(void* a) { access(U(a), n, true, false, false, PC); } \
 void __tsan_volatile_read##n(void* a) { access(U(a), n, false, false, false, PC); } void __tsan_volatile_write##n(void* a) { access(U(a), n, true, false, false, PC); } \
 void __tsan_unaligned_volatile_read##n(void* a) { access(U(a), n, false, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access(U(a), n, true, false, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(U(a), n, false, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(U(a), n, true, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(U(p), 8, true, false, false, PC); }
void __tsan_vptr_read(void** p) { access(U(p), 8, false, false, false, PC); }
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* a, int) { access(U(a), b / 8, false, true, true, PC); acquire(U(a)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(volatile T* a, T v, int) { access(U(a), b / 8, true, true, true, PC); release(U(a)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { access(U(a), b / 8, true, true, false, PC); acquire(U(a)); release(U(a)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { access(U(a), b / 8, true, true, false, PC); acquire(U(a)); release(U(a)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access(U(a), b / 8, true, true, true, PC); acquire(U(a)); release(U(a)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// copying memory
void* memcpy(void* d, const void* s, size_t n) { if (tid >= 0) { access(U(s), n, false, false, false, PC); access(U(d), n, true, false, false, PC); } void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) {
	if (tid >= 0) { access(U(s), n, false, false, false, PC); access(U(d), n, true, false, false, PC); }
	void* r = d; if (U(d) - U(s) >= n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
	else { d = (u8*) d + n - 1; s = (const u8*) s + n - 1; __asm__ volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); } return r;
}
void* memset(void* d, int c, size_t n) { if (tid >= 0) access(U(d), n, true, false, false, PC); void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// memory allocation
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (tid >= 0 && p) forget(U(p), n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (tid >= 0 && p) forget(U(p), a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (tid >= 0 && p && p != q) forget(U(p), n); return p; }
void* memalign(size_t al, size_t n) { void* p = __libc_memalign(al, n); if (tid >= 0 && p) forget(U(p), n); return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }

// initialisation of static objects of functions (byte 0: done; byte 1: being done)
int __cxa_guard_acquire(uint64_t* g) {
	u8* b = (u8*) g; if (b[0]) { acquire(U(g)); return 0; }
	if (tid < 0) { b[1] = 1; return 1; }
	if (!recording && !stopped && !inside) point();
	while (b[1]) blocked();
	if (b[0]) { acquire(U(g)); return 0; }
	b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { release(U(g)); u8* b = (u8*) g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_SEQ_CST); }
void __cxa_guard_abort(uint64_t* g) { ((u8*) g)[1] = 0; }

// mutexes
typedef int (*MF)(pthread_mutex_t*); static MF rlock, rtry, runlock;
static void* real(const char* n) { return dlsym(RTLD_NEXT, n); }
static void bind() { if (!runlock) { rlock = (MF) real("pthread_mutex_lock"); rtry = (MF) real("pthread_mutex_trylock"); runlock = (MF) real("pthread_mutex_unlock"); } }
int pthread_mutex_lock(pthread_mutex_t* m) { bind(); if (tid < 0 || stopped) return rlock(m); int r; while ((r = rtry(m)) == EBUSY) blocked(); acquire(U(m)); return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) { bind(); const int r = rtry(m); if (!r && tid >= 0 && !stopped) acquire(U(m)); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { bind(); if (tid >= 0 && !stopped) release(U(m)); return runlock(m); }
static int onceDone[2];
int pthread_once(pthread_once_t* o, void (*f)()) {    // 0: not begun, 1: begun, 2: done
	int* p = (int*) o; if (*p == 2) { if (tid >= 0) acquire(U(o)); return 0; }
	while (*p == 1 && tid >= 0) blocked();
	if (*p == 0) { *p = 1; f(); if (tid >= 0) release(U(o)); *p = 2; } else if (tid >= 0) acquire(U(o));
	return 0;
}
// functions of the C library which return static data
#define NTS(ret, name, params, args, wr) static char tok_##name[8]; ret name params { static ret (*r) params; if (!r) r = (ret (*) params) real(#name); access(U(tok_##name), 8, wr, false, false, PC); return r args; }
struct tm; struct hostent; struct passwd;
NTS(struct tm*, gmtime, (const time_t* t), (t), true)
NTS(struct tm*, localtime, (const time_t* t), (t), true)
NTS(char*, ctime, (const time_t* t), (t), true)
NTS(char*, asctime, (const struct tm* t), (t), true)
NTS(char*, strtok, (char* s, const char* d), (s, d), true)
NTS(struct hostent*, gethostbyname, (const char* n), (n), true)
NTS(struct passwd*, getpwuid, (unsigned n), (n), true)
NTS(struct passwd*, getpwnam, (const char* n), (n), true)
}

// ---- running two threads
struct Start { int t; void (*f)(int, void*); void* arg; };
static void* body(void* p) {
	Start* s = (Start*) p;
	pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
	stackLo = U(lo); stackHi = U(lo) + sz;
	waitTurn(s->t); tid = s->t;
	s->f(s->t, s->arg);
	tid = -1; finished[s->t] = 1;
	__atomic_store_n(&cur, finished[1 - s->t] ? 2 : 1 - s->t, __ATOMIC_SEQ_CST); wake();
	return NULL;
}
void rt::run(void (*f)(int, void*), void* arg, Info* info, bool record, const Schedule& s) {
	bind(); I = info; recording = record; sch = s; nextAt = 0; stopped = false; cur = 2; finished[0] = finished[1] = 0;
	vc[0][0] = vc[1][1] = 1; vc[0][1] = vc[1][0] = 0; I->points = I->races = I->deadlock = I->switches = I->leftover = 0; I->accesses[0] = I->accesses[1] = 0;
	if (record) { initTab(tab[0]); initTab(tab[1]); }
	else { nseen = I->nhot; for (uint32_t i = 0 ; i < nseen ; ++i) { seen[i].g = I->hot[i].granule; seen[i].n[0] = seen[i].n[1] = 0; } }
	Start st[2] = {{0, f, arg}, {1, f, arg}}; pthread_t th[2];
	for (int i = 0 ; i < 2 ; ++i) if (pthread_create(&th[i], NULL, body, &st[i])) _exit(94);
	__atomic_store_n(&cur, s.first, __ATOMIC_SEQ_CST); wake();
	waitTurn(2);
	stopped = true;
	for (int i = 0 ; i < 2 ; ++i) pthread_join(th[i], NULL);
	if (!record) return;
	I->nhot = 0;
	for (size_t i = 0 ; i < tab[0].cap ; ++i) {
		Rec& a = tab[0].t[i]; if (!a.g) continue; Rec* b = slot(tab[1], a.g, false); if (!b) continue;
		const u8 wa = a.w | a.aw, wb = b->w | b->aw, ra = a.r | a.ar | wa, rb = b->r | b->ar | wb;
		u8 m = (wa & rb) | (wb & ra); if (!m) continue;
		const u8 pa = a.r | a.w, pb = b->r | b->w;                 // plain accesses
		if (!(m & (pa | pb)) && !(a.odd && b->odd)) continue;      // only counted atomically: the order does not matter
		if (I->nhot >= MAXHOT) { I->leftover = 1; break; }
		Hot& h = I->hot[I->nhot++]; h.granule = a.g; h.mask = m; h.write[0] = wa & m; h.write[1] = wb & m; h.pc[0] = h.write[0] ? a.pcw : a.pcr; h.pc[1] = h.write[1] ? b->pcw : b->pcr;
	}
	// sorted, for the search
	for (uint32_t i = 1 ; i < I->nhot ; ++i) { Hot x = I->hot[i]; uint32_t k = i; while (k && I->hot[k - 1].granule > x.granule) { I->hot[k] = I->hot[k - 1]; --k; } I->hot[k] = x; }
}
