// Bounded-exhaustive exploration framework.
//
// A harness enumerates its whole case space deterministically in mc_main(); the cases are
// dealt out to worker processes (case index modulo number of workers), each executes its own
// and reports violations, distinct observed outcomes and counters.  A worker that crashes
// (sanitizer report, signal), hangs or exhausts memory yields a violation for the case it was
// executing and is restarted behind it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <algorithm>

namespace mc {

typedef std::string S;

inline S esc(const S& s, size_t maxLen = 600) {
	static const char* H = "0123456789abcdef";
	S o;
	for (size_t i = 0 ; i < s.size() ; ++i) {
		unsigned char c = s[i];
		if (o.size() > maxLen) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		switch (c) {
			case '\\': o += "\\\\"; break;
			case '\n': o += "\\n"; break;
			case '\r': o += "\\r"; break;
			case '\t': o += "\\t"; break;
			default:
				if (c < 32 || c >= 127) { o += "\\x"; o += H[c >> 4]; o += H[c & 15]; }
				else o += char(c);
		}
	}
	return o;
}

inline uint64_t hash(const S& s, uint64_t h = 1469598103934665603ULL) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
	return h;
}

struct Violated : public std::runtime_error { Violated(const S& m) : std::runtime_error(m) {} };

struct Shared {              // one per worker, in shared memory
	volatile uint64_t caseIdx;    // index of the case being executed
	volatile uint64_t done;       // number of executed cases
	volatile uint32_t running;
	volatile uint32_t labelLen;
	char label[8192];
};

inline S (*describe)(const std::exception&) = nullptr;   // text of an exception, for reports
class Run {
public:
	bool thorough = false;
	// ---- enumeration -----------------------------------------------------------------
	/** Begin the next case; returns true if this worker has to execute it. The label
	  * identifies the case (family + input) and is what a replay file contains. */
	bool take(const S& label);
	/** Cheap variant: label computed only if the case is ours. */
	template <class F> bool takeL(F f) {
		if (only) return take(f());
		if (!mine()) return false;
		setLabel(f()); return true;
	}
	/** Execute a body for the current case: exceptions become violations. */
	template <class F> void exec(F f) {
		struct Slow { const Run& r; clock_t t = clock(); ~Slow() { static const char* lim = getenv("VERIF_SLOW"); if (lim && (clock() - t) / 1000 >= atoi(lim)) fprintf(stderr, "slow %ld ms %s\n", long((clock() - t) / 1000), r.cur.c_str()); } } slow{*this};
		try { f(); }
		catch (const Violated& v) { fail(v.what()); }
		catch (const std::exception& e) { fail(S("unexpected exception: ") + (describe ? describe(e) : S(e.what()))); }
		catch (...) { fail("unexpected exception of unknown type"); }
		end();
	}
	template <class F> void test(const S& label, F f) { if (take(label)) exec(f); }
	template <class L, class F> void testL(L l, F f) { if (takeL(l)) exec(f); }
	// ---- observations ----------------------------------------------------------------
	void outcome(const S& s) { if (outcomes.size() < 2000000) outcomes.insert(hash(s)); }
	void outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }
	/** Record a state of the explored system (model-checking style harnesses). */
	void state(const S& s) { if (states.size() < 3000000) states.insert(hash(s)); }
	void transition(uint64_t n = 1) { transitions += n; }
	void trace(uint64_t n = 1) { traces += n; }
	void count(const S& name, uint64_t n = 1) { counters[name] += n; }
	void fail(const S& msg);
	template <class A, class Bt> void equal(const A& got, const Bt& want, const S& what) {
		if (!(got == want)) {
			std::ostringstream o; o << what << ": got " << show(got) << ", expected " << show(want);
			throw Violated(o.str());
		}
	}
	static S show(const S& s) { return "'" + esc(s) + "'"; }
	static S show(const char* s) { return show(S(s)); }
	static S show(bool b) { return b ? "true" : "false"; }
	template <class T> static S show(const T& t) { std::ostringstream o; o << t; return o.str(); }

	// ---- internals -------------------------------------------------------------------
	bool mine();
	void setLabel(const S& l);
	void end();
	unsigned shard = 0, nshards = 1;
	uint64_t idx = 0; std::set <uint64_t> skip;
	bool only = false; S onlyLabel;
	Shared* sh = nullptr;
	S cur;
	std::unordered_set <uint64_t> outcomes, states;
	uint64_t transitions = 0, traces = 0, executed = 0;
	std::map <S, uint64_t> counters;
	struct V { S key, msg; };
	std::vector <V> violations; uint64_t nviol = 0;
	std::set <S> knownKeys, knownSeen;
	std::vector <S> samples; std::set <S> sampleFams;
	// description, set by the harness
	S property, level = "exploration", rule; std::vector <S> assumptions;
	bool exhaustive = true;
};

// ---- enumeration helpers ---------------------------------------------------------------
/** All strings over an alphabet of pieces with minLen..maxLen pieces. */
template <class F> void strings(const std::vector <S>& alpha, size_t minLen, size_t maxLen, F f) {
	for (size_t n = minLen ; n <= maxLen ; ++n) {
		std::vector <size_t> ix(n, 0);
		while (true) {
			S s; for (size_t i : ix) s += alpha[i];
			f(s);
			size_t k = n;
			while (k > 0 && ix[k - 1] + 1 == alpha.size()) { ix[k - 1] = 0; --k; }
			if (k == 0) break;
			++ix[k - 1];
		}
	}
}
/** All index tuples of length n over 0..base-1 */
template <class F> void tuples(size_t base, size_t n, F f) {
	std::vector <size_t> ix(n, 0);
	while (true) {
		f((const std::vector <size_t>&) ix);
		size_t k = n;
		while (k > 0 && ix[k - 1] + 1 == base) { ix[k - 1] = 0; --k; }
		if (k == 0) break;
		++ix[k - 1];
	}
}
inline std::vector <S> chars(const S& s) { std::vector <S> v; for (char c : s) v.push_back(S(1, c)); return v; }
/** All compositions of n into positive parts (2^(n-1) of them; n == 0 gives the empty one). */
template <class F> void compositions(size_t n, F f) {
	if (n == 0) { f(std::vector <size_t>()); return; }
	for (uint64_t m = 0 ; m < (1ULL << (n - 1)) ; ++m) {
		std::vector <size_t> v; size_t run = 1;
		for (size_t i = 0 ; i + 1 < n ; ++i) { if (m >> i & 1) { v.push_back(run); run = 1; } else ++run; }
		v.push_back(run);
		f((const std::vector <size_t>&) v);
	}
}
/** Partitions of n with at most k cut points (k = 0, 1, 2, ...), fewest cuts first. */
template <class F> void cuts(size_t n, size_t k, F f) {
	f(std::vector <size_t>(n ? 1 : 0, n));
	if (k >= 1) for (size_t a = 1 ; a < n ; ++a) f(std::vector <size_t>{a, n - a});
	if (k >= 2) for (size_t a = 1 ; a < n ; ++a) for (size_t b = a + 1 ; b < n ; ++b)
		f(std::vector <size_t>{a, b - a, n - b});
}
inline S show(const std::vector <S>& v) { S s = "["; for (auto& x : v) s += (s.size() > 1 ? ", '" : "'") + x + "'"; return s + "]"; }
inline S show(const std::vector <size_t>& v) {
	S s = "["; for (size_t i = 0 ; i < v.size() ; ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]";
}
template <class T> inline S str(const T& t) { std::ostringstream o; o << t; return o.str(); }

} // mc

void mc_main(mc::Run& R);   // implemented by the harness
/** Checks a condition for the current case; the message is only built on failure. */
#define CHECK(cond, msg) do { if (!(cond)) throw mc::Violated(mc::S() + (msg)); } while (0)
