// main() of every harness: coordinator and workers. Include exactly once per harness.
#pragma once
#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <time.h>

namespace mc {

bool Run::mine() {
	const uint64_t i = idx++;
	if (only) return true;
	if (i % nshards != shard) return false;
	if (!skip.empty() && skip.count(i)) return false;
	if (sh) { sh->labelLen = 0; sh->caseIdx = i; sh->running = 1; }
	return true;
}
void Run::setLabel(const S& l) {
	cur = l;
	if (sh) {
		const size_t n = std::min(l.size(), sizeof(sh->label));
		memcpy(sh->label, l.data(), n); sh->labelLen = n;
	}
	const S fam = l.substr(0, l.find('|'));
	if (sampleFams.insert(fam).second && samples.size() < 12) samples.push_back(l);
}
bool Run::take(const S& l) {
	if (only) {
		++idx;
		if (esc(l, 1 << 20) != onlyLabel) return false;
		setLabel(l); return true;
	}
	if (!mine()) return false;
	setLabel(l); return true;
}
void Run::end() { ++executed; if (sh) { sh->done = executed; sh->running = 0; } }
void Run::fail(const S& msg) {
	const S key = esc(cur, 1 << 20);
	if (knownKeys.count(key)) { knownSeen.insert(key); return; }
	++nviol;
	if (violations.size() < 25) violations.push_back({key, msg});
}

inline S jq(const S& s) {
	S o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

inline void writeResult(const Run& R, const S& path) {
	std::ofstream f((path + ".tmp").c_str(), std::ios::binary);
	f << "{\"executed\":" << R.executed << ",\"enumerated\":" << R.idx << ",\"transitions\":" << R.transitions
	  << ",\"traces\":" << R.traces << ",\"nviol\":" << R.nviol << ",\"property\":" << jq(R.property)
	  << ",\"level\":" << jq(R.level) << ",\"rule\":" << jq(R.rule) << ",\"exhaustive\":" << (R.exhaustive ? "true" : "false")
	  << ",\"assumptions\":[";
	for (size_t i = 0 ; i < R.assumptions.size() ; ++i) f << (i ? "," : "") << jq(R.assumptions[i]);
	f << "],\"samples\":[";
	for (size_t i = 0 ; i < R.samples.size() ; ++i) f << (i ? "," : "") << jq(esc(R.samples[i]));
	f << "],\"known\":["; bool first = true;
	for (auto& k : R.knownSeen) { f << (first ? "" : ",") << jq(k); first = false; }
	f << "],\"counters\":{"; first = true;
	for (auto& c : R.counters) { f << (first ? "" : ",") << jq(c.first) << ":" << c.second; first = false; }
	f << "},\"violations\":["; first = true;
	for (auto& v : R.violations) { f << (first ? "" : ",") << "[" << jq(v.key) << "," << jq(v.msg) << "]"; first = false; }
	f << "]}";
	f.close();
	std::ofstream g((path + ".set").c_str(), std::ios::binary);
	uint64_t n = R.outcomes.size(); g.write((const char*) &n, 8);
	for (uint64_t h : R.outcomes) g.write((const char*) &h, 8);
	n = R.states.size(); g.write((const char*) &n, 8);
	for (uint64_t h : R.states) g.write((const char*) &h, 8);
	g.close();
	rename((path + ".tmp").c_str(), path.c_str());
}

inline double cpuOf(pid_t p) {
	char b[64]; snprintf(b, 64, "/proc/%d/stat", int(p));
	std::ifstream f(b); S s((std::istreambuf_iterator <char>(f)), std::istreambuf_iterator <char>());
	size_t q = s.rfind(')'); if (q == S::npos) return 0;
	std::istringstream i(s.substr(q + 2)); S t; unsigned long u = 0, k = 0;
	for (int n = 0 ; n < 11 ; ++n) i >> t;
	i >> u >> k; return double(u + k) / sysconf(_SC_CLK_TCK);
}
inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

} // mc

// usage: harness --out DIR [--tier thorough] [--jobs N] [--known FILE] [--only LABEL]
//        (internal: --worker I --skip K --shm FILE)
int main(int argc, char** argv) {
	using namespace mc;
	S out, known, only, shm; unsigned jobs = 8; int worker = -1; std::set <uint64_t> skip; bool thorough = false, hasOnly = false;
	for (int i = 1 ; i < argc ; ++i) {
		S a = argv[i]; auto nx = [&] { return S(argv[++i]); };
		if (a == "--out") out = nx(); else if (a == "--tier") thorough = nx() == "thorough";
		else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--known") known = nx();
		else if (a == "--only") { only = nx(); hasOnly = true; }
		else if (a == "--worker") worker = atoi(nx().c_str());
		else if (a == "--skip") { std::istringstream q(nx()); S t; while (std::getline(q, t, ',')) if (!t.empty()) skip.insert(strtoull(t.c_str(), 0, 10)); } else if (a == "--shm") shm = nx();
	}
	Run R; R.thorough = thorough;
	if (!known.empty()) { std::ifstream f(known.c_str()); S l; while (std::getline(f, l)) R.knownKeys.insert(l); }
	if (hasOnly) {
		R.only = true; R.onlyLabel = only; mc_main(R);
		if (!R.executed) { printf("no such case\n"); return 2; }
		for (auto& v : R.violations) printf("FAIL %s: %s\n", v.key.c_str(), v.msg.c_str());
		printf("%s\n", R.violations.empty() ? "ok" : "violated");
		return R.violations.empty() ? 0 : 1;
	}
	if (worker >= 0) {
		int fd = open(shm.c_str(), O_RDWR);
		void* m = mmap(0, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		R.sh = reinterpret_cast <Shared*>(m) + worker;
		R.shard = worker; R.nshards = jobs; R.skip = skip;
		mc_main(R);
		writeResult(R, out + "/w" + std::to_string(worker) + ".json");
		fflush(stdout); _exit(0);
	}
	shm = out + "/shm";
	int fd = open(shm.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (ftruncate(fd, sizeof(Shared) * jobs) != 0) return 2;
	Shared* sh = (Shared*) mmap(0, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	struct W { pid_t pid = 0; bool fin = false; S skip; uint64_t seenIdx = ~0ULL, seenDone = 0; double cpu0 = 0, t0 = 0; unsigned crashes = 0; bool killedHang = false; };
	std::vector <W> ws(jobs);
	std::ofstream crash((out + "/crashes.txt").c_str(), std::ios::binary);
	bool incomplete = false; const unsigned maxCrashes = getenv("VERIF_CRASHES") ? atoi(getenv("VERIF_CRASHES")) : 2;
	auto start = [&](unsigned i) {
		W& w = ws[i]; sh[i].running = 0; sh[i].done = 0; sh[i].labelLen = 0;
		S so = out + "/w" + std::to_string(i) + ".log";
		pid_t p = fork();
		if (p == 0) {
			int l = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(l, 1); dup2(l, 2); close(l);
			S a0 = argv[0]; std::vector <S> a = {a0, "--worker", std::to_string(i), "--skip", w.skip.empty() ? S(",") : w.skip, "--shm", shm,
				"--out", out, "--jobs", std::to_string(jobs), "--tier", thorough ? "thorough" : "quick"};
			if (!known.empty()) { a.push_back("--known"); a.push_back(known); }
			std::vector <char*> v; for (auto& s : a) v.push_back((char*) s.c_str()); v.push_back(0);
			setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=3000", 1);
			setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=86", 1);
			setenv("TZ", "UTC", 1); setenv("LC_ALL", "C.UTF-8", 1);
			execv(a0.c_str(), v.data()); _exit(99);
		}
		w.pid = p; w.seenIdx = ~0ULL; w.t0 = nowS(); w.cpu0 = 0; w.killedHang = false;
	};
	for (unsigned i = 0 ; i < jobs ; ++i) start(i);
	while (true) {
		bool all = true;
		for (unsigned i = 0 ; i < jobs ; ++i) {
			W& w = ws[i]; if (w.fin) continue;
			all = false;
			int st = 0; pid_t r = waitpid(w.pid, &st, WNOHANG);
			if (r == 0) {
				if (sh[i].running) {
					if (sh[i].caseIdx != w.seenIdx) { w.seenIdx = sh[i].caseIdx; w.cpu0 = cpuOf(w.pid); w.t0 = nowS(); }
					else if (cpuOf(w.pid) - w.cpu0 > 20 || nowS() - w.t0 > 240) { w.killedHang = true; kill(w.pid, SIGKILL); }
				} else w.seenIdx = ~0ULL;
				continue;
			}
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.fin = true; continue; }
			// crashed, hung or out of memory
			S label(sh[i].label, sh[i].labelLen), why;
			if (!sh[i].running) { label = "(outside a case, after case index " + std::to_string(sh[i].caseIdx) + ")"; }
			if (w.killedHang) why = "does not terminate";
			else if (WIFSIGNALED(st)) why = "killed by signal " + std::to_string(WTERMSIG(st));
			else why = "aborted with status " + std::to_string(WEXITSTATUS(st));
			std::ifstream lf((out + "/w" + std::to_string(i) + ".log").c_str()); S line; int n = 0;
			while (std::getline(lf, line)) {
				if (line.find("ERROR: AddressSanitizer") != S::npos || line.find("runtime error") != S::npos || line.find("what()") != S::npos
				    || line.find("rss limit") != S::npos || (line.find("    #") == 0 && line.find("vmime") != S::npos && n < 6)) { why += " | " + line.substr(0, 240); if (++n > 6) break; }
			}
			S k = esc(label, 1 << 20);
			for (char& c : why) if (c == '\n' || c == '\t') c = ' ';
			crash << k << "\t" << (R.knownKeys.count(k) ? "K" : "V") << "\t" << why << "\n"; crash.flush();
			++w.crashes;
			if (w.crashes >= maxCrashes || !sh[i].running) { w.fin = true; incomplete = true; }
			else { w.skip += std::to_string(sh[i].caseIdx) + ","; start(i); }
		}
		if (all) break;
		usleep(20000);
	}
	crash.close();
	std::ofstream fin((out + "/done").c_str()); fin << (incomplete ? "incomplete" : "complete"); fin.close();
	return 0;
}
