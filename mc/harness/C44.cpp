// C44: what the library makes up to be unique is: random numbers, message identifiers,
// boundaries, names of maildir files.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/utility/random.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;
struct Handler : public platforms::posix::posixHandler {
	static inline unsigned seed = 1, pid = 77; static inline unsigned long now = 1700000000; static inline S host = "host.example";
	unsigned long getUnixTime() const { return now; } unsigned int getProcessId() const { return pid; } const string getHostName() const { return host; }
	void generateRandomBytes(unsigned char* b, const unsigned int n) { for (unsigned i = 0 ; i < n ; ++i) b[i] = (unsigned char) (seed >> 8 * (i & 3)); }
};
static unsigned LIMIT = 20;
// runs f in a process of its own (the generator has one state per process); what it prints is the result
static S child(const std::function <S()>& f) {
	int p[2]; if (pipe(p)) throw mc::Violated("pipe"); fflush(NULL); const pid_t c = fork();
	if (c == 0) { close(p[0]); alarm(LIMIT); S r; try { r = "=" + f(); } catch (std::exception& e) { r = S("!") + e.what(); } size_t k = 0; while (k < r.size()) { const ssize_t w = write(p[1], r.data() + k, r.size() - k); if (w <= 0) break; k += size_t(w); } _exit(0); }
	close(p[1]); S r; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof(b))) > 0) r.append(b, size_t(n)); close(p[0]); int st; waitpid(c, &st, 0);
	CHECK(WIFEXITED(st) && !WEXITSTATUS(st) && !r.empty(), "the process did not end (" + str(st) + ")"); if (r[0] == '!') throw mc::Violated(r.substr(1)); return r.substr(1);
}
static S nextId(int kind) { switch (kind) { case 0: return messageId::generateId().generate(); case 1: return body::generateRandomBoundaryString(); default: return net::maildir::maildirUtils::generateId().getBuffer(); } }
static const char* KINDS[] = {"message identifiers", "boundaries", "maildir names", "all three in turn"};
static bool plainIn(const S& s, const char* more) { for (char c : s) if (!isalnum((unsigned char) c) && !strchr(more, c)) return false; return !s.empty(); }
static std::vector <S> lines(const S& s) { std::vector <S> v; std::istringstream i(s); S l; while (std::getline(i, l)) v.push_back(l); return v; }
void mc_main(mc::Run& R) {
	R.property = "C44"; R.level = "model_checking"; platform::setHandler <Handler>(); if (R.thorough) LIMIT = 400;
	R.rule = "The generator is a finite automaton of 2^31-2 states: from each of a set of seeds (the edges of the ranges of its arithmetic and others), the states reached by the real code are walked (quick: 2^21, thorough: until every state was visited once); then sequences of identifiers made within one second, in one process, by processes that started with the same state or are copies of one another, on several host names; strings over all alphabet sizes and lengths; trees of nested multiparts.";
	R.assumptions = {"clock, host name, process number and the operating system's random bytes are those given by the check"};
	const unsigned M = 2147483647u;
	std::vector <unsigned> seeds = {0, 1, 2, M - 2, M - 1, M, M + 1, M + 2, 2 * M - 1, 2 * M, 2 * M + 1, 0x80000000u, 0x7fffffffu, 0xffffffffu, 0xfffffffeu, 16807, 127773, 2836, 255545, 255546, 12345, 0xdeadbeefu, 3735928, 65536, 65535, 0x00ff00ffu};
	for (unsigned i = 0 ; i < (R.thorough ? 200u : 30u) ; ++i) seeds.push_back(i * 2654435761u + 17);
	std::sort(seeds.begin(), seeds.end()); seeds.erase(std::unique(seeds.begin(), seeds.end()), seeds.end());
	const size_t steps = R.thorough ? size_t(1) << 24 : size_t(1) << 21;
	for (unsigned s : seeds) R.testL([&] { return S("numbers|seed ") + str(s); }, [&] {
		Handler::seed = s; R.outcome(child([&] { std::vector <unsigned> v(steps); for (auto& x : v) { x = utility::random::getNext(); CHECK(x != 0, "the number 0"); } const unsigned last = v.back(); std::vector <unsigned> w = v; std::sort(w.begin(), w.end()); for (size_t i = 1 ; i < w.size() ; ++i) if (w[i] == w[i - 1]) { size_t a = 0; while (v[a] != w[i]) ++a; size_t b = a + 1; while (v[b] != w[i]) ++b; CHECK(false, "numbers " + str(a) + " and " + str(b) + " are the same: " + str(w[i])); } return str(last); }));
		R.transition(steps); R.state(str(s)); R.trace();
	});
	if (R.thorough) for (unsigned s : {0u, 12345u}) R.testL([&] { return S("orbit|seed ") + str(s); }, [&] {
		Handler::seed = s; const S n = child([&] { std::vector <uint64_t> seen((size_t(1) << 32) / 64); size_t k = 0; for ( ; ; ++k) { const unsigned x = utility::random::getNext(); uint64_t& w = seen[x >> 6]; const uint64_t b = 1ull << (x & 63); if (w & b) break; w |= b; } return str(k); });
		CHECK(strtoull(n.c_str(), NULL, 10) >= 2000000000u, "numbers repeat after " + n); R.transition(strtoull(n.c_str(), NULL, 10)); R.outcome(n);
	});
	const size_t count = R.thorough ? 400000 : 30000;
	for (unsigned s : {0u, 1u, M, 0xffffffffu, 12345u, 99u}) for (int kind = 0 ; kind < 4 ; ++kind) R.testL([&] { return S("unique|") + KINDS[kind] + ", seed " + str(s); }, [&] {
		Handler::seed = s;
		R.outcome(child([&] {
			std::set <S> seen[3]; S last;
			for (size_t i = 0 ; i < count ; ++i) {
				const int k = kind == 3 ? int(i % 3) : kind; const S id = nextId(k); CHECK(seen[k].insert(id).second, S(KINDS[k]) + ": made twice within " + str(i + 1) + ": " + id);
				if (k == 0) { messageId m; m.parse(id); CHECK(m.getRight() == Handler::host && plainIn(m.getLeft(), ".-_") && m.generate() == id, "message identifier " + id); }
				else if (k == 1) CHECK(id.size() <= 70 && plainIn(id, "=_+-") && id.find("=_") != S::npos, "boundary " + id);
				else CHECK(plainIn(id, ".-_") && id.size() < 100, "maildir name " + id);
				last = id;
			}
			return last; }));
		R.transition(count); R.state(S("u") + KINDS[kind]);
	});
	// two processes which begin with the same state, and the same process a second later
	for (int kind : {0, 2}) for (int what = 0 ; what < 3 ; ++what) R.testL([&] { return S("elsewhere|") + KINDS[kind] + (what == 0 ? ", another process" : what == 1 ? ", another second" : ", another host"); }, [&] {
		std::set <S> all; for (int i = 0 ; i < 3 ; ++i) {
			Handler::seed = 5; Handler::pid = 77; Handler::now = 1700000000; Handler::host = "host.example"; if (what == 0) Handler::pid += i; else if (what == 1) Handler::now += i; else Handler::host = "host" + str(i) + ".example";
			for (auto& l : lines(child([&] { S r; for (int k = 0 ; k < 200 ; ++k) r += nextId(kind) + "\n"; return r; }))) CHECK(all.insert(l).second, "made twice: " + l);
		}
		Handler::pid = 77; Handler::now = 1700000000; Handler::host = "host.example"; R.outcome(str(all.size()) + str(what)); R.transition(600);
	});
	// a process that has already made some is copied: the copies have the same state, but another process number
	for (int kind : {0, 2}) for (size_t before = 0 ; before < 4 ; ++before) for (int moved = 0 ; moved < 2 ; ++moved) R.testL([&] { return S("copied|") + KINDS[kind] + " after " + str(before) + (moved ? ", a second later" : ""); }, [&] {
		Handler::seed = 5; R.outcome(child([&] {
			std::set <S> all; for (size_t i = 0 ; i < before ; ++i) CHECK(all.insert(nextId(kind)).second, "made twice");
			for (int c = 0 ; c < 3 ; ++c) for (auto& l : lines(child([&] { Handler::pid = 77 + c; if (moved) ++Handler::now; S r; for (int k = 0 ; k < 200 ; ++k) r += nextId(kind) + "\n"; return r; }))) CHECK(all.insert(l).second, "made twice: " + l);
			return str(all.size()); }));
		R.transition(600 + before);
	});
	// strings of random characters
	for (unsigned s : {1u, M, 4000000000u}) R.testL([&] { return S("strings|seed ") + str(s); }, [&] {
		Handler::seed = s; const S all = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
		R.outcome(child([&] { S r; for (size_t a = 1 ; a <= all.size() ; ++a) for (size_t n = 0 ; n <= 40 ; ++n) { const S x = utility::random::getString(n, all.substr(0, a)); CHECK(x.size() == n, "string of " + str(x.size()) + " instead of " + str(n)); CHECK(x.find_first_not_of(all.substr(0, a)) == S::npos, "other characters: " + x); if (a == 62 && n > 20) { std::set <char> d(x.begin(), x.end()); CHECK(d.size() > 5, "not random: " + x); } r = x; } return r; }));
		R.transition(62 * 41);
	});
	// nested multiparts: every level has a boundary of its own
	for (unsigned s : {0u, 1u, M, 77u}) for (int depth = 1 ; depth <= (R.thorough ? 7 : 5) ; ++depth) for (int width = 1 ; width <= 3 ; ++width) R.testL([&] { return S("nested|seed ") + str(s) + " depth " + str(depth) + " width " + str(width); }, [&] {
		Handler::seed = s; R.outcome(child([&] {
			size_t leaves = 0; std::function <void(const shared_ptr <body>&, int)> fill = [&](const shared_ptr <body>& b, int d) { for (int i = 0 ; i < width ; ++i) { auto p = make_shared <bodyPart>(); b->appendPart(p); if (d > 1) fill(p->getBody(), d - 1); else { p->getBody()->setContents(make_shared <stringContentHandler>("leaf " + str(++leaves)), mediaType("text/plain")); } } };
			message m; fill(m.getBody(), depth); const S g = m.generate(); message q; q.parse(g); size_t n = 0, parts = 0; std::vector <S> bs;
			std::function <void(const shared_ptr <const bodyPart>&, int)> look = [&](const shared_ptr <const bodyPart>& p, int d) { ++parts; auto f = p->getHeader()->findField <contentTypeField>("Content-Type"); if (d < depth) { CHECK(f && f->hasBoundary(), "no boundary"); bs.push_back(f->getBoundary()); CHECK(int(p->getBody()->getPartCount()) == width, "level " + str(d) + " has " + str(p->getBody()->getPartCount()) + " parts"); for (size_t i = 0 ; i < p->getBody()->getPartCount() ; ++i) look(p->getBody()->getPartAt(i), d + 1); } else { S o; utility::outputStreamStringAdapter os(o); p->getBody()->getContents()->extract(os); CHECK(o == "leaf " + str(++n), "contents '" + o + "'"); } };
			auto top = make_shared <message>(); top->parse(g); look(top, 0); for (size_t i = 0 ; i < bs.size() ; ++i) for (size_t j = 0 ; j < bs.size() ; ++j) CHECK(i == j || bs[i].compare(0, bs[j].size(), bs[j]) != 0, "boundaries " + bs[i] + " and " + bs[j]); CHECK(n == leaves, "leaves"); return str(parts); }));
		R.transition(); R.state("n" + str(depth) + str(width));
	});
}
