// Explicit-state exploration of a model with every transition replayed on the real code.
//
// Sys has: static ops (names via opCount()/opName(i)), enabled(i), step(i) - applies the
// operation to the model and, when constructed with real = true, to the implementation and
// compares their results -, check() - compares all observations -, key() - canonical model
// state.  All reachable model states (up to maxDepth/maxStates) are found breadth first; for
// each, every sequence of `tail` further operations is executed on a fresh real system that
// was driven into the state along its shortest path.
#pragma once
#include "mc.hpp"
#include <deque>
#include <memory>
namespace mc {
template <class Mk> void lts(Run& R, const S& name, Mk mk, size_t tail, size_t maxDepth = 99, size_t maxStates = 1000000) {
	typedef std::vector <size_t> Path;
	std::deque <Path> queue{Path()}; std::set <S> seen; seen.insert(mk(false)->key());
	while (!queue.empty()) {
		const Path p = queue.front(); queue.pop_front();
		auto lab = [&](const Path& q) { auto m = mk(false); S l; for (size_t i : q) { l += (l.empty() ? "" : " ; ") + m->opName(i); m->step(i); } return l; };
		R.testL([&] { return name + "|" + lab(p); }, [&] {
			std::function <void(const Path&, size_t)> rec = [&](const Path& q, size_t left) {
				{ auto s = mk(true); try { for (size_t i : q) s->step(i); s->check(); R.state(name + s->key()); R.outcome(name + s->key()); R.trace(); }
				  catch (const std::exception& e) { if (q.size() == p.size()) throw Violated(S("[") + lab(q) + "] " + e.what()); throw Violated(S("[") + lab(q) + "] " + e.what()); } }
				if (!left) return;
				auto m = mk(false); for (size_t i : q) m->step(i);
				for (size_t i = 0 ; i < m->opCount() ; ++i) if (m->enabled(i)) { Path n = q; n.push_back(i); R.transition(); rec(n, left - 1); }
			};
			rec(p, tail);
		});
		if (p.size() >= maxDepth) continue;
		auto m = mk(false); for (size_t i : p) m->step(i);
		for (size_t i = 0 ; i < m->opCount() ; ++i) if (m->enabled(i)) {
			auto n = mk(false); for (size_t k : p) n->step(k); n->step(i);
			if (seen.size() < maxStates && seen.insert(n->key()).second) { Path q = p; q.push_back(i); queue.push_back(q); }
		}
	}
}
}
