// Stateless exploration: the harness asks choose(n) wherever the environment has n possible answers
// (0 is the usual one); explore() runs the scenario once for every sequence of answers with at most
// maxDev unusual ones.
#pragma once
#include "mc.hpp"
namespace mc {
struct Explorer {
	std::vector <int> pre; std::vector <std::pair <int, int> > tr; std::vector <std::string> log; size_t maxDev = 0, runs = 0; bool on = false;
	int choose(int n) {
		if (!on || n < 2) return 0;
		size_t dev = 0; for (auto& t : tr) dev += t.second != 0;
		const int c = tr.size() < pre.size() ? pre[tr.size()] : 0;
		tr.push_back({dev < maxDev || c ? n : 1, c}); return c;
	}
	std::string tail() const { std::string s; for (size_t i = log.size() > 60 ? log.size() - 60 : 0 ; i < log.size() ; ++i) s += log[i] + "; "; return s; }
	void explore(size_t dev, const std::function <void()>& f) {
		maxDev = dev; pre.clear();
		for (;;) {
			tr.clear(); log.clear(); on = true; ++runs; f(); on = false;
			size_t i = tr.size(); while (i && tr[i - 1].second + 1 >= tr[i - 1].first) --i;
			if (!i) return;
			pre.clear(); for (size_t k = 0 ; k < i ; ++k) pre.push_back(tr[k].second); ++pre[i - 1];
		}
	}
};
}
