// C32: folder paths obey the algebra of sequences of components.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/utility/path.hpp"
using namespace vmime; typedef vmime::utility::path P; typedef P::component C;
typedef std::vector <S> V;

static P mk(const V& v) { P p; for (auto& c : v) p.appendComponent(C(c, vmime::charset("utf-8"))); return p; }
static V unmk(const P& p) { V v; for (size_t i = 0 ; i < p.getSize() ; ++i) { v.push_back(p.getComponentAt(i).getBuffer()); CHECK(p[i].getBuffer() == v.back(), "operator[]"); } return v; }
static S showV(const V& v) { S s = "("; for (auto& c : v) s += (s.size() > 1 ? "," : "") + esc(c); return s + ")"; }
static void same(const P& p, const V& w, const S& what) {
	CHECK(unmk(p) == w, what + " gives " + showV(unmk(p)) + " instead of " + showV(w));
	CHECK(p.getSize() == w.size() && p.isEmpty() == w.empty() && p.isRoot() == w.empty(), what + ": size/isEmpty/isRoot");
	if (!w.empty()) CHECK(p.getLastComponent().getBuffer() == w.back(), what + ": last component");
}
static V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool prefix(const V& a, const V& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static V renamed(const V& v, const V& o, const V& n) { if (v.empty() || !prefix(o, v)) return v; return cat(n, V(v.begin() + o.size(), v.end())); }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C32";
	R.rule = "all paths up to a depth over a component alphabet (distinct, similar, non-ASCII and separator-like names), all pairs and all triples, against sequences of strings; all texts over separator alphabets for the conversions; all histories of modifying operations up to a depth";
	R.assumptions = {"components are in the charset used for the conversion", "separators are not empty and components do not contain them when a path is converted to text", "the last component of the empty path is not asked for"};
	const std::vector <S> alpha = {"a", "b", "ab", "A", "\xc3\xa9"};
	std::vector <V> all; for (size_t n = 0 ; n <= 3 ; ++n) mc::tuples(n < 3 ? alpha.size() : (R.thorough ? 5 : 3), n, [&](const std::vector <size_t>& ix) { V v; for (size_t i : ix) v.push_back(alpha[i]); all.push_back(v); });
	if (R.thorough) mc::tuples(2, 4, [&](const std::vector <size_t>& ix) { V v; for (size_t i : ix) v.push_back(alpha[i]); all.push_back(v); });
	// ---- single paths
	for (auto& a : all) R.testL([&] { return "one|" + showV(a); }, [&] {
		const P p = mk(a); same(p, a, "construction"); P q(p); same(q, a, "copy"); P r = mk({"x", "y", "z", "t"}); r = p; same(r, a, "assignment");
		r = static_cast <const P&>(r); same(r, a, "self-assignment"); CHECK(p == q && !(p != q), "copy is not equal");
		same(p.getParent(), a.empty() ? a : V(a.begin(), a.end() - 1), "getParent");
		if (!a.empty()) { CHECK(p.getParent() / p.getLastComponent() == p, "parent / last component"); CHECK(p.getParent().isDirectParentOf(p) && p.getParent().isParentOf(p), "parent relation"); }
		CHECK(!p.isParentOf(p) && !p.isDirectParentOf(p), "a path is not its own parent");
		for (auto& c : alpha) {
			const C cc(c, vmime::charset("utf-8")); same(p / cc, cat(a, {c}), "p / component"); same(p, a, "operand of /");
			P s(p); s /= cc; same(s, cat(a, {c}), "p /= component"); P t(p); t.appendComponent(cc); CHECK(t == s, "appendComponent");
			CHECK((p / cc).getParent() == p, "(p / c).getParent()"); P u(p); u = cc; same(u, {c}, "p = component"); P w(cc); CHECK(u == w, "path(component)");
			if (!a.empty()) { P m(p); m.getLastComponent() = cc; V x(a); x.back() = c; same(m, x, "modified last component"); same(p, a, "original of a modified copy"); m.getComponentAt(0) = cc; x[0] = c; same(m, x, "modified first component"); P n(p); n[0] = cc; V y(a); y[0] = c; same(n, y, "modified through []"); }
		}
		P s(p); s /= s; same(s, cat(a, a), "p /= p"); same(p / p, cat(a, a), "p / p");
		{ P t(p); t.renameParent(t, mk({"n"})); same(t, renamed(a, a, {"n"}), "renameParent of itself"); P u(p); u.renameParent(P(), u); same(u, renamed(a, {}, a), "renameParent to itself"); }
		// conversions
		for (const S sep : {"/", ".", "::", "aa", "/a/", "\xe2\x86\x92"}) {
			bool clean = true; for (auto& c : a) clean = clean && c.find(sep) == S::npos;
			S joined; for (size_t i = 0 ; i < a.size() ; ++i) joined += (i ? sep : S()) + a[i];
			const S t = p.toString(sep, vmime::charset("utf-8")); CHECK(t == joined, "toString('" + sep + "') gives " + esc(t));
			// unambiguous: no separator appears across a boundary
			V back; { size_t b = 0; while (true) { size_t e = joined.find(sep, b); S c = joined.substr(b, e == S::npos ? e : e - b); if (!c.empty()) back.push_back(c); if (e == S::npos) break; b = e + sep.size(); } }
			same(P::fromString(t, sep, vmime::charset("utf-8")), back, "fromString(toString(), '" + sep + "')");
			if (clean && sep != "aa" && sep != "/a/") same(P::fromString(t, sep, vmime::charset("utf-8")), a, "round trip with '" + sep + "'");
			same(P::fromString(sep + t + sep + sep, sep, vmime::charset("utf-8")), back, "additional separators");
		}
		R.outcome(showV(a));
	});
	// conversion to another charset and back
	for (auto& a : all) R.testL([&] { return "charset|" + showV(a); }, [&] {
		const P p = mk(a); const S t = p.toString("/", vmime::charset("iso-8859-1")); const P q = P::fromString(t, "/", vmime::charset("iso-8859-1"));
		CHECK(q.getSize() == p.getSize() && q.toString("/", vmime::charset("utf-8")) == p.toString("/", vmime::charset("utf-8")), "other charset"); R.outcome(t);
	});
	// ---- pairs
	for (auto& a : all) R.testL([&] { return "pairs|" + showV(a); }, [&] {
		const P p = mk(a);
		for (auto& b : all) {
			const P q = mk(b); const S w = showV(a) + "," + showV(b);
			CHECK((p == q) == (a == b) && (p != q) == (a != b), "comparison of " + w);
			CHECK(p.isParentOf(q) == (a.size() < b.size() && prefix(a, b)), "isParentOf of " + w);
			CHECK(p.isDirectParentOf(q) == (a.size() + 1 == b.size() && prefix(a, b)), "isDirectParentOf of " + w);
			same(p / q, cat(a, b), "/ of " + w); P r(p); r /= q; same(r, cat(a, b), "/= of " + w); CHECK(q == mk(b) && p == mk(a), "operands");
			P s(p); s = q; same(s, b, "assignment of " + w); P u = mk(b); u.renameParent(p, mk({})); same(u, renamed(b, a, {}), "renameParent to the root of " + w);
			R.transition();
		}
		R.outcome(showV(a));
	});
	// ---- triples: renaming, joining
	std::vector <V> mid; for (auto& a : all) { bool k = a.size() <= (R.thorough ? 3u : 2u) ; for (auto& c : a) k = k && (c == "a" || c == "b" || c == "ab"); if (k) mid.push_back(a); }
	for (auto& v : all) R.testL([&] { return "rename|" + showV(v); }, [&] {
		for (auto& o : all) for (auto& n : mid) {
			P p = mk(v); const P po = mk(o), pn = mk(n); p.renameParent(po, pn);
			same(p, renamed(v, o, n), "renameParent(" + showV(o) + "," + showV(n) + ") of " + showV(v)); CHECK(po == mk(o) && pn == mk(n), "operands changed"); R.transition();
		}
		R.outcome(showV(v));
	});
	for (auto& a : mid) for (auto& b : mid) R.testL([&] { return "assoc|" + showV(a) + showV(b); }, [&] {
		for (auto& c : mid) { const P x = mk(a), y = mk(b), z = mk(c); CHECK((x / y) / z == x / (y / z), "associativity"); if (x.isParentOf(y) && y.isParentOf(z)) CHECK(x.isParentOf(z), "transitivity"); }
		R.outcome(showV(a) + showV(b));
	});
	// ---- texts
	for (const S sep : {"/", ".", "::", "ab", "//"}) mc::strings({"a", "b", sep, sep.substr(0, 1), "\xc3\xa9"}, 0, R.thorough ? 7 : 5, [&](const S& t) { R.testL([&] { return "text|" + sep + "|" + esc(t); }, [&] {
		V w; size_t b = 0; while (true) { size_t e = t.find(sep, b); S c = t.substr(b, e == S::npos ? e : e - b); if (!c.empty()) w.push_back(c); if (e == S::npos) break; b = e + sep.size(); }
		const P p = P::fromString(t, sep, vmime::charset("utf-8")); same(p, w, "fromString(" + esc(t) + ")");
		for (size_t i = 0 ; i < p.getSize() ; ++i) CHECK(p[i].getCharset() == vmime::charset("utf-8"), "component charset");
		R.outcome(showV(w));
	}); });
	// ---- histories of modifications on two paths
	const size_t depth = R.thorough ? 5 : 4;
	mc::tuples(9, depth, [&](const std::vector <size_t>& ix) { R.testL([&] { return "history|" + mc::show(ix); }, [&] {
		P p, q = mk({"a", "b"}); V m, n = {"a", "b"};
		for (size_t i : ix) {
			switch (i) {
				case 0: p /= C("a"); m.push_back("a"); break;
				case 1: p.appendComponent(C("b")); m.push_back("b"); break;
				case 2: p /= q; m = cat(m, n); break;
				case 3: p = p.getParent(); if (!m.empty()) m.pop_back(); break;
				case 4: std::swap(m, n); { P t(p); p = q; q = t; } break;
				case 5: p.renameParent(q, mk({"c"})); m = renamed(m, n, {"c"}); break;
				case 6: q.renameParent(p.getParent(), p); { V par(m); if (!par.empty()) par.pop_back(); n = renamed(n, par, m); } break;
				case 7: if (!m.empty()) { p.getLastComponent() = C("z"); m.back() = "z"; } break;
				case 8: q = p / q; n = cat(m, n); break;
			}
			same(p, m, "after step " + str(i)); same(q, n, "other path after step " + str(i)); R.transition(); R.state(showV(m) + showV(n));
			if (m.size() > 40 || n.size() > 40) break;
		}
		R.outcome(showV(m) + showV(n));
	}); });
}
