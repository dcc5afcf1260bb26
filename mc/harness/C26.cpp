// C26: message sets denote exactly the given messages.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPCommand.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
using namespace vmime; using namespace vmime::net;
typedef vmime::net::message::uid Uid;

static const size_t MAXN = size_t(-1);
struct Collect : public messageSetEnumerator {
	std::vector <std::pair <size_t, size_t> > n; std::vector <std::pair <S, S> > u; S order;
	void enumerateNumberMessageRange(const numberMessageRange& r) { n.push_back({r.getFirst(), r.getLast()}); order += "n"; }
	void enumerateUIDMessageRange(const UIDMessageRange& r) { u.push_back({S(r.getFirst()), S(r.getLast())}); order += "u"; }
	S text() const { S s; for (auto& p : n) s += str(p.first) + ":" + str(p.second) + ","; for (auto& p : u) s += p.first + ":" + p.second + ","; return s; }
};
static S enumText(const messageSet& s) { Collect c; s.enumerate(c); return c.text(); }

// the messages a number set denotes when the mailbox has `count` messages, in enumeration order
static std::vector <size_t> denote(const messageSet& s, size_t count) {
	Collect c; s.enumerate(c); std::vector <size_t> v;
	for (auto& p : c.n) { size_t l = p.second == MAXN ? count : p.second; for (size_t i = p.first ; i <= l && i ; ++i) v.push_back(i); }
	return v;
}
// independent reading of an IMAP sequence-set
static std::vector <S> denoteSeq(const S& seq) {
	std::vector <S> v; size_t p = 0;
	CHECK(!seq.empty(), "empty sequence set");
	while (p <= seq.size()) {
		size_t e = seq.find(',', p); if (e == S::npos) e = seq.size();
		const S it = seq.substr(p, e - p); size_t c = it.find(':');
		CHECK(!it.empty() && it.find_first_not_of("0123456789:*") == S::npos, "bad sequence set '" + seq + "'");
		S a = it.substr(0, c), b = c == S::npos ? a : it.substr(c + 1);
		if (b == "*") v.push_back(a + ":*");
		else { unsigned long long x = std::stoull(a), y = std::stoull(b); CHECK(x <= y && y - x < 100, "bad range in '" + seq + "'"); for ( ; x <= y ; ++x) v.push_back(str(x)); }
		p = e + 1;
	}
	return v;
}

// everything that can be asked about a set
static void consistency(const messageSet& s) {
	Collect c; s.enumerate(c);
	CHECK(s.getRangeCount() == c.n.size() + c.u.size(), "getRangeCount");
	CHECK(s.isEmpty() == (s.getRangeCount() == 0), "isEmpty");
	CHECK(s.isNumberSet() == !c.n.empty(), "isNumberSet");
	CHECK(s.isUIDSet() == !c.u.empty(), "isUIDSet");
	CHECK(c.n.empty() || c.u.empty(), "mixed set");
	Collect d; for (size_t i = 0 ; i < s.getRangeCount() ; ++i) s.getRangeAt(i).enumerate(d);
	CHECK(c.text() == d.text(), "getRangeAt differs from enumerate");
	// copies: equal and independent
	const S t = c.text();
	messageSet k(s); CHECK(enumText(k) == t, "copy differs");
	if (c.u.empty()) k.addRange(numberMessageRange(77)); else k.addRange(UIDMessageRange("77"));
	CHECK(enumText(s) == t, "changing a copy changes the original");
	messageSet a = messageSet::byNumber(5, 6); a = s; CHECK(enumText(a) == t, "assigned set differs");
	a = static_cast <const messageSet&>(a); CHECK(enumText(a) == t, "self-assignment changes a set");
	{ messageSet b = messageSet::byUID("5"); b = s; if (c.u.empty()) b.addRange(numberMessageRange(78)); else b.addRange(UIDMessageRange("78")); }
	CHECK(enumText(s) == t && enumText(a) == t, "changing an assigned set changes the original");
	std::vector <messageSet> vec(3, s); vec.erase(vec.begin()); vec.push_back(messageSet::empty());
	CHECK(enumText(vec[0]) == t && vec[2].isEmpty(), "set in a container");
	// a range of the other kind is refused and changes nothing
	if (!s.isEmpty()) {
		messageSet m(s); bool thrown = false;
		try { if (c.u.empty()) m.addRange(UIDMessageRange("1")); else m.addRange(numberMessageRange(1)); } catch (std::invalid_argument&) { thrown = true; }
		CHECK(thrown, "range of another kind accepted"); CHECK(enumText(m) == t, "refused range changed the set");
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C26";
	R.rule = "every list of message numbers or UIDs over a domain with neighbours, duplicates and extreme values up to a length, every range, every sequence of addRange: the set is enumerated and compared with the mathematical set, and through the conversions of the IMAP, POP3 and maildir back-ends";
	R.assumptions = {"UIDs are compared as strings; a UID that is not the canonical decimal form of a 32 bit number is opaque", "an opaque UID in a list switches the whole list to single ranges in first-occurrence order"};
	const size_t L = R.thorough ? 7 : 5;

	// ---- lists of numbers
	const std::vector <size_t> dom = {1, 2, 3, 4, 6, 9, 4294967295UL, 4294967296UL, MAXN - 1};
	for (size_t n = 0 ; n <= (R.thorough ? 6u : 4u) ; ++n) mc::tuples(dom.size(), n, [&](const std::vector <size_t>& ix) {
		std::vector <size_t> v; for (size_t i : ix) v.push_back(dom[i]);
		R.testL([&] { return "numbers|" + mc::show(v); }, [&] {
			const messageSet s = messageSet::byNumber(v);
			std::vector <size_t> w(v); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
			Collect c; s.enumerate(c); CHECK(c.u.empty(), "UID ranges in a number set");
			size_t k = 0; size_t prev = 0; bool first = true;
			for (auto& p : c.n) {
				CHECK(p.first <= p.second && p.second != MAXN, "bad range " + c.text());
				CHECK(first || p.first > prev + 1, "ranges not disjoint, increasing and merged: " + c.text());
				for (size_t x = p.first ; ; ++x) { CHECK(k < w.size() && w[k] == x, "set enumerates " + c.text() + " for " + mc::show(v)); ++k; if (x == p.second) break; }
				prev = p.second; first = false;
			}
			CHECK(k == w.size(), "set enumerates only " + c.text() + " for " + mc::show(v));
			consistency(s); R.outcome(c.text());
		});
	});
	// small dense domain, longer lists, through the back-ends
	for (size_t n = 1 ; n <= L ; ++n) mc::tuples(R.thorough ? 6 : 5, n, [&](const std::vector <size_t>& ix) {
		std::vector <size_t> v; for (size_t i : ix) v.push_back(i + 1);
		R.testL([&] { return "dense|" + mc::show(v); }, [&] {
			const messageSet s = messageSet::byNumber(v);
			std::vector <size_t> w(v); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
			CHECK(denote(s, 50) == w, "set enumerates " + enumText(s));
			CHECK(pop3::POP3Utils::messageSetToNumberList(s, 50) == w, "POP3 list " + mc::show(pop3::POP3Utils::messageSetToNumberList(s, 50)));
			CHECK(maildir::maildirUtils::messageSetToNumberList(s, 50) == w, "maildir list " + mc::show(maildir::maildirUtils::messageSetToNumberList(s, 50)));
			std::vector <S> ws; for (size_t x : w) ws.push_back(str(x));
			CHECK(denoteSeq(imap::IMAPUtils::messageSetToSequenceSet(s)) == ws, "IMAP sequence set " + imap::IMAPUtils::messageSetToSequenceSet(s));
			consistency(s); R.outcome(enumText(s));
		});
	});
	// invalid numbers
	for (size_t bad : {size_t(0), MAXN}) for (size_t n = 0 ; n <= 2 ; ++n) for (size_t at = 0 ; at <= n ; ++at) R.testL([&] { return "invalid|" + str(bad) + " n" + str(n) + "@" + str(at); }, [&] {
		std::vector <size_t> v; for (size_t i = 0 ; i < n ; ++i) v.push_back(i + 1); v.insert(v.begin() + at, bad);
		bool thrown = false; try { messageSet s = messageSet::byNumber(v); } catch (std::invalid_argument&) { thrown = true; }
		CHECK(thrown, "list with an invalid number accepted");
		if (!n) { thrown = false; try { messageSet s = messageSet::byNumber(bad, bad); } catch (std::invalid_argument&) { thrown = true; } CHECK(thrown, "invalid range accepted"); }
		R.outcome(thrown);
	});

	// ---- ranges of numbers
	const std::vector <size_t> rd = {1, 2, 3, 7, 8, MAXN - 1, MAXN};
	for (size_t a : rd) for (size_t b : rd) R.testL([&] { return "range|" + str(a) + ":" + str(b); }, [&] {
		bool ok = a != MAXN && (b == MAXN || a <= b), thrown = false;
		try {
			const messageSet s = messageSet::byNumber(a, b); const numberMessageRange r(a, b);
			CHECK(s.getRangeCount() == 1, "range count");
			Collect c; s.enumerate(c); CHECK(c.n.size() == 1 && c.n[0].first == a && c.n[0].second == b, "range became " + c.text());
			std::unique_ptr <messageRange> q(r.clone()); Collect d; q->enumerate(d); CHECK(d.text() == c.text(), "clone");
			consistency(s);
			if (a < 9 && (b < 9 || b == MAXN)) for (size_t count : {0, 1, 2, 5, 8}) {
				std::vector <size_t> w; for (size_t x = a ; x <= (b == MAXN ? count : b) ; ++x) w.push_back(x);
				CHECK(denote(s, count) == w, "model");
				CHECK(pop3::POP3Utils::messageSetToNumberList(s, count) == w, "POP3 list of a range");
				CHECK(maildir::maildirUtils::messageSetToNumberList(s, count) == w, "maildir list of a range");
			}
			const S seq = imap::IMAPUtils::messageSetToSequenceSet(s);
			const S want = a == b ? str(a) : str(a) + ":" + (b == MAXN ? S("*") : str(b));
			CHECK(seq == want, "IMAP sequence set " + seq);
		} catch (std::invalid_argument&) { thrown = true; }
		CHECK(thrown == !ok, ok ? "valid range refused" : "invalid range accepted"); R.outcome(thrown);
	});
	for (size_t a : rd) if (a != MAXN) R.testL([&] { return "single|" + str(a); }, [&] {
		const messageSet s = messageSet::byNumber(a); Collect c; s.enumerate(c);
		CHECK(c.n.size() == 1 && c.n[0].first == a && c.n[0].second == a, "single became " + c.text());
		CHECK(imap::IMAPUtils::messageSetToSequenceSet(s) == str(a), "IMAP"); consistency(s); R.outcome(c.text());
	});

	// ---- lists of UIDs
	const std::vector <S> ud = {"1", "2", "3", "10", "9", "2147483647", "2147483648", "4294967294", "4294967295"};
	auto uidCase = [&](const S& fam, const std::vector <S>& v) {
		R.testL([&] { S l; for (auto& x : v) l += esc(x) + ","; return fam + "|" + l; }, [&] {
			std::vector <Uid> in; for (auto& x : v) in.push_back(Uid(x));
			const messageSet s = messageSet::byUID(in);
			bool num = true; for (auto& x : v) num = num && !x.empty() && x.size() <= 10 && x[0] != '0' && x.find_first_not_of("0123456789") == S::npos && std::stoull(x) <= 4294967295ULL;
			Collect c; s.enumerate(c); CHECK(c.n.empty(), "number ranges in a UID set");
			if (num) {
				std::set <uint64_t> w; for (auto& x : v) w.insert(std::stoull(x));
				auto it = w.begin(); uint64_t prev = 0; bool first = true;
				for (auto& p : c.u) {
					CHECK(p.first.find_first_not_of("0123456789") == S::npos && p.second.find_first_not_of("0123456789") == S::npos && !p.first.empty() && !p.second.empty(), "range " + c.text());
					uint64_t a = std::stoull(p.first), b = std::stoull(p.second);
					CHECK(a <= b && (first || a > prev + 1), "ranges not disjoint, increasing and merged: " + c.text());
					for (uint64_t x = a ; x <= b ; ++x, ++it) CHECK(it != w.end() && *it == x, "set enumerates " + c.text());
					prev = b; first = false;
				}
				CHECK(it == w.end(), "set enumerates only " + c.text());
				if (!v.empty()) { std::vector <S> ws; for (auto x : w) ws.push_back(str(x)); CHECK(denoteSeq(imap::IMAPUtils::messageSetToSequenceSet(s)) == ws, "IMAP sequence set"); }
			} else {
				std::vector <S> w; for (auto& x : v) if (std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x);
				CHECK(c.u.size() == w.size(), "set enumerates " + c.text());
				for (size_t i = 0 ; i < w.size() ; ++i) CHECK(c.u[i].first == w[i] && c.u[i].second == w[i], "set enumerates " + c.text());
			}
			consistency(s); R.outcome(c.text());
		});
	};
	for (size_t n = 0 ; n <= (R.thorough ? 5u : 4u) ; ++n) mc::tuples(ud.size(), n, [&](const std::vector <size_t>& ix) { std::vector <S> v; for (size_t i : ix) v.push_back(ud[i]); uidCase("uids", v); });
	for (size_t n = 1 ; n <= L ; ++n) mc::tuples(5, n, [&](const std::vector <size_t>& ix) { std::vector <S> v; for (size_t i : ix) v.push_back(str(i + 8)); uidCase("uids-dense", v); });
	const std::vector <S> od = {"1", "2", "abc", "2a", "a2", "", "0", "007", "4294967296", "4294967297", "18446744073709551617", "1 ", S("1\0", 2), "-1"};
	for (size_t n = 1 ; n <= (R.thorough ? 4u : 3u) ; ++n) mc::tuples(od.size(), n, [&](const std::vector <size_t>& ix) { std::vector <S> v; for (size_t i : ix) v.push_back(od[i]); uidCase("uids-opaque", v); });
	// UID ranges
	const std::vector <S> ur = {"1", "5", "4294967295", "*", "abc"};
	for (auto& a : ur) for (auto& b : ur) R.testL([&] { return "uidrange|" + a + ":" + b; }, [&] {
		const messageSet s = messageSet::byUID(Uid(a), Uid(b)); Collect c; s.enumerate(c);
		CHECK(c.u.size() == 1 && c.u[0].first == a && c.u[0].second == b, "range became " + c.text()); consistency(s);
		CHECK(imap::IMAPUtils::messageSetToSequenceSet(s) == (a == b ? a : a + ":" + b), "IMAP sequence set " + imap::IMAPUtils::messageSetToSequenceSet(s));
		const messageSet t = messageSet::byUID(Uid(a)); CHECK(enumText(t) == a + ":" + a + ",", "single"); R.outcome(c.text());
	});

	// ---- histories of addRange on an empty set
	const std::vector <std::pair <size_t, size_t> > ar = {{1, 1}, {2, 2}, {1, 3}, {5, 6}, {9, MAXN}, {3, 3}};
	for (size_t n = 0 ; n <= (R.thorough ? 5u : 3u) ; ++n) mc::tuples(2 * ar.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { return "add|" + mc::show(ix); }, [&] {
			messageSet s = messageSet::empty(); S want; S seq; int kind = 0; std::vector <size_t> nums;
			for (size_t i : ix) {
				const auto& r = ar[i % ar.size()]; const int k = i < ar.size() ? 1 : 2; bool thrown = false;
				try { if (k == 1) { numberMessageRange x(r.first, r.second); s.addRange(x); } else { UIDMessageRange x(str(r.first), r.second == MAXN ? S("*") : str(r.second)); s.addRange(x); } } catch (std::invalid_argument&) { thrown = true; }
				CHECK(thrown == (kind && kind != k), "mixing kinds");
				if (thrown) continue;
				kind = k; want += str(r.first) + ":" + (r.second == MAXN && k == 2 ? S("*") : str(r.second)) + ",";
				seq += (seq.empty() ? "" : ",") + str(r.first) + (r.first == r.second ? S() : ":" + (r.second == MAXN ? S("*") : str(r.second)));
				if (k == 1) for (size_t x = r.first ; x <= (r.second == MAXN ? 11 : r.second) ; ++x) nums.push_back(x);
				R.transition();
			}
			CHECK(enumText(s) == want, "set enumerates " + enumText(s) + " instead of " + want);
			if (kind) CHECK(imap::IMAPUtils::messageSetToSequenceSet(s) == seq, "IMAP sequence set " + imap::IMAPUtils::messageSetToSequenceSet(s) + " instead of " + seq);
			if (kind == 1) { CHECK(pop3::POP3Utils::messageSetToNumberList(s, 11) == nums, "POP3"); CHECK(maildir::maildirUtils::messageSetToNumberList(s, 11) == nums, "maildir"); }
			consistency(s); R.outcome(want);
		});
	});
}
