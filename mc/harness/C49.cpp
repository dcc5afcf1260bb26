// C49: address lists of others are read as RFC 5322 says.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

enum Kind { ATOM, QUOTED, ENC, ADDR, ANGLE, COMMA, COLON, SEMI, WS, COMMENT };
struct Tok { Kind k; S text, value, extra; };      // value: name or local part, extra: domain
struct Box { S name, local, domain; bool operator==(const Box& b) const { return name == b.name && local == b.local && domain == b.domain; } };
struct Entry { bool group = false; S name; std::vector <Box> boxes; };
static S collapse(const S& s) { S o; bool ws = false; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { ws = true; continue; } if (ws && !o.empty()) o += ' '; ws = false; o += c; } return o; }
static S show(const std::vector <Entry>& v) { S o; for (auto& e : v) { o += e.group ? "(" + e.name + ":" : S("["); for (auto& b : e.boxes) o += "{" + b.name + "|" + b.local + "@" + b.domain + "}"; o += e.group ? ")" : "]"; } return o; }
static S u8(const text& t) { return collapse(t.getConvertedText(charset("utf-8"))); }
static Box box(const mailbox& m) { return Box{u8(m.getName()), m.getEmail().getLocalName().getConvertedText(charset("utf-8")), m.getEmail().getDomainName().getConvertedText(charset("utf-8"))}; }
static std::vector <Entry> read(const addressList& l) { std::vector <Entry> r; for (size_t i = 0 ; i < l.getAddressCount() ; ++i) { auto a = l.getAddressAt(i); Entry e; if (a->isGroup()) { auto g = dynamicCast <const mailboxGroup>(a); e.group = true; e.name = u8(g->getName()); for (size_t k = 0 ; k < g->getMailboxCount() ; ++k) e.boxes.push_back(box(*g->getMailboxAt(k))); } else e.boxes.push_back(box(*dynamicCast <const mailbox>(a))); r.push_back(e); } return r; }

/** a reader of the grammar; false: not in it */
struct Reader { const std::vector <Tok>& t; size_t i = 0;
	bool is(Kind k) { return i < t.size() && t[i].k == k; }
	bool cfws() { bool w = false; while (is(WS) || is(COMMENT)) { w = w || is(WS); ++i; } return w; }
	bool word() { return is(ATOM) || is(QUOTED) || is(ENC); }
	bool phrase(S& n) { bool enc = false, any = false, ws = true; while (word()) { if (any && !ws) return false; if (any && !(enc && is(ENC))) n += " "; if (is(ENC) && any && !ws) return false; n += t[i].value; enc = is(ENC); any = true; ++i; ws = cfws(); } if (any && enc && !ws && is(ANGLE)) return false; return any; }
	bool addrEnd() { return i >= t.size() || is(WS) || is(COMMENT) || is(COMMA) || is(SEMI); }
	/** 0 nothing, 1 mailbox, 2 phrase only, -1 not in the grammar */
	int mailboxOrPhrase(Box& b, S& ph) { if (is(ADDR)) { b.local = t[i].value; b.domain = t[i].extra; ++i; if (!addrEnd()) return -1; cfws(); return 1; } if (word()) { if (!phrase(ph)) return -1; if (is(ANGLE)) { b.name = collapse(ph); } else return is(ADDR) ? -1 : 2; } if (is(ANGLE)) { b.local = t[i].value; b.domain = t[i].extra; ++i; cfws(); return 1; } return 0; }
	bool list(std::vector <Entry>& out, bool empties) {
		for ( ; ; ) {
			cfws(); Entry e; Box b; S ph; const int k = mailboxOrPhrase(b, ph); if (k < 0) return false;
			if (k == 1) { e.boxes.push_back(b); out.push_back(e); }
			else if (k == 2) { if (!is(COLON)) return false; ++i; e.group = true; e.name = collapse(ph); cfws(); if (!is(SEMI)) for ( ; ; ) { Box x; S q; cfws(); if (mailboxOrPhrase(x, q) != 1) return false; e.boxes.push_back(x); if (is(SEMI)) break; if (!is(COMMA)) return false; ++i; } ++i; cfws(); out.push_back(e); }
			else if (!empties) return false;
			if (i >= t.size()) return true; if (!is(COMMA)) return false; ++i;
		}
	}
};
static S textOf(const std::vector <Tok>& t) { S s; for (auto& x : t) s += x.text; return s; }

static void check(mc::Run& R, const std::vector <Tok>& t, const std::vector <Entry>& want) {
	const S src = textOf(t), w = show(want); R.outcome(w); R.transition();
	addressList l; l.parse(src); R.equal(show(read(l)), w, "addresses of " + R.show(src));
	// inside a larger buffer, into a used object, as a header field
	const S big = "x@x.x, \"y" + src + ", z@z.z"; l.parse(big, 9, 9 + src.size()); R.equal(show(read(l)), w, "addresses of a part of a buffer " + R.show(src));
	if (src.find("\r\n ") != 0 && !src.empty()) { header h; h.parse("To: " + src + "\r\nX: y\r\n\r\n"); CHECK(h.getFieldCount() == 2, "fields of " + R.show(src)); auto v = h.getField("To")->getValue <addressList>(); CHECK(bool(v), "value"); R.equal(show(read(*v)), w, "addresses of the field " + R.show(src)); }
	bool groups = false; std::vector <Box> all; for (auto& e : want) { groups = groups || e.group; for (auto& b : e.boxes) all.push_back(b); }
	{ auto ml = l.toMailboxList(); std::vector <Box> got; for (size_t i = 0 ; i < ml->getMailboxCount() ; ++i) got.push_back(box(*ml->getMailboxAt(i))); CHECK(got == all, "list of all mailboxes of " + R.show(src)); }
	if (!groups) { mailboxList m; m.parse(src); std::vector <Box> got; for (size_t i = 0 ; i < m.getMailboxCount() ; ++i) got.push_back(box(*m.getMailboxAt(i))); CHECK(got == all, "mailbox list " + R.show(src)); if (want.size() == 1) { mailbox one; one.parse(src); if (t[0].k != COMMA && t.back().k != COMMA) { Entry e1; e1.boxes.push_back(box(one)); R.equal(show(std::vector <Entry>(1, e1)), w, "single mailbox " + R.show(src)); } } }
	// what was read is written so that it is read again
	S g; { utility::outputStreamStringAdapter os(g); l.generate(generationContext::getDefaultContext(), os); } addressList l2; l2.parse(g); R.equal(show(read(l2)), w, "addresses of " + R.show(src) + " generated as " + R.show(g));
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C49";
	R.rule = "every sequence of up to 5 (thorough 6) tokens of 17 kinds (words plain, quoted and encoded, bare and bracketed addresses with quoted local parts and address literals, separators, white space, folds, comments) which the grammar of RFC 5322 accepts, read by a recursive reader of that grammar and by the library: as a list, in a buffer, as a field, as a list of mailboxes, and after generating it again; every placement of comments and white space in longer lists";
	R.assumptions = {"white space in names is compared as one space", "words of a name are separated by white space", "obsolete forms (routes, white space around the dots and the at sign) are not specified"};
	const bool T = R.thorough;
	const std::vector <Tok> A = { {ATOM, "Joe", "Joe", ""}, {ATOM, "o'n.x", "o'n.x", ""}, {QUOTED, "\"q, (r;\\\"\\\\<\"", "q, (r;\"\\<", ""}, {QUOTED, "\"=a: )@\"", "=a: )@", ""}, {ENC, "=?utf-8?Q?=C3=A9=2C?=", "\xc3\xa9,", ""}, {ENC, "=?iso-8859-1?q?a,;=E9?=", "a,;\xc3\xa9", ""}, {ADDR, "j@d.e", "j", "d.e"}, {ADDR, "\"l, >(;\"@d.e", "l, >(;", "d.e"}, {ADDR, "k@[IPv6:::1]", "k", "[IPv6:::1]"}, {ANGLE, "<m=n@o-p.q>", "m=n", "o-p.q"}, {ANGLE, "<\"x> ,y\"@z>", "x> ,y", "z"}, {COMMA, ",", "", ""}, {COLON, ":", "", ""}, {SEMI, ";", "", ""}, {WS, " ", "", ""}, {WS, "\r\n\t", "", ""}, {COMMENT, "(c, <;:\\)(n@) \")", "", ""} };
	for (size_t n = 1 ; n <= (T ? 6u : 5u) ; ++n) mc::tuples(A.size(), n, [&](const std::vector <size_t>& v) {
		if (v.size() != n) return; std::vector <Tok> t; t.reserve(n); for (size_t i : v) t.push_back(A[i]); for (size_t i = 0 ; i + 1 < n ; ++i) if (t[i].k == WS && t[i + 1].k == WS && t[i].text == t[i + 1].text) return;
		std::vector <Entry> want; Reader r{t}; if (!r.list(want, false)) return;
		R.testL([&] { return "tokens|" + mc::show(v); }, [&] { check(R, t, want); });
	});
	// longer lists: every choice of entries, separators and places for white space and comments
	const std::vector <std::vector <size_t> > entries = { {6}, {7}, {8}, {9}, {10}, {0, 9}, {0, 14, 9}, {2, 10}, {2, 14, 9}, {3, 14, 0, 14, 9}, {4, 14, 9}, {5, 14, 4, 14, 10}, {4, 14, 5, 14, 0, 14, 9}, {1, 14, 2, 14, 9}, {0, 12, 13}, {2, 12, 6, 13}, {4, 12, 2, 9, 11, 8, 13}, {0, 14, 0, 12, 7, 11, 3, 9, 11, 10, 13} };
	const std::vector <std::vector <size_t> > seps = { {11}, {11, 14}, {14, 11}, {11, 15}, {16, 11, 14}, {11, 16, 14}, {15, 11, 16} };
	for (size_t a = 0 ; a < entries.size() ; ++a) for (size_t b = 0 ; b < entries.size() ; ++b) for (size_t c = 0 ; c <= entries.size() ; ++c) { if (!T && c < entries.size() && (a + b + c) % 3) continue;
		R.testL([&] { return "lists|" + str(a) + "," + str(b) + "," + str(c); }, [&] { for (size_t s = 0 ; s < seps.size() ; ++s) { std::vector <Tok> t; auto add = [&](const std::vector <size_t>& x) { for (size_t i : x) t.push_back(A[i]); }; add(entries[a]); add(seps[s]); add(entries[b]); if (c < entries.size()) { add(seps[(s + 2) % seps.size()]); add(entries[c]); } std::vector <Entry> want; Reader r{t}; { const bool in = r.list(want, false); CHECK(in, "machinery: not in the grammar: " + textOf(t)); } check(R, t, want);
			if (c == entries.size()) for (size_t p = 0 ; p <= t.size() ; ++p) for (size_t ins : {14, 15, 16}) { std::vector <Tok> u = t; u.insert(u.begin() + p, A[ins]); std::vector <Entry> w2; Reader r2{u}; if (!r2.list(w2, false)) continue; check(R, u, w2); } } });
	}
}
