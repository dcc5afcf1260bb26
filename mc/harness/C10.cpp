// C10: address lists round trip.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

static S u8(const text& t) { return t.getConvertedText(charset("utf-8")); }
static S u8(const word& w) { S o; charset::convert(w.getBuffer(), o, w.getCharset(), charset("utf-8")); return o; }
static S dump(const mailbox& m) { return "{" + u8(m.getName()) + "|" + u8(m.getEmail().getLocalName()) + "@" + u8(m.getEmail().getDomainName()) + "}"; }
static S dump(const address& a) {
	if (a.isGroup()) { auto& g = dynamic_cast <const mailboxGroup&>(a); S o = "(" + u8(g.getName()) + ":"; for (size_t i = 0 ; i < g.getMailboxCount() ; ++i) o += dump(*g.getMailboxAt(i)); return o + ")"; }
	return dump(dynamic_cast <const mailbox&>(a));
}
static S dump(const addressList& l) { S o; for (size_t i = 0 ; i < l.getAddressCount() ; ++i) o += "[" + str(i) + "]" + dump(*l.getAddressAt(i)); return o; }
static text T(const S& s, bool forceU8 = false) {
	text t; bool ascii = true; for (unsigned char c : s) ascii = ascii && c < 128;
	if (!s.empty()) t.appendWord(make_shared <word>(s, charset(ascii && !forceU8 ? "us-ascii" : "utf-8")));
	return t;
}
static shared_ptr <mailbox> MB(const text& n, const S& e) { return make_shared <mailbox>(n, emailAddress(e)); }
static const size_t INF = lineLengthLimits::infinite;

static S genAt(const component& c, size_t max, size_t pos) {
	S o; utility::outputStreamStringAdapter os(o); generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max); size_t np = 0; c.generate(ctx, os, pos, &np); return o;
}
static void roundTrip(mc::Run& R, const addressList& l, size_t max, size_t pos) {
	const S want = dump(l), g = genAt(l, max, pos); R.transition(); R.outcome(g);
	addressList p; p.parse(g); R.equal(dump(p), want, "list read from " + R.show(g));
	p.parse(g); R.equal(dump(p), want, "list read twice from " + R.show(g));
	bool boxes = true; for (size_t i = 0 ; i < l.getAddressCount() ; ++i) boxes = boxes && !l.getAddressAt(i)->isGroup();
	mailboxList q; q.parse(g);
	if (boxes) {
		R.equal(q.getMailboxCount(), l.getAddressCount(), "mailboxes read from " + R.show(g));
		for (size_t i = 0 ; i < q.getMailboxCount() ; ++i) R.equal(dump(*q.getMailboxAt(i)), dump(*l.getAddressAt(i)), "mailbox " + str(i));
		const S g2 = genAt(q, max, pos); addressList p2; p2.parse(g2); R.equal(dump(p2), want, "mailbox list read from " + R.show(g2));
	}
	// through a header field
	auto f = headerFieldFactory::getInstance()->create("To"); f->setValue(l);
	S h; utility::outputStreamStringAdapter os(h); generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max); f->generate(ctx, os);
	header hd; hd.parse(h + "\r\nX-B: two\r\n\r\n"); R.equal(hd.getFieldCount(), size_t(2), "fields in " + R.show(h));
	R.equal(dump(*hd.To()->getValue <addressList>()), want, "field read from " + R.show(h));
}
static void inContexts(mc::Run& R, const text& name, const std::vector <size_t>& lens) {
	for (size_t max : lens) for (size_t pos : {size_t(0), size_t(13)}) {
		auto m = MB(name, "a@b.c");
		{ const S g = genAt(*m, max, pos); mailbox p; p.parse(g); R.equal(dump(p), dump(*m), "mailbox read from " + R.show(g)); R.outcome(g); }
		{ addressList l; l.appendAddress(MB(text(), "x@y.z")); l.appendAddress(m); l.appendAddress(MB(name, "d@e.f")); l.appendAddress(MB(T("Last"), "l@m.n")); roundTrip(R, l, max, pos); }
		{ addressList l; auto g = make_shared <mailboxGroup>(T("Friends")); g->appendMailbox(m); g->appendMailbox(MB(text(), "x@y.z")); l.appendAddress(g); l.appendAddress(MB(name, "l@m.n")); roundTrip(R, l, max, pos); }
		if (!u8(name).empty() && u8(name).find_first_not_of(" \t") != S::npos) {
			addressList l; auto g = make_shared <mailboxGroup>(name); g->appendMailbox(MB(text(), "x@y.z")); g->appendMailbox(MB(T("Last, one"), "l@m.n")); l.appendAddress(MB(T("F"), "f@f.f")); l.appendAddress(g); l.appendAddress(make_shared <mailboxGroup>(name)); l.appendAddress(MB(text(), "z@z.z"));
			roundTrip(R, l, max, pos);
		}
	}
}
static S quoted(const S& s) { S o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C10";
	R.rule = "every display name up to 3 (thorough 4) pieces over an alphabet of the characters which have a meaning in address lists, for a mailbox, a mailbox in a group and a group, at several line lengths and start columns; "
		"names of every length up to 90 (thorough 140) characters with every line length; every list of up to 4 (thorough 5) entries over 8 kinds; every conforming source text over separators, comments, folds and quoting";
	R.assumptions = {"names are compared by their UTF-8 text", "group names and mailboxes are not empty"};
	const bool TH = R.thorough;
	const std::vector <S> A = {"a", " ", ",", "\"", "\\", "(", ")", "<", ">", ";", ":", "@", ".", "\xc3\xa9", "=?", "?="};
	const std::vector <size_t> L = {INF, 78, 24};
	mc::strings(A, 1, TH ? 4 : 3, [&](const S& s) {
		R.testL([&] { return "name|" + s; }, [&] { inContexts(R, T(s), s.size() < 3 || TH ? L : std::vector <size_t>{INF, 24}); if (s.size() < 3) inContexts(R, T(s, true), L); });
	});
	// two words
	for (auto& a : A) for (auto& b : A) for (int sp = 0 ; sp < 3 ; ++sp) for (int cs = 0 ; cs < 3 ; ++cs) R.testL([&] { return "words|" + a + "+" + b + str(sp) + str(cs); }, [&] {
		text t; const S x = "x" + a + (sp == 1 ? " " : ""), y = (sp == 2 ? " " : "") + b + "y";
		t.appendWord(make_shared <word>(x, charset(cs == 1 || a == A[13] ? "utf-8" : "us-ascii"))); t.appendWord(make_shared <word>(y, charset(cs == 2 || b == A[13] ? "utf-8" : "us-ascii")));
		inContexts(R, t, L);
	});
	// lengths
	for (size_t n = 1 ; n <= (TH ? 140u : 90u) ; ++n) for (int k = 0 ; k < 6 ; ++k) R.testL([&] { return "length|" + str(n) + "*" + str(k); }, [&] {
		S s; for (size_t i = 0 ; i < n ; ++i) s += k == 0 ? "a" : k == 1 ? (i % 5 == 4 && i + 1 < n ? " " : "b") : k == 2 ? (i % 7 == 3 ? "," : "c") : k == 3 ? (i % 6 == 3 ? "\"" : "d") : k == 4 ? (i % 9 == 5 ? "\xc3\xa9" : i % 9 == 7 && i + 1 < n ? " " : "e") : (i % 5 == 3 && i + 1 < n ? " " : i % 5 == 1 ? ";" : "f");
		for (size_t max = 20 ; max <= 90 ; max += (TH ? 1 : 7)) for (size_t pos : {4, 40}) {
			addressList l; l.appendAddress(MB(T(s), "john.doe@example.com")); l.appendAddress(MB(text(), "q@r.s")); roundTrip(R, l, max, pos);
			addressList m; auto g = make_shared <mailboxGroup>(T(s)); g->appendMailbox(MB(T(s), "john.doe@example.com")); m.appendAddress(g); m.appendAddress(MB(T(s), "z@z.z")); roundTrip(R, m, max, pos);
		}
	});
	// lists
	auto entry = [](size_t k) -> shared_ptr <address> {
		shared_ptr <mailboxGroup> g;
		switch (k) {
			case 0: return MB(text(), "a@b.c"); case 1: return MB(T("Doe, J"), "j@d.e"); case 2: return MB(T("\xc3\xa9t\xc3\xa9; x: (y"), "\xc3\xa9@\xc3\xa9.fr"); case 3: return MB(T("Q\"R\\"), "\"a b,c\"@x.y");
			case 4: return make_shared <mailboxGroup>(T("Empty"));
			case 5: g = make_shared <mailboxGroup>(T("One: x")); g->appendMailbox(MB(T("in;side"), "i@j.k")); return g;
			case 6: g = make_shared <mailboxGroup>(T("Two")); g->appendMailbox(MB(text(), "i@j.k")); g->appendMailbox(MB(T("\xc3\xa0, "), "l@m.n")); return g;
			default: g = make_shared <mailboxGroup>(T("\xc3\xa9 3, <g>")); g->appendMailbox(MB(T("a"), "a@a.a")); g->appendMailbox(MB(text(), "b@b.b")); g->appendMailbox(MB(T("c)"), "c@c.c")); return g;
		}
	};
	for (size_t n = 0 ; n <= (TH ? 5u : 4u) ; ++n) mc::tuples(8, n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { return "list|" + mc::show(ix); }, [&] { addressList l; for (size_t k : ix) l.appendAddress(entry(k)); for (size_t max : {INF, size_t(78), size_t(30)}) roundTrip(R, l, max, 0); });
	});
	// sources written by others
	const std::vector <S> names = {"", "John", "John Doe", quoted("Doe, J"), quoted("a:b;c"), quoted("q\"r\\s"), quoted("(x"), quoted("x)"), quoted("a<b"), quoted("a>b"), quoted("a@b"), "=?utf-8?Q?=C3=A9=2C_x?=", "=?utf-8?B?w6ksIHg=?="};
	const std::vector <S> plain = {"", "John", "John Doe", "Doe, J", "a:b;c", "q\"r\\s", "(x", "x)", "a<b", "a>b", "a@b", "\xc3\xa9, x", "\xc3\xa9, x"};
	const std::vector <S> sep = {",", ", ", " ,", ",\r\n ", "\r\n ,\t"}, com = {"", " (c)", " (c, d)", " (a; b: \\) \" <)", "\r\n (n (e, s) t)"};
	for (size_t a = 0 ; a < names.size() ; ++a) for (size_t b = 0 ; b < names.size() ; ++b) R.testL([&] { return "source|" + names[a] + "/" + names[b]; }, [&] {
		auto mk = [&](size_t i, const S& e, const S& c) { return names[i].empty() ? e + c : names[i] + " <" + e + ">" + c; };
		auto ex = [&](size_t i, const S& l, const S& d) { return "{" + plain[i] + "|" + l + "@" + d + "}"; };
		for (auto& s : sep) for (auto& c : com) for (int form = 0 ; form < 4 ; ++form) {
			S src, want; const S m1 = mk(a, "u@v.w", c), m2 = mk(b, "x@y.z", ""), e1 = ex(a, "u", "v.w"), e2 = ex(b, "x", "y.z");
			switch (form) {
				case 0: src = m1 + s + m2; want = "[0]" + e1 + "[1]" + e2; break;
				case 1: if (names[a].empty()) continue; src = names[a] + ": " + m2 + c + s + "k@l.m" + ";" + s + m2; want = "[0](" + plain[a] + ":" + e2 + "{|k@l.m})[1]" + e2; break;
				case 2: src = m1 + s + "G:;" + s + m2 + s + "H: " + m1 + ";"; want = "[0]" + e1 + "[1](G:)[2]" + e2 + "[3](H:" + e1 + ")"; break;
				case 3: src = m2 + s + "last@x.y" + c; want = "[0]" + e2 + "[1]{|last@x.y}"; break;
			}
			R.transition(); R.outcome(src);
			addressList p; p.parse(src); R.equal(dump(p), want, "addresses of " + R.show(src));
		}
	});
}
