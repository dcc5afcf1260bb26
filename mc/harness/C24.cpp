// C24: IMAP mailbox names, arguments, sequence sets and search criteria.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPCommand.hpp"
#include "vmime/net/imap/IMAPParser.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace vmime; using namespace vmime::net; using namespace vmime::net::imap;
typedef net::folder::path Path;
typedef net::folder::path::component Comp;
typedef std::vector <unsigned> Cps;

static S utf8(unsigned c) {
	S s;
	if (c < 0x80) s += char(c);
	else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
	else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
	return s;
}
static S utf8(const Cps& v) { S s; for (unsigned c : v) s += utf8(c); return s; }

// strict reader of a mailbox name component (RFC 3501, 5.1.3); throws on anything not allowed
static Cps readName(const S& s, char sep) {
	static const S B = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
	Cps out; bool afterShift = false;
	for (size_t i = 0 ; i < s.size() ; ) {
		const unsigned char c = s[i];
		CHECK(c >= 0x20 && c < 0x7f, "name '" + esc(s) + "' is not printable ASCII");
		if (c != '&') { CHECK(c != (unsigned char) sep, "raw separator in component '" + esc(s) + "'"); out.push_back(c); ++i; afterShift = false; continue; }
		const size_t e = s.find('-', i); CHECK(e != S::npos, "unterminated shift in '" + esc(s) + "'");
		const S b = s.substr(i + 1, e - i - 1); i = e + 1;
		if (b.empty()) { out.push_back('&'); afterShift = false; continue; }
		CHECK(!afterShift, "superfluous shift in '" + esc(s) + "'"); afterShift = true;
		std::vector <unsigned> u; unsigned acc = 0; int n = 0;
		for (char x : b) { const size_t v = B.find(x); CHECK(v != S::npos, "bad base64 in '" + esc(s) + "'"); acc = acc << 6 | unsigned(v); n += 6; if (n >= 16) { n -= 16; u.push_back(acc >> n & 0xffff); acc &= (1u << n) - 1; } }
		CHECK(n < 6 && acc == 0, "bad padding in '" + esc(s) + "'");
		for (size_t k = 0 ; k < u.size() ; ++k) {
			unsigned c = u[k];
			if (c >= 0xd800 && c < 0xdc00) { CHECK(k + 1 < u.size() && u[k + 1] >= 0xdc00 && u[k + 1] < 0xe000, "lone surrogate in '" + esc(s) + "'"); c = 0x10000 + ((c - 0xd800) << 10) + (u[++k] - 0xdc00); }
			else CHECK(c < 0xdc00 || c > 0xdfff, "lone surrogate in '" + esc(s) + "'");
			CHECK(c < 0x20 || c >= 0x7f || c == (unsigned char) sep, "printable character encoded in '" + esc(s) + "'");
			out.push_back(c);
		}
	}
	return out;
}

// a literal "+-" in a mailbox name is read as "+" (pinned by the test suite): see known_findings.txt
static S plusMinus(S s) { for (size_t p ; (p = s.find("+-")) != S::npos ; ) s.erase(p + 1, 1); return s; }
static S collapse(const S& s) { S o; for (size_t i = 0 ; i < s.size() ; ++i) { o += s[i]; if (s[i] == '+' && i + 1 < s.size() && s[i + 1] == '-') ++i; } return o; }
static void sameName(const Comp& got, const S& want, const S& how, bool strict) {
	const S g = got.getConvertedText(charset("utf-8"));
	if (!strict && want.find("+-") != S::npos && g == collapse(want)) return;
	CHECK(g == want, how + ": '" + esc(want) + "' became '" + esc(g) + "'");
}
static void checkName(const Cps& v, char sep, bool strict = false) {
	const S name = utf8(v);
	const S enc = IMAPUtils::toModifiedUTF7(sep, Comp(name, charset("utf-8")));
	const Cps back = readName(enc, sep);
	CHECK(back == v, "name '" + esc(name) + "' encoded as '" + esc(enc) + "' which means '" + esc(utf8(back)) + "'");
	sameName(IMAPUtils::fromModifiedUTF7(enc), name, "decoding '" + enc + "'", strict);
	const Path p = IMAPUtils::stringToPath(sep, IMAPUtils::pathToString(sep, Path(Comp(name, charset("utf-8")))));
	CHECK(p.getSize() == 1, "one component became " + str(p.getSize()) + " through '" + esc(enc) + "'");
	sameName(p[0], name, "path", strict);
}

// ---- reader of IMAP arguments: atoms, quoted strings, lists; everything else is an error
struct Arg { char kind = 'a'; S v; std::vector <Arg> l; };
static S show(const Arg& a) { if (a.kind != 'l') return a.kind + S(":") + esc(a.v); S s = "("; for (auto& x : a.l) s += show(x) + " "; return s + ")"; }
static Arg readArg(const S& s, size_t& p) {
	Arg a; CHECK(p < s.size(), "missing argument in " + esc(s));
	if (s[p] == '"') {
		a.kind = 'q'; ++p;
		for ( ; ; ) {
			CHECK(p < s.size(), "unterminated quoted string in " + esc(s));
			char c = s[p++];
			if (c == '"') break;
			if (c == '\\') { CHECK(p < s.size() && (s[p] == '"' || s[p] == '\\'), "bad escape in " + esc(s)); c = s[p++]; }
			CHECK(c != '\r' && c != '\n' && c != 0, "line break or NUL in quoted string " + esc(s));
			a.v += c;
		}
		return a;
	}
	if (s[p] == '(') {
		a.kind = 'l'; ++p;
		while (p < s.size() && s[p] != ')') { a.l.push_back(readArg(s, p)); if (p < s.size() && s[p] == ' ') { ++p; CHECK(p < s.size() && s[p] != ')', "space before ) in " + esc(s)); } else CHECK(p < s.size() && s[p] == ')', "junk in list " + esc(s)); }
		CHECK(p < s.size(), "unterminated list in " + esc(s)); ++p;
		return a;
	}
	while (p < s.size() && s[p] != ' ' && s[p] != ')') {
		const unsigned char c = s[p];
		CHECK(c > 0x20 && c < 0x7f && S("({\"\\%*").find(c) == S::npos, "character " + esc(S(1, c)) + " in an atom of " + esc(s));
		a.v += c; ++p;
	}
	CHECK(!a.v.empty(), "empty argument in " + esc(s));
	return a;
}
// words[0..] are literal; returns the arguments after the fixed prefix
static std::vector <Arg> readCommand(const S& s, const S& prefix) {
	CHECK(s.compare(0, prefix.size(), prefix) == 0, "command '" + esc(s) + "' does not start with '" + prefix + "'");
	std::vector <Arg> v; size_t p = prefix.size();
	while (p < s.size()) { CHECK(s[p] == ' ', "junk in command '" + esc(s) + "'"); ++p; v.push_back(readArg(s, p)); }
	return v;
}
static void wantStrings(const S& cmd, const S& prefix, const std::vector <S>& args) {
	const auto v = readCommand(cmd, prefix);
	CHECK(v.size() == args.size(), "command '" + esc(cmd) + "' has " + str(v.size()) + " arguments");
	for (size_t i = 0 ; i < v.size() ; ++i) CHECK(v[i].kind != 'l' && v[i].v == args[i], "argument " + str(i) + " of '" + esc(cmd) + "' is '" + esc(v[i].v) + "' instead of '" + esc(args[i]) + "'");
}
static bool representable(const S& s) { for (char c : s) if (c == '\r' || c == '\n' || c == 0) return false; return true; }
template <typename F> static void guarded(bool ok, F f) {
	bool refused = false; S text;
	try { text = f(); } catch (vmime::exception&) { refused = true; }
	CHECK(!ok || !refused, "representable argument refused");
	CHECK(ok || refused, "argument that cannot be a quoted string was sent: " + esc(text));
}

static std::set <unsigned long long> readSeq(const S& s, unsigned long long top) {
	std::set <unsigned long long> r; size_t p = 0;
	for (;;) {
		size_t e = s.find(',', p); if (e == S::npos) e = s.size();
		const S it = s.substr(p, e - p); const size_t c = it.find(':');
		auto num = [&](const S& x) -> unsigned long long { if (x == "*") return top; CHECK(!x.empty() && x.find_first_not_of("0123456789") == S::npos && x[0] != '0' && x.size() < 12, "bad sequence set '" + s + "'"); return std::stoull(x); };
		const unsigned long long a = num(it.substr(0, c)), b = c == S::npos ? a : num(it.substr(c + 1));
		if (c == S::npos || b != top || a <= top) for (unsigned long long x = std::min(a, b) ; x <= std::max(a, b) && r.size() < 1000 ; ++x) r.insert(x);
		if (e == s.size()) break;
		p = e + 1;
	}
	return r;
}

// ---- search keys: an abstract key, built through the factory and read back from the text
struct Key { S op; S s; S h; std::set <unsigned long long> set; std::vector <Key> sub; };
static S show(const Key& k) { S r = k.op; if (!k.h.empty()) r += "<" + k.h + ">"; r += "'" + k.s + "'"; for (auto x : k.set) r += "," + str(x); if (!k.sub.empty()) { r += "["; for (auto& x : k.sub) r += show(x) + ";"; r += "]"; } return r; }
typedef IMAPSearchTokenPtr Tok;
struct Leaf { Key k; std::function <Tok()> mk; };

static Key readKey(const S& s, size_t& p);
static Key readArgKey(const Arg& a) { size_t q = 0; CHECK(a.kind == 'a', "key expected"); Key k = readKey(a.v, q); return k; }
static const std::set <S> kNone = {"ALL", "ANSWERED", "DELETED", "DRAFT", "FLAGGED", "NEW", "OLD", "RECENT", "SEEN", "UNANSWERED", "UNDELETED", "UNDRAFT", "UNFLAGGED", "UNSEEN"};
static const std::set <S> kStr = {"BCC", "BODY", "CC", "FROM", "SUBJECT", "TEXT", "TO"};
static const std::set <S> kDate = {"BEFORE", "ON", "SENTBEFORE", "SENTON", "SENTSINCE", "SINCE"};
static Key readKey(const S& s, size_t& p) {
	Key k; CHECK(p < s.size(), "missing search key in " + esc(s));
	auto sp = [&] { CHECK(p < s.size() && s[p] == ' ', "space expected at " + str(p) + " in " + esc(s)); ++p; };
	if (s[p] == '(') {
		++p; k.op = "AND";
		for (;;) { k.sub.push_back(readKey(s, p)); CHECK(p < s.size(), "unterminated ( in " + esc(s)); if (s[p] == ')') { ++p; break; } sp(); }
		return k.sub.size() == 1 ? Key(k.sub[0]) : k;     // (x) is x
	}
	size_t e = p; while (e < s.size() && s[e] != ' ' && s[e] != ')' && s[e] != '(') ++e;
	const S w = s.substr(p, e - p); p = e;
	CHECK(!w.empty(), "bad search key in " + esc(s));
	if (isdigit((unsigned char) w[0]) || w[0] == '*') { k.op = "SEQ"; k.set = readSeq(w, 9); return k; }
	k.op = w;
	if (kNone.count(w)) return k;
	if (kStr.count(w)) { sp(); Arg a = readArg(s, p); CHECK(a.kind != 'l', "string expected in " + esc(s)); k.s = a.v; return k; }
	if (w == "HEADER") { sp(); Arg a = readArg(s, p); sp(); Arg b = readArg(s, p); CHECK(a.kind != 'l' && b.kind != 'l', "string expected in " + esc(s)); k.h = a.v; k.s = b.v; return k; }
	if (kDate.count(w)) {
		sp(); size_t q = p; while (q < s.size() && s[q] != ' ' && s[q] != ')') ++q;
		const S d = s.substr(p, q - p); p = q; const size_t a = d.find('-');
		CHECK((a == 1 || a == 2) && d.size() == a + 9 && d[a + 4] == '-' && d.find_first_not_of("0123456789", a + 5) == S::npos, "bad date '" + d + "'");
		k.s = str(std::stoi(d)) + d.substr(a); return k;
	}
	if (w == "LARGER" || w == "SMALLER") { sp(); size_t q = p; while (q < s.size() && isdigit((unsigned char) s[q])) ++q; CHECK(q > p, "number expected in " + esc(s)); k.s = s.substr(p, q - p); p = q; return k; }
	if (w == "KEYWORD" || w == "UNKEYWORD") { sp(); Arg a = readArg(s, p); CHECK(a.kind == 'a', "keyword atom expected in " + esc(s)); k.s = a.v; return k; }
	if (w == "UID") { sp(); size_t q = p; while (q < s.size() && s[q] != ' ' && s[q] != ')') ++q; k.set = readSeq(s.substr(p, q - p), 9); p = q; return k; }
	if (w == "NOT") { sp(); k.sub.push_back(readKey(s, p)); return k; }
	if (w == "OR") { sp(); k.sub.push_back(readKey(s, p)); sp(); k.sub.push_back(readKey(s, p)); return k; }
	CHECK(false, "unknown search key '" + esc(w) + "' in " + esc(s)); return k;
}
static void checkSearch(const std::vector <Leaf>& ls) {
	std::vector <Tok> t; for (auto& l : ls) t.push_back(l.mk());
	IMAPSearchAttributes at; for (auto& x : t) at.add(x);
	const auto keys = at.generate(); CHECK(keys.size() == ls.size(), "number of keys");
	for (int uid = 0 ; uid < 2 ; ++uid) for (int cs = 0 ; cs < 2 ; ++cs) {
		charset u8("UTF-8"); const S cmd = (uid ? IMAPCommand::UIDSEARCH(keys, cs ? &u8 : NULL) : IMAPCommand::SEARCH(keys, cs ? &u8 : NULL))->getText();
		const S pre = S(uid ? "UID SEARCH" : "SEARCH") + (cs ? " CHARSET utf-8" : "");
		S low = cmd; if (cs) { size_t q = low.find("UTF-8"); if (q != S::npos) low.replace(q, 5, "utf-8"); }
		CHECK(low.compare(0, pre.size(), pre) == 0, "command '" + esc(cmd) + "'");
		size_t p = pre.size(), i = 0;
		while (p < low.size()) {
			CHECK(low[p] == ' ', "junk in '" + esc(cmd) + "'"); ++p;
			Key k = readKey(low, p);
			CHECK(i < ls.size() && show(k) == show(ls[i].k), "key " + str(i) + " of '" + esc(cmd) + "' means " + esc(show(k)) + (i < ls.size() ? " instead of " + esc(show(ls[i].k)) : S()));
			++i;
		}
		CHECK(i == ls.size(), "only " + str(i) + " keys in '" + esc(cmd) + "'");
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C24";
	R.rule = "every mailbox name over an alphabet of special, control and non-ASCII characters up to a length for every usable separator, every Unicode scalar value, every path of up to 3 such components: the encoded form is read by an independent strict RFC 3501 reader and decoded again; every argument string up to a length through every command, read by an independent argument parser; every search key tree up to a depth, read by an independent search key parser and compared with the intended tree; every combination of flags and of boundary dates";
	R.assumptions = {"the hierarchy separator is a printable character that is not alphanumeric and none of & - , +", "path components are not empty", "8-bit characters are tolerated in quoted strings"};
	const bool T = R.thorough;
	const S seps = "/.\\:^|~_!$ \"%";

	// ---- names
	const Cps A = {'a', 'Z', '&', '+', '-', ',', '/', '.', '\\', '"', ' ', '~', '%', '*', 1, 0x7f, 0xe9, 0x20ac, 0xffff, 0x1f600, 0x10ffff};
	for (size_t n = 0 ; n <= 3 ; ++n) mc::tuples(A.size(), n, [&](const std::vector <size_t>& ix) {
		Cps v; for (size_t i : ix) v.push_back(A[i]);
		if (v.empty()) return;
		R.testL([&] { return "name|" + utf8(v); }, [&] { for (char sep : n == 3 && !T ? S("/.\\") : seps) checkName(v, sep); R.outcome(v.size()); });
	});
	const Cps B = {'a', '&', '+', '-', '/', 0xe9, 0x1f600};
	for (size_t n = 4 ; n <= (T ? 7u : 5u) ; ++n) mc::tuples(B.size(), n, [&](const std::vector <size_t>& ix) {
		Cps v; for (size_t i : ix) v.push_back(B[i]);
		R.testL([&] { return "lname|" + utf8(v); }, [&] { checkName(v, '/'); checkName(v, '.'); R.outcome(v.size()); });
	});
	// every scalar value, in two different positions of the base64 group
	for (unsigned b = 0 ; b < 0x110000 ; b += 32) R.testL([&] { return "scalars|" + str(b); }, [&] {
		for (int form = 0 ; form < (T ? 3 : 1) ; ++form) {
			Cps v; if (form == 1) v.push_back(0xe9);
			for (unsigned c = b ; c < b + 32 ; ++c) { if (c == 0 || (c >= 0xd800 && c < 0xe000)) continue; if (c == '-' && !v.empty() && v.back() == '+') continue; v.push_back(c); if (form == 2) v.push_back('x'); }
			if (!v.empty()) checkName(v, '/');
		}
		R.outcome(b < 0x80 ? 0 : b < 0x10000 ? 1 : 2);
	});
	for (const S& s : {S("a+-b"), S("+-")}) R.test("plusminus|" + s, [&] { Cps v; for (char c : s) v.push_back(c); checkName(v, '/', true); });
	// names the server may send that contain no shift are taken literally
	mc::strings(mc::chars("a+-~\\,.& /\""), 0, T ? 5 : 4, [&](const S& s) {
		if (s.find('&') != S::npos) return;
		R.testL([&] { return "literal|" + s; }, [&] { sameName(IMAPUtils::fromModifiedUTF7(s), s, "literal name", false); R.outcome(s.size()); });
	});
	// arbitrary input: any outcome but a crash, and the separator structure is respected
	mc::strings(mc::chars("&-A/,+i\xe9"), 0, T ? 7 : 5, [&](const S& s) {
		R.testL([&] { return "total|" + s; }, [&] {
			size_t n = 0; try { n = IMAPUtils::stringToPath('/', s).getSize(); } catch (vmime::exception&) { R.outcome(-1); return; }
			size_t w = 0, b = 0; for (size_t i = 0 ; i < s.size() ; ++i) if (s[i] == '/') { ++w; b = i + 1; } if (b < s.size()) ++w;
			CHECK(n == w, str(w) + " levels read as " + str(n)); R.outcome(n);
		});
	});
	// paths
	const std::vector <Cps> cs = {{'a'}, {'&'}, {'/'}, {'.'}, {0xe9}, {'a', '.', 'b'}, {0xe9, '/', 0xe9}, {0x1f600, 'a'}, {' '}, {'I', 'N', 'B', 'O', 'X'}, {'~', '\\'}};
	for (size_t n = 0 ; n <= (T ? 4u : 3u) ; ++n) mc::tuples(cs.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { return "path|" + mc::show(ix); }, [&] {
			Path p; for (size_t i : ix) p /= Comp(utf8(cs[i]), charset("utf-8"));
			for (char sep : S("/.\\")) {
				const S s = IMAPUtils::pathToString(sep, p);
				size_t levels = ix.empty() ? 0 : 1; for (char c : s) if (c == sep) ++levels;
				CHECK(levels == ix.size(), "path of " + str(ix.size()) + " levels written '" + s + "'");
				const Path q = IMAPUtils::stringToPath(sep, s);
				CHECK(q.getSize() == ix.size(), "path '" + s + "' read with " + str(q.getSize()) + " levels");
				for (size_t i = 0 ; i < ix.size() ; ++i) sameName(q[i], utf8(cs[ix[i]]), "component of '" + s + "'", true);
				CHECK(q == p || !ix.empty(), "path equality");
				if (!p.isEmpty()) { CHECK(q == p, "the path read from '" + s + "' is not equal to the path it was made from"); CHECK(p.getParent() == q.getParent() && p.getParent().isDirectParentOf(q), "parent"); }
			}
			R.outcome(ix.size());
		});
	});

	// ---- arguments
	const S al = S("aN(){ %*\"\\]\x1f\x7f\xe9&", 15) + S("\r\n", 2) + S("\0", 1) + "<";
	mc::strings(mc::chars(al), 0, T ? 4 : 3, [&](const S& s) {
		R.testL([&] { return "quote|" + s; }, [&] {
			guarded(representable(s), [&] {
				const S q = IMAPUtils::quoteString(s); size_t p = 0; const Arg a = readArg(q, p);
				CHECK(p == q.size() && a.kind != 'l' && a.v == s, "'" + esc(s) + "' quoted as '" + esc(q) + "'"); return q;
			});
			R.outcome(representable(s));
		});
	});
	std::vector <S> args; mc::strings(mc::chars("a \"\\({*\r\n\xe9"), 0, 2, [&](const S& s) { args.push_back(s); });
	args.push_back("x\r\nA9 DELETE INBOX"); args.push_back("NIL"); args.push_back("a]b"); args.push_back("\\Seen"); args.push_back(S("a\0b", 3)); args.push_back("{3}"); args.push_back("%");
	for (auto& s : args) for (auto& t : {S("b"), S(""), S("b c"), S("\"")}) R.testL([&] { return "command|" + s + "|" + t; }, [&] {
		const bool ok = representable(s); const std::vector <S> prm = {"X", "Y"};
		const messageSet m = messageSet::byNumber(3), u = messageSet::byUID("5");
		guarded(ok, [&] { const S c = IMAPCommand::LOGIN(s, t)->getText(); wantStrings(c, "LOGIN", {s, t}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::LOGIN(t, s)->getText(); wantStrings(c, "LOGIN", {t, s}); return c; });
		guarded(ok, [&] { auto c = IMAPCommand::LOGIN(s, t); CHECK(c->getTraceText().find(t.size() < 3 ? S("\x01") : t) == S::npos, "secret in trace"); return c->getText(); });
		guarded(ok, [&] { const S c = IMAPCommand::LIST(t, s)->getText(); wantStrings(c, "LIST", {t, s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::LIST(s, t)->getText(); wantStrings(c, "LIST", {s, t}); return c; });
		for (bool ro : {true, false}) guarded(ok, [&] { const S c = IMAPCommand::SELECT(ro, s, {})->getText(); wantStrings(c, ro ? "EXAMINE" : "SELECT", {s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::SELECT(false, s, {"CONDSTORE"})->getText(); const auto v = readCommand(c, "SELECT"); CHECK(v.size() == 2 && v[0].kind != 'l' && v[0].v == s && v[1].kind == 'l' && v[1].l.size() == 1 && v[1].l[0].v == "CONDSTORE", "SELECT with a parameter: " + esc(c)); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::STATUS(s, prm)->getText(); const auto v = readCommand(c, "STATUS"); CHECK(v.size() == 2 && v[0].v == s && v[0].kind != 'l' && show(v[1]) == "(a:X a:Y )", "STATUS: " + esc(c)); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::CREATE(s, {})->getText(); wantStrings(c, "CREATE", {s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::CREATE(s, prm)->getText(); const auto v = readCommand(c, "CREATE"); CHECK(v.size() == 2 && v[0].v == s && show(v[1]) == "(a:X a:Y )", "CREATE: " + esc(c)); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::DELETE(s)->getText(); wantStrings(c, "DELETE", {s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::RENAME(s, t)->getText(); wantStrings(c, "RENAME", {s, t}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::RENAME(t, s)->getText(); wantStrings(c, "RENAME", {t, s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::COPY(m, s)->getText(); wantStrings(c, "COPY", {"3", s}); return c; });
		guarded(ok, [&] { const S c = IMAPCommand::COPY(u, s)->getText(); wantStrings(c, "UID COPY", {"5", s}); return c; });
		guarded(ok, [&] {
			datetime d(2024, 2, 3, 4, 5, 6, 90); const S c = IMAPCommand::APPEND(s, {"\\Seen", "\\Draft"}, &d, 123)->getText();
			const S tail = " (\\Seen \\Draft) \" 3-Feb-2024 04:05:06 +0130\" {123}"; CHECK(c.size() > tail.size() && c.substr(c.size() - tail.size()) == tail, "APPEND: " + esc(c));
			wantStrings(c.substr(0, c.size() - tail.size()), "APPEND", {s}); return c;
		});
		guarded(ok, [&] { const S c = IMAPCommand::APPEND(s, {}, NULL, 0)->getText(); CHECK(c.size() > 4 && c.substr(c.size() - 4) == " {0}", "APPEND: " + esc(c)); wantStrings(c.substr(0, c.size() - 4), "APPEND", {s}); return c; });
		R.outcome(ok);
	});

	// ---- flags: what is sent is what is read back
	for (int f = 0 ; f < 64 ; ++f) R.testL([&] { return "flags|" + str(f); }, [&] {
		int flags = 0; static const int all[] = {net::message::FLAG_SEEN, net::message::FLAG_REPLIED, net::message::FLAG_MARKED, net::message::FLAG_DELETED, net::message::FLAG_DRAFT, net::message::FLAG_RECENT};
		for (int i = 0 ; i < 6 ; ++i) if (f >> i & 1) flags |= all[i];
		const auto list = IMAPUtils::messageFlagList(flags); std::set <S> uniq(list.begin(), list.end()); CHECK(uniq.size() == list.size(), "duplicate flag");
		S text = "("; for (size_t i = 0 ; i < list.size() ; ++i) text += (i ? " " : "") + list[i]; text += ")";
		IMAPParser parser; IMAPParser::flag_list fl; S line = text + "\r\n"; size_t pos = 0;
		CHECK(fl.parseImpl(parser, line, &pos), "flag list " + text + " not readable");
		CHECK(IMAPUtils::messageFlagsFromFlags(fl) == (flags & ~net::message::FLAG_RECENT), "flags " + str(flags) + " sent as " + text + " read as " + str(IMAPUtils::messageFlagsFromFlags(fl)));
		for (int mode : {net::message::FLAG_MODE_ADD, net::message::FLAG_MODE_REMOVE, net::message::FLAG_MODE_SET}) for (int uid = 0 ; uid < 2 ; ++uid) {
			const S c = IMAPCommand::STORE(uid ? messageSet::byUID("7") : messageSet::byNumber(2, 4), mode, list)->getText();
			const S want = S(uid ? "UID STORE 7 " : "STORE 2:4 ") + (mode == net::message::FLAG_MODE_ADD ? "+FLAGS " : mode == net::message::FLAG_MODE_REMOVE ? "-FLAGS " : "FLAGS ") + text;
			// one space between arguments (RFC 3501); a second one is not part of the grammar
			CHECK(c == want, "STORE command '" + c + "' instead of '" + want + "'");
		}
		R.outcome(list.size());
	});
	// ---- dates
	for (int y : {1, 99, 970, 1970, 2024, 9999}) for (int mo = 1 ; mo <= 12 ; ++mo) for (int d : {1, 9, 10, 31}) for (int z : {0, 5, 60, -5, -60, 330, -570, 840, -720}) R.testL([&] { return "date|" + str(y) + "-" + str(mo) + "-" + str(d) + " " + str(z); }, [&] {
		for (int h : {0, 9, 10, 23}) {
			const datetime t(y, mo, d, h, (h * 7) % 60, (h * 11) % 60, z);
			static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
			char b[80]; snprintf(b, 80, "\"%2d-%s-%04d %02d:%02d:%02d %c%02d%02d\"", d, M[mo - 1], y, h, (h * 7) % 60, (h * 11) % 60, z < 0 ? '-' : '+', abs(z) / 60, abs(z) % 60);
			CHECK(IMAPUtils::dateTime(t) == b, "date-time " + IMAPUtils::dateTime(t) + " instead of " + b);
			snprintf(b, 80, "SINCE%d-%s-%04d", d, M[mo - 1], y); size_t p = 0; const S s = "SINCE " + IMAPUtils::searchDate(t); Key k = readKey(s, p);
			CHECK(p == s.size() && k.op + k.s == b, "search date " + s);
		}
		R.outcome(z);
	});

	// ---- search keys
	typedef IMAPSearchTokenFactory F;
	std::vector <Leaf> leaves, core;
	auto key = [](const S& op, const S& s = "", const S& h = "") { Key k; k.op = op; k.s = s; k.h = h; return k; };
	#define NONE(x) leaves.push_back({key(#x), [] { return F::x(); }});
	NONE(ANSWERED) NONE(DELETED) NONE(DRAFT) NONE(FLAGGED) NONE(NEW) NONE(OLD) NONE(RECENT) NONE(SEEN) NONE(UNANSWERED) NONE(UNDELETED) NONE(UNDRAFT) NONE(UNFLAGGED) NONE(UNSEEN)
	const std::vector <S> vals = {"", "a", "a b", "a\"b", "a\\", "\"", "x\" OR ALL \"", ")", "(", "\xc3\xa9", "{3}"};
	for (auto& v : vals) {
		#define STR(x) leaves.push_back({key(#x, v), [v] { return F::x(v); }});
		STR(BCC) STR(BODY) STR(CC) STR(FROM) STR(SUBJECT) STR(TEXT) STR(TO)
		leaves.push_back({key("HEADER", v, "X-Foo"), [v] { return F::HEADER("X-Foo", v); }});
	}
	leaves.push_back({key("HEADER", "", "X-Foo"), [] { return F::HEADER("X-Foo"); }});
	leaves.push_back({key("HEADER", "v", "X Foo"), [] { return F::HEADER("X Foo", "v"); }});
	for (const datetime& d : {datetime(2024, 2, 29, 23, 59, 59, 0), datetime(1999, 12, 31, 0, 0, 0, 600), datetime(2024, 1, 1, 0, 0, 0, -600)}) {
		static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
		const S t = str(d.getDay()) + "-" + M[d.getMonth() - 1] + "-" + str(d.getYear());
		#define DAT(x) leaves.push_back({key(#x, t), [d] { return F::x(d); }});
		DAT(BEFORE) DAT(ON) DAT(SENTBEFORE) DAT(SENTON) DAT(SENTSINCE) DAT(SINCE)
	}
	for (uint32_t n : {0u, 1u, 65536u, 2147483647u, 2147483648u, 4294967295u}) { leaves.push_back({key("LARGER", str(n)), [n] { return F::LARGER(n); }}); leaves.push_back({key("SMALLER", str(n)), [n] { return F::SMALLER(n); }}); }
	const std::vector <std::pair <net::message::Flags, S> > kw = {{net::message::FLAG_SEEN, "Seen"}, {net::message::FLAG_REPLIED, "Answered"}, {net::message::FLAG_MARKED, "Flagged"}, {net::message::FLAG_DELETED, "Deleted"}, {net::message::FLAG_DRAFT, "Draft"}};
	for (auto& f : kw) { const auto fl = f.first; leaves.push_back({key("KEYWORD", f.second), [fl] { return F::KEYWORD(fl); }}); leaves.push_back({key("UNKEYWORD", f.second), [fl] { return F::UNKEYWORD(fl); }}); }
	for (unsigned mask = 1 ; mask < 32 ; ++mask) for (int open = 0 ; open < 2 ; ++open) {
		std::vector <size_t> v; std::vector <net::message::uid> u; Key k; for (unsigned i = 0 ; i < 5 ; ++i) if (mask >> i & 1) { v.push_back(i + 1); u.push_back(net::message::uid((unsigned long) (i + 1))); k.set.insert(i + 1); }
		if (open) for (int i = 7 ; i <= 9 ; ++i) k.set.insert(i);
		auto nset = [v, open] { messageSet s = messageSet::byNumber(v); if (open) s.addRange(numberMessageRange(7, size_t(-1))); return s; };
		auto uset = [u, open] { messageSet s = messageSet::byUID(u); if (open) s.addRange(UIDMessageRange(net::message::uid("7"), net::message::uid("*"))); return s; };
		k.op = "SEQ"; leaves.push_back({k, [nset] { return F::MESSAGESET(nset()); }}); leaves.push_back({k, [nset] { const messageSet s = nset(); return F::MESSAGESET(s); }});
		k.op = "UID"; leaves.push_back({k, [uset] { return F::UID(uset()); }}); leaves.push_back({k, [uset] { const messageSet s = uset(); return F::UID(s); }});
	}
	for (size_t i = 0 ; i < leaves.size() ; ++i) R.testL([&] { return "key|" + show(leaves[i].k) + "#" + str(i); }, [&] { checkSearch({leaves[i]}); checkSearch({leaves[i], leaves[0]}); checkSearch({leaves[0], leaves[i], leaves[i]}); R.outcome(leaves[i].k.op); });
	// one key of each kind, combined
	std::set <S> ops; for (auto& l : leaves) if (ops.insert(l.k.op + (l.k.s == "a\"b" ? "!" : "")).second && (!kNone.count(l.k.op) || l.k.op == "SEEN" || l.k.op == "NEW") && (l.k.op.size() < 6 || l.k.op == "HEADER")) core.push_back(l);
	auto mkNot = [](const Leaf& a) { Leaf l; l.k.op = "NOT"; l.k.sub = {a.k}; l.mk = [a] { return F::NOT(a.mk()); }; return l; };
	auto mkOr = [](const Leaf& a, const Leaf& b) { Leaf l; l.k.op = "OR"; l.k.sub = {a.k, b.k}; l.mk = [a, b] { return F::OR(a.mk(), b.mk()); }; return l; };
	auto mkAnd = [](const std::vector <Leaf>& v) { Leaf l; if (v.size() == 1) l.k = v[0].k; else { l.k.op = "AND"; for (auto& x : v) l.k.sub.push_back(x.k); } l.mk = [v] { std::vector <Tok> t; for (auto& x : v) t.push_back(x.mk()); return F::AND(std::move(t)); }; return l; };
	std::vector <Leaf> d1;
	for (auto& a : core) { d1.push_back(mkNot(a)); d1.push_back(mkAnd({a})); }
	for (auto& a : core) for (auto& b : core) { d1.push_back(mkOr(a, b)); d1.push_back(mkAnd({a, b})); }
	for (size_t i = 0 ; i < d1.size() ; ++i) R.testL([&] { return "tree1|" + show(d1[i].k) + "#" + str(i); }, [&] { checkSearch({d1[i]}); checkSearch({d1[i], core[0]}); checkSearch({core[0], d1[i]}); R.outcome(d1[i].k.op); });
	std::vector <Leaf> few; for (auto& l : core) if (few.size() < (T ? 12u : 5u)) few.push_back(l);
	std::vector <Leaf> e1(few); for (auto& a : few) { e1.push_back(mkNot(a)); for (auto& b : few) { e1.push_back(mkOr(a, b)); e1.push_back(mkAnd({a, b})); } }
	for (size_t i = 0 ; i < e1.size() ; ++i) {
		R.testL([&] { return "tree2|NOT#" + str(i); }, [&] { checkSearch({mkNot(e1[i])}); checkSearch({mkNot(mkNot(e1[i]))}); R.outcome(0); });
		for (size_t j = 0 ; j < e1.size() ; ++j) R.testL([&] { return "tree2|" + str(i) + "," + str(j); }, [&] { checkSearch({mkOr(e1[i], e1[j])}); checkSearch({mkAnd({e1[i], e1[j]})}); checkSearch({mkAnd({e1[i], e1[j], e1[i]}), e1[j]}); R.outcome(1); });
	}
	for (auto& v : args) R.testL([&] { return "keyarg|" + v; }, [&] {
		for (int i = 0 ; i < 9 ; ++i) guarded(representable(v), [&] {
			const Tok t = i == 0 ? F::BCC(v) : i == 1 ? F::BODY(v) : i == 2 ? F::CC(v) : i == 3 ? F::FROM(v) : i == 4 ? F::SUBJECT(v) : i == 5 ? F::TEXT(v) : i == 6 ? F::TO(v) : i == 7 ? F::HEADER("X", v) : F::NOT(F::HEADER("Y", v));
			IMAPSearchAttributes at; at.add(t); const S c = IMAPCommand::SEARCH(at.generate(), NULL)->getText(); size_t p = 7; Key k = readKey(c, p);
			if (i == 8) { CHECK(k.sub.size() == 1, "NOT: " + esc(c)); k = Key(k.sub[0]); }
			CHECK(p == c.size() && k.s == v, "search value '" + esc(v) + "' sent as '" + esc(c) + "'"); return c;
		});
		R.outcome(representable(v));
	});
	R.test("keys|empty and", [&] { bool thrown = false; try { F::AND(std::vector <Tok>()); } catch (exceptions::invalid_argument&) { thrown = true; } CHECK(thrown, "AND of nothing accepted"); });
}
