// A model IMAP4rev1 server (RFC 3501, with UIDPLUS, CHILDREN, SPECIAL-USE, CONDSTORE on demand),
// strict about everything it is sent. Several connections share one world of mailboxes; changes
// made elsewhere are queued per connection and announced, in order, where the RFC allows it.
#pragma once
#include "netsim.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/store.hpp"
#include "vmime/net/folder.hpp"
#include "vmime/net/message.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/fetchAttributes.hpp"
#include "vmime/net/folderAttributes.hpp"
#include "vmime/net/folderStatus.hpp"
#include <climits>
namespace imapsim {

// a MIME part, known by construction
struct MPart {
	std::vector <S> hdr;                     // header lines, without CRLF
	S type, sub; std::vector <std::pair <S, S> > params; S enc = "7bit", body, disp, dispName, id; std::vector <MPart> kids; S boundary; S envelope; // envelope: of an embedded message
	S header() const { S s; for (auto& h : hdr) s += h + "\r\n"; return s + "\r\n"; }
	S text() const { if (kids.empty()) return body; S s; for (auto& k : kids) s += "--" + boundary + "\r\n" + k.header() + k.text() + "\r\n"; return s + "--" + boundary + "--\r\n"; }
	S all() const { return header() + text(); }
};
inline size_t lines(const S& s) { return std::count(s.begin(), s.end(), '\n'); }

struct Msg {
	unsigned uid; std::set <S> flags; S data, idate; unsigned long long modseq = 1;
	std::shared_ptr <MPart> root;            // when the structure is known
	S envelope;                              // rendered ENVELOPE, when known
	S header() const { const size_t p = data.find("\r\n\r\n"); return p == S::npos ? data : data.substr(0, p + 4); }
	S text() const { const size_t p = data.find("\r\n\r\n"); return p == S::npos ? S() : data.substr(p + 4); }
};
typedef std::shared_ptr <Msg> PMsg;
struct Mbox { std::vector <PMsg> m; unsigned uidNext = 1, validity = 1; bool select = true, inferiors = true; S special; bool readOnly = false; };

struct Conn;
struct World {
	std::map <S, Mbox> box; char sep = '/'; std::vector <Conn*> conns;
	std::vector <S> caps = {"UIDPLUS", "CHILDREN"}; bool condstore = false;
	int strings = 0;                         // 0 quoted when possible, 1 literals
	int order = 0;                           // 1: fetch items in reverse order; 2: every item in a response of its own
	bool noUpdates = false; bool lastStatus = false; bool refuseSelect = false; bool badUid = false;
	std::vector <S> log; S protoError; unsigned long long modseq = 10; bool appendUid = true, literalPlus = false, eatEmpty = false; bool sepNil = false; S greeting = "* OK ready"; bool extraFlags = false; bool lowercase = false;
	std::function <bool(Conn&, const S& tag, const S& cmd)> hook;   // returns true when it has answered
	bool flushFirst = false;                                         // announce pending changes before the answer instead of after
	S failDone;                                                      // the next completion is this instead (once)
	std::function <void(Conn&)> beforeDone;                          // called before each tagged completion
	Mbox* find(const S& n);
	S canon(const S& n) const { S u; for (size_t i = 0 ; i < 5 && i < n.size() ; ++i) u += char(toupper(n[i])); if (u == "INBOX" && (n.size() == 5 || n[5] == sep)) return "INBOX" + n.substr(5); return n; }
	PMsg add(const S& b, const S& data, const std::set <S>& flags = {});
	void expunge(const S& b, unsigned uid, Conn* by = NULL);
	void setFlags(const S& b, unsigned uid, const std::set <S>& f, Conn* by = NULL);
	void err(const S& s) { if (protoError.empty()) protoError = s; }
	bool children(const S& n) const { for (auto& x : box) if (x.first.compare(0, n.size() + 1, n + sep) == 0) return true; return false; }
};

struct Event { char k; PMsg m; };            // 'E' expunged, 'N' new, 'F' flags

struct Conn : public LineServer {
	World* w; bool auth = false, examine = false, tls = false; S sel; std::vector <PMsg> view; size_t exists = 0; std::vector <Event> pend; int n = 0;
	std::map <Msg*, std::set <S> > told; std::vector <PMsg> toldLog;        // flags last announced on this connection; announcements
	void tell(const PMsg& m) { told[m.get()] = m->flags; toldLog.push_back(m); }
	// APPEND in progress
	S apTag, apBox; std::set <S> apFlags; S apDate; size_t apLen = 0; bool apOn = false; S litTag, litLine; 
	Conn(World* x) : w(x) { w->conns.push_back(this); }
	~Conn() { drop(); }
	void drop() { auto i = std::find(w->conns.begin(), w->conns.end(), this); if (i != w->conns.end()) w->conns.erase(i); }
	void gone() { drop(); sel.clear(); closed = true; }
	void connected() { reply(w->greeting); }

	// ---- rendering
	S string(const S& s) const {
		bool q = w->strings == 0 && s.size() < 200; for (char c : s) if (c == '\r' || c == '\n' || c == 0 || (c & 0x80)) q = false;
		if (!q) return "{" + str(s.size()) + "}\r\n" + s;
		S o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\"";
	}
	S flagList(const std::set <S>& f) const { S s; for (auto& x : f) s += (s.empty() ? "" : " ") + x; return "(" + s + ")"; }
	S paramList(const std::vector <std::pair <S, S> >& p) const { if (p.empty()) return "NIL"; S s; for (auto& x : p) s += (s.empty() ? "" : " ") + string(x.first) + " " + string(x.second); return "(" + s + ")"; }
	S structure(const MPart& p, bool ext) const {
		S o = "(", d = p.disp.empty() ? S("NIL") : "(" + string(p.disp) + " " + (p.dispName.empty() ? S("NIL") : "(" + string("FILENAME") + " " + string(p.dispName) + ")") + ")";
		if (!p.kids.empty()) {
			for (auto& k : p.kids) o += structure(k, ext);
			o += " " + string(p.sub); if (ext) o += " " + paramList({{"BOUNDARY", p.boundary}}) + " " + d + " NIL NIL";
			return o + ")";
		}
		o += "\"" + p.type + "\" " + string(p.sub) + " " + paramList(p.params) + " " + (p.id.empty() ? "NIL" : string(p.id)) + " NIL " + string(p.enc) + " " + str(p.body.size());
		if (p.type == "message") o += " " + p.envelope + " (\"TEXT\" " + string("plain") + " NIL NIL NIL " + string("7bit") + " 3 1" + (ext ? " NIL NIL NIL NIL" : "") + ") " + str(lines(p.body));
		else if (p.type == "text") o += " " + str(lines(p.body));
		if (ext) o += " NIL " + d + " NIL NIL";
		return o + ")";
	}

	// ---- commands
	struct Tok { const S& s; size_t p; bool bad = false; Tok(const S& x, size_t q) : s(x), p(q) {}
		bool sp() { if (p < s.size() && s[p] == ' ') { ++p; return true; } bad = true; return false; }
		bool end() const { return p >= s.size(); }
		char peek() const { return p < s.size() ? s[p] : 0; }
		S astring() {
			if (peek() == '"') {
				S o; ++p;
				for ( ; ; ) { if (end()) { bad = true; return o; } char c = s[p++]; if (c == '"') return o; if (c == '\\') { if (peek() != '"' && peek() != '\\') { bad = true; return o; } c = s[p++]; } if (c & 0x80) bad = true; o += c; }
			}
			return atom();
		}
		S atom() { S o; while (!end() && s[p] > 0x20 && s[p] < 0x7f && S("(){\"\\%*]").find(s[p]) == S::npos) o += s[p++]; if (o.empty()) bad = true; return o; }
		S atomSet() { S o; while (!end() && s[p] > 0x20 && s[p] < 0x7f && s[p] != '(' && s[p] != ')' && s[p] != '"') o += s[p++]; if (o.empty()) bad = true; return o; }
		std::vector <S> flags() { std::vector <S> v; if (peek() != '(') { bad = true; return v; } ++p; while (!end() && peek() != ')') { S o; if (peek() == '\\') { o = "\\"; ++p; } o += atom(); if (bad) return v; v.push_back(o); if (peek() == ' ') { ++p; if (peek() == ')') bad = true; } } if (end()) bad = true; else ++p; return v; }
	};
	void bad(const S& tag, const S& l) { w->err(l); reply(tag + " BAD command"); }
	void done(const S& tag, const S& text, bool expungeOk = true) { if (w->beforeDone) w->beforeDone(*this); flush(expungeOk); if (!w->failDone.empty()) { const S f = w->failDone; w->failDone.clear(); reply(tag + " " + f); } else reply(tag + " " + text); }
	void flush(bool expungeOk) {
		if (w->noUpdates || sel.empty()) return;
		size_t i = 0; bool grown = false;
		for ( ; i < pend.size() ; ++i) {
			const Event& e = pend[i];
			const size_t at = std::find(view.begin(), view.end(), e.m) - view.begin();
			if (e.k == 'N') { view.push_back(e.m); grown = true; if (i + 1 >= pend.size() || pend[i + 1].k != 'N') reply("* " + str(view.size()) + " EXISTS"); }
			else if (e.k == 'E') { if (!expungeOk) break; if (at < view.size()) { reply("* " + str(at + 1) + " EXPUNGE"); view.erase(view.begin() + at); } }
			else if (at < view.size()) { tell(e.m); reply("* " + str(at + 1) + " FETCH (FLAGS " + flagList(e.m->flags) + ")"); }
		}
		pend.erase(pend.begin(), pend.begin() + i);
		if (grown && pend.empty()) reply("* 0 RECENT");
	}
	// sequence set -> messages of the view
	bool set(const S& s, bool uid, std::vector <size_t>& out) {
		if (s.empty()) return false;
		unsigned long long top = 0; if (uid) { for (auto& m : view) top = std::max <unsigned long long>(top, m->uid); } else top = view.size();
		std::set <size_t> r; size_t p = 0;
		while (p <= s.size()) {
			size_t e = s.find(',', p); if (e == S::npos) e = s.size();
			const S it = s.substr(p, e - p); const size_t c = it.find(':');
			bool ok = true;
			auto num = [&](const S& x) -> unsigned long long { if (x == "*") return top; if (x.empty() || x.size() > 10 || x.find_first_not_of("0123456789") != S::npos || x[0] == '0') { ok = false; return 0; } return std::stoull(x); };
			unsigned long long a = num(it.substr(0, c)), b = c == S::npos ? a : num(it.substr(c + 1));
			if (!ok || a > 0xffffffffULL || b > 0xffffffffULL) return false;
			if (a > b) std::swap(a, b);
			if (!uid && (a < 1 || b > view.size())) return false;
			for (size_t i = 0 ; i < view.size() ; ++i) { const unsigned long long v = uid ? view[i]->uid : i + 1; if (v >= a && v <= b) r.insert(i); }
			p = e + 1;
		}
		out.assign(r.begin(), r.end()); return true;
	}
	bool section(const Msg& m, const S& sec, S& out) const {
		if (sec.empty()) { out = m.data; return true; }
		if (sec == "HEADER") { out = m.header(); return true; }
		if (sec == "TEXT") { out = m.text(); return true; }
		if (sec.compare(0, 13, "HEADER.FIELDS") == 0) {
			const size_t a = sec.find('('), b = sec.find(')'); if (a == S::npos || b != sec.size() - 1 || sec.substr(0, a) != "HEADER.FIELDS ") return false;
			std::set <S> f; S cur; for (char c : sec.substr(a + 1, b - a - 1) + " ") { if (c == ' ') { if (cur.empty()) return false; f.insert(cur); cur.clear(); } else cur += char(toupper(c)); }
			const S h = m.header(); size_t p = 0; bool in = false; out.clear();
			while (p < h.size()) { size_t e = h.find("\r\n", p); const S l = h.substr(p, e + 2 - p); p = e + 2; if (l == "\r\n") break; if (l[0] != ' ' && l[0] != '\t') { S n; for (char c : l.substr(0, l.find(':'))) n += char(toupper(c)); in = f.count(n); } if (in) out += l; }
			out += "\r\n"; return true;
		}
		if (!m.root) return false;
		const MPart* p = m.root.get(); size_t i = 0; bool first = true;
		while (i < sec.size() && isdigit(sec[i])) {
			size_t k = 0; while (i < sec.size() && isdigit(sec[i])) k = k * 10 + (sec[i++] - '0');
			if (p->kids.empty()) { if (k != 1 || !first) return false; } else { if (k < 1 || k > p->kids.size()) return false; p = &p->kids[k - 1]; }
			first = false;
			if (i == sec.size()) { out = p->text(); return true; }
			if (sec[i] != '.') return false;
			++i;
		}
		if (sec.substr(i) == "MIME") { out = p->header(); return true; }
		return false;
	}
	static S up(S s) { for (char& c : s) c = char(toupper(c)); return s; }
	static S low(S s) { for (char& c : s) c = char(tolower(c)); return s; }
	void fetch(const S& tag, const S& l, Tok& t, bool uid) {
		const S sq = t.atomSet(); if (!t.sp()) return bad(tag, l);
		std::vector <size_t> which; if (!set(sq, uid, which)) return bad(tag, l);
		std::vector <S> items; bool paren = t.peek() == '('; if (paren) ++t.p;
		while (!t.end() && t.peek() != ')') {
			S o; int br = 0; while (!t.end() && (br || (t.peek() != ' ' && t.peek() != ')'))) { if (t.peek() == '[') ++br; if (t.peek() == ']') --br; o += t.s[t.p++]; }
			items.push_back(o); if (t.peek() == ' ') { ++t.p; if (!paren || t.peek() == ')') return bad(tag, l); }
		}
		if (paren) { if (t.peek() != ')') return bad(tag, l); ++t.p; }
		if (!t.end() || items.empty()) return bad(tag, l);
		for (size_t i : which) {
			Msg& m = *view[i]; std::vector <S> v; bool seen = false, hasUid = false;
			for (auto& it : items) if (it.compare(0, 5, "BODY[") == 0) seen = true;
			const bool fresh = seen && !examine && m.flags.insert("\\Seen").second; bool hasFlags = false;
			for (auto& it : items) {
				if (it == "FLAGS") hasFlags = true, v.push_back("FLAGS " + flagList(m.flags));
				else if (it == "UID") { v.push_back("UID " + str(m.uid)); hasUid = true; }
				else if (it == "RFC822.SIZE") v.push_back("RFC822.SIZE " + str(m.data.size()));
				else if (it == "MODSEQ" && w->condstore) v.push_back("MODSEQ (" + str(m.modseq) + ")");
				else if (it == "ENVELOPE") v.push_back("ENVELOPE " + (m.envelope.empty() ? S("(NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL)") : m.envelope));
				else if (it == "BODYSTRUCTURE" || it == "BODY") { if (!m.root) return bad(tag, l); v.push_back(it + " " + structure(*m.root, it != "BODY")); }
				else if (it == "RFC822.HEADER") v.push_back("RFC822.HEADER " + string(m.header()));
				else if (it == "INTERNALDATE") v.push_back("INTERNALDATE \"01-Jan-2020 00:00:00 +0000\"");
				else if (it.compare(0, 5, "BODY[") == 0 || it.compare(0, 10, "BODY.PEEK[") == 0) {
					const size_t a = it.find('['), b = it.rfind(']'); if (b == S::npos || b < a) return bad(tag, l);
					S d; if (!section(m, it.substr(a + 1, b - a - 1), d)) return bad(tag, l);
					S part; if (b + 1 < it.size()) {
						unsigned long long off, len; char e1, e2 = 0; if (sscanf(it.c_str() + b + 1, "<%llu.%llu%c%c", &off, &len, &e1, &e2) != 3 || e1 != '>' || len == 0 || off > 0xffffffffULL || len > 0xffffffffULL) return bad(tag, l);
						part = "<" + str(off) + ">"; d = off >= d.size() ? S() : d.substr(off, len);
					}
					v.push_back("BODY[" + it.substr(a + 1, b - a - 1) + "]" + part + " " + string(d));
				}
				else return bad(tag, l);
			}
			if (uid && !hasUid) v.push_back("UID " + str(m.uid));
			if (fresh) announce('F', view[i]);
			if ((fresh || w->extraFlags) && !hasFlags) v.push_back("FLAGS " + flagList(m.flags));
			if (hasFlags || fresh || w->extraFlags) tell(view[i]);
			if (w->order == 1) std::reverse(v.begin(), v.end());
			if (w->order == 2) { for (auto& x : v) reply("* " + str(i + 1) + " FETCH (" + x + (uid && x.compare(0, 4, "UID ") ? " UID " + str(m.uid) : S()) + ")"); }
			else { S s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; reply("* " + str(i + 1) + " FETCH (" + s + ")"); }
		}
		done(tag, "OK fetched", uid);
	}
	void announce(char k, const PMsg& m, bool self = false) { for (Conn* c : w->conns) if ((self || c != this) && c->sel == sel) c->pend.push_back({k, m}); }
	void store(const S& tag, const S& l, Tok& t, bool uid) {
		const S sq = t.atomSet(); if (!t.sp()) return bad(tag, l);
		const S op = t.atom(); if (!t.sp()) return bad(tag, l);
		const auto fl = t.flags(); if (t.bad || !t.end() || (op != "FLAGS" && op != "+FLAGS" && op != "-FLAGS")) return bad(tag, l);
		std::vector <size_t> which; if (!set(sq, uid, which)) return bad(tag, l);
		if (examine) { done(tag, "NO read-only", uid); return; }
		for (size_t i : which) {
			std::set <S> f = view[i]->flags; if (op == "FLAGS") f.clear(); for (auto& x : fl) { if (op == "-FLAGS") f.erase(x); else f.insert(x); }
			if (f != view[i]->flags) { view[i]->flags = f; view[i]->modseq = ++w->modseq; announce('F', view[i]); }
			tell(view[i]); reply("* " + str(i + 1) + " FETCH (FLAGS " + flagList(f) + (uid ? " UID " + str(view[i]->uid) : S()) + ")");
		}
		done(tag, "OK stored", uid);
	}
	void search(const S& tag, const S& l, Tok& t, bool uid) {
		std::vector <bool> in(view.size(), true);
		while (!t.end()) {
			const S k = t.atomSet();
			auto flag = [&](const S& f, bool v) { for (size_t i = 0 ; i < view.size() ; ++i) if (bool(view[i]->flags.count(f)) != v) in[i] = false; };
			if (k == "ALL") ;
			else if (k == "SEEN") flag("\\Seen", true); else if (k == "UNSEEN") flag("\\Seen", false);
			else if (k == "DELETED") flag("\\Deleted", true); else if (k == "UNDELETED") flag("\\Deleted", false);
			else if (k == "FLAGGED") flag("\\Flagged", true);
			else if (k == "UID") { if (!t.sp()) return bad(tag, l); std::vector <size_t> v; if (!set(t.atomSet(), true, v)) return bad(tag, l); for (size_t i = 0 ; i < view.size() ; ++i) if (std::find(v.begin(), v.end(), i) == v.end()) in[i] = false; }
			else if (k == "SUBJECT") { if (!t.sp()) return bad(tag, l); const S x = low(t.astring()); for (size_t i = 0 ; i < view.size() ; ++i) { const S h = low(view[i]->header()); const size_t p = h.find("subject: "); if (p == S::npos || h.substr(p, h.find("\r\n", p) - p).find(x, 9) == S::npos) in[i] = false; } }
			else return bad(tag, l);
			if (t.bad || (!t.end() && !t.sp())) return bad(tag, l);
		}
		S r; for (size_t i = 0 ; i < view.size() ; ++i) if (in[i]) r += " " + str(uid ? size_t(view[i]->uid) : i + 1);
		reply("* SEARCH" + r); done(tag, "OK found", uid);
	}
	S mailbox(const S& n) const { return w->strings == 1 ? string(n) : (n.find_first_of(" \"\\(){%*]&") == S::npos && !n.empty() ? n : string(n)); }
	static bool match(const S& pat, size_t i, const S& s, size_t j, char sep) {
		if (i == pat.size()) return j == s.size();
		if (pat[i] == '*' || pat[i] == '%') { for (size_t k = j ; k <= s.size() ; ++k) { if (match(pat, i + 1, s, k, sep)) return true; if (k < s.size() && pat[i] == '%' && s[k] == sep) return false; } return false; }
		return j < s.size() && pat[i] == s[j] && match(pat, i + 1, s, j + 1, sep);
	}
	S attrs(const S& n) const {
		auto it = w->box.find(n); std::vector <S> v; const bool ch = w->children(n);
		if (it == w->box.end() || !it->second.select) v.push_back("\\Noselect");
		if (it != w->box.end() && !it->second.inferiors) v.push_back("\\Noinferiors");
		else if (std::find(w->caps.begin(), w->caps.end(), "CHILDREN") != w->caps.end()) v.push_back(ch ? "\\HasChildren" : "\\HasNoChildren");
		if (it != w->box.end() && !it->second.special.empty()) v.push_back(it->second.special);
		S s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return "(" + s + ")";
	}
	bool wantRaw() { return apOn; }
	bool takeRaw() {
		if (buf.size() < apLen + 2) return false;
		const S d = buf.substr(0, apLen), e = buf.substr(apLen, 2); buf.erase(0, apLen + 2); apOn = false;
		if (e != "\r\n") { w->err("APPEND literal is not followed by CRLF but by " + esc(e)); reply(apTag + " BAD literal"); return true; }
		Mbox* b = w->find(apBox); if (!b) { done(apTag, "NO [TRYCREATE] no such mailbox"); return true; }
		PMsg m = w->add(apBox, d, apFlags); m->idate = apDate;
		done(apTag, S("OK ") + (w->appendUid ? "[APPENDUID " + str(b->validity) + " " + str(m->uid) + "] " : S()) + "appended");
		return true;
	}
	void line(const S& l0) {
		const S l = l0; w->log.push_back(l); ++n;
		for (char c : l) if (c == '\r' || c == '\n' || c == 0) { bad("*", l); return; }
		const size_t a = l.find(' '); if (a == S::npos || a == 0) { bad("*", l); return; }
		const S tag = l.substr(0, a); for (char c : tag) if (!isalnum(c)) { bad("*", l); return; }
		Tok t(l, a + 1); S cmd = t.atom(); if (t.bad) { bad(tag, l); return; }
		bool uid = false; if (cmd == "UID") { uid = true; if (!t.sp()) { bad(tag, l); return; } cmd = t.atom(); if (cmd != "FETCH" && cmd != "STORE" && cmd != "COPY" && cmd != "SEARCH") { bad(tag, l); return; } }
		if (w->flushFirst) flush(uid || (cmd != "FETCH" && cmd != "STORE" && cmd != "SEARCH" && cmd != "COPY"));
		if (w->hook && w->hook(*this, tag, (uid ? "UID " : "") + cmd)) return;
		auto noArg = [&] { if (!t.end()) { bad(tag, l); return false; } return true; };
		if (cmd == "CAPABILITY") { if (noArg()) { S s = "* CAPABILITY IMAP4rev1"; for (auto& c : w->caps) s += " " + c; if (w->condstore) s += " CONDSTORE"; reply(s); done(tag, "OK done"); } return; }
		if (cmd == "NOOP") { if (noArg()) done(tag, "OK done"); return; }
		if (cmd == "LOGOUT") { if (noArg()) { reply("* BYE bye"); reply(tag + " OK done"); closed = true; sel.clear(); drop(); } return; }
		if (!auth) {
			if (cmd == "LOGIN") { t.sp(); t.astring(); t.sp(); t.astring(); if (t.bad || !t.end()) { bad(tag, l); return; } auth = true; done(tag, "OK done"); return; }
			bad(tag, l); return;
		}
		if (!t.end() && !t.sp()) { bad(tag, l); return; }
		if (cmd == "LIST") {
			const S ref = t.astring(); t.sp(); S pat; if (!t.bad) { if (t.peek() == '"') pat = t.astring(); else while (t.p < t.s.size() && (unsigned char) t.s[t.p] > ' ' && t.s[t.p] != 127 && !strchr("(){\"\\", t.s[t.p])) pat += t.s[t.p++]; if (pat.empty() && t.s[t.p - 1] != '"') t.bad = true; } if (t.bad || !t.end()) { bad(tag, l); return; }
			const S q = w->sepNil ? S("NIL") : S("\"") + (w->sep == '\\' ? "\\" : "") + w->sep + "\"";
			if (pat.empty()) { reply("* LIST (\\Noselect) " + q + " \"\""); done(tag, "OK done"); return; }
			std::set <S> names; for (auto& x : w->box) { names.insert(x.first); for (size_t p = x.first.find(w->sep) ; p != S::npos ; p = x.first.find(w->sep, p + 1)) names.insert(x.first.substr(0, p)); }
			for (auto& x : names) { const S full = ref + pat; if (match(w->canon(full), 0, x, 0, w->sep)) reply("* LIST " + attrs(x) + " " + q + " " + mailbox(x)); }
			done(tag, "OK done"); return;
		}
		if (cmd == "SELECT" || cmd == "EXAMINE") {
			const S nm = w->canon(t.astring()); bool cs = false; if (!t.end()) { t.sp(); auto f = t.flags(); if (f.size() != 1 || f[0] != "CONDSTORE" || !w->condstore) t.bad = true; cs = true; }
			if (t.bad || !t.end()) { bad(tag, l); return; }
			sel.clear(); view.clear(); pend.clear(); Mbox* b = w->find(nm);
			if (!b || !b->select || w->refuseSelect) { reply(tag + " NO no such mailbox"); return; }
			sel = nm; view = b->m; examine = cmd == "EXAMINE" || b->readOnly; (void) cs;
			reply("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)"); reply("* " + str(view.size()) + " EXISTS"); reply("* 0 RECENT");
			size_t un = 0; for (size_t i = 0 ; i < view.size() && !un ; ++i) if (!view[i]->flags.count("\\Seen")) un = i + 1;
			if (un) reply("* OK [UNSEEN " + str(un) + "] first unseen");
			reply("* OK [PERMANENTFLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft \\*)] limited"); reply("* OK [UIDVALIDITY " + str(b->validity) + "] valid"); reply("* OK [UIDNEXT " + str(b->uidNext) + "] next");
			if (w->condstore) reply("* OK [HIGHESTMODSEQ " + str(w->modseq) + "] highest");
			done(tag, S("OK [") + (examine ? "READ-ONLY" : "READ-WRITE") + "] selected"); return;
		}
		if (cmd == "STATUS") {
			const S nm = w->canon(t.astring()); t.sp(); const auto f = t.flags(); if (t.bad || !t.end() || f.empty()) { bad(tag, l); return; }
			Mbox* b = w->find(nm); if (!b || !b->select) { done(tag, "NO no such mailbox"); return; }
			size_t un = 0; for (auto& m : b->m) if (!m->flags.count("\\Seen")) ++un;
			S r; for (auto& x : f) { r += r.empty() ? "" : " "; if (x == "MESSAGES") r += x + " " + str(b->m.size()); else if (x == "UNSEEN") r += x + " " + str(un); else if (x == "RECENT") r += x + " 0"; else if (x == "UIDNEXT") r += x + " " + str(b->uidNext); else if (x == "UIDVALIDITY") r += x + " " + str(b->validity); else if (x == "HIGHESTMODSEQ" && w->condstore) r += x + " " + str(w->modseq); else { bad(tag, l); return; } }
			reply("* STATUS " + mailbox(nm) + " (" + r + ")"); done(tag, "OK done"); return;
		}
		if (cmd == "CREATE") { S nm = t.astring(); S use; if (!t.end()) { t.sp(); if (t.s.compare(t.p, 5, "(USE ") == 0) { t.p += 5; auto f = t.flags(); if (f.size() == 1) use = f[0]; else t.bad = true; if (t.peek() == ')') ++t.p; else t.bad = true; } else t.bad = true; } if (t.bad || !t.end() || nm.empty()) { bad(tag, l); return; } if (nm.back() == w->sep) nm.pop_back(); nm = w->canon(nm); if (w->find(nm)) { done(tag, "NO exists"); return; } w->box[nm].special = use; done(tag, "OK done"); return; }
		if (cmd == "DELETE") { const S nm = w->canon(t.astring()); if (t.bad || !t.end()) { bad(tag, l); return; } if (!w->find(nm) || nm == "INBOX") { done(tag, "NO no such mailbox"); return; } w->box.erase(nm); done(tag, "OK done"); return; }
		if (cmd == "RENAME") {
			const S x = w->canon(t.astring()); t.sp(); const S y = w->canon(t.astring()); if (t.bad || !t.end()) { bad(tag, l); return; }
			const bool ex = w->find(x) || w->children(x); if (!ex || w->find(y) || w->children(y) || y.compare(0, x.size() + 1, x + w->sep) == 0) { done(tag, "NO cannot rename"); return; }
			std::map <S, Mbox> nb; for (auto& k : w->box) { if (k.first == x || k.first.compare(0, x.size() + 1, x + w->sep) == 0) nb[y + k.first.substr(x.size())] = k.second; else nb[k.first] = k.second; }
			w->box = nb; for (Conn* c : w->conns) if (!c->sel.empty() && (c->sel == x || c->sel.compare(0, x.size() + 1, x + w->sep) == 0)) c->sel = y + c->sel.substr(x.size());
			done(tag, "OK done"); return;
		}
		if (cmd == "APPEND") {
			apBox = w->canon(t.astring()); t.sp(); apFlags.clear(); apDate.clear();
			if (t.peek() == '(') { for (auto& f : t.flags()) apFlags.insert(f); t.sp(); }
			if (t.peek() == '"') { apDate = t.astring(); t.sp(); }
			unsigned long long len; char e1, e2 = 0; if (t.bad || sscanf(l.c_str() + t.p, "{%llu%c%c", &len, &e1, &e2) != 2 || e1 != '}') { bad(tag, l); return; }
			if (!w->find(apBox)) { done(tag, "NO [TRYCREATE] no such mailbox"); return; }
			apTag = tag; apLen = len; apOn = true; reply("+ go ahead"); return;
		}
		if (sel.empty()) { bad(tag, l); return; }
		if (cmd == "FETCH") { fetch(tag, l, t, uid); return; }
		if (cmd == "STORE") { store(tag, l, t, uid); return; }
		if (cmd == "SEARCH") { search(tag, l, t, uid); return; }
		if (cmd == "COPY") {
			const S sq = t.atomSet(); t.sp(); const S nm = w->canon(t.astring()); std::vector <size_t> which; if (t.bad || !t.end() || !set(sq, uid, which)) { bad(tag, l); return; }
			Mbox* b = w->find(nm); if (!b) { done(tag, "NO [TRYCREATE] no such mailbox", uid); return; }
			S src, dst; for (size_t i : which) { const PMsg o = view[i]; PMsg m = w->add(nm, o->data, o->flags); m->root = o->root; m->envelope = o->envelope; src += (src.empty() ? "" : ",") + str(o->uid); dst += (dst.empty() ? "" : ",") + str(m->uid); }
			done(tag, S("OK ") + (w->appendUid && !which.empty() ? "[COPYUID " + str(b->validity) + " " + src + " " + dst + "] " : S()) + "copied", uid); return;
		}
		if (cmd == "EXPUNGE" || cmd == "CLOSE") {
			if (!noArg()) return;
			if (examine && cmd == "EXPUNGE") { done(tag, "NO read-only"); return; }
			if (!examine) { std::vector <unsigned> u; for (auto& m : w->find(sel)->m) if (m->flags.count("\\Deleted")) u.push_back(m->uid); const S s = sel; for (unsigned x : u) w->expunge(s, x, NULL); }
			if (cmd == "CLOSE") { sel.clear(); view.clear(); pend.clear(); reply(tag + " OK done"); return; }
			done(tag, "OK done"); return;
		}
		if (cmd == "CHECK") { if (noArg()) done(tag, "OK done"); return; }
		bad(tag, l);
	}
};
inline Mbox* World::find(const S& n) { auto i = box.find(canon(n)); return i == box.end() ? NULL : &i->second; }
inline PMsg World::add(const S& b, const S& data, const std::set <S>& flags) {
	Mbox& x = box[canon(b)]; PMsg m = std::make_shared <Msg>(); m->uid = x.uidNext++; m->data = data; m->flags = flags; m->modseq = ++modseq; x.m.push_back(m);
	for (Conn* c : conns) if (c->sel == canon(b)) c->pend.push_back({'N', m});
	return m;
}
inline void World::expunge(const S& b, unsigned uid, Conn* by) {
	Mbox& x = box[canon(b)]; for (size_t i = 0 ; i < x.m.size() ; ++i) if (x.m[i]->uid == uid) { PMsg m = x.m[i]; x.m.erase(x.m.begin() + i); ++modseq; for (Conn* c : conns) if (c != by && c->sel == canon(b)) c->pend.push_back({'E', m}); return; }
}
inline void World::setFlags(const S& b, unsigned uid, const std::set <S>& f, Conn* by) {
	for (auto& m : box[canon(b)].m) if (m->uid == uid && m->flags != f) { m->flags = f; m->modseq = ++modseq; for (Conn* c : conns) if (c != by && c->sel == canon(b)) c->pend.push_back({'F', m}); }
}

struct Client {
	SimNet net; World w; vmime::shared_ptr <vmime::net::session> ses; vmime::shared_ptr <vmime::net::store> st;
	Client() { w.box["INBOX"]; net.server = [this] { return vmime::make_shared <Conn>(&w); }; }
	~Client() { st.reset(); ses.reset(); net.servers.clear(); }
	void start(vmime::shared_ptr <vmime::net::timeoutHandlerFactory> th = vmime::shared_ptr <vmime::net::timeoutHandlerFactory>()) {
		ses = vmime::net::session::create(); ses->getProperties()["store.imap.auth.username"] = S("joe"); ses->getProperties()["store.imap.auth.password"] = S("secret"); ses->getProperties()["store.imap.options.sasl"] = false;
		st = ses->getStore(vmime::utility::url("imap://sim.example")); st->setSocketFactory(vmime::make_shared <SimSocketFactory>(&net)); if (th) st->setTimeoutHandlerFactory(th);
		st->connect();
	}
	vmime::shared_ptr <vmime::net::folder> folder(const S& path) { vmime::net::folder::path p; S cur; for (char c : path + "/") { if (c == '/') { p /= vmime::net::folder::path::component(cur, vmime::charset("utf-8")); cur.clear(); } else cur += c; } return st->getFolder(p); }
	Conn* conn(const S& sel) { for (Conn* c : w.conns) if (c->sel == sel) return c; return NULL; }
	void ok() { CHECK(!net.deadlock, "the client waits for something the server never sends (last command " + (w.log.empty() ? S() : esc(w.log.back())) + ")"); CHECK(w.protoError.empty(), "protocol error: " + esc(w.protoError)); }
};
inline void wantEq(const S& got, const S& want, const S& what) { if (got == want) return; size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; k = got.size() + want.size() < 600 || k < 40 ? 0 : k - 40; CHECK(false, what + ": got " + (k ? "..." : "") + "'" + esc(got.substr(k), 400) + "' instead of " + (k ? "..." : "") + "'" + esc(want.substr(k), 400) + "'"); }
}
