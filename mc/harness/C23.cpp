// C23: IMAP responses are understood independently of framing.
#include "netsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/imap/IMAPParser.hpp"
#include "vmime/net/imap/IMAPTag.hpp"
using namespace vmime; using namespace vmime::net; using namespace vmime::net::imap;
typedef IMAPParser IP;

// ---- generated responses: what is sent, and what it means
struct P { int k; S v; };                       // 0 text, 1 string, 2 astring, 3 keyword (case does not matter)
struct G { std::vector <P> w; S m; };
static G t(const S& s, const S& m = "") { return {{{0, s}}, m}; }
static G kw(const S& s, const S& m = "") { return {{{3, s}}, m}; }
static S q(const S& v) { return "\"" + esc(v) + "\""; }
static G st(const S& v) { return {{{1, v}}, q(v)}; }
static G as(const S& v) { return {{{2, v}}, q(v)}; }
static G nil() { return kw("NIL", "NIL"); }
static G operator+(G a, const G& b) { a.w.insert(a.w.end(), b.w.begin(), b.w.end()); a.m += b.m; return a; }
static G operator+(G a, const char* s) { a.w.push_back({0, s}); return a; }
static G operator+(const char* s, const G& b) { return t(s) + b; }
static G M(const S& m) { return {{}, m}; }       // meaning only
static bool quotable(const S& v) { for (unsigned char c : v) if (!c || c > 127 || c == '\r' || c == '\n') return false; return true; }
static bool atomish(const S& v) { if (v.empty()) return false; for (unsigned char c : v) if (c <= 32 || c >= 127 || strchr("(){%*\"\\", c)) return false; S u = v; for (char& c : u) c = char(toupper(c)); return u != "NIL"; }
// form of a string: 0 quoted, 1 literal, 2 atom
static S render(const G& g, const std::vector <int>& form, int kcase) {
	S r; size_t i = 0;
	for (const P& p : g.w) {
		if (p.k == 0) { r += p.v; continue; }
		if (p.k == 3) { for (size_t j = 0 ; j < p.v.size() ; ++j) r += kcase == 0 ? p.v[j] : kcase == 1 ? char(tolower(p.v[j])) : char(j & 1 ? tolower(p.v[j]) : toupper(p.v[j])); continue; }
		int f = form.empty() ? 0 : form[i]; ++i;
		if (f == 2 && (p.k != 2 || !atomish(p.v))) f = 0;
		if (f == 0 && !quotable(p.v)) f = 1;
		if (f == 2) r += p.v; else if (f == 1) r += "{" + str(p.v.size()) + "}\r\n" + p.v;
		else { r += '"'; for (char c : p.v) { if (c == '"' || c == '\\') r += '\\'; r += c; } r += '"'; }
	}
	return r;
}

// ---- what the parser understood, in the same words
static S d(const IP::xstring& s) { return s.isNIL ? "NIL" : q(s.value); }
static S d(const IP::address_list& l) { S r = "["; for (auto& a : l.addresses) r += "<" + d(*a->addr_name) + d(*a->addr_adl) + d(*a->addr_mailbox) + d(*a->addr_host) + ">"; return r + "]"; }
static S d(const IP::envelope& e) { return "E(" + d(*e.env_date) + d(*e.env_subject) + d(*e.env_from) + d(*e.env_sender) + d(*e.env_reply_to) + d(*e.env_to) + d(*e.env_cc) + d(*e.env_bcc) + d(*e.env_in_reply_to) + d(*e.env_message_id) + ")"; }
static S d(const IP::body_fld_param& p) { S r = "{"; for (auto& i : p.items) r += q(i->string1->value) + "=" + q(i->string2->value); return r + "}"; }
static S d(const IP::body_fld_dsp& p) { return p.str() ? "D" + q(p.str()->value) + d(*p.body_fld_param()) : S("NIL"); }
static S d(const IP::body_fld_lang& l) { S r = "L"; for (auto& s : l.strings) r += d(*s); return r; }
static S d(const IP::body_extension& x) { if (x.nstring) return d(*x.nstring); if (x.number) return "#" + str(x.number->value); S r = "X("; for (auto& y : x.body_extensions) r += d(*y); return r + ")"; }
template <class T> static S dx(const T& e) { S r; if (e.body_fld_dsp) r += d(*e.body_fld_dsp); if (e.body_fld_lang) r += d(*e.body_fld_lang); for (auto& x : e.body_extensions) r += d(*x); return r; }
static S d(const IP::body_fields& f) { return d(*f.body_fld_param) + d(*f.body_fld_id) + d(*f.body_fld_desc) + d(*f.body_fld_enc) + "#" + str(f.body_fld_octets->value); }
static S d(const IP::xbody& b) {
	S r;
	if (b.body_type_mpart) { auto& m = *b.body_type_mpart; r = "P("; for (auto& p : m.list) r += d(*p); r += q(m.media_subtype->value); if (m.body_ext_mpart) r += ";" + d(*m.body_ext_mpart->body_fld_param) + dx(*m.body_ext_mpart); return r + ")"; }
	auto& o = *b.body_type_1part; 
	if (o.body_type_text) r = "T(" + q(o.body_type_text->media_text->media_subtype->value) + d(*o.body_type_text->body_fields) + "#" + str(o.body_type_text->body_fld_lines->value);
	else if (o.body_type_msg) { auto& m = *o.body_type_msg; r = "M(" + q(m.media_message->media_subtype->value) + d(*m.body_fields) + d(*m.envelope) + d(*m.body) + "#" + str(m.body_fld_lines->value); }
	else { auto& m = *o.body_type_basic; r = "B(" + q(m.media_basic->media_type->value) + q(m.media_basic->media_subtype->value) + d(*m.body_fields); }
	if (o.body_ext_1part) r += ";" + d(*o.body_ext_1part->body_fld_md5) + dx(*o.body_ext_1part);
	return r + ")";
}
static S d(const IP::flag_list& l) { S r = "("; for (auto& f : l.flags) { static const char* N[] = {"?", "answered", "flagged", "deleted", "seen", "draft", "kw", "star"}; r += S(N[f->type]); if (f->type == IP::flag::UNKNOWN) r += ":" + f->name; if (f->flag_keyword) r += ":" + f->flag_keyword->value; r += ","; } return r + ")"; }
static S d(const IP::mailbox_flag_list& l) { S r = "("; for (auto& f : l.flags) { r += str(int(f->type)); if (f->type == IP::mailbox_flag::UNKNOWN) r += ":" + f->name; r += ","; } return r + ")"; }
static S d(const IP::mailbox& m) { return q(m.name); }
static S d(const IP::uid_set& s) { S r = s.uid_range ? str(s.uid_range->uniqueid1->value) + ":" + str(s.uid_range->uniqueid2->value) : str(s.uniqueid->value); return s.next_uid_set ? r + "," + d(*s.next_uid_set) : r; }
static S d(const IP::seq_number& n) { return n.star ? S("*") : str(n.number->value); }
static S d(const IP::sequence_set& s) { S r = s.range ? d(*s.range->first) + ":" + d(*s.range->last) : d(*s.number); return s.nextSet ? r + "," + d(*s.nextSet) : r; }
static S d(const IP::capability_data& c) { S r = "CAP"; for (auto& x : c.capabilities) r += x->auth_type ? " auth:" + x->auth_type->name : x->atom ? " " + x->atom->value : S(" -"); return r; }
static S d(const IP::section_text& s) { static const char* N[] = {"HEADER", "FIELDS", "FIELDS.NOT", "MIME", "TEXT"}; S r = N[s.type]; if (s.header_list) for (auto& n : s.header_list->fld_names) r += q(n->value); return r; }
static S d(const IP::msg_att_item& i) {
	static const char* N[] = {"ENVELOPE", "FLAGS", "DATE", "RFC822", "SIZE", "HEADER", "TEXT", "BODY", "SECTION", "STRUCTURE", "UID", "MODSEQ"}; S r = S(N[i.type]) + " ";
	if (i.section) { if (i.section->section_text1) r += d(*i.section->section_text1); for (auto n : i.section->nz_numbers) r += str(n) + "."; if (i.section->section_text2) r += d(*i.section->section_text2); r += " "; }
	if (i.envelope) r += d(*i.envelope); if (i.flag_list) r += d(*i.flag_list); if (i.number) r += "#" + str(i.number->value); if (i.uniqueid) r += "#" + str(i.uniqueid->value); if (i.nstring) r += d(*i.nstring); if (i.body) r += d(*i.body); if (i.mod_sequence_value) r += "#" + str(i.mod_sequence_value->value);
	return r + "|";
}
static S d(const IP::resp_text_code& c) {
	static const char* N[] = {"HIGHESTMODSEQ", "NOMODSEQ", "MODIFIED", "APPENDUID", "COPYUID", "UIDNOTSTICKY", "ALERT", "PARSE", "CAPABILITY", "PERMANENTFLAGS", "READ-ONLY", "READ-WRITE", "TRYCREATE", "UIDVALIDITY", "UIDNEXT", "UNSEEN", "OTHER"}; S r = S("[") + N[c.type];
	if (c.nz_number) r += " #" + str(c.nz_number->value); if (c.atom) r += " " + c.atom->value; if (c.flag_list) r += " " + d(*c.flag_list); if (c.text) r += " " + q(c.text->value); if (c.mod_sequence_value) r += " #" + str(c.mod_sequence_value->value); if (c.sequence_set) r += " " + d(*c.sequence_set); if (c.capability_data) r += " " + d(*c.capability_data); if (c.uid_set) r += " " + d(*c.uid_set); if (c.uid_set2) r += " " + d(*c.uid_set2);
	return r + "]";
}
static S d(const IP::resp_text& r) { return (r.resp_text_code ? d(*r.resp_text_code) : S()) + q(r.text); }
static S d(const IP::resp_cond_state& s) { static const char* N[] = {"OK", "NO", "BAD"}; return S(N[s.status]) + " " + d(*s.resp_text); }
static S d(const IP::mailbox_data& m) {
	static const char* N[] = {"FLAGS", "LIST", "LSUB", "MAILBOX", "SEARCH", "STATUS", "EXISTS", "RECENT"}; S r = S(N[m.type]) + " ";
	if (m.number) r += "#" + str(m.number->value); if (m.mailbox_flag_list) r += d(*m.mailbox_flag_list); if (m.mailbox_list) r += d(*m.mailbox_list->mailbox_flag_list) + esc(S(1, m.mailbox_list->quoted_char)) + d(*m.mailbox_list->mailbox); if (m.mailbox) r += d(*m.mailbox); if (m.text) r += q(m.text->value); for (auto& n : m.search_nz_number_list) r += "#" + str(n->value);
	if (m.status_att_list) for (auto& v : m.status_att_list->values) { static const char* A[] = {"HIGHESTMODSEQ", "MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN"}; r += S(A[v->type]) + "#" + (v->value_as_number() ? str(v->value_as_number()->value) : str(v->value_as_mod_sequence_value()->value)); }
	return r;
}
static S d(const IP::response& r) {
	S o;
	for (auto& c : r.continue_req_or_response_data) {
		if (c->continue_req) { o += "+" + d(*c->continue_req->resp_text) + "\n"; continue; }
		auto& x = *c->response_data; o += "* ";
		if (x.resp_cond_state) o += d(*x.resp_cond_state); if (x.resp_cond_bye) o += "BYE " + d(*x.resp_cond_bye->resp_text); if (x.mailbox_data) o += d(*x.mailbox_data); if (x.capability_data) o += d(*x.capability_data);
		if (x.message_data) { o += str(x.message_data->number) + (x.message_data->type == IP::message_data::EXPUNGE ? " EXPUNGE" : " FETCH "); if (x.message_data->msg_att) for (auto& i : x.message_data->msg_att->items) o += i ? d(*i) : S("(null)"); }
		o += "\n";
	}
	if (r.response_done) { if (r.response_done->response_tagged) o += r.response_done->response_tagged->tag->tagString + " " + d(*r.response_done->response_tagged->resp_cond_state); else o += "FATAL"; }
	return o;
}

// ---- the wire
struct Starved : public exceptions::socket_exception { Starved() : socket_exception("nothing more") {} };
struct Feed : public net::socket {
	S in; size_t pos = 0; int frag = 0; size_t k = 0; bool tog = false; unsigned st = 0;
	void connect(const string&, const port_t) {} void disconnect() {} bool isConnected() const { return true; } bool waitForRead(const int = 0) { return true; } bool waitForWrite(const int = 0) { return true; }
	size_t receiveRaw(byte_t*, const size_t) { return 0; }
	void receive(string& s) {
		s.clear(); st = 0; if (pos >= in.size()) throw Starved();
		if (frag == 3 && (tog = !tog)) { st = STATUS_WANT_READ; return; }
		size_t n = in.size() - pos; if (frag == 1 || frag == 3) n = 1; else if (frag == 2 && pos < k) n = std::min(n, k - pos); else if (frag == 4) n = std::min(n, k);
		s = in.substr(pos, n); pos += n;
	}
	void send(const string&) {} void send(const char*) {} void sendRaw(const byte_t*, const size_t) {} size_t sendRawNonBlocking(const byte_t*, const size_t n) { return n; }
	size_t getBlockSize() const { return 16384; } unsigned int getStatus() const { return st; } const string getPeerName() const { return "p"; } const string getPeerAddress() const { return "a"; }
	shared_ptr <timeoutHandler> getTimeoutHandler() { return null; } void setTracer(const shared_ptr <tracer>&) {} shared_ptr <tracer> getTracer() { return null; }
};
struct Sink : public IP::literalHandler {
	S got; struct Tg : public target { S* s; Tg(S* x) : target(NULL), s(x) {} void putData(const string& c) { *s += c; } size_t getBytesWritten() const { return s->size(); } };
	shared_ptr <target> targetFor(const IP::component& c, const int) { if (typeid(c) == typeid(IP::msg_att_item)) { const int ty = static_cast <const IP::msg_att_item&>(c).type; if (ty == IP::msg_att_item::BODY_SECTION || ty == IP::msg_att_item::RFC822_TEXT) return make_shared <Tg>(&got); } return null; }
};
struct Lab { shared_ptr <Feed> f = make_shared <Feed>(); shared_ptr <IP> p = make_shared <IP>(); shared_ptr <IMAPTag> tag = make_shared <IMAPTag>(); Lab() { p->setSocket(f); } S T() { return S(*tag); } };
static const S END = "SENTINEL\r\n";

void mc_main(mc::Run& R) {
	initPlatform(); R.property = "C23";
	R.rule = "responses of the IMAP4rev1 grammar (and CONDSTORE, UIDPLUS, SPECIAL-USE), every alternative of every production and combinations of them, sent with each string quoted, literal or as an atom, keywords in three cases, and every way of cutting them into reads of a family (whole, byte by byte, empty reads, each cut position, fixed pieces): what was understood against what the generator meant; every one-byte deletion, insertion and replacement (over 16 bytes) and truncation of a set of responses";
	R.assumptions = {"strings sent quoted are 7-bit without CR, LF and NUL (RFC 3501)", "media types TEXT and MESSAGE are sent quoted, as the grammar requires"};
	const bool TH = R.thorough;

	auto parseOne = [&](const S& wire, int frag, size_t k, bool sink, S* got) {
		Lab l; l.f->in = wire + END; l.f->frag = frag; l.f->k = k; Sink s;
		S r; { std::unique_ptr <IP::response> resp; try { resp.reset(l.p->readResponse(*l.tag, sink ? &s : NULL)); } catch (exception& e) { CHECK(false, "'" + esc(wire, 400) + "' rejected: " + e.what() + " " + (dynamic_cast <exceptions::invalid_response*>(&e) ? dynamic_cast <exceptions::invalid_response&>(e).response() : S())); } r = d(*resp); }
		const S rest = l.p->readLine(); CHECK(rest == END, "after '" + esc(wire, 300) + "' the parser is at '" + esc(rest) + "'");
		if (got) *got = s.got;
		return r;
	};
	auto count = [](const G& g) { size_t n = 0; for (auto& p : g.w) if (p.k == 1 || p.k == 2) ++n; return n; };
	auto both = [&](const S& label, const G& body, bool tail = true, int depth = 0) {
		R.testL([&] { return label; }, [&] {
			Lab l; const S tag = l.T(); G g = tail ? body + t("\r\n" + tag + " ", "\n" + tag + " ") + kw("OK", "OK ") + t(" done\r\n", q("done")) : body;
			const size_t n = count(g);
			auto go = [&](const std::vector <int>& form, int kc, int frag, size_t k) { const S w = render(g, form, kc); const S r = parseOne(w, frag, k, false, NULL); CHECK(r == g.m, "'" + esc(w, 600) + "' understood as\n" + r + "\ninstead of\n" + g.m); R.transition(); };
			for (int kc = 0 ; kc < 3 ; ++kc) go({}, kc, 0, 0);
			for (int f = 1 ; f < 3 ; ++f) for (int frag : {0, 1, 3}) go(std::vector <int>(n, f), 0, frag, 0);
			for (int frag : {1, 3}) go({}, 0, frag, 0);
			if (n > 1) for (size_t i = 0 ; i < n ; ++i) for (int f = 0 ; f < 3 ; ++f) { std::vector <int> form(n, f == 1 ? 0 : 1); form[i] = f; go(form, 1, i & 1, 0); }
			if (depth) { const size_t L = render(g, std::vector <int>(n, 1), 0).size(); for (size_t k = 1 ; k <= L ; ++k) go(std::vector <int>(n, 1), 0, 2, k); for (size_t k = 2 ; k < 40 ; ++k) go(std::vector <int>(n, 1), 0, 4, k); }
			R.outcome(label.substr(0, label.find('|')));
		});
	};
	auto un = [&](const G& g) { return t("* ", "* ") + g; };

	// values of strings
	const std::vector <S> V = {"", "a", "two words", "quo\"te", "back\\slash", "\\\"", "NIL", "nil", "(x) y)", "{3}", "]x[", "a\tb", S("\xc3\xa9t\xc3\xa9"), "line\r\nbreak", "a)\r\n* 7 EXPUNGE\r\na001 OK fake\r\n", "{5}\r\nabcde", "\r\n", "=?utf-8?q?x?=", S(300, 'z'), "*", "%"};
	std::vector <G> SV, NV; for (auto& v : V) SV.push_back(st(v)); NV = SV; NV.push_back(nil());
	const std::vector <G> few = {st("a b"), nil(), st("x\"\\)"), st("l\r\n2")};
	auto lst = [&](const std::vector <G>& l, const char* o = "(", const char* c = ")") { G r = t(o); for (size_t i = 0 ; i < l.size() ; ++i) { if (i) r = r + " "; r = r + l[i]; } return r + c; };

	// ---- mailboxes
	{
		std::vector <S> names = {"INBOX", "inbox", "InBox", "Sent", "INBOX.Sub", "a/b", "in[box]", "inbox[1]", "a]b", "&AOk-", "two words", "quo\"te", "back\\slash", "p%c*", "(x)", "{3}", "nil", "\xc3\xa9", "", "#news.a", "a&b"};
		const std::vector <std::pair <S, S> > fl = {{"\\Noselect", "13,"}, {"\\HasChildren", "0,"}, {"\\HasNoChildren", "1,"}, {"\\All", "2,"}, {"\\Archive", "3,"}, {"\\Drafts", "4,"}, {"\\Flagged", "5,"}, {"\\Junk", "6,"}, {"\\Sent", "7,"}, {"\\Trash", "8,"}, {"\\Important", "9,"}, {"\\Marked", "11,"}, {"\\Noinferiors", "12,"}, {"\\Unmarked", "14,"}, {"\\X-other", "10:\\x-other,"}, {"\\NonExistent", "10:\\nonexistent,"}, {"keyword", "10:keyword,"}};
		auto nm = [&](const S& n) { G g = as(n); S u = n; for (char& c : u) c = char(toupper(c)); if (u == "INBOX") g.m = q("INBOX"); return g; };
		const std::vector <G> dl = {t("\"/\"", "/"), t("\".\"", "."), t("\"\\\\\"", esc("\\")), t("\"\\\"\"", esc("\"")), kw("NIL", esc(S(1, 0)))};
		for (auto& n : names) for (auto& s : {S("LIST"), S("LSUB")}) for (size_t k = 0 ; k < dl.size() ; ++k) both("list|" + esc(n) + s + str(k), un(kw(s, s + " ") + " " + t("()", "()") + " " + dl[k] + " " + nm(n)), true, n.size() > 7 && n.size() < 10);
		for (auto& a : fl) { both("list flags|" + a.first, un(kw("LIST", "LIST ") + " (" + kw(a.first) + M("(" + a.second + ")") + ") \"/\"" + M("/") + " " + as("x"))); for (auto& b : fl) both("list flags|" + a.first + b.first, un(kw("LIST", "LIST ") + " (" + kw(a.first) + " " + kw(b.first) + M("(" + a.second + b.second + ")") + ") \"/\"" + M("/") + " " + as("x"))); }
		const std::vector <S> at = {"MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN", "HIGHESTMODSEQ"}; const std::vector <S> nums = {"1", "4294967295", "17"};
		for (auto& n : names) both("status|" + esc(n), un(kw("STATUS", "STATUS ") + " " + nm(n) + " (" + kw("MESSAGES", "MESSAGES") + t(" 3", "#3") + ")"), true, n == "(x)");
		both("status|none", un(kw("STATUS", "STATUS ") + " " + as("x") + " ()"));
		for (size_t n = 1 ; n <= (TH ? 4u : 3u) ; ++n) mc::tuples(at.size(), n, [&](const std::vector <size_t>& ix) { G l; for (size_t i = 0 ; i < n ; ++i) { const S v = at[ix[i]] == "HIGHESTMODSEQ" ? S("18446744073709551614") : nums[i % 3]; if (i) l = l + " "; l = l + kw(at[ix[i]], at[ix[i]]) + t(" " + v, "#" + v); } both("status items|" + mc::show(ix), un(kw("STATUS", "STATUS ") + " " + as("x") + " (" + l + ")")); });
		for (auto& s : {S("EXISTS"), S("RECENT")}) for (auto& n : {S("0"), S("1"), S("4294967295"), S("0012")}) both("number|" + s + n, un(t(n + " ") + kw(s, s + " #" + (n == "0012" ? "12" : n))), true, 1);
		for (size_t n = 0 ; n < 5 ; ++n) for (int sp = 0 ; sp < 2 ; ++sp) { G l = kw("SEARCH", "SEARCH "); for (size_t i = 0 ; i < n ; ++i) l = l + t(" " + str(i * 1000 + 1), "#" + str(i * 1000 + 1)); if (sp && n) l = l + " "; both("search|" + str(n) + str(sp), un(l), true, 1); }
		for (auto& a : {S("\\Answered"), S("\\Seen"), S("$MDNSent"), S("NonJunk")}) { S lo = a; for (char& c : lo) c = char(tolower(c)); both("flags|" + a, un(kw("FLAGS", "FLAGS ") + " (" + kw(a) + M("(10:" + lo + ",)") + ")")); }
	}
	// ---- capabilities
	{
		const std::vector <std::pair <S, S> > cap = {{"IMAP4rev1", " IMAP4rev1"}, {"AUTH=PLAIN", " auth:plain"}, {"auth=CRAM-MD5", " auth:cram-md5"}, {"LOGINDISABLED", " LOGINDISABLED"}, {"X-A=b", " X-A=b"}, {"AUTHX", " AUTHX"}, {"SPECIAL-USE", " SPECIAL-USE"}, {"UIDPLUS", " UIDPLUS"}};
		for (size_t n = 1 ; n <= (TH ? 4u : 3u) ; ++n) mc::tuples(n < 3 || TH ? cap.size() : 4, n, [&](const std::vector <size_t>& ix) {
			G l = kw("CAPABILITY", "CAP"); for (size_t i : ix) l = l + t(" " + cap[i].first, cap[i].second);
			both("capability|" + mc::show(ix), un(l), true, n == 2); both("capability space|" + mc::show(ix), un(l + " "));
			both("capability code|" + mc::show(ix), un(kw("OK", "OK ") + " [" + M("[CAPABILITY ") + l + M("]") + "] " + t("hi", q("hi"))));
		});
	}
	// ---- states and codes
	std::vector <G> codes; const std::vector <S> setw = {"1", "4294967295", "2:4", "7,9", "1,2:3,9", "5:3"};
	{
		auto c = [&](const G& g) { codes.push_back(M("[") + g + M("]")); };
		for (auto& s : {"ALERT", "PARSE", "READ-ONLY", "READ-WRITE", "TRYCREATE", "NOMODSEQ", "UIDNOTSTICKY"}) c(kw(s, s));
		for (auto& s : {S("UIDVALIDITY"), S("UIDNEXT"), S("UNSEEN")}) for (auto& v : {S("1"), S("4294967295")}) c(kw(s, s) + t(" " + v, " #" + v));
		c(kw("HIGHESTMODSEQ", "HIGHESTMODSEQ") + t(" 18446744073709551614", " #18446744073709551614"));
		for (auto& s : setw) { c(kw("MODIFIED", "MODIFIED") + t(" " + s, " " + s)); c(kw("APPENDUID", "APPENDUID") + t(" 99 " + s, " #99 " + s)); for (auto& u : setw) c(kw("COPYUID", "COPYUID") + t(" 99 " + s + " " + u, " #99 " + s + " " + u)); }
		c(kw("MODIFIED", "MODIFIED") + t(" 3:*", " 3:*"));
		const std::vector <std::pair <S, S> > fl = {{"\\Answered", "answered,"}, {"\\*", "star,"}, {"\\Deleted", "deleted,"}, {"$Forwarded", "kw:$Forwarded,"}, {"\\Seen", "seen,"}, {"\\Draft", "draft,"}, {"\\Flagged", "flagged,"}, {"\\Recent", "?:recent,"}};
		c(kw("PERMANENTFLAGS", "PERMANENTFLAGS ") + " ()" + M("()"));
		for (auto& a : fl) for (auto& b : fl) c(kw("PERMANENTFLAGS", "PERMANENTFLAGS ") + t(" (" + a.first + " " + b.first + ")", "(" + a.second + b.second + ")"));
		c(t("X-CODE", "OTHER X-CODE")); c(t("BADCHARSET (UTF-8)", "OTHER BADCHARSET \"(UTF-8)\"")); c(t("REFERRAL imap://a;b@c/d e", "OTHER REFERRAL \"imap://a;b@c/d e\"")); c(t("X [a", "OTHER X \"[a\""));
		const std::vector <std::pair <S, S> > text = {{"done", "done"}, {"two words", "two words"}, {"x [y] (z) \"q\" {3}", "x [y] (z) \"q\" {3}"}, {"\xc3\xa9", "\xc3\xa9"}, {"=x", "=x"}};
		size_t i = 0;
		for (auto& s : {S("OK"), S("NO"), S("BAD"), S("BYE")}) { for (auto& x : text) both("state|" + s + esc(x.first), un(kw(s, s + " ") + " " + t(x.first, q(x.second))), true, 1); for (auto& cd : codes) { ++i; const bool deep = !(i % 7); both("code|" + s + render(cd, {}, 0), un(kw(s, s + " ") + " [" + cd + "] " + t("text", q("text"))), true, deep); both("code only|" + s + render(cd, {}, 0), un(kw(s, s + " ") + " [" + cd + "]" + M(q("")))); } }
		Lab l; const S tag = l.T();
		for (auto& s : {S("OK"), S("NO"), S("BAD")}) { for (auto& x : text) both("tagged|" + s + esc(x.first), t(tag + " ", tag + " ") + kw(s, s + " ") + " " + t(x.first + "\r\n", q(x.second)), false, 1); for (auto& cd : codes) both("tagged code|" + s + render(cd, {}, 0), t(tag + " ", tag + " ") + kw(s, s + " ") + " [" + cd + "] " + t("t\r\n", q("t")), false); }
		for (auto& x : {S(""), S("YWJj"), S("PDE4OTYu=="), S("idling"), S("text with spaces")}) { both("continue|" + x, t("+ " + x + "\r\n", "+" + q(x) + "\n"), false, 1); both("continue after|" + x, un(t("3 EXISTS\r\n", "EXISTS #3\n")) + t("+ " + x + "\r\n", "+" + q(x) + "\n"), false, 1); }
		both("continue|bare", t("+\r\n", "+\"\"\n"), false);
		// responses to other commands arriving before ours
		for (int n = 0 ; n < 4 ; ++n) R.testL([&] { return "other tags|" + str(n); }, [&] { for (int frag : {0, 1, 3}) { Lab l; const S a = l.T(); ++*l.tag; const S b = l.T(); ++*l.tag; const S c = l.T(); S in; for (auto& x : n == 0 ? std::vector <S>{a, b, c} : n == 1 ? std::vector <S>{c, b, a} : n == 2 ? std::vector <S>{b, a, c} : std::vector <S>{b, c, a}) in += "* " + x.substr(1) + " EXISTS\r\n" + x + " OK " + x + "\r\n"; l.f->in = in + END; l.f->frag = frag; auto g = make_shared <IMAPTag>(); for (auto& x : {a, b, c}) { std::unique_ptr <IP::response> r(l.p->readResponse(*g)); CHECK(d(*r) == "* EXISTS #" + str(atoi(x.c_str() + 1)) + "\n" + x + " OK " + q(x), "answer to " + x + ": " + d(*r)); ++*g; } } R.outcome(n); });
	}
	// ---- greetings
	{
		size_t i = 0;
		for (auto& s : {S("OK"), S("PREAUTH"), S("BYE")}) for (auto& cd : codes) { if (i++ % 5) continue; R.testL([&] { return "greeting|" + s + render(cd, {}, 0); }, [&] { for (int frag : {0, 1, 3}) for (int kc = 0 ; kc < 3 ; ++kc) { Lab l; G g = kw(s, s + " ") + " [" + cd + "] " + t("hello", q("hello")); l.f->in = "* " + render(g, {}, kc) + "\r\n" + END; l.f->frag = frag; std::unique_ptr <IP::greeting> r(l.p->readGreeting()); const S m = r->resp_cond_bye ? "BYE " + d(*r->resp_cond_bye->resp_text) : S(r->resp_cond_auth->condition == IP::resp_cond_auth::OK ? "OK " : "PREAUTH ") + d(*r->resp_cond_auth->resp_text); CHECK(m == g.m, "greeting understood as " + m); CHECK(l.p->readLine() == END, "rest"); } R.outcome(s); }); }
	}
	// ---- messages
	auto fetch = [&](const G& items, const S& num = "12") { return un(t(num + " ", num + " ") + kw("FETCH", "FETCH ") + " (" + items + ")"); };
	auto item = [&](const S& k, const S& name, const G& v) { return kw(k, name + " ") + " " + v + M("|"); };
	auto addr = [&](const G& a, const G& b, const G& c, const G& e) { return M("<") + "(" + a + " " + b + " " + c + " " + e + ")" + M(">"); };
	const G al1 = M("[") + "(" + addr(st("N. \"Q\""), nil(), st("user"), st("host.example")) + ")" + M("]"), al0 = kw("NIL", "[]"), al2 = M("[") + "(" + addr(nil(), nil(), st("grp"), nil()) + addr(st("x\r\ny"), st("@r"), st("a"), st("b")) + " " + addr(nil(), nil(), nil(), nil()) + ")" + M("]");
	auto env = [&](const std::vector <G>& v) { G r = M("E(") + "("; for (size_t i = 0 ; i < 10 ; ++i) { if (i) r = r + " "; r = r + v[i]; } return r + ")" + M(")"); };
	const std::vector <G> envDef = {st("Mon, 7 Feb 1994 21:52:25 -0800"), st("Subject"), al1, al1, al1, al1, al0, al0, nil(), st("<id@x>")};
	for (size_t i = 0 ; i < 10 ; ++i) { const bool a = i >= 2 && i < 8; const std::vector <G> alts = a ? std::vector <G>{al0, al1, al2} : NV; for (size_t k = 0 ; k < alts.size() ; ++k) { auto v = envDef; v[i] = alts[k]; both("envelope|" + str(i) + " " + str(k), fetch(item("ENVELOPE", "ENVELOPE", env(v))), true, TH); } }
	for (size_t a = 0 ; a < NV.size() ; ++a) for (int pos = 0 ; pos < 4 ; ++pos) { std::vector <G> v = {nil(), nil(), st("m"), st("h")}; v[pos] = NV[a]; auto e = envDef; e[2] = M("[") + "(" + addr(v[0], v[1], v[2], v[3]) + ")" + M("]"); both("address|" + str(a) + str(pos), fetch(item("ENVELOPE", "ENVELOPE", env(e)))); }
	for (auto& n : {S("1"), S("4294967295")}) { both("uid|" + n, fetch(kw("UID", "UID ") + t(" " + n, "#" + n + "|"), n), true, 1); both("size|" + n, fetch(kw("RFC822.SIZE", "SIZE ") + t(" " + n, "#" + n + "|")), true, 1); both("modseq|" + n, fetch(kw("MODSEQ", "MODSEQ ") + t(" (" + n + ")", "#" + n + "|")), true, 1); both("expunge|" + n, un(t(n + " ", n + " ") + kw("EXPUNGE", "EXPUNGE")), true, 1); }
	const std::vector <std::pair <S, S> > mf = {{"\\Answered", "answered,"}, {"\\Recent", "?:recent,"}, {"\\Deleted", "deleted,"}, {"$Forwarded", "kw:$Forwarded,"}, {"\\Seen", "seen,"}, {"\\Draft", "draft,"}, {"\\Flagged", "flagged,"}, {"\\X-y", "?:x-y,"}};
	for (size_t n = 0 ; n <= (TH ? 4u : 3u) ; ++n) mc::tuples(n < 3 || TH ? mf.size() : 4, n, [&](const std::vector <size_t>& ix) { S w, m; for (size_t i : ix) { w += (w.empty() ? "" : " ") + mf[i].first; m += mf[i].second; } both("message flags|" + mc::show(ix), fetch(kw("FLAGS", "FLAGS ") + t(" (" + w + ")", "(" + m + ")|"))); });
	for (auto& dt : {"17-Jul-1996 02:44:25 -0700", " 7-Feb-2024 23:59:60 +0000", "01-dec-1999 00:00:00 +1300", "31-May-2001 10:20:30 +0530"}) both(S("date|") + dt, fetch(kw("INTERNALDATE", "DATE |") + t(S(" \"") + dt + "\"")), true, 1);
	const std::vector <G> secs = {M(" ") + t("[]"), t("[TEXT]", "TEXT "), t("[HEADER]", "HEADER "), t("[1]", "1. "), t("[1.2.33]", "1.2.33. "), t("[2.TEXT]", "2.TEXT "), t("[1.2.MIME]", "1.2.MIME "), t("[4.HEADER]", "4.HEADER "), M("FIELDS") + "[" + kw("HEADER.FIELDS") + " (" + as("DATE") + " " + as("X-y") + ")]" + M(" "), M("FIELDS.NOT") + "[" + kw("HEADER.FIELDS.NOT") + " (" + as("To") + ")]" + M(" "), M("3.FIELDS") + "[3." + kw("HEADER.FIELDS") + " (" + as("a") + ")]" + M(" ")};
	for (size_t s = 0 ; s < secs.size() ; ++s) for (size_t v = 0 ; v < NV.size() ; ++v) { both("section|" + str(s) + " " + str(v), fetch(kw("BODY", "SECTION ") + secs[s] + " " + NV[v] + M("|")), true, s < 2); both("section origin|" + str(s) + " " + str(v), fetch(kw("BODY", "SECTION ") + secs[s] + t("<1024>", "#1024") + " " + NV[v] + M("|"))); }
	for (auto& k : {S("RFC822"), S("RFC822.HEADER"), S("RFC822.TEXT")}) for (size_t v = 0 ; v < NV.size() ; ++v) both("rfc822|" + k + str(v), fetch(item(k, k == "RFC822" ? "RFC822" : k.substr(7), NV[v])), true, v == 12);

	// ---- body structures
	auto par = [&](const std::vector <std::pair <G, G> >& l) { if (l.empty()) return kw("NIL", "{}"); G r = M("{") + "("; for (size_t i = 0 ; i < l.size() ; ++i) { if (i) r = r + " "; r = r + l[i].first + M("=") + " " + l[i].second; } return r + ")" + M("}"); };
	auto num = [&](const S& n) { return t(n, "#" + n); };
	const G par0 = par({}), par1 = par({{st("CHARSET"), st("us-ascii")}}), par2 = par({{st("NAME"), st("a b.txt")}, {st("x"), st("\"q\"\r\n")}});
	auto fields = [&](const G& p, const G& id, const G& desc, const G& enc, const S& oct) { return p + " " + id + " " + desc + " " + enc + " " + num(oct); };
	const G F1 = fields(par1, nil(), nil(), st("7BIT"), "1152"), F2 = fields(par0, st("<id@x>"), st("desc \"q\""), st("BASE64"), "0"), F3 = fields(par2, nil(), st("caf\xc3\xa9"), st("8bit"), "4294967295");
	const std::vector <G> FL = {F1, F2, F3};
	const G dsp1 = M("D") + "(" + st("attachment") + " " + par2 + ")", dsp2 = M("D") + "(" + st("INLINE") + " " + par0 + ")";
	const std::vector <G> X = {st("ext"), nil(), num("12"), M("X(") + "(" + num("1") + ")" + M(")"), M("X(") + "(" + st("a") + " " + nil() + " " + num("3") + ")" + M(")"), M("X(") + "(" + M("X(") + "(" + st("n") + " " + num("2") + ")" + M(")") + " " + st("z") + ")" + M(")"), st("loc\r\nx")};
	std::vector <G> exts = {G()};   // what may follow the first extension field
	for (auto& ds : {nil(), dsp1, dsp2}) { exts.push_back(" " + ds); for (auto& la : {M("L") + nil(), M("L") + st("en"), M("L") + "(" + st("en") + " " + st("fr-FR") + ")", M("L") + "(" + st("de") + ")"}) { exts.push_back(" " + ds + " " + la); } }
	for (auto& x : X) exts.push_back(" " + dsp1 + " " + M("L") + nil() + " " + x); for (auto& x : X) for (auto& y : X) exts.push_back(" " + nil() + " " + M("L") + st("en") + " " + x + " " + y);
	std::vector <G> ext1 = {G()}, extm = {G()}; for (auto& e : exts) { ext1.push_back(M(";") + " " + nil() + e); extm.push_back(M(";") + " " + par1 + e); } ext1.push_back(M(";") + " " + st("md5==") + " " + dsp1); extm.push_back(M(";") + " " + par0 + " " + nil());
	auto text = [&](const G& sub, const G& f, const G& x) { return M("T(") + "(\"" + kw("TEXT") + "\" " + sub + " " + f + " " + num("92") + x + ")" + M(")"); };
	auto basic = [&](const G& ty, const G& sub, const G& f, const G& x) { return M("B(") + "(" + ty + " " + sub + " " + f + x + ")" + M(")"); };
	auto mbasic = [&](const G& sub, const G& f, const G& x) { return M("B(") + "(" + M(q("MESSAGE")) + t("\"MESSAGE\"") + " " + sub + " " + f + x + ")" + M(")"); };
	auto msg = [&](const G& f, const G& e, const G& b, const G& x) { return M("M(") + "(\"" + kw("MESSAGE") + "\" " + st("RFC822") + " " + f + " " + e + " " + b + " " + num("7") + x + ")" + M(")"); };
	auto multi = [&](const std::vector <G>& ps, const G& sub, const G& x) { G r = M("P(") + "("; for (auto& p : ps) r = r + p; return r + " " + sub + x + ")" + M(")"); };
	auto bs = [&](const S& label, const G& b, int deep = 0) { both("structure|" + label, fetch(item("BODYSTRUCTURE", "STRUCTURE", b)), true, deep); both("body|" + label, fetch(item("BODY", "BODY", b)), true, 0); };
	const G E1 = env(envDef);
	for (size_t f = 0 ; f < 3 ; ++f) for (size_t x = 0 ; x < ext1.size() ; ++x) { const S L = str(f) + " " + str(x); bs("text " + L, text(st("PLAIN"), FL[f], ext1[x]), x == 5); bs("basic " + L, basic(st("APPLICATION"), st("PDF"), FL[f], ext1[x])); bs("report part " + L, mbasic(st("DELIVERY-STATUS"), FL[f], ext1[x])); bs("external " + L, mbasic(st("EXTERNAL-BODY"), FL[f], ext1[x])); bs("message " + L, msg(FL[f], E1, text(st("html"), F1, G()), ext1[x])); }
	for (size_t x = 0 ; x < extm.size() ; ++x) bs("multi " + str(x), multi({text(st("PLAIN"), F1, ext1[2]), basic(st("image"), st("PNG"), F3, ext1[1])}, st("MIXED"), extm[x]), x == 3);
	for (size_t v = 0 ; v < NV.size() ; ++v) { if (v + 1 < NV.size()) { bs("sub " + str(v), text(SV[v], F1, G())); bs("type " + str(v), basic(V[v] == "" ? st("x") : st("x" + V[v]), SV[v], F2, G())); bs("msub " + str(v), multi({text(st("a"), F1, G())}, SV[v], G())); bs("par " + str(v), basic(st("a"), st("b"), fields(par({{SV[v], st("x")}, {st("y"), SV[v]}}), nil(), nil(), st("7bit"), "1"), G())); bs("enc " + str(v), basic(st("a"), st("b"), fields(par0, nil(), nil(), SV[v], "1"), G())); } bs("id " + str(v), mbasic(st("PARTIAL"), fields(par0, NV[v], nil(), st("7bit"), "1"), G())); bs("desc " + str(v), mbasic(st("PARTIAL"), fields(par0, nil(), NV[v], st("7bit"), "1"), G())); bs("md5 " + str(v), text(st("a"), F1, M(";") + " " + NV[v])); }
	{   // all shapes of nested parts
		std::function <void(int, std::vector <G>&)> shapes = [&](int depth, std::vector <G>& out) {
			out.push_back(text(st("plain"), F1, G())); out.push_back(basic(st("image"), st("png"), F2, ext1[1])); out.push_back(mbasic(st("delivery-status"), F3, G())); if (!depth) return;
			std::vector <G> in; shapes(depth - 1, in);
			for (size_t i = 0 ; i < in.size() ; ++i) { out.push_back(multi({in[i]}, st("mixed"), extm[1])); if (i < 6) out.push_back(msg(F2, E1, in[i], G())); for (size_t j = 0 ; j < std::min <size_t>(in.size(), TH ? 9 : 5) ; ++j) out.push_back(multi({in[i], in[j]}, st("alternative"), G())); }
			if (depth == 1) out.push_back(multi({in[0], in[1], in[2], in[0]}, st("mixed"), extm[1]));
		};
		std::vector <G> all; shapes(2, all); for (size_t i = 0 ; i < all.size() ; ++i) both("shape|" + str(i), fetch(item("BODYSTRUCTURE", "STRUCTURE", all[i])));
		G deep = text(st("plain"), F1, G()); for (int i = 0 ; i < 60 ; ++i) { deep = multi({deep}, st("mixed"), G()); if (i % 15 == 0) both("deep|" + str(i), fetch(item("BODY", "BODY", deep))); }
		G ms = text(st("plain"), F1, G()); for (int i = 0 ; i < 12 ; ++i) { ms = msg(F2, E1, ms, G()); if (i % 3 == 0) both("forwarded|" + str(i), fetch(item("BODY", "BODY", ms))); }
	}
	// ---- several items, several responses
	const std::vector <G> items = {kw("UID", "UID ") + t(" 17", "#17|"), kw("FLAGS", "FLAGS ") + t(" (\\Seen)", "(seen,)|"), item("ENVELOPE", "ENVELOPE", E1), item("BODYSTRUCTURE", "STRUCTURE", multi({text(st("plain"), F1, G()), mbasic(st("partial"), F3, G())}, st("mixed"), G())), kw("BODY", "SECTION ") + secs[1] + " " + st("some\r\ntext)\r\n") + M("|"), kw("RFC822.SIZE", "SIZE ") + t(" 5", "#5|"), kw("MODSEQ", "MODSEQ ") + t(" (77)", "#77|"), kw("INTERNALDATE", "DATE |") + " \"17-Jul-1996 02:44:25 -0700\"", item("RFC822.HEADER", "HEADER", st("A: b\r\n"))};
	for (size_t n = 2 ; n <= (TH ? 4u : 3u) ; ++n) mc::tuples(n < 3 || TH ? items.size() : 6, n, [&](const std::vector <size_t>& ix) { G g; for (size_t i = 0 ; i < n ; ++i) { if (i) g = g + " "; g = g + items[ix[i]]; } both("items|" + mc::show(ix), fetch(g)); });
	const std::vector <G> resps = {un(t("3 EXISTS", "EXISTS #3")), un(t("2 EXPUNGE", "2 EXPUNGE")), fetch(items[1]), fetch(items[2]), fetch(items[4]), un(t("OK [UIDNEXT 4] x", "OK [UIDNEXT #4]\"x\"")), un(kw("LIST", "LIST ") + t(" () \"/\" ", "()/") + as("a b")), un(kw("STATUS", "STATUS ") + " " + as("x\"y") + t(" (MESSAGES 1)", "MESSAGES#1")), un(t("SEARCH 1 2", "SEARCH #1#2")), un(t("CAPABILITY IMAP4rev1", "CAP IMAP4rev1")), fetch(items[3])};
	for (size_t n = 2 ; n <= (TH ? 4u : 3u) ; ++n) mc::tuples(n < 3 || TH ? resps.size() : 7, n, [&](const std::vector <size_t>& ix) { G g; for (size_t i = 0 ; i < n ; ++i) { if (i) g = g + t("\r\n", "\n"); g = g + resps[ix[i]]; } both("responses|" + mc::show(ix), g, true, n == 2 && ix[0] != ix[1] && (TH || ix[0] + ix[1] == 7)); });

	// ---- body data handed to a stream, other data left alone
	for (size_t v = 0 ; v < V.size() ; ++v) for (size_t a = 0 ; a < resps.size() ; ++a) for (int w = 0 ; w < 3 ; ++w) R.testL([&] { return "stream|" + str(v) + " " + str(a) + str(w); }, [&] {
		Lab l0; const S tag = l0.T(); if (a == 4) { R.outcome("-"); return; }
		G it = w == 0 ? kw("BODY", "SECTION ") + t("[TEXT]", "TEXT ") + " " : w == 1 ? kw("BODY", "SECTION ") + t("[1]<0>", "1. #0") + " " : kw("RFC822.TEXT", "TEXT ") + " ";
		G g = resps[a] + t("\r\n", "\n") + fetch(items[0] + " " + it + SV[v]) + t("\r\n", "\n") + resps[a] + t("\r\n" + tag + " OK x\r\n", "\n" + tag + " OK \"x\""); const S want = [&] { G h = resps[a] + M("\n") + fetch(items[0] + " " + it + M("\"[literal-handler]\"|")) + M("\n") + resps[a] + M("\n" + tag + " OK \"x\""); return h.m; }();
		const size_t n = count(g);
		for (int f = 0 ; f < 2 ; ++f) for (int frag : {0, 1, 3, 4}) { S got; const S r = parseOne(render(g, std::vector <int>(n, f), 0), frag, 3, true, &got); CHECK(r == want, "understood as\n" + r + "\ninstead of\n" + want); CHECK(got == V[v], "the stream got '" + esc(got, 300) + "' instead of '" + esc(V[v], 300) + "'"); }
		R.outcome("stream" + str(w));
	});
	for (size_t z : {1u, 4095u, 4096u, 4097u, 65536u, 200000u}) for (int frag : {0, 4}) for (size_t k : {1000u, 4096u, 4099u}) R.testL([&] { return "large|" + str(z) + " " + str(frag) + " " + str(k); }, [&] { S body; for (size_t i = 0 ; i < z ; ++i) body += char(i * 131 + i / 251); Lab l; G g = fetch(kw("BODY", "SECTION ") + t("[]", " ") + " " + st(body)); S got; parseOne(render(g, {1}, 0) + "\r\n" + l.T() + " OK x\r\n", frag, k, true, &got); CHECK(got == body, "different data"); R.outcome(z); });
	R.test("long set", [&] { S s = "1"; for (int i = 3 ; i < 4000 ; i += 2) s += "," + str(i); Lab l; const S r = parseOne(l.T() + " OK [COPYUID 9 " + s + " " + s + "] x\r\n", 0, 0, false, NULL); CHECK(r == l.T() + " OK [COPYUID #9 " + s + " " + s + "]\"x\"", "set"); R.outcome("set"); });

	// ---- malformed
	auto hostile = [&](const S& in, bool exact, size_t len, bool must = false) {
		for (int sink = 0 ; sink < 2 ; ++sink) {
			Lab l; l.f->in = in + END; Sink s; bool thrown = false; size_t used = 0;
			try { std::unique_ptr <IP::response> r(l.p->readResponse(*l.tag, sink ? &s : NULL)); d(*r); CHECK(d(*r).find("(null)") == S::npos, "an item that is not there"); } catch (exception&) { thrown = true; }
			CHECK(!must || thrown, "'" + esc(in, 300) + "' accepted");
			if (exact) { S rest; try { for ( ; ; ) rest += l.p->readLine(); } catch (exception&) {} used = in.size() + END.size() - rest.size(); CHECK(used <= len, "read " + str(used - len) + " bytes beyond '" + esc(in, 300) + "'"); }
			R.transition();
		}
	};
	Lab l1; const S tag = l1.T(), tail = "\r\n" + tag + " OK x\r\n";
	const S good[] = {"* CAPABILITY IMAP4rev1 AUTH=PLAIN", "* LIST (\\Noselect) \"/\" \"a \\\"b\"", "* STATUS x (MESSAGES 3 UIDNEXT 7)", "* SEARCH 1 22", "* FLAGS (\\Seen $x)", "* 12 EXPUNGE", "* OK [PERMANENTFLAGS (\\Seen \\*)] t", "* OK [COPYUID 9 1:2,4 5] t", "* OK [MODIFIED 2:4,7] t", "* 1 FETCH (UID 5 FLAGS (\\Seen) RFC822.SIZE 44)", "* 1 FETCH (ENVELOPE (\"d\" \"s\" ((NIL NIL \"a\" \"b\")) NIL NIL NIL NIL NIL NIL \"<i>\"))", "* 1 FETCH (BODY ((\"TEXT\" \"P\" (\"a\" \"b\") NIL NIL \"7bit\" 1 2)(\"A\" \"B\" NIL NIL NIL \"x\" 3 NIL (\"i\" NIL) (\"en\" \"fr\") (1 (2))) \"M\" (\"c\" \"d\")))", "* 1 FETCH (BODY[HEADER.FIELDS (A B)]<5> \"xyz\" MODSEQ (5))", "* 1 FETCH (BODY[1.TEXT] {4}\r\nabcd UID 3)", "* LIST () NIL {3}\r\na b", "* 1 FETCH (INTERNALDATE \"17-Jul-1996 02:44:25 -0700\")", "* 1 FETCH (BODY (\"MESSAGE\" \"RFC822\" NIL NIL {2}\r\nde \"7bit\" 3 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"a\" \"b\" NIL NIL NIL NIL 3) 9))", "+ abc", "* BYE gone", "* NO [ALERT] x"};
	const S bytes("() \"{}\\\r\n09A*%[]\x80\0", 18);
	for (auto& g : good) {
		const S in = g + tail;
		for (size_t i = 0 ; i < g.size() ; ++i) R.testL([&] { return "mutated|" + esc(g) + " " + str(i); }, [&] {
			auto run = [&](const S& m) { hostile(m + tail, m.find('{') == S::npos, m.size() + tail.size()); };
			S m = g; m.erase(i, 1); run(m); for (char c : bytes) { m = g; m[i] = c; run(m); m = g; m.insert(i, 1, c); run(m); } for (size_t j = i + 1 ; j < std::min(g.size(), i + 12) ; ++j) { m = g; m.erase(i, j - i + 1); run(m); } m = g; m.insert(i, g.substr(i, 5)); run(m);
			R.outcome("mutated");
		});
		for (size_t i = 0 ; i <= in.size() ; ++i) R.testL([&] { return "cut|" + esc(g) + " " + str(i); }, [&] { for (int sink = 0 ; sink < 2 ; ++sink) { Lab l; l.f->in = in.substr(0, i); Sink s; bool t = false; try { std::unique_ptr <IP::response> r(l.p->readResponse(*l.tag, sink ? &s : NULL)); } catch (exception&) { t = true; } CHECK(t == (i < in.size() && g[0] != '+') || g[0] == '+', t ? "a complete response was refused" : "an incomplete response was accepted"); } R.outcome("cut"); });
	}
	const S wrong[] = {"* 1 FETCH ()", "* 1 FETCH", "* 1 FETCH (", "* 1 FETCH (UID)", "* 1 FETCH (UID 0)", "* 0 FETCH (UID 1)", "* 0 EXPUNGE", "* 1 FETCH (MODSEQ ())", "* 1 FETCH (MODSEQ)", "* 1 FETCH (BODY[HEADER.FIELDS (FROM", "* 1 FETCH (BODY[HEADER.FIELDS ({", "* 1 FETCH (BODY[HEADER.FIELDS (a (b))] NIL)", "* 1 FETCH (BODY[0] NIL)", "* 1 FETCH (FLAGS (\\Seen)", "* 1 FETCH (FLAGS (()))", "* 1 FETCH (RFC822.SIZE -1)", "* 1 FETCH (RFC822.SIZE 99999999999999999999999)", "* 99999999999999999999999 EXISTS", "* x EXISTS", "* 4294967297 EXPUNGE", "* 1 FETCH (UID 4294967297)", "* OK [UIDNEXT 4294967297] x",  "* LIST (\\A) \"/\"", "* LIST (( \"/\" x", "* LIST () \"\" x", "* LIST () \"//\" x", "* STATUS (MESSAGES 1)", "* STATUS x (MESSAGES)", "* STATUS x (HIGHESTMODSEQ )", "* STATUS x (HIGHESTMODSEQ x)", "* STATUS x (MESSAGES 1", "* SEARCH x", "* SEARCH 0", "* UNKNOWN 1", "*", "* ", "", "x", "*1 EXISTS", "* CAPABILITY", "* OK [UIDNEXT] x", "* OK [UIDNEXT x] x", "* OK [HIGHESTMODSEQ x] x", "* OK [COPYUID 1 2] x", "* OK [APPENDUID 1] x", "* OK [MODIFIED] x", "* OK [MODIFIED 1:] x", "* OK [UNSEEN 1 x", "* 1 FETCH (ENVELOPE (NIL NIL NIL))", "* 1 FETCH (BODY (\"TEXT\" \"PLAIN\"))", "* 1 FETCH (BODY ())", "* 1 FETCH (BODY (\"MIXED\"))", "* 1 FETCH (UID 1) x", "* 3 EXISTS x", "* 1 FETCH (UID 1 UID)", "* 1 FETCH (RFC822 \"abc", "* 1 FETCH (RFC822 {99999999999999999999999}", "* 1 FETCH (RFC822 {x}", "* 1 FETCH (RFC822 {-1}", "* 1 FETCH (RFC822 {}", "* CAPABILITY AUTH="};
	for (auto& w : wrong) R.testL([&] { return "malformed|" + w; }, [&] { hostile(w + tail, true, w.size() + tail.size(), S(w) != "* CAPABILITY" && S(w) != "* CAPABILITY AUTH="); R.outcome("malformed"); });
	for (auto& c : {S("("), S("["), S("{"), S("\""), S("1"), S(","), S("a"), S(" "), S("1,"), S("a "), S("(a "), S("\"\" "), S("()"), S("(\"a\" \"b\" "), S("(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7bit\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) "), S("NIL ")}) for (size_t n : {300u, c.size() > 1 ? 3000u : 100000u}) for (auto& pre : {S("* 1 FETCH (BODY "), S("* 1 FETCH (BODY (\"a\" \"b\" NIL NIL NIL NIL 1 NIL NIL NIL "), S("* OK [COPYUID 1 "), S("* LIST "), S("* SEARCH "), S("* FLAGS ("), S("* 1 FETCH (ENVELOPE (NIL NIL ("), S("* 1 FETCH (BODY[HEADER.FIELDS "), S("* ")}) R.testL([&] { return S("repeated|") + c + str(n) + pre; }, [&] { S in = pre; for (size_t i = 0 ; i < n ; ++i) in += c; hostile(in + tail, true, in.size() + tail.size()); R.outcome("repeated"); });
}
