// C37: the IMAP client retrieves and changes exactly what the server stores.
#include "imapsim.hpp"
#include "dump.hpp"
#include "lts.hpp"
#include "mc_main.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPFolderStatus.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPMessage.hpp"
#include "vmime/net/imap/IMAPMessagePart.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
using namespace vmime; using namespace vmime::net;
using imapsim::Client; using imapsim::MPart; using imapsim::wantEq; using imapsim::Conn; using imapsim::World;
typedef imapsim::PMsg PMsg;
typedef shared_ptr <net::message> NMsg;

// ---- messages known by construction
static S q(const S& s) { return "\"" + s + "\""; }
static S addr(const S& name, const S& mbox, const S& host) { auto n = [](const S& x) { return x == "-" ? S("NIL") : q(x); }; return "(" + n(name) + " NIL " + n(mbox) + " " + n(host) + ")"; }
static MPart leaf(const S& type, const S& sub, const S& body, const S& enc = "7bit") {
	MPart p; p.type = type; p.sub = sub; p.body = body; p.enc = enc;
	p.hdr = {"Content-Type: " + type + "/" + sub, "Content-Transfer-Encoding: " + enc}; return p;
}
static MPart multi(const S& sub, const S& b, const std::vector <MPart>& k) { MPart p; p.type = "multipart"; p.sub = sub; p.boundary = b; p.kids = k; p.hdr = {"Content-Type: multipart/" + sub + "; boundary=" + q(b)}; return p; }
struct Spec { S name; MPart root; S envelope; };
static std::vector <Spec> specs() {
	std::vector <Spec> v;
	auto top = [](MPart& p, const std::vector <S>& h) { p.hdr.insert(p.hdr.begin(), h.begin(), h.end()); };
	const S me = "(" + addr("Me Self", "me", "h.example") + ")";
	{
		Spec s; s.name = "plain"; s.root = leaf("text", "plain", "line 1\r\n.\r\nline )\" 2\r\n"); s.root.params = {{"CHARSET", "us-ascii"}}; s.root.hdr[0] += "; charset=us-ascii";
		top(s.root, {"Date: Tue, 01 Feb 2022 10:11:12 +0100", "Subject: one", "From: Me Self <me@h.example>", "To: a@b.example, Bee <b@b.example>", "Message-Id: <m1@h.example>", "Importance: high", "X-Priority: 1"});
		s.envelope = "(\"Tue, 01 Feb 2022 10:11:12 +0100\" \"one\" " + me + " " + me + " " + me + " (" + addr("-", "a", "b.example") + addr("Bee", "b", "b.example") + ") NIL NIL NIL \"<m1@h.example>\")"; v.push_back(s);
	}
	{
		Spec s; s.name = "attach"; MPart a = leaf("text", "plain", "caf=C3=A9=\r\n x\r\n", "quoted-printable"); a.params = {{"CHARSET", "utf-8"}}; a.hdr[0] += "; charset=utf-8";
		MPart b = leaf("application", "octet-stream", "AAECAw==\r\n", "base64"); b.params = {{"name", "a b.bin"}}; b.hdr[0] += "; name=\"a b.bin\""; b.disp = "attachment"; b.dispName = "a b.bin"; b.hdr.push_back("Content-Disposition: attachment; filename=\"a b.bin\"");
		s.root = multi("mixed", "==b1", {a, b});
		top(s.root, {"Subject: =?utf-8?Q?caf=C3=A9?= two", "From: =?utf-8?B?w6k=?= <e@x.example>", "To: grp: a@b.example, c@d.example;, z@z.example", "Cc: none:;", "In-Reply-To: <r1@h> <r2@h>", "Reply-To: r@r.example"});
		s.envelope = "(NIL \"=?utf-8?Q?caf=C3=A9?= two\" (" + addr("=?utf-8?B?w6k=?=", "e", "x.example") + ") (" + addr("=?utf-8?B?w6k=?=", "e", "x.example") + ") (" + addr("-", "r", "r.example") + ") (" + addr("-", "grp", "-") + addr("-", "a", "b.example") + addr("-", "c", "d.example") + addr("-", "-", "-") + addr("-", "z", "z.example") + ") (" + addr("-", "none", "-") + addr("-", "-", "-") + ") NIL \"<r1@h> <r2@h>\" NIL)"; v.push_back(s);
	}
	{
		Spec s; s.name = "nested"; MPart alt = multi("alternative", "==alt", {leaf("text", "plain", "plain\r\n"), leaf("text", "html", "<b>x</b>\r\n", "8bit")});
		MPart msg = leaf("message", "rfc822", "Subject: in\r\n\r\nabc\r\n"); msg.envelope = "(NIL \"in\" NIL NIL NIL NIL NIL NIL NIL NIL)";
		MPart img = leaf("image", "png", "iVBORw0=\r\n", "base64"); img.params = {{"NAME", "i.png"}}; img.hdr[0] += "; name=\"i.png\""; img.disp = "inline"; img.id = "<c1@x>";
		MPart deep = multi("related", "==rel", {alt, img});
		s.root = multi("mixed", "==top", {deep, msg, leaf("text", "plain", "")}); top(s.root, {"Subject: three", "Bcc: x@y.example"});
		s.envelope = "(NIL \"three\" NIL NIL NIL NIL NIL (" + addr("-", "x", "y.example") + ") NIL NIL)"; v.push_back(s);
	}
	{
		Spec s; s.name = "bare"; s.root = leaf("text", "plain", ""); s.root.hdr = {"Subject: four \"q\" \\"}; s.root.enc = "7bit";
		s.envelope = "(NIL \"four \\\"q\\\" \\\\\" NIL NIL NIL NIL NIL NIL NIL NIL)"; v.push_back(s);
	}
	{
		Spec s; s.name = "octets"; s.root = leaf("text", "plain", "\xe9\n\r\xff {3}\r\n) A1 OK\r\n* 1 EXPUNGE\r\n", "8bit"); s.root.params = {{"charset", "iso-8859-1"}}; s.root.hdr[0] += "; charset=iso-8859-1"; top(s.root, {"Subject: five"});
		s.envelope = "(NIL \"five\" NIL NIL NIL NIL NIL NIL NIL NIL)"; v.push_back(s);
	}
	return v;
}
static const std::vector <Spec>& SP() { static auto v = specs(); return v; }
static void fill(World& w, const S& box = "INBOX") { for (auto& s : SP()) { PMsg m = w.add(box, s.root.all()); m->root = std::make_shared <MPart>(s.root); m->envelope = s.envelope; } }

struct Opened : public Client {
	shared_ptr <net::folder> f;
	Opened(int mode = net::folder::MODE_READ_WRITE) { fill(w); prep = mode; }
	int prep;
	void go() { start(); f = folder("INBOX"); f->open(prep); }
	~Opened() { f.reset(); }
};
static void knobs(Client& c, int k) { c.w.strings = k & 1; c.w.order = k / 2 % 3; c.w.extraFlags = k / 6 % 2; }
static S take(const NMsg& m, size_t start = 0, size_t len = size_t(-1), bool peek = true) { S s; utility::outputStreamStringAdapter os(s); m->extract(os, NULL, start, len, peek); return s; }
static S takePart(const NMsg& m, const shared_ptr <net::messagePart>& p, size_t start = 0, size_t len = size_t(-1), bool peek = true) { S s; utility::outputStreamStringAdapter os(s); m->extractPart(p, os, NULL, start, len, peek); return s; }

template <typename F> static bool unfetched(F f) { try { f(); return false; } catch (exceptions::unfetched_object&) { return true; } }

static void checkStructure(const shared_ptr <messageStructure>& st, const std::vector <MPart>& want, const S& at) {
	CHECK(st->getPartCount() == want.size(), at + ": " + str(st->getPartCount()) + " parts instead of " + str(want.size()));
	for (size_t i = 0 ; i < want.size() ; ++i) {
		auto p = st->getPartAt(i); const MPart& w = want[i]; const S here = at + "/" + str(i + 1);
		CHECK(p->getNumber() == i, here + " has number " + str(p->getNumber()));
		wantEq(p->getType().getType() + "/" + p->getType().getSubType(), w.type + "/" + w.sub, here + " type");
		if (w.kids.empty()) CHECK(p->getSize() == w.body.size(), here + " has size " + str(p->getSize()) + " instead of " + str(w.body.size()));
		S name; for (auto& x : w.params) if (Conn::up(x.first) == "NAME") name = x.second;
		wantEq(p->getName(), name, here + " name");
		if (auto ip = dynamicCast <net::imap::IMAPMessagePart>(p)) if (!w.disp.empty()) wantEq(ip->getDisposition().getName(), w.disp, here + " disposition");
		checkStructure(p->getStructure(), w.kids, here);
	}
}
static void eachPart(const shared_ptr <messageStructure>& st, const std::vector <MPart>& want, std::function <void(const shared_ptr <net::messagePart>&, const MPart&)> f) { for (size_t i = 0 ; i < want.size() ; ++i) { f(st->getPartAt(i), want[i]); eachPart(st->getPartAt(i)->getStructure(), want[i].kids, f); } }

static S addresses(const vmime::header& h, const S& name) {      // flattened mailboxes of a field
	if (!h.hasField(name)) return S();
	auto v = h.findField(name)->getValue(); S o; mailboxList l;
	auto one = [&](const mailbox& m) { o += m.getName().getWholeBuffer() + "<" + m.getEmail().generate() + ">"; };
	if (auto a = dynamicCast <const addressList>(v)) { for (size_t i = 0 ; i < a->getAddressCount() ; ++i) { if (a->getAddressAt(i)->isGroup()) { auto g = dynamicCast <const mailboxGroup>(a->getAddressAt(i)); for (size_t k = 0 ; k < g->getMailboxCount() ; ++k) one(*g->getMailboxAt(k)); } else one(*dynamicCast <const mailbox>(a->getAddressAt(i))); } }
	else if (auto a = dynamicCast <const mailboxList>(v)) { for (size_t i = 0 ; i < a->getMailboxCount() ; ++i) one(*a->getMailboxAt(i)); }
	else if (auto a = dynamicCast <const mailbox>(v)) one(*a);
	return o;
}
static S fieldText(const vmime::header& h, const S& n) { return h.hasField(n) ? mc::attrs(const_cast <headerFieldValue&>(*h.findField(n)->getValue())) : S(); }

static void checkEnvelope(const vmime::header& got, const Spec& s) {
	vmime::header want; want.parse(s.root.header());
	for (auto& n : {"From", "To", "Cc", "Bcc"}) wantEq(addresses(got, n), addresses(want, n), S("envelope ") + n);
	const S from = addresses(want, "From");
	wantEq(addresses(got, "Sender"), from, "envelope Sender"); wantEq(addresses(got, "Reply-To"), want.hasField("Reply-To") ? addresses(want, "Reply-To") : from, "envelope Reply-To");
	for (auto& n : {"Subject", "Date", "Message-Id", "In-Reply-To"}) wantEq(fieldText(got, n), fieldText(want, n), S("envelope ") + n);
}

static void checkAttributes(const NMsg& m, const Spec& s, const PMsg& pm, size_t number, int a, bool condstore, const fetchAttributes* fa = NULL) {
	const bool hdr = (a & (fetchAttributes::FULL_HEADER | fetchAttributes::ENVELOPE | fetchAttributes::IMPORTANCE | fetchAttributes::CONTENT_INFO)) || (fa && !fa->getHeaderFields().empty());
	CHECK(m->getNumber() == number && !m->isExpunged(), "number " + str(m->getNumber()));
	if (a & fetchAttributes::UID) { wantEq(S(m->getUID()), str(pm->uid), "UID"); const auto ms = dynamicCast <net::imap::IMAPMessage>(m)->getModSequence(); CHECK(ms == (condstore ? pm->modseq : 0), "modification sequence " + str(ms)); }
	if (a & fetchAttributes::SIZE) CHECK(m->getSize() == pm->data.size(), "size " + str(m->getSize())); else CHECK(unfetched([&] { m->getSize(); }), "size without having been fetched");
	if (a & fetchAttributes::FLAGS) CHECK(m->getFlags() == (pm->flags.count("\\Seen") ? net::message::FLAG_SEEN : 0), "flags " + str(m->getFlags()));
	if (a & fetchAttributes::STRUCTURE) checkStructure(m->getStructure(), {s.root}, "structure of " + s.name); else CHECK(unfetched([&] { m->getStructure(); }), "structure without having been fetched");
	if (!hdr) { CHECK(unfetched([&] { m->getHeader(); }), "header without having been fetched"); return; }
	auto h = m->getHeader(); vmime::header want; want.parse(s.root.header());
	if (a & fetchAttributes::FULL_HEADER) { wantEq(mc::attrs(*constCast <vmime::header>(h)), mc::attrs(want), "header"); return; }
	if (a & fetchAttributes::ENVELOPE) checkEnvelope(*h, s);
	std::vector <S> names; if (a & fetchAttributes::IMPORTANCE) names = {"Importance", "X-Priority"};
	if (fa) for (auto& n : fa->getHeaderFields()) names.push_back(n);
	for (auto& n : names) { const size_t k = want.findAllFields(n).size(); const bool env = (a & fetchAttributes::ENVELOPE) && (n == "Subject" || n == "To"); auto all = constCast <vmime::header>(h)->findAllFields(n); CHECK(all.size() == k || (env && all.size() >= k), "field " + n + " occurs " + str(all.size()) + " times instead of " + str(k)); if (k) wantEq(mc::attrs(*all.back()), mc::attrs(*want.findField(n)), "field " + n); }
}

int A(std::initializer_list <int> l) { int r = 0; for (int x : l) r |= x; return r; }


// ---- histories of one mailbox
struct Box {
	bool real; std::unique_ptr <Client> c; shared_ptr <net::folder> f, other; std::vector <NMsg> held;
	struct M { unsigned uid; std::set <S> fl; size_t src; S data; }; std::vector <M> m, copy; unsigned next = 1, copyNext = 1; int mode = 0;   // 0 closed, 1 read-only, 2 read-write
	std::vector <unsigned> heldUid; size_t appended = 0; int cond;
	static S data(size_t i) { return i < 4 ? SP()[i].root.all() : "Subject: new " + str(i) + "\r\n\r\nbody " + str(i) + "\r\n.\r\n"; }
	Box(bool r, int cond_) : real(r), cond(cond_) { for (size_t i = 0 ; i < 3 ; ++i) m.push_back({next++, {}, i, data(i)}); if (real) { c.reset(new Client); c->w.strings = cond & 1; c->w.condstore = cond & 2; c->w.appendUid = !(cond & 4); for (size_t i = 0 ; i < 3 ; ++i) c->w.add("INBOX", data(i)); c->w.box["Copy"]; c->w.box["Copy"].validity = 7; c->start(); f = c->folder("INBOX"); } }
	~Box() { held.clear(); f.reset(); other.reset(); }
	enum { OPEN, OPENRO, CLOSE, CLOSEX, ADDSEEN, SETFLAGS, REMSEEN, DRAFT, CLEAR, DEL1, DELLAST, DELUID, EXPUNGE, COPY, COPYUID, COPYODD, APPEND, APPENDF, HOLD, HELDFLAG, HELDTEXT, SEARCH, STATUS, NOPS };
	size_t opCount() const { return NOPS; }
	S opName(size_t i) const { static const char* n[] = {"open", "open read-only", "close", "close+expunge", "1 +seen", "uid 2 =replied,marked", "1:* -seen", "1,3 +draft", "2:* =", "delete 1", "delete *", "delete uid 1:2", "expunge", "copy 1:2", "copy uid 2:*", "copy 1,3", "append", "append flags", "hold", "held +marked", "held text", "search", "status"}; return n[i]; }
	bool enabled(size_t i) const {
		if (i == OPEN || i == OPENRO) return !mode;
		if (i == STATUS) return true;
		if (!mode) return false;
		if (i == APPEND || i == APPENDF) return appended < 2;
		if (i == COPY || i == COPYUID || i == COPYODD) return copy.size() < 3 && (i == COPYUID || m.size() >= (i == COPY ? 2u : 3u));
		if (i == ADDSEEN || i == DEL1 || i == REMSEEN || i == DELLAST) return !m.empty();
		if (i == CLEAR) return m.size() >= 2;
		if (i == DRAFT) return m.size() >= 3;
		if (i == HOLD) return !m.empty() && heldUid.empty();
		if (i == HELDFLAG || i == HELDTEXT) return !heldUid.empty();
		return true;
	}
	M* byUid(unsigned u) { for (auto& x : m) if (x.uid == u) return &x; return NULL; }
	S sets(const messageSet& s) { std::ostringstream o; struct E : public messageSetEnumerator { S r; void enumerateNumberMessageRange(const numberMessageRange& x) { r += "#" + str(x.getFirst()) + ":" + str(x.getLast()) + ","; } void enumerateUIDMessageRange(const UIDMessageRange& x) { r += S(x.getFirst()) + ":" + S(x.getLast()) + ","; } } e; s.enumerate(e); return e.r; }
	void wantUids(const messageSet& s, const std::vector <unsigned>& u) {
		if (cond & 4) { CHECK(s.isEmpty(), "set of messages although the server told nothing"); return; }
		std::set <unsigned> got; S t = sets(s); size_t p = 0; while (p < t.size()) { const size_t e = t.find(',', p); unsigned a, b; CHECK(sscanf(t.c_str() + p, "%u:%u", &a, &b) == 2 && a <= b, "set " + t); for ( ; a <= b ; ++a) got.insert(a); p = e + 1; }
		CHECK(got == std::set <unsigned>(u.begin(), u.end()), "resulting identifiers " + t);
	}
	void step(size_t i) {
		if (real) CHECK(c->st->isConnected(), "store disconnected");
		const bool ro = mode == 1;
		auto flags = [&](const std::vector <unsigned>& uids, std::function <void(std::set <S>&)> g) { if (!ro) for (unsigned u : uids) if (M* x = byUid(u)) g(x->fl); };
		auto uidsOf = [&](size_t a, size_t b) { std::vector <unsigned> v; for (size_t k = a ; k <= b && k <= m.size() ; ++k) v.push_back(m[k - 1].uid); return v; };
		auto refused = [&](std::function <void()> g) { if (!real) return; bool t = false; try { g(); } catch (exceptions::command_error&) { t = true; } catch (exceptions::illegal_state&) { t = true; } CHECK(t == ro, ro ? "change of a read-only folder accepted" : "change refused"); };
		typedef net::message N;
		switch (i) {
		case OPEN: case OPENRO: mode = i == OPEN ? 2 : 1; heldUid.clear(); if (real) { held.clear(); f->open(i == OPEN ? net::folder::MODE_READ_WRITE : net::folder::MODE_READ_ONLY, i == OPEN); CHECK(f->isOpen() && f->getMode() == (i == OPEN ? net::folder::MODE_READ_WRITE : net::folder::MODE_READ_ONLY), "mode"); } break;
		case CLOSE: mode = 0; if (real) { f->close(false); CHECK(!f->isOpen(), "still open"); bool t = false; try { f->getMessageCount(); } catch (exceptions::illegal_state&) { t = true; } CHECK(t, "closed folder has messages"); if (!held.empty()) { bool t = false; try { take(held[0]); } catch (vmime::exception&) { t = true; } CHECK(t, "message of a closed folder extracted"); } } heldUid.clear(); held.clear(); break;
		case CLOSEX: if (ro) { if (real) { bool t = false; try { f->close(true); } catch (exceptions::operation_not_supported&) { t = true; } CHECK(t && f->isOpen(), "read-only folder expunged"); } break; }
			mode = 0; { std::vector <M> k; for (auto& x : m) if (!x.fl.count("\\Deleted")) k.push_back(x); m = k; } heldUid.clear(); held.clear(); if (real) f->close(true); break;
		case ADDSEEN: flags(uidsOf(1, 1), [](std::set <S>& x) { x.insert("\\Seen"); }); refused([&] { f->setMessageFlags(messageSet::byNumber(1), N::FLAG_SEEN, N::FLAG_MODE_ADD); }); break;
		case SETFLAGS: flags({2}, [](std::set <S>& x) { x = {"\\Answered", "\\Flagged"}; }); refused([&] { f->setMessageFlags(messageSet::byUID(net::message::uid(2)), N::FLAG_REPLIED | N::FLAG_MARKED, N::FLAG_MODE_SET); }); break;
		case REMSEEN: flags(uidsOf(1, 99), [](std::set <S>& x) { x.erase("\\Seen"); }); refused([&] { f->setMessageFlags(messageSet::byNumber(1, size_t(-1)), N::FLAG_SEEN, N::FLAG_MODE_REMOVE); }); break;
		case DRAFT: flags({m[0].uid, m[2].uid}, [](std::set <S>& x) { x.insert("\\Draft"); }); refused([&] { f->setMessageFlags(messageSet::byNumber(std::vector <size_t>{3, 1}), N::FLAG_DRAFT, N::FLAG_MODE_ADD); }); break;
		case CLEAR: flags(uidsOf(2, 99), [](std::set <S>& x) { x.clear(); }); refused([&] { f->setMessageFlags(messageSet::byNumber(2, size_t(-1)), 0, N::FLAG_MODE_SET); }); break;
		case DEL1: flags(uidsOf(1, 1), [](std::set <S>& x) { x.insert("\\Deleted"); }); refused([&] { f->deleteMessages(messageSet::byNumber(1)); }); break;
		case DELLAST: flags(uidsOf(m.size(), m.size()), [](std::set <S>& x) { x.insert("\\Deleted"); }); refused([&] { f->deleteMessages(messageSet::byNumber(m.size(), size_t(-1))); }); break;
		case DELUID: flags({1, 2}, [](std::set <S>& x) { x.insert("\\Deleted"); }); refused([&] { f->deleteMessages(messageSet::byUID(1, 2)); }); break;
		case EXPUNGE: if (!ro) { std::vector <M> k; for (auto& x : m) if (!x.fl.count("\\Deleted")) k.push_back(x); m = k; } refused([&] { f->expunge(); }); break;
		case COPY: case COPYUID: case COPYODD: {
			std::vector <unsigned> u, r; for (size_t k = 1 ; k <= m.size() ; ++k) { M& x = m[k - 1]; if (i == COPY ? k <= 2 : i == COPYODD ? k == 1 || k == 3 : x.uid >= 2 || k == m.size()) { copy.push_back({copyNext, x.fl, x.src, x.data}); r.push_back(copyNext++); } }
			if (real) { const auto s = f->copyMessages(net::folder::path("Copy"), i == COPY ? messageSet::byNumber(1, 2) : i == COPYODD ? messageSet::byNumber(std::vector <size_t>{1, 3}) : messageSet::byUID(net::message::uid(2), net::message::uid("*"))); if (!r.empty()) wantUids(s, r); } break; }
		case APPEND: case APPENDF: {
			const S d = data(10 + appended); if (!ro) { ++appended; M x{next++, {}, 0, d}; if (i == APPENDF) x.fl = {"\\Seen", "\\Draft"}; m.push_back(x); }
			refused([&] { utility::inputStreamStringAdapter is(d); datetime dt(2020, 2, 3, 4, 5, 6, 60); const auto s = f->addMessage(is, d.size(), i == APPENDF ? N::FLAG_SEEN | N::FLAG_DRAFT : -1, i == APPENDF ? &dt : NULL); wantUids(s, {m.back().uid}); if (i == APPENDF) wantEq(c->w.box["INBOX"].m.back()->idate, " 3-Feb-2020 04:05:06 +0100", "internal date"); }); break; }
		case HOLD: for (auto& x : m) heldUid.push_back(x.uid); if (real) { held.push_back(f->getMessage(1)); for (auto& x : f->getMessages(messageSet::byNumber(1, size_t(-1)))) held.push_back(x); } break;
		case HELDFLAG: { const unsigned u = heldUid.back(); M* x = byUid(u); if (x && !ro) x->fl.insert("\\Flagged"); if (real) { bool t = false; try { held.back()->setFlags(N::FLAG_MARKED, N::FLAG_MODE_ADD); } catch (vmime::exception&) { t = true; } CHECK(t == (ro || !x), "flags of a message " + S(x ? "refused" : "that does not exist accepted")); M* y = byUid(heldUid[0]); if (y) { if (!ro) y->fl.insert("\\Flagged"); } try { held[0]->setFlags(N::FLAG_MARKED, N::FLAG_MODE_ADD); CHECK(y && !ro, "flags of an expunged message changed"); } catch (exceptions::message_not_found&) { CHECK(!y, "message not found"); } catch (exceptions::command_error&) { CHECK(ro, "refused"); } } else { M* y = byUid(heldUid[0]); if (y && !ro) y->fl.insert("\\Flagged"); } break; }
		case HELDTEXT: if (real) { for (size_t k = 0 ; k < held.size() ; ++k) { const unsigned u = heldUid[k ? k - 1 : 0]; M* x = byUid(u); S d; bool t = false; try { d = take(held[k]); } catch (exceptions::message_not_found&) { t = true; } CHECK(t == !x, x ? "message gone" : "expunged message extracted as '" + esc(d, 60) + "'"); if (x) wantEq(d, x->data, "held message"); CHECK(held[k]->isExpunged() == !x, "expunged"); if (x) CHECK(held[k]->getNumber() == size_t(x - &m[0]) + 1, "number " + str(held[k]->getNumber())); } } break;
		case SEARCH: if (real) {
			auto imf = dynamicCast <net::imap::IMAPFolder>(f); typedef net::imap::IMAPSearchTokenFactory F;
			for (int k = 0 ; k < 4 ; ++k) {
				net::imap::IMAPSearchAttributes sa; if (k == 0) sa.add(F::SEEN()); else if (k == 1) sa.add(F::UNSEEN()); else if (k == 2) { sa.add(F::DELETED()); sa.add(F::FLAGGED()); } else sa.add(F::SUBJECT("one"));
				std::vector <size_t> n; std::vector <net::message::uid> u; for (size_t j = 0 ; j < m.size() ; ++j) { const auto& fl = m[j].fl; if (k == 0 ? fl.count("\\Seen") : k == 1 ? !fl.count("\\Seen") : k == 2 ? fl.count("\\Deleted") && fl.count("\\Flagged") : m[j].data.find("Subject: one") != S::npos) { n.push_back(j + 1); u.push_back(net::message::uid(m[j].uid)); } }
				CHECK(imf->getMessageNumbersMatchingSearchAttributes(sa, NULL) == n, "search " + str(k) + " by number"); auto gu = imf->getMessageUIDsMatchingSearchAttributes(sa, NULL); CHECK(gu.size() == u.size(), "search " + str(k) + " by UID"); for (size_t j = 0 ; j < u.size() ; ++j) CHECK(S(gu[j]) == S(u[j]), "search " + str(k) + " by UID");
			}
			for (unsigned u = 1 ; u <= next ; ++u) { std::vector <size_t> n; for (size_t j = 0 ; j < m.size() ; ++j) if (m[j].uid >= u) n.push_back(j + 1); auto g = f->getMessageNumbersStartingOnUID(net::message::uid(u)); CHECK(g == n, "messages starting on UID " + str(u) + ": " + str(g.size()) + " instead of " + str(n.size())); }
			} break;
		case STATUS: if (real) { auto s = f->getStatus(); size_t un = 0; for (auto& x : m) un += !x.fl.count("\\Seen"); CHECK(s->getMessageCount() == m.size() && s->getUnseenCount() == un, "status " + str(s->getMessageCount()) + "/" + str(s->getUnseenCount()) + " instead of " + str(m.size()) + "/" + str(un)); size_t a, b; f->status(a, b); CHECK(a == m.size() && b == un, "status"); auto t = dynamicCast <net::imap::IMAPFolderStatus>(s); CHECK(t->getUIDNext() == next && t->getUIDValidity() == 1 && t->getHighestModSeq() == (cond & 2 ? c->w.modseq : 0), "extended status"); } break;
		}
		if (real) c->ok();
	}
	static S fl(const std::set <S>& f) { S s; for (auto& x : f) s += x; return s; }
	void check() {
		if (!real) return;
		auto cmp = [&](const S& box, const std::vector <M>& w) { auto& g = c->w.box[box].m; CHECK(g.size() == w.size(), box + " holds " + str(g.size()) + " messages instead of " + str(w.size())); for (size_t k = 0 ; k < w.size() ; ++k) { CHECK(g[k]->uid == w[k].uid, box + ": UID"); wantEq(fl(g[k]->flags), fl(w[k].fl), box + ": flags of message " + str(k + 1)); wantEq(g[k]->data, w[k].data, box + ": message " + str(k + 1)); } };
		cmp("INBOX", m); cmp("Copy", copy);
		if (!mode) return;
		CHECK(f->getMessageCount() == m.size(), "folder has " + str(f->getMessageCount()) + " messages instead of " + str(m.size()));
		if (m.empty()) return;
		auto v = f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), A({fetchAttributes::FLAGS, fetchAttributes::SIZE, fetchAttributes::UID}));
		CHECK(v.size() == m.size(), "messages");
		for (size_t k = 0 ; k < v.size() ; ++k) { std::set <S> g; const int x = v[k]->getFlags(); if (x & net::message::FLAG_SEEN) g.insert("\\Seen"); if (x & net::message::FLAG_REPLIED) g.insert("\\Answered"); if (x & net::message::FLAG_MARKED) g.insert("\\Flagged"); if (x & net::message::FLAG_DELETED) g.insert("\\Deleted"); if (x & net::message::FLAG_DRAFT) g.insert("\\Draft"); wantEq(fl(g), fl(m[k].fl), "flags of message " + str(k + 1)); wantEq(S(v[k]->getUID()), str(m[k].uid), "UID"); CHECK(v[k]->getSize() == m[k].data.size(), "size"); wantEq(take(v[k]), m[k].data, "message " + str(k + 1)); }
		CHECK(dynamicCast <net::imap::IMAPFolder>(f)->getUIDValidity() == 1, "UID validity"); c->ok();
	}
	S key() const { S s = str(mode) + "|"; for (auto& x : m) s += str(x.uid) + fl(x.fl) + ","; s += "|"; for (auto& x : copy) s += str(x.uid) + fl(x.fl) + ","; s += "|"; for (unsigned u : heldUid) s += str(u) + ","; return s + "|" + str(appended); }
};

// ---- the tree of folders
struct Tree {
	bool real; std::unique_ptr <Client> c; int cfg; std::set <std::vector <S> > t; std::vector <std::vector <S> > names; std::map <std::vector <S>, shared_ptr <net::folder> > obj;
	typedef std::vector <S> P;
	struct Ev : public events::folderListener { std::vector <S> got; void folderCreated(const shared_ptr <events::folderEvent>& e) { got.push_back("created " + show(e->getFolder()->getFullPath())); } void folderRenamed(const shared_ptr <events::folderEvent>& e) { got.push_back("renamed " + show(e->getFolder()->getFullPath())); } void folderDeleted(const shared_ptr <events::folderEvent>& e) { got.push_back("deleted " + show(e->getFolder()->getFullPath())); } static S show(const net::folder::path& p) { S s; for (size_t i = 0 ; i < p.getSize() ; ++i) s += "/" + p[i].getBuffer(); return s + " "; } } ev;
	static S sh(const P& p) { S s; for (auto& x : p) s += "/" + x; return s + " "; }
	static net::folder::path path(const P& p) { net::folder::path r; for (auto& x : p) r /= net::folder::path::component(x, vmime::charset("utf-8")); return r; }
	Tree(bool r, int k) : real(r), cfg(k) {
		const S b = k & 1 ? "b \"\\\xc3\xa9&%" : "b", x = k & 2 ? (k & 1 ? "A/B" : "A.B") : "x";
		names = {{"INBOX"}, {b}, {b, "c"}, {b, "c", "d"}, {x}, {b + "b"}, {x, b}};
		t.insert(names[0]);
		if (real) { c.reset(new Client); c->w.sep = k & 1 && k & 2 ? '.' : k & 4 ? '\\' : '/'; if (k == 2) c->w.sep = '/'; c->w.strings = k & 1; if (k & 4) c->w.caps = {"UIDPLUS"}; c->start(); }
	}
	~Tree() { for (auto& o : obj) o.second->removeFolderListener(&ev); obj.clear(); }
	// ops: create n (0-5), destroy n (6-11), rename b->x (12), x->b (13), b/c -> x/b (14), bb -> b/c (15), touch: keep an object for every name (16)
	bool touched = false;
	size_t opCount() const { return 17; }
	S opName(size_t i) const { if (i < 6) return "create " + str(i + 1); if (i < 12) return "destroy " + str(i - 5); static const char* n[] = {"rename b x", "rename x b", "rename b/c x/b", "rename bb b/c", "objects"}; return n[i - 12]; }
	bool enabled(size_t i) const { return i != 16 || !touched; }
	shared_ptr <net::folder> obtain(const P& p) { auto i = obj.find(p); if (i != obj.end()) return i->second; return c->st->getFolder(path(p)); }
	bool under(const P& p, const P& q) const { return q.size() > p.size() && std::equal(p.begin(), p.end(), q.begin()); }
	bool inner(const P& p) const { for (auto& q : t) if (under(p, q)) return true; return false; }
	void step(size_t i) {
		ev.got.clear(); bool ok; std::vector <S> want;
		auto run = [&](std::function <void()> g) { if (!real) return; bool t = true; try { g(); } catch (exceptions::command_error&) { t = false; } catch (exceptions::illegal_state&) { t = false; } CHECK(t == ok, t ? "accepted" : "refused"); };
		if (i < 6) { const P p = names[i + 1]; ok = !t.count(p) && !inner(p); if (real && !t.count(p) && inner(p)) return; if (!t.count(p) && inner(p)) return; if (ok) { t.insert(p); want.push_back("created " + sh(p)); } run([&] { auto f = obtain(p); net::folderAttributes a; a.setType(net::folderAttributes::TYPE_CONTAINS_MESSAGES); f->create(a); }); }
		else if (i < 12) { const P p = names[i - 5]; ok = t.count(p); if (ok) { t.erase(p); want.push_back("deleted " + sh(p)); } run([&] { obtain(p)->destroy(); }); }
		else if (i < 16) {
			const P a = i == 12 ? names[1] : i == 13 ? names[4] : i == 14 ? names[2] : names[5], b = i == 12 ? names[4] : i == 13 ? names[1] : i == 14 ? names[6] : names[2];
			ok = (t.count(a) || inner(a)) && !t.count(b) && !inner(b) && !under(a, b);
			if (ok) { std::set <P> n; for (auto& q : t) if (q == a || under(a, q)) { P r = b; r.insert(r.end(), q.begin() + a.size(), q.end()); n.insert(r); } else n.insert(q); t = n; }
			run([&] {
				auto f = obtain(a); std::map <P, shared_ptr <net::folder> > no; if (!touched) { f->rename(path(b)); return; }
				f->rename(path(b));
			});
			if (real && ok && touched) {
				// every kept object follows its folder
				std::map <P, shared_ptr <net::folder> > no; std::multiset <S> we;
				for (auto& o : obj) { if (o.first == a || under(a, o.first)) { P r = b; r.insert(r.end(), o.first.begin() + a.size(), o.first.end()); CHECK(o.second->getFullPath() == path(r), "after renaming, the object for " + sh(o.first) + " is " + Ev::show(o.second->getFullPath())); wantEq(o.second->getName().getBuffer(), r.back(), "name"); we.insert("renamed " + sh(r)); o.second->removeFolderListener(&ev); } else { CHECK(o.second->getFullPath() == path(o.first), "object changed its path"); no[o.first] = o.second; } }
				CHECK(std::multiset <S>(ev.got.begin(), ev.got.end()) == we, "events " + mc::show(ev.got)); obj = no;
				for (auto& n : names) if (!obj.count(n)) keep(n);
			}
		}
		else { touched = true; if (real) for (auto& n : names) keep(n); }
		if (real && touched && i < 12) { for (auto& w : want) { CHECK(std::count(ev.got.begin(), ev.got.end(), w) == 1, "no event '" + w + "' in " + mc::show(ev.got)); } CHECK(ev.got.size() == want.size(), "events " + mc::show(ev.got)); }
		if (real) c->ok();
	}
	void keep(const P& n) { auto f = c->st->getFolder(path(n)); f->addFolderListener(&ev); obj[n] = f; }
	void check() {
		if (!real) return;
		// what the server has
		std::set <P> all = t; for (auto& p : t) for (size_t k = 1 ; k < p.size() ; ++k) all.insert(P(p.begin(), p.begin() + k));
		CHECK(c->w.box.size() == t.size(), "the server has " + str(c->w.box.size()) + " mailboxes instead of " + str(t.size()));
		auto list = [&](const shared_ptr <net::folder>& f, const P& at, bool rec) {
			std::multiset <S> g, w; for (auto& x : f->getFolders(rec)) { g.insert(Ev::show(x->getFullPath())); const auto a = x->getAttributes(); P p; for (size_t i = 0 ; i < x->getFullPath().getSize() ; ++i) p.push_back(x->getFullPath()[i].getBuffer()); CHECK(bool(a.getFlags() & net::folderAttributes::FLAG_NO_OPEN) == !t.count(p), "attribute no-open of " + sh(p)); CHECK(bool(a.getFlags() & net::folderAttributes::FLAG_HAS_CHILDREN) == (inner(p) || (cfg & 4)), "attribute has-children of " + sh(p)); CHECK(a.getSpecialUse() == (p == names[0] ? int(net::folderAttributes::SPECIALUSE_INBOX) : int(net::folderAttributes::SPECIALUSE_NONE)), "special use of " + sh(p)); }
			for (auto& p : all) if (under(at, p) && (rec || p.size() == at.size() + 1)) w.insert(sh(p));
			CHECK(g == w, S(rec ? "recursive " : "") + "list of " + sh(at) + ": " + mc::show(std::vector <S>(g.begin(), g.end())) + " instead of " + mc::show(std::vector <S>(w.begin(), w.end())));
		};
		auto root = c->st->getRootFolder(); for (bool rec : {false, true}) { list(root, P(), rec); for (auto& n : names) list(c->st->getFolder(path(n)), n, rec); }
		for (auto& n : names) { auto f = c->st->getFolder(path(n)); CHECK(f->exists() == bool(all.count(n)), "existence of " + sh(n)); CHECK(f->getParent()->getFullPath() == path(P(n.begin(), n.end() - 1)), "parent"); if (t.count(n)) { f->open(net::folder::MODE_READ_ONLY); CHECK(f->getMessageCount() == 0, "count"); f->close(false); const auto a = f->getAttributes(); CHECK(!(a.getFlags() & net::folderAttributes::FLAG_NO_OPEN), "attributes"); } }
		c->ok();
	}
	S key() const { S s = str(touched); for (auto& p : t) s += sh(p) + ";"; return s; }
};

void mc_main(mc::Run& R) {
	initPlatform(); R.property = "C37"; R.level = "model_checking"; const bool T = R.thorough;
	R.rule = "A model IMAP server holds messages whose structure is known by construction; every combination of fetch attributes, ways of obtaining message objects, ranges of every part, string renderings, orders and splits of the responses, and every fragmentation of the server's bytes is executed against the real client; histories of changes (flags, deletion, expunge, copy, append, folders created, renamed, deleted) are explored exhaustively on a model of the mailbox with the real client in step, comparing the server's store, the client's answers and search results. Every command can be refused (NO, BAD) or the connection closed.";
	R.assumptions = {"the server follows RFC 3501; TLS and SASL are covered elsewhere"};

	// creating folders: kind, separator, special use
	{ typedef net::folderAttributes FA; static const std::vector <std::pair <int, S> > uses = {{FA::SPECIALUSE_NONE, ""}, {FA::SPECIALUSE_ALL, "\\All"}, {FA::SPECIALUSE_ARCHIVE, "\\Archive"}, {FA::SPECIALUSE_DRAFTS, "\\Drafts"}, {FA::SPECIALUSE_FLAGGED, "\\Flagged"}, {FA::SPECIALUSE_JUNK, "\\Junk"}, {FA::SPECIALUSE_SENT, "\\Sent"}, {FA::SPECIALUSE_TRASH, "\\Trash"}, {FA::SPECIALUSE_IMPORTANT, "\\Important"}};
	for (char sep : {'/', '.', '\\', '|'}) for (int type : {int(FA::TYPE_CONTAINS_MESSAGES), int(FA::TYPE_CONTAINS_FOLDERS), FA::TYPE_CONTAINS_MESSAGES | FA::TYPE_CONTAINS_FOLDERS}) for (auto& u : uses) for (int can = 0 ; can < 2 ; ++can) for (const S& name : {S("new"), S("A/new"), S("A/b c/n\xc3\xa9w")})
		R.testL([&] { return S("create|") + sep + " type " + str(type) + " use " + u.second + (can ? " supported " : " not supported ") + name; }, [&] {
			Client c; c.w.sep = sep; c.w.box["A"]; c.w.box[S("A") + sep + "b c"]; if (can) c.w.caps.push_back("CREATE-SPECIAL-USE"); c.w.caps.push_back("SPECIAL-USE"); c.start(); auto f = c.folder(name); FA a; a.setType(type); a.setSpecialUse(u.first); const size_t n = c.w.box.size();
			bool refused = false; try { f->create(a); } catch (exceptions::operation_not_supported&) { refused = true; } c.ok();
			CHECK(refused == (!u.second.empty() && !can), "special use " + u.second + (refused ? " is refused" : " is accepted"));
			S want; for (char ch : name) want += ch == '/' ? sep : ch; { const size_t k = want.find("\xc3\xa9"); if (k != S::npos) want.replace(k, 2, "&AOk-"); }
			CHECK(c.w.box.size() == n + !refused && bool(c.w.box.count(want)) == !refused, "the server did not create exactly '" + want + "'");
			if (!refused) { wantEq(c.w.box[want].special, u.second, "special use"); auto g = c.folder(name); CHECK(g->exists(), "existence"); CHECK(g->getAttributes().getSpecialUse() == u.first, "special use read back: " + str(g->getAttributes().getSpecialUse()) + " instead of " + str(u.first));
				bool found = false; for (auto& x : c.st->getRootFolder()->getFolders(true)) if (x->getFullPath() == g->getFullPath()) { found = true; CHECK(x->getAttributes().getSpecialUse() == u.first, "special use in a list"); } CHECK(found, "not in the list of folders"); }
			else CHECK(!f->exists(), "existence");
			c.ok();
		}); }

	// several folders open at once, also ones which only differ in some component of their paths
	const std::vector <S> sib = {"INBOX", "A", "A/x", "B/x", "x", "A/x/x", "B/X"};
	for (size_t a = 0 ; a < sib.size() ; ++a) for (size_t b = 0 ; b < sib.size() ; ++b) for (int same = 0 ; same < 2 ; ++same) R.testL([&] { return "together|" + sib[a] + " " + sib[b] + (same ? " objects of the same store" : ""); }, [&] {
		Client c; for (auto& n : sib) c.w.add(n, "Subject: in " + n + "\r\n\r\n" + n + "\r\n"); c.start(); auto f = c.folder(sib[a]), g = c.folder(sib[b]); f->open(net::folder::MODE_READ_WRITE);
		bool already = false; try { g->open(same ? net::folder::MODE_READ_ONLY : net::folder::MODE_READ_WRITE); } catch (exceptions::folder_already_open&) { already = true; }
		CHECK(already == (a == b), S("opening ") + sib[b] + " while " + sib[a] + " is open " + (already ? "is refused" : "is allowed"));
		auto body = [&](const shared_ptr <net::folder>& x, const S& n) { CHECK(x->isOpen() && x->getMessageCount() == 1, "folder " + n); S t; { utility::outputStreamStringAdapter os(t); x->getMessage(1)->extract(os); } wantEq(t, "Subject: in " + n + "\r\n\r\n" + n + "\r\n", "message of " + n); };
		body(f, sib[a]); if (!already) body(g, sib[b]); body(f, sib[a]); if (!already) g->close(false); body(f, sib[a]); if (already) { f->close(false); g->open(net::folder::MODE_READ_WRITE); body(g, sib[b]); } c.ok();
	});

	// ---- attributes
	const std::vector <int> bits = {fetchAttributes::SIZE, fetchAttributes::FLAGS, fetchAttributes::STRUCTURE, fetchAttributes::UID, fetchAttributes::ENVELOPE, fetchAttributes::FULL_HEADER, fetchAttributes::IMPORTANCE, fetchAttributes::PEEK};
	for (int way = 0 ; way < 5 ; ++way) for (int mask = 1 ; mask < 256 ; ++mask) {
		if (mask == 128) continue;      // nothing to fetch
		if (!T && (mask & 128) && mask % 3) continue;
		R.testL([&] { return "attributes|" + str(way) + " " + str(mask); }, [&] {
			for (int k = 0 ; k < 12 ; ++k) {
				if (!T && k && (mask + way + k) % 5) continue;
				Opened c; knobs(c, k); c.w.condstore = k % 2; c.go(); int a = 0; for (int b = 0 ; b < 8 ; ++b) if (mask >> b & 1) a |= bits[b];
				std::vector <NMsg> v; const fetchAttributes fa(a);
				if (way == 0) { for (size_t i = 1 ; i <= 5 ; ++i) { v.push_back(c.f->getMessage(i)); c.f->fetchMessage(v.back(), fa); } }
				else if (way == 1) { v = c.f->getMessages(messageSet::byNumber(1, size_t(-1))); c.f->fetchMessages(v, fa); }
				else if (way == 2) { v = c.f->getMessages(messageSet::byUID(1, size_t(-1))); c.f->fetchMessages(v, fa); }
				else if (way == 3) v = c.f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fa);
				else v = c.f->getAndFetchMessages(messageSet::byUID(2, 4), fa);
				c.ok(); const size_t first = way == 4 ? 2 : 1; CHECK(v.size() == (way == 4 ? 3u : 5u), str(v.size()) + " messages");
				for (size_t i = 0 ; i < v.size() ; ++i) checkAttributes(v[i], SP()[first + i - 1], c.w.box["INBOX"].m[first + i - 1], first + i, a | (way ? fetchAttributes::UID : 0) | (c.w.extraFlags ? fetchAttributes::FLAGS : 0), c.w.condstore && (way >= 3 || (a & fetchAttributes::UID)));
				const bool seen = (a & fetchAttributes::IMPORTANCE) && !(a & fetchAttributes::FULL_HEADER) && !(a & fetchAttributes::PEEK);
				for (size_t i = 0 ; i < v.size() ; ++i) CHECK(c.w.box["INBOX"].m[first + i - 1]->flags.count("\\Seen") == seen, seen ? "not seen" : "fetching marked the message as read");
				R.outcome(k * 5 + way); R.trace();
			}
		});
	}
	for (int k = 0 ; k < 12 ; ++k) R.testL([&] { return "custom fields|" + str(k); }, [&] {
		Opened c; knobs(c, k); c.go(); fetchAttributes fa(fetchAttributes::PEEK); fa.add("Subject"); fa.add("X-Priority"); fa.add("to");
		auto v = c.f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fa); CHECK(v.size() == 5, "messages"); for (size_t i = 0 ; i < 5 ; ++i) checkAttributes(v[i], SP()[i], c.w.box["INBOX"].m[i], i + 1, A({fetchAttributes::UID}), false, &fa);
		auto w = c.f->getMessages(messageSet::byNumber(1, size_t(-1))); c.f->fetchMessages(w, fa); for (size_t i = 0 ; i < 5 ; ++i) checkAttributes(w[i], SP()[i], c.w.box["INBOX"].m[i], i + 1, A({fetchAttributes::UID}), false, &fa);
		c.ok(); R.outcome(k);
	});
	// two objects for one message
	R.test("attributes|twice in a list", [&] { Opened c; c.go(); auto v = c.f->getMessages(messageSet::byNumber(1, 3)); auto x = c.f->getMessage(2); v.push_back(x); c.f->fetchMessages(v, A({fetchAttributes::SIZE, fetchAttributes::ENVELOPE})); CHECK(x->getSize() == v[1]->getSize() && x->getSize() == SP()[1].root.all().size(), "size"); checkEnvelope(*x->getHeader(), SP()[1]); checkEnvelope(*v[1]->getHeader(), SP()[1]); c.ok(); });

	// ---- contents
	for (size_t i = 1 ; i <= 5 ; ++i) for (int k = 0 ; k < 12 ; ++k) for (int how = 0 ; how < 3 ; ++how) R.testL([&] { return "extract|" + str(i) + " " + str(k) + " " + str(how); }, [&] {
		Opened c; knobs(c, k); c.go(); const Spec& s = SP()[i - 1]; const PMsg pm = c.w.box["INBOX"].m[i - 1]; const S all = s.root.all();
		NMsg m = how == 0 ? c.f->getMessage(i) : how == 1 ? c.f->getMessages(messageSet::byUID(i, i))[0] : c.f->getMessages(messageSet::byNumber(i, i))[0];
		wantEq(take(m), all, "message"); CHECK(!pm->flags.count("\\Seen"), "peeking marked the message as read");
		for (size_t a = 0 ; a <= all.size() + 1 ; a += T ? 3 : 13) for (size_t l : {size_t(1), size_t(5), all.size() / 2, all.size(), all.size() + 9, size_t(-1)}) wantEq(take(m, a, l), a > all.size() ? S() : all.substr(a, l), "range " + str(a) + "+" + str(l));
		wantEq(take(m, 3, 0), "", "empty range");
		c.f->fetchMessage(m, fetchAttributes::STRUCTURE);
		eachPart(m->getStructure(), {s.root}, [&](const shared_ptr <net::messagePart>& p, const MPart& w) {
			const S t = w.all(); wantEq(takePart(m, p), t, "part " + w.type + "/" + w.sub);
			const size_t h = w.header().size(); for (size_t a : {size_t(0), size_t(1), h - 1, h, h + 1, h + 3, t.size() - 1, t.size()}) for (size_t l : {size_t(1), h - 1, h, h + 1, h + 2, t.size(), size_t(-1)}) wantEq(takePart(m, p, a, l), a > t.size() ? S() : t.substr(a, l), "range " + str(a) + "+" + str(l) + " of part " + w.type + "/" + w.sub);
			m->fetchPartHeader(p); vmime::header want; want.parse(w.header()); wantEq(mc::attrs(*constCast <vmime::header>(p->getHeader())), mc::attrs(want), "part header");
		});
		CHECK(!pm->flags.count("\\Seen"), "peeking marked the message as read");
		{ S o; utility::outputStreamStringAdapter os(o); m->extract(os); wantEq(o, all, "message"); } CHECK(pm->flags.count("\\Seen"), "extraction did not mark the message as read");
		CHECK(m->getFlags() & net::message::FLAG_SEEN, "the message object does not know it is read");
		c.ok(); R.outcome(i * 12 + k); R.trace();
	});
	for (size_t i = 1 ; i <= 5 ; ++i) for (int k = 0 ; k < 12 ; ++k) R.testL([&] { return "parsed|" + str(i) + " " + str(k); }, [&] {
		Opened c; knobs(c, k); c.go(); const Spec& s = SP()[i - 1]; auto m = c.f->getMessage(i); auto pm = m->getParsedMessage();
		vmime::message want; want.parse(s.root.all());
		std::function <void(bodyPart&, bodyPart&, const S&)> cmp = [&](bodyPart& g, bodyPart& w, const S& at) {
			wantEq(mc::attrs(*g.getHeader()), mc::attrs(*w.getHeader()), "header of " + at); CHECK(g.getBody()->getPartCount() == w.getBody()->getPartCount(), at + ": " + str(g.getBody()->getPartCount()) + " parts");
			if (!w.getBody()->getPartCount()) {
				wantEq(mc::contentOf(g.getBody()->getContents(), false), mc::contentOf(w.getBody()->getContents(), false), "contents of " + at);
				wantEq(mc::contentOf(g.getBody()->getContents(), true), mc::contentOf(w.getBody()->getContents(), true), "raw contents of " + at);
				CHECK(g.getBody()->getContents()->getLength() == w.getBody()->getContents()->getLength() && g.getBody()->getContents()->isEmpty() == w.getBody()->getContents()->isEmpty(), "length of " + at);
				for (auto& e : {"base64", "quoted-printable", "8bit"}) { S a, b; { utility::outputStreamStringAdapter o(a); g.getBody()->getContents()->generate(o, vmime::encoding(e), 76); } { utility::outputStreamStringAdapter o(b); w.getBody()->getContents()->generate(o, vmime::encoding(e), 76); } wantEq(a, b, S("contents of ") + at + " generated as " + e); }
			}
			for (size_t n = 0 ; n < w.getBody()->getPartCount() ; ++n) cmp(*g.getBody()->getPartAt(n), *w.getBody()->getPartAt(n), at + "/" + str(n + 1));
		};
		cmp(*pm, want, s.name);
		if (s.root.kids.empty()) wantEq(gen(*pm), gen(want), "generated"); else { vmime::message back; back.parse(gen(*pm)); cmp(back, want, s.name + " generated"); }
		c.ok(); R.outcome(i * 12 + k); R.trace();
	});
	R.test("missing|message gone without notice", [&] { for (int way = 0 ; way < 2 ; ++way) { Opened c; c.go(); c.w.noUpdates = true; auto m = c.f->getMessages(messageSet::byUID(2, 2))[0]; c.w.expunge("INBOX", 2); auto& v = c.conn("INBOX")->view; v.erase(v.begin() + 1); bool t = false; S out; try { out = take(m); } catch (exceptions::message_not_found&) { t = true; } CHECK(t && out.empty(), "extraction of a message that does not exist succeeded with '" + esc(out) + "'"); } });

	for (int cond : {0, 3, 5}) mc::lts(R, "mailbox" + str(cond), [cond](bool real) { return std::unique_ptr <Box>(new Box(real, cond)); }, 1, T ? 5 : 3, T ? 2500 : cond ? 60 : 250);
	for (int cfg : {0, 1, 2, 3, 4}) mc::lts(R, "folders" + str(cfg), [cfg](bool real) { return std::unique_ptr <Tree>(new Tree(real, cfg)); }, 1, T ? 7 : 4, T ? 1200 : cfg ? 30 : 110);

	// ---- a complete session; every step is reported on its own
	typedef std::vector <std::pair <S, S> > Trace;
	auto sessionRun = [&](Client& c, Trace& t, bool goOn) {
		shared_ptr <net::folder> f; std::vector <NMsg> v; NMsg one;
		struct Abort {};
		auto op = [&](const S& n, std::function <S()> g) { S r; try { r = g(); } catch (vmime::exception& e) { t.push_back({n, "!"}); if (!goOn) throw Abort(); return; } t.push_back({n, r}); };
		auto nums = [](const std::vector <size_t>& v) { S s; for (size_t x : v) s += str(x) + ","; return s; };
		try {
			op("connect", [&] { c.start(); return S(); });
			if (!c.st || !c.st->isConnected()) throw Abort();
			op("list", [&] { S s; for (auto& x : c.st->getRootFolder()->getFolders(true)) s += x->getFullPath().getLastComponent().getBuffer() + ","; return s; });
			op("open", [&] { f = c.folder("INBOX"); f->open(net::folder::MODE_READ_WRITE); return str(f->getMessageCount()); });
			if (!f || !f->isOpen()) throw Abort();
			op("messages", [&] { v = f->getMessages(messageSet::byNumber(1, size_t(-1))); S s; for (auto& m : v) s += str(m->getNumber()) + ":" + S(m->getUID()) + ","; return s; });
			op("fetch", [&] { f->fetchMessages(v, A({fetchAttributes::SIZE, fetchAttributes::FLAGS, fetchAttributes::ENVELOPE, fetchAttributes::STRUCTURE})); S s; for (auto& m : v) s += str(m->getSize()) + ":" + str(m->getFlags()) + ":" + m->getHeader()->Subject()->generate() + ":" + str(m->getStructure()->getPartCount()) + ","; return s; });
			op("extract", [&] { return take(f->getMessage(2), 0, size_t(-1), false); });
			op("part", [&] { auto m = f->getMessage(2); f->fetchMessage(m, fetchAttributes::STRUCTURE); return takePart(m, m->getStructure()->getPartAt(0)->getPartAt(0)); });
			op("parsed", [&] { auto m = f->getMessage(2); S o; { utility::outputStreamStringAdapter os(o); m->getParsedMessage()->getBody()->getPartAt(1)->getBody()->getContents()->extract(os); } return o; });
			op("flag", [&] { f->setMessageFlags(messageSet::byNumber(1), net::message::FLAG_MARKED, net::message::FLAG_MODE_ADD); return S(); });
			op("append", [&] { const S d = "Subject: a\r\n\r\nA1 OK\r\n"; utility::inputStreamStringAdapter is(d); f->addMessage(is, d.size()); return str(f->getMessageCount()); });
			op("copy", [&] { f->copyMessages(net::folder::path("Copy"), messageSet::byNumber(1, 2)); return S(); });
			op("delete", [&] { f->deleteMessages(messageSet::byNumber(1)); return S(); });
			op("expunge", [&] { f->expunge(); return str(f->getMessageCount()); });
			op("search", [&] { net::imap::IMAPSearchAttributes sa; sa.add(net::imap::IMAPSearchTokenFactory::UNSEEN()); return nums(dynamicCast <net::imap::IMAPFolder>(f)->getMessageNumbersMatchingSearchAttributes(sa, NULL)); });
			op("status", [&] { auto s = f->getStatus(); return str(s->getMessageCount()) + "/" + str(s->getUnseenCount()); });
			op("noop", [&] { dynamicCast <net::imap::IMAPFolder>(f)->noop(); c.st->noop(); return S(); });
			op("create", [&] { net::folderAttributes a; a.setType(net::folderAttributes::TYPE_CONTAINS_MESSAGES); c.folder("x/y")->create(a); return S(); });
			op("rename", [&] { c.folder("x/y")->rename(net::folder::path("x") / net::folder::path::component("z")); return S(); });
			op("exists", [&] { return str(c.folder("x/y")->exists()) + str(c.folder("x/z")->exists()); });
			op("destroy", [&] { c.folder("x/z")->destroy(); return S(); });
			op("close", [&] { f->close(false); return S(); });
			op("disconnect", [&] { c.st->disconnect(); return S(); });
		} catch (Abort&) {}
	};
	auto world = [&](Client& c) { for (size_t i = 0 ; i < 3 ; ++i) { PMsg m = c.w.add("INBOX", SP()[i].root.all()); m->root = std::make_shared <MPart>(SP()[i].root); m->envelope = SP()[i].envelope; } c.w.box["Copy"]; };
	auto showT = [](const Trace& t) { S s; for (auto& x : t) s += x.first + "=" + x.second + "; "; return s; };
	auto store = [](Client& c) { S s; for (auto& b : c.w.box) { s += b.first + "("; for (auto& m : b.second.m) { s += str(m->uid) + "["; for (auto& x : m->flags) s += x + " "; s += "]" + str(m->data.size()) + ","; } s += ")"; } return s; };
	Trace ref; size_t bytes = 0, cmds = 0; S refStore; std::vector <S> refLog, names;
	{ Client c; world(c); c.w.hook = [&](Conn&, const S&, const S& n) { names.push_back(n); return false; }; sessionRun(c, ref, false); bytes = c.net.total; cmds = c.w.log.size(); refStore = store(c); }
	R.test("session|reference", [&] {
		const std::map <S, S> w = {{"list", "INBOX,Copy,"}, {"open", "3"}, {"messages", "1:1,2:2,3:3,"}, {"extract", SP()[1].root.all()}, {"part", SP()[1].root.kids[0].all()}, {"parsed", S("\0\1\2\3", 4)}, {"append", "4"}, {"expunge", "3"}, {"search", "2,3,"}, {"status", "3/2"}, {"exists", "01"}};
		CHECK(ref.size() == 22 && ref.back().first == "disconnect", "session: " + showT(ref)); for (auto& x : ref) { CHECK(x.second != "!", x.first + " failed"); auto i = w.find(x.first); if (i == w.end()) continue; if (x.first == "list") { CHECK(x.second == "INBOX,Copy," || x.second == "Copy,INBOX,", "list"); } else wantEq(x.second, i->second, x.first); }
	});
	auto same = [&](Client& c, const S& what) { Trace t; sessionRun(c, t, false); c.ok(); wantEq(showT(t), showT(ref), what); wantEq(store(c), refStore, "the server's mailboxes"); };
	for (int f : {1, 3}) R.testL([&] { return "session|fragmentation " + str(f); }, [&] { Client c; world(c); c.net.frag = f; same(c, "session"); });
	for (size_t k = 1 ; k <= bytes ; k += T ? 1 : 5) R.testL([&] { return "session|cut " + str(k); }, [&] { Client c; world(c); c.net.frag = 5; c.net.splitAt = k; same(c, "session"); R.outcome(k % 7); });
	for (size_t k = 1 ; k <= 48 ; ++k) R.testL([&] { return "session|pieces " + str(k); }, [&] { Client c; world(c); c.net.frag = 4; c.net.splitAt = k; same(c, "session"); R.outcome(k); });
	// untagged data nobody asked for
	for (auto& x : {"* OK still here", "* OK [ALERT] x", "* 0 RECENT", "* FLAGS (\\Seen \\Answered)", "* CAPABILITY IMAP4rev1 X", "* OK [UNSEEN 1] x", "* NO low on space", "* BAD never mind", "* LIST (\\NoInferiors) \"/\" zz", "* LSUB () \"/\" Copy", "* STATUS Copy (MESSAGES 77 UNSEEN 66 UIDNEXT 99)", "* STATUS INBOX (MESSAGES 77)", "* SEARCH"}) for (int pos = 0 ; pos < 2 ; ++pos) R.testL([&] { return S("session|unasked ") + x + " " + str(pos); }, [&] {
		const S l = x; const bool lst = l.find("LIST") != S::npos, search = l.find("SEARCH") != S::npos, stat = l.find("INBOX (M") != S::npos; bool mute = false;
		auto say = [&](Conn& k) { if (mute) return; k.reply(l); };
		Client c; world(c); S cur; c.w.hook = [&](Conn& k, const S&, const S& n) { cur = n; mute = n == "LOGOUT" || (lst && n == "LIST") || (search && n == "SEARCH") || (stat && n == "STATUS"); if (!pos) say(k); return false; }; if (pos) c.w.beforeDone = say;
		same(c, "session"); R.outcome(l);
	});
	for (size_t k = 0 ; k <= bytes ; k += T ? 1 : 3) for (int f = 0 ; f < (T ? 2 : 1) ; ++f) R.testL([&] { return "broken|" + str(k) + " " + str(f); }, [&] {
		Client c; world(c); c.net.cutTotal = k; c.net.frag = f; Trace t; sessionRun(c, t, false);
		CHECK(!c.net.deadlock, "the client waits although the connection is closed");
		const bool thrown = !t.empty() && t.back().second == "!"; Trace done(t.begin(), t.end() - thrown), w(ref.begin(), ref.begin() + done.size()); wantEq(showT(done), showT(w), "before the connection broke");
		CHECK(thrown || t.back().first == "disconnect", "session ended early without an exception"); CHECK(thrown || k + 60 >= bytes, "a connection broken at " + str(k) + " of " + str(bytes) + " bytes went unnoticed");
		try { if (c.st && c.st->isConnected()) c.st->disconnect(); } catch (vmime::exception&) {}
		CHECK(!c.net.deadlock, "disconnecting hangs"); R.outcome(t.size()); R.trace();
	});
	// ---- deviations: one command is answered in another way and has no effect
	const std::vector <S> devs = {"NO no", "BAD no", "NO [READ-ONLY] x", "BYE", "WRONGTAG OK done", "X", "", "* ", "+ go on", "OK", "late NO", "late BAD"};
	for (size_t at = 0 ; at < names.size() ; ++at) for (auto& d : devs) for (int f : {0, 1}) R.testL([&] { return "reply|" + str(at) + " " + names[at] + " '" + d + "' " + str(f); }, [&] {
		Client c; world(c); size_t n = 0; c.net.frag = f; bool hit = false; const bool late = d.compare(0, 5, "late ") == 0;
		c.w.hook = [&](Conn& k, const S& tag, const S&) {
			if (n++ != at) return false; hit = true;
			if (late) { c.w.failDone = d.substr(5) + " failed"; return false; }
			if (d == "BYE") { k.reply("* BYE going"); k.closed = true; return true; }
			if (d == "NO no" || d == "BAD no" || d[0] == 'N') { k.reply(tag + " " + d); return true; }
			if (d == "OK") { k.reply(tag + " OK done"); return true; }
			if (d == "X" || d.empty()) { k.reply(d); k.closed = true; return true; }
			k.reply(d); k.closed = true; return true;
		};
		Trace t; sessionRun(c, t, false); CHECK(hit, "command not reached"); CHECK(!c.net.deadlock, "the client waits for something the server never sends"); if (d != "OK") c.ok();
		const S cmd = names[at]; const bool optional = cmd == "LOGOUT" || cmd == "CLOSE" || cmd == "CHECK" || cmd == "CAPABILITY" || (cmd == "STATUS" && false);
		const bool thrown = t.back().second == "!"; Trace done(t.begin(), t.end() - thrown), w(ref.begin(), ref.begin() + done.size());
		if (d == "OK") { R.outcome("ok"); for (size_t i = 0 ; i < done.size() ; ++i) if (done[i].first == "extract" || done[i].first == "part" || done[i].first == "parsed") CHECK(done[i].second == ref[i].second, "'" + done[i].first + "' returned '" + esc(done[i].second, 200) + "' although the server sent nothing"); return; }
		CHECK(thrown || optional, "'" + d + "' in reply to " + cmd + " went unnoticed");
		if (!(late && cmd == "EXPUNGE")) wantEq(showT(done), showT(w), "before '" + d + "' in reply to " + cmd);
		R.outcome(d + (thrown ? "t" : "n")); R.trace();
	});
	// a refused command leaves the connection in step: everything else works as if it had not been given
	for (size_t at = 0 ; at < names.size() ; ++at) for (auto& d : {S("NO no"), S("BAD what"), S("late NO"), S("NO")}) for (int f : {0, 1}) R.testL([&] { return "refused|" + str(at) + " " + names[at] + " '" + d + "' " + str(f); }, [&] {
		Client c; world(c); size_t n = 0; c.net.frag = f; const bool late = d == "late NO";
		c.w.hook = [&](Conn& k, const S& tag, const S&) { if (n++ != at) return false; if (late) { c.w.failDone = "NO failed"; return false; } k.reply(tag + " " + d); return true; };
		Trace t; sessionRun(c, t, true); c.ok(); size_t failed = 0;
		auto msgs = [&](const S& s) { size_t k = 0; for (char x : s) k += x == ':'; return k; }; (void) msgs;
		for (auto& x : t) failed += x.second == "!";
		CHECK(failed <= 4, "after one refusal: " + showT(t));
		// what is retrieved is right whatever failed
		for (auto& x : t) for (auto& y : ref) if (x.first == y.first && x.second != "!") {
			if (x.first == "extract" || x.first == "part" || x.first == "parsed" || x.first == "messages" || x.first == "open") wantEq(x.second, y.second, x.first + " after a refusal of " + names[at]);
		}
		Client r; world(r);
		if (!t.empty() && t.back().first == "disconnect") { CHECK(c.w.box["INBOX"].m.size() >= 2, "messages lost"); }
		R.outcome(str(failed) + d); R.trace();
	});
}
