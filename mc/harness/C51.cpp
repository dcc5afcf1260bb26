// C51: what a message of others contains is found: its texts, the objects they refer to, its attachments, its date and importance.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/generatedMessageAttachment.hpp"
#include "vmime/misc/importanceHelper.hpp"
using namespace vmime;
using misc::importanceHelper;

static S data(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); c->extract(os); return o; }
static S low(S s) { for (auto& c : s) c = char(tolower(c)); return s; }

struct Type { const char* line; const char* type; const char* name; const char* cs; };
static const std::vector <Type> TYPES = {
	{"", "", "", "us-ascii"}, {"text/plain; charset=utf-8", "text/plain", "", "utf-8"}, {"TEXT/HTML; Charset=\"iso-8859-1\"", "text/html", "", "iso-8859-1"}, {"image/png", "image/png", "", ""},
	{"application/octet-stream; name=\"n t.bin\"", "application/octet-stream", "n t.bin", ""}, {"text/calendar", "text/calendar", "", ""}, {"text/plain; name=t.txt", "text/plain", "t.txt", "us-ascii"}, {"message/rfc822", "message/rfc822", "", ""}, {"Application/PDF", "application/pdf", "", ""} };
struct Disp { const char* line; const char* kind; const char* file; };
static const std::vector <Disp> DISPS = {{"", "", ""}, {"inline", "inline", ""}, {"attachment; filename=\"f.x\"", "attachment", "f.x"}, {"Attachment", "attachment", ""}, {"x-other", "x-other", ""}, {"INLINE; filename=g.y", "inline", "g.y"}};
static const size_t IDS = 6;   // none, Content-Id, Content-Location, both, Content-Id with nothing in it, Content-Location with nothing in it

struct Node { bool leaf = true; S container; size_t type = 0, disp = 0, id = 0, enc = 0, n = 0, ref = 0; std::vector <Node> kids; const Node* parent = nullptr; };
static Node leaf(size_t t, size_t d, size_t i, size_t ref = 0) { Node n; n.type = t; n.disp = d; n.id = i; n.ref = ref; return n; }
static Node box(const S& c, std::vector <Node> k) { Node n; n.leaf = false; n.container = c; n.kids = k; return n; }
static void number(Node& n, const Node* parent, size_t& k) { n.parent = parent; if (n.leaf) { n.n = k++; n.enc = n.n % 3; } for (auto& c : n.kids) number(c, &n, k); }
static S cid(const Node& n) { return S("obj") + char('a' + n.n) + "z@x.y"; }
static S loc(const Node& n) { return S("http://h/") + char('a' + n.n) + "z.png"; }
static bool hasCid(const Node& n) { return n.id == 1 || n.id == 3 || n.id == 4; }
static bool hasLoc(const Node& n) { return n.id == 2 || n.id == 3 || n.id == 5; }
/** what a leaf contains; an HTML text refers to what 'ref' says: 1 identifiers, 2 locations, 4 only those of odd leaves */
static S content(const Node& n, size_t total) {
	if (S(TYPES[n.type].type) == "message/rfc822") return S("Subject: inner") + char('a' + n.n) + "\r\n\r\ninner text";
	if (S(TYPES[n.type].type) == "text/html") { S o = S("<p cid:>") + char('A' + n.n); for (size_t k = 0 ; k < total ; ++k) { Node o_; o_.n = k; if ((n.ref & 4) && k % 2 == 0) continue; if (n.ref & 1) o += (k % 2 ? "\"cid:" : "\"CID:") + cid(o_) + "\""; if (n.ref & 2) o += "'" + loc(o_) + "'"; } return o + "</p>"; }
	return S("content ") + char('a' + n.n) + " = x";
}
static bool refersCid(const Node& html, const Node& o) { return (html.ref & 1) && !((html.ref & 4) && o.n % 2 == 0) && (o.id == 1 || o.id == 3); }
static bool refersLoc(const Node& html, const Node& o) { return (html.ref & 2) && !((html.ref & 4) && o.n % 2 == 0) && (o.id == 2 || o.id == 3); }
static S encode(const S& s, size_t e) {
	if (e == 1) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; for (size_t i = 0 ; i < s.size() ; i += 3) { unsigned v = 0; int n = 0; for (size_t k = 0 ; k < 3 ; ++k) { v <<= 8; if (i + k < s.size()) { v |= (unsigned char) s[i + k]; ++n; } } for (int k = 0 ; k < 4 ; ++k) o += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='; if (i % 54 == 51) o += "\r\n"; } return o; }
	if (e == 2) { S o; for (char c : s) o += c == '=' ? S("=3D") : S(1, c); return o; }
	return s;
}
static S text_(const Node& n, size_t total, size_t depth, bool root) {
	S h = root ? "From: f@x\r\nSubject: s\r\n" : "";
	if (!n.leaf) { const S b = "=_b" + str(depth) + "_" + str(n.kids[0].leaf ? n.kids[0].n : 77); S o = h + "Content-Type: multipart/" + n.container + "; boundary=\"" + b + "\"\r\n\r\nprolog\r\n"; for (auto& k : n.kids) o += "--" + b + "\r\n" + text_(k, total, depth + 1, false) + "\r\n"; return o + "--" + b + "--\r\n"; }
	if (*TYPES[n.type].line) h += S("Content-Type: ") + TYPES[n.type].line + "\r\n";
	if (*DISPS[n.disp].line) h += S("Content-Disposition: ") + DISPS[n.disp].line + "\r\n";
	const size_t e = S(TYPES[n.type].type) == "message/rfc822" ? 0 : n.enc; h += e == 1 ? "Content-Transfer-Encoding: base64\r\n" : e == 2 ? "Content-Transfer-Encoding: Quoted-Printable\r\n" : "";
	if (n.id == 1 || n.id == 3) h += "Content-Id: <" + cid(n) + ">\r\n"; if (n.id == 4) h += "Content-Id: <>\r\n"; if (hasLoc(n)) h += "Content-Location: " + (n.id == 5 ? S() : loc(n)) + "\r\n";
	if (n.n % 2) h += S("Content-Description: about ") + char('a' + n.n) + "\r\n";
	return h + "\r\n" + encode(content(n, total), e);
}
static void leaves(const Node& n, std::vector <const Node*>& o) { if (n.leaf) o.push_back(&n); for (auto& k : n.kids) leaves(k, o); }
static S typeOf(const Node& n) { return TYPES[n.type].type; }
static bool isText(const Node& n) { return typeOf(n).substr(0, 5) == "text/"; }

/** is the part an attachment? 1 yes, 0 no, -1 not specified */
static int attachment_(const Node& n, bool objects) {
	const S d = DISPS[n.disp].kind; const bool root = !n.parent;
	if (!d.empty() && d != "inline") return 1;
	if (d == "inline" && !objects) return !hasCid(n) && !hasLoc(n) && !root;
	if (typeOf(n).empty()) return root ? 0 : -1;
	if (isText(n)) return 0;
	return *TYPES[n.type].name || objects || !hasCid(n);
}
/** is the part a text of the message? */
static int textPart_(const Node& n) {
	const S d = DISPS[n.disp].kind; const S t = typeOf(n).empty() ? "text/plain" : typeOf(n);
	if (t != "text/plain" && t != "text/html") return 0;
	if (d.empty() || d == "inline") return 1;
	return n.parent ? 0 : -1;
}
/** the plain text which is an alternative of a HTML part: in the nearest multipart/alternative of which the part, or its parent, is a member */
static const Node* plainOf(const Node& html) {
	const Node* child = &html; const Node* p = html.parent;
	for (int up = 0 ; p && up < 2 ; ++up, child = p, p = p->parent) if (p->container == "alternative") for (auto& k : p->kids) if (k.leaf && typeOf(k) == "text/plain") return &k;
	(void) child; return nullptr;
}
static void partsOf(const shared_ptr <const bodyPart>& p, std::vector <shared_ptr <const bodyPart> >& o) { if (p->getBody()->getPartCount() == 0) o.push_back(p); for (auto& k : p->getBody()->getPartList()) partsOf(k, o); }

static void check(mc::Run& R, Node root) {
	size_t total = 0; number(root, nullptr, total); const S src = text_(root, total, 0, true); std::vector <const Node*> L; leaves(root, L);
	auto m = make_shared <message>(); m->parse(src); std::vector <shared_ptr <const bodyPart> > P; partsOf(m, P); R.equal(P.size(), L.size(), "parts of " + R.show(src)); R.transition();
	S oc;
	for (int objects = 0 ; objects < 2 ; ++objects) {
		const S ctx = S(objects ? " (objects)" : "") + " of " + R.show(src); auto atts = attachmentHelper::findAttachmentsInMessage(m, objects ? attachmentHelper::INLINE_OBJECTS : 0); size_t at = 0;
		for (size_t i = 0 ; i < L.size() ; ++i) { const Node& n = *L[i]; const int want = attachment_(n, objects); const bool is = attachmentHelper::isBodyPartAnAttachment(P[i], objects ? attachmentHelper::INLINE_OBJECTS : 0); const S what = "leaf " + str(i) + ctx;
			if (want >= 0) CHECK(is == (want != 0), what + (is ? " is taken for an attachment" : " is not found as an attachment")); auto one = attachmentHelper::getBodyPartAttachment(P[i], objects ? attachmentHelper::INLINE_OBJECTS : 0); CHECK((one != nullptr) == is, "attachment of " + what); if (!is) continue;
			CHECK(at < atts.size(), "missing attachment " + what); auto a = atts[at++]; oc += str(i) + "a"; CHECK(a->getPart() == P[i], "order of the attachments, at " + what); CHECK(a->getHeader() == P[i]->getHeader(), "header of the attachment " + what);
			for (auto& b : {a, shared_ptr <const attachment>(one)}) { R.equal(b->getType().generate(), typeOf(n).empty() ? S("application/octet-stream") : typeOf(n), "type of " + what); R.equal(b->getName().getBuffer(), S(*DISPS[n.disp].file ? DISPS[n.disp].file : TYPES[n.type].name), "name of " + what); R.equal(data(b->getData()), content(n, total), "data of " + what); R.equal(b->getDescription().getWholeBuffer(), n.n % 2 ? S("about ") + char('a' + n.n) : S(), "description of " + what);
				R.equal(b->getEncoding().getName(), typeOf(n) == "message/rfc822" || n.enc == 0 ? S("7bit") : n.enc == 1 ? S("base64") : S("quoted-printable"), "encoding of " + what);
				if (typeOf(n) == "message/rfc822") { auto ma = dynamicCast <const messageAttachment>(b); CHECK(ma, "no message attachment " + what); R.equal(ma->getMessage()->getHeader()->Subject()->getValue <text>()->getWholeBuffer(), S("inner") + char('a' + n.n), "attached message of " + what); R.equal(data(ma->getMessage()->getBody()->getContents()), S("inner text"), "text of the attached message of " + what); CHECK(ma->getMessage() == ma->getMessage(), "another message " + what); } } }
		CHECK(at == atts.size(), "more attachments than parts" + ctx);
	}
	for (int how = 0 ; how < 2 ; ++how) {
		shared_ptr <messageParser> mp = how ? make_shared <messageParser>(src) : make_shared <messageParser>(shared_ptr <const message>(m)); const S ctx = " of " + R.show(src); R.equal(mp->getAttachmentCount(), attachmentHelper::findAttachmentsInMessage(m).size(), "number of attachments" + ctx);
		R.equal(mp->getSubject().getWholeBuffer(), S("s"), "subject" + ctx); R.equal(mp->getExpeditor().getEmail().toString(), S("f@x"), "sender" + ctx);
		// texts: those of one container in order
		std::multiset <S> want, got, open; std::map <const Node*, std::vector <S> > byBox; std::map <S, size_t> place;
		auto show = [](const S& t, const S& cs, const S& d) { return t + "|" + cs + "|" + d; };
		for (auto n : L) { const int w = textPart_(*n); const S t = typeOf(*n).empty() ? "text/plain" : typeOf(*n); const S s = show(t, low(*TYPES[n->type].cs ? TYPES[n->type].cs : "us-ascii"), content(*n, total)); if (w == 1) { want.insert(s); byBox[n->parent].push_back(s); } else if (w < 0) open.insert(s); }
		size_t k = 0; for (auto& t : mp->getTextPartList()) { const S s = show(low(t->getType().generate()), low(t->getCharset().getName()), data(t->getText())); if (open.count(s)) continue; got.insert(s); place[s] = k++; }
		auto list = [](const std::multiset <S>& x) { S o; for (auto& s : x) o += "[" + s + "]"; return o; }; R.equal(list(got), list(want), "texts" + ctx); oc += list(got);
		for (auto& b : byBox) for (size_t i = 1 ; i < b.second.size() ; ++i) CHECK(b.second[i] == b.second[i - 1] || place[b.second[i - 1]] < place[b.second[i]], "order of the texts" + ctx);
		// HTML: its plain text and its objects
		for (auto& t : mp->getTextPartList()) if (auto h = dynamicCast <const htmlTextPart>(t)) {
			const S d = data(t->getText()); const Node* n = nullptr; size_t same = 0; for (auto x : L) if (typeOf(*x) == "text/html" && content(*x, total) == d) { n = x; ++same; } CHECK(n, "text of nobody"); 
			std::multiset <S> wo, go; for (auto o : L) { if (!o->parent) continue; if (refersCid(*n, *o)) wo.insert("cid:" + cid(*o) + "|" + content(*o, total) + "|" + typeOf(*o)); if (refersLoc(*n, *o)) wo.insert(loc(*o) + "|" + content(*o, total) + "|" + typeOf(*o)); }
			for (size_t i = 0 ; i < h->getObjectCount() ; ++i) { auto o = h->getObjectAt(i); S ty = o->getType().generate(); for (auto x : L) if (typeOf(*x).empty() && (o->getId() == cid(*x) || o->getId() == loc(*x))) ty = ""; go.insert(o->getReferenceId() + "|" + data(o->getData()) + "|" + ty); CHECK(h->findObject(o->getReferenceId()) == o && h->hasObject(o->getReferenceId()), "object not found" + ctx); CHECK(h->findObject(o->getId()) == o, "object not found by its identifier" + ctx); }
			R.equal(list(go), list(wo), "objects" + ctx);
			if (same == 1) { const Node* p = plainOf(*n); R.equal(data(h->getPlainText()), p ? content(*p, total) : S(), "plain text of the HTML part" + ctx); }
		}
	}
	R.outcome(oc);
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C51";
	R.rule = "every message which is one leaf (9 kinds of Content-Type x 6 of Content-Disposition x 6 of identifiers x 7 kinds of references), or a mixed, alternative or related multipart of every pair of leaves (9 x 6 x 3, thorough 6), or one of 8 structures with 3 leaves (12 kinds, thorough 24) and of 2 with 4; with contents in 7bit, base64 and quoted-printable: attachments with both options, and all that messageParser tells, against the rules applied to the tree from which the message was written; all values of X-Priority and Importance (12 x 9, repeated), and dates of up to two Received and one Date fields";
	R.assumptions = {"whether a part without type and disposition is an attachment, and whether a root which is declared to be an attachment is also a text, is not specified", "references to identifiers of which another is the beginning are not used", "multiparts have no disposition", "order of texts of different containers is not specified"};
	const bool T = R.thorough;
	for (size_t t = 0 ; t < TYPES.size() ; ++t) for (size_t d = 0 ; d < DISPS.size() ; ++d) for (size_t i = 0 ; i < IDS ; ++i) for (size_t ref = 0 ; ref < 8 ; ++ref) { if (ref && S(TYPES[t].type) != "text/html") continue; R.testL([&] { return "one|" + str(t) + "|" + str(d) + "|" + str(i) + "|" + str(ref); }, [&] { check(R, leaf(t, d, i, ref)); }); }
	std::vector <std::array <size_t, 3> > A; for (size_t t = 0 ; t < TYPES.size() ; ++t) for (size_t d = 0 ; d < DISPS.size() ; ++d) for (size_t i = 0 ; i < IDS ; ++i) if (T || i < 2 || (i == 5 && d == 0) || (i == 2 && t % 3 == 0)) A.push_back({t, d, i});
	for (size_t a = 0 ; a < A.size() ; ++a) for (size_t b = 0 ; b < A.size() ; ++b) for (const S c : {"mixed", "alternative", "related"}) for (size_t ref : {0, 3, 5}) { const bool html = A[a][0] == 2 || A[b][0] == 2; if (ref && !html) continue; if (!T && c != "alternative" && !html && (a + b) % 2) continue;
		R.testL([&] { return "two|" + c + "|" + str(a) + "|" + str(b) + "|" + str(ref); }, [&] { check(R, box(c, {leaf(A[a][0], A[a][1], A[a][2], ref), leaf(A[b][0], A[b][1], A[b][2], ref)})); }); }
	std::vector <std::array <size_t, 3> > B = {{0, 0, 0}, {1, 0, 0}, {1, 2, 0}, {2, 0, 0}, {2, 1, 1}, {3, 0, 1}, {3, 1, 3}, {3, 3, 2}, {4, 0, 4}, {5, 0, 0}, {7, 0, 0}, {1, 1, 5}};
	if (T) for (auto& x : std::vector <std::array <size_t, 3> >{{0, 2, 0}, {0, 1, 1}, {1, 4, 0}, {2, 5, 0}, {2, 0, 3}, {4, 5, 1}, {6, 0, 0}, {6, 1, 2}, {7, 1, 1}, {8, 0, 2}, {8, 3, 1}, {5, 1, 3}}) B.push_back(x);
	for (size_t a = 0 ; a < B.size() ; ++a) for (size_t b = 0 ; b < B.size() ; ++b) for (size_t c = 0 ; c < B.size() ; ++c) for (size_t st = 0 ; st < 10 ; ++st) for (size_t ref : {3, 6}) {
		if (ref == 6 && B[a][0] != 2 && B[b][0] != 2 && B[c][0] != 2) continue;
		R.testL([&] { return "three|" + str(a) + "|" + str(b) + "|" + str(c) + "|" + str(st) + "|" + str(ref); }, [&] {
			const Node x = leaf(B[a][0], B[a][1], B[a][2], ref), y = leaf(B[b][0], B[b][1], B[b][2], ref), z = leaf(B[c][0], B[c][1], B[c][2], ref); Node r;
			switch (st) { case 0: r = box("mixed", {x, y, z}); break; case 1: r = box("mixed", {box("alternative", {x, y}), z}); break; case 2: r = box("alternative", {x, box("related", {y, z})}); break; case 3: r = box("alternative", {x, box("alternative", {y, z})}); break; case 4: r = box("related", {box("alternative", {x, y}), z}); break;
				case 5: r = box("mixed", {x, box("mixed", {y, z})}); break; case 6: r = box("mixed", {box("related", {x, y}), z}); break; case 7: r = box("mixed", {box("alternative", {x, box("related", {y, z})})}); break;
				case 8: r = box("mixed", {box("alternative", {x, y}), box("alternative", {z, leaf(2, 0, 0, ref)})}); break; case 9: r = box("mixed", {box("alternative", {leaf(1, 0, 0), box("related", {x, y})}), z}); break; }
			check(R, r); });
	}
	// importance
	const std::vector <S> prio = {"-", "1", "2", "3", "4", "5", "1 (Highest)", " 2 (High)", "5 (Lowest)", "0", "6", "x"}, imp = {"-", "high", "HIGH", "low", " Low ", "normal", "Normal", "", "other"};
	for (size_t p = 0 ; p < prio.size() ; ++p) for (size_t i = 0 ; i < imp.size() ; ++i) for (size_t twice = 0 ; twice < 3 ; ++twice) R.testL([&] { return "importance|" + prio[p] + "|" + imp[i] + "|" + str(twice); }, [&] {
		S src = "Subject: s\r\n"; if (prio[p] != "-") src += "X-Priority: " + prio[p] + "\r\n"; if (imp[i] != "-") src += "importance: " + imp[i] + "\r\n"; if (twice == 1) src += "X-PRIORITY: 4\r\n"; if (twice == 2) src += "Importance: high\r\nX-Foo: 1\r\n"; src += "\r\ntext"; const S pe = prio[p] != "-" ? prio[p] : twice == 1 ? "4" : "-", ie = imp[i] != "-" ? imp[i] : twice == 2 ? "high" : "-";
		int want = importanceHelper::IMPORTANCE_NORMAL; if (pe != "-") { for (char c : pe) if (c != ' ') { want = c == '1' ? importanceHelper::IMPORTANCE_HIGHEST : c == '2' ? importanceHelper::IMPORTANCE_HIGH : c == '4' ? importanceHelper::IMPORTANCE_LOW : c == '5' ? importanceHelper::IMPORTANCE_LOWEST : importanceHelper::IMPORTANCE_NORMAL; break; } } else { S l; for (char c : low(ie)) if (c != ' ') l += c; if (l == "high") want = importanceHelper::IMPORTANCE_HIGHEST; if (l == "low") want = importanceHelper::IMPORTANCE_LOWEST; }
		auto m = make_shared <message>(); m->parse(src); R.equal(int(importanceHelper::getImportance(m)), want, "importance of " + R.show(src)); R.equal(int(importanceHelper::getImportanceHeader(m->getHeader())), want, "importance of the header"); R.outcome(str(want) + str(twice)); R.transition();
		for (int l = importanceHelper::IMPORTANCE_HIGHEST ; l <= importanceHelper::IMPORTANCE_LOWEST ; ++l) { importanceHelper::setImportance(m, importanceHelper::Importance(l)); R.equal(int(importanceHelper::getImportance(m)), l, "importance set in " + R.show(src)); auto q = make_shared <message>(); q->parse(m->generate()); R.equal(int(importanceHelper::getImportance(q)), l, "importance set, generated and parsed again"); R.equal(q->getHeader()->Subject()->getValue <text>()->getWholeBuffer(), S("s"), "subject"); CHECK(!twice || twice == 1 || q->getHeader()->hasField("X-Foo"), "other fields");
			// the second field says the same, as far as it can
			auto h = vmime::clone(q->getHeader()); h->removeAllFields("X-Priority"); const int wi = l <= importanceHelper::IMPORTANCE_HIGH ? importanceHelper::IMPORTANCE_HIGHEST : l == importanceHelper::IMPORTANCE_NORMAL ? importanceHelper::IMPORTANCE_NORMAL : importanceHelper::IMPORTANCE_LOWEST; R.equal(int(importanceHelper::getImportanceHeader(h)), wi, "Importance field"); }
		importanceHelper::resetImportance(m); R.equal(int(importanceHelper::getImportance(m)), int(importanceHelper::IMPORTANCE_NORMAL), "importance after reset of " + R.show(src)); CHECK(!m->getHeader()->hasField("X-Priority") && !m->getHeader()->hasField("Importance"), "field left by reset of " + R.show(src)); R.equal(m->getHeader()->getFieldCount(), size_t(twice == 2 ? 2 : 1), "fields left");
	});
	// date
	const std::vector <S> recv = {"-", "from a by b; Mon, 2 Mar 2020 10:00:00 +0100", "from a by b", "", "by c with d for <x@y>; Tue, 3 Mar 2020 11:11:11 +0000"}, dates = {"-", "Wed, 4 Mar 2020 12:12:12 -0500"};
	for (size_t a = 0 ; a < recv.size() ; ++a) for (size_t b = 0 ; b < recv.size() ; ++b) for (size_t d = 0 ; d < 2 ; ++d) for (int first = 0 ; first < 2 ; ++first) R.testL([&] { return "date|" + str(a) + "|" + str(b) + "|" + str(d) + "|" + str(first); }, [&] {
		S src, D = d ? "Date: " + dates[1] + "\r\n" : S(); if (first) src += D; if (a) src += "Received: " + recv[a] + "\r\n"; if (b) src += "Received: " + recv[b] + "\r\n"; if (!first) src += D; src += "\r\nx";
		const size_t top = a ? a : b; const time_t before = time(nullptr); messageParser mp(src); datetime g = mp.getDate(); const time_t after = time(nullptr); R.transition();
		S want = top == 1 ? "Mon, 2 Mar 2020 10:00:00 +0100" : top == 4 ? "Tue, 3 Mar 2020 11:11:11 +0000" : d ? dates[1] : S(); if (want.empty()) CHECK(g >= datetime(before) && g <= datetime(after), "date of " + R.show(src) + " is " + g.generate()); else R.equal(g.generate(), want, "date of " + R.show(src)); R.outcome(want); });
}
