// C19: messageBuilder -> generate -> parse -> messageParser gives back what was put in.
#include "mc_main.hpp"
#include "dump.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/parsedMessageAttachment.hpp"
#include "vmime/generatedMessageAttachment.hpp"
using namespace vmime;

static S data(const shared_ptr <const contentHandler>& c) { return mc::contentOf(c, false); }
static S addrs(const addressList& l) { addressList k(l); return mc::attrs(k); }
static shared_ptr <contentHandler> str_(const S& s) { return make_shared <stringContentHandler>(s); }
static mailbox MB(const S& n, const S& e) { return n.empty() ? mailbox(emailAddress(e)) : mailbox(text(n, charset("utf-8")), emailAddress(e)); }
struct Att { S name, nameCs, type, sub, desc, content; int kind; size_t size = 0; };   // kind 0 default, 1 file, 2 message, 3 default with a chosen encoding
static const S INNER = "From: x@y.z\r\nSubject: inner\r\nContent-Type: multipart/mixed; boundary=ib\r\n\r\nprolog\r\n--ib\r\nContent-Type: text/plain\r\n\r\ninner text\r\n--ib\r\nContent-Type: a/b\r\nContent-Disposition: attachment; filename=in\r\n\r\ninner att\r\n--ib--\r\n";
static shared_ptr <attachment> make(const Att& a) {
	const mediaType t(a.type, a.sub); const text d = a.desc.empty() ? text() : text(a.desc, charset("utf-8")); const word n(a.name, charset(a.nameCs));
	switch (a.kind) {
		case 1: return make_shared <fileAttachment>(str_(a.content), n, t, d);
		case 2: { auto m = make_shared <message>(); m->parse(a.content); return make_shared <parsedMessageAttachment>(m); }
		case 3: return make_shared <defaultAttachment>(str_(a.content), encoding("quoted-printable"), t, d, n);
		case 4: return make_shared <fileAttachment>(str_(a.content), n, t, d, encoding("7bit"));
	}
	return make_shared <defaultAttachment>(str_(a.content), t, d, n);
}
struct Obj { S content, type, sub; };
struct Txt { bool html; S plain, htmlText, cs; std::vector <Obj> objs; };

static void checkAtts(const messageParser& mp, const std::vector <Att>& atts) {
	if (mp.getAttachmentCount() != atts.size()) throw mc::Violated("attachments: " + str(mp.getAttachmentCount()) + ", expected " + str(atts.size()));
	for (size_t i = 0 ; i < atts.size() ; ++i) { auto a = mp.getAttachmentAt(i); auto& w = atts[i]; const S n = "attachment " + str(i) + " ";
		auto eq = [&](const S& what, const S& g, const S& e) { if (g != e) throw mc::Violated(n + what + ": '" + esc(g) + "', expected '" + esc(e) + "'"); };
		eq("type", a->getType().generate(), w.type + "/" + w.sub); eq("data", data(a->getData()), w.content);
		CHECK(mp.getAttachmentList()[i] == a, n + "list");
		if (w.kind != 2) { eq("name", a->getName().getBuffer(), w.name); if (!w.name.empty() && w.name.find_first_not_of("abcdefghijklmnopqrstuvwxyz. ") != S::npos) eq("charset of name", a->getName().getCharset().getName(), w.nameCs); eq("description", a->getDescription().getConvertedText(charset("utf-8")), w.desc); }
		else { auto m = dynamicCast <const messageAttachment>(a); CHECK(m, n + "is no message attachment"); eq("message", m->getMessage()->generate(), w.content); }
		if (w.kind == 1) { auto cdf = a->getHeader()->findField <contentDispositionField>("Content-Disposition"); CHECK(cdf && cdf->hasSize(), n + "has no size"); eq("size", cdf->getSize(), str(w.content.size())); } }
}
static void checkText(const messageParser& mp, const Txt& t, const std::vector <S>& ids, bool hdrOnly = false) {
	auto eq = [&](const S& what, const S& g, const S& e) { if (g != e) throw mc::Violated(what + ": '" + esc(g) + "', expected '" + esc(e) + "'"); };
	const bool two = t.html && !t.plain.empty(); size_t k = 0;
	if (mp.getTextPartCount() != (two ? 2 : 1)) throw mc::Violated("text parts: " + str(mp.getTextPartCount()));
	if (!t.html || two) { auto p = mp.getTextPartAt(k++); eq("type", p->getType().generate(), "text/plain"); eq("plain text", data(p->getText()), t.plain); eq("charset", p->getCharset().getName(), t.cs); }
	if (t.html) { auto p = dynamicCast <const htmlTextPart>(mp.getTextPartAt(k)); CHECK(p, "no HTML part"); eq("HTML text", data(p->getText()), t.htmlText); eq("charset", p->getCharset().getName(), t.cs); eq("plain text of the HTML part", data(p->getPlainText()), t.plain);
		if (p->getObjectCount() != ids.size()) throw mc::Violated("objects: " + str(p->getObjectCount()) + ", expected " + str(ids.size()));
		for (size_t i = 0 ; i < ids.size() ; ++i) for (const S& pre : {S(), S("cid:"), S("CID:")}) { CHECK(p->hasObject(pre + ids[i]), "object " + ids[i] + " not found"); auto o = p->findObject(pre + ids[i]); CHECK(o == p->getObjectAt(i), "another object"); eq("object data", data(o->getData()), t.objs[i].content); eq("object type", o->getType().generate(), t.objs[i].type + "/" + t.objs[i].sub); eq("object id", o->getId(), ids[i]); eq("reference", o->getReferenceId(), "cid:" + ids[i]); }
		CHECK(!p->hasObject("cid:none@x") && !p->findObject("none@x"), "unknown object found"); }
}
/** text part of a builder; returns the identifiers of the objects; 'T' in the HTML text gets the references */
static std::vector <S> setText(messageBuilder& mb, Txt& t) {
	std::vector <S> ids;
	if (!t.html) { mb.getTextPart()->setCharset(charset(t.cs)); mb.getTextPart()->setText(str_(t.plain)); return ids; }
	mb.constructTextPart(mediaType("text", "html")); auto p = dynamicCast <htmlTextPart>(mb.getTextPart()); p->setCharset(charset(t.cs)); if (!t.plain.empty()) p->setPlainText(str_(t.plain));
	for (size_t i = 0 ; i < t.objs.size() ; ++i) { auto o = i % 2 ? p->addObject(t.objs[i].content, mediaType(t.objs[i].type, t.objs[i].sub)) : p->addObject(str_(t.objs[i].content), encoding(i ? "quoted-printable" : "base64"), mediaType(t.objs[i].type, t.objs[i].sub)); ids.push_back(o->getId()); t.htmlText += "<img src=\"" + o->getReferenceId() + "\">"; }
	p->setText(str_(t.htmlText)); return ids;
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C19";
	R.rule = "builder inputs -> construct -> generate (limits 78 and none) -> parse -> messageParser: all combinations of sender, recipient lists, subject; all text contents of up to 3 (thorough 5) critical pieces as plain text, HTML, alternative and with 0-2 objects, in 4 charsets; all attachment lists of up to 2 (thorough 3) of 8 kinds with every text kind; attachments added afterwards (0-2, to built messages before and after a round trip, and to parsed messages of 10 structures): everything given comes back in order and nothing else";
	R.assumptions = {"at least the first recipient of one list is not empty", "object identifiers are unique and referenced in the HTML text"};
	auto roundtrip = [](const shared_ptr <message>& m, size_t limit) { auto n = make_shared <message>(); generationContext c; c.setMaxLineLength(limit); S o; utility::outputStreamStringAdapter os(o); m->generate(c, os); n->parse(o); return n; };
	// addresses and subject
	std::vector <addressList> lists(7); lists[1].appendAddress(make_shared <mailbox>(MB("", "a@b.c"))); lists[2].appendAddress(make_shared <mailbox>(MB("A, \"B\"", "a@b.c"))); lists[2].appendAddress(make_shared <mailbox>(MB("J\xc3\xa9r", "c@d.e")));
	{ auto g = make_shared <mailboxGroup>(text("G")); g->appendMailbox(make_shared <mailbox>(MB("", "a@b.c"))); g->appendMailbox(make_shared <mailbox>(MB("X", "d@e.f"))); lists[3].appendAddress(g); lists[4].appendAddress(vmime::clone(g)); lists[4].appendAddress(make_shared <mailbox>(MB("M", "m@n.o"))); }
	lists[5].appendAddress(make_shared <mailboxGroup>(text("undisclosed-recipients"))); for (int i = 0 ; i < 12 ; ++i) lists[6].appendAddress(make_shared <mailbox>(MB("Name N" + str(i), "some.address" + str(i) + "@host.example.com")));
	const std::vector <mailbox> froms = {mailbox(), MB("", "f@g.h"), MB("Fr\xc3\xb6m. X", "f@g.h")};
	const std::vector <S> subjects = {"", "s", "caf\xc3\xa9 \xe2\x82\xac", S(100, 'x') + " y", "a =?b? c", "two  spaces"};
	for (size_t f = 0 ; f < froms.size() ; ++f) for (size_t to = 0 ; to < lists.size() ; ++to) for (size_t cc = 0 ; cc < 5 ; ++cc) for (size_t bcc = 0 ; bcc < 5 ; ++bcc) for (size_t s = 0 ; s < subjects.size() ; ++s) {
		if (!to && !cc && !bcc) { if (s) continue; R.test("norecipient|" + str(f), [&] { messageBuilder mb; mb.setExpeditor(froms[f]); bool t = false; try { mb.construct(); } catch (exceptions::no_recipient&) { t = true; } CHECK(t, "no exception for a message without recipients"); }); continue; }
		R.testL([&] { return "header|" + str(f) + "|" + str(to) + "|" + str(cc) + "|" + str(bcc) + "|" + str(s); }, [&] {
			messageBuilder mb; if (f) mb.setExpeditor(froms[f]); if (to) mb.setRecipients(lists[to]); if (cc) mb.setCopyRecipients(lists[cc]); if (bcc) for (auto& a : lists[bcc].getAddressList()) mb.getBlindCopyRecipients().appendAddress(vmime::clone(a)); text sub; if (s) { sub = text(subjects[s], charset("utf-8")); mb.setSubject(sub); }
			mb.getTextPart()->setText(str_("t"));
			const time_t before = time(nullptr); auto m = mb.construct(); const time_t after = time(nullptr);
			for (size_t limit : {size_t(78), lineLengthLimits::infinite}) { messageParser mp(roundtrip(m, limit)); mailbox fr(mp.getExpeditor()), fw(froms[f]);
				R.equal(mc::attrs(fr), mc::attrs(fw), "sender"); R.equal(addrs(mp.getRecipients()), addrs(lists[to]), "recipients"); R.equal(addrs(mp.getCopyRecipients()), addrs(lists[cc]), "copy recipients"); R.equal(addrs(mp.getBlindCopyRecipients()), addrs(lists[bcc]), "blind copy recipients");
				R.equal(mp.getSubject().getConvertedText(charset("utf-8")), subjects[s], "subject"); datetime d(mp.getDate()); CHECK(d >= datetime(before) && d <= datetime(after), "date " + d.generate()); CHECK(mp.getTextPartCount() == 1 && mp.getAttachmentCount() == 0, "parts"); R.outcome(addrs(mp.getRecipients()) + addrs(mp.getCopyRecipients()) + addrs(mp.getBlindCopyRecipients()) + subjects[s]); }
		});
	}
	// texts
	auto textCase = [&](const S& label, Txt t0, std::vector <Att> atts, size_t limit) { R.testL([&] { return label; }, [&] { Txt t = t0; messageBuilder mb; mb.getRecipients().appendAddress(make_shared <mailbox>(MB("", "a@b.c"))); auto ids = setText(mb, t); for (auto& a : atts) mb.attach(make(a)); CHECK(mb.getAttachmentCount() == atts.size(), "getAttachmentCount"); auto m = mb.construct();
		auto n = roundtrip(m, limit); { messageParser mp(n); checkText(mp, t, ids); checkAtts(mp, atts); } { messageParser mp(n->generate()); checkText(mp, t, ids); checkAtts(mp, atts); } { messageParser mp(m); checkAtts(mp, atts); checkText(mp, t, ids); } R.outcome(mc::attrs(*n->getBody()) + n->getHeader()->ContentType()->generate()); }); };
	std::vector <S> contents; mc::strings({"a", "\r\n", "\n", " ", "\xc3\xa9", ".", "="}, 0, R.thorough ? 5 : 3, [&](const S& s) { contents.push_back(s); });
	for (S s : {S(1200, 'x'), S("From x\r\n"), S("--b\r\nc"), S("\r\n--\r\n"), S("\0\xff", 2)}) contents.push_back(s);
	const std::vector <Obj> objs = {{"ob\xff", "image", "png"}, {"text obj", "text", "css"}};
	for (auto& c : contents) for (const S cs : {"utf-8", "iso-8859-1", "us-ascii", "utf-16"}) {
		textCase("plain|" + esc(c) + "|" + cs, Txt{false, c, "", cs, {}}, {}, 78);
		if (cs != "utf-8" && c.size() > 2) continue;
		textCase("html|" + esc(c) + "|" + cs, Txt{true, "", c, cs, {}}, {}, 78); textCase("alt|" + esc(c) + "|" + cs, Txt{true, c, "<" + c + ">", cs, {}}, {}, 78); if (cs != "utf-16") textCase("obj|" + esc(c) + "|" + cs, Txt{true, c, c, cs, {{c, "a", "b"}, objs[1]}}, {}, 78);
		textCase("att|" + esc(c) + "|" + cs, Txt{false, c, "", cs, {}}, {Att{"n", "us-ascii", "a", "b", "", c, 0}, Att{"n", "us-ascii", "text", "plain", "", c, 1}}, 78); textCase("attq|" + esc(c) + "|" + cs, Txt{false, "x", "", cs, {}}, {Att{"n", "us-ascii", "a", "b", "", c, 3}, Att{"n", "us-ascii", "text", "x", "", c, c.find('\0') == S::npos ? 4 : 0}}, 78);
	}
	// kinds of texts times lists of attachments
	const std::vector <Txt> texts = {{false, "plain", "", "utf-8", {}}, {false, "", "", "us-ascii", {}}, {true, "", "<html>", "utf-8", {}}, {true, "pl", "<html>", "iso-8859-1", {}}, {true, "", "<html>", "utf-8", {objs[0]}}, {true, "pl", "<html>", "utf-8", objs}, {true, "pl", "<h>", "utf-8", {objs[0], objs[0], objs[1]}}};
	const std::vector <Att> kinds = {{"f.bin", "us-ascii", "application", "octet-stream", "", "b\xff\xfe" "b", 0}, {"n\xc3\xa4me \".txt", "utf-8", "text", "plain", "d\xc3\xa9sc", "text\r\nlines\r\n", 0}, {"", "us-ascii", "image", "png", "", "", 0}, {"file.dat", "us-ascii", "x", "y", "descr", "0123456789", 1}, {"\xe9.t", "iso-8859-1", "text", "html", "", "<b>", 1}, {"", "", "message", "rfc822", "", INNER, 2}, {"q; =.x", "us-ascii", "text", "csv", "", "a=b \r\n.", 3}, {S(90, 'n') + ".long", "us-ascii", "x", "z", "", "7 bit", 4}};
	std::vector <std::vector <Att> > al; for (size_t n = 0 ; n <= (R.thorough ? 3 : 2) ; ++n) mc::tuples(kinds.size(), n, [&](const std::vector <size_t>& ix) { std::vector <Att> v; for (size_t i : ix) v.push_back(kinds[i]); al.push_back(v); });
	for (size_t t = 0 ; t < texts.size() ; ++t) for (size_t a = 0 ; a < al.size() ; ++a) for (size_t limit : {size_t(78), lineLengthLimits::infinite}) { textCase("kinds|" + str(t) + "|" + str(a) + "|" + str(limit), texts[t], al[a], limit);
		// the same attachments added afterwards, directly or after a round trip or one by one with round trips
		for (int how = 0 ; how < 4 ; ++how) if (limit == 78 || how == 0) R.testL([&] { return "later|" + str(t) + "|" + str(a) + "|" + str(limit) + "|" + str(how); }, [&] {
			Txt tx = texts[t]; messageBuilder mb; mb.getRecipients().appendAddress(make_shared <mailbox>(MB("", "a@b.c"))); auto ids = setText(mb, tx); std::vector <Att> want; if (how == 3) { want.push_back(kinds[1]); mb.attach(make(kinds[1])); }
			auto m = mb.construct(); if (how) m = roundtrip(m, limit);
			for (auto& x : al[a]) { if (x.kind == 2) { auto k = make_shared <message>(); k->parse(x.content); attachmentHelper::addAttachment(m, k); } else attachmentHelper::addAttachment(m, make(x)); want.push_back(x); if (how == 2) m = roundtrip(m, limit); { messageParser mp(m); checkText(mp, tx, ids); checkAtts(mp, want); } }
			messageParser mp(roundtrip(m, limit)); checkText(mp, tx, ids); checkAtts(mp, want); R.equal(addrs(mp.getRecipients()), addrs(lists[1]), "recipients"); R.outcome("l" + str(t) + str(a) + str(how)); });
	}
	// builder list operations
	for (size_t a = 0 ; a < al.size() ; ++a) if (al[a].size() == 2) for (size_t rem = 0 ; rem < 2 ; ++rem) R.testL([&] { return "remove|" + str(a) + "|" + str(rem); }, [&] { messageBuilder mb; mb.getRecipients().appendAddress(make_shared <mailbox>(MB("", "a@b.c"))); for (auto& x : al[a]) mb.appendAttachment(make(x)); mb.removeAttachment(rem); mb.getTextPart()->setText(str_("x")); messageParser mp(roundtrip(mb.construct(), 78)); checkAtts(mp, {al[a][1 - rem]}); });
	// attachments added to messages of other structures: what was there is still there
	const S inl = "Content-Disposition: inline\r\n";
	const std::vector <S> structures = {
		"Subject: s\r\n\r\nrfc822 text\r\n", "Subject: s\r\nContent-Type: text/plain; charset=koi8-r; format=flowed; delsp=yes\r\nContent-Transfer-Encoding: base64\r\n\r\nw8HM\r\n", "Subject: s\r\nContent-Type: text/html; charset=utf-8\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=C3=A9=\r\n x\r\n",
		"Subject: s\r\nContent-Type: multipart/alternative; boundary=b\r\n\r\n--b\r\nContent-Type: text/plain; charset=utf-8\r\n\r\np\r\n--b\r\nContent-Type: text/html; charset=utf-8\r\n\r\nh\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: multipart/related; boundary=b; type=\"text/html\"\r\n\r\n--b\r\nContent-Type: text/html; charset=utf-8\r\n\r\nh cid:i@j\r\n--b\r\nContent-Type: image/png\r\nContent-Id: <i@j>\r\n\r\nimg\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nContent-Type: text/plain; charset=utf-8\r\n\r\np\r\n--b\r\nContent-Type: a/b; name=old\r\nContent-Transfer-Encoding: base64\r\n\r\n/w==\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: multipart/alternative; boundary=b\r\n\r\n--b\r\nContent-Type: text/plain\r\n\r\np\r\n--b\r\nContent-Type: multipart/mixed; boundary=c\r\n\r\n--c\r\nContent-Type: text/html\r\n\r\nh\r\n--c\r\nContent-Type: a/b\r\nContent-Disposition: attachment; filename=old\r\n\r\nxx\r\n--c--\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nContent-Type: multipart/alternative; boundary=c\r\n\r\n--c\r\nContent-Type: text/plain\r\n\r\np\r\n--c\r\nContent-Type: text/html\r\n\r\nh\r\n--c--\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: multipart/signed; boundary=b; protocol=\"application/x\"; micalg=sha1\r\n\r\n--b\r\nContent-Type: text/plain; charset=utf-8\r\n\r\np\r\n--b\r\nContent-Type: application/x; name=sig\r\n\r\nss\r\n--b--\r\n",
		"Subject: s\r\nContent-Type: application/pdf; name=\"doc.pdf\"\r\nContent-Disposition: attachment; filename=doc2.pdf; size=4\r\nContent-Transfer-Encoding: base64\r\n\r\nJVBERg==\r\n" };
	auto describe = [&](const shared_ptr <const message>& m, size_t nAtts) { messageParser mp(m); S o = mp.getSubject().getWholeBuffer(); for (auto& t : mp.getTextPartList()) { o += "\n" + t->getType().generate() + "|" + t->getCharset().getName() + "|" + data(t->getText()); if (auto h = dynamicCast <const htmlTextPart>(t)) for (size_t i = 0 ; i < h->getObjectCount() ; ++i) o += "|" + h->getObjectAt(i)->getId() + "=" + data(h->getObjectAt(i)->getData()); } for (size_t i = 0 ; i < nAtts && i < mp.getAttachmentCount() ; ++i) { auto a = mp.getAttachmentAt(i); o += "\natt " + a->getType().generate() + "|" + a->getName().getBuffer() + "|" + data(a->getData()); } return o; };
	for (size_t st = 0 ; st < structures.size() ; ++st) for (size_t a = 0 ; a < al.size() ; ++a) for (int how = 0 ; how < 2 ; ++how) R.testL([&] { return "structure|" + str(st) + "|" + str(a) + "|" + str(how); }, [&] {
		auto m = make_shared <message>(); m->parse(structures[st]); const size_t old = messageParser(m).getAttachmentCount(); const S want = describe(m, 99); R.outcome(want);
		// all parameters of the parts that were there
		std::function <void(const bodyPart&, std::multiset <S>&, bool)> params = [&](const bodyPart& p, std::multiset <S>& o, bool root) { auto f = p.getHeader()->findField <contentTypeField>("Content-Type"); if (p.getBody()->getPartCount() == 0 && f) { S s = f->getValue()->generate(); for (auto& q : shared_ptr <const contentTypeField>(f)->getParameterList()) s += ";" + q->getName() + "=" + q->getValue().getBuffer(); o.insert(s); } else if (f) for (auto& q : shared_ptr <const contentTypeField>(f)->getParameterList()) if (q->getName() != "boundary") o.insert(f->getValue()->generate() + ";" + q->getName() + "=" + q->getValue().getBuffer()); for (auto& k : p.getBody()->getPartList()) params(*k, o, false); };
		std::multiset <S> p0; params(*m, p0, true);
		for (auto& x : al[a]) { attachmentHelper::addAttachment(m, make(x)); if (how) m = roundtrip(m, 78); }
		for (int k = 0 ; k < 2 ; ++k) { R.equal(describe(m, old), want, "what the message contained"); messageParser mp(m); CHECK(mp.getAttachmentCount() == old + al[a].size(), "number of attachments " + str(mp.getAttachmentCount())); for (size_t i = 0 ; i < al[a].size() ; ++i) { auto& w = al[a][i]; auto got = mp.getAttachmentAt(old + i); R.equal(data(got->getData()), w.content, "added attachment"); R.equal(got->getType().generate(), w.type + "/" + w.sub, "type of the added attachment"); }
			std::multiset <S> p1; params(*m, p1, true); for (auto& s : p0) CHECK(p1.count(s) >= p0.count(s), "part with type '" + s + "' is gone"); m = roundtrip(m, 78); }
	});
}
