// C17: copies are deep, equal and independent.
#include "mc_main.hpp"
#include "dump.hpp"
using namespace vmime;

template <class C> struct Spec {
	S name; std::vector <std::pair <S, std::function <shared_ptr <C>()> > > states; std::vector <std::pair <S, std::function <void(C&)> > > muts;
};
static S gx(const component& c) { S o; try { for (size_t m : {lineLengthLimits::infinite, size_t(78), size_t(30)}) o += c.generate(m, 0) + "\x01"; } catch (exception& e) { o += S("!") + e.name(); } return o; }
template <class C> static S obs(C& c) { return mc::attrs(c) + "\x02" + gx(c) + "\x02" + str(c.getGeneratedSize(generationContext::getDefaultContext())); }
static std::vector <component*> nodes(component& c) { std::vector <component*> v{&c}; for (auto& k : c.getChildComponents()) { auto w = nodes(*k); v.insert(v.end(), w.begin(), w.end()); } return v; }

template <class C, bool Assign = true, bool Ctor = true> static void run(mc::Run& R, const Spec <C>& sp) {
	typedef std::function <shared_ptr <C>(C&, const Spec <C>&, size_t)> Copy;
	std::vector <std::pair <S, Copy> > copies = {
		{"clone", [](C& o, const Spec <C>&, size_t) { auto k = dynamicCast <C>(o.clone()); CHECK(k, "clone has another type"); return k; }},
		{"clone of clone", [](C& o, const Spec <C>&, size_t) { auto k = dynamicCast <C>(dynamicCast <C>(o.clone())->clone()); CHECK(k, "clone has another type"); return k; }},
		{"vmime::clone", [](C& o, const Spec <C>&, size_t) { return vmime::clone(static_cast <const C&>(o)); }},
		{"copyFrom", [](C& o, const Spec <C>& s, size_t i) { auto k = s.states[i % s.states.size()].second(); k->copyFrom(o); return k; }},
		{"copyFrom self", [](C& o, const Spec <C>&, size_t) { auto k = dynamicCast <C>(o.clone()); k->copyFrom(*k); return k; }},
	};
	if constexpr (Assign) { copies.push_back({"assignment", [](C& o, const Spec <C>& s, size_t i) { auto k = s.states[i % s.states.size()].second(); *k = static_cast <const C&>(o); return k; }}); copies.push_back({"self-assignment", [](C& o, const Spec <C>&, size_t) { auto k = dynamicCast <C>(o.clone()); C& r = *k; *k = static_cast <const C&>(r); return k; }}); }
	if constexpr (Ctor) copies.push_back({"copy constructor", [](C& o, const Spec <C>&, size_t) { return make_shared <C>(static_cast <const C&>(o)); }});
	for (size_t st = 0 ; st < sp.states.size() ; ++st) for (auto& cp : copies) for (size_t tgt = 0 ; tgt < (cp.first == "copyFrom" || cp.first == "assignment" ? sp.states.size() : 1) ; ++tgt)
		R.testL([&] { return sp.name + "|" + sp.states[st].first + "|" + cp.first + (tgt ? "|" + str(tgt) : ""); }, [&] {
			auto fresh = [&] { return std::make_pair(sp.states[st].second(), shared_ptr <C>()); };
			{ auto p = fresh(); const S want = obs(*p.first); R.outcome(want); auto k = cp.second(*p.first, sp, tgt); R.equal(obs(*k), want, "copy"); R.equal(obs(*p.first), want, "original after copying");
			  auto a = nodes(*p.first), b = nodes(*k); for (auto x : a) CHECK(std::find(b.begin(), b.end(), x) == b.end(), S("copy shares an object of type ") + typeid(*x).name() + " with the original");
			  p.first.reset(); R.equal(obs(*k), want, "copy after the original is gone"); }
			// changes of either side
			const size_t nm = sp.muts.size();
			for (size_t m1 = 0 ; m1 < nm ; ++m1) for (size_t m2 = 0 ; m2 <= nm ; ++m2) for (size_t m3 = 0 ; m3 <= (R.thorough && m2 ? nm : 0) ; ++m3) {
				auto change = [&](C& c) { sp.muts[m1].second(c); if (m2) sp.muts[m2 - 1].second(c); if (m3) sp.muts[m3 - 1].second(c); };
				auto what = [&] { return "'" + sp.muts[m1].first + "'" + (m2 ? " '" + sp.muts[m2 - 1].first + "'" : S()) + (m3 ? " '" + sp.muts[m3 - 1].first + "'" : S()); };
				{ auto p = fresh(); auto k = cp.second(*p.first, sp, tgt); const S want = obs(*p.first); change(*k); R.equal(obs(*p.first), want, "original after " + what() + " on the copy"); }
				{ auto p = fresh(); auto k = cp.second(*p.first, sp, tgt); const S want = obs(*k); change(*p.first); R.equal(obs(*k), want, "copy after " + what() + " on the original"); }
				R.transition(2);
			}
			// the same change gives the same result on both
			for (auto& m : sp.muts) { auto p = fresh(); auto k = cp.second(*p.first, sp, tgt); m.second(*p.first); m.second(*k); R.equal(obs(*k), obs(*p.first), "both after '" + m.first + "'"); R.transition(); }
		});
}
template <class C> static std::function <shared_ptr <C>()> parsed(const S& s) { return [s] { auto c = make_shared <C>(); c->parse(s); return c; }; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C17";
	R.rule = "every component type x several states (default, set through the API, parsed) x every way to copy (clone, clone of a clone, copyFrom and assignment onto each state, onto itself, copy constructor), then every change and every pair (thorough: triple) of changes of either side: all attributes, generated forms and announced sizes of the copy equal those of the original at first and the untouched side stays as it was; no component object is shared";
	R.assumptions = {"content handlers are immutable once set in a body and may be shared"};
	auto MB = [](const S& n, const S& e) { return make_shared <mailbox>(text(n), emailAddress(e)); };
	run(R, Spec <word>{"word", {{"default", [] { return make_shared <word>(); }}, {"utf8", [] { return make_shared <word>("caf\xc3\xa9", charset("utf-8"), "fr"); }}, {"parsed", parsed <word>("=?iso-8859-1*en?Q?=E9?=")}}, {{"buffer", [](word& w) { w.setBuffer("new"); }}, {"charset", [](word& w) { w.setCharset(charset("utf-16")); }}, {"lang", [](word& w) { w.setLanguage("de"); }}, {"parse", [](word& w) { w.parse("=?utf-8?B?w6k=?="); }}, {"assign", [](word& w) { w = S("assigned"); }}}});
	run(R, Spec <text>{"text", {{"default", [] { return make_shared <text>(); }}, {"words", [] { auto t = make_shared <text>("a", charset("us-ascii")); t->appendWord(make_shared <word>("\xc3\xa9", charset("utf-8"), "fr")); return t; }}, {"parsed", parsed <text>("x =?utf-8?Q?=C3=A9?= y")}}, {{"append", [](text& t) { t.appendWord(make_shared <word>("n")); }}, {"insert", [](text& t) { t.insertWordBefore(0, make_shared <word>("i")); }}, {"change", [](text& t) { if (t.getWordCount()) { t.getWordAt(0)->setBuffer("c"); t.getWordAt(t.getWordCount() - 1)->setCharset(charset("koi8-r")); } }}, {"remove", [](text& t) { if (t.getWordCount()) t.removeWord(size_t(0)); }}, {"clear", [](text& t) { t.removeAllWords(); }}, {"parse", [](text& t) { t.parse("p q"); }}, {"create", [](text& t) { t.createFromString("z \xc3\xa9", charset("utf-8")); }}}});
	run(R, Spec <emailAddress>{"email", {{"default", [] { return make_shared <emailAddress>(); }}, {"set", [] { return make_shared <emailAddress>(word("l\xc3\xa9", charset("utf-8")), word("d\xc3\xb6.de", charset("utf-8"))); }}, {"parsed", parsed <emailAddress>("\"a b\"@c.d")}}, {{"local", [](emailAddress& e) { e.setLocalName(word("n")); }}, {"domain", [](emailAddress& e) { e.setDomainName(word("n.o")); }}, {"parse", [](emailAddress& e) { e.parse("p@q"); }}}});
	run(R, Spec <mailbox>{"mailbox", {{"default", [] { return make_shared <mailbox>(); }}, {"set", [&] { return MB("A, B", "a@b.c"); }}, {"parsed", parsed <mailbox>("=?utf-8?Q?=C3=A9?= x <u@v>")}}, {{"name", [](mailbox& m) { m.setName(text("new")); }}, {"email", [](mailbox& m) { m.setEmail(emailAddress("n@o")); }}, {"clear", [](mailbox& m) { m.clear(); }}, {"parse", [](mailbox& m) { m.parse("Z <z@z>"); }}}});
	run <mailboxGroup, true, true>(R, Spec <mailboxGroup>{"group", {{"default", [] { return make_shared <mailboxGroup>(); }}, {"set", [&] { auto g = make_shared <mailboxGroup>(text("G")); g->appendMailbox(MB("A", "a@b")); g->appendMailbox(MB("", "c@d")); return g; }}, {"parsed", parsed <mailboxGroup>("N: \"x\" <y@z>, w@v;")}}, {{"name", [](mailboxGroup& g) { g.setName(text("new")); }}, {"append", [&](mailboxGroup& g) { g.appendMailbox(MB("n", "n@n")); }}, {"change", [](mailboxGroup& g) { if (g.getMailboxCount()) { g.getMailboxAt(0)->setName(text("c")); g.getMailboxAt(g.getMailboxCount() - 1)->setEmail(emailAddress("c@c")); } }}, {"remove", [](mailboxGroup& g) { if (g.getMailboxCount()) g.removeMailbox(size_t(0)); }}, {"clear", [](mailboxGroup& g) { g.removeAllMailboxes(); }}, {"parse", [](mailboxGroup& g) { g.parse("p: q@r;"); }}}});
	run(R, Spec <mailboxList>{"mailboxes", {{"default", [] { return make_shared <mailboxList>(); }}, {"set", [&] { auto g = make_shared <mailboxList>(); g->appendMailbox(MB("A", "a@b")); g->appendMailbox(MB("", "c@d")); return g; }}, {"parsed", parsed <mailboxList>("\"x\" <y@z>, w@v")}}, {{"append", [&](mailboxList& g) { g.appendMailbox(MB("n", "n@n")); }}, {"change", [](mailboxList& g) { if (g.getMailboxCount()) { g.getMailboxAt(0)->setName(text("c")); g.getMailboxAt(g.getMailboxCount() - 1)->setEmail(emailAddress("c@c")); } }}, {"remove", [](mailboxList& g) { if (g.getMailboxCount()) g.removeMailbox(size_t(0)); }}, {"clear", [](mailboxList& g) { g.removeAllMailboxes(); }}, {"parse", [](mailboxList& g) { g.parse("p@q"); }}}});
	run(R, Spec <addressList>{"addresses", {{"default", [] { return make_shared <addressList>(); }}, {"set", [&] { auto l = make_shared <addressList>(); auto g = make_shared <mailboxGroup>(text("G")); g->appendMailbox(MB("A", "a@b")); l->appendAddress(g); l->appendAddress(MB("B", "c@d")); return l; }}, {"parsed", parsed <addressList>("a@b, G: c@d, e@f;, h@i")}}, {{"append", [&](addressList& g) { g.appendAddress(MB("n", "n@n")); }}, {"change", [&](addressList& g) { for (size_t i = 0 ; i < g.getAddressCount() ; ++i) { if (auto m = dynamicCast <mailbox>(g.getAddressAt(i))) m->setName(text("c")); if (auto k = dynamicCast <mailboxGroup>(g.getAddressAt(i))) { k->setName(text("cg")); if (k->getMailboxCount()) k->getMailboxAt(0)->setEmail(emailAddress("q@q")); k->appendMailbox(MB("nn", "n@n")); } } }}, {"remove", [](addressList& g) { if (g.getAddressCount()) g.removeAddress(size_t(0)); }}, {"clear", [](addressList& g) { g.removeAllAddresses(); }}, {"parse", [](addressList& g) { g.parse("p@q"); }}}});
	run(R, Spec <datetime>{"date", {{"default", [] { return make_shared <datetime>(2000, 1, 2, 3, 4, 5, 60); }}, {"parsed", parsed <datetime>("Fri, 21 Nov 1997 09:55:06 -0600")}}, {{"year", [](datetime& d) { d.setYear(1980); }}, {"time", [](datetime& d) { d.setTime(1, 2, 3); }}, {"zone", [](datetime& d) { d.setZone(-90); }}, {"second", [](datetime& d) { d.setSecond(59); }}, {"minute", [](datetime& d) { d.setMinute(58); }}, {"parse", [](datetime& d) { d.parse("1 Feb 2003 04:05:06 GMT"); }}}});
	run(R, Spec <messageId>{"msgid", {{"default", [] { return make_shared <messageId>(); }}, {"set", [] { return make_shared <messageId>("l", "r"); }}, {"parsed", parsed <messageId>("<a@b>")}}, {{"left", [](messageId& m) { m.setLeft("n"); }}, {"right", [](messageId& m) { m.setRight("n"); }}, {"parse", [](messageId& m) { m.parse("<p@q>"); }}}});
	run(R, Spec <messageIdSequence>{"msgids", {{"default", [] { return make_shared <messageIdSequence>(); }}, {"set", [] { auto q = make_shared <messageIdSequence>(); q->appendMessageId(make_shared <messageId>("l", "r")); q->appendMessageId(make_shared <messageId>("m", "s")); return q; }}, {"parsed", parsed <messageIdSequence>("<a@b> <c@d> <e@f>")}}, {{"append", [](messageIdSequence& q) { q.appendMessageId(make_shared <messageId>("n", "n")); }}, {"change", [](messageIdSequence& q) { if (q.getMessageIdCount()) { q.getMessageIdAt(0)->setLeft("c"); q.getMessageIdAt(q.getMessageIdCount() - 1)->setRight("c"); } }}, {"remove", [](messageIdSequence& q) { if (q.getMessageIdCount()) q.removeMessageId(size_t(0)); }}, {"clear", [](messageIdSequence& q) { q.removeAllMessageIds(); }}}});
	run(R, Spec <mediaType>{"media", {{"default", [] { return make_shared <mediaType>(); }}, {"set", [] { return make_shared <mediaType>("a", "b"); }}}, {{"type", [](mediaType& m) { m.setType("n"); }}, {"sub", [](mediaType& m) { m.setSubType("n"); }}, {"parse", [](mediaType& m) { m.parse("p/q"); }}}});
	run(R, Spec <contentDisposition>{"disp", {{"default", [] { return make_shared <contentDisposition>(); }}, {"set", [] { return make_shared <contentDisposition>("x"); }}}, {{"name", [](contentDisposition& m) { m.setName("n"); }}, {"assign", [](contentDisposition& m) { m = S("q"); }}}});
	run(R, Spec <encoding>{"enc", {{"default", [] { return make_shared <encoding>(); }}, {"set", [] { return make_shared <encoding>("base64"); }}, {"usage", [] { return make_shared <encoding>("quoted-printable", encoding::USAGE_TEXT); }}}, {{"name", [](encoding& m) { m.setName("n"); }}, {"usage", [](encoding& m) { m.setUsage(encoding::USAGE_BINARY_DATA); }}, {"assign", [](encoding& m) { m = S("q"); }}}});
	R.test("enc|usage", [&] { encoding a("quoted-printable", encoding::USAGE_TEXT), b("7bit"); b = a; CHECK(b.getUsage() == a.getUsage(), "usage after assignment"); encoding c(a); CHECK(c.getUsage() == a.getUsage(), "usage after copy"); CHECK(vmime::clone(a)->getUsage() == a.getUsage(), "usage of clone"); S o1, o2; utility::outputStreamStringAdapter s1(o1), s2(o2); utility::inputStreamStringAdapter i1("a\r\nb"), i2("a\r\nb"); a.getEncoder()->encode(i1, s1); b.getEncoder()->encode(i2, s2); R.equal(o2, o1, "encoder of the copy"); });
	run(R, Spec <charset>{"charset", {{"default", [] { return make_shared <charset>(); }}, {"set", [] { return make_shared <charset>("utf-8"); }}}, {{"parse", [](charset& m) { m.parse("koi8-r"); }}, {"assign", [](charset& m) { m = charset("us-ascii"); }}}});
	run(R, Spec <disposition>{"mdn", {{"default", [] { return make_shared <disposition>(); }}, {"set", [] { auto d = make_shared <disposition>("a", "s", "t", "error"); d->addModifier("warning"); return d; }}, {"parsed", parsed <disposition>("x/y;z/p,q")}}, {{"action", [](disposition& d) { d.setActionMode("n"); }}, {"sending", [](disposition& d) { d.setSendingMode("n"); }}, {"type", [](disposition& d) { d.setType("n"); }}, {"add", [](disposition& d) { d.addModifier("n"); }}, {"remove", [](disposition& d) { d.removeModifier("error"); d.removeModifier("p"); }}}});
	run(R, Spec <vmime::path>{"path", {{"default", [] { return make_shared <vmime::path>(); }}, {"set", [] { return make_shared <vmime::path>("l", "d"); }}}, {{"local", [](vmime::path& p) { p.setLocalPart("n"); }}, {"domain", [](vmime::path& p) { p.setDomain("n"); }}}});
	run(R, Spec <relay>{"relay", {{"default", [] { return make_shared <relay>(); }}, {"parsed", parsed <relay>("from of by ob via ov with ow with ox id oi for oo; Fri, 21 Nov 1997 09:55:06 -0600")}, {"parsed2", parsed <relay>("from x with y; Fri, 21 Nov 1998 09:55:06 -0600")}}, {{"from", [](relay& r) { r.setFrom("n"); }}, {"with", [](relay& r) { r.getWithList().push_back("n"); }}, {"with2", [](relay& r) { if (!r.getWithList().empty()) r.getWithList()[0] = "c"; }}, {"date", [](relay& r) { r.setDate(datetime(2001, 1, 1)); }}, {"by", [](relay& r) { r.setBy("n"); }}, {"via", [](relay& r) { r.setVia("n"); }}, {"id", [](relay& r) { r.setId("n"); }}, {"for", [](relay& r) { r.setFor("n"); }}}});
	run <parameter, true, false>(R, Spec <parameter>{"parameter", {{"empty", [] { return make_shared <parameter>("p"); }}, {"set", [] { return make_shared <parameter>("q", word("v\xc3\xa9", charset("utf-8"), "fr")); }}}, {{"value", [](parameter& p) { p.setValue(word("n", charset("us-ascii"))); }}, {"date", [](parameter& p) { p.setValue(datetime(2000, 1, 1)); }}, {"parse", [](parameter& p) { static_cast <component&>(p).parse("pp"); }}}});
	// fields and headers
	auto fld = [](const S& n, const S& v) { return [n, v] { auto f = headerFieldFactory::getInstance()->create(n); f->parse(v); return f; }; };
	std::vector <std::pair <S, std::function <void(headerField&)> > > fm = {{"parse", [](headerField& f) { f.parse("n@n"); }}, {"value", [](headerField& f) { for (auto& k : f.getValue()->getChildComponents()) if (auto w = dynamicCast <word>(k)) w->setBuffer("c"); else if (auto m = dynamicCast <mailbox>(k)) m->setName(text("c")); else if (auto i = dynamicCast <messageId>(k)) i->setLeft("c"); }},
		{"value2", [](headerField& f) { auto v = f.getValue(); if (auto m = dynamicCast <mailbox>(v)) m->setEmail(emailAddress("c@c")); if (auto d = dynamicCast <datetime>(v)) d->setYear(1990); if (auto t = dynamicCast <text>(v)) t->appendWord(make_shared <word>("n")); if (auto m = dynamicCast <mediaType>(v)) m->setSubType("c"); if (auto a = dynamicCast <addressList>(v)) a->removeAllAddresses(); if (auto c = dynamicCast <contentDisposition>(v)) c->setName("c"); }},
		{"params", [](headerField& f) { if (auto p = dynamic_cast <parameterizedHeaderField*>(&f)) { p->appendParameter(make_shared <parameter>("n", S("v"))); p->getParameterAt(0)->setValue(word("c")); } }}, {"remove", [](headerField& f) { if (auto p = dynamic_cast <parameterizedHeaderField*>(&f)) if (p->getParameterCount()) p->removeParameter(p->getParameterAt(0)); }}, {"set", [](headerField& f) { if (auto p = dynamic_cast <parameterizedHeaderField*>(&f)) p->getParameter("charset")->setValue(word("set")); }}, {"set-last", [](headerField& f) { if (auto p = dynamic_cast <parameterizedHeaderField*>(&f)) if (p->getParameterCount()) p->getParameterAt(p->getParameterCount() - 1)->setValue(word("last")); }}};
	const std::vector <std::pair <S, std::vector <S> > > fv = {{"Subject", {"", "a =?utf-8?Q?=C3=A9?= b"}}, {"From", {"a@b", "\"N\" <c@d>"}}, {"To", {"a@b, G: c@d;", "x@y"}}, {"Date", {"Fri, 21 Nov 1997 09:55:06 -0600"}}, {"Content-Type", {"text/plain; charset=utf-8; name=x", "multipart/mixed; boundary=bnd; a=b; c=d"}}, {"Content-Disposition", {"attachment; filename=\"x y\"; size=3", "inline; a=b"}}, {"References", {"<a@b> <c@d>"}}, {"Message-Id", {"<a@b>"}}, {"X-Any", {"v", "w x"}}, {"Received", {"from a by b; Fri, 21 Nov 1997 09:55:06 -0600"}}};
	for (auto& f : fv) { Spec <headerField> sp{"field-" + f.first, {}, fm}; for (auto& v : f.second) sp.states.push_back({v, fld(f.first, v)}); if (f.first != "Content-Type" && f.first != "Content-Disposition") { auto m = fm; m.erase(m.begin() + 3, m.end()); sp.muts = m; } else for (auto& st : sp.states) (void) st; run <headerField, true, false>(R, sp); }
	R.test("field|renamed", [&] { for (const S n : {"X-B", "Comments", "Subject"}) { auto f = headerFieldFactory::getInstance()->create("X-A"); f->setValue(S("v \xc3\xa9")); f->setName(n); auto k = vmime::clone(f); R.equal(mc::attrs(*k), mc::attrs(*f), "clone of a renamed field"); const S was = f->generate(); k->getValue <text>()->appendWord(make_shared <word>("more")); R.equal(f->generate(), was, "a renamed field whose copy was changed"); } for (const S n : {"Date", "To", "From"}) { auto f = headerFieldFactory::getInstance()->create("X-A"); f->setValue(S("v")); f->setName(n); auto k = vmime::clone(f); R.equal(k->generate(), f->generate(), "clone of a renamed field"); { CHECK(k->getValue() != f->getValue(), "the copy of a renamed field shares its value"); const S was = f->generate(); k->getValue()->parse("other"); R.equal(f->generate(), was, "a renamed field whose copy was changed"); } auto h = make_shared <header>(); h->appendField(f); R.equal(vmime::clone(h)->generate(), h->generate(), "clone of a header"); } });
	Spec <header> hs{"header", {{"default", [] { return make_shared <header>(); }}, {"parsed", parsed <header>("Subject: a\r\nTo: b@c, G: d@e;\r\nContent-Type: a/b; c=d\r\n\r\n")}, {"set", [&] { auto h = make_shared <header>(); h->Subject()->setValue(text("s")); h->From()->setValue(mailbox("f@g")); h->appendField(fld("X-A", "v")()); return h; }}},
		{{"append", [&](header& h) { h.appendField(fld("X-N", "n")()); }}, {"subject", [](header& h) { h.Subject()->setValue(text("n")); }}, {"in place", [](header& h) { if (auto f = h.findField("Subject")) f->getValue <text>()->appendWord(make_shared <word>("n")); if (auto f = h.findField("To")) { auto l = f->getValue <addressList>(); if (l && l->getAddressCount()) l->removeAddress(size_t(0)); } }}, {"remove", [](header& h) { if (h.getFieldCount()) h.removeField(h.getFieldAt(0)); }}, {"clear", [](header& h) { h.removeAllFields(); }}, {"rename", [](header& h) { if (h.getFieldCount()) h.getFieldAt(h.getFieldCount() - 1)->setName("X-Renamed"); }}, {"parse", [](header& h) { h.parse("P: q\r\n"); }}, {"params", [](header& h) { if (auto f = h.findField <contentTypeField>("Content-Type")) { f->setCharset(charset("utf-7")); f->getParameterAt(0)->setValue(word("c")); } }}}};
	run(R, hs);
	// bodies, parts and messages
	const S MSG = "Subject: s\r\nContent-Type: multipart/mixed; boundary=bnd\r\n\r\nprol\r\n--bnd\r\nA: 1\r\n\r\none\r\n--bnd\r\nContent-Type: multipart/x; boundary=in\r\n\r\n--in\r\n\r\ntwo\r\n--in--\r\n--bnd--\r\nepil\r\n";
	std::vector <std::pair <S, std::function <void(bodyPart&)> > > pm = {
		{"field", [&](bodyPart& p) { p.getHeader()->appendField(fld("X-N", "n")()); }}, {"subject", [](bodyPart& p) { p.getHeader()->Subject()->setValue(text("n")); }}, {"contents", [](bodyPart& p) { p.getBody()->setContents(make_shared <stringContentHandler>("new")); }}, {"type", [](bodyPart& p) { p.getBody()->setContentType(mediaType("n/n"), charset("utf-8")); }}, {"prolog", [](bodyPart& p) { p.getBody()->setPrologText("np"); }}, {"epilog", [](bodyPart& p) { p.getBody()->setEpilogText("ne"); }},
		{"child", [](bodyPart& p) { if (p.getBody()->getPartCount()) { auto c = p.getBody()->getPartAt(p.getBody()->getPartCount() - 1); c->getHeader()->Subject()->setValue(text("c")); c->getBody()->setContents(make_shared <stringContentHandler>("c")); if (c->getBody()->getPartCount()) { c->getBody()->getPartAt(0)->getHeader()->Subject()->setValue(text("g")); c->getBody()->removePart(size_t(0)); } } }},
		{"remove", [](bodyPart& p) { if (p.getBody()->getPartCount()) p.getBody()->removePart(size_t(0)); }}, {"clear", [](bodyPart& p) { p.getBody()->removeAllParts(); }}, {"swap", [](bodyPart& p) { if (p.getBody()->getPartCount() > 1) p.getBody()->appendPart(p.getBody()->getPartAt(0)); }}, {"append", [](bodyPart& p) { auto c = make_shared <bodyPart>(); c->getBody()->setContents(make_shared <stringContentHandler>("app")); if (!p.getHeader()->hasField("Content-Type")) { p.getHeader()->getField <contentTypeField>("Content-Type")->setValue(mediaType("multipart/mixed")); p.getHeader()->getField <contentTypeField>("Content-Type")->setBoundary("fixed"); } else p.getHeader()->findField <contentTypeField>("Content-Type")->setBoundary("fixed"); p.getBody()->appendPart(c); }}, {"parse", [](bodyPart& p) { p.parse("P: q\r\n\r\nr"); }}};
	auto partSpec = [&](auto* t) { typedef typename std::remove_pointer <decltype(t)>::type C; Spec <C> s; s.name = typeid(C) == typeid(message) ? "message" : "part";
		s.states = {{"default", [] { return make_shared <C>(); }}, {"multipart", parsed <C>(MSG)}, {"simple", parsed <C>("Content-Type: a/b\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJj\r\n")},
			{"noboundary", parsed <C>("Content-Type: multipart/mixed\r\n\r\n--guess\r\n\r\nx\r\n--guess--\r\n")},
			{"built", [] { auto p = make_shared <C>(); auto ct = p->getHeader()->template getField <contentTypeField>("Content-Type"); ct->setValue(mediaType("multipart/mixed")); ct->setBoundary("bb"); auto c = make_shared <bodyPart>(); c->getBody()->setContents(make_shared <stringContentHandler>("\xff"), mediaType("x/y"), charset("utf-8"), encoding("base64")); p->getBody()->appendPart(c); p->getBody()->setPrologText("P"); return p; }}};
		for (auto& m : pm) s.muts.push_back({m.first, [m](C& c) { m.second(c); }}); return s; };
	run(R, partSpec((bodyPart*) 0)); run(R, partSpec((message*) 0));
	// bodies on their own
	for (int i = 0 ; i < 2 ; ++i) R.test("body|" + str(i), [&] {
		message m; m.parse(MSG); const S want = mc::attrs(*m.getBody());
		auto b = vmime::clone(m.getBody()); CHECK(b->getPartCount() == 2 && b->getPrologText() == "prol" && b->getEpilogText() == "epil", "clone of a body");
		b->getPartAt(0)->getHeader()->Subject()->setValue(text("c")); b->getPartAt(1)->getBody()->removeAllParts(); b->setPrologText("x"); R.equal(mc::attrs(*m.getBody()), want, "original");
		body c(*m.getBody()); c.getPartAt(0)->getHeader()->Subject()->setValue(text("c")); R.equal(mc::attrs(*m.getBody()), want, "original of a copy-constructed body");
		message n; n.getHeader()->copyFrom(*m.getHeader()); if (i) n.getBody()->copyFrom(*m.getBody()); else *n.getBody() = *m.getBody(); R.equal(n.generate(), m.generate(), "message with a copied body"); for (size_t k = 0 ; k < 2 ; ++k) CHECK(n.getBody()->getPartAt(k)->getParentPart() == &n && m.getBody()->getPartAt(k)->getParentPart() == &m, "parent of copied parts");
		message q; q.getHeader()->copyFrom(*m.getHeader()); q.setBody(vmime::clone(m.getBody())); R.equal(q.generate(), m.generate(), "message with a cloned body"); for (size_t k = 0 ; k < 2 ; ++k) CHECK(q.getBody()->getPartAt(k)->getParentPart() == &q, "parent of parts of a cloned body");
	});
	// contexts: every setting, copied in every way
	for (int bits = 0 ; bits < 64 ; ++bits) for (int way = 0 ; way < 4 ; ++way) R.test("contexts|" + str(bits) + " way " + str(way), [&] {
		typedef generationContext GC; charsetConverterOptions cc; cc.silentlyReplaceInvalidSequences = bits & 1; cc.invalidSequence = bits & 2 ? "#" : "?";
		auto gset = [&](GC& g, int b) { charsetConverterOptions o = cc; if (b != bits) { o.silentlyReplaceInvalidSequences = !(bits & 1); o.invalidSequence = "~"; } g.setCharsetConversionOptions(o); g.setInternationalizedEmailSupport(b & 4); g.setWrapMessageId(b & 8); g.setMaxLineLength(b & 16 ? 40 : 100); g.setPrologText(b & 32 ? "p" : ""); g.setEpilogText(b & 1 ? "e" : "f"); g.setEncodedParameterValueMode(b & 2 ? GC::PARAMETER_VALUE_NO_ENCODING : GC::PARAMETER_VALUE_RFC2231_AND_RFC2047); };
		auto gobs = [](const GC& g) { auto& o = g.getCharsetConversionOptions(); return str(o.silentlyReplaceInvalidSequences) + o.invalidSequence + str(g.getInternationalizedEmailSupport()) + str(g.getWrapMessageId()) + "," + str(g.getMaxLineLength()) + g.getPrologText() + "," + g.getEpilogText() + str(int(g.getEncodedParameterValueMode())); };
		typedef parsingContext PC;
		auto pset = [&](PC& g, int b) { charsetConverterOptions o = cc; if (b != bits) { o.silentlyReplaceInvalidSequences = !(bits & 1); o.invalidSequence = "~"; } g.setCharsetConversionOptions(o); g.setInternationalizedEmailSupport(b & 4); g.setUseMyHostname(b & 8); g.setHeaderParseErrorRecoveryMethod(b & 16 ? headerParseRecoveryMethod::ASSUME_END_OF_HEADERS : headerParseRecoveryMethod::SKIP_LINE); };
		auto pobs = [](const PC& g) { auto& o = g.getCharsetConversionOptions(); return str(o.silentlyReplaceInvalidSequences) + o.invalidSequence + str(g.getInternationalizedEmailSupport()) + str(g.getUseMyHostname()) + str(int(g.getHeaderParseErrorRecoveryMethod())); };
		auto go = [&](auto* t, auto set, auto obs, const S& what) {
			typedef typename std::remove_pointer <decltype(t)>::type C; C a; set(a, bits); const S want = obs(a); R.outcome(what + want); R.transition();
			if (way < 3) { C b(a); if (way) { set(b, ~bits & 63); if (way == 1) b = a; else { C c; set(c, bits ^ 63); c = a; b = c; } } R.equal(obs(b), want, what + ": copy"); set(b, ~bits & 63); R.equal(obs(a), want, what + ": the original, once its copy has changed"); CHECK(obs(b) != want, "settings"); set(b, bits); set(a, ~bits & 63); R.equal(obs(b), want, what + ": a copy, once its original has changed"); }
			else { C& d = C::getDefaultContext(); const C saved(d); set(d, ~bits & 63); const S before = obs(d); { context::switcher <C> sw(a); R.equal(obs(d), want, what + ": default context switched to another one"); } R.equal(obs(d), before, what + ": default context switched back"); d = saved; }
		};
		go((GC*) 0, gset, gobs, "generationContext"); go((PC*) 0, pset, pobs, "parsingContext");
	});
}
