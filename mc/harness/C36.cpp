// C36: read receipts refer to the right message.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/mdn/MDNHelper.hpp"
using namespace vmime; using namespace vmime::mdn;

static shared_ptr <message> parse(const S& s) { auto m = make_shared <message>(); m->parse(s); return m; }
static S gen(const shared_ptr <message>& m) { S s; utility::outputStreamStringAdapter os(s); m->generate(os); return s; }
static S contents(const shared_ptr <const bodyPart>& p) { S s; utility::outputStreamStringAdapter os(s); p->getBody()->getContents()->extract(os); return s; }
static S email(const mailbox& m) { return m.getEmail().generate(); }
static S lower(S s) { for (char& c : s) c = tolower(c); return s; }

// unfolded header fields of a block, names in lower case
static std::vector <std::pair <S, S> > fieldsOf(const S& block) {
	std::vector <std::pair <S, S> > v; size_t p = 0;
	while (p < block.size()) {
		size_t e = block.find("\r\n", p); if (e == S::npos) e = block.size();
		const S l = block.substr(p, e - p); p = e + 2;
		if (l.empty()) break;
		if (l[0] == ' ' || l[0] == '\t') { CHECK(!v.empty(), "continuation without a field"); v.back().second += l; continue; }
		const size_t c = l.find(':'); CHECK(c != S::npos && c > 0, "line '" + esc(l) + "' is not a field");
		for (size_t i = 0 ; i < c ; ++i) CHECK((unsigned char) l[i] > 32 && (unsigned char) l[i] < 127, "field name in '" + esc(l) + "'");
		S val = l.substr(c + 1); v.push_back({lower(l.substr(0, c)), val});
	}
	for (auto& f : v) { size_t a = f.second.find_first_not_of(" \t"); f.second = a == S::npos ? S() : f.second.substr(a, f.second.find_last_not_of(" \t") - a + 1); }
	return v;
}
static S only(const std::vector <std::pair <S, S> >& v, const S& name) { S r; int n = 0; for (auto& f : v) if (f.first == name) { r = f.second; ++n; } CHECK(n <= 1, "field " + name + " appears " + str(n) + " times"); return n ? r : S("(none)"); }

struct DispIn { S action, sending, type; std::vector <S> mods; };
static disposition mk(const DispIn& d) { disposition x(d.action, d.sending, d.type, ""); for (auto& m : d.mods) x.addModifier(m); return x; }
static S show(const disposition& d) { S s = lower(d.getActionMode()) + "/" + lower(d.getSendingMode()) + ";" + lower(d.getType()); std::set <S> m; for (auto& x : d.getModifierList()) m.insert(lower(x)); for (auto& x : m) s += "|" + x; return s; }
static S want(const DispIn& d) { S s = lower(d.action.empty() ? S("automatic-action") : d.action) + "/" + lower(d.sending.empty() ? S("MDN-sent-automatically") : d.sending) + ";" + lower(d.type.empty() ? S("displayed") : d.type); std::set <S> m; for (auto& x : d.mods) m.insert(lower(x)); for (auto& x : m) s += "|" + x; return s; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C36";
	R.rule = "every combination of request fields (Disposition-Notification-To forms, Return-Path, Message-ID), dispositions, texts, charsets, senders, user agents and extra fields: the receipt is built, generated, read by an independent reader and by the library; every Content-Type over a set of spellings for recognising receipts; every disposition value over a token alphabet";
	R.assumptions = {"addresses and identifiers are valid (their own syntax is C08, C09)", "user agent names and extra field values are ASCII without line breaks"};
	const bool T = R.thorough;

	// ---- recognising receipts
	const std::vector <S> types = {"multipart/report", "Multipart/Report", "MULTIPART/REPORT", "multipart/mixed", "text/report", "report/multipart", "multipart/reports", "message/disposition-notification"};
	const std::vector <std::pair <S, bool> > params = {{"", false}, {"report-type=disposition-notification", true}, {"report-type=\"disposition-notification\"", true}, {"Report-Type=Disposition-Notification", true}, {"REPORT-TYPE=DISPOSITION-NOTIFICATION", true}, {"report-type=delivery-status", false}, {"report-type=disposition-notifications", false}, {"report-type=", false}, {"reporttype=disposition-notification", false}, {"x=disposition-notification", false}, {"report-type*=us-ascii''disposition-notification", true}, {"report-type*0=disposition-;\r\n report-type*1=notification", true}, {"report-type=disposition", false}};
	for (size_t t = 0 ; t < types.size() ; ++t) for (size_t p = 0 ; p < params.size() ; ++p) for (int order = 0 ; order < 3 ; ++order) for (auto& name : {S("Content-Type"), S("content-type"), S("X-Content-Type")}) R.testL([&] { return "is|" + types[t] + "|" + params[p].first + "|" + str(order) + name; }, [&] {
		S ct = types[t]; const S b = "boundary=\"b\"", q = params[p].first; std::vector <S> ps; if (order == 0) { ps = {b, q}; } else if (order == 1) ps = {q, b}; else ps = {q};
		for (auto& x : ps) if (!x.empty()) ct += "; " + x;
		auto m = parse("From: a@b\r\n" + name + ": " + ct + "\r\n\r\n--b\r\n\r\nx\r\n--b--\r\n");
		const bool expect = name[0] != 'X' && lower(types[t]) == "multipart/report" && params[p].second;
		CHECK(MDNHelper::isMDN(m) == expect, S(expect ? "receipt not recognised" : "taken for a receipt") + ": " + name + ": " + ct);
		bool thrown = false; try { MDNHelper::getReceivedMDN(m); } catch (exceptions::invalid_argument&) { thrown = true; } CHECK(thrown == !expect, "getReceivedMDN");
		R.outcome(expect);
	});
	R.test("is|nothing", [&] { CHECK(!MDNHelper::isMDN(make_shared <message>()), "an empty message is a receipt"); CHECK(!MDNHelper::isMDN(parse("From: a@b\r\n\r\nx")), "receipt"); CHECK(MDNHelper::getPossibleMDNs(make_shared <message>()).empty(), "possible receipts of nothing"); });

	// ---- disposition values
	{
		const std::vector <S> am = {"manual-action", "automatic-action", "Manual-Action"}, sm = {"MDN-sent-manually", "MDN-sent-automatically", "mdn-sent-manually"}, ty = {"displayed", "deleted", "Displayed", "x-other"}, md = {"", "/error", "/error,warning", "/ error , x-y", "/Error,ERROR", "/error,", "/,error"};
		const std::vector <S> ws = {"", " ", "\t", "\r\n "};
		for (auto& a : am) for (auto& s : sm) for (auto& t : ty) for (auto& m : md) for (size_t w = 0 ; w < 1024 ; ++w) {
			// 5 whitespace positions: start, before ;, after ;, before /modifier, end; and around the first slash in the thorough tier
			if (!T && (a[0] == 'M' || s[0] == 'm') && w % 7) continue;
			const S w0 = ws[w & 3], w1 = ws[w >> 2 & 3], w2 = ws[w >> 4 & 3], w3 = ws[w >> 6 & 3], w4 = ws[w >> 8 & 3];
			if (!T && (w0.size() > 1 || w4.size() > 1)) continue;
			R.testL([&] { return "disposition|" + a + "/" + s + w1 + ";" + w2 + t + w3 + m + "#" + str(w); }, [&] {
				DispIn in{a, s, t, {}}; if (m.find("rror") != S::npos || m.find("RROR") != S::npos) in.mods.push_back("error"); if (m.find("warning") != S::npos) in.mods.push_back("warning"); if (m.find("x-y") != S::npos) in.mods.push_back("x-y");
				const S v = w0 + a + w2.substr(0, w2.size() == 1) + "/" + w1.substr(0, w1.size() == 1) + s + w1 + ";" + w2 + t + w3 + m + w4;
				disposition d; d.parse(v); CHECK(show(d) == want(in), "'" + esc(v) + "' read as " + show(d) + " instead of " + want(in));
				disposition e; e.parse(d.generate()); CHECK(show(e) == show(d), "generated '" + esc(d.generate()) + "' means " + show(e));
				auto msg = parse("Disposition: " + v + "\r\nX: y\r\n\r\n"); CHECK(show(*msg->getHeader()->Disposition()->getValue <disposition>()) == want(in), "as a header field");
				auto c = vmime::clone(d); CHECK(show(*dynamicCast <disposition>(c)) == want(in), "clone"); disposition f("x", "y", "z", "w"); f = d; CHECK(show(f) == want(in), "assignment"); f.parse(v); CHECK(show(f) == want(in), "second parse");
				R.outcome(in.mods.size());
			});
		}
		mc::strings(mc::chars("a/;, \r\n"), 0, T ? 7 : 5, [&](const S& s) { R.testL([&] { return "disposition any|" + s; }, [&] { disposition d; d.parse(s); const S g = d.generate(); disposition e; e.parse(g); CHECK(e.generate() == g, "not stable: '" + esc(s) + "' -> '" + esc(g) + "' -> '" + esc(e.generate()) + "'"); R.outcome(d.getModifierList().size()); }); });
		for (int ops = 0 ; ops < 4 * 4 * 4 * 4 ; ++ops) R.testL([&] { return "modifiers|" + str(ops); }, [&] {
			disposition d; std::vector <S> m; int o = ops; const S names[] = {"error", "Warning"};
			for (int i = 0 ; i < 4 ; ++i, o /= 4) { const S n = lower(names[o & 1]); auto it = std::find(m.begin(), m.end(), n); if (o & 2) { d.removeModifier(names[o & 1]); if (it != m.end()) m.erase(it); } else { d.addModifier(names[o & 1]); if (it == m.end()) m.push_back(n); } CHECK(d.getModifierList() == m, "modifier list"); CHECK(d.hasModifier("ERROR") == (std::find(m.begin(), m.end(), "error") != m.end()), "hasModifier"); }
			d.removeAllModifiers(); CHECK(d.getModifierList().empty(), "removeAll"); R.outcome(m.size());
		});
	}

	// ---- requests
	struct Req { S dnt; std::vector <S> addr; };
	const std::vector <Req> reqs = {{"(none)", {}}, {"a@x.example", {"a@x.example"}}, {"<a@x.example>", {"a@x.example"}}, {"Ann <a@x.example>", {"a@x.example"}}, {"\"B, C\" <bc@x.example>", {"bc@x.example"}}, {"a@x.example, b@y.example", {"a@x.example", "b@y.example"}}, {"A <a@x.example>,\r\n\tB <b@y.example>, c@z.example", {"a@x.example", "b@y.example", "c@z.example"}}, {"=?utf-8?Q?=C3=A9?= <e@x.example>", {"e@x.example"}}, {"\"a b\"@x.example", {"\"a b\"@x.example"}}, {"A@X.example", {"A@X.example"}}};
	const std::vector <S> rps = {"(none)", "<a@x.example>", "a@x.example", "<b@y.example>", "<>", "<e@x.example>", "<A@x.example>", "<bc@x.example>", "<a@y.example>", "<x@x.example>"};
	auto original = [](const S& dnt, const S& rp, const S& mid, const S& extra = S()) {
		S h; if (rp != "(none)") h += "Return-Path: " + rp + "\r\n"; h += "From: Author <author@x.example>\r\nTo: me@home.example\r\nSubject: =?utf-8?Q?h=C3=A9?= there\r\n";
		if (mid != "(none)") h += "Message-ID: " + mid + "\r\n"; if (dnt != "(none)") h += "Disposition-Notification-To: " + dnt + "\r\n"; h += extra;
		return parse(h + "\r\nbody\r\n");
	};
	for (auto& q : reqs) for (auto& rp : rps) R.testL([&] { return "request|" + q.dnt + "|" + rp; }, [&] {
		auto m = original(q.dnt, rp, "<1@x>"); const auto v = MDNHelper::getPossibleMDNs(m);
		CHECK(v.size() == q.addr.size(), str(v.size()) + " possible receipts instead of " + str(q.addr.size()));
		for (size_t i = 0 ; i < v.size() ; ++i) { CHECK(email(v[i].getRecipient()) == q.addr[i], "receipt " + str(i) + " goes to '" + email(v[i].getRecipient()) + "' instead of '" + q.addr[i] + "'"); CHECK(v[i].getMessage() == m, "message"); sendableMDNInfos c(v[i]); CHECK(c.getMessage() == m && email(c.getRecipient()) == q.addr[i], "copy"); c = v[0]; CHECK(email(c.getRecipient()) == q.addr[0], "assignment"); }
		S bare = rp; if (!bare.empty() && bare[0] == '<') bare = bare.substr(1, bare.size() - 2);
		// RFC 3798, 2.1: ask the user when there is no Return-Path, when there is more than one address, and when they differ
		bool need = false; if (rp == "(none)") need = true; else if (q.addr.size() > 1) need = true; else if (q.addr.size() == 1 && q.addr[0] != bare && !(lower(q.addr[0]) == lower(bare) && q.addr[0].substr(0, q.addr[0].find('@')) == bare.substr(0, bare.find('@')))) need = true;
		CHECK(MDNHelper::needConfirmation(m) == need, S(need ? "no confirmation asked" : "confirmation asked") + " for Disposition-Notification-To: " + q.dnt + " and Return-Path: " + rp);
		R.outcome(q.addr.size() * 2 + need);
	});
	for (auto& before : {S("(none)"), S("old@x.example"), S("o1@x.example, o2@x.example")}) for (int n = 0 ; n <= 3 ; ++n) for (int twice = 0 ; twice < 2 ; ++twice) R.testL([&] { return "attach|" + before + " " + str(n) + " " + str(twice); }, [&] {
		auto m = original(before, "(none)", "<1@x>"); mailboxList l; std::vector <S> w; for (int i = 0 ; i < n ; ++i) { l.appendMailbox(make_shared <mailbox>(text("Na\xc3\xafve, " + str(i), charset("utf-8")), emailAddress("r" + str(i) + "@x.example"))); w.push_back("r" + str(i) + "@x.example"); }
		for (int k = 0 ; k <= twice ; ++k) { if (n == 1) MDNHelper::attachMDNRequest(m, *l.getMailboxAt(0)); else MDNHelper::attachMDNRequest(m, l); }
		for (int k = 0 ; k < 2 ; ++k) {
			if (n == 0 && k) break;
			auto x = k ? parse(gen(m)) : m; const auto v = MDNHelper::getPossibleMDNs(x); std::vector <S> got; for (auto& i : v) got.push_back(email(i.getRecipient())); CHECK(got == w, "recipients " + mc::show(got) + " instead of " + mc::show(w));
		}
		R.outcome(n);
	});

	// ---- receipts
	std::vector <DispIn> disps; for (auto& a : {S("manual-action"), S("automatic-action"), S()}) for (auto& s : {S("MDN-sent-manually"), S("MDN-sent-automatically"), S()}) for (auto& t : {S("displayed"), S("deleted"), S()}) for (auto& mo : std::vector <std::vector <S> >{{}, {"error"}, {"error", "warning"}, {"X-Long-Modifier-Name-Number-One", "x-long-modifier-name-number-two", "x-long-modifier-name-number-three"}}) disps.push_back({a, s, t, mo});
	const std::vector <std::pair <S, S> > texts = {{"", "us-ascii"}, {"Your message was read.\r\n", "us-ascii"}, {"Lu: \xc3\xa9t\xc3\xa9\r\n", "utf-8"}, {"Lu: \xe9t\xe9", "iso-8859-1"}, {".\r\n--b\r\n" + S(1200, 'x'), "utf-8"}, {"From x\r\n=41 =\r\ntrailing \r\n", "us-ascii"}};
	const std::vector <mailbox> senders = {mailbox(emailAddress("me@home.example")), mailbox(text("Moi, \xc3\xa9", charset("utf-8")), emailAddress("moi@home.example")), mailbox(emailAddress("a b", "home.example"))};
	const std::vector <S> mids = {"<1@x>", "(none)", "<" + S(90, 'm') + "@host.example>", "<a+b=c/d@[192.0.2.1]>"};
	struct Ua { S name; std::vector <S> prod; S text; };
	const std::vector <Ua> uas = {{"", {}, "(none)"}, {"joes-pc.example", {}, "joes-pc.example"}, {"joes-pc.example", {"Foo 1.0"}, "joes-pc.example; Foo 1.0"}, {"joes-pc.example", {"Foo 1.0", "Bar", "Baz 3"}, "joes-pc.example; Foo 1.0, Bar, Baz 3"}};
	auto check = [&](size_t qi, size_t di, size_t ti, size_t si, size_t mi, size_t ui, int fl, int attach) {
		const Req& q = reqs[qi]; auto m = original(q.dnt, "<x@y.example>", mids[mi], attach ? "Comments: caf\xc3\xa9\r\nX-Extra: " + S(200, 'e') + "\r\nCc: \"q\\\"\" <c@x.example>\r\n" : S());
		const S before = gen(m); const auto v = MDNHelper::getPossibleMDNs(m);
		std::map <S, S> fields; if (fl & 1) fields["Error"] = "an error"; if (fl & 2) fields["Warning"] = "a warning"; if (fl & 4) fields["Failure"] = "a failure"; if (fl & 8) fields["Bogus\r\nX"] = "y";
		for (size_t k = 0 ; k < v.size() ; ++k) {
			auto r = MDNHelper::buildMDN(v[k], texts[ti].first, charset(texts[ti].second), senders[si], mk(disps[di]), uas[ui].name, uas[ui].prod, fields);
			CHECK(gen(m) == before, "building a receipt changed the message");
			const S raw = gen(r); auto p = parse(raw); const S ctx = "";
			for (size_t i = 0, l = 0 ; i < raw.size() ; ++i) { CHECK((unsigned char) raw[i] < 128, ctx + "8-bit data without an encoding"); if (raw[i] == '\n') l = 0; else CHECK(++l < 999, ctx + "line too long"); }
			const auto top = fieldsOf(raw); 
			CHECK(MDNHelper::isMDN(p) && MDNHelper::isMDN(r), ctx + "not recognised as a receipt");
			CHECK(MDNHelper::getPossibleMDNs(p).empty(), ctx + "a receipt requests a receipt");
			const addressList& to = *p->getHeader()->To()->getValue <addressList>(); CHECK(to.getAddressCount() == 1 && email(*dynamicCast <const mailbox>(to.getAddressAt(0))) == q.addr[k], ctx + "addressed to the wrong person");
			CHECK(email(*p->getHeader()->From()->getValue <mailbox>()) == email(senders[si]), ctx + "sender");
			CHECK(only(top, "mime-version") == "1.0" && only(top, "date") != "(none)" && only(top, "subject") != "(none)", ctx + "header");
			const auto rec = MDNHelper::getReceivedMDN(p);
			CHECK(show(rec.getDisposition()) == want(disps[di]), ctx + "disposition " + show(rec.getDisposition()) + " instead of " + want(disps[di]));
			CHECK(rec.getOriginalMessageId().generate() == (mids[mi] == "(none)" ? messageId().generate() : mids[mi]), ctx + "original message " + rec.getOriginalMessageId().generate());
			CHECK(rec.getMessage() == p && rec.getContentMIC().empty(), ctx + "other attributes"); receivedMDNInfos cp(rec); CHECK(show(cp.getDisposition()) == want(disps[di]) && cp.getOriginalMessageId() == rec.getOriginalMessageId() && cp.getMessage() == p, "copy");
			CHECK(p->getBody()->getPartCount() == 3, ctx + "parts");
			auto pt = [&](size_t i) { return p->getBody()->getPartAt(i)->getHeader()->ContentType()->getValue <mediaType>()->generate(); };
			CHECK(pt(0) == "text/plain" && pt(1) == "message/disposition-notification" && (pt(2) == "text/rfc822-headers" || pt(2) == "message/rfc822"), ctx + "types of the parts");
			CHECK(contents(p->getBody()->getPartAt(0)) == texts[ti].first, ctx + "text is '" + esc(contents(p->getBody()->getPartAt(0)), 200) + "'");
			CHECK(texts[ti].first.empty() || p->getBody()->getPartAt(0)->getBody()->getCharset() == charset(texts[ti].second), ctx + "charset");
			const auto f = fieldsOf(contents(p->getBody()->getPartAt(1)));
			// RFC 3798, 3.2.4: the final recipient is the one for whom the receipt is issued
			S fr = only(f, "final-recipient"); size_t sc = fr.find(';'); CHECK(sc != S::npos && lower(fr.substr(0, sc)) == "rfc822" && fr.substr(fr.find_first_not_of(" ", sc + 1)) == email(senders[si]), ctx + "Final-Recipient: " + fr + " instead of " + email(senders[si]));
			CHECK(only(f, "original-message-id") == mids[mi], ctx + "Original-Message-ID: " + only(f, "original-message-id"));
			CHECK(only(f, "reporting-ua") == uas[ui].text, ctx + "Reporting-UA: " + only(f, "reporting-ua"));
			CHECK(only(f, "error") == (fl & 1 ? "an error" : "(none)") && only(f, "warning") == (fl & 2 ? "a warning" : "(none)") && only(f, "failure") == (fl & 4 ? "a failure" : "(none)"), ctx + "extra fields");
			CHECK(f.size() == 2u + (mids[mi] != "(none)") + (uas[ui].text != "(none)") + (fl & 1) + (fl >> 1 & 1) + (fl >> 2 & 1), ctx + "number of report fields");
			disposition dd; dd.parse(only(f, "disposition")); CHECK(show(dd) == want(disps[di]), ctx + "Disposition field");
			const auto h = fieldsOf(contents(p->getBody()->getPartAt(2))); CHECK(only(h, "message-id") == mids[mi] && only(h, "from").find("<author@x.example>") != S::npos, "header of the original message: " + only(h, "message-id") + " from " + only(h, "from"));
		}
		R.outcome(v.size());
	};
	auto go = [&](size_t q, size_t d, size_t t, size_t s, size_t m, size_t u, int f, int a) { R.testL([=] { return "receipt|" + str(q) + "," + str(d) + "," + str(t) + "," + str(s) + "," + str(m) + "," + str(u) + "," + str(f) + "," + str(a); }, [&] { check(q, d, t, s, m, u, f, a); }); };
	// every pair of dimensions in full (the thorough tier: every triple of the main ones), the others at a rotating value
	for (size_t q = 1 ; q < reqs.size() ; ++q) for (size_t d = 0 ; d < disps.size() ; ++d) for (size_t t = 0 ; t < texts.size() ; ++t) { if (!T && (q + d + t) % 4) continue; go(q, d, t, (q + d) % senders.size(), (d + t) % mids.size(), (q + t) % uas.size(), (q * 3 + d) % 16, d % 2); }
	for (size_t q = 1 ; q < reqs.size() ; ++q) for (size_t s = 0 ; s < senders.size() ; ++s) for (size_t m = 0 ; m < mids.size() ; ++m) for (size_t u = 0 ; u < uas.size() ; ++u) for (int f = 0 ; f < 8 ; ++f) { if (!T && (q + s + m + u + f) % 2) continue; go(q, (q + m * 7 + f) % disps.size(), (s + m + u) % texts.size(), s, m, u, f, f & 1); }
	// reports received from elsewhere
	for (auto& mic : {S(), S("abcd, sha1")}) for (auto& omid : {S("<1@x>"), S("(none)"), S(" <1@x>  ")}) for (auto& order : {0, 1, 2}) for (auto& enc : {S(), S("7bit"), S("base64"), S("quoted-printable")}) for (int where = 0 ; where < 2 ; ++where) R.testL([&] { return "received|" + mic + omid + str(order) + enc + str(where); }, [&] {
		S f[3] = {"Final-Recipient: rfc822;j@x\r\n" + S(omid == "(none)" ? S() : "Original-Message-ID:" + omid + "\r\n"), "Disposition: manual-action/MDN-sent-manually;\r\n displayed/error\r\n", mic.empty() ? S() : "Received-Content-MIC: " + mic + "\r\n"}; S body; for (int i = 0 ; i < 3 ; ++i) body += f[(i + order) % 3];
		if (enc == "base64" || enc == "quoted-printable") { auto e = utility::encoder::encoderFactory::getInstance()->create(enc); utility::inputStreamStringAdapter is(body); S o; utility::outputStreamStringAdapter os(o); e->encode(is, os); body = o; }
		const S part = "--b\r\nContent-Type: Message/Disposition-Notification\r\n" + (enc.empty() ? S() : "Content-Transfer-Encoding: " + enc + "\r\n") + "\r\n" + body + "\r\n";
		auto m = parse("Content-Type: multipart/report; report-type=disposition-notification; boundary=b\r\n\r\n" + (where ? S() : S("--b\r\n\r\ntext\r\n")) + part + (where ? S("--b\r\n\r\ntext\r\n") : S()) + "--b--\r\n");
		const auto r = MDNHelper::getReceivedMDN(m); CHECK(show(r.getDisposition()) == "manual-action/mdn-sent-manually;displayed|error", "disposition " + show(r.getDisposition())); CHECK(r.getContentMIC() == mic, "MIC '" + r.getContentMIC() + "'"); CHECK(omid == "(none)" ? r.getOriginalMessageId().getLeft().empty() : r.getOriginalMessageId().generate() == "<1@x>", "original message id"); R.outcome(order);
	});
}
