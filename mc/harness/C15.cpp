// C15: parsers are total and memory-safe.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

static S extractAll(const shared_ptr <const contentHandler>& c) { S o; utility::outputStreamStringAdapter os(o); try { c->extract(os); } catch (exception&) {} return o; }
static void inspect(component& c, int depth = 0) {
	if (auto b = dynamic_cast <body*>(&c)) { extractAll(b->getContents()); b->getContentType(); b->getCharset(); b->getEncoding(); b->getPrologText(); }
	if (auto f = dynamic_cast <headerField*>(&c)) { f->getName(); if (auto p = dynamic_cast <parameterizedHeaderField*>(f)) for (size_t i = 0 ; i < p->getParameterCount() ; ++i) { auto q = p->getParameterAt(i); q->getName(); q->getValue(); try { q->getValueAs <datetime>(); q->getValueAs <charset>(); } catch (exception&) {} } }
	if (auto t = dynamic_cast <text*>(&c)) { for (auto& w : t->getWordList()) w->getBuffer(); try { t->getConvertedText(charset("utf-8")); } catch (exception&) {} }
	if (auto a = dynamic_cast <addressList*>(&c)) a->toMailboxList();
	if (depth < 40) for (auto& k : c.getChildComponents()) inspect(*k, depth + 1);
}
static void use(mc::Run& R, component& c) {
	inspect(c);
	S g; try { g = c.generate(); c.generate(40, 10); } catch (exception&) { }
	R.outcome(g);
	try { c.getGeneratedSize(generationContext::getDefaultContext()); } catch (exception&) { }
	auto k = c.clone(); CHECK(k, "clone is null"); inspect(*k);
	try { R.equal(k->generate(), g, "clone"); } catch (exception&) { }
	k->copyFrom(c); c.copyFrom(*k);
	k.reset(); inspect(c);
}
template <class C> static void one(mc::Run& R, const S& s) {
	// in a heap block which ends with the last byte
	S big(40, '\n'); big += s; big.shrink_to_fit();
	{ C c; bool ok = true; size_t np = 0; try { c.parse(big, 40, big.size(), &np); } catch (exception&) { ok = false; } R.transition(); use(R, c); if (ok) CHECK(np >= 40 && np <= big.size(), "new position " + str(np) + " for " + R.show(s)); }
	{ C c; try { c.parse(s); } catch (exception&) { } R.transition(); c.parse(S("")); use(R, c); }
}
static const std::vector <S> FIELDS = {"Subject", "From", "To", "Date", "Content-Type", "Content-Disposition", "Content-Transfer-Encoding", "Message-Id", "References", "Received", "Return-Path", "Disposition", "Original-Message-Id", "Reply-To", "Disposition-Notification-To", "Mime-Version", "X-Any", "Delivered-To", "Content-Id", "Original-Recipient"};
static void field(mc::Run& R, const S& v) { for (auto& n : FIELDS) { header h; try { h.parse(n + ": " + v + "\r\n\r\n"); } catch (exception&) { } use(R, h); R.transition(); } }
typedef std::function <void(mc::Run&, const S&)> P;

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C15";
	R.rule = "for every parser (message, header, every registered field, every value type, RFC 2047 decoding): every string up to 4-5 (thorough 5-7) pieces over the characters which mean something to it, at the end of a heap block; every byte alone and in pairs with structural ones; lengths around buffer sizes and very long runs and nestings of every structural piece; afterwards the object is inspected, generated, measured, cloned, copied and parsed into again; run under address and undefined-behaviour sanitizers with a time limit";
	R.assumptions = {"memory errors are those AddressSanitizer and UBSan report; the time limit of a case is that of the framework"};
	const bool T = R.thorough;
	struct E { S name; P run; std::vector <S> alpha; size_t len; };
	const std::vector <S> addr = {"a", "@", "<", ">", ",", ":", ";", "\"", "\\", "(", ")", "=?", "?=", " ", "\r\n "};
	const std::vector <E> all = {
		{"mailbox", one <mailbox>, addr, 4}, {"group", one <mailboxGroup>, addr, 4}, {"mailboxes", one <mailboxList>, addr, 4}, {"addresses", one <addressList>, addr, 4},
		{"email", one <emailAddress>, {"a", "@", "\"", "\\", "(", ")", ".", " ", "=?utf-8?q?", "?=", "\xc3\xa9", "\xff", "xn--", "[", "\r\n"}, 4},
		{"text", one <text>, {"=?", "?", "?=", "utf-8", "q", "b", "=", "a", " ", "\r\n ", "*", "_", "\xe9"}, 4}, {"word", one <word>, {"=?", "?", "?=", "us-ascii", "q", "B", "=4", "a", " ", "*en", "\r\n\t"}, 4},
		{"date", one <datetime>, {"1", "Mon", ",", ":", " ", "+", "-", "Jan", "99999", "0", "GMT", "(", "x"}, 4}, {"date2", [](mc::Run& r, const S& s) { one <datetime>(r, "1 Jan " + s); one <datetime>(r, "Mon, 1 Jan 2000 1" + s); one <datetime>(r, "1 Jan 2000 11:12:13 " + s); }, {"1", ":", " ", "+", "-", "9999999999", "E", "ST", "(", "\\"}, 4},
		{"msgid", one <messageId>, {"<", ">", "@", "(", ")", "\\", "\"", "a", " ", "\r\n "}, 5}, {"msgids", one <messageIdSequence>, {"<", ">", "@", "(", ")", "\\", "a", " ", "\r\n "}, 5},
		{"media", one <mediaType>, {"/", "a", " ", ";", "(", ")", "\"", "\r\n"}, 4}, {"disp", one <contentDisposition>, {"a", " ", ";", "(", "\r\n", "A"}, 4}, {"enc", one <encoding>, {"a", ";", " ", "7bit", "\r"}, 4}, {"charset", one <charset>, {"a", " ", "\"", "'", "\n"}, 4},
		{"mdn", one <disposition>, {"a", "/", ";", ",", " ", "-", "(", "\r\n"}, 5}, {"path", one <path>, {"<", ">", "@", "a", "\"", " ", "(", "\\"}, 5}, {"relay", one <relay>, {"from ", "by ", "with", "id", " ", ";", "(", ")", "for", "\\", "Mon, 1 Jan"}, 4},
		{"parameter", [](mc::Run& r, const S& s) { parameter p("n"); S big(40, ';'); big += s; big.shrink_to_fit(); try { static_cast <component&>(p).parse(big, 40, big.size()); } catch (exception&) { } use(r, p); }, {"a", "'", "%", "=?", "\"", ";", "\\", "%4", "utf-8", "?=", "\xff"}, 4},
		{"params", [](mc::Run& r, const S& s) { for (const S n : {"Content-Type: a/b; ", "Content-Disposition: "}) { header h; try { h.parse(n + s + "\r\n"); } catch (exception&) { } use(r, h); r.transition(); S v = n + s; v.shrink_to_fit(); header k; try { k.parse(v); } catch (exception&) { } use(r, k); } }, {";", "=", "a", "*", "0", "1", "\"", "\\", "'", "%4", " ", "99999999999", "\r\n "}, 4},
		{"header", one <header>, {"A", ":", " ", "\r\n", "\n", "\r", "To", "\xff", "="}, 5},
		{"fields", field, {"a", "<", "\"", "\\", "(", ";", "=", ",", "/", "\r\n ", "=?"}, T ? 3u : 2u},
		{"message", one <message>, {"A: b\r\n", "\r\n", "--b", "--", "\n", "Content-Type: multipart/x; boundary=b\r\n", "Content-Type: multipart/x\r\n", "-", "Content-Transfer-Encoding: base64\r\n", " ", "x"}, 4},
		{"body", [](mc::Run& r, const S& s) { one <message>(r, "Content-Type: multipart/x; boundary=b\r\n\r\n" + s); one <message>(r, "Content-Type: multipart/x\r\n\r\n" + s); one <bodyPart>(r, "Content-Transfer-Encoding: x-uuencode\r\n\r\n" + s); }, {"--b", "--", "\r\n", "\n", "b", "-", "a: b\r\n"}, 4},
		{"uu", [](mc::Run& r, const S& s) { for (const S e : {"uuencode", "base64", "quoted-printable", "7bit"}) one <message>(r, "Content-Transfer-Encoding: " + e + "\r\n\r\n" + s); }, {"begin 644 a\r\n", "M", "`\r\n", "end", "\r\n", "=", "#AAA", " ", "\xff", "begin"}, T ? 4u : 3u},
		{"decode", [](mc::Run& r, const S& s) { for (const S t : {s, "=?utf-8?Q?" + s + "?=", "=?" + s, "=?iso-2022-jp?B?" + s + "?= x"}) { try { auto x = text::decodeAndUnfold(t); use(r, *x); } catch (exception&) { } } }, {"=", "?", "A", "_", " ", "=4", "\r\n ", "/", "G0"}, 4},
	};
	for (auto& e : all) {
		mc::strings(e.alpha, 0, e.len + (T ? (e.alpha.size() > 11 ? 1 : 2) : e.alpha.size() > 11 ? (e.len > 3 ? -1 : 0) : 0), [&](const S& s) { R.testL([&] { return e.name + "|" + s; }, [&] { e.run(R, s); }); });
		for (int b = 0 ; b < 256 ; ++b) R.testL([&] { return e.name + "|byte" + str(b); }, [&] { const S c(1, char(b)); e.run(R, c); e.run(R, c + c); for (auto& a : e.alpha) { e.run(R, a + c + a); if (T) { e.run(R, a + c); e.run(R, c + a); } } });
		for (auto& a : e.alpha) for (size_t n : {15u, 31u, 33u, 75u, 100u, 127u, 255u, 256u, 257u, T ? 20000u : 1025u}) R.testL([&] { return e.name + "|run" + str(n) + a; }, [&] { S s; for (size_t i = 0 ; i < n ; ++i) s += a; e.run(R, s); if (n < 5000) { e.run(R, "a" + s); e.run(R, s + "@b>;"); e.run(R, "\"" + s); } });
		for (size_t i = 0 ; i < e.alpha.size() ; ++i) for (size_t j = 0 ; j < e.alpha.size() ; ++j) if (i != j) for (size_t n : T ? std::vector <size_t>{300, 5000, 20000} : std::vector <size_t>{100}) R.testL([&] { return e.name + "|alt" + str(n) + e.alpha[i] + "," + e.alpha[j]; }, [&] { S s; for (size_t k = 0 ; k < n ; ++k) { s += e.alpha[i]; s += e.alpha[j]; } e.run(R, s); });
	}
	// nestings
	for (size_t n : {10u, 100u, 1000u, 10000u, 40000u}) R.testL([&] { return "nest|" + str(n); }, [&] {
		for (auto& a : std::vector <std::pair <S, S> >{{"g:", ";"}, {"(", ")"}, {"<", ">"}, {"\"", "\""}, {"=?utf-8?q?", "?="}, {"a:b", ";"}}) { S s, t; for (size_t i = 0 ; i < n ; ++i) { s += a.first; t += a.second; } for (auto& f : {S("From: "), S("To: "), S("Received: "), S("Date: ")}) { header h; try { h.parse(f + s + t + "\r\n"); } catch (exception&) { } use(R, h); header k; try { k.parse(f + s); } catch (exception&) { } use(R, k); } }
	});
	for (size_t n : {10u, 100u, 240u, 400u, 1500u, 5000u}) R.testL([&] { return "nestparts|" + str(n); }, [&] {
		S s; for (size_t i = 0 ; i < n ; ++i) { const S b = "b" + str(i) + "x"; s += "Content-Type: multipart/x; boundary=" + b + "\r\n\r\n--" + b + "\r\n"; }
		message m; try { m.parse(s); } catch (exception&) { } R.transition(); m.generate(); auto k = m.clone();
		size_t d = 0; for (auto b = m.getBody() ; b->getPartCount() ; b = b->getPartAt(0)->getBody()) ++d; if (n <= 240) R.equal(d, n, "levels");
		S u; for (size_t i = 0 ; i < std::min(n, size_t(300)) ; ++i) u += "Content-Type: multipart/x; boundary=b\r\n\n"; message q; try { q.parse(u); } catch (exception&) { } R.transition(); });
}
