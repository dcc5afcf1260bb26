// C07: values cannot inject header lines.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;

/** Independent reader: names of the header fields and the body of a generated message */
static void split(const S& m, std::vector <std::pair <S, S> >& fields, S& body, S& bad) {
	size_t i = 0;
	while (i < m.size()) {
		size_t e = m.find("\r\n", i); if (e == S::npos) { bad = "header line without CRLF"; return; }
		const S line = m.substr(i, e - i); i = e + 2;
		if (line.empty()) { body = m.substr(i); return; }
		if (line.find_first_of("\r\n") != S::npos) bad = "bare CR or LF in a header line";
		if (line[0] == ' ' || line[0] == '\t') {
			if (fields.empty()) { bad = "continuation at the start"; return; }
			if (line.find_first_not_of(" \t") == S::npos) bad = "continuation line of white space only";
			fields.back().second += "\r\n" + line; continue;
		}
		const size_t c = line.find(':'); if (c == S::npos) { bad = "line without a field name: " + line; return; }
		fields.push_back({line.substr(0, c), line.substr(c + 1)});
	}
	bad = "no end of header";
}
typedef std::function <shared_ptr <headerField>(const S&)> Kind;
static shared_ptr <headerField> hf(const char* n) { return headerFieldFactory::getInstance()->create(n); }
template <class V> static shared_ptr <headerField> hv(const char* n, const V& v) { auto f = hf(n); f->setValue(v); return f; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C07";
	R.rule = "every string up to the stated length over CR, LF, space, tab, NUL, field-like text and delimiters stored in each kind of header value, between two other fields and before a body; "
		"the generated message read by the library and by an independent reader";
	R.assumptions = {"names of fields and of parameters are chosen by the program, not taken from data"};
	const bool T = R.thorough;
	std::vector <std::pair <S, Kind> > kinds = {
		{"text", [](const S& s) { return hv("Subject", text(s, charset("utf-8"))); }},
		{"text ascii", [](const S& s) { return hv("Subject", text(word(s, charset("us-ascii")))); }},
		{"text latin", [](const S& s) { return hv("Organization", text(word("\xe9" + s, charset("iso-8859-1")))); }},
		{"text words", [](const S& s) { text t; for (auto c : {"a", ""}) t.appendWord(make_shared <word>(c + s, charset("utf-8"))); t.appendWord(make_shared <word>(s, charset("us-ascii"))); return hv("Subject", t); }},
		{"text lang", [](const S& s) { return hv("Subject", text(word(s, charset("utf-8"), "en"))); }},
		{"custom", [](const S& s) { return hv("X-Custom", text(s, charset("utf-8"))); }},
		{"location", [](const S& s) { return hv("Content-Location", text(s, charset("utf-8"))); }},
		{"mailbox name", [](const S& s) { return hv("From", mailbox(text(s, charset("utf-8")), emailAddress("a@b.c"))); }},
		{"mailbox name word", [](const S& s) { return hv("From", mailbox(text(word(s, charset("us-ascii"))), emailAddress("a@b.c"))); }},
		{"local part", [](const S& s) { return hv("From", mailbox(text("n"), emailAddress(word(s, charset("utf-8")), word("b.c")))); }},
		{"domain", [](const S& s) { return hv("Sender", mailbox(emailAddress(word("a"), word(s, charset("us-ascii"))))); }},
		{"list", [](const S& s) { addressList l; l.appendAddress(make_shared <mailbox>(text(s, charset("utf-8")), emailAddress("a@b.c"))); l.appendAddress(make_shared <mailbox>(emailAddress(word(s), word("x")))); return hv("To", l); }},
		{"group", [](const S& s) { addressList l; auto g = make_shared <mailboxGroup>(text(s, charset("utf-8"))); g->appendMailbox(make_shared <mailbox>(text(s, charset("utf-8")), emailAddress("a@b.c"))); l.appendAddress(g); return hv("Cc", l); }},
		{"mailbox list", [](const S& s) { mailboxList l; l.appendMailbox(make_shared <mailbox>(text(s, charset("utf-8")), emailAddress("a@b.c"))); return hv("Disposition-Notification-To", l); }},
		{"message-id left", [](const S& s) { return hv("Message-Id", messageId(s, "h")); }},
		{"message-id right", [](const S& s) { return hv("Content-Id", messageId("l", s)); }},
		{"references", [](const S& s) { messageIdSequence q; q.appendMessageId(make_shared <messageId>("a", s)); q.appendMessageId(make_shared <messageId>(s, "b")); return hv("References", q); }},
		{"media type", [](const S& s) { return hv("Content-Type", mediaType(s, "plain")); }},
		{"media subtype", [](const S& s) { return hv("Content-Type", mediaType("text", s)); }},
		{"charset", [](const S& s) { auto f = dynamicCast <contentTypeField>(hv("Content-Type", mediaType("text", "plain"))); f->setCharset(charset(s)); return dynamicCast <headerField>(f); }},
		{"boundary", [](const S& s) { auto f = dynamicCast <contentTypeField>(hv("Content-Type", mediaType("text", "plain"))); f->setBoundary(s); return dynamicCast <headerField>(f); }},
		{"report type", [](const S& s) { auto f = dynamicCast <contentTypeField>(hv("Content-Type", mediaType("text", "plain"))); f->setReportType(s); return dynamicCast <headerField>(f); }},
		{"parameter", [](const S& s) { auto f = dynamicCast <parameterizedHeaderField>(hv("Content-Type", mediaType("text", "plain"))); f->appendParameter(make_shared <parameter>("p", word(s, charset("us-ascii")))); f->appendParameter(make_shared <parameter>("q", s)); return dynamicCast <headerField>(f); }},
		{"disposition", [](const S& s) { return hv("Content-Disposition", contentDisposition(s)); }},
		{"filename", [](const S& s) { auto f = dynamicCast <contentDispositionField>(hf("Content-Disposition")); f->setFilename(word(s, charset("utf-8"))); f->setSize(s); return dynamicCast <headerField>(f); }},
		{"encoding", [](const S& s) { return hv("Content-Transfer-Encoding", encoding(s)); }},
		{"return path", [](const S& s) { return hv("Return-Path", path(s, "d")); }},
		{"return path domain", [](const S& s) { return hv("Return-Path", path("l", s)); }},
		{"relay", [](const S& s) { relay r; r.setFrom(s); r.setBy(s); r.setVia(s); r.setId(s); r.setFor(s); r.getWithList().push_back(s); return hv("Received", r); }},
		{"mdn", [](const S& s) { disposition d; d.setActionMode(s); d.setSendingMode(s); d.setType(s); d.addModifier(s); return hv("Disposition", d); }},
	};
	auto one = [&](const S& kn, const Kind& k, const S& s) {
		R.testL([&] { return kn + "|" + esc(s); }, [&] {
			shared_ptr <headerField> f;
			try { f = k(s); } catch (vmime::exception&) { R.count("refused"); return; }
			for (size_t max : {size_t(78), size_t(lineLengthLimits::infinite)}) for (int mode = 0 ; mode < 4 ; ++mode) {
				if (mode && kn != "parameter" && kn != "filename" && kn != "charset" && mode != 1) continue;
				auto m = make_shared <message>();
				m->getHeader()->appendField(hv("X-First", text("first")));
				m->getHeader()->appendField(vmime::clone(f));
				m->getHeader()->appendField(hv("X-Last", text("last")));
				const S body = "Body: text\r\n\r\nmore";
				m->getBody()->setContents(make_shared <stringContentHandler>(body, encoding("8bit")), mediaType("text", "plain"), charset("utf-8"), encoding("8bit"));
				// setContents() adds its own fields; put the tested field's own kind back
				for (auto n : {"Content-Type", "Content-Transfer-Encoding"}) { auto all = m->getHeader()->findAllFields(n); for (auto& x : all) m->getHeader()->removeField(x); }
				auto hdr = m->getHeader(); hdr->removeAllFields();
				hdr->appendField(hv("X-First", text("first"))); hdr->appendField(vmime::clone(f)); hdr->appendField(hv("X-Last", text("last")));
				generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max);
				ctx.setEncodedParameterValueMode(mode == 0 ? generationContext::PARAMETER_VALUE_RFC2231_ONLY : mode == 1 ? generationContext::PARAMETER_VALUE_NO_ENCODING : mode == 2 ? generationContext::PARAMETER_VALUE_RFC2047_ONLY : generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047);
				if (mode == 1 && kn.compare(0, 4, "para") && kn != "filename" && kn != "charset") ctx.setInternationalizedEmailSupport(true);
				S g; utility::outputStreamStringAdapter os(g); try { m->generate(ctx, os); } catch (exceptions::no_encoder_available&) { g.clear(); hdr->generate(ctx, os); g += "\r\n" + body; }
				const S what = "; generated " + R.show(g); R.outcome(g); R.transition();
				std::vector <std::pair <S, S> > fs; S b, bad; split(g, fs, b, bad);
				CHECK(bad.empty(), bad + what);
				S names; for (auto& x : fs) names += x.first + ",";
				const S want = "X-First," + f->getName() + ",X-Last,";
				R.equal(names, want, "field names (independent reader)" + what);
				R.equal(fs[0].second, S(" first"), "field before" + what); R.equal(fs[2].second, S(" last"), "field after" + what);
				// a body that is encoded in the generated message cannot be compared here when the tested field is the encoding
				if (kn != "encoding") R.equal(b, body, "body" + what);
				message p; p.parse(g); names.clear();
				for (size_t i = 0 ; i < p.getHeader()->getFieldCount() ; ++i) names += p.getHeader()->getFieldAt(i)->getName() + ",";
				R.equal(names, want, "field names (library)" + what);
				R.equal(p.getHeader()->getFieldAt(0)->getValue <text>()->getWholeBuffer(), S("first"), "value of the field before" + what);
				R.equal(p.getHeader()->getFieldAt(2)->getValue <text>()->getWholeBuffer(), S("last"), "value of the field after" + what);
				if (kn != "encoding" && kn.find("media") == S::npos && kn != "boundary") { S got; utility::outputStreamStringAdapter go(got); p.getBody()->getContents()->extractRaw(go); R.equal(got, body, "body (library)" + what); }
			}
		});
	};
	const std::vector <S> A = {"\r", "\n", " ", "X: y", "a", S(1, '\0'), "\xc3\xa9", "\t", ">", "\""};
	for (auto& k : kinds) {
		mc::strings(A, 0, T ? 4 : 3, [&](const S& s) { one(k.first, k.second, s); });
		mc::strings({"\r\n", " ", "X: y", "\n", "=?"}, 1, T ? 6 : 4, [&](const S& s) { one(k.first, k.second, s); });
		for (size_t n = 40 ; n <= 90 ; n += (T ? 1 : 3)) for (auto& x : std::vector <S>{"\r\nX: y\r\n\r\nz", "\n\nX: y", "\r\n\r\n", " \r\n \r\n z"}) one(k.first, k.second, S(n, 'w') + x + S(20, 'v'));
	}
}
