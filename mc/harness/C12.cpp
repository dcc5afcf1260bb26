// C12: structured field values round trip, copies are equal and independent.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;

static const std::vector <size_t> MAX = {lineLengthLimits::infinite, 78, 30};
static S gen2(const component& c, size_t max, size_t pos, bool wrap) {
	S o; utility::outputStreamStringAdapter os(o); generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max); ctx.setWrapMessageId(wrap); c.generate(ctx, os, pos); return o;
}
static S dump(const messageId& m) { return "<" + m.getLeft() + "|" + m.getRight() + ">"; }
static S dump(const messageIdSequence& q) { S o; for (size_t i = 0 ; i < q.getMessageIdCount() ; ++i) o += dump(*q.getMessageIdAt(i)); return o; }
static S dump(const mediaType& m) { return m.getType() + "|" + m.getSubType(); }
static S dump(const contentDisposition& d) { return utility::stringUtils::toLower(d.getName()); }
static S dump(const encoding& d) { return utility::stringUtils::toLower(d.getName()); }
static S dump(const charset& d) { return utility::stringUtils::toLower(d.getName()); }
static S dump(const disposition& d) { S o = d.getActionMode() + "|" + d.getSendingMode() + "|" + d.getType(); for (auto& m : d.getModifierList()) o += "," + m; return o; }
static S dump(const path& p) { return p.getLocalPart() + "|" + p.getDomain(); }
static S dump(const relay& r) { S o = r.getFrom() + "|" + r.getBy() + "|" + r.getVia() + "|" + r.getId() + "|" + r.getFor(); for (auto& w : r.getWithList()) o += "|" + w; return o + "|" + r.getDate().generate(); }
template <class T> static auto eq(const T& a, const T& b, int) -> decltype(a == b) { return (a == b) && (b == a) && !(a != b); }
template <class T> static bool eq(const T& a, const T& b, long) { return dump(a) == dump(b); }

/** generated and parsed (alone, in a larger buffer, through a field, into a used object), cloned, assigned, copied */
template <class T, class M> static void check(mc::Run& R, const T& v, const T& used, const char* field, M modify) {
	const S want = dump(v); R.outcome(want);
	for (size_t max : MAX) for (size_t pos : {0, 25}) for (bool wrap : {false, true}) {
		const S g = gen2(v, max, pos, wrap); R.transition();
		T p(v); modify(p); p.parse(g); R.equal(dump(p), want, "value read from " + R.show(g)); CHECK(eq(p, v, 0), "not equal after generation and parsing: " + R.show(g));
		T q(used); q.parse(g); R.equal(dump(q), want, "value read from " + R.show(g) + " into a used object"); CHECK(eq(q, v, 0), "not equal: " + R.show(g));
		const S big = "<x@y> (" + g + ";/>= w"; T r(used); r.parse(big, 7, 7 + g.size()); R.equal(dump(r), want, "value read from a region of " + R.show(big));
	}
	if constexpr (std::is_base_of <headerFieldValue, T>::value) if (field) {
		for (size_t max : MAX) {
			auto f = headerFieldFactory::getInstance()->create(field); f->setValue(v);
			S g = gen2(*f, max, 0, true); header h; h.parse("X-A: 1\r\n" + g + "\r\nX-B: 2\r\n\r\n");
			R.equal(h.getFieldCount(), size_t(3), "fields in " + R.show(g));
			auto p = h.getFieldAt(1)->template getValue <T>(); CHECK(p, "type of the value"); R.equal(dump(*p), want, "value of the field " + R.show(g));
		}
	}
	{ auto c = vmime::clone(v); CHECK(eq(*c, v, 0), "clone not equal"); R.equal(dump(*c), want, "clone"); modify(*c); R.equal(dump(v), want, "original after its clone changed"); }
	{ T c(v); CHECK(eq(c, v, 0), "copy not equal"); R.equal(dump(c), want, "copy"); modify(c); R.equal(dump(v), want, "original after its copy changed"); }
	{ T c(used); c = v; CHECK(eq(c, v, 0), "assigned value not equal"); R.equal(dump(c), want, "assigned"); modify(c); R.equal(dump(v), want, "original after the assigned value changed"); }
	{ T c(used); c.copyFrom(v); R.equal(dump(c), want, "copyFrom"); modify(c); R.equal(dump(v), want, "original after copyFrom"); }
	{ T o(v), c(o); modify(o); R.equal(dump(c), want, "copy after the original changed"); auto k = vmime::clone(v); modify(o); R.equal(dump(*k), want, "clone after the original changed"); }
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C12";
	R.rule = "every value of each type over small alphabets of legal (also mixed-case and look-alike) components, at several line lengths and start columns, read back alone, from a region of a larger string, into a used object and through a header field; clones, copies and assignments modified afterwards; Received fields also from every arrangement of clauses with comments";
	R.assumptions = {"components of a value are legal for its syntax (tokens, dot-atoms, addr-specs) and not empty where an empty one stands for a default"};
	const bool T = R.thorough;
	const std::vector <S> id = {"a", ".", "$", "+", "=", "/", "(", "B", "7", "\\"};
	// message identifiers
	auto mmid = [](messageId& m) { m.setLeft("changed"); m.setRight("elsewhere"); };
	const messageId usedMid("old.left", "old.right");
	mc::strings({"a", ".", "$", "=", "B", "9", "-"}, 1, T ? 4 : 3, [&](const S& l) { R.testL([&] { return "mid|" + l; }, [&] {
		for (const S r : {"b", "C.d", "[1.2.3.4]", "x-y.z"}) check(R, messageId(l, r), usedMid, "Message-Id", mmid);
		check(R, messageId(l, ""), usedMid, nullptr, mmid);
	}); });
	{ const std::vector <S> L = {"a", "B.c", "x$y=z", "looooooooooooooooooooong.left.part"};
	  for (size_t n = 0 ; n <= (T ? 6u : 5u) ; ++n) mc::tuples(L.size(), n, [&](const std::vector <size_t>& ix) { R.testL([&] { return "mids|" + mc::show(ix); }, [&] {
		messageIdSequence q; for (size_t i = 0 ; i < ix.size() ; ++i) q.appendMessageId(make_shared <messageId>(L[ix[i]], "h" + str(i)));
		messageIdSequence u; u.appendMessageId(make_shared <messageId>("o", "p")); u.appendMessageId(make_shared <messageId>("q", "r"));
		check(R, q, u, n ? "References" : nullptr, [](messageIdSequence& s) { if (s.getMessageIdCount()) { s.getMessageIdAt(0)->setLeft("changed"); s.appendMessageId(make_shared <messageId>("n", "m")); } else s.appendMessageId(make_shared <messageId>("n", "m")); });
	  }); }); }
	// media types, encodings, dispositions, charsets
	const std::vector <S> tok = {"text", "TEXT", "Plain", "x-a.b+c", "vnd.ms-excel", "html", "7bit", "a", "multipart", "message", "rfc822", "octet-stream", "base64", "Base64", "quoted-printable", "attachment", "INLINE", "form-data", "us-ascii", "UTF-8", "utf-7", "iso-8859-15", "a!#$&^_`{|}~b", "very-long-token-which-does-not-fit-on-a-short-line"};
	for (auto& a : tok) for (auto& b : tok) R.testL([&] { return "media|" + a + "/" + b; }, [&] {
		check(R, mediaType(a, b), mediaType("old", "type"), "Content-Type", [](mediaType& m) { m.setType("changed"); m.setSubType("x"); });
		mediaType m; m.setType(a); m.setSubType(b); check(R, m, mediaType("old", "type"), nullptr, [](mediaType& k) { k.setType("changed"); k.setSubType("x"); });
		CHECK(mediaType(a, b) == mediaType(a + "/" + b), "media type from a string");
		CHECK((mediaType(a, b) == mediaType(b, a)) == (utility::stringUtils::toLower(a) == utility::stringUtils::toLower(b)), "comparison of media types");
	});
	for (auto& a : tok) R.testL([&] { return "token|" + a; }, [&] {
		check(R, contentDisposition(a), contentDisposition("old"), "Content-Disposition", [](contentDisposition& d) { d.setName("changed"); });
		{ contentDisposition d; d.setName(a); check(R, d, contentDisposition("old"), "Content-Disposition", [](contentDisposition& k) { k.setName("changed"); }); }
		check(R, encoding(a), encoding("old"), "Content-Transfer-Encoding", [](encoding& d) { d.setName("changed"); });
		{ encoding d; d.setName(a); check(R, d, encoding("old"), "Content-Transfer-Encoding", [](encoding& k) { k.setName("changed"); }); }
		check(R, charset(a), charset("old"), nullptr, [](charset& d) { d = charset("changed"); });
		for (auto& b : tok) {
			const bool same = utility::stringUtils::toLower(a) == utility::stringUtils::toLower(b);
			R.equal(encoding(a) == encoding(b), same, "encodings " + a + " and " + b); R.equal(contentDisposition(a) == contentDisposition(b), same, "dispositions"); R.equal(charset(a) == charset(b), same, "charsets"); R.equal(charset(a) != charset(b), !same, "charsets");
			contentDisposition d; d.setName(b); R.equal(contentDisposition(a) == d, same, "dispositions"); R.equal(d == contentDisposition(a), same, "dispositions");
			encoding e; e.setName(b); R.equal(encoding(a) == e, same, "encodings"); R.equal(e == encoding(a), same, "encodings");
		}
	});
	// MDN dispositions
	{ const std::vector <S> am = {"manual-action", "automatic-action", "X-act"}, sm = {"MDN-sent-manually", "MDN-sent-automatically", "x"}, ty = {"displayed", "deleted", "X-type"}, mo = {"error", "Warning", "expired", "mailbox-terminated", "x"};
	  for (auto& a : am) for (auto& s : sm) for (auto& t : ty) for (size_t n = 0 ; n <= 3 ; ++n) mc::tuples(mo.size(), n, [&](const std::vector <size_t>& ix) { R.testL([&] { return "mdn|" + a + "/" + s + ";" + t + mc::show(ix); }, [&] {
		disposition d(a, s, t, ""); std::vector <S> w; for (size_t i : ix) { d.addModifier(mo[i]); const S l = utility::stringUtils::toLower(mo[i]); if (std::find(w.begin(), w.end(), l) == w.end()) w.push_back(l); }
		CHECK(d.getModifierList() == w, "modifiers " + dump(d));
		disposition u("o", "l", "d", ""); u.addModifier("old");
		check(R, d, u, "Disposition", [](disposition& k) { k.setActionMode("changed"); k.addModifier("more"); k.setType("x"); });
		disposition p; p.parse(d.generate()); for (auto& m : mo) R.equal(p.hasModifier(m), d.hasModifier(m), "modifier " + m);
		if (n == 1) { disposition k(a, s, t, mo[ix[0]]); R.equal(dump(k), dump(d), "constructor"); for (auto& m : mo) R.equal(k.hasModifier(m), d.hasModifier(m), "modifier " + m); }
	  }); }); }
	// paths
	mc::strings({"a", ".", "\"x y\"", "\"@\"", "+", "B"}, 1, T ? 4 : 3, [&](const S& l) { R.testL([&] { return "path|" + l; }, [&] {
		for (const S d : {"b.c", "[1.2.3.4]", "X-1", ""}) check(R, path(l, d), path("old", "dom"), "Return-Path", [](path& p) { p.setLocalPart("changed"); p.setDomain("x"); });
	}); });
	R.test("path|null", [&] { check(R, path(), path("old", "dom"), "Return-Path", [](path& p) { p.setLocalPart("changed"); p.setDomain("x"); }); check(R, path("", "d.e"), path("old", "dom"), "Return-Path", [](path& p) { p.setLocalPart("changed"); }); });
	// relays
	{ const std::vector <S> h = {"", "a.b", "bystander.org", "idaho.example (foreign (via) [10.1.2.3])", "(x)", "forward.from.with", "with.id"};
	  const std::vector <std::vector <S> > wl = {{}, {"ESMTP"}, {"fromage", "viaduct (by)"}};
	  for (size_t n = 0 ; n < h.size() * h.size() * h.size() ; ++n) R.testL([&] { return "relay|" + str(n); }, [&] {
		const S& f = h[n % h.size()]; const S& b = h[n / h.size() % h.size()]; const S& v = h[n / h.size() / h.size()];
		for (auto& w : wl) for (int k = 0 ; k < 4 ; ++k) {
			relay r; r.setFrom(f); r.setBy(b); r.setVia(v); for (auto& x : w) r.getWithList().push_back(x); r.setId(k & 1 ? "id.1$by" : ""); r.setFor(k & 2 ? "<for@by.from>" : ""); r.setDate(datetime(2010, 1 + n % 12, 5, 6, 7, 8, 90));
			relay u; u.setFrom("of"); u.setBy("ob"); u.setVia("ov"); u.setId("oi"); u.setFor("oo"); u.getWithList().push_back("ow"); u.setDate(datetime(1999, 9, 9, 9, 9, 9, 9));
			check(R, r, u, "Received", [](relay& q) { q.setFrom("changed"); q.getWithList().push_back("more"); q.setDate(datetime(2001, 1, 1)); });
		}
	  });
	  const std::vector <S> cl = {"from a.b", "by c.d (e f)", "via X", "with Y", "id Z (by)", "for <u@v>"};
	  for (size_t n = 1 ; n <= (T ? 6u : 4u) ; ++n) mc::tuples(cl.size(), n, [&](const std::vector <size_t>& ix) {
		for (size_t i = 0 ; i < n ; ++i) for (size_t j = 0 ; j < i ; ++j) if (ix[i] == ix[j]) return;
		R.testL([&] { return "received|" + mc::show(ix); }, [&] { for (const S sp : {" ", "\r\n\t", "  "}) {
			S src; for (size_t i : ix) { S c = cl[i]; c.insert(c.find(' '), sp == " " ? "" : sp); src += (src.empty() ? "" : sp) + c; }
			src += ";" + sp + "Fri, 21 Nov 1997 09:55:06 -0600";
			relay r; r.parse(src); S want; for (auto& c : cl) { size_t i = 0; while (i < n && cl[ix[i]] != c) ++i; if (c[0] == 'w') { } want += ""; }
			auto val = [&](size_t k) { for (size_t i : ix) if (i == k) return cl[k].substr(cl[k].find(' ') + 1); return S(); };
			R.equal(r.getFrom(), val(0), "from of " + R.show(src)); R.equal(r.getBy(), val(1), "by"); R.equal(r.getVia(), val(2), "via"); R.equal(r.getId(), val(4), "id"); R.equal(r.getFor(), val(5), "for of " + R.show(src));
			R.equal(r.getWithList().size(), size_t(val(3).empty() ? 0 : 1), "with"); if (!val(3).empty()) R.equal(r.getWithList()[0], val(3), "with"); R.equal(r.getDate().generate(), S("Fri, 21 Nov 1997 09:55:06 -0600"), "date"); R.outcome(src);
		} });
	  }); }
	// charsets as languages of parameters: the names are kept as they are given
	R.test("charset|names", [&] { for (auto& a : tok) { charset c(a); R.equal(c.getName(), a, "name"); charset d; d.parse(" " + a + "\t"); R.equal(d.getName(), a, "parsed name"); } });
	// the parameters with a meaning: every choice of which are set, replaced or absent
	{ struct D { int k; S v[2]; }; const char* const dn[] = {"creation-date", "modification-date", "read-date", "filename", "size", "report-type", "charset", "boundary"};
	  const S dates[2] = {"Fri, 21 Nov 1997 09:55:06 -0600", "Sat, 1 Jan 2000 00:00:59 +0530"}; const S vals[8][2] = {{dates[0], dates[1]}, {dates[1], dates[0]}, {dates[0], dates[0]}, {"a.txt", "name with; \"quotes\""}, {"12", "0"}, {"delivery-status", "disposition-notification"}, {"utf-8", "iso-8859-1"}, {"a=b", "x y"}};
	  for (int which = 0 ; which < 2 ; ++which) { const int lo = which ? 5 : 0, n = which ? 3 : 5; int total = 1; for (int i = 0 ; i < n ; ++i) total *= 3; for (int c = 0 ; c < total ; ++c) R.testL([&] { return S(which ? "type" : "disposition") + " parameters|" + str(c); }, [&] {
		auto dget = [&](const contentDispositionField& d, int k) -> S { switch (k) { case 0: return d.hasCreationDate() ? d.getCreationDate().generate() : S("-"); case 1: return d.hasModificationDate() ? d.getModificationDate().generate() : S("-"); case 2: return d.hasReadDate() ? d.getReadDate().generate() : S("-"); case 3: return d.hasFilename() ? d.getFilename().getBuffer() : S("-"); default: return d.hasSize() ? d.getSize() : S("-"); } };
		auto tget = [&](const contentTypeField& d, int k) -> S { switch (k) { case 5: return d.hasReportType() ? d.getReportType() : S("-"); case 6: return d.hasCharset() ? d.getCharset().getName() : S("-"); default: return d.hasBoundary() ? d.getBoundary() : S("-"); } };
		auto dset = [&](contentDispositionField& d, int k, const S& v) { switch (k) { case 0: d.setCreationDate(datetime(v)); break; case 1: d.setModificationDate(datetime(v)); break; case 2: d.setReadDate(datetime(v)); break; case 3: d.setFilename(word(v, charset("us-ascii"))); break; default: d.setSize(v); } };
		auto tset = [&](contentTypeField& d, int k, const S& v) { switch (k) { case 5: d.setReportType(v); break; case 6: d.setCharset(charset(v)); break; default: d.setBoundary(v); } };
		for (int again = 0 ; again < 2 ; ++again) {
			vmime::header h; auto hd = h.ContentDisposition(); hd->setValue(contentDisposition("attachment")); auto ht = h.ContentType(); ht->setValue(mediaType("multipart/report")); auto d = dynamicCast <contentDispositionField>(hd); auto t = dynamicCast <contentTypeField>(ht); CHECK(d && t, "type of the fields");
			S want[8], raw; int x = c; for (int i = 0 ; i < n ; ++i, x /= 3) { want[lo + i] = x % 3 ? vals[lo + i][x % 3 - 1] : S("-"); if (x % 3 == 0) continue; if (again) { if (which) tset(*t, lo + i, vals[lo + i][2 - x % 3]); else dset(*d, lo + i, vals[lo + i][2 - x % 3]); } if (which) tset(*t, lo + i, want[lo + i]); else dset(*d, lo + i, want[lo + i]); S q; for (char ch : want[lo + i]) { if (ch == '"') q += '\\'; q += ch; } raw += S("; ") + dn[lo + i] + "=\"" + q + "\""; }
			auto verify = [&](vmime::header& hh, const S& what) { auto d2 = hh.findField <contentDispositionField>("Content-Disposition"); auto t2 = hh.findField <contentTypeField>("Content-Type"); CHECK(d2 && t2, what + ": fields"); for (int i = 0 ; i < n ; ++i) R.equal(which ? tget(*t2, lo + i) : dget(*d2, lo + i), want[lo + i], what + ": " + dn[lo + i]); size_t cnt = 0; for (int i = 0 ; i < n ; ++i) cnt += want[lo + i] != "-"; R.equal(which ? t2->getParameterCount() : d2->getParameterCount(), cnt, what + ": number of parameters"); };
			verify(h, "set"); vmime::header p; p.parse(h.generate() + "\r\n"); verify(p, "generated and parsed"); auto cl = vmime::clone(h); verify(*cl, "copied");
			vmime::header f; f.parse(which ? "Content-Disposition: inline\r\nContent-Type: multipart/report" + raw + "\r\n\r\n" : "Content-Disposition: attachment" + raw + "\r\nContent-Type: text/plain\r\n\r\n"); verify(f, "read"); R.transition(4); R.outcome(raw);
		}
	  }); } }
}
