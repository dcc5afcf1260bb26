// C08: folding and unfolding of header fields.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;

static S u8(const text& t) { try { return t.getConvertedText(charset("utf-8")); } catch (std::exception&) { return t.getWholeBuffer(); } }
static S u8(const word& w) { S o; try { charset::convert(w.getBuffer(), o, w.getCharset(), charset("utf-8")); } catch (std::exception&) { o = w.getBuffer(); } return o; }
static S dumpMb(const mailbox& m) { return "{" + u8(m.getName()) + "|" + u8(m.getEmail().getLocalName()) + "@" + u8(m.getEmail().getDomainName()) + "}"; }
/** the decoded value, in a form which does not depend on how it would be generated */
static S dump(const headerField& f) {
	auto v = f.getValue(); S o = typeid(*v).name();
	if (auto t = dynamicCast <const text>(v)) o += u8(*t);
	else if (auto m = dynamicCast <const mailbox>(v)) o += dumpMb(*m);
	else if (auto l = dynamicCast <const addressList>(v)) { for (size_t i = 0 ; i < l->getAddressCount() ; ++i) { auto a = l->getAddressAt(i); if (auto g = dynamicCast <const mailboxGroup>(a)) { o += "(" + u8(g->getName()) + ":"; for (size_t k = 0 ; k < g->getMailboxCount() ; ++k) o += dumpMb(*g->getMailboxAt(k)); o += ")"; } else o += dumpMb(*dynamicCast <const mailbox>(a)); } }
	else if (auto l = dynamicCast <const mailboxList>(v)) { for (size_t i = 0 ; i < l->getMailboxCount() ; ++i) o += dumpMb(*l->getMailboxAt(i)); }
	else if (auto m = dynamicCast <const messageId>(v)) o += m->getLeft() + "|" + m->getRight();
	else if (auto q = dynamicCast <const messageIdSequence>(v)) { for (size_t i = 0 ; i < q->getMessageIdCount() ; ++i) o += "<" + q->getMessageIdAt(i)->getLeft() + "|" + q->getMessageIdAt(i)->getRight() + ">"; }
	else if (auto r = dynamicCast <const relay>(v)) { o += r->getFrom() + "|" + r->getBy() + "|" + r->getVia() + "|" + r->getId() + "|" + r->getFor() + "|"; for (auto& w : r->getWithList()) o += w + ","; o += r->getDate().generate(); }
	else if (auto d = dynamicCast <const disposition>(v)) { o += d->getActionMode() + "|" + d->getSendingMode() + "|" + d->getType(); for (auto& m : d->getModifierList()) o += "," + m; }
	else o += v->generate(lineLengthLimits::infinite);
	if (auto p = dynamic_cast <const parameterizedHeaderField*>(&f)) { std::vector <S> ps; for (size_t i = 0 ; i < p->getParameterCount() ; ++i) ps.push_back(p->getParameterAt(i)->getName() + "=" + u8(p->getParameterAt(i)->getValue())); std::sort(ps.begin(), ps.end()); for (auto& x : ps) o += ";" + x; }
	return o;
}
struct Src { const char *name, *value; };
static const Src SRC[] = {
	{"Subject", "Hello  big world, how are you ?"}, {"Subject", "=?utf-8?Q?caf=C3=A9?= and =?iso-8859-1?Q?cr=E8me?= =?utf-8?B?w6k=?= end"}, {"X-Custom", "a : b ; c , d"}, {"Subject", "a \t b"},
	{"From", "\"Doe, John\" <john@example.com>"}, {"From", "John Q. Doe <john@example.com>"}, {"From", "=?utf-8?Q?Andr=C3=A9?= Doe <a@b.c> (a comment here)"}, {"Sender", "plain@example.com"},
	{"To", "a@b.c, John Doe <j@d.e>, \"x, y\" <z@z.z>"}, {"Cc", "Group name: a@b.c, Bob B <b@b.b>; , last@x.y"}, {"Reply-To", "=?utf-8?B?w6k=?= =?utf-8?B?w6g=?= <a@b.c>, b@c.d"},
	{"Date", "Fri, 21 Nov 1997 09:55:06 -0600"}, {"Message-Id", "<abc.def@host.example>"}, {"References", "<a@b> <c@d> <e@f>"}, {"In-Reply-To", "<a@b>"},
	{"Received", "from a.b by c.d via TCP with ESMTP id XYZ for <u@v.w>; Fri, 21 Nov 1997 09:55:06 -0600"}, {"Received", "from a (b [1.2.3.4]) by c with SMTP; Fri, 21 Nov 1997 09:55:06 +0100"},
	{"Content-Type", "text/plain; charset=utf-8; format=flowed"}, {"Content-Type", "multipart/mixed; boundary=\"a b c\" ; x=y"}, {"Content-Type", "application/x-y; name*0*=utf-8''a%20b; name*1=\"c d\"; z=\"\""},
	{"Content-Disposition", "attachment; filename=\"my long file name.txt\"; size=12"}, {"Content-Transfer-Encoding", "quoted-printable"}, {"Return-Path", "<a@b.c>"},
	{"Disposition", "manual-action/MDN-sent-manually; displayed/error, warning"}, {"Mime-Version", "1.0"}, {"Disposition-Notification-To", "A B <a@b.c>, c@d.e"}, {"Content-Location", "http://a.b/c d"}, {"Content-Id", "<x@y>"},
};
static S ws1(const S& s) { S o; for (char c : s) { if (c == '\t') c = ' '; if (c == ' ' && o.size() && o.back() == ' ') continue; o += c; } return o; }
static shared_ptr <headerField> parseOne(mc::Run& R, const S& src, const S& what) {
	header h; h.parse(src);
	CHECK(h.getFieldCount() == 3, str(h.getFieldCount()) + " fields instead of 3 in " + R.show(what));
	R.equal(h.getFieldAt(0)->getName(), S("X-A"), "first field of " + what); R.equal(h.getFieldAt(2)->getName(), S("X-B"), "last field of " + what);
	R.equal(h.getFieldAt(0)->getValue <text>()->getWholeBuffer(), S("one"), "first value of " + what); R.equal(h.getFieldAt(2)->getValue <text>()->getWholeBuffer(), S("two"), "last value of " + what);
	return h.getFieldAt(1);
}
/** no line of generated text is too long, unless it cannot be cut */
static void lines(mc::Run& R, const S& g, size_t max) {
	size_t i = 0; bool first = true;
	while (i < g.size()) {
		size_t e = g.find("\r\n", i); if (e == S::npos) e = g.size();
		S l = g.substr(i, e - i); i = e + 2;
		CHECK(l.find_first_of("\r\n") == S::npos, "bare line break in " + R.show(g));
		if (!first) { CHECK(!l.empty() && (l[0] == ' ' || l[0] == '\t'), "folded line does not start with a white space in " + R.show(g)); CHECK(l.find_first_not_of(" \t") != S::npos, "folded line without text in " + R.show(g)); }
		if (l.size() > max && l.find("*0*=") == S::npos) {
			S t = l; if (first) t = t.substr(std::min(t.size(), t.find(':') + 2));
			size_t a = t.find_first_not_of(" \t"); t = a == S::npos ? S() : t.substr(a); while (t.size() && strchr(" \t", t[t.size() - 1])) t.erase(t.size() - 1);
			bool q = false, cut = false; for (size_t k = 0 ; k < t.size() ; ++k) { if (t[k] == '\\' && q) { ++k; continue; } if (t[k] == '"') q = !q; if (!q && (t[k] == ' ' || t[k] == '\t')) cut = true; }
			CHECK(!cut, "line of " + str(l.size()) + " characters (maximum " + str(max) + "): " + R.show(l));
		}
		first = false;
	}
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C08";
	R.rule = "every placement of one, two or (thorough) three folds before white space in sample values of every field type, with CRLF and LF line ends and several kinds of following white space; "
		"generation of values of every type at every maximum line length; every header of up to three fields over an alphabet of line shapes";
	R.assumptions = {"sources are compared by their decoded values (UTF-8)", "a quoted string is one token, and so is a date"};
	const bool T = R.thorough;
	for (auto& s : SRC) R.testL([&] { return S("source|") + s.name + ": " + s.value; }, [&] {
		const S v = s.value; std::vector <size_t> ws; for (size_t i = 0 ; i < v.size() ; ++i) if (v[i] == ' ' && (i == 0 || v[i - 1] != ' ')) ws.push_back(i);
		for (const S nl : {"\r\n", "\n"}) {
			const S A = "X-A: one" + nl, B = nl + "X-B: two" + nl + nl;
			const S want = dump(*parseOne(R, A + s.name + ": " + v + B, v));
			auto test = [&](std::vector <size_t> at, const S& extra) {
				S f; for (size_t i = 0 ; i < v.size() ; ++i) { for (size_t k : at) if (k == i) f += nl + extra; f += v[i]; }
				for (const S pre : {S(": "), S(":"), ":" + nl + " ", ": " + nl + "\t", S(" : "), S("\t: "), S(" \t :\t")}) {
					if (pre[pre.size() - 1] == ':' && v[0] == ' ') continue;
					if (pre[0] != ':' && at.size() > 1) continue;
					const S src = A + s.name + pre + f + B; R.outcome(src); R.transition();
					auto fl = parseOne(R, src, src); R.equal(fl->getName(), S(s.name), "name");
					R.equal(ws1(dump(*fl)), ws1(want), "value of " + R.show(src));
				}
			};
			test({}, "");
			for (size_t i = 0 ; i < ws.size() ; ++i) {
				test({ws[i]}, "");
				for (size_t j = i + 1 ; j < ws.size() ; ++j) { test({ws[i], ws[j]}, ""); if (T) for (size_t k = j + 1 ; k < ws.size() ; ++k) test({ws[i], ws[j], ws[k]}, ""); }
			}
			test(ws, "");
		}
	});
	// sequences of lines: which fields they make up
	const std::vector <S> L = {"A: x", "B:", " cont", "\tc d", "B: ", "C:y"};
	for (size_t n = 1 ; n <= (T ? 6u : 5u) ; ++n) mc::tuples(L.size(), n, [&](const std::vector <size_t>& ix) {
		if (ix[0] == 2 || ix[0] == 3) return;
		R.testL([&] { S s = "lines|"; for (size_t i : ix) s += L[i] + "/"; return s; }, [&] {
			for (const S nl : {"\r\n", "\n"}) for (int end = 0 ; end < 3 ; ++end) {
				S src; std::vector <std::pair <S, S> > want;
				for (size_t i = 0 ; i < ix.size() ; ++i) {
					const S& l = L[ix[i]]; src += l; if (i + 1 < ix.size() || end) src += nl;
					if (l[0] == ' ' || l[0] == '\t') { S t = l.substr(1); want.back().second += (want.back().second.empty() ? "" : " ") + t; }
					else { S t = l.substr(2); if (t.size() && t[0] == ' ') t = t.substr(1); want.push_back({l.substr(0, 1), t}); }
				}
				if (end == 2) src += nl + "Z: body" + nl;
				header h; size_t np = 0; h.parse(src, 0, src.size(), &np); R.outcome(src);
				R.equal(h.getFieldCount(), want.size(), "number of fields in " + R.show(src));
				for (size_t i = 0 ; i < want.size() ; ++i) { R.equal(h.getFieldAt(i)->getName(), want[i].first, "name"); R.equal(u8(*h.getFieldAt(i)->getValue <text>()), want[i].second, "value of field " + str(i) + " of " + R.show(src)); }
				R.equal(np, end == 2 ? src.size() - (7 + nl.size()) : src.size(), "end of the header of " + R.show(src));
			}
		});
	});
	// generation
	for (size_t max = 20 ; max <= 100 ; ++max) for (auto& s : SRC) R.testL([&] { return S("generate|") + str(max) + "|" + s.name + ": " + s.value; }, [&] {
		auto f = headerFieldFactory::getInstance()->create(s.name, s.value);
		generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max); ctx.setWrapMessageId(true);
		S g; utility::outputStreamStringAdapter os(g); f->generate(ctx, os); R.outcome(g); R.transition();
		if (S(s.name) != "Date" || max >= 40) lines(R, g, max);
		auto p = parseOne(R, "X-A: one\r\n" + g + "\r\nX-B: two\r\n\r\n", g);
		R.equal(dump(*p), dump(*f), "value read from " + R.show(g));
		CHECK(f->getGeneratedSize(ctx) >= g.size(), "generated " + str(g.size()) + ", announced " + str(f->getGeneratedSize(ctx)) + " for " + R.show(g));
	});
	// long lists
	for (size_t n = 1 ; n <= (T ? 40u : 14u) ; ++n) for (int kind = 0 ; kind < 6 ; ++kind) R.testL([&] { return "list|" + str(kind) + "*" + str(n); }, [&] {
		for (size_t wl = 1 ; wl <= 40 ; wl += (T ? 1 : 3)) for (size_t max : {78, 40}) {
			S v; const S w(wl, 'w');
			for (size_t i = 0 ; i < n ; ++i) switch (kind) {
				case 0: v += (i ? " " : "") + w; break;
				case 1: v += (i ? ", " : "") + w + "@x.y"; break;
				case 2: v += (i ? ", N " : "N ") + w + " <" + w + "@x.y>"; break;
				case 3: v += (i ? " <" : "<") + w + "@" + str(i) + ">"; break;
				case 4: v += (i ? S("; p") + str(i) + "=" : S("text/plain; p=")) + w; break;
				case 5: v += (i ? S(" =?utf-8?Q?=C3=A9") : S("=?utf-8?Q?=C3=A9")) + w + "?="; break;
			}
			auto f = headerFieldFactory::getInstance()->create(kind == 0 || kind == 5 ? "Subject" : kind < 3 ? "To" : kind == 3 ? "References" : "Content-Type", v);
			generationContext ctx(generationContext::getDefaultContext()); ctx.setMaxLineLength(max); ctx.setWrapMessageId(true);
			S g; utility::outputStreamStringAdapter os(g); f->generate(ctx, os); R.outcome(g); R.transition();
			lines(R, g, max);
			auto p = parseOne(R, "X-A: one\r\n" + g + "\r\nX-B: two\r\n\r\n", g);
			R.equal(dump(*p), dump(*f), "value read from " + R.show(g));
		}
	});
}
