// C52: comments and white space in structured fields mean nothing.
#include "mc_main.hpp"
#include "mcv.hpp"
using namespace vmime;

/** a field of tokens; between them may stand: '-' nothing, '_' white space (at least one), 'o' white space, 'c' white space or comments or nothing, 'C' the same, but not nothing */
struct Form { S name; std::vector <S> tok; S gaps; S want; };       // gaps: before each token and after the last one

static S u8(const word& w) { return w.getConvertedText(charset("utf-8")); }
static S readField(headerField& f) {
	S r = f.getValue()->generate(10000); if (auto d = f.getValue <datetime>()) { char b[64]; snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%02d %d", d->getYear(), d->getMonth(), d->getDay(), d->getHour(), d->getMinute(), d->getSecond(), d->getZone()); r = b; }
	if (auto p = dynamic_cast <parameterizedHeaderField*>(&f)) for (size_t i = 0 ; i < p->getParameterCount() ; ++i) { auto q = p->getParameterAt(i); S n = q->getName(); for (auto& c : n) c = char(tolower(c)); r += "|" + n + "=" + u8(q->getValue()); }
	return r;
}

void mc_main(mc::Run& R) {
	initPlatform(); R.property = "C52"; const bool T = R.thorough;
	R.rule = "for every structured field (media type and disposition with parameters plain, quoted, in sections and encoded, transfer encoding, date, message identifiers, lists of them, path) every choice of comments (nested, with quoted pairs and the delimiters of the field), spaces, tabs and folds at every one, every two (thorough: every three) of the places where RFC 2045 and RFC 5322 allow them; what is read is the same as without, with the field alone, in a header, and in a message whose body is decoded by it";
	R.assumptions = {"the places around the slash of a media type are not specified", "white space is needed where two words would touch"};
	const std::vector <Form> forms = {
		{"Content-Type", {"text/x-y"}, "cc", "text/x-y"},
		{"Content-Type", {"text/x-y", ";", "a", "=", "v"}, "cccccc", "text/x-y|a=v"},
		{"Content-Type", {"text/x-y", ";", "charset", "=", "us-ascii", ";", "b", "=", "\"q;(r\\\") s\""}, "cccccccccc", "text/x-y|b=q;(r\") s|charset=us-ascii"},
		{"Content-Type", {"Multipart/mixed", ";", "boundary", "=", "\"--(x);\"", ";"}, "ccccccc", "multipart/mixed|boundary=--(x);"},
		{"Content-Type", {"text/x-y", ";", "n*0", "=", "a", ";", "N*1", "=", "\" b\"", ";", "n*2*", "=", "%41c"}, "cccccccccccccc", "text/x-y|n=a bAc"},
		{"Content-Disposition", {"attachment", ";", "filename*", "=", "utf-8''%C3%A9", ";", "size", "=", "12"}, "cccccccccc", "attachment|filename=\xc3\xa9|size=12"},
		{"Content-Disposition", {"INLINE"}, "cc", "inline"},
		{"Content-Disposition", {"attachment", ";", "filename", "=", "a.b", ";", "filename*", "=", "iso-8859-1'en'%E9"}, "cccccccccc", "attachment|filename=\xc3\xa9"},
		{"Content-Transfer-Encoding", {"base64"}, "cc", "base64"},
		{"Content-Transfer-Encoding", {"Quoted-Printable"}, "cc", "quoted-printable"},
		{"Date", {"Fri", ",", "21", "Nov", "1997", "09", ":", "55", ":", "06", "-0600"}, "cccCCCccccCc", "1997-11-21 09:55:06 -360"},
		{"Date", {"1", "Jan", "2024", "23", ":", "59", "GMT"}, "cCCCccCc", "2024-01-01 23:59:00 0"},
		{"Message-Id", {"<a(b.c@d>"}, "cc", "<a(b.c@d>"},
		{"Message-Id", {"<a.b@[1.2.3.4]>"}, "cc", "<a.b@[1.2.3.4]>"},
		{"Content-Id", {"<x@y>"}, "cc", "<x@y>"},
		{"References", {"<a@b>", "<c@d>"}, "cCc", "<a@b> <c@d>"},
		{"In-Reply-To", {"<a@b>", "<c@d>", "<e@f>"}, "cCCc", "<a@b> <c@d> <e@f>"},
		{"Return-Path", {"<a@b.c>"}, "cc", "<a@b.c>"},
	};
	const std::vector <S> fill = {" ", "\r\n ", "\t", "(c)", "(a=b; <x@y>, \"z/text\\)(n; 12:00) Mon) ", " (c)", "\r\n (1 Feb 2003;q=\"r)\r\n\t", "()(\\\\)"};
	for (size_t n = 0 ; n < forms.size() ; ++n) {
		const Form& F = forms[n]; const size_t G = F.gaps.size(); CHECK(G == F.tok.size() + 1, "machinery: gaps");
		auto one = [&](const std::vector <size_t>& at, const std::vector <size_t>& what) {
			S s; for (size_t g = 0 ; g < G ; ++g) { S x; for (size_t k = 0 ; k < at.size() ; ++k) if (at[k] == g) x += fill[what[k]]; if (x.empty() && F.gaps[g] == 'C') x = " "; s += x; if (g + 1 < G) s += F.tok[g]; }
			R.transition(); R.outcome(F.want); auto f = headerFieldFactory::getInstance()->create(F.name); f->parse(s); R.equal(readField(*f), F.want, F.name + ": " + R.show(s));
			const S big = "x; y=z, (" + s + ") ; w=v"; f->parse(big, 9, 9 + s.size()); R.equal(readField(*f), F.want, "part of a buffer, " + F.name + ": " + R.show(s));
			const bool b64 = F.want == "base64", qp = F.want == "quoted-printable";
			message m; m.parse(F.name + ": " + s + "\r\nX-Y: z\r\n\r\n" + (b64 ? "YmNk" : "b=63d")); CHECK(m.getHeader()->getFieldCount() == 2, "number of fields, " + R.show(s)); R.equal(readField(*m.getHeader()->getFieldAt(0)), F.want, "in a message, " + F.name + ": " + R.show(s));
			if (b64 || qp) { S o; utility::outputStreamStringAdapter os(o); m.getBody()->getContents()->extract(os); R.equal(o, S("bcd"), "decoded body, " + R.show(s)); }
		};
		R.test("plain|" + str(n), [&] { one({}, {}); });
		for (size_t k = 1 ; k <= (T ? 3u : 2u) ; ++k) mc::tuples(G, k, [&](const std::vector <size_t>& at) { if (at.size() != k) return; for (size_t i = 0 ; i + 1 < k ; ++i) if (at[i] > at[i + 1]) return; if (k == 3 && (at[0] == at[1] || at[1] == at[2])) return;
			R.testL([&] { return "fields|" + str(n) + "|" + mc::show(at); }, [&] { mc::tuples(fill.size(), k, [&](const std::vector <size_t>& what) { if (what.size() == k) one(at, what); }); }); });
	}
	// comments which do not end, and very long ones: read in a time that does not grow with the square of the length
	for (auto& name : {"Content-Type", "Content-Disposition", "Content-Transfer-Encoding", "Date", "Message-Id", "References", "Return-Path"}) for (auto& unit : {"(", "( ", "a( ", "a;b(=c", "(;", "(=", "()", "(a) ", "\\(", "<(", "(<a@b>"}) R.testL([&] { return S("long|") + name + "|" + unit; }, [&] {
		for (int close = 0 ; close < 2 ; ++close) { const size_t n = T ? 400000 : 100000; S s = "x "; for (size_t i = 0 ; i < n ; ++i) s += unit; if (close) s += S(n, ')'); auto f = headerFieldFactory::getInstance()->create(name); f->parse(s); R.transition(); R.outcome(S(name) + unit); }
	});
}
