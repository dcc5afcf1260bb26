// C09: field parameters survive generation and parsing.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "rfc2047.hpp"
using namespace vmime;
typedef generationContext GC;

static S conv(const S& s, const S& a, const S& b) {
	if (a == b) return s;
	S o; charsetConverterOptions op; op.silentlyReplaceInvalidSequences = false;
	charset::convert(s, o, charset(a), charset(b), op); return o;
}
static S u8(const word& w) { return conv(w.getBuffer(), w.getCharset().getName() == "us-ascii" ? "utf-8" : w.getCharset().getName(), "utf-8"); }

struct P { S name, value, cs; };   // value in UTF-8
struct Mode { GC::EncodedParameterValueModes m; size_t max; const char* field; bool eai; };
static const char* modeName(GC::EncodedParameterValueModes m) { return m == GC::PARAMETER_VALUE_NO_ENCODING ? "none" : m == GC::PARAMETER_VALUE_RFC2047_ONLY ? "2047" : m == GC::PARAMETER_VALUE_RFC2231_ONLY ? "2231" : "both"; }

/** Independent reader of RFC 2231/2045 parameters: name -> (value in UTF-8) */
static std::map <S, S> readParams(const S& f, S& bad) {
	struct Sec { bool enc; S data; };
	std::map <S, std::map <int, Sec> > ext; std::map <S, S> plain;
	size_t i = f.find(';');
	while (i != S::npos && i < f.size()) {
		++i; while (i < f.size() && strchr(" \t\r\n", f[i])) ++i;
		const size_t n0 = i; while (i < f.size() && f[i] != '=' && f[i] != ';') ++i;
		if (i >= f.size() || f[i] == ';') { bad = "parameter without value"; return {}; }
		S nm = f.substr(n0, i - n0), v; ++i; bool q = false;
		if (i < f.size() && f[i] == '"') {
			q = true;
			for (++i ; i < f.size() && f[i] != '"' ; ++i) {
				if (f[i] == '\\' && i + 1 < f.size()) v += f[++i];
				else if (f[i] == '\r' || f[i] == '\n') { if (f[i] == '\n') if (i + 1 >= f.size() || (f[i + 1] != ' ' && f[i + 1] != '\t')) bad = "line break in a quoted string"; }
				else v += f[i];
			}
			if (i >= f.size()) { bad = "unterminated quoted string"; return {}; }
			++i;
		} else while (i < f.size() && f[i] != ';') { if (strchr("\"\r\n()<>@,:/[]\\?=", f[i]) && !(nm.size() && nm[nm.size() - 1] == '*' && f[i] == '\\')) if (nm.empty() || nm[nm.size() - 1] != '*') if (f[i] != '\r' && f[i] != '\n') bad = S("unquoted special ") + f[i]; v += f[i++]; }
		while (i < f.size() && f[i] != ';') { if (!strchr(" \t\r\n", f[i])) bad = "text after a parameter"; ++i; }
		bool enc = false; int sec = 0; bool x = false;
		if (nm.size() && nm[nm.size() - 1] == '*') { enc = x = true; nm.erase(nm.size() - 1); if (q) bad = "extended value in a quoted string"; }
		const size_t st = nm.find('*'); if (st != S::npos) { x = true; sec = atoi(nm.c_str() + st + 1); nm.erase(st); }
		if (x) ext[nm][sec] = {enc, v}; else { if (plain.count(nm)) bad = "parameter given twice"; plain[nm] = v; }
		i = (i < f.size()) ? i : S::npos;
	}
	std::map <S, S> r;
	for (auto& kv : plain) {
		if (kv.second.find("=?") == S::npos) { r[kv.first] = kv.second; continue; }
		S all; for (auto& pt : rfc2047::decode(kv.second).parts) all += pt.encoded ? conv(pt.data, pt.charset, "utf-8") : pt.data;
		r[kv.first] = all;
	}
	for (auto& kv : ext) {
		S cs = "us-ascii", out; int want = 0;
		for (auto& s : kv.second) {
			if (s.first != want++) bad = "section missing";
			S d = s.second.data; if (!s.second.enc) { out += d; continue; }
			if (s.first == 0) { const size_t a = d.find('\''), b = a == S::npos ? a : d.find('\'', a + 1); if (b == S::npos) { bad = "no charset"; return {}; } cs = d.substr(0, a); d = d.substr(b + 1); }
			for (size_t k = 0 ; k < d.size() ; ++k) if (d[k] == '%') { if (k + 2 >= d.size() || !isxdigit((unsigned char) d[k + 1]) || !isxdigit((unsigned char) d[k + 2])) { bad = "bad % escape"; return {}; } out += char(strtol(d.substr(k + 1, 2).c_str(), nullptr, 16)); k += 2; }
				else { if ((unsigned char) d[k] <= 32 || (unsigned char) d[k] >= 127) bad = "raw character in extended value"; out += d[k]; }
		}
		r[kv.first] = conv(out, cs == "us-ascii" ? "utf-8" : cs, "utf-8");
	}
	return r;
}

static shared_ptr <parameterizedHeaderField> mkField(const char* field) {
	auto f = dynamicCast <parameterizedHeaderField>(headerFieldFactory::getInstance()->create(field));
	if (S(field) == "Content-Type") f->setValue(mediaType("text", "x-y")); else f->setValue(contentDisposition("attachment"));
	return f;
}
static void check(mc::Run& R, const std::vector <P>& ps, const Mode& m) {
	auto f = mkField(m.field);
	for (auto& p : ps) { S d; try { d = conv(p.value, "utf-8", p.cs); } catch (std::exception&) { return; } f->appendParameter(make_shared <parameter>(p.name, word(d, charset(p.cs)))); }
	GC ctx(GC::getDefaultContext()); ctx.setEncodedParameterValueMode(m.m); ctx.setMaxLineLength(m.max); ctx.setInternationalizedEmailSupport(m.eai);
	S g; utility::outputStreamStringAdapter os(g); f->generate(ctx, os);
	const S what = S("; mode ") + modeName(m.m) + " max " + str(m.max) + (m.eai ? " EAI" : "") + ", generated " + R.show(g);
	R.outcome(g); R.transition();
	CHECK(f->getGeneratedSize(ctx) >= g.size(), "generated " + str(g.size()) + " bytes, announced " + str(f->getGeneratedSize(ctx)) + what);
	parsingContext pc; pc.setInternationalizedEmailSupport(m.eai);
	auto h = make_shared <header>(); h->parse(pc, g + "\r\nX-Next: z\r\n\r\n");
	CHECK(h->getFieldCount() == 2, str(h->getFieldCount()) + " fields read back" + what);
	auto f2 = dynamicCast <parameterizedHeaderField>(h->getFieldAt(0)); CHECK(f2, "not a parameterized field" + what);
	R.equal(f2->getValue()->generate(), f->getValue()->generate(), "main value" + what);
	R.equal(f2->getParameterCount(), ps.size(), "number of parameters" + what);
	for (auto& p : ps) {
		auto q = f2->findParameter(p.name); CHECK(q, "parameter " + p.name + " lost" + what);
		R.equal(u8(q->getValue()), p.value, "value of " + p.name + what);
	}
	S bad; auto r = readParams(g, bad);
	CHECK(bad.empty(), "independent reader: " + bad + what);
	for (auto& p : ps) R.equal(r[p.name], p.value, "value of " + p.name + " (independent reader)" + what);
	// a second round gives the same field again
	S g2; utility::outputStreamStringAdapter os2(g2); f2->generate(ctx, os2);
	auto f3 = mkField(m.field); f3->parse(pc, g2.substr(g2.find(':') + 1));
	for (auto& p : ps) { auto q = f3->findParameter(p.name); CHECK(q, "parameter lost in second round" + what); R.equal(u8(q->getValue()), p.value, "second round" + what); }
}
static bool asciiPrint(const S& s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return s.find("=?") == S::npos; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C09";
	R.rule = "every parameter value up to the stated length over specials, quotes, controls, non-ASCII and '=?' fragments in several charsets, every length of long values, pairs of parameters, "
		"all encoding modes and several line lengths, on Content-Type and Content-Disposition; read back by the library and by an independent RFC 2231 reader; every section split and order written by hand";
	R.assumptions = {"without encoding: printable ASCII values which fit on the line", "the language of a value is not generated (pinned by an existing test)"};
	const bool T = R.thorough;
	const S E = "\xc3\xa9", J = "\xe6\x97\xa5";
	const std::vector <Mode> modes = {
		{GC::PARAMETER_VALUE_RFC2231_ONLY, 78, "Content-Disposition", false}, {GC::PARAMETER_VALUE_RFC2231_ONLY, 30, "Content-Type", false}, {GC::PARAMETER_VALUE_RFC2231_ONLY, lineLengthLimits::infinite, "Content-Type", false},
		{GC::PARAMETER_VALUE_RFC2231_AND_RFC2047, 78, "Content-Type", false}, {GC::PARAMETER_VALUE_RFC2231_AND_RFC2047, 40, "Content-Disposition", false},
		{GC::PARAMETER_VALUE_RFC2047_ONLY, 78, "Content-Disposition", false}, {GC::PARAMETER_VALUE_RFC2047_ONLY, 30, "Content-Type", false},
		{GC::PARAMETER_VALUE_RFC2231_ONLY, 78, "Content-Type", true},
		{GC::PARAMETER_VALUE_NO_ENCODING, 998, "Content-Disposition", false}, {GC::PARAMETER_VALUE_NO_ENCODING, 78, "Content-Type", false}};
	auto each = [&](const std::vector <P>& ps) {
		for (auto& m : modes) {
			if (m.m == GC::PARAMETER_VALUE_NO_ENCODING) { bool ok = true; for (auto& p : ps) if (!asciiPrint(p.value) || p.name.size() + p.value.size() + 30 > m.max) ok = false; if (!ok) continue; }
			check(R, ps, m);
		}
	};
	const std::vector <S> A = {"a", " ", "\"", "\\", ";", "=", "?", "'", "*", "%", E, J, "\t", "\r", "\n", "/", "(", ",", "=?"};
	for (auto cs : {"utf-8", "iso-8859-1", "us-ascii", "iso-2022-jp"}) mc::strings(A, 0, S(cs) == "utf-8" ? (T ? 4 : 3) : 2, [&](const S& s) {
		if (S(cs) == "us-ascii") { bool ok = true; for (unsigned char c : s) if (c > 127) ok = false; if (!ok) return; }
		R.testL([&] { return S("value ") + cs + "|" + esc(s); }, [&] { each({{"name", s, cs}}); });
	});
	mc::strings({"ab", " ", E, "=?x?q?y?=", "\"", "''", "%41", "?="}, 1, T ? 5 : 4, [&](const S& s) { R.testL([&] { return "mix|" + esc(s); }, [&] { each({{"filename", s, "utf-8"}}); }); });
	for (int c = 0 ; c < 256 ; ++c) R.testL([&] { return "byte|" + str(c); }, [&] {
		const S v = c < 128 ? S(1, char(c)) : conv(S(1, char(c)), "iso-8859-1", "utf-8");
		each({{"n", v, c < 128 ? "us-ascii" : "iso-8859-1"}}); each({{"n", "x" + v + "y", "utf-8"}});
		if (c < 128) each({{"n", S(90, 'x') + v + "y", "us-ascii"}});
	});
	// two and three parameters
	const std::vector <S> V = {"a", "", "b c", "x;y=z", "q\"r", E, S(70, 'l'), S(40, 'l') + " " + E + S(40, 'm'), "=?"};
	mc::tuples(V.size(), 2, [&](const std::vector <size_t>& ix) { R.testL([&] { return "two|" + str(ix[0]) + "," + str(ix[1]); }, [&] { each({{"name", V[ix[0]], "utf-8"}, {"charset2", V[ix[1]], "utf-8"}}); each({{"b", V[ix[0]], "utf-8"}, {"a", V[ix[1]], "utf-8"}, {"x-long-parameter-name", "v", "us-ascii"}}); }); });
	// lengths
	for (auto& u : std::vector <S>{"a", E, "a ", "ab" + E, "\"", "\\", "; ", " ", J, "%"}) for (size_t n = 1 ; n <= (T ? 260u : 140u) ; n += (n < 90 || T ? 1 : 9)) for (size_t nl : {1, 4, 12}) {
		if (nl == 12 && !T && n % 3) continue;
		R.testL([&] { return "long|" + esc(u) + "*" + str(n) + "," + str(nl); }, [&] { S v; for (size_t i = 0 ; i < n ; ++i) v += u; each({{S(nl, 'n'), v, "utf-8"}}); });
	}
	// values written by another program: every split in sections, plain or encoded, in every order
	const S val = "a " + E + "%;\"b'";
	mc::compositions(val.size(), [&](const Cuts& cut) {
		if (cut.size() > (T ? 5u : 4u)) return;
		for (unsigned mask = 0 ; mask < (1u << cut.size()) ; ++mask) R.testL([&] { S s = "sections|"; for (size_t k : cut) s += str(k) + ","; return s + str(mask); }, [&] {
			std::vector <S> secs; size_t p = 0;
			for (size_t k = 0 ; k < cut.size() ; ++k) {
				const S d = val.substr(p, cut[k]); p += cut[k]; S t;
				bool enc = (mask >> k) & 1; for (unsigned char c : d) if (c > 127) enc = true;
				if (mask && k == 0) enc = true;   // the charset is given by the first section
				bool anyHigh = true; if (anyHigh && k == 0) enc = true;
				if (enc) { t = "t*" + (cut.size() > 1 ? str(k) + "*" : S()) + "="; if (k == 0) t += "utf-8'en'"; for (unsigned char c : d) { char b[8]; if (isalnum(c) && !((mask >> k) & 1)) t += c; else { snprintf(b, 8, (mask & 2) ? "%%%02x" : "%%%02X", c); t += b; } } }
				else { t = "t*" + str(k) + "=\""; for (char c : d) { if (c == '"' || c == '\\') t += '\\'; t += c; } t += "\""; }
				secs.push_back(t);
			}
			std::vector <size_t> perm(secs.size()); for (size_t i = 0 ; i < perm.size() ; ++i) perm[i] = i;
			do {
				for (int v = 0 ; v < 3 ; ++v) {
					S f = "Content-Type: text/x-y"; const char* sep = v == 0 ? ";" : v == 1 ? "; " : ";\r\n ";
					if (v == 1) f += S(sep) + "t=\"fallback; value\"";
					for (size_t i : perm) f += sep + secs[i];
					if (v == 2) f += S(sep) + "t=fallback";
					header h; h.parse(f + "\r\nX: y\r\n\r\n");
					auto ct = dynamicCast <parameterizedHeaderField>(h.getFieldAt(0));
					auto q = ct->findParameter("t"); CHECK(q, "parameter lost in " + f);
					R.outcome(f); R.equal(u8(q->getValue()), val, "value read from " + f); R.equal(ct->getValue()->generate(), S("text/x-y"), "main value");
				}
			} while (std::next_permutation(perm.begin(), perm.end()));
		});
	});
	// fields written by other programs: every list of up to two (thorough: three) parameters of all forms, with all separators
	struct Form { S text, name, value; };
	const std::vector <Form> forms = { {"a=v", "a", "v"}, {"Aa=x=y", "aa", "x=y"}, {"boundary=----=_Part_1.2", "boundary", "----=_Part_1.2"}, {"b=\"\"", "b", ""}, {"c=\"q\\\"x\\\\\"", "c", "q\"x\\"}, {"d=\"a;b=c, (e)\"", "d", "a;b=c, (e)"}, {"e=\"two  words\"", "e", "two  words"}, {"f*=utf-8''%C3%a9%c3%A9x", "f", E + E + "x"}, {"g*=iso-8859-1'en'%e9%E9", "g", E + E}, {"h*0=x; h*1=y", "h", "xy"}, {"i*1*=%41; i*0*=us-ascii''b", "i", "bA"}, {"j*0*=utf-8''%e6%97; j*1*=%A5; j*2=\"; z\"", "j", J + "; z"}, {"k*0=\"a \"; k*1=\" b\"", "k", "a  b"}, {"l=a@b.c/d:e", "l", "a@b.c/d:e"}, {"m=\"it's 100%41\"", "m", "it's 100%41"}, {"n=it's*100%41", "n", "it's*100%41"}, {"o*=''plain", "o", "plain"}, {"p=\"\\a\\b\"", "p", "ab"}, {"q=\"=?utf-8?Q?=C3=A9?=\"", "q", E}, {"r*=utf-8''a'b'", "r", "a'b'"} };
	const std::vector <S> seps = {";", "; ", " ; ", ";\r\n ", " ;\t", ";\r\n\t "}, eqs = {"=", " =", "= ", " = "};
	for (size_t a = 0 ; a < forms.size() ; ++a) for (size_t b = 0 ; b <= forms.size() ; ++b) for (size_t c = T ? 0 : forms.size() ; c <= forms.size() ; ++c) { if (a == b || b == c || a == c) { if (!(b == forms.size() && c == b)) continue; } if (b == forms.size() && c != b) continue;
		R.testL([&] { return "foreign|" + str(a) + "," + str(b) + "," + str(c); }, [&] {
			for (size_t sp = 0 ; sp < seps.size() ; ++sp) for (size_t eq = 0 ; eq < (sp < 2 ? eqs.size() : 1) ; ++eq) for (int tail = 0 ; tail < 3 ; ++tail) for (auto& fn : {"Content-Type", "Content-Disposition"}) {
				const S main = S(fn) == "Content-Type" ? "text/x-y" : "attachment"; S f = S(fn) + ": " + main; std::vector <const Form*> used;
				for (size_t k : {a, b, c}) if (k < forms.size()) { S t = forms[k].text; if (eq && forms[k].text.find("; ") == S::npos) { const size_t q = t.find('='); t = t.substr(0, q) + eqs[eq] + t.substr(q + 1); } f += seps[sp] + t; used.push_back(&forms[k]); }
				f += tail == 0 ? "" : tail == 1 ? ";" : " \t";
				header h; h.parse(f + "\r\nX: y\r\n\r\n"); CHECK(h.getFieldCount() == 2, "fields in " + f); auto q = dynamicCast <parameterizedHeaderField>(h.getFieldAt(0)); R.outcome(f); R.transition();
				R.equal(q->getValue()->generate(), main, "main value of " + f); R.equal(q->getParameterCount(), used.size(), "number of parameters of " + f);
				for (auto* u : used) { S up = u->name; for (auto& x : up) x = char(toupper(x)); CHECK(q->hasParameter(u->name) && q->findParameter(up) && q->findParameter(u->name) == q->getParameter(up), "parameter " + u->name + " lost in " + f); R.equal(u8(q->findParameter(u->name)->getValue()), u->value, "value of " + u->name + " in " + f); }
				CHECK(!q->hasParameter("zz") && !q->findParameter("zz"), "a parameter which is not there");
			}
		});
	}
	// every byte as %XX in every case of its digits
	for (int c = 0 ; c < 256 ; ++c) R.testL([&] { return "percent|" + str(c); }, [&] { for (int m = 0 ; m < 4 ; ++m) for (int sec = 0 ; sec < 2 ; ++sec) { char b[8]; snprintf(b, 8, "%02x", c); for (int k = 0 ; k < 2 ; ++k) if (m >> k & 1) b[k] = char(toupper(b[k])); auto fl = mkField("Content-Disposition"); fl->parse(S("attachment; t*") + (sec ? "0*" : "") + "=iso-8859-1''x%" + b + "y" + (sec ? S("; t*1*=%") + b : S())); R.equal(fl->findParameter("t")->getValue().getBuffer(), "x" + S(1, char(c)) + "y" + (sec ? S(1, char(c)) : S()), S("escape ") + b); R.equal(fl->findParameter("t")->getValue().getCharset().getName(), S("iso-8859-1"), "charset"); } });
	// eleven and more sections
	for (size_t n = 9 ; n <= 25 ; ++n) R.testL([&] { return "many|" + str(n); }, [&] {
		for (int rev = 0 ; rev < 2 ; ++rev) { S f = "attachment", want; for (size_t k = 0 ; k < n ; ++k) want += char('a' + k); for (size_t i = 0 ; i < n ; ++i) { const size_t k = rev ? n - 1 - i : i; f += "; t*" + str(k) + "=" + char('a' + k); } auto fl = mkField("Content-Disposition"); fl->parse(f); R.equal(u8(fl->findParameter("t")->getValue()), want, f); }
	});
}
