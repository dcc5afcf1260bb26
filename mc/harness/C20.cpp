// C20: content handlers agree on their data, whatever holds it and whatever is done with it.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/fileContentHandler.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include <unistd.h>
using namespace vmime;

static S viaEncoder(const S& d, const S& enc, bool decode, bool text = false) { auto e = makeEncoder(enc); e->getProperties()["text"] = text; S o; utility::outputStreamStringAdapter os(o); utility::inputStreamStringAdapter in(d); decode ? e->decode(in, os) : e->encode(in, os); return o; }
struct Kind { S name; Cuts cuts; };
struct FileGuard { S path; ~FileGuard() { if (!path.empty()) unlink(path.c_str()); } };
/** a handler holding the raw bytes */
static shared_ptr <contentHandler> make(const S& kind, const S& raw, const encoding& enc, FileGuard& g) {
	if (kind == "string") return make_shared <stringContentHandler>(raw, enc);
	if (kind == "setData") { auto h = make_shared <stringContentHandler>("old", encoding("base64")); h->setData(raw, enc); return h; }
	if (kind == "copy") { stringContentHandler h(raw, enc); return make_shared <stringContentHandler>(h); }
	if (kind == "assigned") { stringContentHandler h(raw, enc); auto k = make_shared <stringContentHandler>("old", encoding("base64")); *k = h; return k; }
	if (kind == "stream") return make_shared <streamContentHandler>(make_shared <ChunkIn>(raw), raw.size(), enc);
	if (kind == "stream1") return make_shared <streamContentHandler>(make_shared <ChunkIn>(raw, Cuts(raw.size(), 1)), raw.size(), enc);
	if (kind == "stream23late") return make_shared <streamContentHandler>(make_shared <ChunkIn>(raw, Cuts{2, 3}, true), raw.size(), enc);
	if (kind == "streamcopy") { streamContentHandler h(make_shared <ChunkIn>(raw), raw.size(), enc); auto k = make_shared <streamContentHandler>(make_shared <ChunkIn>("old"), 3, encoding("base64")); *k = h; return k; }
	if (kind == "seeked") { auto c = make_shared <ChunkIn>(raw); c->seek(raw.size() / 2); return make_shared <streamContentHandler>(c, raw.size(), enc); }
	if (kind == "region") { auto c = make_shared <ChunkIn>("before=" + raw + "QUJD=after"); return make_shared <streamContentHandler>(make_shared <utility::seekableInputStreamRegionAdapter>(c, 7, raw.size()), raw.size(), enc); }
	if (kind == "string adapter") { auto s = make_shared <utility::inputStreamStringAdapter>("xx" + raw + "yy", 2, 2 + raw.size()); return make_shared <streamContentHandler>(s, raw.size(), enc); }
	if (kind == "file" || kind == "filecopy") { static int n; g.path = "/tmp/mc-c20-" + str(getpid()) + "-" + str(n++); FILE* f = fopen(g.path.c_str(), "wb"); CHECK(f, "scratch file"); fwrite(raw.data(), 1, raw.size(), f); fclose(f); auto fs = platform::getHandler()->getFileSystemFactory(); auto h = make_shared <fileContentHandler>(fs->create(fs->stringToPath(g.path)), enc); if (kind == "file") return h; h->setContentTypeHint(mediaType("a", "b")); auto k = dynamicCast <fileContentHandler>(h->clone()); CHECK(k->getContentTypeHint() == mediaType("a", "b"), "content type hint of the copy"); return k; }
	throw mc::Violated("kind");
}
static S ext(const contentHandler& h, bool raw) { CollectOut o; raw ? h.extractRaw(o) : h.extract(o); return o.data; }
struct Progress : utility::progressListener { size_t started = 0, stopped = 0, last = 0, total = 0; void start(const size_t t) { ++started; total = t; } void progress(const size_t c, const size_t t) { last = c; total = t; } void stop(const size_t t) { ++stopped; total = t; } };

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C20";
	R.rule = "all contents of up to 3 (thorough 5) critical pieces x 6 source encodings (none, 7bit, 8bit, base64, quoted-printable, uuencode) x 12 ways to hold the bytes (strings, streams with several read partitions, regions of larger streams, files, copies) x every sequence of 2 (thorough 3) uses (extract, raw extract, generate in 6 encodings, clone) on the same object x content type hint; bodies holding encoded contents generated in every other encoding, parsed from strings and streams, re-encoded again; parts sharing one stream read in every order";
	R.assumptions = {"the source data is valid in its encoding", "streams are rewindable", "line breaks of text in quoted-printable are CRLF"};
	const std::vector <S> encs = {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"};
	const std::vector <S> kinds = {"string", "setData", "copy", "assigned", "stream", "stream1", "stream23late", "streamcopy", "seeked", "region", "string adapter", "file", "filecopy"};
	std::vector <S> contents; mc::strings({"a", "\r\n", " ", "\xe9", "=", "."}, 0, R.thorough ? 5 : 3, [&](const S& s) { contents.push_back(s); });
	for (S s : {S("\0\xff", 2), S("\n"), S("a\nb"), S("\ra"), S(200, 'x') + "\r\n" + S(57, '\xff'), S("begin 644 x\r\nend\r\n"), S(5000, 'y'), S("From x\r\n.\r\n..\r\n")}) contents.push_back(s);
	for (auto& d : contents) for (int se = -1 ; se < int(encs.size()) ; ++se) if (se < 0 || encs[se] != "binary") R.testL([&] { return "handler|" + (se < 0 ? S("none") : encs[se]) + "|" + esc(d, 90); }, [&] {
		const encoding enc = se < 0 ? encoding("binary") : encoding(encs[se]); const S raw = se < 0 ? d : viaEncoder(d, encs[se], false);
		const bool canonical = d.find("\n") == S::npos && d.find("\r") == S::npos;
		std::map <S, S> first;   // what generate gives must not depend on the kind
		for (auto& k : kinds) {
			FileGuard g; auto h = make(k, raw, enc, g);
			auto ctx = [&](const S& w) { return k + ": " + w; };
			CHECK(h->isEncoded() == (se >= 0), ctx("isEncoded")); CHECK(h->getEncoding() == enc, ctx("getEncoding")); R.equal(h->getLength(), raw.size(), ctx("getLength")); CHECK(h->isEmpty() == raw.empty(), ctx("isEmpty"));
			const int nops = 4 + 2 * int(encs.size());   // extract, raw, clone, extract with listener, generate
			auto use = [&](shared_ptr <contentHandler>& x, int op) {
				if (op == 0) R.equal(ext(*x, false), d, ctx("extract")); else if (op == 1) R.equal(ext(*x, true), raw, ctx("extractRaw")); else if (op == 2) x = x->clone(); else if (op == 3) { Progress p; CollectOut o; x->extract(o, &p); R.equal(o.data, d, ctx("extract with listener")); Progress q; CollectOut o2; x->extractRaw(o2, &q); R.equal(o2.data, raw, ctx("extractRaw with listener")); }
				else { const size_t te = (op - 4) / 2; const bool text = op % 2; x->setContentTypeHint(text ? mediaType("text", "plain") : mediaType("a", "b")); CollectOut o; x->generate(o, encoding(encs[te]), 76); if (encoding(encs[te]) == enc) R.equal(o.data, raw, ctx("generate in the same encoding")); else { R.equal(viaEncoder(o.data, encs[te], true), d, ctx("decoded output in " + encs[te])); } const S key = str(op); if (!first.count(key)) first[key] = o.data; R.equal(o.data, first[key], ctx("output in " + encs[te] + " as from a string")); }
			};
			const bool deep = d.size() < 4 && (k == "stream" || k == "region" || k == "file" || R.thorough);
			if (d.size() > 100 || !deep || (canonical && d.size() > 3)) { for (int a = 0 ; a < nops ; ++a) use(h, a); for (int a = nops - 1 ; a >= 0 ; --a) use(h, a); R.transition(2 * nops); }
			else for (int a = 0 ; a < nops ; ++a) for (int b = 0 ; b < nops ; ++b) { auto x = h->clone(); use(x, a); use(x, b); if (R.thorough && d.size() < 6) for (int c = 0 ; c < 4 ; ++c) use(x, c); R.transition(2); }
			use(h, 0); use(h, 1);
		}
		R.outcome(raw + "|" + first["4"] + "|" + first["10"] + "|" + first["11"]);
	});
	// bodies: contents held in one encoding, sent in another, read back, sent again in a third one
	for (auto& d : contents) if (d.size() <= (R.thorough ? 8 : 5) || d.size() > 10) for (int se = -1 ; se < int(encs.size()) ; ++se) if (se < 0 || encs[se] != "binary") R.testL([&] { return "body|" + (se < 0 ? S("none") : encs[se]) + "|" + esc(d, 90); }, [&] {
		const encoding enc = se < 0 ? encoding("binary") : encoding(encs[se]); const S raw = se < 0 ? d : viaEncoder(d, encs[se], false);
		for (size_t te = 0 ; te < encs.size() ; ++te) for (int how = 0 ; how < 3 ; ++how) for (const mediaType& mt : {mediaType("text", "plain"), mediaType("a", "b")}) {
			FileGuard g; auto m = make_shared <message>(); m->getBody()->setContents(make(how == 0 ? "string" : how == 1 ? "stream23late" : "region", raw, enc, g), mt, charset("utf-8"), encoding(encs[te])); const S t1 = m->generate(); R.equal(m->generate(), t1, "generated twice"); R.equal(ext(*m->getBody()->getContents(), false), d, "contents after generating");
			auto n = make_shared <message>(); if (how) { auto in = make_shared <ChunkIn>(t1, Cuts{5, 7}); n->parse(shared_ptr <utility::inputStream>(in), t1.size()); } else n->parse(t1);
			CHECK(n->getBody()->getContents()->getEncoding() == encoding(encs[te]) && n->getBody()->getEncoding() == encoding(encs[te]) || t1.find("\r\n\r\n") + 4 == t1.size(), "encoding of the parsed body");
			R.equal(ext(*n->getBody()->getContents(), false), d, "parsed contents"); R.equal(n->generate(), t1, "generated again");
			for (size_t e3 = 0 ; e3 < encs.size() ; ++e3) if (R.thorough || how == int(e3 + te) % 3) { auto q = vmime::clone(n); q->getBody()->setEncoding(encoding(encs[e3])); const S t2 = q->generate(); message r; r.parse(t2); R.equal(ext(*r.getBody()->getContents(), false), d, "contents re-encoded from " + encs[te] + " to " + encs[e3]); R.equal(ext(*q->getBody()->getContents(), false), d, "contents after changing the encoding"); R.transition(); }
			// re-encoding as the library decides
			const encoding dec = encoding::decide(n->getBody()->getContents(), charset("utf-8"), encoding::USAGE_TEXT); n->getBody()->setEncoding(dec); message r; r.parse(n->generate()); R.equal(ext(*r.getBody()->getContents(), false), d, "contents re-encoded as decided");
		}
	});
	// parts of one stream, read in every order
	const S msg = "Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJj\r\n--b\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=C3=A9\r\n--b\r\n\r\nplain\r\n--b--\r\n"; const S want[] = {"abc", "\xc3\xa9", "plain"}, wraw[] = {"YWJj", "=C3=A9", "plain"};
	for (int cut = 0 ; cut < 3 ; ++cut) mc::tuples(9, 3, [&](const std::vector <size_t>& ix) { R.testL([&] { return "shared|" + str(cut) + "|" + mc::show(ix); }, [&] {
		auto in = make_shared <ChunkIn>(msg, cut == 0 ? Cuts() : cut == 1 ? Cuts(msg.size(), 1) : Cuts{30, 60}, cut == 2); message m; m.parse(shared_ptr <utility::inputStream>(in), msg.size()); CHECK(m.getBody()->getPartCount() == 3, "parts");
		for (size_t i : ix) { const size_t p = i % 3; auto c = m.getBody()->getPartAt(p)->getBody()->getContents(); if (i < 3) R.equal(ext(*c, false), want[p], "extract"); else if (i < 6) R.equal(ext(*c, true), wraw[p], "extractRaw"); else { CollectOut o; c->clone()->generate(o, encoding("base64"), 76); R.equal(viaEncoder(o.data, "base64", true), want[p], "generate"); } CHECK(c->getLength() == wraw[p].size(), "length"); R.transition(); } }); });
	// emptiness
	R.test("empty", [&] { emptyContentHandler e; R.equal(ext(e, false) + ext(e, true), S(), "data"); CHECK(e.isEmpty() && e.getLength() == 0 && e.isBuffered(), "empty"); CollectOut o; e.clone()->generate(o, encoding("base64"), 76); R.equal(o.data, S(), "generated"); stringContentHandler s; CHECK(s.isEmpty() && ext(s, false).empty(), "default string handler"); streamContentHandler t; CHECK(t.isEmpty() && ext(t, false).empty() && ext(t, true).empty(), "default stream handler"); body b; CHECK(b.getContents()->isEmpty(), "default body"); stringContentHandler a("x", encoding("base64")); a = S("plain"); CHECK(!a.isEncoded() && ext(a, false) == "plain", "assigned string"); });
}
