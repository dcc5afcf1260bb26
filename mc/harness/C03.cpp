// C03: stream processing is independent of chunking; filters do what they document.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/parserInputStreamAdapter.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
using namespace vmime; using namespace vmime::utility;

// ---------------------------------------------------------------- reference semantics
static S refDotOut(const S& d) {             // SMTP dot stuffing; a lone '.' line at the very start is stuffed too
	S o;
	for (size_t i = 0 ; i < d.size() ; ++i) {
		if (d[i] == '.' && i && d[i - 1] == '\n') o += '.';
		if (d[i] == '.' && i == 0 && d.size() > 1 && (d[1] == '\r' || d[1] == '\n')) o += '.';
		o += d[i];
	}
	return o;
}
static S refDotIn(const S& d) {              // "\n.." -> "\n."
	S o;
	for (size_t i = 0 ; i < d.size() ; ++i) {
		const bool lineStart = i == 0 ? true : d[i - 1] == '\n';
		o += d[i];
		if (d[i] == '.' && lineStart && i + 1 < d.size() && d[i + 1] == '.') ++i;
	}
	return o;
}
static S refCRLF2LF(const S& d) {
	S o;
	for (size_t i = 0 ; i < d.size() ; ++i) {
		if (d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n') continue;
		o += d[i];
	}
	return o;
}
static S refLF2CRLF(const S& d) {
	S o;
	for (size_t i = 0 ; i < d.size() ; ++i) {
		if (d[i] == '\r') { o += "\r\n"; if (i + 1 < d.size() && d[i + 1] == '\n') ++i; }
		else if (d[i] == '\n') o += "\r\n";
		else o += d[i];
	}
	return o;
}
static S refStop(const S& d, const S& seq) { size_t p = d.find(seq); return p == S::npos ? d : d.substr(0, p); }

static S readAll(inputStream& is, size_t bufSize, mc::Run& R) {
	S o; size_t zero = 0;
	while (!is.eof()) {
		std::vector <byte_t> b(bufSize);     // exact size: overruns are seen by ASan
		const size_t n = is.read(b.data(), bufSize);
		CHECK(n <= bufSize, "read() returned more than asked for");
		if (n == 0) { if (++zero > 64) throw mc::Violated("no progress: read() returns 0 without eof()"); } else zero = 0;
		o.append((const char*) b.data(), n);
	}
	return o;
}

template <class F> static void outFilter(mc::Run& R, const S& nm, const std::vector <S>& alpha, size_t maxLen, S (*ref)(const S&)) {
	mc::strings(alpha, 0, maxLen, [&](const S& d) {
		R.testL([&] { return nm + "|" + d; }, [&] {
			const S want = ref(d); R.outcome(nm + want);
			mc::compositions(d.size(), [&](const Cuts& c) {
				CollectOut out; F f(out);
				writeChunks(f, d, c); f.flush();
				R.transition();
				R.equal(out.data, want, nm + " written as " + mc::show(c));
				f.flush(); R.equal(out.data, want, nm + " flushed twice, written as " + mc::show(c));
			});
			// a flush after each piece: nothing is lost or repeated (a CR already flushed stays)
			mc::compositions(d.size(), [&](const Cuts& c) {
				CollectOut out; F f(out); size_t at = 0; S got; R.transition();
				S w;
				if (nm == "crlf2lf") { size_t b = 0; for (size_t k : c) { w += ref(d.substr(b, k)); b += k; } } else w = want;
				for (size_t k : c) { f.write(d.data() + at, k); f.flush(); at += k; }
				R.equal(out.data, w, nm + " flushed after each piece of " + mc::show(c));
			});
			// empty writes in between change nothing
			CollectOut out; F f(out); byte_t z = 0;
			f.write(&z, 0); for (char ch : d) { f.write(&ch, 1); f.write(&z, 0); } f.flush();
			R.equal(out.data, want, nm + " with interspersed empty writes");
		});
	});
}

template <int N> static void stopTest(mc::Run& R, const S& seq, const S& alpha, size_t maxLen) {
	mc::strings(mc::chars(alpha), 0, maxLen, [&](const S& d) {
		R.testL([&] { return "stop " + seq + "|" + d; }, [&] {
			const S want = refStop(d, seq); R.outcome(want);
			auto one = [&](const Cuts& c, bool late, size_t bs) {
				ChunkIn in(d, c, late); stopSequenceFilteredInputStream <N> f(in, seq.data());
				R.transition();
				R.equal(readAll(f, bs, R), want, "stop sequence, source " + mc::show(c) + (late ? " late eof" : "") + " read size " + str(bs));
				CHECK(f.eof(), "eof() false at the end");
				{ ChunkIn in2(d, c, late); in2.idle = 1; stopSequenceFilteredInputStream <N> g(in2, seq.data()); R.equal(readAll(g, bs, R), want, "stop sequence with pauses, source " + mc::show(c)); }
				f.reset();
				R.equal(readAll(f, bs, R), want, "stop sequence after reset(), source " + mc::show(c) + (late ? " late eof" : "") + " read size " + str(bs));
			};
			for (bool late : {false, true}) {
				if (d.size() <= 7) mc::compositions(d.size(), [&](const Cuts& c) { one(c, late, N + 1); one(c, late, N + 2); one(c, late, 64); });
				else mc::cuts(d.size(), 2, [&](const Cuts& c) { one(c, late, N + 1); one(c, late, 64); });
			}
		});
	});
}

static void encChunks(mc::Run& R, const S& enc, bool text, long ml, const S& d, bool encode, size_t k) {
	auto mk = [&] { auto e = makeEncoder(enc); if (ml >= 0) e->getProperties()["maxlinelength"] = size_t(ml); if (text) e->getProperties()["text"] = true; return e; };
	inputStreamStringAdapter whole(d); CollectOut ref;
	{ auto e = mk(); if (encode) e->encode(whole, ref); else e->decode(whole, ref); }
	R.outcome(ref.data);
	auto one = [&](const Cuts& c) {
		for (bool late : {false, true}) {
			ChunkIn in(d, c, late); CollectOut out; auto e = mk();
			const size_t n = encode ? e->encode(in, out) : e->decode(in, out);
			R.transition();
			R.equal(out.data, ref.data, S(encode ? "encode" : "decode") + " reading " + mc::show(c) + (late ? " late eof" : ""));
			R.equal(n, out.data.size(), "returned count");
		}
	};
	if (k == 0) mc::compositions(d.size(), one); else mc::cuts(d.size(), k, one);
	if (k && d.size() < 400) for (size_t u = 1 ; u <= 5 ; ++u) one(Cuts(d.size() / u, u));
}

// ---- adapters against a model string, by operation sequences
struct Op { char kind; size_t arg; };
static std::vector <Op> adapterOps(size_t L, size_t huge) {
	return {{'r', 1}, {'r', 2}, {'r', L + 1}, {'s', 1}, {'s', L + 3}, {'s', huge}, {'k', 0}, {'k', 1}, {'k', L}, {'z', 0}};
}
static S opName(const Op& o) { return S(1, o.kind) + (o.arg == size_t(-1) ? S("max") : str(o.arg)); }

template <class MK> static void adapterModel(mc::Run& R, const S& nm, const S& content, size_t depth, MK mk) {
	const auto ops = adapterOps(content.size(), nm == "istreamAdapter" ? size_t(-1) / 2 : size_t(-1));
	for (size_t n = 1 ; n <= depth ; ++n) mc::tuples(ops.size(), n, [&](const std::vector <size_t>& ix) {
		R.testL([&] { S l = nm + "|"; for (size_t i : ix) l += opName(ops[i]) + ","; return l; }, [&] {
			auto is = mk(); size_t pos = 0; S hist;
			for (size_t i : ix) {
				const Op& o = ops[i]; hist += opName(o) + " "; R.transition();
				if (o.kind == 'r') {
					std::vector <byte_t> b(o.arg); const size_t got = is->read(b.data(), o.arg);
					const size_t want = std::min(o.arg, content.size() - pos);
					R.equal(got, want, hist + "read count");
					R.equal(S((char*) b.data(), got), content.substr(pos, want), hist + "data");
					pos += want;
					if (want < o.arg) CHECK(is->eof(), hist + "eof() false after a short read at the end");
				} else if (o.kind == 's') {
					const size_t want = std::min(o.arg, content.size() - pos);
					R.equal(is->skip(o.arg), want, hist + "skip count"); pos += want;
				} else if (o.kind == 'k') { is->seek(o.arg); pos = std::min(o.arg, content.size()); }
				else { is->reset(); pos = 0; }
				R.equal(is->getPosition(), pos, hist + "position");
				if (pos < content.size()) CHECK(!is->eof(), hist + "eof() true before the end");
			}
			S rest; byte_t b[3];
			for (int g = 0 ; g < 100 && !is->eof() ; ++g) { size_t k = is->read(b, 3); rest.append((char*) b, k); }
			R.equal(rest, content.substr(pos), hist + "rest of the stream");
			R.outcome(hist + rest);
		});
	});
}

struct IssHolder : public seekableInputStream {        // an adapter together with the std::istringstream it reads
	std::istringstream iss; inputStreamAdapter a;
	IssHolder(const S& d) : iss(d), a(iss) {}
	bool eof() const { return a.eof(); } void reset() { a.reset(); }
	size_t read(byte_t* const d, const size_t c) { return a.read(d, c); }
	size_t skip(const size_t c) { return a.skip(c); }
	size_t getPosition() const { return a.getPosition(); } void seek(const size_t p) { a.seek(p); }
};

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C03";
	R.rule = "every input up to the stated length over each component's special bytes, and every partition of it into reads or writes (all compositions; "
		"for inputs spanning internal buffers all one- and two-cut partitions around them), sources with prompt and late end-of-file; stream adapters: every sequence of operations up to the depth";
	R.assumptions = {"sources of encoders and decoders deliver at least one byte per read until the end; those of copies and filters may also pause (return nothing before the end)"};
	const bool T = R.thorough;
	// ---- filters
	outFilter <dotFilteredOutputStream>(R, "dotOut", mc::chars("a.\r\n"), T ? 8 : 6, refDotOut);
	outFilter <CRLFToLFFilteredOutputStream>(R, "crlf2lf", mc::chars("a\r\n"), T ? 9 : 7, refCRLF2LF);
	outFilter <LFToCRLFFilteredOutputStream>(R, "lf2crlf", mc::chars("a\r\n"), T ? 9 : 7, refLF2CRLF);
	mc::strings(mc::chars("a.\r\n"), 0, T ? 8 : 6, [&](const S& d) {
		R.testL([&] { return "dotIn|" + d; }, [&] {
			const S want = refDotIn(d); R.outcome(want);
			mc::compositions(d.size(), [&](const Cuts& c) {
				for (bool late : {false, true}) for (size_t bs : {size_t(1), size_t(2), size_t(64)}) {
					{ ChunkIn in2(d, c, late); in2.idle = 1; dotFilteredInputStream g(in2); R.equal(readAll(g, bs, R), want, "dot filter with pauses, source " + mc::show(c)); }
					ChunkIn in(d, c, late); dotFilteredInputStream f(in); R.transition();
					R.equal(readAll(f, bs, R), want, "dot filter, source " + mc::show(c) + " read size " + str(bs));
					f.reset(); byte_t b; for (size_t k = 0 ; k < bs && !f.eof() ; ++k) f.read(&b, 1);
					f.reset(); R.equal(readAll(f, bs, R), want, "dot filter after reset(), source " + mc::show(c) + " read size " + str(bs));
				}
			});
			// inverse of the output filter on lines
			if (d.empty() || d[0] != '.') {
				CollectOut o; dotFilteredOutputStream f(o); f.write(d.data(), d.size()); f.flush();
				ChunkIn in(o.data); dotFilteredInputStream g(in);
				R.equal(readAll(g, 64, R), d, "unstuff(stuff(x))");
			}
		});
	});
	stopTest <1>(R, "x", "xa", 6);
	stopTest <2>(R, "xy", "xya", 6);
	stopTest <2>(R, "xx", "xa", 7);
	stopTest <3>(R, "xyz", "xyz", 6);
	stopTest <3>(R, "\n.\n", "\n.a", 7);
	stopTest <3>(R, "xxy", "xy", 8);
	stopTest <3>(R, "xyx", "xya", 6);
	stopTest <4>(R, "xyxx", "xy", 9);
	stopTest <5>(R, "\r\n.\r\n", "\r\n.", T ? 9 : 7);
	stopTest <5>(R, "xxyxx", "xy", T ? 12 : 8);
	// the chain used for multi-line POP3 responses
	mc::strings({"\r\n", ".", "a", "\n"}, 0, T ? 7 : 6, [&](const S& body) {
		R.testL([&] { return "pop3chain|" + body; }, [&] {
			const S d = body + "\r\n.\r\nrest";
			const S want = refDotIn(refStop(refStop(d, "\r\n.\r\n"), "\n.\n")); R.outcome(want);
			mc::cuts(d.size(), 2, [&](const Cuts& c) {
				for (size_t bs : {size_t(9), size_t(12), size_t(64)}) {
					ChunkIn in(d, c); stopSequenceFilteredInputStream <5> a(in, "\r\n.\r\n");
					stopSequenceFilteredInputStream <3> b(a, "\n.\n"); dotFilteredInputStream f(b); R.transition();
					R.equal(readAll(f, bs, R), want, "chain, source " + mc::show(c) + " read size " + str(bs));
				}
			});
		});
	});
	// ---- encoders: every partition of the source
	struct E { S n; bool text; long ml; } es[] = {{"base64", 0, -1}, {"base64", 0, 4}, {"base64", 0, 76}, {"quoted-printable", 0, -1}, {"quoted-printable", 0, 6},
		{"quoted-printable", 1, 6}, {"quoted-printable", 1, -1}, {"uuencode", 0, -1}, {"uuencode", 0, 4}, {"7bit", 0, -1}, {"binary", 0, -1}};
	for (auto& e : es) {
		const S nm = e.n + (e.text ? "+text" : "") + "/" + str(e.ml);
		mc::strings({"a", " ", "\r\n", "=", "\xff", ".", "\n", "\r"}, 0, T ? 5 : 4, [&](const S& d) {
			R.testL([&] { return "encode " + nm + "|" + d; }, [&] { encChunks(R, e.n, e.text, e.ml, d, true, 0); });
		});
		mc::strings({"=", "4", "1", "\r", "\n", "a", " ", "_"}, 0, T ? 6 : 5, [&](const S& d) {
			if (e.ml != -1 && e.n != "uuencode") return;
			R.testL([&] { return "decode " + nm + "|" + d; }, [&] { encChunks(R, e.n, e.text, e.ml, d, false, 0); });
		});
		for (size_t n = 0 ; n <= (T ? 200u : 100u) ; n += (T || n < 12 ? 1 : 7)) for (auto& f : {S("ab =\r\n.c"), S("\0\xfe\x80 ", 4)}) {
			S d; while (d.size() < n) d += f; d.resize(n);
			R.testL([&] { return "encode long " + nm + "|" + f + "*" + str(n); }, [&] { encChunks(R, e.n, e.text, e.ml, d, true, n < 60 ? 2 : 1); });
			R.testL([&] { return "decode long " + nm + "|" + f + "*" + str(n); }, [&] {
				auto x = makeEncoder(e.n); x->getProperties()["maxlinelength"] = size_t(e.ml >= 0 ? e.ml : 20); inputStreamStringAdapter in(d); CollectOut o; x->encode(in, o);
				encChunks(R, e.n, e.text, e.ml, o.data, false, n < 20 ? 2 : 1);
			});
		}
		// encoded data which is not alone in the source
		if (e.ml == -1 && !e.text) for (auto& body : {S(), S("a"), S("abc"), S("line of text\r\n"), S("\xff\xfe b=")})
			for (auto& pre : {S(), S("\r\n"), S("begin\r\n")}) for (auto& post : {S("x"), S("\r\n"), S("end of it\r\n"), S("begin 644 b\r\n#86)C\r\nend\r\n"), S("the next text, of two\r\nlines or more\r\n"), S("====")}) for (int q = 0 ; q < 4 ; ++q)
				R.testL([&] { return "decode inside " + nm + "|" + body + "|" + pre + "|" + post + "|" + str(q); }, [&] {
					auto x = makeEncoder(e.n); if (q & 1) x->getProperties()["filename"] = S("f"); inputStreamStringAdapter in(body); CollectOut o; x->encode(in, o);
					S d = o.data; if (q & 2) { S t; for (size_t i = 0 ; i < d.size() ; ++i) if (!(d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n')) t += d[i]; d = t; }
					encChunks(R, e.n, e.text, e.ml, pre + d + post, false, 2);
				});
		// around the internal buffers
		for (size_t base : {16384u, 65536u}) for (int off = -3 ; off <= 3 ; ++off) for (auto& f : {S(" "), S("=\r\n"), S("\xff"), S("ab\r\n")}) {
			if (base > 16384 && e.n != "base64") continue;
			R.testL([&] { return "buffer " + nm + "|" + str(base + off) + f; }, [&] {
				S d(base + off, 'q'); d += f + f + "tail";
				inputStreamStringAdapter whole(d); CollectOut ref; auto mk = [&] { auto x = makeEncoder(e.n); if (e.ml >= 0) x->getProperties()["maxlinelength"] = size_t(e.ml); if (e.text) x->getProperties()["text"] = true; return x; };
				mk()->encode(whole, ref);
				for (size_t cut = base + off - 1 ; cut <= base + off + 2 * f.size() + 1 ; ++cut) {
					ChunkIn in(d, {cut}, true); CollectOut o; mk()->encode(in, o); CHECK(o.data == ref.data, "encode with cut at " + str(cut));
					ChunkIn in2(d, {1, cut - 1}, false); CollectOut o2; mk()->encode(in2, o2); CHECK(o2.data == ref.data, "encode with cuts at 1 and " + str(cut));
				}
				inputStreamStringAdapter rw(ref.data); CollectOut dref; mk()->decode(rw, dref);
				for (size_t cut = ref.data.size() > 16390 ? 16380 : 1 ; cut < std::min <size_t>(ref.data.size(), 16390) ; ++cut) {
					ChunkIn in(ref.data, {cut}, true); CollectOut o; mk()->decode(in, o); CHECK(o.data == dref.data, "decode with cut at " + str(cut));
					if (ref.data.size() <= 16390) break;
				}
			});
		}
	}
	// ---- stream copies
	mc::strings(mc::chars("ab"), 0, 6, [&](const S& d) {
		R.testL([&] { return "copy|" + d; }, [&] {
			mc::compositions(d.size(), [&](const Cuts& c) { for (bool late : {false, true}) {
				{ ChunkIn in(d, c, late); CollectOut o; const size_t n = bufferedStreamCopy(in, o); R.equal(o.data, d, "bufferedStreamCopy"); R.equal(n, d.size(), "bufferedStreamCopy count"); }
				for (size_t idle = 1 ; idle <= 2 ; ++idle) { ChunkIn in(d, c, late); in.idle = idle; CollectOut o; const size_t n = bufferedStreamCopy(in, o); R.equal(o.data, d, "bufferedStreamCopy with pauses"); R.equal(n, d.size(), "bufferedStreamCopy count"); }
				for (size_t st = 0 ; st <= d.size() ; ++st) for (size_t len = 0 ; len <= d.size() + 1 ; ++len) {
					if (d[0] == 'a' && d[d.size() - 1] == 'b') { ChunkIn in(d, c, late); in.idle = 1; CollectOut o; const size_t n = bufferedStreamCopyRange(in, o, st, len); R.equal(o.data, d.substr(st, len), "bufferedStreamCopyRange with pauses " + str(st) + "," + str(len)); R.equal(n, o.data.size(), "bufferedStreamCopyRange count"); }
					ChunkIn in(d, c, late); CollectOut o; const size_t n = bufferedStreamCopyRange(in, o, st, len); R.transition();
					R.equal(o.data, d.substr(st, len), "bufferedStreamCopyRange " + str(st) + "," + str(len)); R.equal(n, o.data.size(), "bufferedStreamCopyRange count");
				}
			}});
			R.outcome(d);
		});
	});
	// ---- stream adapters
	const S txt = "abcdefg"; const size_t dep = T ? 5 : 4;
	adapterModel(R, "stringAdapter", txt, dep, [&] { return make_shared <inputStreamStringAdapter>(txt); });
	for (size_t b = 0 ; b <= 4 ; ++b) for (size_t e = b ; e <= 7 ; ++e)
		adapterModel(R, "stringAdapter[" + str(b) + "," + str(e) + ")", txt.substr(b, e - b), b == 2 && e == 5 ? dep : 2, [&] { return make_shared <inputStreamStringAdapter>(txt, b, e); });
	adapterModel(R, "byteBufferAdapter", txt, dep, [&] { return make_shared <inputStreamByteBufferAdapter>(reinterpret_cast <const byte_t*>(txt.data()), txt.size()); });
	adapterModel(R, "istreamAdapter", txt, dep, [&] { return make_shared <IssHolder>(txt); });
	adapterModel(R, "parserAdapter", txt, 3, [&] { return make_shared <parserInputStreamAdapter>(make_shared <inputStreamStringAdapter>(txt)); });
	for (size_t b = 0 ; b <= 4 ; ++b) for (size_t l = 0 ; b + l <= 7 ; ++l)
		adapterModel(R, "region[" + str(b) + "+" + str(l) + ")", txt.substr(b, l), b == 2 && l == 3 ? dep : 2, [&] { return make_shared <seekableInputStreamRegionAdapter>(make_shared <inputStreamStringAdapter>(txt), b, l); });
	mc::strings(mc::chars("ab"), 0, 6, [&](const S& d) {
		R.testL([&] { return "region chunked|" + d; }, [&] {
			mc::compositions(d.size(), [&](const Cuts& c) { for (size_t b = 0 ; b <= d.size() ; ++b) for (size_t l = 0 ; b + l <= d.size() ; ++l) for (size_t bs = 1 ; bs <= 4 ; ++bs) {
				seekableInputStreamRegionAdapter r(make_shared <ChunkIn>(d, c, true), b, l);
				R.equal(readAll(r, bs, R), d.substr(b, l), "region of a source delivering " + mc::show(c));
			}});
		});
		R.testL([&] { return "outAdapters|" + d; }, [&] {
			mc::compositions(d.size(), [&](const Cuts& c) {
				S s; outputStreamStringAdapter a(s); writeChunks(a, d, c); a.flush(); R.equal(s, d, "string adapter");
				byteArray ba; outputStreamByteArrayAdapter b(ba); writeChunks(b, d, c); b.flush(); R.equal(S(ba.begin(), ba.end()), d, "byte array adapter");
				std::ostringstream os; outputStreamAdapter o(os); writeChunks(o, d, c); o.flush(); R.equal(os.str(), d, "ostream adapter");
			});
		});
		// ---- search and extraction through the parser's adapter
		R.testL([&] { return "find|" + d; }, [&] {
			mc::compositions(d.size(), [&](const Cuts& c) { for (bool late : {false, true}) {
				auto src = make_shared <ChunkIn>(d, c, late); parserInputStreamAdapter p(src);
				for (size_t a = 0 ; a <= d.size() ; ++a) for (size_t b = a ; b <= d.size() ; ++b) {
					p.seek(d.size() / 2);
					R.equal(S(p.extract(a, b)), d.substr(a, b - a), "extract " + str(a) + "," + str(b) + " from " + mc::show(c));
					R.equal(p.getPosition(), d.size() / 2, "position after extract");
				}
				mc::strings(mc::chars("ab"), 1, 3, [&](const S& tok) { for (size_t st = 0 ; st <= d.size() ; ++st) {
					p.seek(d.size() / 2); R.transition();
					R.equal(p.findNext(tok, st), d.find(tok, st), "findNext(" + tok + "," + str(st) + ") in source " + mc::show(c));
					R.equal(p.getPosition(), d.size() / 2, "position after findNext");
				}});
			}});
		});
	});
	// search across the adapter's internal window
	for (size_t n : {2046u, 2047u, 2048u, 2049u, 4093u, 4094u, 4095u, 4096u, 4097u, 6143u, 6144u, 6145u, 8191u, 8192u}) for (auto& tok : {S("XY"), S("X"), S("XYZ12"), S(40, 'X') + "Y"})
		R.testL([&] { return "find window|" + str(n) + tok; }, [&] {
			const S d = S(n, 'a') + tok + "bcX"; const S d2 = S(n, 'a') + tok.substr(0, tok.size() - 1);
			for (size_t cut : {size_t(0), size_t(1), size_t(100), size_t(2047), size_t(2048), size_t(2049), n - 1, n, n + 1, n + 2}) for (bool late : {false, true}) {
				Cuts c; if (cut) c.push_back(cut);
				parserInputStreamAdapter p(make_shared <ChunkIn>(d, c, late)), q(make_shared <ChunkIn>(d2, c, late));
				for (size_t st : {0u, 1u, 5u, 2000u}) {
					R.equal(p.findNext(tok, st), d.find(tok, st), "findNext from " + str(st) + " cut " + str(cut)); R.transition();
					R.equal(q.findNext(tok, st), d2.find(tok, st), "findNext (absent) from " + str(st) + " cut " + str(cut));
				}
				R.equal(S(p.extract(1, d.size())), d.substr(1), "extract of everything, cut " + str(cut));
			}
			R.outcome(str(n) + tok);
		});
}
