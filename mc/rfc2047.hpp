// Independent RFC 2047 decoder used as an oracle (does not use the library).
#pragma once
#include "mc.hpp"
namespace rfc2047 {
typedef std::string S;
struct Part { bool encoded = false; S raw, charset, lang, data, bad; };
struct Decoded { std::vector <Part> parts; S bad; };
inline int hex(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
inline S b64(const S& d, S& bad) {
	static const S al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	S o; unsigned v = 0; int n = 0; size_t pad = 0;
	for (char c : d) {
		if (c == '=') { ++pad; continue; }
		size_t i = al.find(c); if (i == S::npos || pad) { bad = "not Base64"; continue; }
		v = v << 6 | unsigned(i); n += 6; if (n >= 8) { n -= 8; o += char(v >> n); v &= (1u << n) - 1; }
	}
	if (d.size() % 4) bad = "Base64 length not a multiple of 4";
	if (pad > 2) bad = "too much padding";
	return o;
}
inline S q(const S& d, S& bad) {
	S o;
	for (size_t i = 0 ; i < d.size() ; ++i) {
		unsigned char c = d[i];
		if (c == '_') o += ' ';
		else if (c == '=') { if (i + 2 < d.size() && hex(d[i + 1]) >= 0 && hex(d[i + 2]) >= 0) { o += char(hex(d[i + 1]) << 4 | hex(d[i + 2])); i += 2; } else { bad = "broken escape"; o += '='; } }
		else { if (c <= 32 || c >= 127 || c == '?') bad = "forbidden byte in Q encoding"; o += char(c); }
	}
	return o;
}
/** Tries to read an encoded word at p. */
inline bool word(const S& s, size_t p, Part& w, size_t& e) {
	if (s.compare(p, 2, "=?") != 0) return false;
	size_t a = s.find('?', p + 2); if (a == S::npos) return false;
	size_t b = s.find('?', a + 1); if (b == S::npos || b != a + 2) return false;
	size_t c = s.find('?', b + 1); if (c == S::npos || c + 1 >= s.size() || s[c + 1] != '=') return false;
	for (size_t i = p ; i < c ; ++i) if (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n') return false;
	if (a == p + 2) return false;
	w = Part(); w.encoded = true; w.raw = s.substr(p, c + 2 - p); w.charset = s.substr(p + 2, a - p - 2);
	size_t st = w.charset.find('*'); if (st != S::npos) { w.lang = w.charset.substr(st + 1); w.charset.erase(st); }
	const S d = s.substr(b + 1, c - b - 1); char en = s[a + 1];
	if (en == 'B' || en == 'b') w.data = b64(d, w.bad); else if (en == 'Q' || en == 'q') w.data = q(d, w.bad); else return false;
	e = c + 2; return true;
}
inline bool ws(char c) { return c == ' ' || c == '\t'; }
/** Unfolds and decodes an unstructured field value. */
inline Decoded decode(const S& in) {
	S s; for (size_t i = 0 ; i < in.size() ; ++i) { if (in[i] == '\r' && i + 1 < in.size() && in[i + 1] == '\n') { ++i; continue; } if (in[i] == '\n') continue; s += in[i]; }
	Decoded r; S plain; bool prevWord = false; size_t i = 0;
	while (i < s.size()) {
		Part w; size_t e;
		bool start = i == 0 || ws(s[i - 1]);
		if (start && word(s, i, w, e) && (e == s.size() || ws(s[e]))) {
			bool onlyWs = plain.find_first_not_of(" \t") == S::npos;
			if (!plain.empty() && !(prevWord && onlyWs)) { Part p; p.data = p.raw = plain; r.parts.push_back(p); }
			plain.clear(); r.parts.push_back(w); prevWord = true; i = e;
		} else { if (!ws(s[i])) prevWord = prevWord && plain.find_first_not_of(" \t") == S::npos && false; plain += s[i++]; }
	}
	if (!plain.empty()) { Part p; p.data = p.raw = plain; r.parts.push_back(p); }
	if (in.find("=?") != S::npos) {
		// every "=?" in the output must belong to an encoded word
		size_t n = 0, p = 0; while ((p = in.find("=?", p)) != S::npos) { ++n; p += 2; }
		size_t k = 0; for (auto& x : r.parts) if (x.encoded) { size_t q2 = 0; while ((q2 = x.raw.find("=?", q2)) != S::npos) { ++k; q2 += 2; } }
		if (n != k) r.bad = "'=?' outside of an encoded word";
	}
	return r;
}
}
