// C31: URLs survive building and parsing.
#include "mcv.hpp"
#include "mc_main.hpp"
#include "vmime/utility/url.hpp"
#include "vmime/utility/urlUtils.hpp"
using namespace vmime; using vmime::utility::url; using vmime::utility::urlUtils;

static S parts(const url& u) {
	S s = "proto=" + esc(u.getProtocol()) + " user=" + esc(u.getUsername()) + " pass=" + esc(u.getPassword()) + " host=" + esc(u.getHost()) + " port=" + str(u.getPort()) + " path=" + esc(u.getPath());
	for (auto& p : u.getParams()) s += " [" + esc(p.first) + "]=[" + esc(p.second) + "]";
	return s;
}
// syntax of what build() gives: scheme "://" and then only unreserved characters, %XX and the delimiters
static void wellFormed(const S& b) {
	static const S unres = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._!*'()";
	for (size_t i = 0 ; i < b.size() ; ++i) {
		if (b[i] == '%') { CHECK(i + 2 < b.size() && isxdigit((unsigned char) b[i + 1]) && isxdigit((unsigned char) b[i + 2]), "bad escape in " + esc(b)); i += 2; }
		else CHECK((unres + ":/@?&=[]+").find(b[i]) != S::npos, "character in URL: " + esc(b));
	}
}
static void roundTrip(mc::Run& R, const url& u) {
	const S b = S(u); wellFormed(b);
	url v("x", "y", 7, "z", "u", "p"); v.getParams()["left"] = "over";
	v = b; CHECK(parts(v) == parts(u), "URL " + esc(b) + " reads back as " + parts(v) + " instead of " + parts(u));
	url w(b); CHECK(parts(w) == parts(u), "constructor reads " + parts(w));
	CHECK(S(v) == b && S(w) == b, "second build differs: " + esc(S(v)));
	url c(v); CHECK(parts(c) == parts(u), "copy differs"); c.setHost("other"); c.getParams()["n"] = "1"; CHECK(parts(v) == parts(u), "copy not independent");
	R.outcome(b);
}

// independent percent-decoder for well-formed input
static S decodeRef(const S& s) { S r; for (size_t i = 0 ; i < s.size() ; ++i) { if (s[i] == '%') { r += char(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; } else r += s[i]; } return r; }

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C31";
	R.rule = "all strings over delimiter alphabets per URL part times presence of the other parts; all byte strings of length 2 and all strings over an alphabet for the percent-encoding; all strings over URL delimiters up to a length for the rejection without change";
	R.assumptions = {"protocol names are lower case letters, digits, '+', '-' and '.'", "a password needs a user name, and file URLs have only a path (documented format)", "port 0 is no port, 65535 is the documented UNSPECIFIED_PORT value"};
	// ---- percent-encoding: every byte string of length 1 and 2, longer ones over an alphabet
	for (int a = 0 ; a < 256 ; ++a) R.testL([&] { return "bytes|" + str(a); }, [&] {
		for (int b = -1 ; b < 256 ; ++b) for (int pos = 0 ; pos < 3 ; ++pos) {
			S s(1, char(a)); if (b >= 0) s += char(b); if (pos == 1) s = "x" + s; if (pos == 2) s += "4";
			const S e = urlUtils::encode(s);
			for (size_t i = 0 ; i < e.size() ; ++i) if (e[i] == '%') { CHECK(i + 2 < e.size() && isxdigit((unsigned char) e[i + 1]) && isxdigit((unsigned char) e[i + 2]), "bad escape " + esc(e)); i += 2; }
				else CHECK(isalnum((unsigned char) e[i]) || S("-._!*'()").find(e[i]) != S::npos, "reserved character left in " + esc(e));
			CHECK(decodeRef(e) == s, "escapes of " + esc(s) + ": " + e);
			CHECK(urlUtils::decode(e) == s, "decode(encode()) of " + esc(s) + " gives " + esc(urlUtils::decode(e)));
			S lower; for (char c : e) lower += char(tolower((unsigned char) c)); if (decodeRef(lower) == urlUtils::decode(e)) CHECK(urlUtils::decode(lower) == s, "lower case escapes");
			R.outcome(e);
		}
	});
	mc::strings({"%", "2", "F", "a", "+", " ", "/", "\x80", S("\0", 1)}, 1, R.thorough ? 6 : 4, [&](const S& s) { R.testL([&] { return "codec|" + esc(s); }, [&] {
		CHECK(urlUtils::decode(urlUtils::encode(s)) == s, "round trip of " + esc(s)); urlUtils::decode(s); R.outcome(urlUtils::decode(s)); if (s.find('%') == S::npos) CHECK(urlUtils::decode(s + "%") == s + "%", "a percent sign at the end of " + esc(s));
	}); });
	// full-escape form of any text decodes to it
	mc::strings({"a", "%", "\xff", "~", "0"}, 1, 3, [&](const S& s) { R.testL([&] { return "fullescape|" + esc(s); }, [&] {
		S e, f; for (unsigned char c : s) { char h[4]; snprintf(h, 4, "%%%02X", c); e += h; snprintf(h, 4, "%%%02x", c); f += h; }
		CHECK(urlUtils::decode(e) == s && urlUtils::decode(f) == s, "decoding " + e); R.outcome(e);
	}); });

	// ---- all values of one part, with every combination of the others
	const std::vector <S> delim = {"a", "/", ":", "@", "?", "&", "=", "%", "#", " ", "[", "]", "\xc3\xa9", "+", "4", S("\0", 1), "."};
	auto withOthers = [&](const S& fam, const S& val, std::function <void(url&)> set) {
		R.testL([&] { return fam + "|" + esc(val); }, [&] {
			for (int m = 0 ; m < 64 ; ++m) { if (!R.thorough && m % 3 && m > 8 && m < 60) continue;
				url u(m & 32 ? "imap+s.x-1" : "http", m & 1 ? "host.example.com" : "h");
				if (m & 2) { u.setUsername("us er"); if (m & 4) u.setPassword("p:w/"); } else if (m & 4) continue;
				if (m & 8) u.setPort(993);
				if (m & 16) { u.setPath("dir/x y"); u.getParams()["k"] = "v"; }
				set(u); if (u.getUsername().empty()) u.setPassword("");
				roundTrip(R, u);
			}
		});
	};
	const size_t L = R.thorough ? 4 : 3;
	mc::strings(delim, 1, L, [&](const S& s) { withOthers("user", s, [&](url& u) { u.setUsername(s); }); });
	mc::strings(delim, 1, L - (R.thorough ? 0 : 1), [&](const S& s) { withOthers("password", s, [&](url& u) { u.setUsername("me"); u.setPassword(s); }); });
	mc::strings(delim, 1, L, [&](const S& s) { withOthers("path", s, [&](url& u) { u.setPath(s); }); });
	mc::strings(delim, 0, L - 1, [&](const S& s) { withOthers("param-name", s, [&](url& u) { u.getParams()[s] = "v&="; u.getParams()["z"] = ""; }); });
	mc::strings(delim, 0, L - 1, [&](const S& s) { withOthers("param-value", s, [&](url& u) { u.getParams()["n"] = s; u.getParams()["o"] = s + s; }); });
	// hosts: names, addresses and IPv6 literals, including very short ones and hexadecimal words
	mc::strings({"a", "g", "1", "-", ".", ":", "]", "[", "%", " ", "@", "/", "?"}, 1, R.thorough ? 5 : 3, [&](const S& s) { withOthers("host", s, [&](url& u) { u.setHost(s); }); });
	for (const S h : {"::1", "::", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "fe80::1%eth0", "1.2.3.4", "cafe", "abc", "deadbeef", "g1", "xn--e1afmkfd.example", "localhost", "a", "0", "F:", ":f", "1:2:3:4:5:6:7:8"})
		withOthers("host-named", h, [&](url& u) { u.setHost(h); });
	for (unsigned p : {1u, 21u, 80u, 993u, 32767u, 32768u, 65534u}) withOthers("port", str(p), [&](url& u) { u.setPort(port_t(p)); });
	// IPv6 literals are bracketed, other hosts are not (what other programs expect)
	for (const S h : {"::1", "fe80::1", "1:2:3:4:5:6:7:8"}) R.test("bracket|" + h, [&] { CHECK(S(url("http", h, 80)) == "http://[" + h + "]:80", S(url("http", h, 80))); R.outcome(h); });
	for (const S h : {"a", "ab", "cafe", "host", "1.2.3.4", "0"}) R.test("plainhost|" + h, [&] { CHECK(S(url("http", h, 80)) == "http://" + h + ":80", "host built as " + S(url("http", h, 80))); R.outcome(h); });
	// several parameters, in all subsets
	const std::vector <std::pair <S, S> > pr = {{"a", "1"}, {"b", ""}, {"", "x"}, {"a b", "c=d"}, {"&", "%"}, {"?", "/"}};
	for (int m = 0 ; m < (1 << pr.size()) ; ++m) R.testL([&] { return "params|" + str(m); }, [&] {
		for (const S path : {"", "p", "p/q"}) { url u("http", "h"); u.setPath(path); for (size_t i = 0 ; i < pr.size() ; ++i) if (m >> i & 1) u.getParams()[pr[i].first] = pr[i].second; roundTrip(R, u); }
	});
	// file URLs
	mc::strings({"a", "/", ":", "@", " ", "%"}, 0, 4, [&](const S& s) { R.testL([&] { return "file|" + esc(s); }, [&] {
		url u(url::PROTOCOL_FILE, "", url::UNSPECIFIED_PORT, s); roundTrip(R, u);
		if (s.find_first_of(" %") == S::npos) { url v("file:///" + s); CHECK(v.getPath() == s && v.getHost().empty() && v.getUsername().empty(), "file URL path " + v.getPath()); }
	}); });
	// written by others: no need to escape what is not special
	for (const S user : {"", "u", "u%40d", "a@b"}) for (const S pass : {"", "p", "%3A"}) for (const S host : {"h", "a.b", "[::1]", "[fe80::2]"}) for (const S port : {"", "1", "65534", "00080"}) for (const S path : {"", "/", "/p", "/p/q%20r", "/?x=1&y", "/p?x=%26&=z"}) {
		if (user.empty() && !pass.empty()) continue;
		R.testL([&] { return "text|" + user + "|" + pass + "|" + host + "|" + port + "|" + path; }, [&] {
			url u("IMAP://" + user + (pass.empty() ? "" : ":" + pass) + (user.empty() ? "" : "@") + host + (port.empty() ? "" : ":" + port) + path);
			CHECK(u.getProtocol() == "imap", "protocol"); CHECK(u.getUsername() == urlUtils::decode(user), "user " + u.getUsername()); CHECK(u.getPassword() == urlUtils::decode(pass), "password " + u.getPassword());
			CHECK(u.getHost() == (host[0] == '[' ? host.substr(1, host.size() - 2) : host), "host " + u.getHost());
			CHECK(u.getPort() == (port.empty() ? url::UNSPECIFIED_PORT : port_t(std::stoi(port))), "port " + str(u.getPort()));
			S pa = path.empty() ? "" : path.substr(1), q; if (pa.find('?') != S::npos) { q = pa.substr(pa.find('?') + 1); pa = pa.substr(0, pa.find('?')); }
			CHECK(u.getPath() == urlUtils::decode(pa), "path " + u.getPath()); CHECK(u.getParams().size() == (q.empty() ? 0u : 2u), "params");
			roundTrip(R, u);
		});
	}
	// ---- any text: either read or refused, and refusing changes nothing
	mc::strings({"a", ":", "/", "@", "?", "[", "]", "1", "://", "&", "="}, 0, R.thorough ? 7 : 5, [&](const S& s) { R.testL([&] { return "any|" + s; }, [&] {
		url u("imap", "h", 5, "p", "us", "pw"); u.getParams()["k"] = "v"; const S before = parts(u);
		bool ok = true; try { u = s; } catch (exceptions::malformed_url&) { ok = false; }
		if (!ok) CHECK(parts(u) == before, "refused text '" + s + "' changed the URL to " + parts(u));
		else {
			const size_t p = s.find("://"); CHECK(p != S::npos && p > 0, "'" + s + "' accepted without protocol");
			CHECK(!u.getHost().empty(), "'" + s + "' accepted without host");
			if (!u.getUsername().empty() || u.getPassword().empty()) { const S b = S(u); url v(b); if (u.getProtocol().find_first_of(":/@?[]&=") == S::npos) CHECK(parts(v) == parts(u), "accepted '" + s + "', built " + b + ", read " + parts(v)); }
		}
		bool ok2 = true; try { url w(s); } catch (exceptions::malformed_url&) { ok2 = false; } CHECK(ok == ok2, "constructor and assignment disagree");
		R.outcome(str(ok) + parts(u));
	}); });
	for (const S bad : {"", "http", "http:", "http:/", "http//h", "://h", "http://", "http://:80", "http://h:x", "http://h:8x", "http://h:-1", "http://h:65536", "http://h:99999", "http://h:4294967376", "http://h:99999999999999999999", "http://@", "http://u@", "http://u:p@/x", "a@b", "a@b://", "http://[]", "http://[::1]x", "http://[::1]:y", "http://h:80:81"})
		R.test("refuse|" + bad, [&] {
			url u("imap", "h", 5, "p", "us", "pw"); const S before = parts(u); bool ok = true; try { u = S(bad); } catch (exceptions::malformed_url&) { ok = false; }
			CHECK(!ok, "'" + bad + "' accepted as " + parts(u)); CHECK(parts(u) == before, "changed"); R.outcome(bad);
		});
}
