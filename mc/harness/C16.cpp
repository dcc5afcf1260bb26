// C16: parsing depends on the bytes of the given range only, and not on what the object held.
#include "mc_main.hpp"
#include "dump.hpp"
using namespace vmime;

typedef std::function <shared_ptr <component>()> Make;
struct Type { S name; Make make; std::vector <S> alpha; size_t len; std::vector <S> before; };
static S result(component& c, const std::function <void(component&)>& parse, long base, bool bounds) {
	S o; try { parse(c); } catch (exception& e) { return S("exception ") + e.name(); }
	return mc::attrs(c, bounds, base);
}

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C16";
	R.rule = "for every component type: every string up to 3 (thorough 4) pieces over its structural characters, parsed in a fresh object from its own string, and (a) inside a larger string between every pair of surrounding bytes from the structural ones, (b) in an object which held each of several earlier contents (also two in a row, one set through the API), (c) in a region of a stream; results (all attributes of the object tree and relative offsets) have to be the same";
	const bool T = R.thorough;
	const std::vector <S> addr = {"a", "@", "<", ">", ",", ":", ";", "\"", "\\", "(", "=?", "?=", " ", "b@c", "g:", "=?utf-8?q?e?="};
	const std::vector <S> addrBefore = {"old <o@p>", "g: a@b, c@d;", "\"x\\\"y\" <z@w>, q@r", "(c) =?utf-8?q?=C3=A9?= <u@v>"};
	auto mk = [](auto* t) { typedef typename std::remove_pointer <decltype(t)>::type C; return Make([] { return make_shared <C>(); }); };
	auto fieldOf = [](const S& n) { return Make([n] { return headerFieldFactory::getInstance()->create(n); }); };
	std::vector <Type> types = {
		{"mailbox", mk((mailbox*) 0), addr, 3, addrBefore}, {"group", mk((mailboxGroup*) 0), addr, 3, addrBefore}, {"mailboxes", mk((mailboxList*) 0), addr, 3, addrBefore}, {"addresses", mk((addressList*) 0), addr, 3, addrBefore},
		{"email", mk((emailAddress*) 0), {"a", "@", "\"", "\\", "(", ")", ".", " ", "=?utf-8?q?e?=", "\xc3\xa9", "xn--e1a", "["}, 3, {"old@place", "\"q r\"@[1.2.3.4]", "alone"}},
		{"text", mk((text*) 0), {"=?", "?", "?=", "utf-8", "q", "=", "a", " ", "\r\n ", "=?utf-8?q?e?=", "=?utf-8?B?w6k=?=", "\xe9"}, 3, {"old words", "=?iso-8859-1?Q?=E9?= x =?utf-8?Q?y?="}}, {"word", mk((word*) 0), {"=?", "?=", "us-ascii", "a", " ", "\r\n\t", "=?utf-8?q?e?=", "=?utf-8*en?q?e?=", "b"}, 3, {"old", "=?iso-8859-1*fr?Q?=E9?="}},
		{"date", mk((datetime*) 0), {"1", "Mon,", ":", " ", "+0100", "Jan ", "2001 ", "11:12:13 ", "GMT", "(c)", "-", "EST"}, 4, {"Tue, 3 Apr 1992 04:05:06 -0700", "9 Oct 99 10:11 PDT"}},
		{"msgid", mk((messageId*) 0), {"<", ">", "@", "(", ")", "\\", "\"", "a", " ", "b@c"}, 3, {"<old@one>", "left"}}, {"msgids", mk((messageIdSequence*) 0), {"<", ">", "@", "(", ")", "\\", "a", " ", "<b@c>"}, 3, {"<old@one> <two@x>"}},
		{"media", mk((mediaType*) 0), {"/", "a", " ", ";", "(", "x/y", "\r\n"}, 3, {"old/sub", "alone"}}, {"disp", mk((contentDisposition*) 0), {"a", " ", ";", "(", "\r\n", "inline"}, 3, {"old"}}, {"enc", mk((encoding*) 0), {"a", ";", " ", "7bit", "\r", "base64"}, 3, {"old"}}, {"charset", mk((charset*) 0), {"a", " ", "\"", "'", "\n", "utf-8"}, 3, {"old"}},
		{"mdn", mk((disposition*) 0), {"a", "/", ";", ",", " ", "-", "error", "b/c;d"}, 4, {"x/y;z/error,warning", "p/q"}}, {"path", mk((vmime::path*) 0), {"<", ">", "@", "a", "\"", " ", "b@c"}, 4, {"<old@place>", "x"}}, {"relay", mk((relay*) 0), {"from a ", "by b ", "with c ", "id ", " ", ";", "(", ")", "for d", "1 Jan 2000 1:2:3 +0000"}, 3, {"from of by ob via ov with ow with ox id oi for oo; Fri, 21 Nov 1997 09:55:06 -0600"}},
		{"subject", fieldOf("Subject"), {"=?utf-8?q?e?=", "a", " ", "\r\n ", ":", "\r\n"}, 3, {"old", "=?utf-8?q?x?= y"}}, {"to", fieldOf("To"), {"a@b", ",", "g:", ";", " ", "\r\n ", "<", ">"}, 3, {"o@p, q@r", "g: x@y;"}}, {"from", fieldOf("From"), {"a@b", ",", "\"n\"", "<", ">", " ", "(c)", "g: "}, 3, {"old <o@p>"}},
		{"ctype", fieldOf("Content-Type"), {"a/b", ";", "c", "=", "d", "\"", " ", "*0", "*", "utf-8''e", "charset=x", "\\", "\r\n "}, 3, {"old/type; charset=ocs; name=\"on\"; x*0=y; x*1=z", "alone"}}, {"cdisp", fieldOf("Content-Disposition"), {"a", "; filename", "=", "d", "\"", " ", "*0*=", "*1=e", "utf-8'fr'%41", "; size=3"}, 4, {"inline; filename=old; size=9; creation-date=\"Fri, 21 Nov 1997 09:55:06 -0600\""}},
		{"header", mk((header*) 0), {"A", ":", " b", "\r\n", "\n", " ", "To: a@b\r\n", "Date: 1 Jan 2000\r\n"}, 4, {"X: old\r\nY: older\r\n\r\n"}},
		{"message", mk((message*) 0), {"A: b\r\n", "\r\n", "--b", "--", "\n", "Content-Type: multipart/x; boundary=b\r\n", "Content-Type: multipart/x\r\n", "Content-Transfer-Encoding: base64\r\n", "x"}, 4, {"O: l\r\nContent-Type: multipart/old; boundary=ob\r\n\r\nprol\r\n--ob\r\nP: q\r\n\r\nbody\r\n--ob\r\n\r\n--ob--\r\nepil", "O: p\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n=41"}},
		{"part", mk((bodyPart*) 0), {"Content-Type: multipart/x; boundary=b\r\n\r\n", "--b\r\n", "--b--", "\r\n", "--b", "C: d\r\n\r\n", "x"}, 4, {"Content-Type: multipart/old; boundary=ob\r\n\r\nprol\r\n--ob\r\nP: q\r\n\r\nbody\r\n--ob\r\n\r\n--ob--\r\nepil"}},
	};
	const std::vector <S> around = {"", "a", "\"", "\\", "(", ")", "<", ">", "@", ",", ";", ":", "=", "?=", "=?", "/", " ", "\t", "\r\n", "\n", "\r\n ", "\n--b", "--b\r\n", "b", "0", "\xc3", "\xff", "*1=q", " 2000 01:02:03 -0400"};
	for (auto& t : types) {
		// values written through the API beforehand: a copy of a parsed object
		mc::strings(t.alpha, 0, t.len + (T && t.alpha.size() < 12 ? 1 : 0) - (!T && t.len > 3 && t.alpha.size() > 8 ? 1 : 0), [&](const S& s) { R.testL([&] { return t.name + "|" + s; }, [&] {
			auto fresh = t.make(); const S want = result(*fresh, [&](component& c) { c.parse(s); }, 0, true); R.outcome(want);
			size_t h = mc::hash(s) % 1000;
			for (size_t i = 0 ; i < around.size() ; ++i) for (size_t k = 0 ; k < (T ? around.size() : 2) ; ++k) {
				const S& pre = around[T ? k : (i * 5 + h + k * 7) % around.size()]; const S& post = around[i]; const S big = pre + s + post; size_t np = 0;
				auto c = t.make(); const S got = result(*c, [&](component& x) { x.parse(big, pre.size(), pre.size() + s.size(), &np); }, pre.size(), true);
				R.equal(got, want, "parsed " + R.show(s) + " between " + R.show(pre) + " and " + R.show(post)); R.transition();
				if ((i + k + h) % 4 == 0) { auto d = t.make(); const S gs = result(*d, [&](component& x) { x.parse(make_shared <ChunkIn>(big, Cuts{1, 2}), pre.size(), pre.size() + s.size()); }, pre.size(), true); if (s.size()) R.equal(gs, want, "parsed " + R.show(s) + " from a stream between " + R.show(pre) + " and " + R.show(post)); R.transition(); }
			}
			for (size_t i = 0 ; i < t.before.size() ; ++i) {
				auto c = t.make(); c->parse(t.before[i]); if (i) c->parse(t.before[i - 1]);
				R.equal(result(*c, [&](component& x) { x.parse(s); }, 0, true), want, "parsed " + R.show(s) + " into an object which held " + R.show(t.before[i]));
				auto k = c->clone(); k->parse(t.before[i]); auto k2 = k->clone(); R.equal(result(*k2, [&](component& x) { x.parse(s); }, 0, true), want, "parsed into a clone of an object which held " + R.show(t.before[i])); R.transition(2);
			}
			// what was parsed before must not matter either when it is one of the same strings
			auto c = t.make(); try { c->parse(s + (t.alpha.empty() ? "" : t.alpha[h % t.alpha.size()])); } catch (exception&) { } R.equal(result(*c, [&](component& x) { x.parse(s); }, 0, true), want, "parsed twice"); R.transition();
		}); });
	}
}
