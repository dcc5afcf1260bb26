// C18: collections of message components behave as ordered lists.
#include "mc_main.hpp"
#include "mcv.hpp"
#include "lts.hpp"
#include "vmime/contentTypeField.hpp"
using namespace vmime;

typedef std::vector <int> L;
template <class E> struct Ops {  // one real collection
	typedef shared_ptr <E> P;
	std::vector <P> objs;
	std::function <void(P)> append, remO; std::function <void(P, P)> insBo, insAo, replace; std::function <void(size_t, P)> insBp, insAp; std::function <void(size_t)> remP; std::function <void()> clear;
	std::function <size_t()> count; std::function <bool()> empty; std::function <const E*(size_t)> at, cat; std::function <std::vector <const component*>()> list, clist, children;
	std::vector <S> names; std::function <P(S)> get; std::function <void(S)> clearName; std::vector <S> lookups; std::function <void(const L&, Ops&)> extra; size_t childSkip = 0; bool checkedIns = false, checkedRem = false; std::function <P(S)> find; std::function <bool(S)> has; std::function <std::vector <P>(S)> findAll;
};
static S nameOf(const headerField& f) { return f.getName(); }
static S nameOf(const parameter& f) { return f.getName(); }
static S nameOf(const component&) { return ""; }
static S low(S s) { for (auto& c : s) c = (char) tolower(c); return s; }
template <class E> struct ListSys {
	typedef shared_ptr <E> P; typedef std::function <std::shared_ptr <Ops <E> >(bool)> Mk;
	struct Op { S name; int kind; int a, b; };
	std::shared_ptr <Ops <E> > r; bool real; L m; std::vector <Op> ops; std::vector <S> names; size_t maxLen;
	ListSys(Mk mk, bool rl, size_t ml) : r(mk(rl)), real(rl), maxLen(ml) {
		auto s = [](int i) { return str(i); }; const int n = 3; names = r->names;
		for (int i = 0 ; i < n ; ++i) ops.push_back({"append " + s(i), 0, i, 0});
		for (int p = 0 ; p < int(ml) ; ++p) for (int i = 0 ; i < n ; ++i) { ops.push_back({"insert " + s(i) + " before #" + s(p), 1, p, i}); ops.push_back({"insert " + s(i) + " after #" + s(p), 2, p, i}); }
		if (r->insBo) for (int a = 0 ; a < n ; ++a) for (int b = 0 ; b < n ; ++b) { ops.push_back({"insert " + s(b) + " before " + s(a), 3, a, b}); ops.push_back({"insert " + s(b) + " after " + s(a), 4, a, b}); if (r->replace) ops.push_back({"replace " + s(a) + " by " + s(b), 8, a, b}); }
		for (int p = 0 ; p < int(ml) ; ++p) ops.push_back({"remove #" + s(p), 5, p, 0});
		if (r->remO) for (int a = 0 ; a < n ; ++a) ops.push_back({"remove " + s(a), 6, a, 0});
		if (r->checkedIns) { ops.push_back({"insert before the end position", 11, 0, 0}); ops.push_back({"insert after the end position", 12, 0, 0}); }
		if (r->checkedRem) ops.push_back({"remove at the end position", 13, 0, 0});
		ops.push_back({"clear", 7, 0, 0});
		if (r->get) for (size_t k = 0 ; k < r->lookups.size() ; ++k) { ops.push_back({"get " + r->lookups[k], 9, int(k), 0}); if (r->clearName) ops.push_back({"clear " + r->lookups[k], 10, int(k), 0}); }
	}
	size_t opCount() const { return ops.size(); }
	S opName(size_t i) const { return ops[i].name; }
	bool enabled(size_t i) const {
		const Op& o = ops[i];
		switch (o.kind) { case 0: case 3: case 4: return m.size() < maxLen; case 1: case 2: return m.size() < maxLen && o.a < int(m.size()); case 5: return o.a < int(m.size()); case 9: return m.size() < maxLen || findName(r->lookups[o.a]) >= 0; }
		return true;
	}
	int findName(const S& n) const { for (size_t i = 0 ; i < m.size() ; ++i) if (low(names[m[i]]) == low(n)) return int(i); return -1; }
	int pos(int o) const { auto it = std::find(m.begin(), m.end(), o); return it == m.end() ? -1 : int(it - m.begin()); }
	void step(size_t i) {
		const Op& o = ops[i]; bool fails = false; auto& v = r->objs;
		std::function <void()> f;
		switch (o.kind) {
			case 0: m.push_back(o.a); f = [&] { r->append(v[o.a]); }; break;
			case 1: m.insert(m.begin() + o.a, o.b); f = [&] { r->insBp(o.a, v[o.b]); }; break;
			case 2: m.insert(m.begin() + o.a + 1, o.b); f = [&] { r->insAp(o.a, v[o.b]); }; break;
			case 3: case 4: { int p = pos(o.a); if (p < 0) fails = true; else m.insert(m.begin() + p + (o.kind == 4), o.b); f = [&] { (o.kind == 3 ? r->insBo : r->insAo)(v[o.a], v[o.b]); }; break; }
			case 5: m.erase(m.begin() + o.a); f = [&] { r->remP(o.a); }; break;
			case 6: { int p = pos(o.a); if (p < 0) fails = true; else m.erase(m.begin() + p); f = [&] { r->remO(v[o.a]); }; break; }
			case 7: m.clear(); f = [&] { r->clear(); }; break;
			case 8: { int p = pos(o.a); if (p < 0) fails = true; else m[p] = o.b; f = [&] { r->replace(v[o.a], v[o.b]); }; break; }
			case 9: { const S n = r->lookups[o.a]; int p = findName(n), want; if (p < 0) { want = int(names.size()); names.push_back(n); m.push_back(want); if (!real) break; P x = r->get(n); v.push_back(x); CHECK(x && low(nameOf(*x)) == low(n), "name of the created element"); } else { want = m[p]; if (real) CHECK(r->get(n) == v[want], "get " + n + " returned another element than the first of this name"); } return; }
			case 11: fails = true; f = [&] { r->insBp(m.size(), v[1]); }; break;
			case 12: fails = true; f = [&] { r->insAp(m.size(), v[1]); }; break;
			case 13: fails = true; f = [&] { r->remP(m.size()); }; break;
			case 10: { L k; for (int x : m) if (low(names[x]) != low(r->lookups[o.a])) k.push_back(x); m = k; f = [&] { r->clearName(r->lookups[o.a]); }; break; }
		}
		if (!real || !f) return;
		bool threw = false; try { f(); } catch (const mc::Violated&) { throw; } catch (const std::exception&) { threw = true; }
		if (threw != fails) throw mc::Violated(o.name + (threw ? ": exception" : ": no exception for an absent element"));
	}
	S key() const { S k; for (int x : m) k += x > 2 ? "c" + low(names[x]) : str(x); return k; }
	void check() {
		auto want = [&](const char* what, std::vector <const component*> got, size_t skip = 0) { CHECK(got.size() == m.size() + skip, S(what) + ": size " + str(got.size()) + ", expected " + str(m.size())); for (size_t i = 0 ; i < m.size() ; ++i) CHECK(got[i + skip] == r->objs[m[i]].get(), S(what) + ": wrong element at " + str(i)); };
		CHECK(r->count() == m.size(), "count " + str(r->count()) + ", expected " + str(m.size())); CHECK(r->empty() == m.empty(), "isEmpty");
		for (size_t i = 0 ; i < m.size() ; ++i) CHECK(r->at(i) == r->objs[m[i]].get() && r->cat(i) == r->objs[m[i]].get(), "element at " + str(i));
		want("list", r->list()); want("const list", r->clist()); want("children", r->children(), r->childSkip);
		for (auto& n : r->lookups) { int p = findName(n); P x = r->find(n); CHECK(p < 0 ? !x : x == r->objs[m[p]], "find " + n); CHECK(r->has(n) == (p >= 0), "has " + n); if (r->findAll) { auto all = r->findAll(n); size_t k = 0; for (int q : m) if (low(names[q]) == low(n)) { CHECK(k < all.size() && all[k] == r->objs[q], "findAll " + n); ++k; } CHECK(k == all.size(), "findAll " + n); } }
		if (r->extra) r->extra(m, *r);
		CHECK(r->count() == m.size(), "count changed by lookups");
	}
};
template <class V> static std::vector <const component*> ptrs(const V& v) { std::vector <const component*> o; for (auto& x : v) o.push_back(x.get()); return o; }
#define COMMON(C, ONE, LIST) o->append = [c](P x) { c->append##ONE(x); }; o->insBp = [c](size_t p, P x) { c->insert##ONE##Before(p, x); }; o->insAp = [c](size_t p, P x) { c->insert##ONE##After(p, x); }; o->remP = [c](size_t p) { c->remove##ONE(p); }; \
	o->count = [c] { return c->get##ONE##Count(); }; o->empty = [c] { return c->isEmpty(); }; o->at = [c](size_t p) { return (const E*) c->get##ONE##At(p).get(); }; o->cat = [c](size_t p) { return shared_ptr <const C>(c)->get##ONE##At(p).get(); }; o->list = [c] { return ptrs(c->get##LIST()); }; o->clist = [c] { return ptrs(shared_ptr <const C>(c)->get##LIST()); }; o->children = [c] { return ptrs(c->getChildComponents()); };
#define BYOBJ(ONE) o->insBo = [c](P a, P x) { c->insert##ONE##Before(a, x); }; o->insAo = [c](P a, P x) { c->insert##ONE##After(a, x); }; o->remO = [c](P x) { c->remove##ONE(x); };
template <class E, class F> static void run(mc::Run& R, const S& name, F fill) {
	auto mk = [fill](bool real) { auto o = std::make_shared <Ops <E> >(); fill(o, real); return o; };
	const size_t len = 3;
	mc::lts(R, name, [&](bool real) { return std::make_unique <ListSys <E> >(mk, real, len); }, R.thorough ? 3 : 2);
}

// ---- parts: several bodies, parents, moves between bodies
struct PartSys {
	struct Op { S name; int kind, c, a, b; };
	bool real; std::vector <Op> ops; std::vector <L> m{3}; bool gone = false;   // containers: 0, 1: two messages; 2: the body of part 0
	std::vector <shared_ptr <bodyPart> > parts; std::vector <shared_ptr <message> > msgs;
	PartSys(bool r) : real(r) {
		for (int c = 0 ; c < 3 ; ++c) { const S w = " in " + str(c);
			for (int i = 0 ; i < 3 ; ++i) { ops.push_back({"append " + str(i) + w, 0, c, i, 0}); ops.push_back({"remove " + str(i) + w, 5, c, i, 0}); ops.push_back({"remove #" + str(i) + w, 6, c, i, 0});
				for (int k = 0 ; k < 3 ; ++k) { ops.push_back({"insert " + str(i) + " before " + str(k) + w, 1, c, k, i}); ops.push_back({"insert " + str(i) + " after " + str(k) + w, 2, c, k, i}); ops.push_back({"insert " + str(i) + " before #" + str(k) + w, 3, c, k, i}); ops.push_back({"insert " + str(i) + " after #" + str(k) + w, 4, c, k, i}); } }
			ops.push_back({"clear" + w, 7, c, 0, 0}); }
		ops.push_back({"destroy message 1", 8, 1, 0, 0}); ops.push_back({"new body for part 0", 9, 2, 0, 0});
		if (real) { for (int i = 0 ; i < 3 ; ++i) { parts.push_back(make_shared <bodyPart>()); parts[i]->getHeader()->Subject()->setValue(text(str(i))); } msgs = {make_shared <message>(), make_shared <message>()}; }
	}
	size_t opCount() const { return ops.size(); }
	S opName(size_t i) const { return ops[i].name; }
	int where(int p) const { for (int c = 0 ; c < 3 ; ++c) if (std::find(m[c].begin(), m[c].end(), p) != m[c].end()) return c; return -1; }
	bool enabled(size_t i) const {
		const Op& o = ops[i]; if (o.c == 1 && gone) return false;
		const int p = o.kind == 0 ? o.a : o.b;
		if (o.kind <= 4 && o.c == 2 && p == 0) return false;   // a part within itself
		if ((o.kind == 3 || o.kind == 4 || o.kind == 6) && o.a >= int(m[o.c].size())) return false;
		return true;
	}
	body& B(int c) { return c == 2 ? *parts[0]->getBody() : *msgs[c]->getBody(); }
	void take(int p) { int c = where(p); if (c >= 0) m[c].erase(std::find(m[c].begin(), m[c].end(), p)); }
	void step(size_t i) {
		const Op& o = ops[i]; L& l = m[o.c]; bool fails = false; std::function <void()> f;
		switch (o.kind) {
			case 0: take(o.a); l.push_back(o.a); f = [&] { B(o.c).appendPart(parts[o.a]); }; break;
			case 1: case 2: { if (where(o.a) != o.c) fails = true; else if (o.a != o.b) { take(o.b); l.insert(std::find(l.begin(), l.end(), o.a) + (o.kind == 2), o.b); } f = [&] { o.kind == 1 ? B(o.c).insertPartBefore(parts[o.a], parts[o.b]) : B(o.c).insertPartAfter(parts[o.a], parts[o.b]); }; break; }
			case 3: case 4: { const int anchor = l[o.a]; if (anchor != o.b) { take(o.b); l.insert(std::find(l.begin(), l.end(), anchor) + (o.kind == 4), o.b); } f = [&] { o.kind == 3 ? B(o.c).insertPartBefore(size_t(o.a), parts[o.b]) : B(o.c).insertPartAfter(size_t(o.a), parts[o.b]); }; break; }
			case 5: if (where(o.a) != o.c) fails = true; else take(o.a); f = [&] { B(o.c).removePart(parts[o.a]); }; break;
			case 6: l.erase(l.begin() + o.a); f = [&] { B(o.c).removePart(size_t(o.a)); }; break;
			case 7: l.clear(); f = [&] { B(o.c).removeAllParts(); }; break;
			case 8: l.clear(); gone = true; f = [&] { msgs[1].reset(); }; break;
			case 9: l.clear(); f = [&] { parts[0]->setBody(make_shared <body>()); }; break;
		}
		if (!real) return;
		bool threw = false; try { f(); } catch (const std::exception&) { threw = true; }
		if (threw != fails) throw mc::Violated(o.name + (threw ? ": exception" : ": no exception for an absent part"));
	}
	S key() const { S k = gone ? "g" : ""; for (auto& l : m) { for (int x : l) k += str(x); k += "/"; } return k; }
	void check() {
		for (int c = 0 ; c < 3 ; ++c) { if (c == 1 && gone) continue; body& b = B(c); const body& cb = b; const S w = "body " + str(c) + ": ";
			CHECK(b.getPartCount() == m[c].size(), w + "count " + str(b.getPartCount()) + ", expected " + str(m[c].size())); CHECK(b.isEmpty() == m[c].empty(), w + "isEmpty");
			for (size_t i = 0 ; i < m[c].size() ; ++i) { auto& p = parts[m[c][i]]; CHECK(b.getPartAt(i) == p && cb.getPartAt(i) == p && b.getPartList()[i] == p && cb.getPartList()[i] == p && b.getChildComponents()[i] == p, w + "part at " + str(i)); }
			CHECK(b.getPartList().size() == m[c].size() && cb.getPartList().size() == m[c].size(), w + "list"); }
		for (int p = 0 ; p < 3 ; ++p) { const int c = where(p); bodyPart* want = c < 0 ? nullptr : c == 2 ? parts[0].get() : static_cast <bodyPart*>(msgs[c].get()); CHECK(parts[p]->getParentPart() == want, "parent of part " + str(p)); }
		if (!m[0].empty()) { const S g = msgs[0]->generate(); message q; q.parse(g); CHECK(q.getBody()->getPartCount() == m[0].size(), "parts of the generated message"); for (size_t i = 0 ; i < m[0].size() ; ++i) CHECK(q.getBody()->getPartAt(i)->getHeader()->Subject()->getValue <text>()->getWholeBuffer() == str(m[0][i]), "part " + str(i) + " of the generated message"); }
	}
};

void mc_main(mc::Run& R) {
	initPlatform();
	R.property = "C18"; R.level = "model_checking";
	R.rule = "explicit-state exploration: for every collection kind, all lists of up to 3 elements over 3 objects (duplicates allowed; plus objects created by lookups), every state reached on the real object and every sequence of 2 (thorough: 3) further operations applied to it; after each, count, positions, both list views, children and lookups by name (two names differing in case only, one absent) against the model list. Parts: all arrangements of 3 parts over two messages and the body of one of the parts, every operation from every arrangement (thorough: every pair), with parents, re-adding, destruction of a message and the parsed generated message";
	R.assumptions = {"positions given to operations are valid", "a part is not put into its own descendants"};
	run <headerField>(R, "header", [](auto o, bool) { typedef headerField E; typedef shared_ptr <E> P; auto c = make_shared <header>(); o->names = {"X-A", "x-a", "X-B"}; o->lookups = {"X-A", "x-b", "X-C"}; for (auto& n : o->names) o->objs.push_back(headerFieldFactory::getInstance()->create(n)); COMMON(header, Field, FieldList) BYOBJ(Field)
		o->replace = [c](P a, P b) { c->replaceField(a, b); }; o->clear = [c] { c->removeAllFields(); }; o->get = [c](S n) { return c->getField(n); }; o->find = [c](S n) { return c->findField(n); }; o->has = [c](S n) { return c->hasField(n); }; o->findAll = [c](S n) { return c->findAllFields(n); }; o->clearName = [c](S n) { c->removeAllFields(n); };
		o->extra = [c](const L& m, auto& r) { S want; for (int x : m) want += r.objs[x]->generate() + "\r\n"; if (c->generate() != want) throw mc::Violated("generated header: '" + esc(c->generate()) + "', expected '" + esc(want) + "'"); }; });
	run <parameter>(R, "parameters", [](auto o, bool) { typedef parameter E; typedef shared_ptr <E> P; auto c = dynamicCast <contentTypeField>(headerFieldFactory::getInstance()->create("Content-Type")); o->names = {"pa", "PA", "pb"}; o->lookups = {"pA", "Pb", "pc"}; for (auto& n : o->names) o->objs.push_back(make_shared <parameter>(n, "v")); COMMON(parameterizedHeaderField, Parameter, ParameterList) BYOBJ(Parameter) o->childSkip = 1; o->checkedIns = true;
		o->clear = [c] { c->removeAllParameters(); }; o->get = [c](S n) { return c->getParameter(n); }; o->find = [c](S n) { return c->findParameter(n); }; o->has = [c](S n) { return c->hasParameter(n); }; });
	auto mbs = [](auto& v) { for (const char* n : {"a@x", "b@x", "c@x"}) v.push_back(make_shared <mailbox>(emailAddress(n))); };
	run <address>(R, "addressList", [](auto o, bool) { typedef address E; typedef shared_ptr <E> P; auto c = make_shared <addressList>(); auto g = make_shared <mailboxGroup>(text("G")); g->appendMailbox(make_shared <mailbox>(emailAddress("g@x"))); g->appendMailbox(make_shared <mailbox>(emailAddress("h@x"))); o->objs = {make_shared <mailbox>(emailAddress("a@x")), g, make_shared <mailbox>(emailAddress("c@x"))}; COMMON(addressList, Address, AddressList) BYOBJ(Address) o->checkedIns = o->checkedRem = true; o->clear = [c] { c->removeAllAddresses(); };
		o->extra = [c](const L& m, auto&) { S want, got; for (int x : m) want += x == 0 ? "a@x " : x == 1 ? "g@x h@x " : "c@x "; auto l = c->toMailboxList(); for (auto& b : l->getMailboxList()) got += b->getEmail().toString() + " "; if (want != got) throw mc::Violated("toMailboxList: '" + got + "', expected '" + want + "'"); }; });
	run <mailbox>(R, "mailboxList", [&](auto o, bool) { typedef mailbox E; typedef shared_ptr <E> P; auto c = make_shared <mailboxList>(); mbs(o->objs); COMMON(mailboxList, Mailbox, MailboxList) BYOBJ(Mailbox) o->checkedIns = o->checkedRem = true; o->clear = [c] { c->removeAllMailboxes(); };
		o->extra = [c](const L& m, auto& r) { auto l = c->toAddressList(); CHECK(l->getAddressCount() == m.size(), "toAddressList"); for (size_t i = 0 ; i < m.size() ; ++i) CHECK(dynamicCast <mailbox>(l->getAddressAt(i))->getEmail() == r.objs[m[i]]->getEmail() && l->getAddressAt(i) != r.objs[m[i]], "toAddressList element"); }; });
	run <mailbox>(R, "mailboxGroup", [&](auto o, bool) { typedef mailbox E; typedef shared_ptr <E> P; auto c = make_shared <mailboxGroup>(text("G")); mbs(o->objs); COMMON(mailboxGroup, Mailbox, MailboxList) BYOBJ(Mailbox) o->checkedIns = o->checkedRem = true; o->clear = [c] { c->removeAllMailboxes(); }; o->empty = [c] { return c->getMailboxCount() == 0; }; });
	run <word>(R, "text", [](auto o, bool) { typedef word E; typedef shared_ptr <E> P; auto c = make_shared <text>(); for (const char* n : {"a", "b", "c"}) o->objs.push_back(make_shared <word>(n)); COMMON(text, Word, WordList) o->clear = [c] { c->removeAllWords(); }; o->extra = [c](const L& m, auto& r) { S want; for (int x : m) want += r.objs[x]->getBuffer(); CHECK(c->getWholeBuffer() == want, "getWholeBuffer"); }; });
	run <messageId>(R, "messageIds", [](auto o, bool) { typedef messageId E; typedef shared_ptr <E> P; auto c = make_shared <messageIdSequence>(); for (const char* n : {"a", "b", "c"}) o->objs.push_back(make_shared <messageId>(n, "x")); COMMON(messageIdSequence, MessageId, MessageIdList) BYOBJ(MessageId) o->clear = [c] { c->removeAllMessageIds(); }; });
	mc::lts(R, "parts", [&](bool real) { return std::make_unique <PartSys>(real); }, R.thorough ? 2 : 1);
	// an address list made of a mailbox list
	for (size_t n = 0 ; n < 4 ; ++n) for (size_t had = 0 ; had < 3 ; ++had) R.test("addressList = mailboxList|" + str(n) + " over " + str(had), [&] {
		mailboxList m; for (size_t i = 0 ; i < n ; ++i) m.appendMailbox(make_shared <mailbox>(text("N" + str(i)), emailAddress("u" + str(i) + "@example.com")));
		addressList a; for (size_t i = 0 ; i < had ; ++i) if (i) a.appendAddress(make_shared <mailboxGroup>(text("G"))); else a.appendAddress(make_shared <mailbox>(emailAddress("old@example.com")));
		const S want = m.generate(); a = m; R.outcome(want); CHECK(a.getAddressCount() == n, "addresses"); R.equal(a.generate(), want, "address list");
		for (size_t i = 0 ; i < n ; ++i) { CHECK(!a.getAddressAt(i)->isGroup() && a.getAddressAt(i) != m.getMailboxAt(i), "address " + str(i) + " is shared"); m.getMailboxAt(i)->setEmail(emailAddress("x@example.com")); } R.equal(a.generate(), want, "address list, once the mailboxes have changed");
	});
}
