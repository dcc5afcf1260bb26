// C35: network waits always honour the timeout handler.
#include "imapsim.hpp"
#include "mc_main.hpp"
#include "vmime/net/transport.hpp"
#include "vmime/net/defaultTimeoutHandler.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
using namespace vmime; using namespace vmime::net; using imapsim::wantEq;

struct Handler : public platforms::posix::posixHandler { const string getHostName() const { return "client.example"; } };

static SimNet* clockNet = NULL;
extern "C" time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); const time_t r = clockNet ? time_t(1700000000 + clockNet->clock / 1000) : ts.tv_sec; if (t) *t = r; return r; }

// the application's handler: what it answers, and when it was asked
struct Rec { SimNet* net; unsigned long delay; int answers = 0; bool counting = true; int consults = 0, later = 0; S error; unsigned long lastAsk = 0; size_t resumeAfter = size_t(-1); };
struct Th : public timeoutHandler {
	Rec* r; unsigned long start; Th(Rec* x) : r(x), start(x->net->clock) {}
	bool isTimeOut() { return r->net->clock - start >= r->delay; }
	void resetTimeOut() { start = r->net->clock; }
	bool handleTimeOut() {
		SimNet& n = *r->net;
		const unsigned long since = std::max(n.activity, r->lastAsk);
		if (n.clock - start < r->delay && r->error.empty()) r->error = "asked although the time-out had not elapsed";
		if (n.clock - since < r->delay && r->error.empty()) r->error = "asked " + str(n.clock - since) + " ms after " + (r->lastAsk > n.activity ? "it was asked before" : "bytes were exchanged") + ", with a time-out of " + str(r->delay) + " ms";
		if (n.clock - since > r->delay + 31000 && r->error.empty()) r->error = "asked only after " + str(n.clock - since) + " ms, with a time-out of " + str(r->delay) + " ms";
		r->lastAsk = n.clock; if (!r->counting) { ++r->later; return false; }
		++r->consults; if (size_t(r->consults) >= r->resumeAfter) n.stallAt = size_t(-1);
		return r->consults <= r->answers;
	}
};
struct ThFactory : public timeoutHandlerFactory { Rec* r; ThFactory(Rec* x) : r(x) {} shared_ptr <timeoutHandler> create() { return make_shared <Th>(r); } };

// ---- servers
struct SmtpW { int kind = 0; std::vector <S> got; int delivered = 0; };
struct SmtpS : public LineServer {
	SmtpW* w; bool data = false; long bdat = -1; bool last = false; int auth = 0; SmtpS(SmtpW* x) : w(x) {}
	void connected() { reply("220-sim"); reply("220 ESMTP"); }
	bool wantRaw() { return data || bdat >= 0; }
	bool takeRaw() {
		if (data) { const size_t e = buf.find("\r\n.\r\n"); if (e == S::npos) return false; w->got.push_back(buf.substr(0, e + 2)); buf.erase(0, e + 5); data = false; ++w->delivered; reply("250-queued"); reply("250 as 1"); return true; }
		if (buf.size() < size_t(bdat)) return false;
		w->got.push_back(buf.substr(0, bdat)); buf.erase(0, bdat); bdat = -1; if (last) ++w->delivered; reply("250 octets"); return true;
	}
	void line(const S& l) {
		if (auth == 1) { auth = 2; reply("334 UGFzc3dvcmQ6"); return; }
		if (auth == 2) { auth = 0; reply("235 ok"); return; }
		if (l.compare(0, 4, "EHLO") == 0) { if (w->kind == 3) { reply("502 no"); return; } reply("250-sim"); reply("250-AUTH LOGIN"); if (w->kind == 1) reply("250-PIPELINING"); if (w->kind == 2) { reply("250-CHUNKING"); reply("250-PIPELINING"); } reply("250 8BITMIME"); }
		else if (l.compare(0, 4, "BDAT") == 0) { bdat = atol(l.c_str() + 5); last = l.find("LAST") != S::npos; }
		else if (l == "DATA") { data = true; reply("354 go"); }
		else if (l == "AUTH LOGIN") { auth = 1; reply("334 VXNlcm5hbWU6"); }
		else if (l == "QUIT") { reply("221-bye"); reply("221 bye"); closed = true; }
		else reply("250 ok");
	}
};
struct Pop3S : public LineServer {
	std::vector <S> m = {"Subject: a\r\n\r\n.dot\r\nx\r\n", "Subject: b\r\n\r\ny\r\n"};
	void connected() { reply("+OK ready <1@x>"); }
	void line(const S& l) {
		const size_t i = l.size() > 5 ? atoi(l.c_str() + (l[3] == ' ' ? 4 : 5)) - 1 : 0;
		if (l == "CAPA") { reply("+OK"); reply("UIDL"); reply("."); }
		else if (l == "STAT") reply("+OK 2 40");
		else if (l == "LIST") { reply("+OK"); reply("1 26"); reply("2 14"); reply("."); }
		else if (l == "UIDL") { reply("+OK"); reply("1 aa"); reply("2 bb"); reply("."); }
		else if (l.compare(0, 4, "LIST") == 0) reply("+OK " + str(i + 1) + " " + str(m[i].size()));
		else if (l.compare(0, 4, "UIDL") == 0) reply("+OK " + str(i + 1) + " cc");
		else if (l.compare(0, 4, "RETR") == 0) { reply("+OK"); S d = m[i]; size_t p = 0; while (p < d.size()) { size_t e = d.find("\r\n", p); reply((d[p] == '.' ? "." : "") + d.substr(p, e - p)); p = e + 2; } reply("."); }
		else if (l.compare(0, 3, "TOP") == 0) { reply("+OK"); reply("Subject: a"); reply(""); reply("."); }
		else if (l == "QUIT") { reply("+OK bye"); closed = true; }
		else reply("+OK");
	}
};

// ---- sessions: steps of an application; each appends what it learnt to the trace
struct Env {
	SimNet net; Rec rec; bool posix = false, byDefault = false; S trace; bool quitting = false; imapsim::World w; SmtpW smtp; shared_ptr <net::session> ses;
	Env() { rec.net = &net; rec.delay = 60000; }
	void step(const S& n, const std::function <void()>& f) { trace += n + ":"; f(); trace += ";"; }
	template <class St> void setup(St& s) { s->setSocketFactory(make_shared <SimSocketFactory>(&net)); if (!byDefault) s->setTimeoutHandlerFactory(make_shared <ThFactory>(&rec)); }
	void prop(const S& p, bool sasl) { ses = net::session::create(); ses->getProperties()[p + "auth.username"] = S("joe"); ses->getProperties()[p + "auth.password"] = S("secret"); ses->getProperties()[p + "options.sasl"] = sasl; }
	shared_ptr <net::transport> tr; shared_ptr <net::store> st; shared_ptr <net::folder> fo;
	void quit() { quitting = true; try { if (fo && fo->isOpen()) fo->close(false); } catch (std::exception& e) { } if (tr && tr->isConnected()) tr->disconnect(); if (st && st->isConnected()) st->disconnect(); fo.reset(); tr.reset(); st.reset(); }
};
static S msg() { return "Subject: x\r\n\r\nline\r\n.dot\r\n"; }
static void play_smtp(Env& e, int kind, bool auth) {
	e.smtp.kind = kind; e.net.server = [&] { return make_shared <SmtpS>(&e.smtp); }; e.prop("transport.smtp.", false); e.ses->getProperties()["transport.smtp.options.need-authentication"] = auth; e.ses->getProperties()["transport.smtp.options.sasl"] = auth;
	e.tr = e.ses->getTransport(utility::url("smtp://sim.example")); e.setup(e.tr);
	e.step("connect", [&] { e.tr->connect(); });
	for (int k = 0 ; k < 2 ; ++k) e.step("send", [&] { mailboxList to; to.appendMailbox(make_shared <mailbox>("a@x.example")); to.appendMailbox(make_shared <mailbox>("b@x.example")); utility::inputStreamStringAdapter is(msg()); e.tr->send(mailbox("s@x.example"), to, is, msg().size(), NULL); });
	e.step("noop", [&] { e.tr->noop(); });
	e.trace += str(e.smtp.delivered); for (auto& g : e.smtp.got) e.trace += "{" + g + "}";
	e.quitting = true; e.step("quit", [&] { e.tr->disconnect(); });
}
static void play_pop3(Env& e, int kind) {
	e.net.server = [&] { return make_shared <Pop3S>(); }; e.prop("store.pop3.", false); e.ses->getProperties()["store.pop3.options.apop"] = kind == 1;
	e.st = e.ses->getStore(utility::url("pop3://sim.example")); e.setup(e.st);
	e.step("connect", [&] { e.st->connect(); });
	e.fo = e.st->getDefaultFolder();
	e.step("open", [&] { e.fo->open(net::folder::MODE_READ_WRITE); e.trace += str(e.fo->getMessageCount()); });
	std::vector <shared_ptr <net::message> > v;
	e.step("fetch", [&] { v = e.fo->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes::SIZE | fetchAttributes::UID); for (auto& m : v) e.trace += str(m->getSize()) + S(m->getUID()) + ","; });
	e.step("header", [&] { auto m = e.fo->getMessage(1); e.fo->fetchMessage(m, fetchAttributes::FULL_HEADER); e.trace += m->getHeader()->Subject()->generate(); });
	e.step("extract", [&] { for (size_t i = 1 ; i <= 2 ; ++i) { S s; utility::outputStreamStringAdapter os(s); e.fo->getMessage(i)->extract(os); os.flush(); e.trace += s; } });
	e.step("delete", [&] { e.fo->deleteMessages(messageSet::byNumber(1)); });
	e.step("noop", [&] { e.st->noop(); });
	e.quitting = true; e.step("quit", [&] { e.fo->close(false); e.st->disconnect(); });
}
static void play_imap(Env& e, int kind) {
	e.w.box["INBOX"]; e.w.box["Sub/x y"]; e.w.strings = kind; for (int i = 0 ; i < 2 ; ++i) { auto m = e.w.add("INBOX", "Subject: m" + str(i) + "\r\n\r\nbody\r\nmore\r\n"); m->root = std::make_shared <imapsim::MPart>(); m->root->hdr = {"Subject: m" + str(i)}; m->root->type = "text"; m->root->sub = "plain"; m->root->body = "body\r\nmore\r\n"; }
	e.net.server = [&] { return make_shared <imapsim::Conn>(&e.w); }; e.prop("store.imap.", false);
	e.st = e.ses->getStore(utility::url("imap://sim.example")); e.setup(e.st);
	e.step("connect", [&] { e.st->connect(); });
	e.step("list", [&] { for (auto& f : e.st->getRootFolder()->getFolders(true)) e.trace += f->getFullPath().getLastComponent().getBuffer() + ","; });
	e.fo = e.st->getFolder(net::folder::path("INBOX"));
	e.step("open", [&] { e.fo->open(net::folder::MODE_READ_WRITE); e.trace += str(e.fo->getMessageCount()); });
	e.step("status", [&] { auto s = e.st->getFolder(net::folder::path("Sub") / net::folder::path::component("x y"))->getStatus(); e.trace += str(s->getMessageCount()); });
	e.step("fetch", [&] { auto v = e.fo->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes::SIZE | fetchAttributes::UID | fetchAttributes::FLAGS | fetchAttributes::FULL_HEADER | fetchAttributes::STRUCTURE); for (auto& m : v) e.trace += str(m->getSize()) + S(m->getUID()) + m->getHeader()->Subject()->generate() + str(m->getStructure()->getPartCount()) + ","; });
	e.step("extract", [&] { S s; utility::outputStreamStringAdapter os(s); e.fo->getMessage(2)->extract(os); os.flush(); e.trace += s; });
	e.step("parsed", [&] { auto k = e.fo->getMessage(1); auto m = k->getParsedMessage(); e.trace += m->generate(); });
	e.step("append", [&] { utility::inputStreamStringAdapter is(msg()); e.fo->addMessage(is, msg().size(), net::message::FLAG_SEEN); });
	e.step("flags", [&] { e.fo->setMessageFlags(messageSet::byNumber(1), net::message::FLAG_DELETED); e.fo->expunge(); e.trace += str(e.fo->getMessageCount()); });
	e.step("copy", [&] { e.fo->copyMessages(net::folder::path("Sub") / net::folder::path::component("x y"), messageSet::byNumber(1)); });
	e.step("noop", [&] { e.st->noop(); });
	for (auto& m : e.w.box["INBOX"].m) e.trace += "[" + m->data + "]";
	e.quitting = true; e.step("quit", [&] { e.fo->close(false); e.st->disconnect(); });
}
static const char* NAMES[] = {"smtp", "smtp pipelining", "smtp chunking", "smtp helo", "smtp login", "pop3", "pop3 apop", "imap", "imap literals"};
static void play(Env& e, int k) { switch (k) { case 0: case 1: case 2: case 3: play_smtp(e, k, false); break; case 4: play_smtp(e, 0, true); break; case 5: case 6: play_pop3(e, k - 5); break; default: play_imap(e, k - 7); } e.fo.reset(); e.st.reset(); e.tr.reset(); }

void mc_main(mc::Run& R) {
	platform::setHandler <Handler>(); mc::describe = describeVmime; R.property = "C35"; R.level = "model_checking"; const bool T = R.thorough;
	R.rule = "A complete session (connect, authenticate, list, open, fetch, retrieve, send or append, change, disconnect) with a model server that falls silent after each of the bytes it sends in turn, on a simulated clock. Every pattern of answers of the time-out handler is enumerated: it declines at the first, second or third time it is asked, or the server resumes while the handler asks to continue. The handler must be asked once per elapsed period, never earlier; declining must end the operation with operation_timed_out; a late answer must complete the session with the results of an undisturbed one; disconnecting afterwards must end. Also with a server that needs almost the whole time-out for each byte (the handler must not be asked at all), with sockets that consult the handler themselves while waiting and ones that do not, and with the default handler.";
	R.assumptions = {"the clock advances only by waiting for the network", "a socket resets the handler when it receives or sends bytes, as posixSocket does"};
	for (int k = 0 ; k < 9 ; ++k) {
		S ref; size_t total = 0; { Env e; try { play(e, k); } catch (std::exception& x) { fprintf(stderr, "%s: %s\n", e.trace.c_str(), x.what()); throw; } ref = e.trace; total = e.net.total; }
		R.testL([&] { return S(NAMES[k]) + "|undisturbed"; }, [&] { CHECK(total > 100 && ref.find("quit:;") != S::npos, "session: " + ref); R.outcome(ref); });
		for (int posix = 0 ; posix < 2 ; ++posix) {
			for (size_t at = 0 ; at < total ; ++at) {
				R.testL([&] { return S(NAMES[k]) + (posix ? "|waits consult" : "|waits do not consult") + "|silent after " + str(at); }, [&] {
					R.state(S(NAMES[k]) + str(posix) + "," + str(at));
					for (int decline = 0 ; decline < (T ? 4 : 2) ; ++decline) {
						R.transition(); Env e; e.net.posixWaits = posix; e.net.stallAt = at; e.rec.answers = decline; bool timedOut = false; S other;
						try { play(e, k); } catch (exceptions::operation_timed_out&) { timedOut = true; } catch (std::exception& x) { other = mc::describe(x); }
						const S when = "handler declines when asked the " + str(decline + 1) + ". time: ";
						CHECK(!e.net.deadlock, when + "waits for ever without asking");
						CHECK(e.rec.error.empty(), when + e.rec.error);
						CHECK(other.empty(), when + "failed with " + other + " during " + e.trace);
						CHECK(timedOut || e.quitting, when + "no time-out exception; " + e.trace);
						if (!e.quitting) CHECK(e.rec.consults == decline + 1, when + "it was asked " + str(e.rec.consults) + " times");
						else CHECK(e.rec.consults >= decline + 1, when + "it was asked only " + str(e.rec.consults) + " times");
						CHECK(ref.compare(0, e.trace.size(), e.trace) == 0, when + "before failing the session got " + esc(e.trace, 600) + " instead of " + esc(ref, 600));
						R.outcome(S(NAMES[k]) + e.trace);
						e.rec.counting = false; e.quit(); CHECK(!e.net.deadlock, when + "disconnecting waits for ever"); CHECK(e.rec.error.empty(), when + e.rec.error); CHECK(e.rec.later <= 4, when + "asked " + str(e.rec.later) + " times while disconnecting"); R.trace();
					}
					for (int late = 1 ; late <= (T ? 4 : 2) ; ++late) {
						R.transition(); Env e; e.net.posixWaits = posix; e.net.stallAt = at; e.rec.answers = 1000; e.rec.resumeAfter = late; S other;
						try { play(e, k); } catch (std::exception& x) { other = mc::describe(x); }
						const S when = "server resumes after " + str(late) + " time-outs: ";
						CHECK(!e.net.deadlock, when + "waits for ever without asking"); CHECK(e.rec.error.empty(), when + e.rec.error); CHECK(other.empty(), when + "failed with " + other + " during " + e.trace);
						CHECK(e.rec.consults == late, when + "asked " + str(e.rec.consults) + " times"); wantEq(e.trace, ref, when + "session"); R.trace();
					}
					if (!posix || T) {  // the default handler: 30 s
						Env e; e.byDefault = true; e.net.posixWaits = posix; e.net.stallAt = at; clockNet = &e.net; bool timedOut = false; S other;
						try { play(e, k); } catch (exceptions::operation_timed_out&) { timedOut = true; } catch (std::exception& x) { other = mc::describe(x); }
						const unsigned long waited = e.net.clock - e.net.activity; clockNet = NULL;
						CHECK(!e.net.deadlock, "default handler: waits for ever"); CHECK(other.empty(), "default handler: failed with " + other); CHECK(timedOut || e.quitting, "default handler: no time-out exception"); CHECK(e.quitting || (waited >= 29000 && waited <= 62000), "default handler: failed after " + str(waited) + " ms");
						clockNet = &e.net; e.quit(); clockNet = NULL; CHECK(!e.net.deadlock, "default handler: disconnecting waits for ever"); R.trace();
					}
				});
			}
			for (unsigned long d : {1000ul, 29900ul, 45000ul, 59900ul}) R.testL([&] { return S(NAMES[k]) + (posix ? "|waits consult" : "|waits do not consult") + "|" + str(d) + " ms per byte"; }, [&] {
				Env e; e.net.posixWaits = posix; e.net.slow = d; e.rec.answers = 1000; play(e, k); CHECK(!e.net.deadlock, "waits for ever"); CHECK(e.rec.consults == 0, "asked " + str(e.rec.consults) + " times although bytes kept arriving in time"); wantEq(e.trace, ref, "session"); R.trace();
			});
			for (size_t at = 0 ; at < total ; ++at) R.testL([&] { return S(NAMES[k]) + (posix ? "|waits consult" : "|waits do not consult") + "|slow, silent after " + str(at); }, [&] {
				Env e; e.net.posixWaits = posix; e.net.slow = 100; e.net.stallAt = at; e.rec.answers = 1; bool timedOut = false;
				try { play(e, k); } catch (exceptions::operation_timed_out&) { timedOut = true; }
				CHECK(!e.net.deadlock, "waits for ever"); CHECK(e.rec.error.empty(), e.rec.error); CHECK(timedOut || e.quitting, "no time-out exception"); if (!e.quitting) CHECK(e.rec.consults == 2, "asked " + str(e.rec.consults) + " times"); e.rec.counting = false; e.quit(); R.trace();
			});
		}
	}
}
