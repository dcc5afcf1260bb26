// The library's maildir store on the in-memory file system.
#pragma once
#include "mcv.hpp"
#include "posixsim.hpp"
#include "vmime/net/maildir/maildirStore.hpp"
#include "vmime/net/maildir/maildirFolder.hpp"
#include "vmime/net/maildir/maildirMessage.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"

namespace mdsim {
using namespace vmime; using namespace vmime::net;
inline S host = "host-s.t-f";
class Handler : public platforms::posix::posixHandler {
public:
	unsigned long getUnixTime() const { return 1043236113; }
	unsigned int getProcessId() const { return 351; }
	const string getHostName() const { return host; }
	const charset getLocalCharset() const { return charset("UTF-8"); }
	void generateRandomBytes(unsigned char* b, const unsigned int n) { for (unsigned int i = 0 ; i < n ; ++i) b[i] = (unsigned char) (i * 37 + 5); }
};
inline void init() {
	mc::describe = describeVmime; platform::setHandler <Handler>();
	// converters may load data: not from the simulated file system
	for (const char* c : {"UTF-7", "UTF-8", "UTF-16BE", "us-ascii", "iso-8859-1"}) { string o; try { charset::convert("a\xc3\xa9", o, charset("UTF-8"), charset(c)); charset::convert("a+AOk-", o, charset("UTF-7"), charset(c)); } catch (exception&) {} }
	struct stat b; stat("/", &b); if (DIR* d = opendir("/")) { readdir(d); closedir(d); } access("/", 0); int fd = open("/dev/null", O_RDONLY); char c; if (read(fd, &c, 1) < 0) {} lseek(fd, 0, SEEK_CUR); close(fd);
}
static const S ROOT = "/m/s";
struct Box {                                        // a connected store
	shared_ptr <net::session> sess; shared_ptr <net::store> st;
	void connect() {
		vfs::On o; sess = net::session::create(); sess->getProperties()["store.maildir.server.rootpath"] = ROOT;
		st = sess->getStore(utility::url("maildir://localhost" + ROOT)); st->connect();
	}
	void drop() { vfs::On o; st.reset(); sess.reset(); }
	~Box() { drop(); }
	shared_ptr <net::folder> folder(const folder::path& p) { return st->getFolder(p); }
};
inline folder::path P(const S& p) { return folder::path::fromString(p, "/", charset("UTF-8")); }
inline S pathStr(const folder::path& p) { return p.toString("/", charset("UTF-8")); }
/** an empty store in a layout; other files are around it */
inline void fresh(bool courier, const std::vector <S>& folders = {}) {
	vfs::fs = vfs::FS(); vfs::fds.clear(); vfs::nextSeq = 1; vfs::links = false; vfs::reset(); vfs::mkdirs(ROOT);
	for (const char* d : {"/m/cur", "/m/new", "/m/tmp", "/m/other/cur", "/cur", "/new", "/tmp"}) { vfs::mkdirs(d); vfs::put(S(d) + "/1.2.canary:2,", "Subject: canary\r\n\r\nhands off\r\n"); }
	std::vector <S> all = folders; if (courier) all.push_back("z");
	for (auto& f : all) {
		S d = ROOT + "/"; 
		if (courier) { d += "."; for (char c : f) d += c == '/' ? '.' : c; }
		else { S rest = f; for (size_t k ; (k = rest.find('/')) != S::npos ; rest = rest.substr(k + 1)) d += "." + rest.substr(0, k) + ".directory/"; d += rest; }
		for (const char* s : {"/cur", "/new", "/tmp"}) vfs::mkdirs(d + s);
		if (courier) vfs::put(d + "/maildirfolder", "");
	}
}
inline S fsDir(bool courier, const S& f) {
	if (courier) { S d = ROOT + "/."; for (char c : f) d += c == '/' ? '.' : c; return d; }
	S d = ROOT + "/", rest = f; for (size_t k ; (k = rest.find('/')) != S::npos ; rest = rest.substr(k + 1)) d += "." + rest.substr(0, k) + ".directory/"; return d + rest;
}
/** nothing outside the store may be touched */
inline void contained() {
	for (auto& c : vfs::log) for (const S* p : {&c.path, &c.path2}) {
		if (p->empty() || (*p)[0] != '/') continue;
		const S n = vfs::norm(*p); CHECK(n == ROOT || n.compare(0, ROOT.size() + 1, ROOT + "/") == 0, c.name + " reaches " + mc::Run::show(*p) + " outside the store directory");
	}
	size_t canaries = 0; for (auto& e : vfs::fs.m) if (e.first.find(".canary") != S::npos) { ++canaries; CHECK(e.second->data.find("hands off") != S::npos, "a file outside the store was changed"); }
	CHECK(canaries == 7, "a file outside the store was removed");
	vfs::log.clear();
}
struct Seen { S uid, data; int flags; };
inline S bytes(const shared_ptr <net::message>& m, size_t start = 0, size_t len = size_t(-1)) { S d; utility::outputStreamStringAdapter os(d); m->extract(os, NULL, start, len); return d; }
/** what an application sees in an open folder */
inline std::vector <Seen> look(const shared_ptr <net::folder>& f) {
	std::vector <Seen> v; const size_t n = f->getMessageCount(); if (!n) return v;
	auto ms = f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes(fetchAttributes::FLAGS | fetchAttributes::SIZE | fetchAttributes::UID | fetchAttributes::FULL_HEADER));
	CHECK(ms.size() == n, "count is " + str(n) + " but " + str(ms.size()) + " messages are listed");
	for (size_t i = 0 ; i < n ; ++i) {
		CHECK(ms[i]->getNumber() == i + 1, "number of message " + str(i + 1) + " is " + str(ms[i]->getNumber()));
		Seen s{S(ms[i]->getUID()), bytes(ms[i]), ms[i]->getFlags()}; v.push_back(s);
		CHECK(ms[i]->getSize() == s.data.size(), "size is " + str(ms[i]->getSize()) + " but there are " + str(s.data.size()) + " bytes");
		const S subj = ms[i]->getHeader()->Subject()->getValue <text>()->getWholeBuffer();
		CHECK(s.data.compare(0, 9 + subj.size() + 2, "Subject: " + subj + "\r\n") == 0, "header of another message: " + subj);
	}
	return v;
}
inline S msgText(const S& k, size_t extra = 0) { return "Subject: " + k + "\r\n\r\nbody of " + k + "\r\n" + S(extra, 'x'); }
inline S flagStr(int f) { S s; const char* n = "srTRFPD"; for (int i = 0 ; i < 7 ; ++i) if (f >> i & 1) s += n[i]; return s.empty() ? "-" : s; }
}
// ---- what is on the disk, read without the library -------------------------------------------
namespace mdsim {
typedef std::map <std::pair <S, S>, std::multiset <int> > Disk;   // (directory of the folder, contents) -> flags
inline int fileFlags(const S& name) { int r = 0; const size_t k = name.rfind(":2,"); if (k != S::npos) for (char c : name.substr(k + 3)) r |= c == 'S' ? 1 : c == 'R' ? 8 : c == 'T' ? 4 : c == 'F' ? 16 : c == 'P' ? 32 : c == 'D' ? 64 : 0; return r; }
inline S fileId(const S& name) { return name.substr(0, name.rfind(":2,")); }
/** all messages in cur/ and new/ */
inline Disk disk(const vfs::FS& fs, const S& below = ROOT) {
	Disk d; for (auto it = fs.m.lower_bound(below + "/") ; it != fs.m.end() && it->first.compare(0, below.size() + 1, below + "/") == 0 ; ++it) {
		if (it->second->dir) continue; const size_t k = it->first.rfind('/'); if (k < 4) continue;
		const S sub = it->first.substr(k - 4, 4); if (sub != "/cur" && sub != "/new") continue;
		d[{it->first.substr(0, k - 4), it->second->data}].insert(fileFlags(it->first.substr(k + 1)));
	}
	return d;
}
inline S brief(const S& data) { return data.substr(0, data.find('\r')) + " (" + str(data.size()) + " bytes)"; }
inline S show(const Disk& d) { S s; for (auto& e : d) { s += "\n  " + e.first.first + ": " + brief(e.first.second) + ":"; for (int f : e.second) s += " " + flagStr(f); } return s; }
/** the identifiers of the messages in a directory of a folder */
inline std::set <S> ids(const S& dir) { std::set <S> r; for (const char* s : {"/cur", "/new"}) for (auto& n : vfs::list(dir + s)) r.insert(fileId(n)); return r; }
/** the identifiers of the messages an open folder lists */
inline std::set <S> listed(const shared_ptr <net::folder>& f) { std::set <S> r; if (f->getMessageCount()) for (auto& m : f->getAndFetchMessages(messageSet::byNumber(1, size_t(-1)), fetchAttributes(fetchAttributes::UID))) r.insert(S(m->getUID())); return r; }
}
