// An in-memory file system below the POSIX calls: while vfs::on is set, every path based call
// of the process works on vfs::fs instead of the real file system (nothing real can be
// reached), is numbered and recorded, and can be made to fail. Used with the library's own
// posixFile layer. Include it in exactly one translation unit (the harness).
#pragma once
#include "mc.hpp"
#include <memory>
#include <functional>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>

namespace vfs {
typedef std::string S;

struct Inode { bool dir = false; S data, durable; uint64_t seq = 0; S link; };   // link: target of a symbolic link
typedef std::shared_ptr <Inode> IP;

struct FS {
	std::map <S, IP> m;                       // absolute path (no trailing '/') -> inode; "" is the root
	FS() { m[""] = std::make_shared <Inode>(); m[""]->dir = true; }
	/** A copy. lost: what was not written to the disk: 0 all survives, 1 nothing does, 2 half of it does */
	FS clone(int lost = 0) const {
		FS c; std::map <Inode*, IP> seen;
		for (auto& e : m) {
			IP& n = seen[e.second.get()];
			if (!n) {
				n = std::make_shared <Inode>(*e.second);
				if (!n->dir && n->data != n->durable) {
					if (lost == 1) n->data = n->durable;
					else if (lost == 2) n->data = n->data.substr(0, (n->data.size() + n->durable.size()) / 2);
				}
				n->durable = n->data;
			}
			c.m[e.first] = n;
		}
		return c;
	}
	S dump() const { S s; for (auto& e : m) s += e.first + (e.second->dir ? "/\n" : " [" + mc::esc(e.second->data, 60) + "]\n"); return s; }
};

struct Fd { IP ino; size_t pos; int flags; S path; };
struct Dir { std::vector <S> names; size_t pos = 0; struct dirent ent; };
struct Call { S name, path, path2; };

inline thread_local bool on = false;
inline FS fs;
inline uint64_t nextSeq = 1;
inline std::map <int, Fd> fds;
inline std::set <Dir*> dirs;
inline std::vector <Call> log;
inline bool links = false;                    // there may be symbolic links
inline bool reversed = false;                 // order of directory enumeration
// faults: asked for each call (numbered from reset()); > 0: it fails with that error; < 0: a read or
// write takes at most that many bytes; HALF: half of them
inline size_t calls = 0, faults = 0; inline std::function <int(const Call&, size_t)> fault;
enum { HALF = -1000000 }; inline int limit = 0;
inline std::function <void(const Call&)> before;  // called before each call that changes something
inline std::function <void(const Call&)> each;    // called before each call, the simulation being active

struct On { bool o; On() : o(on) { on = true; } ~On() { on = o; } };
struct Off { bool o; Off() : o(on) { on = false; } ~Off() { on = o; } };

inline void reset() { calls = faults = 0; fault = nullptr; log.clear(); before = each = nullptr; }

/** whether a path is absolute and in its normal form already */
inline bool plain(const S& p) {
	if (p.size() < 2 || p[0] != '/' || p.back() == '/') return false;
	for (size_t i = 0 ; (i = p.find('/', i)) != S::npos ; ++i) if (p[i + 1] == '/' || (p[i + 1] == '.' && (i + 2 == p.size() || p[i + 2] == '/' || (p[i + 2] == '.' && (i + 3 == p.size() || p[i + 3] == '/'))))) return false;
	return true;
}
inline S norm(const S& p) {
	if (plain(p)) return p;
	std::vector <S> v; size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i); if (j == S::npos) j = p.size();
		const S c = p.substr(i, j - i); i = j + 1;
		if (c.empty() || c == ".") continue;
		if (c == "..") { if (!v.empty()) v.pop_back(); continue; }
		v.push_back(c);
	}
	S r; for (auto& c : v) r += "/" + c;
	return r;
}
inline S parentOf(const S& p) { return p.substr(0, p.rfind('/')); }
/** follows the symbolic links in a normal path (in its last component too, if 'last') */
inline S follow(S p, bool last) {
	for (int turn = 0 ; turn < 8 ; ++turn) {
		bool again = false;
		for (size_t i = 1 ; !again ; ++i) {
			i = p.find('/', i); const bool end = i == S::npos; if (end && !last) break;
			auto it = fs.m.find(end ? p : p.substr(0, i));
			if (it != fs.m.end() && !it->second->link.empty()) { p = norm(it->second->link + (end ? S() : p.substr(i))); again = true; }
			if (end) break;
		}
		if (!again) return p;
	}
	return "/loop/";
}
/** resolves a path: 0 and its inode, or an errno */
inline int find(const S& raw0, S& p, IP& out, bool last = true) {
	const S raw = links ? follow(norm(raw0), last) + (raw0.size() > 2 && raw0.compare(raw0.size() - 2, 2, "/.") == 0 ? "/." : "") : raw0;
	p = norm(raw); out.reset();
	if (p == raw) { auto it = fs.m.find(p); if (it != fs.m.end()) { out = it->second; return 0; } }  // with all the directories on the way
	if (p.size() > 4000) return ENAMETOOLONG;
	for (size_t i = 1 ; i < p.size() ; ) { size_t j = p.find('/', i); if (j == S::npos) j = p.size(); if (j - i > 255) return ENAMETOOLONG; i = j + 1; }
	// every directory on the way must exist (also those left again by "..")
	S pre; size_t i = 0;
	while (i < raw.size()) {
		size_t j = raw.find('/', i); if (j == S::npos) break;
		pre = norm(raw.substr(0, j)); auto it = fs.m.find(pre);
		if (it == fs.m.end()) return ENOENT;
		if (!it->second->dir) return ENOTDIR;
		i = j + 1;
	}
	auto it = fs.m.find(p); if (it == fs.m.end()) return ENOENT;
	out = it->second; return 0;
}
/** numbers and records a call; true when it has to fail */
inline bool enter(const char* name, const S& path, const S& path2, bool mutates) {
	Call c{name, path, path2};
	if (mutates && before) { Off o; before(c); }
	if (each) each(c);
	log.push_back(c);
	const size_t n = calls++; limit = 0;
	if (fault) { const int r = fault(c, n); if (r) ++faults; if (r > 0) { errno = r; return true; } limit = r; }
	return false;
}
inline size_t cut(size_t k) { const int l = limit; limit = 0; return !l || k < 2 ? k : l == HALF ? k / 2 : std::min(k, size_t(-l)); }
inline void put(const S& path, const S& data) { S p = norm(path); for (size_t i = 1 ; (i = p.find('/', i)) != S::npos ; ++i) { IP& d = fs.m[p.substr(0, i)]; if (!d) { d = std::make_shared <Inode>(); d->dir = true; d->seq = nextSeq++; } } IP n = std::make_shared <Inode>(); n->data = n->durable = data; n->seq = nextSeq++; fs.m[p] = n; }
inline void symlink(const S& path, const S& target) { put(path, ""); fs.m[norm(path)]->link = target; links = true; }
inline void mkdirs(const S& path) { S p = norm(path) + "/"; for (size_t i = 1 ; (i = p.find('/', i)) != S::npos ; ++i) { IP& d = fs.m[p.substr(0, i)]; if (!d) { d = std::make_shared <Inode>(); d->dir = true; d->seq = nextSeq++; } } }
inline std::vector <S> list(const S& path) {
	std::vector <std::pair <uint64_t, S> > v; const S p = norm(path) + "/";
	for (auto it = fs.m.lower_bound(p) ; it != fs.m.end() && it->first.compare(0, p.size(), p) == 0 ; ++it)
		if (it->first.size() > p.size() && it->first.find('/', p.size()) == S::npos) v.push_back({it->second->seq, it->first.substr(p.size())});
	std::sort(v.begin(), v.end()); if (reversed) std::reverse(v.begin(), v.end());
	std::vector <S> r; for (auto& e : v) r.push_back(e.second); return r;
}
inline void fill(struct stat* b, const IP& n) { memset(b, 0, sizeof *b); b->st_mode = n->dir ? (S_IFDIR | 0750) : !n->link.empty() ? (S_IFLNK | 0777) : (S_IFREG | 0660); b->st_size = n->data.size(); b->st_nlink = 1; b->st_ino = n->seq; }
template <class T> T real(const char* n) { static std::map <S, void*> c; void*& p = c[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (T) p; }
inline int doRename(const S& a, const S& b) {
	S p, q, t; IP n, o; int e;
	if ((e = find(a, p, n, false))) { errno = e; return -1; }
	e = find(b, q, o, false); if (e && e != ENOENT) { errno = e; return -1; }
	IP d; if (e == ENOENT && (e = find(parentOf(q) + "/.", t, d))) { errno = e; return -1; }
	if (p == q) return 0;
	if (n->dir && q.compare(0, p.size() + 1, p + "/") == 0) { errno = EINVAL; return -1; }
	if (o) { if (n->dir != o->dir) { errno = n->dir ? ENOTDIR : EISDIR; return -1; } if (o == n) return 0; if (o->dir && !list(q).empty()) { errno = ENOTEMPTY; return -1; } fs.m.erase(q); }
	std::map <S, IP> mv; for (auto it = fs.m.begin() ; it != fs.m.end() ; ) { if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0) { mv[q + it->first.substr(p.size())] = it->second; it = fs.m.erase(it); } else ++it; }
	for (auto& e : mv) fs.m[e.first] = e.second;
	return 0;
}
inline int doUnlink(const S& a, bool dir) {
	S p; IP n; int e; if ((e = find(a, p, n, false))) { errno = e; return -1; }
	if (n->dir != dir) { errno = dir ? ENOTDIR : EISDIR; return -1; }
	if (dir && !list(p).empty()) { errno = ENOTEMPTY; return -1; }
	fs.m.erase(p); return 0;
}
inline int doOpen(const S& a, int flags) {
	if (enter("open", a, (flags & O_CREAT) ? "create" : (flags & O_ACCMODE) == O_RDONLY ? "read" : "write", flags & (O_CREAT | O_TRUNC))) return -1;
	S p; IP n; int e = find(a, p, n);
	if (e == ENOENT && (flags & O_CREAT)) {
		S t; IP d; if ((e = find(parentOf(p) + "/.", t, d))) { errno = e; return -1; }
		n = std::make_shared <Inode>(); n->seq = nextSeq++; fs.m[p] = n;
	} else if (e) { errno = e; return -1; }
	else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (n->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
	if (flags & O_TRUNC) n->data.clear();
	int fd = 1 << 20; while (fds.count(fd)) ++fd;
	fds[fd] = Fd{n, 0, flags, p}; return fd;
}
inline int doStat(const char* p, struct stat* b, bool last = true) { S q; IP n; int e; if (enter("stat", p, "", false)) return -1; if ((e = find(p, q, n, last))) { errno = e; return -1; } fill(b, n); return 0; }
} // vfs

extern "C" {
#define VFD(fd) (vfs::fds.find(fd))
int open(const char* p, int flags, ...) {
	mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
	if (!vfs::on) return vfs::real <int(*)(const char*, int, mode_t)>("open")(p, flags, m);
	return vfs::doOpen(p, flags);
}
int creat(const char* p, mode_t m) { if (!vfs::on) return vfs::real <int(*)(const char*, mode_t)>("creat")(p, m); return vfs::doOpen(p, O_CREAT | O_WRONLY | O_TRUNC); }
int close(int fd) {
	auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <int(*)(int)>("close")(fd);
	const bool f = vfs::enter("close", it->second.path, "", false); vfs::fds.erase(it); return f ? -1 : 0;
}
ssize_t read(int fd, void* b, size_t n) {
	auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <ssize_t(*)(int, void*, size_t)>("read")(fd, b, n);
	vfs::Fd& f = it->second; if (vfs::enter("read", f.path, "", false)) return -1;
	size_t k = f.pos >= f.ino->data.size() ? 0 : std::min(n, f.ino->data.size() - f.pos);
	k = vfs::cut(k);
	memcpy(b, f.ino->data.data() + f.pos, k); f.pos += k; return k;
}
ssize_t write(int fd, const void* b, size_t n) {
	auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <ssize_t(*)(int, const void*, size_t)>("write")(fd, b, n);
	vfs::Fd& f = it->second; if (vfs::enter("write", f.path, "", true)) return -1;
	n = vfs::cut(n);
	if (f.flags & O_APPEND) f.pos = f.ino->data.size();
	S& d = f.ino->data; if (d.size() < f.pos + n) d.resize(f.pos + n); memcpy(&d[0] + f.pos, b, n); f.pos += n; return n;
}
static int vfs_sync(int fd, const char* name) {
	auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <int(*)(int)>(name)(fd);
	if (vfs::enter("fsync", it->second.path, "", true)) return -1;
	it->second.ino->durable = it->second.ino->data; return 0;
}
int fsync(int fd) { return vfs_sync(fd, "fsync"); }
int fdatasync(int fd) { return vfs_sync(fd, "fdatasync"); }
off_t lseek(int fd, off_t o, int w) noexcept {
	auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <off_t(*)(int, off_t, int)>("lseek")(fd, o, w);
	vfs::Fd& f = it->second; if (vfs::enter("lseek", f.path, "", false)) return -1;
	const off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? off_t(f.pos) : off_t(f.ino->data.size());
	if (base + o < 0) { errno = EINVAL; return -1; }
	return f.pos = base + o;
}
int stat(const char* p, struct stat* b) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*, struct stat*)>("stat")(p, b); return vfs::doStat(p, b); }
int lstat(const char* p, struct stat* b) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*, struct stat*)>("lstat")(p, b); return vfs::doStat(p, b, false); }
int fstat(int fd, struct stat* b) noexcept { auto it = VFD(fd); if (it == vfs::fds.end()) return vfs::real <int(*)(int, struct stat*)>("fstat")(fd, b); if (vfs::enter("stat", it->second.path, "", false)) return -1; vfs::fill(b, it->second.ino); return 0; }
int access(const char* p, int m) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*, int)>("access")(p, m); S q; vfs::IP n; int e; if (vfs::enter("access", p, "", false)) return -1; if ((e = vfs::find(p, q, n))) { errno = e; return -1; } return 0; }
int rename(const char* a, const char* b) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*, const char*)>("rename")(a, b); if (vfs::enter("rename", a, b, true)) return -1; return vfs::doRename(a, b); }
int link(const char* a, const char* b) noexcept {
	if (!vfs::on) return vfs::real <int(*)(const char*, const char*)>("link")(a, b);
	if (vfs::enter("link", a, b, true)) return -1;
	S p, q, t; vfs::IP n, o, d; int e; if ((e = vfs::find(a, p, n))) { errno = e; return -1; }
	if (!(e = vfs::find(b, q, o))) { errno = EEXIST; return -1; } if (e != ENOENT || (e = vfs::find(vfs::parentOf(q) + "/.", t, d))) { errno = e; return -1; }
	if (n->dir) { errno = EPERM; return -1; }
	vfs::fs.m[q] = n; return 0;
}
int mkdir(const char* p, mode_t m) noexcept {
	if (!vfs::on) return vfs::real <int(*)(const char*, mode_t)>("mkdir")(p, m);
	if (vfs::enter("mkdir", p, "", true)) return -1;
	S q, t; vfs::IP n, d; int e = vfs::find(p, q, n); if (!e) { errno = EEXIST; return -1; } if (e != ENOENT || (e = vfs::find(vfs::parentOf(q) + "/.", t, d))) { errno = e; return -1; }
	n = std::make_shared <vfs::Inode>(); n->dir = true; n->seq = vfs::nextSeq++; vfs::fs.m[q] = n; return 0;
}
int rmdir(const char* p) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*)>("rmdir")(p); if (vfs::enter("rmdir", p, "", true)) return -1; return vfs::doUnlink(p, true); }
int unlink(const char* p) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*)>("unlink")(p); if (vfs::enter("unlink", p, "", true)) return -1; return vfs::doUnlink(p, false); }
int remove(const char* p) noexcept { if (!vfs::on) return vfs::real <int(*)(const char*)>("remove")(p); if (vfs::enter("unlink", p, "", true)) return -1; S q; vfs::IP n; return vfs::doUnlink(p, !vfs::find(p, q, n, false) && n->dir); }
DIR* opendir(const char* p) {
	if (!vfs::on) return vfs::real <DIR*(*)(const char*)>("opendir")(p);
	if (vfs::enter("opendir", p, "", false)) return NULL;
	S q; vfs::IP n; int e; if ((e = vfs::find(p, q, n))) { errno = e; return NULL; } if (!n->dir) { errno = ENOTDIR; return NULL; }
	vfs::Dir* d = new vfs::Dir; d->names = vfs::list(q); d->names.insert(d->names.begin(), {".", ".."}); vfs::dirs.insert(d); return (DIR*) d;
}
struct dirent* readdir(DIR* dp) {
	vfs::Dir* d = (vfs::Dir*) dp; if (!vfs::dirs.count(d)) return vfs::real <struct dirent*(*)(DIR*)>("readdir")(dp);
	if (vfs::enter("readdir", "", "", false)) return NULL;
	if (d->pos >= d->names.size()) return NULL;
	memset(&d->ent, 0, sizeof d->ent); d->ent.d_ino = 1 + d->pos; strncpy(d->ent.d_name, d->names[d->pos].c_str(), sizeof d->ent.d_name - 1); ++d->pos; return &d->ent;
}
int closedir(DIR* dp) {
	vfs::Dir* d = (vfs::Dir*) dp; if (!vfs::dirs.count(d)) return vfs::real <int(*)(DIR*)>("closedir")(dp);
	const bool f = vfs::enter("closedir", "", "", false); vfs::dirs.erase(d); delete d; return f ? -1 : 0;
}
}
