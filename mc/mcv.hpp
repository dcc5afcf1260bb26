// vmime-specific helpers shared by the harnesses.
#pragma once
#include "mc.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"

using mc::S; using mc::esc; using mc::str;
typedef std::vector <size_t> Cuts;

inline S describeVmime(const std::exception& e) {
	S s = e.what();
	if (auto x = dynamic_cast <const vmime::exceptions::invalid_response*>(&e)) s += " to " + x->command() + ": " + esc(x->response(), 300);
	else if (auto x = dynamic_cast <const vmime::exceptions::command_error*>(&e)) s += " to " + x->command() + ": " + esc(x->response(), 300);
	return s;
}
struct PlatformInit { PlatformInit() { mc::describe = describeVmime; vmime::platform::setHandler <vmime::platforms::posix::posixHandler>(); } };
inline void initPlatform() { static PlatformInit p; }

/** Input stream delivering a string in the given pieces (the partition of its reads); a
  * read never returns more than what is left of the current piece. After the last given
  * piece the remainder is one piece. With lateEof, eof() becomes true only after a read
  * returned 0 (like a file stream); otherwise as soon as the last byte was delivered. */
class ChunkIn : public vmime::utility::seekableInputStream {
public:
	ChunkIn(const S& d, const Cuts& c = Cuts(), bool lateEof = false) : m_d(d), m_c(c), m_late(lateEof) { reset(); }
	bool eof() const { return m_late ? m_sawEnd : m_p >= m_d.size(); }
	void reset() { m_p = 0; m_sawEnd = false; }
	size_t read(vmime::byte_t* const data, const size_t count) {
		++reads;
		if (idle && m_p < m_d.size()) { if (m_idled < idle) { ++m_idled; return 0; } m_idled = 0; }
		if (m_p >= m_d.size()) { m_sawEnd = true; return 0; }
		size_t b = 0, e = m_d.size();
		for (size_t k : m_c) { if (m_p < b + k) { e = std::min(e, b + k); break; } b += k; }
		const size_t n = std::min(count, e - m_p);
		memcpy(data, m_d.data() + m_p, n); m_p += n;
		return n;
	}
	size_t skip(const size_t count) { size_t n = std::min(count, m_d.size() - m_p); m_p += n; return n; }
	size_t getPosition() const { return m_p; }
	void seek(const size_t p) { m_p = std::min(p, m_d.size()); m_sawEnd = false; }
	size_t reads = 0;
	size_t idle = 0;          // how many reads return nothing (nothing has arrived yet) before each piece
protected:
	size_t m_idled = 0; S m_d; Cuts m_c; bool m_late; size_t m_p = 0; bool m_sawEnd = false;
};

/** Collecting output stream; optionally records the sizes of the writes. */
class CollectOut : public vmime::utility::outputStream {
public:
	S data; size_t writes = 0, flushes = 0; bool flushedAtEnd = true;
	void flush() { ++flushes; flushedAtEnd = true; }
protected:
	void writeImpl(const vmime::byte_t* const d, const size_t n) { data.append((const char*) d, n); ++writes; flushedAtEnd = false; }
};

inline void writeChunks(vmime::utility::outputStream& os, const S& d, const Cuts& c) {
	size_t p = 0;
	// every piece is handed over in a heap block of its exact size: reads beyond it are seen
	for (size_t k : c) {
		std::vector <char> v(d.begin() + p, d.begin() + p + k);
		os.write(v.data(), k); p += k;
	}
	if (p < d.size()) { std::vector <char> v(d.begin() + p, d.end()); os.write(v.data(), v.size()); }
}

inline vmime::shared_ptr <vmime::utility::encoder::encoder> makeEncoder(const S& name) {
	return vmime::utility::encoder::encoderFactory::getInstance()->create(name);
}
inline S gen(const vmime::component& c, size_t maxLine = vmime::lineLengthLimits::infinite, size_t cur = 0) {
	return c.generate(maxLine, cur);
}
