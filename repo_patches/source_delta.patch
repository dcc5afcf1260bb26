From 7c4fff1a1c3e4839c0df44370770882725844eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 001/143] fix: base64, quoted-printable and uuencode encoders:
 truthful sizes, no soft break inside CRLF, uuencode tail groups and buffer
 sizes

---
 src/vmime/utility/encoder/b64Encoder.cpp | 16 ++++--
 src/vmime/utility/encoder/qpEncoder.cpp  | 15 ++++--
 src/vmime/utility/encoder/uuEncoder.cpp  | 69 +++++++++++++++++++-----
 3 files changed, 79 insertions(+), 21 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..5343f25 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -183,6 +183,7 @@ size_t b64Encoder::encode(
 
 		if (cutLines && curCol + 2 /* \r\n */ + 4 /* next bytes */ >= maxLineLength) {
 			out.write("\r\n", 2);
+			total += 2;
 			curCol = 0;
 		}
 
@@ -332,9 +333,18 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// 3 bytes of input provide 4 bytes of output, including padding
+	const size_t encodedLength = ((n + 2) / 3) * 4;
+
+	if (!cutLines) {
+		return encodedLength;
+	}
+
+	// Count CRLF (2 bytes) for each line: see encode() for line wrapping rule
+	const size_t lineLength =
+		(maxLineLength <= 10) ? 4 : ((maxLineLength - 6 + 3) / 4) * 4;
+
+	return encodedLength + (encodedLength / lineLength) * 2;
 }
 
 
diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..7ae1b38 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -343,8 +343,8 @@ size_t qpEncoder::encode(
 
 			} // switch (c)
 
-			// Soft line break : "=\r\n"
-			if (cutLines && curCol >= maxLineLength - 1) {
+			// Soft line break : "=\r\n" (never between the CR and the LF of a hard line break)
+			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == 13)) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
@@ -551,8 +551,15 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
 
 	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	size_t size = n * 3;
+
+	// Count soft line break (3 bytes) for each line of at least
+	// (maxLineLength - 1) characters
+	if (cutLines && maxLineLength != 0) {
+		size += std::min(n, size / std::max(maxLineLength - 1, static_cast <size_t>(1))) * 3;
+	}
+
+	return size;
 }
 
 
diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..0977986 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -64,6 +64,37 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 }
 
 
+// Read exactly the specified number of bytes, unless the end of the stream
+// is reached (the stream may return less bytes than requested)
+static size_t readFully(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t total = 0;
+
+	while (total < count && !in.eof()) {
+
+		const size_t read = in.read(data + total, count - total);
+
+		if (read == 0) {
+			break;
+		}
+
+		total += read;
+	}
+
+	return total;
+}
+
+
+// Return the maximum number of data bytes to encode on a line
+static size_t getDataBytesPerLine(const propertySet& props) {
+
+	const size_t maxLineLength =
+		std::min(props.getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+
+	return std::max(maxLineLength, static_cast <size_t>(2)) - 1;
+}
+
+
 size_t uuEncoder::encode(
 	utility::inputStream& in,
 	utility::outputStream& out,
@@ -75,8 +106,7 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t bytesPerLine = getDataBytesPerLine(getProperties());
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -105,7 +135,11 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		const size_t inLength = in.read(inBuffer, maxLineLength - 1);
+		const size_t inLength = readFully(in, inBuffer, bytesPerLine);
+
+		if (inLength == 0) {
+			break;
+		}
 
 		outBuffer[0] = UUENCODE(static_cast <unsigned int>(inLength)); // Line length
 
@@ -156,8 +190,8 @@ size_t uuEncoder::decode(
 	in.reset();  // may not work...
 
 	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	byte_t inBuffer[84];    // 84 bytes of input provide 63 bytes of output,
+	byte_t outBuffer[63];   // which is the maximum line length
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -180,7 +214,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -196,7 +230,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readFully(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -243,7 +277,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -251,7 +285,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
@@ -272,7 +306,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readFully(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -290,7 +324,9 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+		if (inPos > inLength ||
+		    readFully(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+
 			// Premature end of data
 			break;
 		}
@@ -305,7 +341,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
@@ -339,10 +375,15 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
+	const size_t bytesPerLine = getDataBytesPerLine(getProperties());
+
 	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	// Count line length (1 byte) and CRLF (2 bytes) for each line.
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 200
+		+ getProperties().getProperty <string>("filename", "").length()
+		+ getProperties().getProperty <string>("mode", "644").length()
+		+ ((n + bytesPerLine - 1) / bytesPerLine) * (3 + ((bytesPerLine + 2) / 3) * 4);
 }
 
 
-- 
2.43.0


From 21b53ca6b2164cc40031a05433601a4cf61fa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 002/143] fix: do not choose 7bit for content with NUL bytes

---
 src/vmime/encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bca3157..cc89ba8 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -157,7 +157,7 @@ const encoding encoding::decideImpl(
 
 	const string::difference_type length = end - begin;
 	const string::difference_type count = std::count_if(
-		begin, end, [](unsigned char x) { return x <= 127; });
+		begin, end, [](unsigned char x) { return x != 0 && x <= 127; });  // no NUL in 7-bit data
 
 	// All is in 7-bit US-ASCII --> 7-bit (or Quoted-Printable...)
 	if (length == count) {
-- 
2.43.0


From 7622d81bbcefc1b4ae4cfdc1b8c6437340dab066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 003/143] fix: inputStreamAdapter: reset() and getPosition()
 after the end of the stream has been reached

---
 src/vmime/utility/inputStreamAdapter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..ecee0a6 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
-	m_stream.seekg(0, std::ios::beg);
 	m_stream.clear();
+	m_stream.seekg(0, std::ios::beg);
 }
 
 
@@ -68,7 +68,16 @@ size_t inputStreamAdapter::skip(const size_t count) {
 
 size_t inputStreamAdapter::getPosition() const {
 
-	return m_stream.tellg();
+	// tellg() fails if the end of the stream has been reached
+	const std::ios_base::iostate state = m_stream.rdstate();
+
+	m_stream.clear(state & std::ios_base::badbit);
+
+	const size_t pos = m_stream.tellg();
+
+	m_stream.clear(state);
+
+	return pos;
 }
 
 
-- 
2.43.0


From 7c181f93fe19475b0e1506e656778616c6b7626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 004/143] fix: inputStreamStringAdapter region reads past its
 end; overflow in region computations

---
 src/vmime/utility/inputStreamStringAdapter.cpp         | 6 +++---
 src/vmime/utility/seekableInputStreamRegionAdapter.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..e96de12 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -64,11 +64,11 @@ void inputStreamStringAdapter::reset() {
 
 size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
@@ -85,7 +85,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 size_t inputStreamStringAdapter::skip(const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 		m_pos = m_end;
diff --git a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
index 3272366..43ce2d6 100644
--- a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
+++ b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
@@ -59,7 +59,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 	size_t readBytes = 0;
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		readBytes = m_stream->read(data, remaining);
@@ -77,7 +77,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 size_t seekableInputStreamRegionAdapter::skip(const size_t count) {
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		m_position += remaining;
-- 
2.43.0


From 2ee86463b78b543da8785775c9a28efe9f3bd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 005/143] fix: stream filters: dot filter corrupts data when a
 chunk ends with a dot, trailing CR lost, dots at start not unstuffed,
 self-overlapping stop sequences

---
 src/vmime/utility/filteredStream.cpp |  27 ++++--
 src/vmime/utility/filteredStream.hpp | 140 +++++----------------------
 2 files changed, 42 insertions(+), 125 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..4bd37ed 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -51,7 +51,7 @@ size_t filteredOutputStream::getBlockSize() {
 dotFilteredInputStream::dotFilteredInputStream(inputStream& is)
 	: m_stream(is),
 	  m_previousChar2('\0'),
-	  m_previousChar1('\0') {
+	  m_previousChar1('\n') {  // we are at the beginning of a line
 
 }
 
@@ -71,7 +71,7 @@ bool dotFilteredInputStream::eof() const {
 void dotFilteredInputStream::reset() {
 
 	m_previousChar2 = '\0';
-	m_previousChar1 = '\0';
+	m_previousChar1 = '\n';
 
 	m_stream.reset();
 }
@@ -133,7 +133,8 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
 	: m_stream(os),
 	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_start(true),
+	  m_startDot(false) {
 
 }
 
@@ -154,15 +155,15 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	// <DOT> was the only character written so far: check whether it
+	// is followed by a line break
+	if (m_startDot) {
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_startDot = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -185,6 +186,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 				m_stream.write("..", 2);
 			} else {
 				m_stream.write(".", 1);
+				m_startDot = (pos + 1 == end);
 			}
 
 			start = pos + 1;
@@ -282,9 +284,14 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// Write back the final \r which has not been written yet
+	if (m_previousChar == '\r') {
+
+		m_stream.write("\r", 1);
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..73f15c4 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -126,6 +126,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_startDot;  // content written so far is a single <DOT>
 };
 
 
@@ -236,6 +237,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
@@ -246,134 +248,42 @@ public:
 			return 0;
 		}
 
-		if (m_stream.eof()) {
-
-			if (m_found != 0) {
-
-				const size_t found = m_found;
-
-				for (size_t f = 0 ; f < found ; ++f) {
-					data[f] = m_sequence[f];
-				}
-
-				m_found = 0;
-				m_eof = true;
+		// Re-inject the beginning of the sequence which was found
+		// at the end of previously read data
+		const size_t found = m_found;
 
-				return found;
-
-			} else {
+		std::copy(m_sequence, m_sequence + found, data);
+		m_found = 0;
 
-				m_eof = true;
-				return 0;
-			}
+		if (m_stream.eof()) {
+			m_eof = true;
+			return found;
 		}
 
-		size_t read = m_stream.read(data, count - COUNT);
-
+		const size_t read = found + m_stream.read(data + found, count - COUNT);
 		byte_t* end = data + read;
-		byte_t* pos = data;
-
-		while (pos < end) {
-
-			// Very simple case, search for the whole sequence
-			if (m_found == 0) {
-
-				while (pos < end) {
-
-					pos = std::find(pos, end, m_sequence[0]);
-
-					if (pos == end) {
-						return read;
-					}
-
-					m_found = 1;
-					++pos;
-
-					while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-						++m_found;
-						++pos;
-					}
-
-					// Didn't found whole sequence
-					if (m_found != COUNT) {
-
-						// We reached the end of the buffer
-						if (pos == end) {
 
-							return read - m_found;
+		// Search for the whole sequence
+		byte_t* pos = std::search(data, end, m_sequence, m_sequence + COUNT);
 
-						// Common prefix but not whole sequence
-						} else {
+		if (pos != end) {
 
-							m_found = 0;
-						}
-
-					// Whole sequence found
-					} else {
-
-						// End of stream
-						return pos - data - m_found;
-					}
-				}
-
-			// More complex case: search for a sequence which has begun
-			// in a previous buffer
-			} else {
-
-				// Search for the end of the previously started sequence
-				while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-					++m_found;
-					++pos;
-				}
-
-				if (m_found != COUNT) {
-
-					// End of buffer
-					if (pos == end) {
-
-						// No data: this buffer is a sub-sequence of the
-						// searched sequence
-						return 0;
-
-					// Common prefix
-					} else {
-
-						// We have to reinject the incomplete sequence into
-						// the stream data
-
-						// -- shift right data
-						const size_t n = pos - data;
-
-						byte_t* newEnd = data + read + m_found - n;
-						byte_t* oldEnd = data + read;
-
-						for (size_t i = 0 ; i < read - n ; ++i) {
-
-							--newEnd;
-							--oldEnd;
-
-							*newEnd = *oldEnd;
-						}
-
-						// -- copy the prefix just before data
-						for (size_t f = 0 ; f < m_found ; ++f) {
-							data[f] = m_sequence[f];
-						}
-
-						read += m_found - n;
-						end += m_found - n;
-
-						m_found = 0;
-					}
+			// End of stream
+			m_found = COUNT;
+			return pos - data;
+		}
 
-				} else {
+		// Search for the longest beginning of the sequence at the end of
+		// the data: the sequence may continue in the next buffer
+		for (size_t n = std::min(read, static_cast <size_t>(COUNT - 1)) ; n > 0 ; --n) {
 
-					return 0;  // no more data
-				}
+			if (std::equal(end - n, end, m_sequence)) {
+				m_found = n;
+				break;
 			}
 		}
 
-		return read;
+		return read - m_found;
 	}
 
 	size_t skip(const size_t /* count */) {
-- 
2.43.0


From 3d84e0523a51145d1f40e233455123880b3d11f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 006/143] fix: parserInputStreamAdapter: search and extraction
 from streams which return short reads

---
 .../utility/parserInputStreamAdapter.cpp      | 36 +++++++++++++------
 .../utility/parserInputStreamAdapter.hpp      |  7 +++-
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..1e47d6e 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -58,6 +58,26 @@ shared_ptr <seekableInputStream> parserInputStreamAdapter::getUnderlyingStream()
 }
 
 
+size_t parserInputStreamAdapter::readFully(byte_t* const data, const size_t count) const {
+
+	size_t total = 0;
+
+	// The underlying stream may return less bytes than requested
+	while (total < count && !m_stream->eof()) {
+
+		const size_t bytesRead = m_stream->read(data + total, count - total);
+
+		if (bytesRead == 0) {
+			break;
+		}
+
+		total += bytesRead;
+	}
+
+	return total;
+}
+
+
 const string parserInputStreamAdapter::extract(const size_t begin, const size_t end) const {
 
 	const size_t initialPos = m_stream->getPosition();
@@ -70,7 +90,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readFully(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -115,12 +135,10 @@ size_t parserInputStreamAdapter::findNext(
 		size_t findBufferLen = 0;
 		size_t findBufferOffset = 0;
 
-		bool isEOF = false;
-
 		// Fill in initial buffer
-		findBufferLen = read(findBuffer, BUFFER_SIZE);
+		findBufferLen = readFully(findBuffer, BUFFER_SIZE);
 
-		while (findBufferLen != 0) {
+		while (findBufferLen >= token.length()) {
 
 			// Find token
 			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
@@ -142,17 +160,13 @@ size_t parserInputStreamAdapter::findNext(
 			memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
 
 			// Read more bytes
-			if (findBufferLen < BUFFER_SIZE && (eof() || isEOF)) {
+			if (findBufferLen < BUFFER_SIZE) {
 
 				break;
 
 			} else {
 
-				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
-
-				if (bytesRead == 0) {
-					isEOF = true;
-				}
+				const size_t bytesRead = readFully(findBuffer2, BUFFER_SIZE / 2);
 
 				findBufferLen = (BUFFER_SIZE / 2) + bytesRead;
 				findBufferOffset += (BUFFER_SIZE / 2);
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..3e1253b 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readFully(buffer, length);
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,11 @@ public:
 
 private:
 
+	/** Read exactly the specified number of bytes, unless the end
+	  * of the stream is reached.
+	  */
+	size_t readFully(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From ee44c45cdd3f9274e34d317bba6a3a639d4372d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 007/143] fix: ICU charset filter: report illegal bytes of the
 source charset, flush stateful destination charsets

---
 src/vmime/charsetConverter_icu.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 5016dca..d4ef8bc 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -353,7 +353,7 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
 		ucnv_setToUCallBack(
-			m_to, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
+			m_from, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
 		);
 
 		if (U_FAILURE(err)) {
@@ -393,6 +393,10 @@ void charsetFilteredOutputStream_icu::writeImpl(
 		throw exceptions::charset_conv_error("Cannot initialize converters.");
 	}
 
+	if (count == 0) {
+		return;
+	}
+
 	// Allocate buffer for Unicode chars
 	const size_t uniSize = ucnv_getMinCharSize(m_from) * count * sizeof(UChar);
 	std::vector <UChar> uniBuffer(uniSize);
@@ -523,12 +527,10 @@ void charsetFilteredOutputStream_icu::flush() {
 		}
 
 		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
 
-		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
+		// Allocate buffer for destination charset (even if there are no more
+		// Unicode chars, the converter may have to write some final bytes)
+		const size_t cpSize = ucnv_getMaxCharSize(m_to) * (uniLength + 1);
 		std::vector <char> cpBuffer(cpSize);
 
 		// Convert from Unicode to destination charset
-- 
2.43.0


From 41e7251fdf95551a7d79329f2c9b44f758c0adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 008/143] fix: emailAddress: encoded local parts which begin
 with an escape, invalid Punycode labels, folding, parsed bounds

---
 src/vmime/charsetConverter_idna.cpp |  7 ++++++-
 src/vmime/emailAddress.cpp          | 26 +++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..fc3b418 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -188,7 +188,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Not a valid Punycode string: leave it as is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = out.length();
+			}
 		}
 	}
 }
diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e687380..522ddcc 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -213,6 +213,7 @@ void emailAddress::parseImpl(
 	bool stop = false;
 	int commentLevel = 0;
 	bool localPartIsRFC2047 = false;
+	int localPartRFC2047QMCount = 0;  // number of '?' found in encoded word
 
 	while (p < pend && !stop) {
 
@@ -345,8 +346,6 @@ void emailAddress::parseImpl(
 
 					state = State_LocalPartMiddle;
 					localPart << '=';
-					localPart << c;
-					++p;
 				}
 
 				break;
@@ -395,7 +394,9 @@ void emailAddress::parseImpl(
 
 			case State_LocalPartRFC2047Middle:
 
-				if (c == '?') {
+				// The sequence which ends the word can only be found after
+				// charset and encoding: "=?charset?encoding?data?="
+				if (c == '?' && ++localPartRFC2047QMCount >= 3) {
 
 					state = State_LocalPartRFC2047MiddleQM;
 					++p;
@@ -421,8 +422,6 @@ void emailAddress::parseImpl(
 
 					state = State_LocalPartRFC2047Middle;
 					localPart << '?';
-					localPart << c;
-					++p;
 				}
 
 				break;
@@ -526,6 +525,11 @@ void emailAddress::parseImpl(
 
 	if (p == pend && state != State_Error) {
 
+		if (state == State_LocalPartRFC2047Start) {
+			localPart << '=';
+			state = State_LocalPartMiddle;
+		}
+
 		if (state == State_DomainPartMiddle) {
 			state = State_End;
 		} else if (state == State_LocalPartMiddle) {
@@ -554,10 +558,10 @@ void emailAddress::parseImpl(
 		m_domainName = word(domainNameFromIDNA(domainPart.str()), vmime::charsets::UTF_8);
 	}
 
-	setParsedBounds(position, p - pend);
+	setParsedBounds(position, position + (p - pstart));
 
 	if (newPosition) {
-		*newPosition = p - pend;
+		*newPosition = position + (p - pstart);
 	}
 }
 
@@ -571,6 +575,10 @@ void emailAddress::generateImpl(
 
 	string localPart, domainPart;
 
+	// An address is never folded, as it could not be parsed back
+	generationContext localPartCtx(ctx);
+	localPartCtx.setMaxLineLength(lineLengthLimits::infinite);
+
 	if (ctx.getInternationalizedEmailSupport() &&
 	    (!utility::stringUtils::is7bit(m_localName.getBuffer()) ||
 	     !utility::stringUtils::is7bit(m_domainName.getBuffer()))) {
@@ -580,7 +588,7 @@ void emailAddress::generateImpl(
 		word localPartWord(localPartUTF8, vmime::charsets::UTF_8);
 
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		localPartWord.generate(ctx, os, 0, NULL, text::FORCE_NO_ENCODING | text::QUOTE_IF_NEEDED, NULL);
+		localPartWord.generate(localPartCtx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
 
 		// Domain part
 		domainPart = m_domainName.getConvertedText(vmime::charsets::UTF_8);
@@ -589,7 +597,7 @@ void emailAddress::generateImpl(
 
 		// Local part
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		m_localName.generate(ctx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
+		m_localName.generate(localPartCtx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
 
 		// Domain part as IDNA
 		domainPart = domainNameToIDNA(m_domainName.getConvertedText(vmime::charsets::UTF_8));
-- 
2.43.0


From f4895fd723bea7e7896d0f06b37131ce704b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 009/143] fix: fold and encode header texts so that they decode
 to the same text

---
 src/vmime/charset.cpp     |   7 +
 src/vmime/text.cpp        |  42 ++++-
 src/vmime/word.cpp        | 315 ++++++++++++++++++--------------------
 src/vmime/word.hpp        |  12 +-
 src/vmime/wordEncoder.cpp |  77 ++++++----
 src/vmime/wordEncoder.hpp |   6 +-
 6 files changed, 262 insertions(+), 197 deletions(-)

diff --git a/src/vmime/charset.cpp b/src/vmime/charset.cpp
index bb769f2..86de7a3 100644
--- a/src/vmime/charset.cpp
+++ b/src/vmime/charset.cpp
@@ -247,6 +247,13 @@ CharsetEncodingEntry g_charsetEncodingMap[] = {
 	CharsetEncodingEntry("iso-2022",     encodingTypes::BASE64),
 	CharsetEncodingEntry("iso2022",      encodingTypes::BASE64),
 
+	// These charsets are not supersets of ASCII: text has always to be encoded,
+	// even if it is made only of 7-bit bytes
+	CharsetEncodingEntry("utf-7",        encodingTypes::BASE64),
+	CharsetEncodingEntry("utf-16",       encodingTypes::BASE64),
+	CharsetEncodingEntry("utf-32",       encodingTypes::BASE64),
+	CharsetEncodingEntry("hz-gb-2312",   encodingTypes::BASE64),
+
 	// Last entry is not used
 	CharsetEncodingEntry("", "")
 };
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..17a18ed 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -25,6 +25,7 @@
 
 #include "vmime/parserHelpers.hpp"
 #include "vmime/encoding.hpp"
+#include "vmime/wordEncoder.hpp"
 
 
 namespace vmime {
@@ -304,7 +305,7 @@ void text::createFromString(const string& in, const charset& ch) {
 	do {
 		size_t start = pos;
 
-		for (; parserHelpers::isSpace(in[pos]); )
+		for (; pos < end && parserHelpers::isSpace(in[pos]); )
 			++pos;
 
 		for (; pos < end && !parserHelpers::isSpace(in[pos]); ++pos)
@@ -344,14 +345,47 @@ void text::encodeAndFold(
 	size_t curLineLength = firstLineOffset;
 	word::generatorState state;
 
-	for (size_t wi = 0 ; wi < getWordCount() ; ++wi) {
+	// A word which directly precedes (without white-space) a word which is going to be
+	// encoded has to be encoded too: the separator would be decoded as a white-space
+	const size_t count = getWordCount();
+	std::vector <bool> encode(count, false);
+
+	if ((flags & FORCE_NO_ENCODING) == 0) {
+
+		for (size_t wi = count ; wi-- != 0 ; ) {
+
+			const word& w = *getWordAt(wi);
+
+			encode[wi] = (flags & FORCE_ENCODING) != 0 ||
+				wordEncoder::isEncodingNeeded(ctx, w.getBuffer(), w.getCharset(), w.getLanguage()) ||
+				word::hasLongRun(ctx, w.getBuffer());
+
+			if (!encode[wi] && wi + 1 < count && !w.isEmpty()) {
+
+				const string& next = getWordAt(wi + 1)->getBuffer();
+
+				if (!next.empty()) {
+
+					const char last = w.getBuffer()[w.getBuffer().length() - 1];
+
+					// ...also if both words together look like an encoded word
+					encode[wi] = (encode[wi + 1] && !parserHelpers::isSpace(next[0]) && !parserHelpers::isSpace(last)) ||
+						(last == '=' && next[0] == '?') || (last == '?' && next[0] == '=');
+				}
+			}
+		}
+	}
+
+	for (size_t wi = 0 ; wi < count ; ++wi) {
 
 		getWordAt(wi)->generate(
-			ctx, os, curLineLength,
-			&curLineLength, flags, &state
+			ctx, os, curLineLength, &curLineLength,
+			flags | (encode[wi] ? FORCE_ENCODING : 0), &state
 		);
 	}
 
+	word::writePendingSpace(os, state, &curLineLength);
+
 	if (lastLineLength) {
 		*lastLineLength = curLineLength;
 	}
diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..08d2f8c 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
@@ -396,8 +396,8 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							if (state && actualEncodedLen > theoricalEncodedLen) {
+								state->undecodedBytes = encodedBuffer.substr(theoricalEncodedLen);
 							}
 						}
 
@@ -432,6 +432,56 @@ void word::generateImpl(
 }
 
 
+// static
+void word::writePendingSpace(
+	utility::outputStream& os,
+	generatorState& state,
+	size_t* curLineLength
+) {
+
+	if (state.pendingSpace) {
+
+		os << " ";
+		++*curLineLength;
+
+		state.pendingSpace = false;
+	}
+}
+
+
+// static
+bool word::hasLongRun(const generationContext& ctx, const string& buffer) {
+
+	// Here, we could have the following conditions:
+	//
+	//  * a maximum line length of N bytes
+	//  * a buffer containing N+1 bytes, with no whitespace
+	//
+	// Look in the buffer for any run (ie. whitespace-separated sequence) which
+	// is longer than the maximum line length. If there is one, then encoding is
+	// forced, so that no generated line is longer than the maximum line length.
+	size_t maxRunLength = 0;
+	size_t curRunLength = 0;
+
+	for (string::const_iterator p = buffer.begin(), end = buffer.end() ; p != end ; ++p) {
+
+		if (parserHelpers::isSpace(*p)) {
+
+			maxRunLength = std::max(maxRunLength, curRunLength);
+			curRunLength = 0;
+
+		} else {
+
+			curRunLength++;
+		}
+	}
+
+	maxRunLength = std::max(maxRunLength, curRunLength);
+
+	return maxRunLength >= ctx.getMaxLineLength() - 3;
+}
+
+
 void word::generate(
 	const generationContext& ctx,
 	utility::outputStream& os,
@@ -445,6 +495,9 @@ void word::generate(
 
 	generatorState defaultGeneratorState;
 
+	// In this case, the caller writes the last white-space (see text::encodeAndFold())
+	const bool isPartOfText = (state != NULL);
+
 	if (!state) {
 		state = &defaultGeneratorState;
 	}
@@ -460,6 +513,15 @@ void word::generate(
 		encodingNeeded = wordEncoder::isEncodingNeeded(ctx, m_buffer, m_charset, m_lang);
 	}
 
+	// No separator can be written between an encoded word and this one: it would be
+	// decoded as a white-space
+	if (!encodingNeeded && (flags & text::FORCE_NO_ENCODING) == 0 &&
+	    !state->isFirstWord && state->prevWordIsEncoded && !state->lastCharIsSpace &&
+	    !m_buffer.empty() && !parserHelpers::isSpace(m_buffer[0])) {
+
+		encodingNeeded = true;
+	}
+
 	// If text does not need to be encoded, quote the buffer (no folding is performed).
 	if (!encodingNeeded &&
 	    (flags & text::QUOTE_IF_NEEDED) &&
@@ -467,6 +529,8 @@ void word::generate(
 
 		const string quoted = utility::stringUtils::quote(m_buffer, "\\\"", "\\");
 
+		writePendingSpace(os, *state, &curLineLength);
+
 		os << '"' << quoted << '"';
 		curLineLength += 1 + quoted.length() + 1;
 
@@ -480,6 +544,8 @@ void word::generate(
 	           m_buffer.find('"') == string::npos &&
 	           (curLineLength + 2 /* 2 x " */ + m_buffer.length()) < ctx.getMaxLineLength()) {
 
+		writePendingSpace(os, *state, &curLineLength);
+
 		os << '"' << m_buffer << '"';
 		curLineLength += 2 + m_buffer.length();
 
@@ -499,183 +565,84 @@ void word::generate(
 			buffer = m_buffer;
 		}
 
-		// Here, we could have the following conditions:
-		//
-		//  * a maximum line length of N bytes
-		//  * a buffer containing N+1 bytes, with no whitespace
-		//
-		// Look in the buffer for any run (ie. whitespace-separated sequence) which
-		// is longer than the maximum line length. If there is one, then force encoding,
-		// so that no generated line is longer than the maximum line length.
-		size_t maxRunLength = 0;
-		size_t curRunLength = 0;
-
-		for (string::const_iterator p = buffer.begin(), end = buffer.end() ; p != end ; ++p) {
-
-			if (parserHelpers::isSpace(*p)) {
-
-				maxRunLength = std::max(maxRunLength, curRunLength);
-				curRunLength = 0;
-
-			} else {
-
-				curRunLength++;
-			}
-		}
-
-		maxRunLength = std::max(maxRunLength, curRunLength);
-
-		if (((flags & text::FORCE_NO_ENCODING) == 0) && maxRunLength >= ctx.getMaxLineLength() - 3) {
+		// If there is a run which is too long to be folded, then force encoding
+		if (((flags & text::FORCE_NO_ENCODING) == 0) && hasLongRun(ctx, buffer)) {
 
 			// Generate with encoding forced
 			generate(ctx, os, curLinePos, newLinePos, flags | text::FORCE_ENCODING, state);
 			return;
 		}
 
-		// Output runs, and fold line when a whitespace is encountered
-		string::const_iterator lastWSpos = buffer.end(); // last white-space position
-		string::const_iterator curLineStart = buffer.begin(); // current line start
-
-		string::const_iterator p = buffer.begin();
-		const string::const_iterator end = buffer.end();
-
-		bool finished = false;
-		bool newLine = false;
-
-		while (!finished) {
-
-			for ( ; p != end ; ++p, ++curLineLength) {
-
-				// Exceeded maximum line length, but we have found a white-space
-				// where we can cut the line...
-				if (curLineLength >= ctx.getMaxLineLength() && lastWSpos != end) {
-					break;
-				}
-
-				if (*p == ' ' || *p == '\t') {
-					// Remember the position of this white-space character
-					lastWSpos = p;
-				}
-			}
-
-			if (p != end) {
-				++curLineLength;
-			}
-
-			if (p == end || lastWSpos == end) {
-
-				// If we are here, it means that we have found no whitespace
-				// before the first "maxLineLength" characters. In this case,
-				// we write the full line no matter of the max line length...
-
-				if (!newLine && p != end && lastWSpos == end &&
-				    !state->isFirstWord && curLineStart == buffer.begin()) {
-
-					// Here, we are continuing on the line of previous encoded
-					// word, but there is not even enough space to put the
-					// first word of this line, so we start a new line.
-					if (flags & text::NO_NEW_LINE_SEQUENCE) {
-
-						os << CRLF;
-						curLineLength = 0;
+		// Separate from previous word
+		if (!state->isFirstWord && state->prevWordIsEncoded &&
+		    !state->lastCharIsSpace &&
+		    !buffer.empty() && !parserHelpers::isSpace(buffer[0])) {
 
-						state->lastCharIsSpace = true;
-
-					} else {
-
-						os << NEW_LINE_SEQUENCE;
-						curLineLength = NEW_LINE_SEQUENCE_LENGTH;
-
-						state->lastCharIsSpace = true;
-					}
-
-					p = curLineStart;
-					lastWSpos = end;
-					newLine = true;
-
-				} else {
-
-					if (!state->isFirstWord &&
-					    (state->prevWordIsEncoded || ctx.getInternationalizedEmailSupport()) &&
-					    !state->lastCharIsSpace &&
-					    !parserHelpers::isSpace(*curLineStart)) {
-
-						os << " "; // Separate from previous word
-					}
-
-					os << string(curLineStart, p);
-
-					if (p != buffer.begin() && parserHelpers::isSpace(*(p - 1))) {
-						state->lastCharIsSpace = true;
-					} else {
-						state->lastCharIsSpace = false;
-					}
-
-					if (p == end) {
-
-						finished = true;
-
-					} else {
-
-						if (flags & text::NO_NEW_LINE_SEQUENCE) {
-
-							os << CRLF;
-							curLineLength = 0;
+			buffer.insert(buffer.begin(), ' ');
+		}
 
-						} else {
+		// White-space at the end of the previous word
+		if (state->pendingSpace) {
+			buffer.insert(buffer.begin(), ' ');
+			state->pendingSpace = false;
+		}
 
-							os << NEW_LINE_SEQUENCE;
-							curLineLength = NEW_LINE_SEQUENCE_LENGTH;
-						}
+		// White-space at the end of this word is written with the next word,
+		// as we don't know yet whether the line will be folded there
+		if (isPartOfText && !buffer.empty() && buffer[buffer.length() - 1] == ' ') {
+			buffer.erase(buffer.end() - 1);
+			state->pendingSpace = true;
+		}
 
-						curLineStart = p;
-						lastWSpos = end;
-						newLine = true;
-					}
-				}
+		// Output runs, and fold line when a whitespace is encountered
+		const string::const_iterator end = buffer.end();
 
-			} else {
+		string::const_iterator lastWSpos = end; // last white-space position
+		string::const_iterator curLineStart = buffer.begin(); // current line start
+		string::const_iterator p = buffer.begin();
 
-				// In this case, there will not be enough space on the line for all the
-				// characters _after_ the last white-space; so we cut the line at this
-				// last white-space.
+		for ( ; p != end ; ++p, ++curLineLength) {
 
-				if (curLineLength != NEW_LINE_SEQUENCE_LENGTH &&
-				    !state->isFirstWord &&
-				    state->prevWordIsEncoded) {
-
-					os << " "; // Separate from previous word
-				}
+			// Exceeded maximum line length, but we have found a white-space
+			// where we can cut the line...
+			if (curLineLength >= ctx.getMaxLineLength() && lastWSpos != end) {
 
 				os << string(curLineStart, lastWSpos);
 
-				if (lastWSpos > curLineStart && parserHelpers::isSpace(*(lastWSpos - 1))) {
-					state->lastCharIsSpace = true;
-				} else {
-					state->lastCharIsSpace = false;
-				}
-
 				if (flags & text::NO_NEW_LINE_SEQUENCE) {
 
 					os << CRLF;
 					curLineLength = 0;
 
-					state->lastCharIsSpace = true;
-
 				} else {
 
 					os << NEW_LINE_SEQUENCE;
 					curLineLength = NEW_LINE_SEQUENCE_LENGTH;
-
-					state->lastCharIsSpace = true;
 				}
 
-				curLineStart = lastWSpos + 1;
-
-				p = lastWSpos + 1;
+				// The white-space is replaced with the new line sequence
+				curLineStart = p = lastWSpos + 1;
 				lastWSpos = end;
-				newLine = true;
 			}
+
+			// Remember the position of this white-space character. When unfolding, all
+			// the white-spaces which follow a new line are replaced with a single space,
+			// so only the last one in a sequence can be used.
+			if (*p == ' ' && p + 1 != end && !parserHelpers::isSpace(*(p + 1))) {
+				lastWSpos = p;
+			}
+		}
+
+		os << string(curLineStart, end);
+
+		if (state->pendingSpace) {
+			state->lastCharIsSpace = true;
+		} else if (!buffer.empty()) {
+			state->lastCharIsSpace = parserHelpers::isSpace(buffer[buffer.length() - 1]);
+		}
+
+		if (!buffer.empty() || state->pendingSpace) {
+			state->prevWordIsEncoded = false;
 		}
 
 	/*
@@ -726,9 +693,11 @@ void word::generate(
 		// characters can be encoded, start a new line.
 		bool startNewLine = true;
 
-		if (curLineLength + 2 < maxLineLength2) {
+		const size_t pendingLength = (state->pendingSpace ? 1 : 0);
 
-			const size_t remainingSpaceOnLine = maxLineLength2 - curLineLength - 2;
+		if (curLineLength + pendingLength + 2 < maxLineLength2) {
+
+			const size_t remainingSpaceOnLine = maxLineLength2 - curLineLength - pendingLength - 2;
 
 			if (remainingSpaceOnLine < minWordLength + 10) {
 
@@ -748,29 +717,49 @@ void word::generate(
 			os << NEW_LINE_SEQUENCE;
 			curLineLength = NEW_LINE_SEQUENCE_LENGTH;
 
-			state->lastCharIsSpace = true;
+		} else {
+
+			writePendingSpace(os, *state, &curLineLength);
 		}
 
 		// Encode and fold input buffer
-		if (!startNewLine && !state->isFirstWord && !state->lastCharIsSpace) {
+		if (!state->isFirstWord && !state->lastCharIsSpace) {
 
-			os << " "; // Separate from previous word
-			if (!state->prevWordIsEncoded && m_buffer[0] == ' ')
-				wordEnc.getNextChunk(1);
+			if (!startNewLine) {
 
-			++curLineLength;
+				os << " "; // Separate from previous word
+				++curLineLength;
+			}
 
-			state->lastCharIsSpace = true;
+			// The white-space at the start of the word is not encoded, because the
+			// separator (or the new line sequence) will be decoded as a white-space
+			if (!state->prevWordIsEncoded && m_buffer[0] == ' ') {
+				wordEnc.getNextChunk(1);
+			}
 		}
 
+		state->pendingSpace = false;
+		state->lastCharIsSpace = true;
+
 		for (unsigned int i = 0 ; ; ++i) {
 
 			// Compute the number of encoded chars that will fit on this line
-			const size_t fit = maxLineLength2 - minWordLength
-				- (i == 0 ? curLineLength : NEW_LINE_SEQUENCE_LENGTH);
+			const size_t lineStart = (i == 0 ? curLineLength : NEW_LINE_SEQUENCE_LENGTH);
+			size_t fit = maxLineLength2 - minWordLength - lineStart;
+			size_t maxFit = string::npos;
+
+			// In the text of a header field, an encoded-word may not be more than
+			// 75 characters long, and the line not more than 76 characters long
+			if (isPartOfText && ctx.getMaxLineLength() != lineLengthLimits::infinite) {
+
+				const size_t maxWordLength = 76 - std::max(lineStart, static_cast <size_t>(1));
+
+				maxFit = (maxWordLength > minWordLength) ? maxWordLength - minWordLength : 1;
+				fit = std::min(fit, maxFit);
+			}
 
 			// Get the next encoded chunk
-			const string chunk = wordEnc.getNextChunk(fit);
+			const string chunk = wordEnc.getNextChunk(fit, maxFit);
 
 			if (chunk.empty()) {
 				break;
diff --git a/src/vmime/word.hpp b/src/vmime/word.hpp
index c90d908..40837c5 100644
--- a/src/vmime/word.hpp
+++ b/src/vmime/word.hpp
@@ -169,13 +169,15 @@ public:
 		generatorState()
 			: isFirstWord(true),
 			  prevWordIsEncoded(false),
-			  lastCharIsSpace(false) {
+			  lastCharIsSpace(false),
+			  pendingSpace(false) {
 
 		}
 
 		bool isFirstWord;
 		bool prevWordIsEncoded;
 		bool lastCharIsSpace;
+		bool pendingSpace;  // white-space at the end of previous word, not written yet
 	};
 
 	class parserState {
@@ -257,6 +259,14 @@ private:
 		size_t* newPosition
 	);
 
+	static bool hasLongRun(const generationContext& ctx, const string& buffer);
+
+	static void writePendingSpace(
+		utility::outputStream& os,
+		generatorState& state,
+		size_t* curLineLength
+	);
+
 
 	// The "m_buffer" of this word holds the data, and this data is encoded
 	// in the specified "m_charset".
diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 404a57b..249c5d4 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -124,7 +124,7 @@ static size_t getUTF8CharLength(
 }
 
 
-const string wordEncoder::getNextChunk(const size_t maxLength) {
+const string wordEncoder::getNextChunk(const size_t maxLength, const size_t hardMaxLength) {
 
 	const size_t remaining = m_length - m_pos;
 
@@ -146,9 +146,13 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			// Here, we have a formula to compute the maximum number of source
 			// bytes to encode knowing the maximum number of encoded chars. In
 			// Base64 encoding, 3 bytes of input provide 4 bytes of output.
-			const size_t inputCount =
+			size_t inputCount =
 				std::min(remaining, (maxLength > 1) ? ((maxLength - 1) * 3) / 4 : 1);
 
+			if (((inputCount + 2) / 3) * 4 > hardMaxLength) {
+				inputCount = std::max(static_cast <size_t>(1), (hardMaxLength / 4) * 3);
+			}
+
 			// Encode chunk
 			utility::inputStreamStringAdapter in(m_buffer, m_pos, m_pos + inputCount);
 
@@ -166,9 +170,14 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			while ((inputCount == 0 || outputCount < maxLength) && (inputCount < remaining)) {
 
 				const unsigned char c = m_buffer[m_pos + inputCount];
+				const size_t encodedLength = utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+
+				if (inputCount != 0 && outputCount + encodedLength > hardMaxLength) {
+					break;
+				}
 
 				inputCount++;
-				outputCount += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+				outputCount += encodedLength;
 			}
 
 			// Encode chunk
@@ -187,41 +196,55 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 		size_t outputCount = 0;
 		string encodeBuffer;
 
-		while ((inputCount == 0 || outputCount < maxLength) && (inputCount < remaining)) {
+		// The characters of a chunk are converted all together, as the charset
+		// may be stateful (eg. ISO-2022-JP, UTF-7)
+		if (remaining < maxLength / 64 && remaining < hardMaxLength / 64) {
+
+			// No limit, in practice
+			inputCount = remaining;
+			conv->convert(string(m_buffer, m_pos, remaining), encodeBuffer);
+
+		} else {
+
+			while ((inputCount == 0 || outputCount < maxLength) && (inputCount < remaining)) {
 
-			// Get the next UTF8 character
-			const size_t inputCharLength =
-				getUTF8CharLength(m_buffer, m_pos + inputCount, m_length);
+				// Add the next UTF8 character
+				const size_t inputCharLength =
+					getUTF8CharLength(m_buffer, m_pos + inputCount, m_length);
 
-			const string inputChar(
-				m_buffer.begin() + m_pos + inputCount,
-				m_buffer.begin() + m_pos + inputCount + inputCharLength
-			);
+				// Convert back to original encoding
+				string encodeBytes;
+				conv->convert(string(m_buffer, m_pos, inputCount + inputCharLength), encodeBytes);
 
-			// Convert back to original encoding
-			string encodeBytes;
-			conv->convert(inputChar, encodeBytes);
+				// Compute number of output bytes
+				size_t encodedLength = 0;
 
-			encodeBuffer += encodeBytes;
+				if (m_encoding == ENCODING_B64) {
 
-			// Compute number of output bytes
-			if (m_encoding == ENCODING_B64) {
+					encodedLength = ((encodeBytes.length() + 2) / 3) * 4;
 
-				outputCount = std::max(
-					static_cast <size_t>(4),
-					(encodeBuffer.length() * 4) / 3
-				);
+				} else {  // ENCODING_QP
 
-			} else {  // ENCODING_QP
+					for (size_t i = 0, n = encodeBytes.length() ; i < n ; ++i) {
 
-				for (size_t i = 0, n = encodeBytes.length() ; i < n ; ++i) {
+						const unsigned char c = encodeBytes[i];
+						encodedLength += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+					}
+				}
 
-					const unsigned char c = encodeBytes[i];
-					outputCount += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+				if (inputCount != 0 && encodedLength > hardMaxLength) {
+					break;
 				}
-			}
 
-			inputCount += inputCharLength;
+				if (m_encoding == ENCODING_B64) {
+					outputCount = std::max(static_cast <size_t>(4), (encodeBytes.length() * 4) / 3);
+				} else {
+					outputCount = encodedLength;
+				}
+
+				encodeBuffer = encodeBytes;
+				inputCount += inputCharLength;
+			}
 		}
 
 		// Encode chunk
diff --git a/src/vmime/wordEncoder.hpp b/src/vmime/wordEncoder.hpp
index e37bbe7..b2c1ef0 100644
--- a/src/vmime/wordEncoder.hpp
+++ b/src/vmime/wordEncoder.hpp
@@ -64,9 +64,11 @@ public:
 	/** Return the next chunk in the word.
 	  *
 	  * @param maxLength maximal length of the chunk
-	  * @return next chunk, of maximal length 'maxLength' if possible
+	  * @param hardMaxLength length which is never exceeded, unless by a single character
+	  * @return next chunk, of maximal length 'maxLength' if possible (it may be
+	  * longer in order not to split a character)
 	  */
-	const string getNextChunk(const size_t maxLength);
+	const string getNextChunk(const size_t maxLength, const size_t hardMaxLength = string::npos);
 
 	/** Return the encoding used.
 	  *
-- 
2.43.0


From ebb0ccfe5a55e7cdeba735c1f565ff1e5b6749ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 010/143] fix: parameters: control characters, encoded-word
 look-alikes, empty values, quoting of long values, order of sections

---
 src/vmime/parameter.cpp                | 120 ++++++++++++++++++-------
 src/vmime/parameter.hpp                |   2 +
 src/vmime/parameterizedHeaderField.cpp |  58 ++++++++----
 3 files changed, 131 insertions(+), 49 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 5cb5b75..7f8d4ac 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -252,6 +252,25 @@ void parameter::parse(
     		// Content-Type: image/png;
 			//    name="=?us-ascii?Q?Logo_VMime=2Epng?="
 
+			// Only do this when there may be such an encoded word: the value
+			// of a quoted-string should be left as it is.
+			if (chunk.extended || chunk.data.find("=?") == string::npos) {
+
+				// Unfold
+				for (size_t i = 0, len = chunk.data.length() ; i < len ; ++i) {
+
+					if (chunk.data[i] == '\n' ||
+					    (chunk.data[i] == '\r' && i + 1 < len && chunk.data[i + 1] == '\n')) {
+
+						continue;
+					}
+
+					value << chunk.data[i];
+				}
+
+				continue;
+			}
+
 			// Using 'vmime::text' to parse the data is safe even
 			// if the data is not encoded, because it can recover
 			// from parsing errors.
@@ -326,18 +345,28 @@ void parameter::generateImpl(
 		pos = NEW_LINE_SEQUENCE_LENGTH;
 	}
 
-	bool needQuoting = false;
+	bool needQuoting = value.empty();
 	bool needQuotedPrintable = false;
+	bool hasSpecials = false;
 	size_t valueLength = 0;
 
 	// Use worst-case length name.length()+2 for 'name=' part of line
-	for (size_t i = 0 ; (i < value.length()) && (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) ; ++i, ++valueLength) {
+	for (size_t i = 0 ; i < value.length() ; ++i) {
+
+		if (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) {
+			++valueLength;
+		}
 
 		switch (value[i]) {
 
 			// Characters that need to be quoted _and_ escaped
 			case '"':
 			case '\\':
+
+				hasSpecials = true;
+				needQuoting = true;
+				break;
+
 			// Other characters that need quoting
 			case ' ':
 			case '\t':
@@ -360,7 +389,9 @@ void parameter::generateImpl(
 
 			default:
 
-				if (!parserHelpers::isAscii(value[i])) {
+				// 8-bit and control characters (including line breaks)
+				if (!parserHelpers::isAscii(value[i]) || !parserHelpers::isPrint(value[i])) {
+					hasSpecials = true;
 					needQuotedPrintable = true;
 					needQuoting = true;
 				}
@@ -369,8 +400,42 @@ void parameter::generateImpl(
 		}
 	}
 
+	// The value would be decoded as an encoded word
+	if (value.find("=?") != string::npos) {
+		hasSpecials = true;
+		needQuotedPrintable = true;
+	}
+
 	const bool cutValue = (valueLength != value.length());  // has the value been cut?
 
+	// Check whether there is a recommended encoding for this charset.
+	// If so, the whole buffer will be encoded. Else, the number of
+	// 7-bit (ASCII) bytes in the input will be used to determine if
+	// we need to encode the whole buffer.
+	encoding recommendedEnc;
+	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
+	bool extended = alwaysEncode;
+
+	// Send the name in quoted-printable, so outlook express et.al.
+	// will understand the real filename
+	const bool sendEncodedWords =
+		(needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
+		genMode != generationContext::PARAMETER_VALUE_NO_ENCODING;
+
+	string encodedWords;
+
+	if (sendEncodedWords) {
+
+		utility::outputStreamStringAdapter encodedWordsStream(encodedWords);
+
+		m_value->generate(
+			generationContext::getDefaultContext(), encodedWordsStream, 0, NULL,
+			hasSpecials ? text::FORCE_ENCODING : 0, NULL
+		);
+
+		needQuoting = needQuoting || encodedWords.find("=?") != string::npos;
+	}
+
 	if (needQuoting) {
 
 		sevenBitStream << name << "=\"";
@@ -382,22 +447,10 @@ void parameter::generateImpl(
 		pos += name.length() + 1;
 	}
 
-	// Check whether there is a recommended encoding for this charset.
-	// If so, the whole buffer will be encoded. Else, the number of
-	// 7-bit (ASCII) bytes in the input will be used to determine if
-	// we need to encode the whole buffer.
-	encoding recommendedEnc;
-	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
-	bool extended = alwaysEncode;
-
-	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
-	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
+	if (sendEncodedWords) {
 
-		// Send the name in quoted-printable, so outlook express et.al.
-		// will understand the real filename
-		size_t oldLen = sevenBitBuffer.length();
-		m_value->generate(sevenBitStream);
-		pos += sevenBitBuffer.length() - oldLen;
+		sevenBitStream << encodedWords;
+		pos += encodedWords.length();
 		extended = true;		// also send with RFC-2231 encoding
 
 	} else {
@@ -413,7 +466,7 @@ void parameter::generateImpl(
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
 
-			} else if (parserHelpers::isAscii(c)) {
+			} else if (parserHelpers::isAscii(c) && (parserHelpers::isPrint(c) || c == '\t')) {
 
 				sevenBitStream << value[i];
 				++pos;
@@ -566,7 +619,7 @@ void parameter::generateImpl(
 			}
 		}
 
-		if (!currentSection.empty()) {
+		if (!currentSection.empty() || sectionCount == 0) {
 
 			sectionText.push_back(currentSection);
 			sectionCount++;
@@ -623,21 +676,28 @@ size_t parameter::getGeneratedSize(const generationContext& ctx) {
 	const string& name = m_name;
 	const string& value = m_value->getBuffer();
 
-	const size_t bytesNeedingEncoding =
-		value.length() - utility::stringUtils::countASCIIchars(value.begin(), value.end());
-
 	const size_t valueLength = value.length();
 
-	// Compute generated length in the very worst case
+	// Compute generated length in the very worst case: every byte is encoded
+	const size_t bytesNeedingEncoding = valueLength;
+
+	// Non-encoded parameter + value (worst case: quoting + encoded words)
+	const size_t encodedWordOverhead = 7 /* =?...?Q?...?= */
+		+ m_value->getCharset().getName().length()
+		+ m_value->getLanguage().length() + 1 /* * */ + NEW_LINE_SEQUENCE_LENGTH + 3;
 
-	// Non-encoded parameter + value (worst case: quoting + QP)
-	size_t len = name.length() + 1 /* = */ + 2 /* "" */ + 7 /* =?...?Q?...?= */
-		+ m_value->getCharset().getName().length() + valueLength + bytesNeedingEncoding * 2 + 1 /* ; */;
+	const size_t encodedCharsPerWord = (encodedWordOverhead + 16 < 76) ? 76 - encodedWordOverhead - 8 : 1;
+
+	size_t len = name.length() + 1 /* = */ + 2 /* "" */ + 1 /* ; */
+		+ valueLength + bytesNeedingEncoding * 2
+		+ encodedWordOverhead * (1 + (valueLength + bytesNeedingEncoding * 2) / encodedCharsPerWord);
 
 	// Encoded parameter + value
+	const size_t sectionOverhead =
+		  2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH + name.length() + 10 /* *00000*= */ + 1 /* ; */;
+
 	const size_t maxEncodedValueLengthOnLine =
-		  ctx.getMaxLineLength() - 2 /* CRLF */ - NEW_LINE_SEQUENCE_LENGTH
-		- name.length() - 5 /* *00*= */ - 1 /* ; */;
+		(ctx.getMaxLineLength() > sectionOverhead + 3) ? ctx.getMaxLineLength() - sectionOverhead - 3 : 1;
 
 	const size_t encodedValueLength = (valueLength + bytesNeedingEncoding * 2)
 		+ m_value->getCharset().getName().length() + m_value->getLanguage().length() + 2 /* 2 x ' */;
@@ -645,7 +705,7 @@ size_t parameter::getGeneratedSize(const generationContext& ctx) {
 	const size_t numberOfSections = 1 /* worst case: generation starts at the end of a line */
 		+ std::max(size_t(1), encodedValueLength / maxEncodedValueLengthOnLine);
 
-	len += numberOfSections * (name.length() + 5 /* *00*= */ + 1 /* ; */ + 2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH) + encodedValueLength;
+	len += numberOfSections * sectionOverhead + encodedValueLength;
 
 	return len;
 
diff --git a/src/vmime/parameter.hpp b/src/vmime/parameter.hpp
index cd4ac49..e0ee683 100644
--- a/src/vmime/parameter.hpp
+++ b/src/vmime/parameter.hpp
@@ -74,6 +74,8 @@ public:
 	  */
 	struct valueChunk {
 		bool encoded;
+		bool extended;  // RFC-2231 section or value
+		size_t section;
 		string data;
 	};
 
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..7051dc8 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -129,7 +129,7 @@ void parameterizedHeaderField::parseImpl(
 			}
 		}
 
-		while (*p == ';') {
+		while (p < pend && *p == ';') {
 
 			// Skip ';'
 			++p;
@@ -169,7 +169,9 @@ void parameterizedHeaderField::parseImpl(
 				string value;
 
 				// -- this is a quoted-string
-				if (*p == '"') {
+				const bool isQuoted = (p < pend && *p == '"');
+
+				if (isQuoted) {
 
 					// Skip '"'
 					++p;
@@ -249,13 +251,14 @@ void parameterizedHeaderField::parseImpl(
 				}
 
 				// Don't allow ill-formed parameters
-				if (attrStart != attrEnd && value.length()) {
+				if (attrStart != attrEnd && (isQuoted || value.length())) {
 
 					string name(buffer.begin() + attrStart, buffer.begin() + attrEnd);
 
 					// Check for RFC-2231 extended parameters
 					bool extended = false;
 					bool encoded = false;
+					size_t section = 0;
 
 					if (name[name.length() - 1] == '*') {
 
@@ -277,13 +280,15 @@ void parameterizedHeaderField::parseImpl(
 						}
 
 						if (allDigits) {
+
+							// The sections may not appear in order
+							for (size_t i = star + 1 ; i < name.length() && section < 1000000 ; ++i) {
+								section = section * 10 + (name[i] - '0');
+							}
+
 							name.erase(name.begin() + star, name.end());
 							extended = true;
 						}
-
-						// NOTE: we ignore section number, and we suppose that
-						// the sequence is correct (ie. the sections appear
-						// in order: param*0, param*1...)
 					}
 
 					// Add/replace/modify the parameter
@@ -293,26 +298,41 @@ void parameterizedHeaderField::parseImpl(
 
 						paramInfo& info = (*it).second;
 
-						// An extended parameter replaces a normal one
-						if (!info.extended) {
+						// A normal parameter does not replace an extended one
+						if (extended || !info.extended) {
 
-							info.extended = extended;
-							info.value.clear();
-							info.start = attrStart;
-						}
+							// An extended parameter replaces a normal one
+							if (!info.extended) {
 
-						// Append a new section for a multi-section parameter
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
+								info.extended = extended;
+								info.value.clear();
+								info.start = attrStart;
+							}
 
-						info.value.push_back(chunk);
-						info.end = position + (p - pstart);
+							// Append a new section for a multi-section parameter
+							parameter::valueChunk chunk;
+							chunk.encoded = encoded;
+							chunk.extended = extended;
+							chunk.section = section;
+							chunk.data = value;
+
+							// The sections are kept in order
+							std::vector <parameter::valueChunk>::iterator pos = info.value.end();
+
+							while (pos != info.value.begin() && section < (pos - 1)->section) {
+								--pos;
+							}
+
+							info.value.insert(pos, chunk);
+							info.end = position + (p - pstart);
+						}
 
 					} else {
 
 						parameter::valueChunk chunk;
 						chunk.encoded = encoded;
+						chunk.extended = extended;
+						chunk.section = section;
 						chunk.data = value;
 
 						paramInfo info;
-- 
2.43.0


From 67287cae8a8b7f475b02abe8cd81739149de39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 011/143] fix: a line break in the value of a header field is
 never generated unless it is a fold

---
 src/vmime/headerField.cpp | 59 +++++++++++++++++++++++++++++++++++++--
 src/vmime/headerField.hpp |  2 ++
 2 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..aa73827 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -26,6 +26,8 @@
 
 #include "vmime/parserHelpers.hpp"
 
+#include "vmime/utility/outputStreamStringAdapter.hpp"
+
 #include "vmime/exception.hpp"
 
 
@@ -123,7 +125,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] != ':') {
+			if (pos >= end || buffer[pos] != ':') {
 
 				// header field recovery is necessary, update flag in parsing context
 				ctx.setHeaderRecoveryNeeded(true);
@@ -248,7 +250,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] == '\n') {
+			if (pos < end) {
 				++pos;
 			}
 		}
@@ -283,7 +285,58 @@ void headerField::generateImpl(
 
 	os << m_name + ": ";
 
-	m_value->generate(ctx, os, curLinePos + m_name.length() + 2, newLinePos);
+	string value;
+	utility::outputStreamStringAdapter vos(value);
+
+	m_value->generate(ctx, vos, curLinePos + m_name.length() + 2, newLinePos);
+
+	// A line break in the value may only be a fold, otherwise the remaining
+	// of the value would be interpreted as other fields, or as the body
+	removeBareLineBreaks(value);
+
+	os << value;
+}
+
+
+// static
+void headerField::removeBareLineBreaks(string& value) {
+
+	const size_t len = value.length();
+
+	if (value.find_first_of("\r\n") == string::npos) {
+		return;
+	}
+
+	string result;
+	result.reserve(len);
+
+	for (size_t i = 0 ; i < len ; ++i) {
+
+		const char_t c = value[i];
+
+		if (c == '\r' && i + 2 < len && value[i + 1] == '\n' &&
+		    (value[i + 2] == ' ' || value[i + 2] == '\t')) {
+
+			// Folding is not allowed if the next line only contains white-spaces
+			size_t j = i + 2;
+
+			while (j < len && (value[j] == ' ' || value[j] == '\t')) {
+				++j;
+			}
+
+			if (j < len && value[j] != '\r' && value[j] != '\n') {
+				result += CRLF;
+			}
+
+			++i;
+
+		} else if (c != '\r' && c != '\n') {
+
+			result += c;
+		}
+	}
+
+	value = result;
 }
 
 
diff --git a/src/vmime/headerField.hpp b/src/vmime/headerField.hpp
index dba5719..cb9d2d2 100644
--- a/src/vmime/headerField.hpp
+++ b/src/vmime/headerField.hpp
@@ -179,6 +179,8 @@ protected:
 		size_t* newLinePos = NULL
 	) const;
 
+	static void removeBareLineBreaks(string& value);
+
 
 	string m_name;
 	shared_ptr <headerFieldValue> m_value;
-- 
2.43.0


From cccc27d4bbca6c9459046625bdf5203892cba392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 012/143] fix: line lengths and announced size of generated
 header fields

---
 src/vmime/addressList.cpp       |  2 +-
 src/vmime/headerField.cpp       |  8 +++++++-
 src/vmime/messageIdSequence.cpp |  2 +-
 src/vmime/parameter.cpp         | 22 +++++++++++++---------
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 75f6224..7767eeb 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -94,7 +94,7 @@ void addressList::generateImpl(
 
 		for (std::vector <shared_ptr <address> >::const_iterator i = m_list.begin() ; ; ) {
 
-			(*i)->generate(ctx, os, pos, &pos);
+			(*i)->generate(tmpCtx, os, pos, &pos);
 
 			if (++i == m_list.end()) {
 				break;
diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index aa73827..4f51e7c 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -342,7 +342,13 @@ void headerField::removeBareLineBreaks(string& value) {
 
 size_t headerField::getGeneratedSize(const generationContext& ctx) {
 
-	return m_name.length() + 2 /* ": " */ + m_value->getGeneratedSize(ctx);
+	// The place where the value is folded depends on the length of the name
+	string value;
+	utility::outputStreamStringAdapter vos(value);
+
+	m_value->generate(ctx, vos, m_name.length() + 2, NULL);
+
+	return m_name.length() + 2 /* ": " */ + value.length();
 }
 
 
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index e1d324a..f5d30d8 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -128,7 +128,7 @@ void messageIdSequence::generateImpl(
 
 		for (std::vector <shared_ptr <messageId> >::const_iterator it = m_list.begin() ; ; ) {
 
-			(*it)->generate(ctx, os, pos, &pos);
+			(*it)->generate(tmpCtx, os, pos, &pos);
 
 			if (++it == m_list.end()) {
 				break;
diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 7f8d4ac..9dc9e86 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -25,6 +25,7 @@
 #include "vmime/parserHelpers.hpp"
 
 #include "vmime/text.hpp"
+
 #include "vmime/encoding.hpp"
 
 #include "vmime/utility/outputStreamAdapter.hpp"
@@ -607,14 +608,12 @@ void parameter::generateImpl(
 				currentSection += "0123456789ABCDEF"[h1];
 				currentSection += "0123456789ABCDEF"[h2];
 
-				pos += 3;
 				currentSectionLength += 3;
 
 			} else {
 
 				currentSection += value[i];
 
-				++pos;
 				++currentSectionLength;
 			}
 		}
@@ -628,23 +627,28 @@ void parameter::generateImpl(
 		// Output sections
 		for (int sectionNumber = 0 ; sectionNumber < sectionCount ; ++sectionNumber) {
 
-			os << name;
+			string section = name;
 
 			if (sectionCount != 1) {  // no section specifier when only a single one
 
-				os << '*';
-				os << sectionNumber;
+				section += '*';
+				section += utility::stringUtils::toString(sectionNumber);
 			}
 
-			os << "*=";
+			section += "*=";
 
 			if (sectionNumber == 0) {
 
-				os << m_value->getCharset().getName();
-				os << '\'' << /* No language */ '\'';
+				section += m_value->getCharset().getName();
+				section += '\'';
+				/* No language */
+				section += '\'';
 			}
 
-			os << sectionText[sectionNumber];
+			section += sectionText[sectionNumber];
+
+			os << section;
+			pos += section.length();
 
 			if (sectionNumber + 1 < sectionCount) {
 
-- 
2.43.0


From 92529a8df1b007d247487a9a60e2741a9035fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 013/143] fix: address lists: quoting of names and local parts,
 names longer than a line, special characters in quoted strings

---
 src/vmime/address.cpp      |  22 ++++++--
 src/vmime/mailbox.cpp      | 100 +++++++++++++++++++++++++++++++------
 src/vmime/mailboxGroup.cpp |  76 +++++++++++++++++-----------
 3 files changed, 149 insertions(+), 49 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index 5703a38..237e306 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -112,27 +112,39 @@ shared_ptr <address> address::parseNext(
 
 				case '"':
 
-					quoted = !quoted;
+					if (commentLevel == 0) {
+						quoted = !quoted;
+					}
+
 					break;
 
 				case '<':
 
-					inRouteAddr = true;
+					if (commentLevel == 0 && !quoted) {
+						inRouteAddr = true;
+					}
+
 					break;
 
 				case '>':
 
-					inRouteAddr = false;
+					if (commentLevel == 0 && !quoted) {
+						inRouteAddr = false;
+					}
+
 					break;
 
 				case '(':
 
-					++commentLevel;
+					if (!quoted) {
+						++commentLevel;
+					}
+
 					break;
 
 				case ')':
 
-					if (commentLevel > 0) {
+					if (!quoted && commentLevel > 0) {
 						--commentLevel;
 					}
 
diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..b40f0e1 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -23,7 +23,9 @@
 
 #include "vmime/mailbox.hpp"
 #include "vmime/parserHelpers.hpp"
+#include "vmime/wordEncoder.hpp"
 #include "vmime/utility/outputStreamStringAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -55,6 +57,20 @@ mailbox::mailbox(const text& name, const emailAddress& email)
 }
 
 
+// Returns a pointer past the closing quote of the quoted string which starts at 'p'
+static const char* skipQuotedString(const char* p, const char* const pend) {
+
+	for (++p ; p < pend && *p != '"' ; ++p) {
+
+		if (*p == '\\' && p + 1 < pend) {
+			++p;
+		}
+	}
+
+	return p < pend ? p + 1 : pend;
+}
+
+
 /*
 
  RFC #2822:
@@ -102,6 +118,8 @@ void mailbox::parseImpl(
 		if (state == State_None) {
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+			if (p >= pend)
+				break;
 			if (*p == ',' || *p == ';')
 				/* Completely new mailbox -- stop parsing this one. */
 				break;
@@ -110,6 +128,11 @@ void mailbox::parseImpl(
 				continue;
 			}
 			if (*p == '"') {  // Quoted string
+				const char* const q = skipQuotedString(p, pend);
+				if (q != pend && *q == '@') {  // Quoted local-part
+					state = State_Address_Unbracketed;
+					continue;
+				}
 				state = State_String;
 				++p;
 				continue;
@@ -154,6 +177,13 @@ void mailbox::parseImpl(
 					} else if (*p == ')') {
 						--comment;
 					}
+				} else if (*p == '"') {
+					// Quoted local-part
+					const char* const q = skipQuotedString(p, pend);
+					address.append(p, q);
+					name.append(p, q);
+					hold += static_cast <unsigned int>(q - p);
+					p = q - 1;
 				} else if (*p == '(') {
 					++comment;
 				} else if (*p == '\\') {
@@ -195,6 +225,13 @@ void mailbox::parseImpl(
 						++comment;
 					else if (*p == ')')
 						--comment;
+				} else if (*p == '"') {
+					// Quoted local-part
+					const char* const q = skipQuotedString(p, pend);
+					address.append(p, q);
+					name.append(p, q);
+					hold += static_cast <unsigned int>(q - p);
+					p = q - 1;
 				} else if (*p == '(') {
 					++comment;
 				} else if (*p == '\\') {
@@ -339,7 +376,7 @@ void mailbox::generateImpl(
 		if (curLinePos + generatedEmail.length() > ctx.getMaxLineLength()) {
 
 			os << NEW_LINE_SEQUENCE;
-			pos = NEW_LINE_SEQUENCE.length();
+			pos = NEW_LINE_SEQUENCE_LENGTH;
 		}
 
 		os << generatedEmail;
@@ -351,33 +388,68 @@ void mailbox::generateImpl(
 
 	} else {
 
-		// We have to encode the name:
-		//   - if it contains characters in a charset different from "US-ASCII",
-		//   - and/or if it contains one or more of these special chars:
-		//        CR  LF  TAB  "  ;  ,  <  >  (  )  @  /  ?  .  =  :
-		//     these special chars only require quoting, not full encoding
-		// Check whether there are words that are not "US-ASCII"
-		// and/or contain the special chars.
+		// We have to encode the name if it contains characters in a charset
+		// different from "US-ASCII", or which cannot be quoted
 		bool forceEncode = false;
+		string name;
 
 		for (size_t w = 0 ; !forceEncode && w != m_name.getWordCount() ; ++w) {
 
-			if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII)) {
+			const word& nameWord = *m_name.getWordAt(w);
+
+			if (nameWord.getCharset() != charset(charsets::US_ASCII) ||
+			    wordEncoder::isEncodingNeeded(ctx, nameWord.getBuffer(), nameWord.getCharset(), nameWord.getLanguage())) {
+
 				forceEncode = true;
 			}
+
+			name += nameWord.getBuffer();
+		}
+
+		// White-spaces at the beginning, at the end, or in sequence would not be
+		// preserved, and nor would be words which, together, look like an encoded word
+		if (name.empty() ||
+		    parserHelpers::isSpace(name[0]) || parserHelpers::isSpace(name[name.length() - 1]) ||
+		    name.find("=?") != string::npos || name.find('\t') != string::npos) {
+
+			forceEncode = true;
 		}
 
+		// Other special characters only require quoting, not full encoding. If there is
+		// not enough space on the current line to hold the whole quoted name, start a new
+		// line. If it does not fit on a line, encode it.
 		size_t pos = curLinePos;
 
-		m_name.encodeAndFold(
-			ctx, os, pos, &pos,
-			text::QUOTE_IF_POSSIBLE | (forceEncode ? text::FORCE_ENCODING : 0)
-		);
+		const string quotedName =
+			'"' + utility::stringUtils::quote(name, "\\\"", "\\") + '"';
+
+		if (!forceEncode && pos + quotedName.length() >= ctx.getMaxLineLength()) {
+
+			if (NEW_LINE_SEQUENCE_LENGTH + quotedName.length() > ctx.getMaxLineLength()) {
+
+				forceEncode = true;
+
+			} else {
+
+				os << NEW_LINE_SEQUENCE;
+				pos = NEW_LINE_SEQUENCE_LENGTH;
+			}
+		}
+
+		if (forceEncode) {
+
+			m_name.encodeAndFold(ctx, os, pos, &pos, text::FORCE_ENCODING);
+
+		} else {
+
+			os << quotedName;
+			pos += quotedName.length();
+		}
 
 		if (pos + generatedEmail.length() + 3 > ctx.getMaxLineLength()) {
 
 			os << NEW_LINE_SEQUENCE;
-			pos = NEW_LINE_SEQUENCE.length();
+			pos = NEW_LINE_SEQUENCE_LENGTH;
 		}
 
 		os << " <" << generatedEmail << ">";
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index ff9c74f..7cf8a4d 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -71,8 +71,23 @@ void mailboxGroup::parseImpl(
 
 	string name;
 
-	while (p < pend && *p != ':') {
-		name += *p;
+	bool quoted = false;
+
+	while (p < pend && (quoted || *p != ':')) {
+
+		if (*p == '"') {
+
+			quoted = !quoted;
+
+		} else {
+
+			if (*p == '\\' && p + 1 < pend) {
+				++p;
+			}
+
+			name += *p;
+		}
+
 		++p;
 	}
 
@@ -81,6 +96,8 @@ void mailboxGroup::parseImpl(
 	}
 
 
+	m_list.clear();
+
 	size_t pos = position + (p - pstart);
 	bool isLastAddressOfGroup = false;
 
@@ -122,39 +139,38 @@ void mailboxGroup::generateImpl(
 	// We have to encode the name:
 	//   - if it contains characters in a charset different from "US-ASCII",
 	//   - and/or if it contains one or more of these special chars:
-	//        SPACE  TAB  "  ;  ,  <  >  (  )  @  /  ?  .  =  :
+	//        SPACE  TAB  "  \  ;  ,  <  >  (  )  @  /  ?  .  =  :
 
-	// Check whether there are words that are not "US-ASCII"
-	// and/or contain the special chars.
+	// Check whether there are words that contain the special chars
+	// (words that are not "US-ASCII" are encoded when needed).
 	bool forceEncode = false;
 
 	for (size_t w = 0 ; !forceEncode && w < m_name.getWordCount() ; ++w) {
 
-		if (m_name.getWordAt(w)->getCharset() == charset(charsets::US_ASCII)) {
-
-			const string& buffer = m_name.getWordAt(w)->getBuffer();
-
-			for (string::const_iterator c = buffer.begin() ;
-			     !forceEncode && c != buffer.end() ; ++c) {
-
-				switch (*c) {
-
-					case ' ':
-					case '\t':
-					case ';':
-					case ',':
-					case '<': case '>':
-					case '(': case ')':
-					case '@':
-					case '/':
-					case '?':
-					case '.':
-					case '=':
-					case ':':
-
-						forceEncode = true;
-						break;
-				}
+		const string& buffer = m_name.getWordAt(w)->getBuffer();
+
+		for (string::const_iterator c = buffer.begin() ;
+		     !forceEncode && c != buffer.end() ; ++c) {
+
+			switch (*c) {
+
+				case ' ':
+				case '\t':
+				case '"':
+				case '\\':
+				case ';':
+				case ',':
+				case '<': case '>':
+				case '(': case ')':
+				case '@':
+				case '/':
+				case '?':
+				case '.':
+				case '=':
+				case ':':
+
+					forceEncode = true;
+					break;
 			}
 		}
 	}
-- 
2.43.0


From 37134d2ea5e53ca6b42f9166c057bbc741598ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 014/143] fix: dates: fields which are not specified, leap
 seconds, digit overflow, current time when daylight saving time ends

---
 src/vmime/dateTime.cpp                     | 53 +++++++++++++---------
 src/vmime/platforms/posix/posixHandler.cpp | 18 ++++----
 2 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..d8a3bb6 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -75,6 +75,13 @@ static const char* monthNames[] = {
 	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
 };
 
+// Appends a digit to a number (does not overflow, whatever the number of digits)
+static int appendDigit(const int number, const char_t digit) {
+
+	return std::min(number, 100000) * 10 + (digit - '0');
+}
+
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -86,6 +93,17 @@ void datetime::parseImpl(
 	const char* const pend = buffer.data() + end;
 	const char* p = buffer.data() + position;
 
+	// Fields which are not specified
+	m_year = 1970;
+	m_month = JANUARY;
+	m_day = 1;
+
+	m_hour = 0;
+	m_minute = 0;
+	m_second = 0;
+
+	m_zone = 0;
+
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
 
@@ -102,7 +120,7 @@ void datetime::parseImpl(
 
 		bool dayParsed = false;
 
-		if (parserHelpers::isAlpha(*p)) {
+		if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			// Ill-formed date/time, this may be the month,
 			// so we skip day parsing (will be done later)
@@ -117,7 +135,7 @@ void datetime::parseImpl(
 				int day = 0;
 
 				do {
-					day = day * 10 + (*p - '0');
+					day = appendDigit(day, *p);
 					++p;
 				} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -240,7 +258,7 @@ void datetime::parseImpl(
 
 			m_month = JANUARY;
 
-			if (parserHelpers::isDigit(*p)) {
+			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Here, we expected a month, but it maybe
 				// a ill-formed date, so try to parse a year
@@ -260,7 +278,7 @@ void datetime::parseImpl(
 			int day = 0;
 
 			do {
-				day = day * 10 + (*p - '0');
+				day = appendDigit(day, *p);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -285,7 +303,7 @@ void datetime::parseImpl(
 				int year = 0;
 
 				do {
-					year = year * 10 + (*p - '0');
+					year = appendDigit(year, *p);
 					++p;
 				} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -312,7 +330,7 @@ void datetime::parseImpl(
 			int hour = 0;
 
 			do {
-				hour = hour * 10 + (*p - '0');
+				hour = appendDigit(hour, *p);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -332,7 +350,7 @@ void datetime::parseImpl(
 					int minute = 0;
 
 					do {
-						minute = minute * 10 + (*p - '0');
+						minute = appendDigit(minute, *p);
 						++p;
 					} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -352,11 +370,11 @@ void datetime::parseImpl(
 							int second = 0;
 
 							do {
-								second = second * 10 + (*p - '0');
+								second = appendDigit(second, *p);
 								++p;
 							} while (p < pend && parserHelpers::isDigit(*p));
 
-							m_second = (second >= 0 && second <= 59) ? second : 0;
+							m_second = (second >= 0 && second <= 60 /* leap second */) ? second : 0;
 
 							while (p < pend && !parserHelpers::isSpace(*p)) ++p;
 							while (p < pend && parserHelpers::isSpace(*p)) ++p;
@@ -399,7 +417,7 @@ void datetime::parseImpl(
 			int offset = 0;
 
 			do {
-				offset = offset * 10 + (*p - '0');
+				offset = appendDigit(offset, *p);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -570,17 +588,6 @@ void datetime::parseImpl(
 			m_zone = 0;
 		}
 
-	} else {
-
-		m_year = 1970;
-		m_month = JANUARY;
-		m_day = 1;
-
-		m_hour = 0;
-		m_minute = 0;
-		m_second = 0;
-
-		m_zone = 0;
 	}
 
 	setParsedBounds(position, end);
@@ -711,7 +718,9 @@ datetime::datetime(const time_t t, const int zone) {
 }
 
 
-datetime::datetime(const string& date) {
+datetime::datetime(const string& date)
+	: m_year(1970), m_month(1), m_day(1),
+	  m_hour(0), m_minute(0), m_second(0), m_zone(0) {
 
 	parse(date);
 }
diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 3e9d196..c4bdc61 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -118,19 +118,21 @@ const vmime::datetime posixHandler::getCurrentLocalTime() const {
 	tm gmt = *::gmtime(&t);  // WARNING: this is not thread-safe!
 #endif
 
-	// "A negative value for tm_isdst causes mktime() to attempt
-	//  to determine whether Daylight Saving Time is in effect
-	//  for the specified time."
-	local.tm_isdst = -1;
-	gmt.tm_isdst = -1;
+	// Calculate the difference (in minutes) between the two broken-down times. They
+	// cannot be converted back to a number of seconds, as local times are ambiguous
+	// when Daylight Saving Time ends.
+	const int dayDiff =
+		(local.tm_year != gmt.tm_year)
+			? (local.tm_year > gmt.tm_year ? 1 : -1)
+			: (local.tm_yday - gmt.tm_yday);
 
-	// Calculate the difference (in seconds)
-	const time_t diff = ::mktime(&local) - ::mktime(&gmt);
+	const int diff =
+		(dayDiff * 24 + local.tm_hour - gmt.tm_hour) * 60 + local.tm_min - gmt.tm_min;
 
 	// Return the date
 	return vmime::datetime(
 		local.tm_year + 1900, local.tm_mon + 1, local.tm_mday,
-		local.tm_hour, local.tm_min, local.tm_sec, static_cast <int>(diff / 60)
+		local.tm_hour, local.tm_min, local.tm_sec, diff
 	);
 }
 
-- 
2.43.0


From 4c9ba5d203571aa7933dacfadee6e2f79427cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 015/143] fix: structured field values: comparisons, copies and
 re-parsing (media types, dispositions, paths, message ids, Received)

---
 src/vmime/contentDisposition.cpp |  2 +-
 src/vmime/disposition.cpp        |  8 +++-
 src/vmime/encoding.cpp           |  2 +-
 src/vmime/mediaType.cpp          |  4 ++
 src/vmime/messageId.cpp          |  7 ++--
 src/vmime/path.cpp               | 13 ++++++-
 src/vmime/relay.cpp              | 66 +++++++++++++-------------------
 7 files changed, 54 insertions(+), 48 deletions(-)

diff --git a/src/vmime/contentDisposition.cpp b/src/vmime/contentDisposition.cpp
index 8c78475..23ea3f3 100644
--- a/src/vmime/contentDisposition.cpp
+++ b/src/vmime/contentDisposition.cpp
@@ -92,7 +92,7 @@ contentDisposition& contentDisposition::operator=(const string& name) {
 
 bool contentDisposition::operator==(const contentDisposition& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index c8fa617..f5cd0d7 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -45,7 +45,9 @@ disposition::disposition(
 	  m_sendingMode(sendingMode),
 	  m_type(type) {
 
-	m_modifiers.push_back(modifier);
+	if (!modifier.empty()) {
+		addModifier(modifier);
+	}
 }
 
 
@@ -283,7 +285,7 @@ void disposition::parseImpl(
 
 			if (modifierEnd > modifierStart) {
 
-				m_modifiers.push_back(
+				addModifier(
 					string(
 						buffer.begin() + modifierStart,
 						buffer.begin() + modifierEnd
@@ -298,6 +300,8 @@ void disposition::parseImpl(
 		}
 	}
 
+	setParsedBounds(position, end);
+
 	if (newPosition) {
 		*newPosition = pos;
 	}
diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index cc89ba8..5b7d8bb 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -140,7 +140,7 @@ encoding& encoding::operator=(const string& name) {
 
 bool encoding::operator==(const encoding& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
diff --git a/src/vmime/mediaType.cpp b/src/vmime/mediaType.cpp
index 46163bc..722cab7 100644
--- a/src/vmime/mediaType.cpp
+++ b/src/vmime/mediaType.cpp
@@ -95,6 +95,10 @@ void mediaType::parseImpl(
 				)
 			)
 		);
+
+	} else {
+
+		m_subType.clear();
 	}
 
 	setParsedBounds(position, end);
diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 35712f3..11e46d5 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -87,13 +87,14 @@ void messageId::parseImpl(
 		if (escape) {
 
 			// Ignore this character
+			escape = false;
 
 		} else {
 
 			switch (*p) {
 
 				case '(': ++commentLevel; break;
-				case ')': --commentLevel; break;
+				case ')': if (commentLevel > 0) --commentLevel; break;
 				case '\\': escape = true; break;
 				case '<': {
 
@@ -110,7 +111,7 @@ void messageId::parseImpl(
 	// Fix for message ids without angle brackets (invalid)
 	bool hasBrackets = true;
 
-	if (p == pend) {  // no opening angle bracket found
+	if (!stop) {  // no opening angle bracket found
 
 		hasBrackets = false;
 		p = pstart;
@@ -132,7 +133,7 @@ void messageId::parseImpl(
 			buffer.begin() + position + (p - pstart)
 		);
 
-		if (p < pend) {
+		if (p < pend && *p == '@') {
 
 			// Skip '@'
 			++p;
diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index a672b22..049def9 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -155,10 +155,17 @@ void path::parseImpl(
 
 	} else {
 
-		addrSpec = string(buffer.begin() + position, buffer.begin() + end);
+		size_t addrEnd = end;
+
+		while (addrEnd > pos && parserHelpers::isSpace(buffer[addrEnd - 1])) {
+			addrEnd--;
+		}
+
+		addrSpec = string(buffer.begin() + pos, buffer.begin() + addrEnd);
 	}
 
-	const size_t at = addrSpec.find_first_of('@');
+	// The local part may be a quoted string which contains this character
+	const size_t at = addrSpec.find_last_of('@');
 
 	if (at != string::npos) {
 
@@ -171,6 +178,8 @@ void path::parseImpl(
 		m_domain = addrSpec;
 	}
 
+	setParsedBounds(position, end);
+
 	if (newPosition) {
 		*newPosition = end;
 	}
diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index f989615..7b46587 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -69,6 +69,14 @@ void relay::parseImpl(
 	const char* const pstart = buffer.data() + position;
 	const char* p = pend - 1;
 
+	m_from.clear();
+	m_by.clear();
+	m_via.clear();
+	m_with.clear();
+	m_id.clear();
+	m_for.clear();
+	m_date = datetime();
+
 	// Find the beginning of the date part
 	while (p >= pstart && *p != ';') {
 		--p;
@@ -102,7 +110,7 @@ void relay::parseImpl(
 
 		Parts part = Part_None;
 		bool cont = true;
-		bool inComment = false;
+		unsigned int commentLevel = 0;
 
 		while (cont) {
 
@@ -110,59 +118,39 @@ void relay::parseImpl(
 
 			if ((cont = !(iss >> word).fail())) {
 
-				// A little hack for handling comments
-				if (inComment) {
-
-					size_t par = word.find(')');
-
-					if (par != string::npos) {
-
-						previous.push_back(string(word.begin(), word.begin() + par + 1));
-						word.erase(word.begin(), word.begin() + par + 1);
-						inComment = false;
-					}
-				}
-
+				// No keyword is expected inside a comment
 				bool keyword = false;
 
-				if (!inComment) {
+				if (commentLevel == 0) {
 
-					if (utility::stringUtils::isStringEqualNoCase(word, "from", 4)) {
+					keyword = true;
 
+					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 						newPart = Part_From;
-						keyword = true;
-
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "by", 2)) {
-
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "by")) {
 						newPart = Part_By;
-						keyword = true;
-
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "via", 2)) {
-
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "via")) {
 						newPart = Part_Via;
-						keyword = true;
-
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "with", 2)) {
-
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "with")) {
 						newPart = Part_With;
-						keyword = true;
-
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "id", 2)) {
-
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "id")) {
 						newPart = Part_Id;
-						keyword = true;
-
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "for", 2)) {
-
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "for")) {
 						newPart = Part_For;
-						keyword = true;
+					} else {
+						keyword = false;
 					}
 				}
 
 				if (!keyword) {
 
-					if (word.find('(') != string::npos) {
-						inComment = true;
+					for (size_t i = 0 ; i < word.length() ; ++i) {
+
+						if (word[i] == '(') {
+							++commentLevel;
+						} else if (word[i] == ')' && commentLevel > 0) {
+							--commentLevel;
+						}
 					}
 
 					previous.push_back(word);
-- 
2.43.0


From bf416d5978bd77745f3ec19ca21d6e37f201aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 016/143] fix: multipart bodies: boundary detection stays in
 the region of the body, raw prolog and epilog text, announced size; parts
 keep track of their parent; copies of messages, parts, bodies and headers are
 deep

---
 src/vmime/body.cpp     | 324 +++++++++++++++++++++++++++--------------
 src/vmime/body.hpp     |   6 +-
 src/vmime/bodyPart.cpp |  30 +++-
 src/vmime/bodyPart.hpp |   2 +
 src/vmime/header.cpp   |   7 +
 src/vmime/header.hpp   |   1 +
 src/vmime/message.cpp  |  10 ++
 src/vmime/message.hpp  |   2 +
 8 files changed, 268 insertions(+), 114 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..7504a8e 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -49,12 +49,23 @@ body::body()
 }
 
 
+body::body(const body& other)
+	: component(),
+	  m_contents(make_shared <emptyContentHandler>()),
+	  m_part(nullptr) {
+
+	copyFrom(other);
+}
+
+
 body::~body() {
 
 }
 
 
 /*
+ * start:         beginning of the first line (boundaryStart will not be before)
+ * position:      where to start searching
  * boundaryStart: will become the index for "\r\n--marker"
  * boundaryEnd:   will become the index after "marker", i.e. index for potential trailing "--", "\r\n", etc.
  * return value:  index for "marker"
@@ -63,62 +74,116 @@ body::~body() {
 size_t body::findNextBoundaryPosition(
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
 	const string& boundary,
+	const size_t start,
 	const size_t position,
 	const size_t end,
 	size_t* boundaryStart,
 	size_t* boundaryEnd
 ) {
 
-	size_t pos = position;
-
-	for (; pos != npos && pos < end; ++pos) {
+	for (size_t pos = position ; pos < end ; ++pos) {
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
+		if (pos == npos || pos + boundary.length() > end) {
 			break;  // not found
 		}
 
-		if (pos == 0) {
-			// Boundary is a prefix of another, continue the search (same for the other "continue"s)
-			continue;
-		}
-
 		// Ensure the bytes before boundary are "[LF]--": boundary should be
 		// at the beginning of a line, and should start with "--"
-		if (pos < 3) {
-			continue;
-		}
-		parser->seek(pos - 3);
-		if (!parser->matchBytes("\n--", 3)) {
+		if (pos < start + 2) {
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		const size_t lineStart = pos - 2;
+
+		if (lineStart == start) {
+
+			parser->seek(lineStart);
+
+			if (!parser->matchBytes("--", 2)) {
+				continue;
+			}
+
+		} else {
+
+			parser->seek(lineStart - 1);
 
-		const byte_t next = parser->peekByte();
+			if (!parser->matchBytes("\n--", 3)) {
+				continue;
+			}
+		}
 
 		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+		if (pos + boundary.length() < end) {
+
+			parser->seek(pos + boundary.length());
+
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
-		// Get rid of the "[CR]" just before "[LF]--", if any
+		// Get rid of the "[CR][LF]" just before "--", if any
 		size_t backwards = 0;
-		if (pos >= 4) {
-			parser->seek(pos - 4);
-			if (parser->peekByte() == '\r') {
-				++backwards;
+
+		if (lineStart > start) {
+
+			++backwards;
+
+			if (lineStart > start + 1) {
+
+				parser->seek(lineStart - 2);
+
+				if (parser->peekByte() == '\r') {
+					++backwards;
+				}
 			}
 		}
 
-		*boundaryStart = pos - backwards - 3;
+		*boundaryStart = lineStart - backwards;
 		*boundaryEnd = pos + boundary.length();
 
 		return pos;
 	}
 
-	return pos;
+	return npos;
+}
+
+
+/*
+ * Prolog and epilog text is folded when it is generated: replace line
+ * breaks (and the white space around them) with a single space.
+ */
+static const string unfoldText(const string& str) {
+
+	string res;
+	res.reserve(str.length());
+
+	for (size_t i = 0 ; i < str.length() ; ) {
+
+		const size_t start = i;
+		bool newLine = false;
+
+		while (i < str.length() && parserHelpers::isSpace(str[i])) {
+			newLine = newLine || (str[i] == '\n');
+			++i;
+		}
+
+		if (i == start) {
+			res += str[i++];
+		} else if (start == 0 || i == str.length()) {
+			// Remove leading and trailing white space
+		} else if (newLine) {
+			res += ' ';
+		} else {
+			res.append(str, start, i - start);
+		}
+	}
+
+	return res;
 }
 
 
@@ -134,6 +199,9 @@ void body::parseImpl(
 
 	m_prologText.clear();
 	m_epilogText.clear();
+	m_boundary.clear();
+
+	m_contents = make_shared <emptyContentHandler>();
 
 	if (end == position) {
 
@@ -151,8 +219,11 @@ void body::parseImpl(
 	bool isMultipart = false;
 	string boundary;
 
-	shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	shared_ptr <const contentTypeField> ctf;
+
+	if (m_part) {
+		ctf = m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	}
 
 	if (ctf) {
 
@@ -184,24 +255,21 @@ void body::parseImpl(
 
 					if ((pos != npos) && (pos + 3 < end)) {
 						pos += 3;  // skip \n--
+					} else {
+						pos = npos;
 					}
 				}
 
 				if ((pos != npos) && (pos < end)) {
 
-					parser->seek(pos);
-
 					// Read some bytes after boundary separator
-					byte_t buffer[256];
-					const size_t bufferLen =
-						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
-
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
+					const string buffer =
+						parser->extract(pos, pos + std::min(end - pos, static_cast <size_t>(255)));
 
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
 
-					while (boundarySkip < bufferLen && parserHelpers::isSpace(buffer[boundarySkip])) {
+					while (boundarySkip < buffer.length() && parserHelpers::isSpace(buffer[boundarySkip])) {
 						++boundarySkip;
 					}
 
@@ -211,11 +279,13 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					while (boundaryLen < 100 &&
+					       boundarySkip + boundaryLen < buffer.length() &&
+					       buffer[boundarySkip + boundaryLen] != '\r' &&
+					       buffer[boundarySkip + boundaryLen] != '\n') {
 
-						boundaryBytes[boundaryLen] = c;
+						boundaryBytes[boundaryLen] = buffer[boundarySkip + boundaryLen];
+						++boundaryLen;
 					}
 
 					if (boundaryLen >= 1 && boundaryLen < 100) {
@@ -250,7 +320,7 @@ void body::parseImpl(
 
 		// Find the first boundary
 		size_t boundaryStart, boundaryEnd;
-		pos = findNextBoundaryPosition(parser, boundary, pos, end, &boundaryStart, &boundaryEnd);
+		pos = findNextBoundaryPosition(parser, boundary, partStart, pos, end, &boundaryStart, &boundaryEnd);
 
 		for (int index = 0 ; !lastPart && (pos != npos) && (pos < end) ; ++index) {
 
@@ -287,34 +357,20 @@ void body::parseImpl(
 				 * facilitate broken mails.
 				 */
 				boundaryEnd += parser->skipIf([](char_t c) { return c != '\n'; }, end);
-				pos = findNextBoundaryPosition(parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd);
+				lastPart = false;
+				pos = findNextBoundaryPosition(parser, boundary, partStart, boundaryEnd, end, &boundaryStart, &boundaryEnd);
 				--index;
 				continue;
 			}
 
 			if (index == 0) {
 
-				if (partEnd > partStart) {
-
-					vmime::text text;
-					text.parse(ctx, parser, partStart, partEnd);
-
-					m_prologText = text.getWholeBuffer();
-
-				} else {
-
-					m_prologText = "";
-				}
+				m_prologText = unfoldText(parser->extract(partStart, partEnd));
 
 			} else {  // index > 0
 
-				shared_ptr <bodyPart> part = m_part->createChildPart();
-
-				// End before start may happen on empty bodyparts (directly
-				// successive boundaries without even a line-break)
-				if (partEnd < partStart) {
-					std::swap(partStart, partEnd);
-				}
+				shared_ptr <bodyPart> part = make_shared <bodyPart>();
+			part->m_parent = m_part;
 
 				part->parse(ctx, parser, partStart, partEnd, NULL);
 
@@ -325,16 +381,15 @@ void body::parseImpl(
 
 			// Find the next boundary
 			pos = findNextBoundaryPosition(
-				parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd
+				parser, boundary, partStart, boundaryEnd, end, &boundaryStart, &boundaryEnd
 			);
 		}
 
-		m_contents = make_shared <emptyContentHandler>();
-
 		// Last part was not found: recover from missing boundary
 		if (!lastPart && pos == npos) {
 
-			shared_ptr <bodyPart> part = m_part->createChildPart();
+			shared_ptr <bodyPart> part = make_shared <bodyPart>();
+			part->m_parent = m_part;
 
 			try {
 				part->parse(ctx, parser, partStart, end);
@@ -347,10 +402,7 @@ void body::parseImpl(
 		// Treat remaining text as epilog
 		} else if (partStart < end) {
 
-			vmime::text text;
-			text.parse(ctx, parser, partStart, end);
-
-			m_epilogText = text.getWholeBuffer();
+			m_epilogText = unfoldText(parser->extract(partStart, end));
 		}
 
 	// Treat the contents as 'simple' data
@@ -358,8 +410,11 @@ void body::parseImpl(
 
 		encoding enc;
 
-		shared_ptr <const headerField> cef =
-			m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+		shared_ptr <const headerField> cef;
+
+		if (m_part) {
+			cef = m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+		}
 
 		if (cef) {
 
@@ -382,9 +437,7 @@ void body::parseImpl(
 		m_contents = make_shared <streamContentHandler>(contentStream, length, enc);
 	}
 
-	if (!boundary.empty()) {
-		m_boundary = boundary;
-	}
+	m_boundary = boundary;
 
 	setParsedBounds(position, end);
 
@@ -531,9 +584,24 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 
 		size_t size = 0;
 
+		// Size of boundary: "--", boundary string, "--" (or CRLF before "--"), CRLF
+		size_t boundaryLength = std::max(m_boundary.length(), static_cast <size_t>(50));
+
+		if (m_part) {
+
+			shared_ptr <contentTypeField> ctf =
+				m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+
+			if (ctf && ctf->hasBoundary()) {
+				boundaryLength = ctf->getBoundary().length();
+			}
+		}
+
+		size += boundaryLength + 6;
+
 		// Size of parts and boundaries
 		for (size_t p = 0 ; p < getPartCount() ; ++p) {
-			size += 100;  // boundary, CRLF...
+			size += boundaryLength + 6;
 			size += getPartAt(p)->getGeneratedSize(ctx);
 		}
 
@@ -550,7 +618,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		const text epilogText = getActualEpilogText(ctx);
@@ -565,7 +633,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		return size;
@@ -583,6 +651,9 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 			shared_ptr <utility::encoder::encoder> srcEncoder = m_contents->getEncoding().getEncoder();
 			shared_ptr <utility::encoder::encoder> dstEncoder = getEncoding().getEncoder();
 
+			dstEncoder->getProperties()["maxlinelength"] = ctx.getMaxLineLength();
+			dstEncoder->getProperties()["text"] = (getContentType().getType() == mediaTypes::TEXT);
+
 			return dstEncoder->getEncodedSize(srcEncoder->getDecodedSize(m_contents->getLength()));
 		}
 	}
@@ -695,8 +766,11 @@ void body::setContentType(const mediaType& type) {
 
 const mediaType body::getContentType() const {
 
-	shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	shared_ptr <const contentTypeField> ctf;
+
+	if (m_part) {
+		ctf = m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	}
 
 	if (ctf) {
 
@@ -731,8 +805,11 @@ void body::setCharset(const charset& chset) {
 
 const charset body::getCharset() const {
 
-	const shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	shared_ptr <const contentTypeField> ctf;
+
+	if (m_part) {
+		ctf = m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	}
 
 	if (ctf) {
 
@@ -762,8 +839,11 @@ void body::setEncoding(const encoding& enc) {
 
 const encoding body::getEncoding() const {
 
-	shared_ptr <const headerField> cef =
-		m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+	shared_ptr <const headerField> cef;
+
+	if (m_part) {
+		cef = m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+	}
 
 	if (cef) {
 
@@ -788,8 +868,7 @@ void body::setParentPart(bodyPart* parent) {
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
 	     it != m_parts.end() ; ++it) {
 
-		shared_ptr <bodyPart> childPart = *it;
-		parent->importChildPart(childPart);
+		(*it)->m_parent = parent;
 	}
 }
 
@@ -814,21 +893,28 @@ void body::copyFrom(const component& other) {
 
 	const body& bdy = dynamic_cast <const body&>(other);
 
-	m_prologText = bdy.m_prologText;
-	m_epilogText = bdy.m_epilogText;
-
-	m_contents = bdy.m_contents;
-
-	removeAllParts();
+	std::vector <shared_ptr <bodyPart> > parts;
+	parts.reserve(bdy.getPartCount());
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part = make_shared <bodyPart>();
 
 		part->copyFrom(*bdy.getPartAt(p));
+		part->m_parent = m_part;
 
-		m_parts.push_back(part);
+		parts.push_back(part);
 	}
+
+	m_boundary = bdy.m_boundary;
+	m_prologText = bdy.m_prologText;
+	m_epilogText = bdy.m_epilogText;
+
+	m_contents = bdy.m_contents;
+
+	removeAllParts();
+
+	m_parts = parts;
 }
 
 
@@ -979,17 +1065,17 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
-		m_parts.begin(), m_parts.end(), beforePart
-	);
-
-	if (it == m_parts.end()) {
+	if (std::find(m_parts.begin(), m_parts.end(), beforePart) == m_parts.end()) {
 		throw exceptions::no_such_part();
 	}
 
-	m_parts.insert(it, part);
+	if (beforePart == part) {
+		return;
+	}
+
+	initNewPart(part);
+
+	m_parts.insert(std::find(m_parts.begin(), m_parts.end(), beforePart), part);
 }
 
 
@@ -998,9 +1084,15 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
+	if (pos < m_parts.size()) {
+
+		// Part may be already in this body (and so, be removed first)
+		insertPartBefore(shared_ptr <bodyPart>(m_parts[pos]), part);
+
+	} else {
 
-	m_parts.insert(m_parts.begin() + pos, part);
+		appendPart(part);
+	}
 }
 
 
@@ -1009,25 +1101,23 @@ void body::insertPartAfter(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
-		m_parts.begin(), m_parts.end(), afterPart
-	);
-
-	if (it == m_parts.end()) {
+	if (std::find(m_parts.begin(), m_parts.end(), afterPart) == m_parts.end()) {
 		throw exceptions::no_such_part();
 	}
 
-	m_parts.insert(it + 1, part);
+	if (afterPart == part) {
+		return;
+	}
+
+	initNewPart(part);
+
+	m_parts.insert(std::find(m_parts.begin(), m_parts.end(), afterPart) + 1, part);
 }
 
 
 void body::insertPartAfter(const size_t pos, const shared_ptr <bodyPart>& part) {
 
-	initNewPart(part);
-
-	m_parts.insert(m_parts.begin() + pos + 1, part);
+	insertPartBefore(pos + 1, part);
 }
 
 
@@ -1041,18 +1131,28 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	(*it)->m_parent = NULL;
+
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	m_parts[pos]->m_parent = NULL;
+
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
+	     it != m_parts.end() ; ++it) {
+
+		(*it)->m_parent = NULL;
+	}
+
 	m_parts.clear();
 }
 
diff --git a/src/vmime/body.hpp b/src/vmime/body.hpp
index b513f57..a2f0c96 100644
--- a/src/vmime/body.hpp
+++ b/src/vmime/body.hpp
@@ -52,6 +52,7 @@ class VMIME_EXPORT body : public component {
 public:
 
 	body();
+	body(const body& other);
 	~body();
 
 	/** Add a part at the end of the list.
@@ -325,7 +326,9 @@ protected:
 	  *
 	  * @param parser parser object
 	  * @param boundary boundary string (without "--" nor CR/LF)
-	  * @param position start position
+	  * @param start beginning of the line where the current part (or prolog) starts:
+	  * CR/LF before this position do not belong to the boundary
+	  * @param position position where to start searching
 	  * @param end end position
 	  * @param boundaryStart will hold the start position of the boundary (including any
 	  * CR/LF and "--" before the boundary)
@@ -336,6 +339,7 @@ protected:
 	size_t findNextBoundaryPosition(
 		const shared_ptr <utility::parserInputStreamAdapter>& parser,
 		const string& boundary,
+		const size_t start,
 		const size_t position,
 		const size_t end,
 		size_t* boundaryStart,
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..f397de8 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,27 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::bodyPart(const bodyPart& other)
+	: component(),
+	  m_header(make_shared <header>()),
+	  m_body(make_shared <body>()),
+	  m_parent() {
+
+	m_body->setParentPart(this);
+
+	copyFrom(other);
+}
+
+
+bodyPart::~bodyPart() {
+
+	// Body and child parts may live longer than this part
+	if (m_body->m_part == this) {
+		m_body->setParentPart(NULL);
+	}
+}
+
+
 void bodyPart::parseImpl(
 	parsingContext& ctx,
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
@@ -145,14 +166,21 @@ shared_ptr <body> bodyPart::getBody() {
 
 void bodyPart::setBody(const shared_ptr <body>& b) {
 
+	if (b == m_body) {
+		return;
+	}
+
 	bodyPart* oldPart = b->m_part;
 
+	m_body->setParentPart(NULL);
+
 	m_body = b;
 	m_body->setParentPart(this);
 
 	// A body is associated to one and only one part
 	if (oldPart) {
-		oldPart->setBody(make_shared <body>());
+		oldPart->m_body = make_shared <body>();
+		oldPart->m_body->setParentPart(oldPart);
 	}
 }
 
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index e7e5ade..d5c6d0a 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,8 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	bodyPart(const bodyPart& other);
+	~bodyPart();
 
 	/** Return the header section of this part.
 	  *
diff --git a/src/vmime/header.cpp b/src/vmime/header.cpp
index b2367df..2419a56 100644
--- a/src/vmime/header.cpp
+++ b/src/vmime/header.cpp
@@ -36,6 +36,13 @@ header::header() {
 }
 
 
+header::header(const header& other)
+	: component() {
+
+	copyFrom(other);
+}
+
+
 header::~header() {
 
 	removeAllFields();
diff --git a/src/vmime/header.hpp b/src/vmime/header.hpp
index 2d4fa77..14d9e98 100644
--- a/src/vmime/header.hpp
+++ b/src/vmime/header.hpp
@@ -50,6 +50,7 @@ class VMIME_EXPORT header : public component {
 public:
 
 	header();
+	header(const header& other);
 	~header();
 
 #define FIELD_ACCESS(methodName, fieldName) \
diff --git a/src/vmime/message.cpp b/src/vmime/message.cpp
index 9e6956d..c0a43c5 100644
--- a/src/vmime/message.cpp
+++ b/src/vmime/message.cpp
@@ -36,6 +36,16 @@ message::message() {
 }
 
 
+shared_ptr <component> message::clone() const {
+
+	shared_ptr <message> msg = make_shared <message>();
+
+	msg->copyFrom(*this);
+
+	return msg;
+}
+
+
 string message::generate(
 	const size_t maxLineLength,
 	const size_t curLinePos
diff --git a/src/vmime/message.hpp b/src/vmime/message.hpp
index 53bc095..677f649 100644
--- a/src/vmime/message.hpp
+++ b/src/vmime/message.hpp
@@ -40,6 +40,8 @@ public:
 
 	message();
 
+	shared_ptr <component> clone() const;
+
 public:
 
 	using bodyPart::parse;
-- 
2.43.0


From ae3d582fc88c91291db686c95aa383426555e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 017/143] fix: limit the nesting of multiparts when parsing

---
 src/vmime/body.cpp      | 14 +++++++++++++-
 src/vmime/component.cpp |  7 ++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 7504a8e..ec37303 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -42,6 +42,10 @@
 namespace vmime {
 
 
+// Maximum number of levels of nested parts when parsing
+static const size_t MAX_NESTING_DEPTH = 250;
+
+
 body::body()
 	: m_contents(make_shared <emptyContentHandler>()),
 	  m_part(nullptr) {
@@ -229,7 +233,15 @@ void body::parseImpl(
 
 		const mediaType type = *ctf->getValue <mediaType>();
 
-		if (type.getType() == mediaTypes::MULTIPART) {
+		// Parts are parsed recursively: do not go too deep (contents of parts
+		// which are nested more deeply is not parsed)
+		size_t depth = 0;
+
+		for (const bodyPart* p = m_part->getParentPart() ; p && depth < MAX_NESTING_DEPTH ; p = p->getParentPart()) {
+			++depth;
+		}
+
+		if (type.getType() == mediaTypes::MULTIPART && depth < MAX_NESTING_DEPTH) {
 
 			isMultipart = true;
 
diff --git a/src/vmime/component.cpp b/src/vmime/component.cpp
index e5e0370..8a9af92 100644
--- a/src/vmime/component.cpp
+++ b/src/vmime/component.cpp
@@ -90,8 +90,13 @@ void component::parse(
 
 	} else {
 
+		// Do not wrap the stream again when parsing nested parts
 		shared_ptr <utility::parserInputStreamAdapter> parser =
-			make_shared <utility::parserInputStreamAdapter>(seekableStream);
+			dynamicCast <utility::parserInputStreamAdapter>(seekableStream);
+
+		if (!parser) {
+			parser = make_shared <utility::parserInputStreamAdapter>(seekableStream);
+		}
 
 		parseImpl(ctx, parser, position, end, newPosition);
 	}
-- 
2.43.0


From a0d87d091102b6601bd3d7ae7bc76e8b5539e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 018/143] fix: word: language kept when parsing again

---
 src/vmime/word.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 08d2f8c..1053036 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -412,6 +412,7 @@ void word::parseWithState(
 	m_buffer = string(buffer.begin() + position, buffer.begin() + end);
 	m_charset = ctx.getInternationalizedEmailSupport()
 		? charset(charsets::UTF_8) : charset(charsets::US_ASCII);
+	m_lang.clear();
 
 	setParsedBounds(position, end);
 
-- 
2.43.0


From c36becb0fd3489e928f60547f5423ac3bb5641d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 019/143] fix: copies of fields, words and encodings keep all
 attributes; group assignment is deep; self-assignment

---
 src/vmime/addressList.cpp              |  4 ++++
 src/vmime/encoding.cpp                 |  1 +
 src/vmime/headerField.cpp              | 10 +++++++++-
 src/vmime/mailboxGroup.cpp             | 11 +++++++++++
 src/vmime/mailboxGroup.hpp             |  1 +
 src/vmime/messageIdSequence.cpp        |  4 ++++
 src/vmime/parameterizedHeaderField.cpp |  4 ++++
 src/vmime/text.cpp                     |  4 ++++
 src/vmime/word.cpp                     |  2 +-
 9 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 7767eeb..ef0dbc9 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -113,6 +113,10 @@ void addressList::generateImpl(
 
 void addressList::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	const addressList& addrList = dynamic_cast <const addressList&>(other);
 
 	removeAllAddresses();
diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index 5b7d8bb..bcca587 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -293,6 +293,7 @@ void encoding::copyFrom(const component& other) {
 	const encoding& e = dynamic_cast <const encoding&>(other);
 
 	m_name = e.m_name;
+	m_usage = e.m_usage;
 }
 
 
diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 4f51e7c..7a66a1e 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -65,7 +65,15 @@ void headerField::copyFrom(const component& other) {
 
 	const headerField& hf = dynamic_cast <const headerField&>(other);
 
-	m_value->copyFrom(*hf.m_value);
+	m_name = hf.m_name;
+
+	// Type of the value is not always the default type for the field
+	// (eg. if the name of the field has been changed)
+	if (typeid(*m_value) == typeid(*hf.m_value)) {
+		m_value->copyFrom(*hf.m_value);
+	} else {
+		m_value = vmime::clone(hf.m_value);
+	}
 }
 
 
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 7cf8a4d..735c98f 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -216,6 +216,10 @@ void mailboxGroup::generateImpl(
 
 void mailboxGroup::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	const mailboxGroup& source = dynamic_cast <const mailboxGroup&>(other);
 
 	m_name = source.m_name;
@@ -243,6 +247,13 @@ mailboxGroup& mailboxGroup::operator=(const component& other) {
 }
 
 
+mailboxGroup& mailboxGroup::operator=(const mailboxGroup& other) {
+
+	copyFrom(other);
+	return *this;
+}
+
+
 const text& mailboxGroup::getName() const {
 
 	return m_name;
diff --git a/src/vmime/mailboxGroup.hpp b/src/vmime/mailboxGroup.hpp
index 494f22a..d4da612 100644
--- a/src/vmime/mailboxGroup.hpp
+++ b/src/vmime/mailboxGroup.hpp
@@ -49,6 +49,7 @@ public:
 	void copyFrom(const component& other);
 	shared_ptr <component> clone() const;
 	mailboxGroup& operator=(const component& other);
+	mailboxGroup& operator=(const mailboxGroup& other);
 
 	const std::vector <shared_ptr <component> > getChildComponents();
 
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index f5d30d8..73d67d9 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -56,6 +56,10 @@ shared_ptr <component> messageIdSequence::clone() const {
 
 void messageIdSequence::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	const messageIdSequence& midSeq = dynamic_cast <const messageIdSequence&>(other);
 
 	removeAllMessageIds();
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 7051dc8..18d715d 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -417,6 +417,10 @@ size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 
 void parameterizedHeaderField::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	headerField::copyFrom(other);
 
 	const parameterizedHeaderField& source = dynamic_cast<const parameterizedHeaderField&>(other);
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 17a18ed..35a000c 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -105,6 +105,10 @@ void text::generateImpl(
 
 void text::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	const text& t = dynamic_cast <const text&>(other);
 
 	removeAllWords();
diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 1053036..647f25e 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -871,7 +871,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(m_buffer, m_charset, m_lang);
 }
 
 
-- 
2.43.0


From a80c462066bcb1b2fb8f94176b0b7658a3f9bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 020/143] fix: adding an attachment to a message keeps the type
 parameters and disposition of its contents

---
 src/vmime/attachmentHelper.cpp | 77 ++++++++++++++++------------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..4930a74 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -213,6 +213,28 @@ const std::vector <shared_ptr <const attachment> >
 }
 
 
+/** Move a field, with its value and parameters, from the header
+  * of a part to the header of another part.
+  *
+  * @param from source part
+  * @param to destination part
+  * @param name name of the field to move
+  */
+static void moveField(
+	const shared_ptr <bodyPart>& from,
+	const shared_ptr <bodyPart>& to,
+	const string& name
+) {
+
+	shared_ptr <headerField> field = from->getHeader()->findField(name);
+
+	if (field) {
+		to->getHeader()->appendField(field);
+		from->getHeader()->removeAllFields(name);
+	}
+}
+
+
 // static
 void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shared_ptr <attachment>& att) {
 
@@ -229,25 +251,15 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 
 	if (!part) {  // create it
 
-		if (msg->getBody()->getPartCount() != 0) {
+		// Create a new part for what is currently in the root part of the
+		// message, and move there the fields which describe these contents
+		shared_ptr <bodyPart> child = make_shared <bodyPart>();
 
-			// Create a new container part for the parts that were in
-			// the root part of the message
-			shared_ptr <bodyPart> container = make_shared <bodyPart>();
+		moveField(msg, child, fields::CONTENT_TYPE);
+		moveField(msg, child, fields::CONTENT_TRANSFER_ENCODING);
+		moveField(msg, child, fields::CONTENT_DISPOSITION);
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
-
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				container->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
-				);
-			}
+		if (msg->getBody()->getPartCount() != 0) {
 
 			// Move parts from the root part to this new part
 			const std::vector <shared_ptr <bodyPart> > partList =
@@ -256,43 +268,28 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			msg->getBody()->removeAllParts();
 
 			for (unsigned int i = 0 ; i < partList.size() ; ++i) {
-				container->getBody()->appendPart(partList[i]);
+				child->getBody()->appendPart(partList[i]);
 			}
 
-			msg->getBody()->appendPart(container);
-
 		} else {
 
 			// The message is a simple (RFC-822) message, and do not
 			// contains any MIME part. Move the contents from the
-			// root to a new child part.
-			shared_ptr <bodyPart> child = make_shared <bodyPart>();
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
+			// root to the new child part.
+			child->getBody()->setContents(msg->getBody()->getContents());
+			msg->getBody()->setContents(make_shared <emptyContentHandler>());
 
+			// No "Content-Type" field: this is text
+			if (!child->getHeader()->hasField(fields::CONTENT_TYPE)) {
 				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				child->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
+					mediaType(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN)
 				);
 			}
-
-			child->getBody()->setContents(msg->getBody()->getContents());
-			msg->getBody()->setContents(make_shared <emptyContentHandler>());
-
-			msg->getBody()->appendPart(child);
 		}
 
 		// Set the root part to 'multipart/mixed'
 		msg->getHeader()->ContentType()->setValue(mpMixed);
-
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TRANSFER_ENCODING);
+		msg->getBody()->appendPart(child);
 
 		part = msg;
 	}
-- 
2.43.0


From 76f5542d2aa9616e100f79627cf58be4207f028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 021/143] fix: copies of a fileContentHandler keep the content
 type hint

---
 src/vmime/fileContentHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/fileContentHandler.cpp b/src/vmime/fileContentHandler.cpp
index baedf69..f506ce7 100644
--- a/src/vmime/fileContentHandler.cpp
+++ b/src/vmime/fileContentHandler.cpp
@@ -57,12 +57,14 @@ fileContentHandler::fileContentHandler(const fileContentHandler& cts)
 	: streamContentHandler() {
 
 	setData(cts.m_file, cts.m_encoding);
+	setContentTypeHint(cts.getContentTypeHint());
 }
 
 
 fileContentHandler& fileContentHandler::operator=(const fileContentHandler& cts) {
 
 	setData(cts.m_file, cts.m_encoding);
+	setContentTypeHint(cts.getContentTypeHint());
 
 	return *this;
 }
-- 
2.43.0


From d5933aa4d483219ddd4cc4e3d87bdcbdb00d2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 022/143] fix: message sets: assignment shared the ranges
 (double free), empty lists, UIDs that are no 32 bit numbers

---
 src/vmime/net/messageSet.cpp | 39 +++++++++++++++++++++++++++++-------
 src/vmime/net/messageSet.hpp |  2 ++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..6356cc8 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -30,6 +30,7 @@
 #include "vmime/net/messageSet.hpp"
 
 #include <iterator>
+#include <set>
 #include <algorithm>
 #include <typeinfo>
 
@@ -178,6 +179,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	m_ranges.swap(copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
@@ -216,6 +226,10 @@ messageSet messageSet::byNumber(const size_t first, const size_t last) {
 // static
 messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 
+	if (numbers.empty()) {
+		return messageSet();
+	}
+
 	// Sort a copy of the list
 	std::vector <size_t> sortedNumbers;
 
@@ -294,27 +308,38 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
 
-		const char* p = uid.c_str();
+		// Only numbers in their canonical form can be put in ranges
+		bool numeric = !uid.empty() && uid.length() <= 10 && uid[0] != '0';
+		vmime_uint64 numericUID = 0;
+
+		for (size_t j = 0 ; numeric && j < uid.length() ; ++j) {
 
-		for ( ; *p >= '0' && *p <= '9' ; ++p) {
-			numericUID = (numericUID * 10) + (*p - '0');
+			numeric = (uid[j] >= '0' && uid[j] <= '9');
+			numericUID = (numericUID * 10) + static_cast <vmime_uint64>(uid[j] - '0');
 		}
 
-		if (*p != '\0') {
+		if (!numeric || numericUID > 0xffffffffUL) {
 
 			messageSet set;
+			std::set <string> alreadyAdded;
 
 			// Non-numeric UID, fall back to plain UID list (single-UID ranges)
 			for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
-				set.m_ranges.push_back(new UIDMessageRange(uids[i]));
+
+				if (alreadyAdded.insert(uids[i]).second) {
+					set.m_ranges.push_back(new UIDMessageRange(uids[i]));
+				}
 			}
 
 			return set;
 		}
 
-		numericUIDs.push_back(numericUID);
+		numericUIDs.push_back(static_cast <vmime_uint32>(numericUID));
+	}
+
+	if (numericUIDs.empty()) {
+		return messageSet();
 	}
 
 	// Sort a copy of the list
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 2077fd1c9c8da5568ace0619a68299c9903c055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 023/143] fix: paths: appending a path to itself overflowed,
 renameParent ignored a difference in the last component, separators longer
 than one character

---
 src/vmime/utility/path.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..27fce74 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -75,10 +75,9 @@ path path::operator/(const component& c) const {
 
 path& path::operator/=(const path& p) {
 
-	const list::size_type size = m_list.size();
+	const list other(p.m_list);  // 'p' may be this object
 
-	m_list.resize(size + p.m_list.size());
-	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
+	m_list.insert(m_list.end(), other.begin(), other.end());
 
 	return *this;
 }
@@ -234,8 +233,9 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal) {
 		return;
+	}
 
 	list newList;
 
@@ -295,7 +295,7 @@ path path::fromString(const string& str, const string& sep, const charset& cset)
 		   p.appendComponent(component(comp, cset));
 		}
 
-		start = end + 1;
+		start = end + sep.length();
 
 	} while (end != string::npos);
 
-- 
2.43.0


From 80ce7c9cb6367b1add03610f98d082f4272c3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 024/143] fix: URL hosts: only IPv6 addresses are bracketed; a
 host of one character made the loop run away

---
 src/vmime/utility/urlUtils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..a4d6084 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -68,11 +68,12 @@ const string urlUtils::encode(const string& s) {
 
 const string urlUtils::encodeHost(const string& s) {
 
-	if (s.size() == 0) {
+	// Only an IPv6 address contains colons
+	if (s.find(':') == string::npos) {
 		return encode(s);
 	}
 
-	for (auto it = s.begin() + 1 ; it != s.end() - 1 ; ++it) {
+	for (auto it = s.begin() ; it != s.end() ; ++it) {
 		if (!parserHelpers::isXDigit(*it) && *it != ':') {
 			return encode(s);
 		}
-- 
2.43.0


From bf86db20d288f5722f10e53473694f2f43574392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 025/143] fix: URL parsing: '@' before the protocol separator
 crashed, ports out of range were accepted

---
 src/vmime/utility/url.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index f0d9c65..5f6da5d 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -245,7 +245,7 @@ void url::parse(const string& str) {
 
 	} else {
 
-		if (atPos != string::npos && atPos < slashPos) {
+		if (atPos != string::npos && atPos >= protoEnd + 3 && atPos < slashPos) {
 
 			const string userPart(str.begin() + protoEnd + 3, str.begin() + atPos);
 			const size_t colonPos = userPart.find(':');
@@ -327,6 +327,10 @@ void url::parse(const string& str) {
 	port_t portNum = 0;
 	iss >> portNum;
 
+	if (!port.empty() && iss.fail()) {
+		throw exceptions::malformed_url("Port is out of range");
+	}
+
 	if (portNum == 0) {
 		portNum = UNSPECIFIED_PORT;
 	}
-- 
2.43.0


From fcdee5e4766f1629dae5eabfcf4d87088df7be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 026/143] fix: property definitions: quoted values, several
 properties, duplicates; self-assignment emptied the set

---
 src/vmime/propertySet.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..27d55c8 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -58,6 +58,10 @@ propertySet::~propertySet() {
 
 propertySet& propertySet::operator=(const propertySet& set) {
 
+	if (&set == this) {
+		return *this;
+	}
+
 	removeAllProperties();
 
 	for (std::list <shared_ptr <property> >::const_iterator it = set.m_props.begin() ;
@@ -113,7 +117,7 @@ void propertySet::parse(const string& props) {
 			// Extract the property name
 			const string::const_iterator optStart = pos;
 
-			for ( ; pos != end && *pos != '=' ; ++pos) {}
+			for ( ; pos != end && *pos != '=' && *pos != ';' ; ++pos) {}
 
 			string::const_iterator optEnd = pos;
 
@@ -122,10 +126,12 @@ void propertySet::parse(const string& props) {
 			const string option(optStart, optEnd);
 			string value = "1";
 
-			if (pos != end) {
+			if (pos != end && *pos == '=') {
 
 				++pos; // skip '='
 
+				value.clear();
+
 				// Extract the value
 				for ( ; pos != end && parserHelpers::isSpace(*pos) ; ++pos) {}
 
@@ -136,7 +142,7 @@ void propertySet::parse(const string& props) {
 
 						value.reserve(50);
 
-						const char quoteChar = *pos;
+						const char quoteChar = *pos++;
 						bool theEnd = false;
 						bool escape = false;
 
@@ -159,16 +165,12 @@ void propertySet::parse(const string& props) {
 							}
 						}
 
-						if (pos != end) {
-							++pos;
-						}
-
 					// Simple value
 					} else {
 
 						const string::const_iterator valStart = pos;
 
-						for ( ; pos != end && !parserHelpers::isSpace(*pos) ; ++pos) {}
+						for ( ; pos != end && *pos != ';' && !parserHelpers::isSpace(*pos) ; ++pos) {}
 
 						value = string(valStart, pos);
 					}
@@ -182,7 +184,7 @@ void propertySet::parse(const string& props) {
 				}
 			}
 
-			m_props.push_back(make_shared <property>(option, value));
+			findOrCreate(option)->setValue(value);
 		}
 	}
 }
-- 
2.43.0


From 2013ab50528dd1f31a936193ff4a661c35037bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 027/143] fix: fix: members of address groups were not among
 the recipients of a sent message

---
 src/vmime/net/transport.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/transport.cpp b/src/vmime/net/transport.cpp
index c2260b2..060cf43 100644
--- a/src/vmime/net/transport.cpp
+++ b/src/vmime/net/transport.cpp
@@ -30,6 +30,7 @@
 #include "vmime/net/transport.hpp"
 
 #include "vmime/utility/stream.hpp"
+#include "vmime/mailboxGroup.hpp"
 #include "vmime/mailboxList.hpp"
 #include "vmime/message.hpp"
 #include "vmime/dateTime.hpp"
@@ -125,10 +126,19 @@ static void extractMailboxes(
 
 	for (size_t i = 0 ; i < list.getAddressCount() ; ++i) {
 
-		shared_ptr <mailbox> mbox = dynamicCast <mailbox>(list.getAddressAt(i)->clone());
+		shared_ptr <const address> addr = list.getAddressAt(i);
 
-		if (mbox) {
-			recipients.appendMailbox(mbox);
+		if (addr->isGroup()) {
+
+			shared_ptr <const mailboxGroup> group = dynamicCast <const mailboxGroup>(addr);
+
+			for (size_t j = 0 ; j < group->getMailboxCount() ; ++j) {
+				recipients.appendMailbox(vmime::clone(group->getMailboxAt(j)));
+			}
+
+		} else {
+
+			recipients.appendMailbox(dynamicCast <mailbox>(addr->clone()));
 		}
 	}
 }
-- 
2.43.0


From 062bb3e3272f4c542371061dbc124bdb94fc76ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 028/143] fix: fix: SMTP: leading dot not stuffed, connection
 out of step after a rejected pipelined command or an interrupted transfer,
 addresses able to inject commands

---
 src/vmime/net/smtp/SMTPCommand.cpp    |  61 ++++++++-------
 src/vmime/net/smtp/SMTPCommandSet.cpp |  12 +++
 src/vmime/net/smtp/SMTPCommandSet.hpp |  15 ++++
 src/vmime/net/smtp/SMTPTransport.cpp  | 102 ++++++++++++++++++++++----
 src/vmime/net/smtp/SMTPTransport.hpp  |  22 ++++++
 src/vmime/utility/filteredStream.cpp  |   6 +-
 src/vmime/utility/filteredStream.hpp  |   4 +-
 7 files changed, 178 insertions(+), 44 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..4527677 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -32,6 +32,7 @@
 #include "vmime/net/socket.hpp"
 #include "vmime/net/tracer.hpp"
 
+#include "vmime/exception.hpp"
 #include "vmime/mailbox.hpp"
 #include "vmime/utility/outputStreamAdapter.hpp"
 
@@ -41,6 +42,38 @@ namespace net {
 namespace smtp {
 
 
+// Generate the e-mail address of a mailbox, to be enclosed in "<" and ">"
+static const string generatePath(const mailbox& mbox, const bool utf8) {
+
+	generationContext ctx(generationContext::getDefaultContext());
+	ctx.setInternationalizedEmailSupport(utf8);
+
+	std::ostringstream oss;
+	utility::outputStreamAdapter os(oss);
+
+	mbox.getEmail().generate(ctx, os);
+
+	// Ensure the address can not be taken for something else
+	const string path = oss.str();
+	bool quoted = false;
+
+	for (size_t i = 0 ; i < path.length() ; ++i) {
+
+		const unsigned char c = path[i];
+
+		if (c < 0x20 || c == 0x7f || (!quoted && (c == ' ' || c == '<' || c == '>'))) {
+			throw exceptions::invalid_argument();
+		} else if (c == '"') {
+			quoted = !quoted;
+		} else if (c == '\\' && quoted) {
+			++i;
+		}
+	}
+
+	return path;
+}
+
+
 SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
@@ -117,19 +150,7 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 
 	std::ostringstream cmd;
 	cmd.imbue(std::locale::classic());
-	cmd << "MAIL FROM:<";
-
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
-	cmd << ">";
+	cmd << "MAIL FROM:<" << generatePath(mbox, utf8) << ">";
 
 	if (dsnAttrs && !dsnAttrs->getReturnFormat().empty()) {
 		cmd << " " << dsn::RET << "=" << dsnAttrs->getReturnFormat();
@@ -158,19 +179,7 @@ shared_ptr <SMTPCommand> SMTPCommand::RCPT(
 
 	std::ostringstream cmd;
 	cmd.imbue(std::locale::classic());
-	cmd << "RCPT TO:<";
-
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
-	cmd << ">";
+	cmd << "RCPT TO:<" << generatePath(mbox, utf8) << ">";
 
 	if (dsnAttrs && !dsnAttrs->getNotificationConditions().empty()) {
 		cmd << " " << dsn::NOTIFY << "=" << dsnAttrs->getNotificationConditions();
diff --git a/src/vmime/net/smtp/SMTPCommandSet.cpp b/src/vmime/net/smtp/SMTPCommandSet.cpp
index eab7086..46b3607 100644
--- a/src/vmime/net/smtp/SMTPCommandSet.cpp
+++ b/src/vmime/net/smtp/SMTPCommandSet.cpp
@@ -152,6 +152,18 @@ shared_ptr <SMTPCommand> SMTPCommandSet::getLastCommandSent() const {
 }
 
 
+bool SMTPCommandSet::isPipelined() const {
+
+	return m_pipeline;
+}
+
+
+size_t SMTPCommandSet::getRemainingCount() const {
+
+	return m_commands.size();
+}
+
+
 } // smtp
 } // net
 } // vmime
diff --git a/src/vmime/net/smtp/SMTPCommandSet.hpp b/src/vmime/net/smtp/SMTPCommandSet.hpp
index 2fd977c..2c7e719 100644
--- a/src/vmime/net/smtp/SMTPCommandSet.hpp
+++ b/src/vmime/net/smtp/SMTPCommandSet.hpp
@@ -77,6 +77,21 @@ public:
 	  */
 	shared_ptr <SMTPCommand> getLastCommandSent() const;
 
+	/** Tests whether the commands are sent all at once (pipelining).
+	  *
+	  * @return true if commands are pipelined, or false if they
+	  * are sent one after the other
+	  */
+	bool isPipelined() const;
+
+	/** Returns the number of commands following the last command sent
+	  * (see getLastCommandSent()). If commands are pipelined, these have
+	  * already been written to the socket, too.
+	  *
+	  * @return number of remaining commands
+	  */
+	size_t getRemainingCount() const;
+
 
 	void writeToSocket(const shared_ptr <socket>& sok, const shared_ptr <tracer>& tr);
 
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..bda046b 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -299,13 +299,16 @@ void SMTPTransport::sendEnvelope(
 
 	if ((resp = m_connection->readResponse())->getCode() != 250) {
 		auto code = resp->getCode();
+		auto failedCommand = commands->getLastCommandSent();
+
+		discardEnvelope(commands, sendDATACommand);
 
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
 			throw SMTPMessageSizeExceedsCurLimitsException(
 				SMTPCommandError(
-					commands->getLastCommandSent()->getText(), resp->getText(),
+					failedCommand->getText(), resp->getText(),
 					code, resp->getEnhancedCode()
 				)
 			);
@@ -315,7 +318,7 @@ void SMTPTransport::sendEnvelope(
 
 			throw SMTPMessageSizeExceedsMaxLimitsException(
 				SMTPCommandError(
-					commands->getLastCommandSent()->getText(), resp->getText(),
+					failedCommand->getText(), resp->getText(),
 					code, resp->getEnhancedCode()
 				 )
 			);
@@ -324,7 +327,7 @@ void SMTPTransport::sendEnvelope(
 		} else {
 
 			throw SMTPCommandError(
-				commands->getLastCommandSent()->getText(), resp->getText(),
+				failedCommand->getText(), resp->getText(),
 				code, resp->getEnhancedCode()
 			);
 		}
@@ -340,12 +343,16 @@ void SMTPTransport::sendEnvelope(
 
 		if (code != 250 && code != 251) {
 
+			auto failedCommand = commands->getLastCommandSent();
+
+			discardEnvelope(commands, sendDATACommand);
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
 				throw SMTPMessageSizeExceedsCurLimitsException(
 					SMTPCommandError(
-						commands->getLastCommandSent()->getText(), resp->getText(),
+						failedCommand->getText(), resp->getText(),
 						code, resp->getEnhancedCode()
 					)
 				);
@@ -355,7 +362,7 @@ void SMTPTransport::sendEnvelope(
 
 				throw SMTPMessageSizeExceedsMaxLimitsException(
 					SMTPCommandError(
-						commands->getLastCommandSent()->getText(), resp->getText(),
+						failedCommand->getText(), resp->getText(),
 						code, resp->getEnhancedCode()
 					)
 				);
@@ -364,7 +371,7 @@ void SMTPTransport::sendEnvelope(
 			} else {
 
 				throw SMTPCommandError(
-					commands->getLastCommandSent()->getText(), resp->getText(),
+					failedCommand->getText(), resp->getText(),
 					code, resp->getEnhancedCode()
 				);
 			}
@@ -389,6 +396,55 @@ void SMTPTransport::sendEnvelope(
 }
 
 
+void SMTPTransport::discardEnvelope(
+	const shared_ptr <SMTPCommandSet>& commands,
+	const bool sendDATACommand
+) {
+
+	if (!commands->isPipelined()) {
+		return;  // following commands have not been sent
+	}
+
+	try {
+
+		while (commands->getRemainingCount() != 0) {
+
+			commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
+
+			shared_ptr <SMTPResponse> resp = m_connection->readResponse();
+
+			if (sendDATACommand && commands->getRemainingCount() == 0 && resp->getCode() == 354) {
+
+				// Server accepted the DATA command and is now waiting for
+				// message data (RFC-2920, 3.1): do not send the message
+				// to a subset of the recipients
+				abortConnection();
+				return;
+			}
+		}
+
+	} catch (exception&) {
+
+		abortConnection();
+	}
+}
+
+
+void SMTPTransport::abortConnection() {
+
+	try {
+
+		if (isConnected()) {
+			disconnect();
+		}
+
+	} catch (exception&) {
+
+		// Ignore
+	}
+}
+
+
 void SMTPTransport::send(
 	const mailbox& expeditor,
 	const mailboxList& recipients,
@@ -408,15 +464,24 @@ void SMTPTransport::send(
 
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
-	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	try {
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+		utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
+		utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
 
-	fos.flush();
+		utility::bufferedStreamCopy(is, fos, size, progress);
 
-	// Send end-of-data delimiter
-	m_connection->getSocket()->send("\r\n.\r\n");
+		fos.flush();
+
+		// Send end-of-data delimiter
+		m_connection->getSocket()->send("\r\n.\r\n");
+
+	} catch (...) {
+
+		// Message data has been partially sent
+		abortConnection();
+		throw;
+	}
 
 	if (m_connection->getTracer()) {
 		m_connection->getTracer()->traceSendBytes(size);
@@ -477,9 +542,18 @@ void SMTPTransport::send(
 	// Send the message by chunks
 	SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
 
-	msg->generate(ctx, chunkStream);
+	try {
 
-	chunkStream.flush();
+		msg->generate(ctx, chunkStream);
+
+		chunkStream.flush();
+
+	} catch (...) {
+
+		// Message data has been partially sent
+		abortConnection();
+		throw;
+	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPTransport.hpp b/src/vmime/net/smtp/SMTPTransport.hpp
index 6dc118a..9081c7c 100644
--- a/src/vmime/net/smtp/SMTPTransport.hpp
+++ b/src/vmime/net/smtp/SMTPTransport.hpp
@@ -44,6 +44,9 @@ namespace net {
 namespace smtp {
 
 
+class SMTPCommandSet;
+
+
 class SMTPCommand;
 
 
@@ -122,6 +125,25 @@ private:
 	);
 
 
+	/** After a command of the envelope has been rejected, read the
+	  * responses to the commands which have already been pipelined, so
+	  * that the connection can be used for another transaction. If the
+	  * server is waiting for message data, the connection is closed.
+	  *
+	  * @param commands envelope commands
+	  * @param sendDATACommand true if the last command is DATA
+	  */
+	void discardEnvelope(
+		const shared_ptr <SMTPCommandSet>& commands,
+		const bool sendDATACommand
+	);
+
+	/** Close the connection when it has been left in an unknown state
+	  * because a transaction has been interrupted. Never throws.
+	  */
+	void abortConnection();
+
+
 	shared_ptr <SMTPConnection> m_connection;
 
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 4bd37ed..b91a71a 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -130,10 +130,10 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 
 // dotFilteredOutputStream
 
-dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool startOfLine)
 	: m_stream(os),
-	  m_previousChar('\0'),
-	  m_start(true),
+	  m_previousChar(startOfLine ? '\n' : '\0'),
+	  m_start(!startOfLine),
 	  m_startDot(false) {
 
 }
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 73f15c4..d646d1d 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -108,8 +108,10 @@ public:
 	/** Construct a new filter for the specified output stream.
 	  *
 	  * @param os stream into which write filtered data
+	  * @param startOfLine if set to true, the first byte written is known to
+	  * be at the beginning of a line, so that a leading <DOT> is also replaced
 	  */
-	dotFilteredOutputStream(outputStream& os);
+	dotFilteredOutputStream(outputStream& os, const bool startOfLine = false);
 
 	outputStream& getNextOutputStream();
 
-- 
2.43.0


From c0986a301578c9b19bfa7b9e4aee87054fafa3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 029/143] fix: IMAP mailbox names: separators and non-BMP
 characters in the encoded form, arguments with line breaks, years in search
 dates

---
 src/vmime/net/imap/IMAPUtils.cpp | 208 +++++++++++++++++++------------
 1 file changed, 131 insertions(+), 77 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..6c1b514 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -49,6 +49,26 @@ static const char* IMAP_MONTH_NAMES[12] = {
 };
 
 
+static void appendUTF8(string& out, const unsigned int ch) {
+
+	if (ch < 0x80) {
+		out += static_cast <char>(ch);
+	} else if (ch < 0x800) {
+		out += static_cast <char>(0xc0 | (ch >> 6));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+	} else if (ch < 0x10000) {
+		out += static_cast <char>(0xe0 | (ch >> 12));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+	} else {
+		out += static_cast <char>(0xf0 | (ch >> 18));
+		out += static_cast <char>(0x80 | ((ch >> 12) & 0x3f));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+	}
+}
+
+
 // static
 const string IMAPUtils::quoteString(const string& text) {
 
@@ -100,6 +120,11 @@ const string IMAPUtils::quoteString(const string& text) {
 
 	if (needQuoting) {
 
+		// These can not appear in a quoted string
+		if (text.find_first_of(string("\r\n\0", 3)) != string::npos) {
+			throw exceptions::invalid_argument();
+		}
+
 		string quoted;
 		quoted.reserve((text.length() * 3) / 2 + 2);
 
@@ -173,19 +198,11 @@ const string IMAPUtils::toModifiedUTF7(
 	const folder::path::component& text
 ) {
 
-	// We will replace the hierarchy separator with an equivalent
-	// UTF-7 sequence, so we compute it here...
 	const char base64alphabet[] =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,=";
 
-	const unsigned int hs = static_cast <unsigned int>(static_cast <unsigned char>(hierarchySeparator));
-
-	string hsUTF7;
-	hsUTF7.resize(3);
-
-	hsUTF7[0] = base64alphabet[0];
-	hsUTF7[1] = base64alphabet[(hs & 0xF0) >> 4];
-	hsUTF7[2] = base64alphabet[(hs & 0x0F) << 2];
+	// The hierarchy separator is replaced with an equivalent UTF-7 sequence
+	const int hs = static_cast <unsigned char>(hierarchySeparator);
 
 	// iconv() is buggy with UTF-8 to UTF-7 conversion, so we do it "by hand".
 	// This code is largely inspired from "imap/utf7.c", in mutt 1.4.
@@ -208,16 +225,6 @@ const string IMAPUtils::toModifiedUTF7(
 
 		const unsigned char c = cvt[i];
 
-		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
-
-			out += "&" + hsUTF7 + "-";
-
-			++i;
-			--remaining;
-			continue;
-		}
-
 		size_t n = 0;
 		int ch = 0;
 
@@ -262,7 +269,7 @@ const string IMAPUtils::toModifiedUTF7(
 		i += n;
 		remaining -= n;
 
-		if (ch < 0x20 || ch >= 0x7f) {
+		if (ch < 0x20 || ch >= 0x7f || ch == hs) {
 
 			if (!base64) {
 				out += '&';
@@ -271,20 +278,36 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
-			if (ch & ~0xffff) {
-				ch = 0xfffe;
-			}
+			// Characters outside of the BMP are represented by a surrogate pair
+			int units[2] = { ch, 0 };
+			size_t unitCount = 1;
+
+			if (ch > 0x10ffff) {
 
-			out += base64alphabet[b | ch >> k];
+				units[0] = 0xfffd;
 
-			k -= 6;
+			} else if (ch > 0xffff) {
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
+				units[0] = 0xd800 + ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 + ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+			for (size_t u = 0 ; u < unitCount ; ++u) {
+
+				const int unit = units[u];
+
+				out += base64alphabet[b | unit >> k];
+
+				k -= 6;
+
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(unit >> k) & 0x3f];
+				}
+
+				b = (unit << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
@@ -321,75 +344,102 @@ const string IMAPUtils::toModifiedUTF7(
 
 const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7 (RFC-2060).
+	// Transcode from modified UTF-7 (RFC-2060) to UTF-8
+	static const string base64alphabet(
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,"
+	);
+
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	bool plusOutput = false;
-	unsigned char prev = 0;
+	for (size_t i = 0, len = text.length() ; i < len ; ) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		const char c = text[i];
 
-		const unsigned char c = *it;
+		if (c == '+' && i + 1 < len && text[i + 1] == '-') {
 
-		switch (c) {
+			// "+-" stands for "+" in UTF-7
+			out += '+';
+			i += 2;
+			continue;
 
-			// Start of Base64 sequence
-			case '&': {
+		} else if (c != '&') {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					plusOutput = false;
-				} else {
-					out += '&';
-				}
+			out += c;
+			++i;
+			continue;
+		}
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+		// Base64 sequence
+		size_t end = i + 1;
 
-				if (inB64sequence && prev == '&') {  // special case "&-" --> "&"
-					out += '&';
-				} else {
-					out += '-';
-				}
+		while (end < len && base64alphabet.find(text[end]) != string::npos) {
+			++end;
+		}
 
-				inB64sequence = false;
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+		if (end == i + 1 && end < len && text[end] == '-') {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
+			// special case "&-" --> "&"
+			out += '&';
+			i = end + 1;
+			continue;
+		}
 
-				out += (inB64sequence ? '/' : ',');
-				break;
+		unsigned int bits = 0, bitCount = 0;
+		unsigned int highSurrogate = 0;
+
+		for (size_t j = i + 1 ; j < end ; ++j) {
+
+			bits = (bits << 6) | static_cast <unsigned int>(base64alphabet.find(text[j]));
+			bitCount += 6;
+
+			if (bitCount < 16) {
+				continue;
 			}
-			default: {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
+			bitCount -= 16;
+
+			unsigned int ch = (bits >> bitCount) & 0xffff;
+			bits &= (1u << bitCount) - 1;
+
+			if (highSurrogate && ch >= 0xdc00 && ch <= 0xdfff) {
+
+				ch = 0x10000 + ((highSurrogate - 0xd800) << 10) + (ch - 0xdc00);
+				highSurrogate = 0;
+
+			} else {
+
+				if (highSurrogate) {
+					appendUTF8(out, 0xfffd);  // missing second half
 				}
 
-				out += c;
-				break;
+				if (ch >= 0xd800 && ch <= 0xdbff) {
+					highSurrogate = ch;
+					continue;
+				}
+
+				highSurrogate = 0;
+
+				if (ch >= 0xdc00 && ch <= 0xdfff) {
+					ch = 0xfffd;
+				}
 			}
+
+			appendUTF8(out, ch);
 		}
 
-		prev = c;
-	}
+		if (highSurrogate) {
+			appendUTF8(out, 0xfffd);
+		}
+
+		i = end;
 
-	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+		if (i < len && text[i] == '-') {
+			++i;  // end of sequence
+		}
+	}
 
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
@@ -561,6 +611,10 @@ const string IMAPUtils::searchDate(const vmime::datetime& date) {
 	res << '-';
 	res << IMAP_MONTH_NAMES[std::min(std::max(date.getMonth() - 1, 0), 11)];
 	res << '-';
+
+	if (date.getYear() < 10) res << '0';
+	if (date.getYear() < 100) res << '0';
+	if (date.getYear() < 1000) res << '0';
 	res << date.getYear();
 
 	return res.str();
-- 
2.43.0


From 7443b8ada4670b8101913917b6774925f0a8099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 030/143] fix: IMAP search keys: quotes and backslashes
 escaped, sizes of 2 GB and more, UID sets without parentheses

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 47 ++++++++++++++++-----
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..32bfa89 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -13,6 +13,33 @@ namespace imap {
 namespace helpers {
 
 
+// Quote a string so that it can be used as a search criterion
+static string quoteSearchString(const string& str) {
+
+	string res = "\"";
+
+	for (size_t i = 0 ; i < str.length() ; ++i) {
+
+		const char c = str[i];
+
+		if (c == '\r' || c == '\n' || c == '\0') {
+			// These cannot be represented in a quoted string
+			throw exceptions::invalid_argument();
+		}
+
+		if (c == '"' || c == '\\') {
+			res += '\\';
+		}
+
+		res += c;
+	}
+
+	res += '"';
+
+	return res;
+}
+
+
 class keylessToken : public IMAPSearchToken {
 
 public:
@@ -63,7 +90,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << quoteSearchString(m_keyword);
 	};
 };
 
@@ -85,7 +112,8 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword)
+			<< " " << quoteSearchString(m_headerKeyword);
 	};
 
 protected:
@@ -111,7 +139,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
@@ -224,16 +252,15 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
-		}
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
+
+		// A sequence set is a single argument: it is not enclosed in parentheses
+		if (*m_token) {
+			out << m_token << " ";
+		}
+
 		out << enu.str();
-		out << ")";
 	}
 };
 
-- 
2.43.0


From 4f6b0b265c769f250b666d3f991d3adc21e261c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 031/143] fix: accept spaces around the slash of a disposition
 mode

---
 src/vmime/disposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index f5cd0d7..6d097b1 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -225,8 +225,8 @@ void disposition::parseImpl(
 
 	if (slash != string::npos) {
 
-		m_actionMode = string(mode.begin(), mode.begin() + slash);
-		m_sendingMode = string(mode.begin() + slash + 1, mode.end());
+		m_actionMode = utility::stringUtils::trim(string(mode.begin(), mode.begin() + slash));
+		m_sendingMode = utility::stringUtils::trim(string(mode.begin() + slash + 1, mode.end()));
 
 	} else {
 
-- 
2.43.0


From 9f2574e332c8339c7c8b50f53065af3e8858f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 032/143] fix: name the issuing recipient, encode the text and
 compare names as the RFC says in read receipts

---
 src/vmime/mdn/MDNHelper.cpp | 26 ++++++++++++++++++++------
 src/vmime/mdn/MDNHelper.hpp |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/vmime/mdn/MDNHelper.cpp b/src/vmime/mdn/MDNHelper.cpp
index a21a181..619c0c7 100644
--- a/src/vmime/mdn/MDNHelper.cpp
+++ b/src/vmime/mdn/MDNHelper.cpp
@@ -32,6 +32,7 @@
 #include "vmime/dateTime.hpp"
 
 #include "vmime/utility/outputStreamAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -93,7 +94,9 @@ bool MDNHelper::isMDN(const shared_ptr <const message>& msg)
 		    type.getSubType() == vmime::mediaTypes::MULTIPART_REPORT) {
 
 			if (ctf.hasParameter("report-type") &&
-			    ctf.getReportType() == "disposition-notification") {
+			    utility::stringUtils::isStringEqualNoCase(
+			        ctf.getReportType(), string("disposition-notification")
+			    )) {
 
 				return true;
 			}
@@ -138,7 +141,13 @@ bool MDNHelper::needConfirmation(const shared_ptr <const message>& msg)
 		const mailbox& mbox = *dnto.getMailboxAt(0);
 		const path& rp = *hdr->ReturnPath()->getValue <path>();
 
-		if (mbox.getEmail() != rp.getLocalPart() + "@" + rp.getDomain()) {
+		// (case-sensitive for the local part, case-insensitive for the domain)
+		const emailAddress rpEmail(rp.getLocalPart() + "@" + rp.getDomain());
+
+		if (mbox.getEmail().getLocalName() != rpEmail.getLocalName() ||
+		    utility::stringUtils::toLower(mbox.getEmail().getDomainName().getBuffer()) !=
+		        utility::stringUtils::toLower(rpEmail.getDomainName().getBuffer())) {
+
 			return true;
 		}
 	}
@@ -186,7 +195,7 @@ shared_ptr <message> MDNHelper::buildMDN(
 
 	msg->getBody()->appendPart(createFirstMDNPart(mdnInfos, text, ch));
 	msg->getBody()->appendPart(createSecondMDNPart(mdnInfos,
-		dispo, reportingUA, reportingUAProducts, fields));
+		expeditor, dispo, reportingUA, reportingUAProducts, fields));
 	msg->getBody()->appendPart(createThirdMDNPart(mdnInfos));
 
 	return msg;
@@ -211,7 +220,11 @@ shared_ptr <bodyPart> MDNHelper::createFirstMDNPart(
 	dynamicCast <contentTypeField>(hdr->ContentType())->setCharset(ch);
 
 	// Body
-	part->getBody()->setContents(make_shared <stringContentHandler>(text));
+	shared_ptr <contentHandler> contents = make_shared <stringContentHandler>(text);
+
+	hdr->ContentTransferEncoding()->setValue(encoding::decide(contents, ch, encoding::USAGE_TEXT));
+
+	part->getBody()->setContents(contents);
 
 	return part;
 }
@@ -219,6 +232,7 @@ shared_ptr <bodyPart> MDNHelper::createFirstMDNPart(
 
 shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 	const sendableMDNInfos& mdnInfos,
+    const mailbox& expeditor,
     const disposition& dispo,
     const string& reportingUA,
     const std::vector <string>& reportingUAProducts,
@@ -279,11 +293,11 @@ shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 		fields.appendField(rua);
 	}
 
-	// -- Final-Recipient
+	// -- Final-Recipient (the recipient for which the MDN is being issued)
 	shared_ptr <headerField> fr = headerFieldFactory::getInstance()->
 		create(vmime::fields::FINAL_RECIPIENT);
 
-	fr->setValue("rfc822; " + mdnInfos.getRecipient().getEmail().generate());
+	fr->setValue("rfc822; " + expeditor.getEmail().generate());
 
 	fields.appendField(fr);
 
diff --git a/src/vmime/mdn/MDNHelper.hpp b/src/vmime/mdn/MDNHelper.hpp
index c1bec2f..70c4e5d 100644
--- a/src/vmime/mdn/MDNHelper.hpp
+++ b/src/vmime/mdn/MDNHelper.hpp
@@ -125,6 +125,7 @@ private:
 
 	static shared_ptr <bodyPart> createSecondMDNPart(
 		const sendableMDNInfos& mdnInfos,
+		const mailbox& expeditor,
 		const disposition& dispo,
 		const string& reportingUA,
 		const std::vector <string>& reportingUAProducts,
-- 
2.43.0


From 5abe71050571c8a60da66d27eb15ea7520fdc66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 033/143] fix: POP3 responses read the same whatever the
 network fragments, messages with their last line break, refusal of partial
 retrieval

---
 src/vmime/net/pop3/POP3Message.cpp  |   8 +-
 src/vmime/net/pop3/POP3Response.cpp | 194 ++++++++++++++++++----------
 src/vmime/net/pop3/POP3Response.hpp |   9 +-
 3 files changed, 136 insertions(+), 75 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..d465599 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -158,7 +158,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
@@ -171,7 +171,8 @@ void POP3Message::extract(
 
 		POP3Response::readLargeResponse(
 			store->getConnection(), os, progress,
-			m_size == static_cast <size_t>(-1) ? 0 : m_size
+			m_size == static_cast <size_t>(-1) ? 0 : m_size,
+			/* keepLastLineBreak */ true
 		);
 
 	} catch (exceptions::command_error& e) {
@@ -241,7 +242,8 @@ void POP3Message::fetch(
 
 		POP3Response::readLargeResponse(
 			store->getConnection(),
-			bufferStream, /* progress */ NULL, /* predictedSize */ 0
+			bufferStream, /* progress */ NULL, /* predictedSize */ 0,
+			/* keepLastLineBreak */ true
 		);
 
 		m_header = make_shared <header>();
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..d6db88a 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -33,9 +33,6 @@
 #include "vmime/platform.hpp"
 
 #include "vmime/utility/stringUtils.hpp"
-#include "vmime/utility/filteredStream.hpp"
-#include "vmime/utility/stringUtils.hpp"
-#include "vmime/utility/inputStreamSocketAdapter.hpp"
 
 #include "vmime/net/socket.hpp"
 #include "vmime/net/timeoutHandler.hpp"
@@ -110,6 +107,11 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 
 	while (std::getline(iss, line, '\n')) {
 
+		// Lines beginning with a dot are sent with an additional dot
+		if (line.length() >= 2 && line[0] == '.' && line[1] == '.') {
+			line.erase(line.begin());
+		}
+
 		line = utility::stringUtils::trim(line);
 		resp->m_lines.push_back(line);
 
@@ -131,7 +133,8 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	const shared_ptr <POP3Connection>& conn,
 	utility::outputStream& os,
 	utility::progressListener* progress,
-	const size_t predictedSize
+	const size_t predictedSize,
+	const bool keepLastLineBreak
 ) {
 
 	shared_ptr <POP3Response> resp = shared_ptr <POP3Response>(
@@ -139,7 +142,8 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	);
 
 	string firstLine;
-	const size_t length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+	const size_t length =
+		resp->readResponseImpl(firstLine, os, progress, predictedSize, keepLastLineBreak);
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
@@ -147,7 +151,7 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 
 	if (resp->m_tracer) {
 		resp->m_tracer->traceReceive(firstLine);
-		resp->m_tracer->traceReceiveBytes(length - firstLine.length());
+		resp->m_tracer->traceReceiveBytes(length);
 		resp->m_tracer->traceReceive(".");
 	}
 
@@ -201,8 +205,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	buffer.clear();
 
-	char last1 = '\0', last2 = '\0';
-
 	for ( ; !foundTerminator ; ) {
 
 		// Check whether the time-out delay is elapsed
@@ -235,28 +237,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
 		// Append the data to the response buffer
 		buffer += receiveBuffer;
 
@@ -267,11 +247,15 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 		// requires a multi-line response, the error response will
 		// include only one line, so we stop waiting for a multi-line
 		// terminator and check for a "normal" one.
-		if (multiLine &&
-		    !foundTerminator &&
-		    buffer.length() >= 4 && buffer[0] == '-') {
+		if (multiLine && !foundTerminator) {
+
+			string firstLine, nextLines;
 
-			foundTerminator = checkTerminator(buffer, false);
+			if (stripFirstLine(buffer, nextLines, &firstLine) &&
+			    getResponseCode(firstLine) != CODE_OK) {
+
+				foundTerminator = checkTerminator(buffer, false);
+			}
 		}
 	}
 }
@@ -281,14 +265,12 @@ size_t POP3Response::readResponseImpl(
 	string& firstLine,
 	utility::outputStream& os,
 	utility::progressListener* progress,
-	const size_t predictedSize
+	const size_t predictedSize,
+	const bool keepLastLineBreak
 ) {
 
 	size_t current = 0, total = predictedSize;
 
-	string temp;
-	bool codeDone = false;
-
 	if (progress) {
 		progress->start(total);
 	}
@@ -297,14 +279,22 @@ size_t POP3Response::readResponseImpl(
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
-	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
-	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
-	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
+	// The response is "first line" CRLF, then the data, in which an additional
+	// dot precedes the lines beginning with a dot, then "." CRLF
+	enum {
+		STATE_FIRST_LINE,    // reading first line
+		STATE_LINE_START,    // at the beginning of a line of data
+		STATE_DOT,           // after a dot at the beginning of a line
+		STATE_DOT_CR,        // after a dot and a CR at the beginning of a line
+		STATE_TEXT,          // inside a line of data
+		STATE_END            // terminator has been found
+	} state = STATE_FIRST_LINE;
 
-	utility::inputStream& is = dfis;
+	bool lastIsCR = false;       // last character is CR
+	bool lastLineIsCRLF = true;  // last line ended with CRLF, not LF
+	string data;                 // data not written yet
 
-	while (!is.eof()) {
+	while (state != STATE_END) {
 
 		// Check whether the time-out delay is elapsed
 		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
@@ -312,22 +302,20 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
 		byte_t buffer[65536];
-		const size_t read = is.read(buffer, sizeof(buffer));
+		const size_t read = m_socket->receiveRaw(buffer, sizeof(buffer));
 
 		if (read == 0) {  // buffer is empty
 
 			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
 				m_socket->waitForWrite();
-			} else if (m_socket->getStatus() & socket::STATUS_WANT_READ) {
-				m_socket->waitForRead();
 			} else {
-				// Input stream needs more bytes to continue, but there
-				// is enough data into socket buffer. Do not waitForRead(),
-				// just retry read()ing on the stream.
+				m_socket->waitForRead();
 			}
 
 			continue;
@@ -338,39 +326,105 @@ size_t POP3Response::readResponseImpl(
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Notify progress
-		current += read;
+		for (size_t i = 0 ; i < read && state != STATE_END ; ++i) {
 
-		if (progress) {
-			total = std::max(total, current);
-			progress->progress(current, total);
-		}
+			const char c = static_cast <char>(buffer[i]);
 
-		// If we don't have extracted the response code yet
-		if (!codeDone) {
+			if (state == STATE_FIRST_LINE) {
 
-			vmime::utility::stringUtils::appendBytesToString(temp, buffer, read);
+				if (c == '\n') {
 
-			string responseData;
+					lastLineIsCRLF = lastIsCR;
+					firstLine = utility::stringUtils::trim(firstLine);
 
-			if (stripFirstLine(temp, responseData, &firstLine) == true) {
+					// No data follows an error response
+					if (getResponseCode(firstLine) != CODE_OK) {
+						throw exceptions::command_error("?", firstLine);
+					}
 
-				if (getResponseCode(firstLine) != CODE_OK) {
-					throw exceptions::command_error("?", firstLine);
+					state = STATE_LINE_START;
+
+				} else {
+
+					firstLine += c;
 				}
 
-				codeDone = true;
+				lastIsCR = (c == '\r');
+				continue;
+			}
 
-				os.write(responseData.data(), responseData.length());
-				temp.clear();
+			if (state == STATE_LINE_START && c == '.') {
 
+				state = STATE_DOT;
 				continue;
+
+			} else if (state == STATE_DOT) {
+
+				if (c == '\n') {
+					state = STATE_END;
+					continue;
+				} else if (c == '\r') {
+					state = STATE_DOT_CR;
+					continue;
+				}
+
+				data += '.';
+				lastIsCR = false;
+
+				if (c == '.') {  // dot was doubled
+					state = STATE_TEXT;
+					continue;
+				}
+
+			} else if (state == STATE_DOT_CR) {
+
+				if (c == '\n' && lastLineIsCRLF) {
+					state = STATE_END;
+					continue;
+				}
+
+				data += ".\r";
+				lastIsCR = true;
+			}
+
+			data += c;
+
+			if (c == '\n') {
+				lastLineIsCRLF = lastIsCR;
+				state = STATE_LINE_START;
+			} else {
+				state = STATE_TEXT;
 			}
 
-		} else {
+			lastIsCR = (c == '\r');
+		}
+
+		// Inject the data into the output stream, except the last line
+		// break, as it may be the one before the terminator
+		size_t length = data.length();
+
+		if (state != STATE_END || !keepLastLineBreak) {
+
+			if (length >= 1 && data[length - 1] == '\n') {
+				--length;
+			}
+
+			if (length >= 1 && data[length - 1] == '\r') {
+				--length;
+			}
+		}
 
-			// Inject the data into the output stream
-			os.write(buffer, read);
+		if (length != 0) {
+			os.write(data.data(), length);
+			data.erase(0, length);
+		}
+
+		// Notify progress
+		current += length;
+
+		if (progress) {
+			total = std::max(total, current);
+			progress->progress(current, total);
 		}
 	}
 
@@ -431,7 +485,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index 69f8d5d..6c7a47c 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -95,6 +95,9 @@ public:
 	  * @param os output stream to which response data will be written
 	  * @param progress progress listener (can be NULL)
 	  * @param predictedSize estimated size of response data (in bytes)
+	  * @param keepLastLineBreak if false, the line break before the terminator
+	  * is not written to the output stream; if true, it is, so that the data is
+	  * exactly the one sent by the server
 	  * @return POP3 response
 	  * @throws exceptions::operation_timed_out if no data
 	  * has been received within the granted time
@@ -103,7 +106,8 @@ public:
 		const shared_ptr <POP3Connection>& conn,
 		utility::outputStream& os,
 		utility::progressListener* progress,
-		const size_t predictedSize
+		const size_t predictedSize,
+		const bool keepLastLineBreak = false
 	);
 
 
@@ -158,7 +162,8 @@ private:
 		string& firstLine,
 		utility::outputStream& os,
 		utility::progressListener* progress,
-		const size_t predictedSize
+		const size_t predictedSize,
+		const bool keepLastLineBreak
 	);
 
 
-- 
2.43.0


From ed2d5832974bf147adcdb9497dadb6e7d0056898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 034/143] fix: POP3 folders: messages stay accessible after
 deletions, no dangling pointer to a folder that could not be closed, flags of
 a partial deletion, malformed STAT responses

---
 src/vmime/net/pop3/POP3Folder.cpp | 92 ++++++++++++++++---------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..14fd969 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
@@ -68,7 +69,11 @@ POP3Folder::~POP3Folder() {
 		if (store) {
 
 			if (m_open) {
-				close(false);
+				try {
+					close(false);
+				} catch (...) {
+					// Ignore exception here to make sure unregisterFolder is called
+				}
 			}
 
 			store->unregisterFolder(this);
@@ -625,6 +630,14 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		if (!response->isSuccess()) {
 			throw exceptions::command_error("DELE", response->getFirstLine());
 		}
+
+		// Update local flags
+		for (MessageMap::iterator mit = m_messages.begin() ; mit != m_messages.end() ; ++mit) {
+
+			if ((*mit).first->getNumber() == *it) {
+				(*mit).first->m_deleted = true;
+			}
+		}
 	}
 
 	// Sort message list
@@ -635,17 +648,6 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 
 	std::sort(list.begin(), list.end());
 
-	// Update local flags
-	for (std::map <POP3Message*, size_t>::iterator it =
-	     m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-		POP3Message* msg = (*it).first;
-
-		if (std::binary_search(list.begin(), list.end(), msg->getNumber())) {
-			msg->m_deleted = true;
-		}
-	}
-
 	// Notify message flags changed
 	shared_ptr <events::messageChangedEvent> event =
 		make_shared <events::messageChangedEvent>(
@@ -715,8 +717,6 @@ void POP3Folder::status(size_t& count, size_t& unseen) {
 
 	count = status->getMessageCount();
 	unseen = status->getUnseenCount();
-
-	m_messageCount = count;
 }
 
 
@@ -744,54 +744,56 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 	iss.imbue(std::locale::classic());
 	iss >> count;
 
+	if (iss.fail()) {
+		throw exceptions::invalid_response("STAT", response->getFirstLine());
+	}
+
 	shared_ptr <POP3FolderStatus> status = make_shared <POP3FolderStatus>();
 
 	status->setMessageCount(count);
 	status->setUnseenCount(count);
 
-	// Update local message count
-	if (m_messageCount != count) {
+	// Update local message count (the messages deleted during this session are not
+	// counted by the server, but message numbers do not change until its end)
+	if (count > m_messageCount) {
 
 		const size_t oldCount = m_messageCount;
 
 		m_messageCount = count;
 
-		if (count > oldCount) {
+		std::vector <size_t> nums;
+		nums.resize(count - oldCount);
 
-			std::vector <size_t> nums;
-			nums.resize(count - oldCount);
-
-			for (size_t i = oldCount + 1, j = 0 ; i <= count ; ++i, ++j) {
-				nums[j] = i;
-			}
+		for (size_t i = oldCount + 1, j = 0 ; i <= count ; ++i, ++j) {
+			nums[j] = i;
+		}
 
-			// Notify message count changed
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>(shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
+		// Notify message count changed
+		shared_ptr <events::messageCountEvent> event =
+			make_shared <events::messageCountEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageCountEvent::TYPE_ADDED,
+				nums
+			);
 
-			notifyMessageCount(event);
+		notifyMessageCount(event);
 
-			// Notify folders with the same path
-			for (std::list <POP3Folder*>::iterator it = store->m_folders.begin() ;
-			     it != store->m_folders.end() ; ++it) {
+		// Notify folders with the same path
+		for (std::list <POP3Folder*>::iterator it = store->m_folders.begin() ;
+		     it != store->m_folders.end() ; ++it) {
 
-				if ((*it) != this && (*it)->getFullPath() == m_path) {
+			if ((*it) != this && (*it)->getFullPath() == m_path) {
 
-					(*it)->m_messageCount = count;
+				(*it)->m_messageCount = count;
 
-					shared_ptr <events::messageCountEvent> event =
-						make_shared <events::messageCountEvent>(
-							dynamicCast <folder>((*it)->shared_from_this()),
-							events::messageCountEvent::TYPE_ADDED,
-							nums
-						);
+				shared_ptr <events::messageCountEvent> event =
+					make_shared <events::messageCountEvent>(
+						dynamicCast <folder>((*it)->shared_from_this()),
+						events::messageCountEvent::TYPE_ADDED,
+						nums
+					);
 
-					(*it)->notifyMessageCount(event);
-				}
+				(*it)->notifyMessageCount(event);
 			}
 		}
 	}
-- 
2.43.0


From 9f14bdab5794075606f56c4c01f874353eba4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 035/143] fix: refuse line breaks and NUL in POP3 commands

---
 src/vmime/net/pop3/POP3Command.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..2abc641 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -31,6 +31,8 @@
 #include "vmime/net/pop3/POP3Connection.hpp"
 #include "vmime/net/pop3/POP3Store.hpp"
 
+#include "vmime/exception.hpp"
+
 #include "vmime/net/socket.hpp"
 
 #include "vmime/mailbox.hpp"
@@ -251,6 +253,11 @@ const string POP3Command::getTraceText() const {
 
 void POP3Command::send(const shared_ptr <POP3Connection>& conn) {
 
+	// An argument must not be able to end the command
+	if (m_text.find_first_of(string("\r\n\0", 3)) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	conn->getSocket()->send(m_text + "\r\n");
 
 	if (conn->getTracer()) {
-- 
2.43.0


From 94f87d558800c78d4cdde83c48c1207a175741ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 036/143] fix: SASL socket: no read past the end of decoded
 data, no encoded data lost by non-blocking writes

---
 src/vmime/security/sasl/SASLSocket.cpp | 75 +++++++++++++++++++-------
 src/vmime/security/sasl/SASLSocket.hpp | 13 +++++
 2 files changed, 69 insertions(+), 19 deletions(-)

diff --git a/src/vmime/security/sasl/SASLSocket.cpp b/src/vmime/security/sasl/SASLSocket.cpp
index 0dbafd8..cf9aa0f 100644
--- a/src/vmime/security/sasl/SASLSocket.cpp
+++ b/src/vmime/security/sasl/SASLSocket.cpp
@@ -54,7 +54,8 @@ SASLSocket::SASLSocket(
 	  m_wrapped(wrapped),
 	  m_pendingBuffer(0),
 	  m_pendingPos(0),
-	  m_pendingLen(0) {
+	  m_pendingLen(0),
+	  m_sendPos(0) {
 
 }
 
@@ -123,6 +124,8 @@ shared_ptr <net::tracer> SASLSocket::getTracer() {
 
 bool SASLSocket::waitForRead(const int msecs) {
 
+	flushSendBuffer();
+
 	return m_wrapped->waitForRead(msecs);
 }
 
@@ -143,6 +146,9 @@ void SASLSocket::receive(string& buffer) {
 
 size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 
+	// The peer may be waiting for data we have not been able to send yet
+	flushSendBuffer();
+
 	if (m_pendingLen != 0) {
 
 		const size_t copyLen =
@@ -171,6 +177,10 @@ size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 
 	const size_t n = m_wrapped->receiveRaw(buffer, count);
 
+	if (n == 0) {
+		return 0;
+	}
+
 	byte_t* output = 0;
 	size_t outputLen = 0;
 
@@ -183,7 +193,7 @@ size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 		std::copy(output, output + count, buffer);
 
 		m_pendingBuffer = output;
-		m_pendingLen = outputLen;
+		m_pendingLen = outputLen - count;
 		m_pendingPos = count;
 
 		return count;
@@ -213,39 +223,48 @@ void SASLSocket::send(const char* str) {
 
 void SASLSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
-	byte_t* output = 0;
-	size_t outputLen = 0;
+	encodeToSendBuffer(buffer, count);
 
-	m_session->getMechanism()->encode(
-		m_session, buffer, count, &output, &outputLen
-	);
+	// Remaining data from a previous non-blocking send (if any)
+	// always goes first
+	const std::vector <byte_t> output(m_sendBuffer.begin() + m_sendPos, m_sendBuffer.end());
 
-	try {
+	m_sendBuffer.clear();
+	m_sendPos = 0;
 
-		m_wrapped->sendRaw(output, outputLen);
+	m_wrapped->sendRaw(output.data(), output.size());
+}
 
-	} catch (...) {
 
-		delete [] output;
-		throw;
+size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count) {
+
+	// An encoded message must be sent entirely and in order: do not accept
+	// more data as long as the previous message has not been sent
+	if (!flushSendBuffer()) {
+		return 0;
 	}
 
-	delete [] output;
+	encodeToSendBuffer(buffer, count);
+	flushSendBuffer();
+
+	// Encoded data which could not be sent now is kept, and will
+	// be sent later
+	return count;
 }
 
 
-size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count) {
+void SASLSocket::encodeToSendBuffer(const byte_t* buffer, const size_t count) {
 
 	byte_t* output = 0;
 	size_t outputLen = 0;
 
-	m_session->getMechanism()->encode(m_session, buffer, count, &output, &outputLen);
-
-	size_t bytesSent = 0;
+	m_session->getMechanism()->encode(
+		m_session, buffer, count, &output, &outputLen
+	);
 
 	try {
 
-		bytesSent = m_wrapped->sendRawNonBlocking(output, outputLen);
+		m_sendBuffer.insert(m_sendBuffer.end(), output, output + outputLen);
 
 	} catch (...) {
 
@@ -254,8 +273,26 @@ size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count)
 	}
 
 	delete [] output;
+}
+
+
+bool SASLSocket::flushSendBuffer() {
+
+	if (m_sendPos < m_sendBuffer.size()) {
+
+		m_sendPos += m_wrapped->sendRawNonBlocking(
+			&m_sendBuffer[m_sendPos], m_sendBuffer.size() - m_sendPos
+		);
+	}
+
+	if (m_sendPos < m_sendBuffer.size()) {
+		return false;
+	}
+
+	m_sendBuffer.clear();
+	m_sendPos = 0;
 
-	return bytesSent;
+	return true;
 }
 
 
diff --git a/src/vmime/security/sasl/SASLSocket.hpp b/src/vmime/security/sasl/SASLSocket.hpp
index ac0e89e..97f70b5 100644
--- a/src/vmime/security/sasl/SASLSocket.hpp
+++ b/src/vmime/security/sasl/SASLSocket.hpp
@@ -95,6 +95,19 @@ private:
 	size_t m_pendingLen;
 
 	byte_t m_recvBuffer[65536];
+
+	/** Encode data and append it to the send buffer. */
+	void encodeToSendBuffer(const byte_t* buffer, const size_t count);
+
+	/** Try to send, without blocking, the data in the send buffer.
+	  *
+	  * @return true if there is no more data to send, false otherwise
+	  */
+	bool flushSendBuffer();
+
+	// Encoded data not sent yet
+	std::vector <byte_t> m_sendBuffer;
+	size_t m_sendPos;
 };
 
 
-- 
2.43.0


From 81ae31ed047bdd7bae9df29f7e17439b95a178db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 037/143] fix: IMAP: read responses through the SASL security
 layer once it is negotiated

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..92554bf 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -429,7 +429,7 @@ void IMAPConnection::authenticateSASL() {
 			    resp->response_done->response_tagged->resp_cond_state->
 			    	status == IMAPParser::resp_cond_state::OK) {
 
-				m_socket = saslSession->getSecuredSocket(m_socket);
+				setSocket(saslSession->getSecuredSocket(m_socket));
 				return;
 
 			} else {
-- 
2.43.0


From d4d3d17226919cf370975bff9750e69d65b29e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 038/143] fix: do not dereference a missing tagged response in
 IMAPConnection::fetchCapabilities

---
 src/vmime/net/imap/IMAPConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 92554bf..e119be6 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -645,7 +645,8 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() &&
+	    resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From 3a24300bcb77fd40e1aadb092b654a2cbb77a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 039/143] fix: read each literal only once, bound recursion and
 follow the grammar in IMAPParser

---
 src/vmime/net/imap/IMAPParser.hpp | 280 ++++++++++++++++++++++--------
 1 file changed, 210 insertions(+), 70 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..b1b8597 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -53,6 +53,8 @@
 
 #include "vmime/net/imap/IMAPTag.hpp"
 
+#include <limits>
+#include <map>
 #include <vector>
 #include <stdexcept>
 #include <memory>
@@ -265,9 +267,9 @@ class VMIME_EXPORT IMAPParser : public object {
 public:
 
 	IMAPParser()
-		: m_progress(NULL),
-		  m_strict(false),
-		  m_literalHandler(NULL) {
+		: m_strict(false),
+		  m_literalHandler(NULL),
+		  m_nestingLevel(0) {
 
 	}
 
@@ -493,6 +495,24 @@ public:
 	};
 
 
+	// Limits the number of elements that may be nested into each other
+	class nestingLevel {
+
+	public:
+
+		nestingLevel(IMAPParser& parser) : m_parser(parser) { ++m_parser.m_nestingLevel; }
+		~nestingLevel() { --m_parser.m_nestingLevel; }
+
+		bool isTooDeep() const { return m_parser.m_nestingLevel > MAX_NESTING_LEVEL; }
+
+	private:
+
+		enum { MAX_NESTING_LEVEL = 200 };
+
+		IMAPParser& m_parser;
+	};
+
+
 #define COMPONENT_ALIAS(parent, name) \
 	class name : public parent { \
 		virtual const string getComponentName() const { return #name; }  \
@@ -672,15 +692,29 @@ public:
 			size_t pos = *currentPos;
 
 			bool valid = true;
-			unsigned int val = 0;
+			vmime_uint64 val = 0;
+
+			// Non-zero numbers are identifiers (32-bit), other numbers may be
+			// sizes that do not fit in 32 bits (RFC-9051)
+			const vmime_uint64 max = m_nonZero
+				? static_cast <vmime_uint64>(0xffffffffu)
+				: static_cast <vmime_uint64>(std::numeric_limits <unsigned long>::max());
 
 			while (valid && pos < line.length()) {
 
 				const char c = line[pos];
 
 				if (c >= '0' && c <= '9') {
-					val = (val * 10) + (c - '0');
+
+					const unsigned int digit = c - '0';
+
+					if (val > (max - digit) / 10) {
+						return false;  // number too large
+					}
+
+					val = (val * 10) + digit;
 					++pos;
+
 				} else {
 					valid = false;
 				}
@@ -688,7 +722,7 @@ public:
 
 			// Check for non-null length (and for non-zero number)
 			if (!(m_nonZero && val == 0) && pos != *currentPos) {
-				value = val;
+				value = static_cast <unsigned long>(val);
 				*currentPos = pos;
 				return true;
 			} else {
@@ -769,18 +803,35 @@ public:
 
 	DECLARE_COMPONENT(uid_set)
 
+		~uid_set() {
+
+			// Avoid recursion (sets may be very long)
+			while (next_uid_set) {
+				std::unique_ptr <IMAPParser::uid_set> next(std::move(next_uid_set->next_uid_set));
+				next_uid_set = std::move(next);
+			}
+		}
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
 
-			// We have either a 'uid_range' or a 'uniqueid'
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, uid_range)) {
-				VIMAP_PARSER_GET(IMAPParser::uniqueid, uniqueid);
-			}
+			IMAPParser::uid_set* cur = this;
+
+			while (true) {
 
-			// And maybe another 'uid-set' following
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
-				VIMAP_PARSER_GET(IMAPParser::uid_set, next_uid_set);
+				// We have either a 'uid_range' or a 'uniqueid'
+				if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, cur->uid_range)) {
+					VIMAP_PARSER_GET(IMAPParser::uniqueid, cur->uniqueid);
+				}
+
+				// And maybe another 'uid-set' following
+				if (!VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
+					break;
+				}
+
+				cur->next_uid_set.reset(new IMAPParser::uid_set());
+				cur = cur->next_uid_set.get();
 			}
 
 			*currentPos = pos;
@@ -1082,6 +1133,8 @@ public:
 
 				isNIL = false;
 
+				const size_t startPos = pos;
+
 				// quoted ::= <"> *QUOTED_CHAR <">
 				if (VIMAP_PARSER_TRY_CHECK(one_char <'"'>)) {
 
@@ -1089,10 +1142,9 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (!parser.getAlreadyReadString(startPos, value)) {
 
-						shared_ptr <literalHandler::target> target =
-							parser.m_literalHandler->targetFor(*m_component, m_data);
+						shared_ptr <literalHandler::target> target = getTarget(parser);
 
 						if (target != NULL) {
 
@@ -1112,14 +1164,12 @@ public:
 								progress->stop(length);
 							}
 
+							parser.setAlreadyReadString(startPos, value);
+
 						} else {
 
 							value = text->value;
 						}
-
-					} else {
-
-						value = text->value;
 					}
 
 					DEBUG_FOUND("string[quoted]", "<length=" << value.length() << ", value='" << value << "'>");
@@ -1136,34 +1186,29 @@ public:
 
 					VIMAP_PARSER_CHECK(CRLF);
 
+					// A literal is read only once from the server, even when
+					// it is parsed again after another alternative has failed
+					if (!parser.getAlreadyReadString(startPos, value)) {
 
-					if (parser.m_literalHandler != NULL) {
-
-						shared_ptr <literalHandler::target> target =
-							parser.m_literalHandler->targetFor(*m_component, m_data);
+						shared_ptr <literalHandler::target> target = getTarget(parser);
 
 						if (target != NULL) {
 
 							value = "[literal-handler]";
 
-							parser.m_progress = target->progressListener();
-							parser.readLiteral(*target, length);
-							parser.m_progress = NULL;
+							parser.readLiteral(*target, length, target->progressListener());
 
 						} else {
 
 							literalHandler::targetString target(NULL, value);
-							parser.readLiteral(target, length);
+							parser.readLiteral(target, length, NULL);
 						}
 
-					} else {
+						line += parser.readLine();
 
-						literalHandler::targetString target(NULL, value);
-						parser.readLiteral(target, length);
+						parser.setAlreadyReadString(startPos, value);
 					}
 
-					line += parser.readLine();
-
 					DEBUG_FOUND("string[literal]", "<length=" << length << ", value='" << value << "'>");
 
 				} else {
@@ -1183,6 +1228,15 @@ public:
 
 	private:
 
+		shared_ptr <literalHandler::target> getTarget(IMAPParser& parser) const {
+
+			if (parser.m_literalHandler == NULL || m_component == NULL) {
+				return null;
+			}
+
+			return parser.m_literalHandler->targetFor(*m_component, m_data);
+		}
+
 		bool m_canBeNIL;
 
 		component* m_component;
@@ -1241,8 +1295,6 @@ public:
 
 			} else {
 
-				value.reserve(line.length() - pos);
-
 				for (bool end = false ; !end && pos < line.length() ; ) {
 
 					const unsigned char c = line[pos];
@@ -1273,6 +1325,10 @@ public:
 						end = true;
 					}
 				}
+
+				if (value.empty()) {
+					VIMAP_PARSER_FAIL();
+				}
 			}
 
 			*currentPos = pos;
@@ -1538,7 +1594,7 @@ public:
 
 			VIMAP_PARSER_GET(seq_number, first);
 
-			VIMAP_PARSER_CHECK(one_char <'*'> );
+			VIMAP_PARSER_CHECK(one_char <':'> );
 
 			VIMAP_PARSER_GET(seq_number, last);
 
@@ -1563,16 +1619,33 @@ public:
 
 	DECLARE_COMPONENT(sequence_set)
 
+		~sequence_set() {
+
+			// Avoid recursion (sets may be very long)
+			while (nextSet) {
+				std::unique_ptr <IMAPParser::sequence_set> next(std::move(nextSet->nextSet));
+				nextSet = std::move(next);
+			}
+		}
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
 
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
-				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
-			}
+			IMAPParser::sequence_set* cur = this;
 
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
-				VIMAP_PARSER_GET(sequence_set, nextSet);
+			while (true) {
+
+				if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, cur->range)) {
+					VIMAP_PARSER_GET(IMAPParser::seq_number, cur->number);
+				}
+
+				if (!VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
+					break;
+				}
+
+				cur->nextSet.reset(new IMAPParser::sequence_set());
+				cur = cur->nextSet.get();
 			}
 
 			*currentPos = pos;
@@ -1611,13 +1684,26 @@ public:
 				const char c = line[pos];
 
 				if (c >= '0' && c <= '9') {
-					val = (val * 10) + (c - '0');
+
+					const unsigned int digit = c - '0';
+
+					if (val > (std::numeric_limits <vmime_uint64>::max() - digit) / 10) {
+						return false;  // number too large
+					}
+
+					val = (val * 10) + digit;
 					++pos;
+
 				} else {
 					valid = false;
 				}
 			}
 
+			// Check for non-null length
+			if (pos == *currentPos) {
+				return false;
+			}
+
 			value = val;
 
 			*currentPos = pos;
@@ -1761,7 +1847,10 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "inbox")) {
+			std::unique_ptr <astring> astr;
+			VIMAP_PARSER_GET(astring, astr);
+
+			if (utility::stringUtils::toLower(astr->value) == "inbox") {
 
 				type = INBOX;
 				name = "INBOX";
@@ -1769,9 +1858,6 @@ public:
 			} else {
 
 				type = OTHER;
-
-				std::unique_ptr <astring> astr;
-				VIMAP_PARSER_GET(astring, astr);
 				name = astr->value;
 			}
 
@@ -2209,7 +2295,9 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				if (auth_type) {
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
@@ -2305,8 +2393,8 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
-			shared_ptr <atom> amo;
-			VIMAP_PARSER_GET(atom, amo);
+			shared_ptr <text_except <'-'> > amo;
+			VIMAP_PARSER_GET(text_except <'-'> , amo);
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
@@ -2336,6 +2424,7 @@ public:
 
 			if (!(VIMAP_PARSER_TRY_CHECK(one_char <'+'> ))) {
 				VIMAP_PARSER_CHECK(one_char <'-'> );
+				sign = -1;
 			}
 
 			shared_ptr <number> nz;
@@ -2473,9 +2562,13 @@ public:
 
 			size_t pos = *currentPos;
 
+			const nestingLevel level(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!level.isTooDeep());
+
 			if (VIMAP_PARSER_TRY_CHECK(one_char <'('> )) {
 
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
+				VIMAP_PARSER_TRY_CHECK(SPACE);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
@@ -3496,6 +3589,9 @@ public:
 
 			size_t pos = *currentPos;
 
+			const nestingLevel level(parser);
+			VIMAP_PARSER_FAIL_UNLESS(!level.isTooDeep());
+
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
 			if (!VIMAP_PARSER_TRY_GET(IMAPParser::body_type_mpart, body_type_mpart)) {
@@ -3708,7 +3804,7 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
-			items.push_back(std::unique_ptr <msg_att_item>(parser.get <msg_att_item>(line, &pos)));
+			VIMAP_PARSER_GET_PUSHBACK(msg_att_item, items);
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 				VIMAP_PARSER_CHECK(SPACE);
@@ -4509,6 +4605,8 @@ public:
 				// We have read a CRLF, read another line
 				curLine = parser.readLine();
 				pos = 0;
+
+				parser.clearAlreadyReadStrings();
 			}
 
 			if (!partial) {
@@ -4624,8 +4722,18 @@ public:
 			size_t pos = 0;
 			string line = readLine();
 
+			clearAlreadyReadStrings();
+
+			response* resp = NULL;
 			m_literalHandler = lh;
-			response* resp = get <response>(line, &pos);
+
+			try {
+				resp = get <response>(line, &pos);
+			} catch (...) {
+				m_literalHandler = NULL;
+				throw;
+			}
+
 			m_literalHandler = NULL;
 
 			if (!resp) {
@@ -4649,7 +4757,10 @@ public:
 					return resp;
 				} else {
 					// Not our response tag, cache it for later
-					m_pendingResponses[resp->response_done->response_tagged->tag->tagString] = resp;
+					response*& pending = m_pendingResponses[resp->response_done->response_tagged->tag->tagString];
+
+					delete pending;
+					pending = resp;
 				}
 			} else {
 				// Untagged response
@@ -4664,6 +4775,8 @@ public:
 		size_t pos = 0;
 		string line = readLine();
 
+		clearAlreadyReadStrings();
+
 		greeting* greet = get <greeting>(line, &pos);
 
 		if (!greet) {
@@ -4689,8 +4802,8 @@ public:
 	template <class TYPE>
 	TYPE* get(string& line, size_t* currentPos) {
 
-		component* resp = new TYPE;
-		return internalGet <TYPE>(resp, line, currentPos);
+		std::unique_ptr <TYPE> resp(new TYPE);
+		return internalGet <TYPE>(std::move(resp), line, currentPos);
 	}
 
 	/** Parse a token which takes 2 arguments and advance.
@@ -4710,27 +4823,48 @@ public:
 	template <class TYPE, class ARG1_TYPE, class ARG2_TYPE>
 	TYPE* getWithArgs(string& line, size_t* currentPos, ARG1_TYPE arg1, ARG2_TYPE arg2) {
 
-		component* resp = new TYPE(arg1, arg2);
-		return internalGet <TYPE>(resp, line, currentPos);
+		std::unique_ptr <TYPE> resp(new TYPE(arg1, arg2));
+		return internalGet <TYPE>(std::move(resp), line, currentPos);
 	}
 
 private:
 
 	template <class TYPE>
-	TYPE* internalGet(component* resp, string& line, size_t* currentPos) {
+	TYPE* internalGet(std::unique_ptr <TYPE> resp, string& line, size_t* currentPos) {
 
 		const size_t oldPos = *currentPos;
 
 		if (!resp->parse(*this, line, currentPos)) {
-
 			*currentPos = oldPos;
+			return NULL;
+		}
 
-			delete resp;
+		return resp.release();
+	}
 
-			return NULL;
+	// Strings of the current response that have been read from the server
+	// or handed to the literal handler (key is the position in the line)
+	bool getAlreadyReadString(const size_t pos, string& value) const {
+
+		auto it = m_alreadyReadStrings.find(pos);
+
+		if (it == m_alreadyReadStrings.end()) {
+			return false;
 		}
 
-		return static_cast <TYPE*>(resp);
+		value = it->second;
+
+		return true;
+	}
+
+	void setAlreadyReadString(const size_t pos, const string& value) {
+
+		m_alreadyReadStrings[pos] = value;
+	}
+
+	void clearAlreadyReadStrings() {
+
+		m_alreadyReadStrings.clear();
 	}
 
 	const string lastLine() const {
@@ -4814,12 +4948,12 @@ private:
 	weak_ptr <socket> m_socket;
 	shared_ptr <tracer> m_tracer;
 
-	utility::progressListener* m_progress;
-
 	bool m_strict;
 
 	literalHandler* m_literalHandler;
 
+	size_t m_nestingLevel;
+
 	weak_ptr <timeoutHandler> m_timeoutHandler;
 
 
@@ -4828,6 +4962,8 @@ private:
 	string m_lastLine;
 	string m_errorResponseLine;
 
+	std::map <size_t, string> m_alreadyReadStrings;
+
 	std::map <std::string, response*> m_pendingResponses;
 
 public:
@@ -4917,7 +5053,11 @@ public:
 	}
 
 
-	void readLiteral(literalHandler::target& buffer, size_t count) {
+	void readLiteral(
+		literalHandler::target& buffer,
+		const size_t count,
+		utility::progressListener* progress
+	) {
 
 		size_t len = 0;
 		string receiveBuffer;
@@ -4928,8 +5068,8 @@ public:
 		if (!sok)
 			throw exceptions::illegal_state("Store disconnected");
 
-		if (m_progress) {
-			m_progress->start(count);
+		if (progress) {
+			progress->start(count);
 		}
 
 		if (toh) {
@@ -5003,8 +5143,8 @@ public:
 			}
 
 			// Notify progress
-			if (m_progress) {
-				m_progress->progress(len, count);
+			if (progress) {
+				progress->progress(len, count);
 			}
 		}
 
@@ -5012,8 +5152,8 @@ public:
 			m_tracer->traceReceiveBytes(count);
 		}
 
-		if (m_progress) {
-			m_progress->stop(count);
+		if (progress) {
+			progress->stop(count);
 		}
 	}
 };
-- 
2.43.0


From 27fe93d54e38c4b586a02b7ceffcd92532e32a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 040/143] fix: IMAP: a folder which is not open does not
 prevent another object from opening it

---
 src/vmime/net/imap/IMAPFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..db0e82a 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -158,7 +158,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		if ((*it) != this && (*it)->isOpen() && (*it)->getFullPath() == m_path) {
 			throw exceptions::folder_already_open();
 		}
 	}
-- 
2.43.0


From 0bbd809c8a25e17da3fdc49452bfb29fac4a23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 041/143] fix: IMAP: update the paths of sub-folders when a
 folder is renamed

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index db0e82a..27ea250 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1296,7 +1296,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1304,7 +1304,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From c46ce5e087c38df93e0996c3b75de527576c46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 042/143] fix: IMAP: do not return the last message when
 searching from a UID higher than its own

---
 src/vmime/net/imap/IMAPFolder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 27ea250..ff18645 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1456,7 +1456,8 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
-	uidSearchKey << "UID " << uid << ":*";
+	// Not "uid:*", which also matches the last message when its UID is lower (RFC 3501, 9)
+	uidSearchKey << "UID " << uid << ":4294967295";
 
 	std::vector <string> searchKeys;
 	searchKeys.push_back(uidSearchKey.str());
-- 
2.43.0


From f9990a0be8a445f81ab81120a7aac48f58f4b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 043/143] fix: IMAP: size and name of message/rfc822 parts,
 name of parts case-insensitive

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..c8c11b0 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -30,6 +30,8 @@
 #include "vmime/net/imap/IMAPMessagePart.hpp"
 #include "vmime/net/imap/IMAPMessageStructure.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 
 namespace vmime {
 namespace net {
@@ -57,7 +59,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
@@ -96,6 +98,10 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
-- 
2.43.0


From 520f163dcc9cc2851565045e1fd1efbdbe4834bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 044/143] fix: IMAP: contents of a part do not include its
 header

---
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From 42a5317f08e91b3d4c0f80a27649c8f62b5676ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 045/143] fix: IMAP: skip group markers in envelope address
 lists

---
 src/vmime/net/imap/IMAPUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 6c1b514..1496a8b 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -782,6 +782,11 @@ void IMAPUtils::convertAddressList(
 
 	for (auto& addr : src.addresses) {
 
+		// Start or end of a group
+		if (addr->addr_host->isNIL) {
+			continue;
+		}
+
 		text name;
 		text::decodeAndUnfold(addr->addr_name->value, &name);
 
-- 
2.43.0


From 701b76b639526d1119c6c3ab9268d30d1ee7611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 046/143] fix: IMAP: messages which do not exist (anymore),
 missing date, several In-Reply-To

---
 src/vmime/net/imap/IMAPMessage.cpp | 57 +++++++++++++++++++++++++-----
 src/vmime/net/imap/IMAPMessage.hpp |  7 ++++
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..989e002 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -318,16 +318,20 @@ size_t IMAPMessage::extractImpl(
 	const int extractFlags
 ) const {
 
-	shared_ptr <const IMAPFolder> folder = m_folder.lock();
+	shared_ptr <IMAPFolder> folder = m_folder.lock();
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
 	}
-	
+
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
-	
+
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
 	if (length == 0) {
@@ -477,8 +481,25 @@ size_t IMAPMessage::extractImpl(
 	}
 
 
-	if (extractFlags & EXTRACT_BODY) {
-		// TODO: update the flags (eg. flag "\Seen" may have been set)
+	// Ensure the server sent something, ie. the message still exists
+	bool found = false;
+
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (respData->response_data && respData->response_data->message_data &&
+		    respData->response_data->message_data->type == IMAPParser::message_data::FETCH) {
+
+			for (auto &att : respData->response_data->message_data->msg_att->items) {
+				found = found || (att->type == IMAPParser::msg_att_item::BODY_SECTION);
+			}
+		}
+	}
+
+	// Update the flags (eg. flag "\Seen" may have been set)
+	folder->processStatusUpdate(resp.get());
+
+	if (!found) {
+		throw exceptions::message_not_found();
 	}
 
 	return literalHandler.getTarget()->getBytesWritten();
@@ -527,7 +548,9 @@ int IMAPMessage::processFetchResponse(
 					shared_ptr <vmime::header> hdr = getOrCreateHeader();
 
 					// Date
-					hdr->Date()->setValue(env->env_date->value);
+					if (!env->env_date->isNIL) {
+						hdr->Date()->setValue(env->env_date->value);
+					}
 
 					// Subject
 					text subject;
@@ -588,9 +611,8 @@ int IMAPMessage::processFetchResponse(
 
 					// In-Reply-To
 					if (!env->env_in_reply_to->isNIL) {
-						shared_ptr <messageId> mid = make_shared <messageId>(env->env_in_reply_to->value);
 						messageIdSequence sequence;
-						sequence.appendMessageId(mid);
+						sequence.parse(env->env_in_reply_to->value);
 						hdr->InReplyTo()->setValue(sequence);
 					}
 				}
@@ -648,6 +670,21 @@ int IMAPMessage::processFetchResponse(
 }
 
 
+void IMAPMessage::processFlagsResponse(const IMAPParser::message_data& msgData) {
+
+	for (auto &att : msgData.msg_att->items) {
+
+		if (att->type == IMAPParser::msg_att_item::FLAGS) {
+			m_flags = IMAPUtils::messageFlagsFromFlags(*att->flag_list);
+		} else if (att->type == IMAPParser::msg_att_item::UID) {
+			m_uid = att->uniqueid->value;
+		} else if (att->type == IMAPParser::msg_att_item::MODSEQ) {
+			m_modseq = att->mod_sequence_value->value;
+		}
+	}
+}
+
+
 shared_ptr <header> IMAPMessage::getOrCreateHeader() {
 
 	if (m_header != NULL) {
@@ -666,6 +703,10 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
diff --git a/src/vmime/net/imap/IMAPMessage.hpp b/src/vmime/net/imap/IMAPMessage.hpp
index 6d82a3e..8919e8c 100644
--- a/src/vmime/net/imap/IMAPMessage.hpp
+++ b/src/vmime/net/imap/IMAPMessage.hpp
@@ -134,6 +134,13 @@ private:
 	  */
 	int processFetchResponse(const fetchAttributes& options, const IMAPParser::message_data& msgData);
 
+	/** Update flags of this message from an untagged FETCH response, which
+	  * the server may send at any time.
+	  *
+	  * @param msgData message data sent by the server
+	  */
+	void processFlagsResponse(const IMAPParser::message_data& msgData);
+
 	/** Recursively fetch part header for all parts in the structure.
 	  *
 	  * @param str structure for which to fetch parts headers
-- 
2.43.0


From 9d6543a69aa69b9fc7a3f3e540080f246959aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 047/143] fix: IMAP: LIST results: only this mailbox, only
 children of the folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 41 +++++++++++++++++++------------
 src/vmime/net/imap/IMAPFolder.hpp | 26 ++++++++++++++++++++
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index ff18645..b452cd1 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -533,9 +533,11 @@ int IMAPFolder::testExistAndGetType() {
 
 		auto *mailboxData = (*it)->response_data->mailbox_data.get();
 
-		// We are only interested in responses of type "LIST"
+		// We are only interested in responses of type "LIST". If the name of
+		// the folder contains a wildcard, other folders may be listed, too.
 		if (mailboxData &&
-		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
+		    mailboxData->type == IMAPParser::mailbox_data::LIST &&
+		    isThisMailbox(*mailboxData->mailbox_list)) {
 
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
@@ -547,12 +549,22 @@ int IMAPFolder::testExistAndGetType() {
 		}
 	}
 
+	if (isOpen()) {
+		processStatusUpdate(resp.get());
+	}
+
 	m_attribs = make_shared <folderAttributes>(attribs);
 
 	return m_attribs->getType();
 }
 
 
+bool IMAPFolder::isThisMailbox(const IMAPParser::mailbox_list& list) const {
+
+	return IMAPUtils::stringToPath(list.quoted_char, list.mailbox->name) == m_path;
+}
+
+
 bool IMAPFolder::isOpen() const {
 
 	return m_open;
@@ -713,19 +725,12 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		m_connection->hierarchySeparator(), getFullPath()
 	);
 
-	if (recursive) {
-
-		cmd = IMAPCommand::LIST(pathString, "*");
-
-	} else {
-
-		cmd = IMAPCommand::LIST(
-			pathString.empty()
-				? ""
-				: (pathString + m_connection->hierarchySeparator()),
-			"%"
-		);
-	}
+	cmd = IMAPCommand::LIST(
+		pathString.empty()
+			? ""
+			: (pathString + m_connection->hierarchySeparator()),
+		recursive ? "*" : "%"
+	);
 
 	cmd->send(m_connection);
 
@@ -761,7 +766,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		if (recursive ? m_path.isParentOf(path) : m_path.isDirectParentOf(path)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
@@ -777,6 +782,10 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		}
 	}
 
+	if (isOpen()) {
+		processStatusUpdate(resp.get());
+	}
+
 	return v;
 }
 
diff --git a/src/vmime/net/imap/IMAPFolder.hpp b/src/vmime/net/imap/IMAPFolder.hpp
index ef54719..bb11873 100644
--- a/src/vmime/net/imap/IMAPFolder.hpp
+++ b/src/vmime/net/imap/IMAPFolder.hpp
@@ -234,6 +234,32 @@ private:
 	void processStatusUpdate(const IMAPParser::response* resp);
 
 
+	// Data received about a message in response to a FETCH command
+	struct fetchedMessage {
+		size_t number;
+		message::uid uid;
+		std::vector <const IMAPParser::message_data*> data;
+	};
+
+	/** Lists the messages for which the response to a FETCH command contains a UID.
+	  *
+	  * @param command name of the command, for error messages
+	  * @param resp response to the command
+	  * @return messages, with the number they have once the whole response is processed
+	  */
+	static std::vector <fetchedMessage> getFetchedMessages(
+		const char* command,
+		const IMAPParser::response* resp
+	);
+
+	/** Tests whether a LIST response is about this folder.
+	  *
+	  * @param list LIST response
+	  * @return true if the response is about this folder, false otherwise
+	  */
+	bool isThisMailbox(const IMAPParser::mailbox_list& list) const;
+
+
 	weak_ptr <IMAPStore> m_store;
 	shared_ptr <IMAPConnection> m_connection;
 
-- 
2.43.0


From f0541d3a0fa2cf57c74b7d93f23d31674c34242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 048/143] fix: IMAP: fetchMessages: expunged messages, several
 objects for one message

---
 src/vmime/net/imap/IMAPFolder.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index b452cd1..7be1a5e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -812,12 +812,21 @@ void IMAPFolder::fetchMessages(
 	std::vector <size_t> list;
 	list.reserve(msg.size());
 
-	std::map <size_t, shared_ptr <IMAPMessage> > numberToMsg;
+	std::multimap <size_t, shared_ptr <IMAPMessage> > numberToMsg;
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		// The number of an expunged message is now the number of another message
+		if ((*it)->isExpunged()) {
+			continue;
+		}
+
 		list.push_back((*it)->getNumber());
-		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
+		numberToMsg.insert(std::make_pair((*it)->getNumber(), dynamicCast <IMAPMessage>(*it)));
+	}
+
+	if (list.empty()) {
+		return;
 	}
 
 	// Send the request
@@ -861,14 +870,14 @@ void IMAPFolder::fetchMessages(
 			// Process fetch response for this message
 			const size_t num = messageData->number;
 
-			std::map <size_t, shared_ptr <IMAPMessage> >::iterator msg = numberToMsg.find(num);
+			const auto msgs = numberToMsg.equal_range(num);
 
-			if (msg != numberToMsg.end()) {
+			for (auto msg = msgs.first ; msg != msgs.second ; ++msg) {
 
 				(*msg).second->processFetchResponse(options, *messageData);
 
 				if (progress) {
-					progress->progress(++current, total);
+					progress->progress(current = std::min(current + 1, total), total);
 				}
 			}
 		}
-- 
2.43.0


From 1ece2d52f96bc91e355afc58e42d5ac588ec4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 049/143] fix: IMAP: several FETCH responses for a message,
 EXPUNGE after FETCH

---
 src/vmime/net/imap/IMAPFolder.cpp | 122 ++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 41 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 7be1a5e..2cd112c 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -625,12 +625,38 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	}
 
 	// Process the response
-	auto &respDataList = resp->continue_req_or_response_data;
+	const auto fetched = getFetchedMessages("UID FETCH ... UID", resp.get());
+
+	processStatusUpdate(resp.get());
+
+	for (auto &it : fetched) {
+
+		messages.push_back(
+			make_shared <IMAPMessage>(
+				dynamicCast <IMAPFolder>(shared_from_this()), it.number, it.uid
+			)
+		);
+	}
+
+	return messages;
+}
+
+
+// static
+std::vector <IMAPFolder::fetchedMessage> IMAPFolder::getFetchedMessages(
+	const char* command,
+	const IMAPParser::response* resp
+) {
+
+	const auto &respDataList = resp->continue_req_or_response_data;
+
+	std::vector <fetchedMessage> messages;
+	std::map <size_t, std::vector <const IMAPParser::message_data*> > dataByNumber;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
 		if (!(*it)->response_data) {
-			throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "invalid response");
+			throw exceptions::command_error(command, resp->getErrorLog(), "invalid response");
 		}
 
 		auto *messageData = (*it)->response_data->message_data.get();
@@ -640,22 +666,59 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 			continue;
 		}
 
-		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
-		message::uid msgUID;
+		// The number is the one the message has when the server sends this data:
+		// take into account the messages which are expunged later in the response
+		size_t msgNum = messageData->number;
+
+		for (auto jt = it + 1 ; msgNum != 0 && jt != respDataList.end() ; ++jt) {
+
+			if ((*jt)->response_data && (*jt)->response_data->message_data &&
+			    (*jt)->response_data->message_data->type == IMAPParser::message_data::EXPUNGE) {
+
+				const size_t expungedNum = (*jt)->response_data->message_data->number;
+
+				if (expungedNum == msgNum) {
+					msgNum = 0;
+				} else if (expungedNum < msgNum) {
+					--msgNum;
+				}
+			}
+		}
+
+		if (msgNum == 0) {
+			continue;  // message does not exist anymore
+		}
+
+		// There may be several responses for the same message. Those without UID
+		// may also be about messages which have not been asked for (eg. new flags).
+		dataByNumber[msgNum].push_back(messageData);
 
 		for (auto &att : messageData->msg_att->items) {
 
 			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
+
+				bool found = false;
+
+				for (auto &msg : messages) {
+					found = found || (msg.number == msgNum);
+				}
+
+				if (!found) {
+
+					fetchedMessage msg;
+					msg.number = msgNum;
+					msg.uid = att->uniqueid->value;
+
+					messages.push_back(msg);
+				}
+
 				break;
 			}
 		}
+	}
 
-		if (!msgUID.empty()) {
-			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
-		}
+	for (auto &msg : messages) {
+		msg.data = dataByNumber[msg.number];
 	}
 
 	return messages;
@@ -941,49 +1004,26 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-	auto &respDataList = resp->continue_req_or_response_data;
-
 	std::vector <shared_ptr <message> > messages;
 
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
-
-		if (!(*it)->response_data) {
-			throw exceptions::command_error("FETCH", resp->getErrorLog(), "invalid response");
-		}
-
-		auto *messageData = (*it)->response_data->message_data.get();
-
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-			continue;
-		}
+	const auto fetched = getFetchedMessages("FETCH", resp.get());
 
-		// Get message number
-		const size_t msgNum = messageData->number;
-
-		// Get message UID
-		message::uid msgUID;
+	processStatusUpdate(resp.get());
 
-		for (auto &att : messageData->msg_att->items) {
-
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
-			}
-		}
+	for (auto &it : fetched) {
 
 		// Create a new message reference
 		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
+		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, it.number, it.uid);
 
 		messages.push_back(msg);
 
-		// Process fetch response for this message
-		msg->processFetchResponse(attribsWithUID, *messageData);
+		// Process fetch responses for this message
+		for (auto *messageData : it.data) {
+			msg->processFetchResponse(attribsWithUID, *messageData);
+		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return messages;
 }
 
-- 
2.43.0


From 703fed3beef391324eddd9babb30c082dc72d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 050/143] fix: IMAP: process status updates in the order the
 server sends them

---
 src/vmime/net/imap/IMAPFolder.cpp       | 150 ++++++++++++++++--------
 src/vmime/net/imap/IMAPFolderStatus.cpp |   6 +
 src/vmime/net/imap/IMAPFolderStatus.hpp |   6 +
 3 files changed, 115 insertions(+), 47 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 2cd112c..27e2804 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1460,25 +1460,58 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 
 	auto &respDataList = resp->continue_req_or_response_data;
 
+	// The server may send the status of another folder before the one requested
+	IMAPParser::mailbox_data *statusData = NULL;
+
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
-		if ((*it)->response_data) {
+		if (!(*it)->response_data) {
+			continue;
+		}
 
-			auto &responseData = (*it)->response_data;
+		auto *mailboxData = (*it)->response_data->mailbox_data.get();
 
-			if (responseData->mailbox_data &&
-				responseData->mailbox_data->type == IMAPParser::mailbox_data::STATUS) {
+		if (!mailboxData || mailboxData->type != IMAPParser::mailbox_data::STATUS) {
+			continue;
+		}
 
-				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
-				status->updateFromResponse(*responseData->mailbox_data);
+		const bool sameFolder = IMAPUtils::stringToPath(
+			m_connection->hierarchySeparator(), mailboxData->mailbox->name
+		) == m_path;
 
-				m_status->updateFromResponse(*responseData->mailbox_data);
+		if (!statusData || sameFolder) {
+			statusData = mailboxData;
+		}
 
-				return status;
-			}
+		if (sameFolder) {
+			break;
 		}
 	}
 
+	if (statusData) {
+
+		shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
+		status->updateFromResponse(*statusData);
+
+		if (isOpen()) {
+
+			// The number of messages only changes when the server announces it with
+			// EXISTS or EXPUNGE, so that message numbers are consistent with it
+			const size_t count = m_status->getMessageCount();
+
+			m_status->updateFromResponse(*statusData);
+			m_status->setMessageCount(count);
+
+			processStatusUpdate(resp.get());
+
+		} else {
+
+			m_status->updateFromResponse(*statusData);
+		}
+
+		return status;
+	}
+
 	throw exceptions::command_error("STATUS", resp->getErrorLog(), "invalid response");
 }
 
@@ -1661,9 +1694,6 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 	std::vector <shared_ptr <events::event> > events;
 
-	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
-
 	// Process tagged response
 	if (resp->response_done &&
 	    resp->response_done->response_tagged &&
@@ -1689,20 +1719,50 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
-			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			auto* mailboxData = (*it)->response_data->mailbox_data.get();
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
-
-				folderAttributes attribs;
-				IMAPUtils::mailboxFlagsToFolderAttributes(
-					m_connection,
-					m_path,
-					*(*it)->response_data->mailbox_data->mailbox_list->mailbox_flag_list,
-					attribs
-				);
+			if (mailboxData->type == IMAPParser::mailbox_data::LIST) {
+
+				if (isThisMailbox(*mailboxData->mailbox_list)) {
+
+					folderAttributes attribs;
+					IMAPUtils::mailboxFlagsToFolderAttributes(
+						m_connection,
+						m_path,
+						*mailboxData->mailbox_list->mailbox_flag_list,
+						attribs
+					);
+
+					m_attribs = make_shared <folderAttributes>(attribs);
+				}
+
+			// Status of a folder, not necessarily this one
+			} else if (mailboxData->type != IMAPParser::mailbox_data::STATUS) {
 
-				m_attribs = make_shared <folderAttributes>(attribs);
+				const size_t oldCount = m_status->getMessageCount();
+
+				m_status->updateFromResponse(*mailboxData);
+
+				// New messages arrived
+				if (m_status->getMessageCount() > oldCount) {
+
+					std::vector <size_t> newMessageNumbers;
+
+					for (size_t msgNumber = oldCount + 1 ;
+					     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
+
+						newMessageNumbers.push_back(msgNumber);
+					}
+
+					events.push_back(
+						make_shared <events::messageCountEvent>(
+							dynamicCast <folder>(shared_from_this()),
+							events::messageCountEvent::TYPE_ADDED,
+							newMessageNumbers
+						)
+					);
+				}
 			}
 
 		} else if ((*it)->response_data && (*it)->response_data->message_data) {
@@ -1712,12 +1772,22 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 			if (msgData->type == IMAPParser::message_data::FETCH) {
 
+				bool hasFlags = false;
+
+				for (auto &att : msgData->msg_att->items) {
+					hasFlags = hasFlags || (att->type == IMAPParser::msg_att_item::FLAGS);
+				}
+
+				if (!hasFlags) {
+					continue;
+				}
+
 				// Message changed
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
-						(*mit)->processFetchResponse(/* options */ 0, *msgData);
+					if (!(*mit)->isExpunged() && (*mit)->getNumber() == msgNumber) {
+						(*mit)->processFlagsResponse(*msgData);
 					}
 				}
 
@@ -1735,6 +1805,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator jt =
 				     m_messages.begin() ; jt != m_messages.end() ; ++jt) {
 
+					if ((*jt)->isExpunged()) {
+						continue;
+					}
+
 					if ((*jt)->getNumber() == msgNumber) {
 						(*jt)->setExpunged();
 					} else if ((*jt)->getNumber() > msgNumber) {
@@ -1742,6 +1816,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					}
 				}
 
+				if (m_status->getMessageCount() > 0) {
+					m_status->setMessageCount(m_status->getMessageCount() - 1);
+				}
+
 				events.push_back(
 					make_shared <events::messageCountEvent>(
 						dynamicCast <folder>(shared_from_this()),
@@ -1749,32 +1827,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 						std::vector <size_t>(1, msgNumber)
 					)
 				);
-
-				expungedMessageCount++;
 			}
 		}
 	}
 
-	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
-
-		std::vector <size_t> newMessageNumbers;
-
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
-		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
-
-			newMessageNumbers.push_back(msgNumber);
-		}
-
-		events.push_back(
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				newMessageNumbers
-			)
-		);
-	}
-
 	// Dispatch notifications
 	for (std::vector <shared_ptr <events::event> >::iterator evit =
 	     events.begin() ; evit != events.end() ; ++evit) {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..cdbeee2 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -64,6 +64,12 @@ size_t IMAPFolderStatus::getMessageCount() const {
 }
 
 
+void IMAPFolderStatus::setMessageCount(const size_t count) {
+
+	m_count = count;
+}
+
+
 size_t IMAPFolderStatus::getUnseenCount() const {
 
 	return m_unseen;
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..dcfdbf1 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -102,6 +102,12 @@ public:
 	  */
 	bool updateFromResponse(const IMAPParser::resp_text_code& resp);
 
+	/** Sets the number of messages in the folder.
+	  *
+	  * @param count new number of messages
+	  */
+	void setMessageCount(const size_t count);
+
 private:
 
 	size_t m_count;
-- 
2.43.0


From a6542e928b05245a4db853caa0262896a705e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 051/143] fix: IMAP: mode granted by the server, status when
 opening a folder again

---
 src/vmime/net/imap/IMAPFolder.cpp | 36 +++++++++++--------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 27e2804..088d538 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -233,35 +233,19 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 					}
 				}
 
-			// Untagged responses: FLAGS, EXISTS, RECENT (required)
-			} else if (responseData->mailbox_data) {
-
-				switch (responseData->mailbox_data->type) {
-
-					default: break;
-
-					case IMAPParser::mailbox_data::FLAGS: {
-
-						if (!m_attribs) {
-							m_attribs = make_shared <folderAttributes>();
-						}
-
-						IMAPUtils::mailboxFlagsToFolderAttributes(
-							connection,
-							m_path,
-							*responseData->mailbox_data->mailbox_flag_list,
-							*m_attribs
-						);
-
-						break;
-					}
-				}
 			}
+
+			// Other untagged responses: EXISTS, RECENT (required) are processed below;
+			// FLAGS lists the flags of messages and tells nothing about the folder
 		}
 
+		m_status = make_shared <IMAPFolderStatus>();
+
 		processStatusUpdate(resp.get());
 
 		// Check for access mode (read-only or read-write)
+		int grantedMode = mode;
+
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
 		if (respTextCode) {
@@ -276,11 +260,15 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 				throw exceptions::operation_not_supported();
 			}
+
+			if (respTextCode->type == IMAPParser::resp_text_code::READ_ONLY) {
+				grantedMode = MODE_READ_ONLY;
+			}
 		}
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = grantedMode;
 
 	} catch (std::exception&) {
 
-- 
2.43.0


From 4d93cc2fbb3763e6c3b1e1d8dcb898f3fe9ee3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 052/143] fix: IMAP: know the capabilities of a folder's
 connection before selecting the folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 088d538..7d2d139 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -184,7 +184,9 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		std::vector <string> selectParams;
 
-		if (m_connection->hasCapability("CONDSTORE")) {
+		// Capabilities have to be known before the folder is selected: the response to
+		// CAPABILITY may also contain status updates, which only the folder processes
+		if (connection->hasCapability("CONDSTORE")) {
 			selectParams.push_back("CONDSTORE");
 		}
 
-- 
2.43.0


From 90b654ff54b3df9362bddcaba64182ec28c5707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 053/143] fix: restart the time-out delay when the IMAP
 time-out handler asks to keep waiting

---
 src/vmime/net/imap/IMAPParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index b1b8597..f589060 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -5027,9 +5027,11 @@ public:
 				if (!toh->handleTimeOut()) {
 					throw exceptions::operation_timed_out();
 				}
+
+				toh->resetTimeOut();
 			}
 
-			// We have received data: reset the time-out counter
+			// Receive data from the socket
 			sok->receive(receiveBuffer);
 
 			if (receiveBuffer.empty()) {   // buffer is empty
-- 
2.43.0


From 90350d53cab63def4b50b3c045784621dfb5b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 054/143] fix: check signatures when checking the issuer of a
 certificate

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..56192a0 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -227,7 +227,24 @@ bool X509Certificate_GnuTLS::checkIssuer(const shared_ptr <const X509Certificate
 	shared_ptr <const X509Certificate_GnuTLS> issuer =
 		dynamicCast <const X509Certificate_GnuTLS>(issuer_);
 
-	return gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) >= 1;
+	// Check the names
+	if (gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) == 0) {
+		return false;
+	}
+
+	// Anybody can use any name: check that the certificate has really been
+	// signed by the issuer (dates are checked elsewhere)
+	unsigned int verify = 0;
+
+	const int res = gnutls_x509_crt_verify(
+		m_data->cert, &(issuer->m_data->cert), 1,
+		GNUTLS_VERIFY_ALLOW_X509_V1_CA_CRT |
+		GNUTLS_VERIFY_DISABLE_TIME_CHECKS |
+		GNUTLS_VERIFY_DISABLE_TRUSTED_TIME_CHECKS,
+		&verify
+	);
+
+	return res == 0 && verify == 0;
 }
 
 
-- 
2.43.0


From 81fa2a68cee87254f5308d5558e7e5c014c3c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 055/143] fix: import certificates from an empty stream

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 56192a0..10ce6b5 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -106,7 +106,7 @@ shared_ptr <X509Certificate> X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -152,7 +152,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
-- 
2.43.0


From e3f746084c4ac3e06d7421dad8a7e8b60141b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 056/143] fix: do not accept an empty certificate chain

---
 src/vmime/security/cert/defaultCertificateVerifier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..5976ee1 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -62,7 +62,8 @@ void defaultCertificateVerifier::verify(
 ) {
 
 	if (chain->getCount() == 0) {
-		return;
+		// Nothing identifies the server
+		throw certificateNotTrustedException();
 	}
 
 	const string type = chain->getAt(0)->getType();
-- 
2.43.0


From 7627a9de770f0d6c9f304ee468ee2e8650c1058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 057/143] fix: close the connection when the TLS handshake
 fails

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..cf1caf0 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -101,6 +101,10 @@ void TLSSocket_GnuTLS::connect(const string& address, const port_t port) {
 	} catch (...) {
 
 		disconnect();
+
+		// The handshake may have failed: do not leave the connection open
+		m_wrapped->disconnect();
+
 		throw;
 	}
 }
-- 
2.43.0


From b05ef5683a7a62c0c5bfddc616d0ef86f0d9ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 058/143] fix: report the closing of a TLS connection by the
 peer

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index cf1caf0..d005bdc 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -225,6 +225,11 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 		TLSSession_GnuTLS::throwTLSException("gnutls_record_recv", static_cast <int>(ret));
 	}
 
+	if (ret == 0 && count != 0) {
+		// The peer has closed the TLS connection
+		throw exceptions::socket_exception("Connection closed by peer.");
+	}
+
 	return static_cast <size_t>(ret);
 }
 
-- 
2.43.0


From 9838e61ec3154a72b6649f2cd5dc93457f7f95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 059/143] fix: honour the time-out handler during the TLS
 handshake

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index d005bdc..210f131 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -342,6 +342,16 @@ void TLSSocket_GnuTLS::handshake() {
 
 				if (ret == GNUTLS_E_AGAIN) {
 
+					// Check whether the time-out delay is elapsed
+					if (toHandler && toHandler->isTimeOut()) {
+
+						if (!toHandler->handleTimeOut()) {
+							throw exceptions::operation_timed_out();
+						}
+
+						toHandler->resetTimeOut();
+					}
+
 					if (gnutls_record_get_direction(*m_session->m_gnutlsSession) == 0) {
 						m_wrapped->waitForRead();
 					} else {
-- 
2.43.0


From a5862c64c709dd60c3470faa702554d28eb7a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 060/143] fix: discard data received in clear before TLS is
 started

---
 src/vmime/net/imap/IMAPParser.hpp     | 4 ++++
 src/vmime/net/smtp/SMTPConnection.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index f589060..79df24b 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -289,6 +289,10 @@ public:
 	void setSocket(const shared_ptr <socket>& sok) {
 
 		m_socket = sok;
+
+		// Data received from the previous socket must not be used (eg. when
+		// switching to TLS, it could have been injected by an attacker)
+		m_buffer.clear();
 	}
 
 	/** Set the timeout handler currently used by this parser.
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..b3718bc 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -573,6 +573,10 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard anything received before TLS has been started: it is not
+		// protected, and may have been injected by an attacker (RFC-3207, 5)
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From c9103a13e474b1b07049b0303b88a0f8a0af0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 061/143] fix: do not claim that a connection is secured before
 the TLS handshake

---
 src/vmime/net/imap/IMAPConnection.cpp | 5 ++++-
 src/vmime/net/pop3/POP3Connection.cpp | 5 ++++-
 src/vmime/net/smtp/SMTPConnection.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index e119be6..1696a6f 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -151,7 +151,6 @@ void IMAPConnection::connect() {
 
 		m_socket = tlsSocket;
 
-		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(address, port, tlsSession, tlsSocket);
 
 	} else
@@ -162,6 +161,10 @@ void IMAPConnection::connect() {
 
 	m_socket->connect(address, port);
 
+#if VMIME_HAVE_TLS_SUPPORT
+	m_secured = store->isIMAPS();
+#endif // VMIME_HAVE_TLS_SUPPORT
+
 
 	m_parser->setSocket(m_socket);
 	m_parser->setTimeoutHandler(m_timeoutHandler);
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 749f7ef..b89aa5e 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -132,7 +132,6 @@ void POP3Connection::connect() {
 
 		m_socket = tlsSocket;
 
-		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(address, port, tlsSession, tlsSocket);
 	} else
 #endif // VMIME_HAVE_TLS_SUPPORT
@@ -142,6 +141,10 @@ void POP3Connection::connect() {
 
 	m_socket->connect(address, port);
 
+#if VMIME_HAVE_TLS_SUPPORT
+	m_secured = store->isPOP3S();
+#endif // VMIME_HAVE_TLS_SUPPORT
+
 	// Connection
 	//
 	// eg:  C: <connection to server>
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index b3718bc..08cbea4 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -136,7 +136,6 @@ void SMTPConnection::connect() {
 
 		m_socket = tlsSocket;
 
-		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(address, port, tlsSession, tlsSocket);
 
 	} else
@@ -147,6 +146,10 @@ void SMTPConnection::connect() {
 
 	m_socket->connect(address, port);
 
+#if VMIME_HAVE_TLS_SUPPORT
+	m_secured = transport->isSMTPS();
+#endif // VMIME_HAVE_TLS_SUPPORT
+
 	// Connection
 	//
 	// eg:  C: <connection to server>
-- 
2.43.0


From bf591183992b3db0d8a53f0ad0055c8c632763d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 062/143] fix: do not take a dash in the host name for the
 maildir flags separator

---
 src/vmime/net/maildir/maildirUtils.cpp | 27 +++++++++++++++++++-------
 src/vmime/net/maildir/maildirUtils.hpp |  8 ++++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..9676cb4 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -65,18 +65,32 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // used by Mutt/Win32, so we also use it here.
 //
 // To be compatible between implementations, we check for both
-// characters when reading file names.
+// characters when reading file names. As a dash may also occur in
+// the unique identifier (eg. in the host name), it is a separator
+// only if it is followed by the version of the flags ("2,").
+
+
+// static
+size_t maildirUtils::findFlagsSeparator(const string& filename) {
+
+	const size_t sep = filename.rfind(':');  // try colon
+
+	if (sep != string::npos) {
+		return sep;
+	}
+
+	return filename.rfind("-2,");  // try dash (Windows)
+}
 
 
 const utility::file::path::component maildirUtils::extractId(
 	const utility::file::path::component& filename
 ) {
 
-	size_t sep = filename.getBuffer().rfind(':');  // try colon
+	const size_t sep = findFlagsSeparator(filename.getBuffer());
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return (filename);
+		return filename;
 	}
 
 	return utility::path::component(
@@ -87,11 +101,10 @@ const utility::file::path::component maildirUtils::extractId(
 
 int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 
-	size_t sep = comp.getBuffer().rfind(':');  // try colon
+	const size_t sep = findFlagsSeparator(comp.getBuffer());
 
 	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return 0;
+		return 0;
 	}
 
 	const string flagsString(comp.getBuffer().begin() + sep + 1, comp.getBuffer().end());
diff --git a/src/vmime/net/maildir/maildirUtils.hpp b/src/vmime/net/maildir/maildirUtils.hpp
index 94ab998..60048b5 100644
--- a/src/vmime/net/maildir/maildirUtils.hpp
+++ b/src/vmime/net/maildir/maildirUtils.hpp
@@ -103,6 +103,14 @@ public:
 	  */
 	static const utility::file::path::component buildFlags(const int flags);
 
+	/** Find the character which separates the unique identifier from
+	  * the flags in a message filename.
+	  *
+	  * @param filename filename of the message
+	  * @return position of the separator, or npos if there is none
+	  */
+	static size_t findFlagsSeparator(const string& filename);
+
 	/** Build a filename with the specified id and flags.
 	  *
 	  * @param id id part of the filename
-- 
2.43.0


From 707ee47f94ec9743b15b88d71aefe83760c318d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 063/143] fix: do not fail on a maildir folder without
 sub-folders

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..d0f2add 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -305,6 +305,11 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	// Container directory does not exist if there is no sub-folder
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 4a7899eddc69a2a2185dc6e190fa8193d6e6a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 064/143] fix: do not take a sibling of a courier maildir
 folder for its sub-folder

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..95d1d71 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -300,9 +300,12 @@ bool courierMaildirFormat::listDirectories(
 		string base;
 
 		if (!root.isRoot()) {
+
 			for (size_t i = 0, n = root.getSize() ; i < n ; ++i) {
 				base += "." + toModifiedUTF7(root[i]);
 			}
+
+			base += ".";
 		}
 
 		// Enumerate directories
-- 
2.43.0


From c37429ea71070d38613de80c73c9aa7a2ec0b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 065/143] fix: create the container directory of the new parent
 of a renamed maildir folder

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index d0f2add..169ce84 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -268,6 +268,9 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		const utility::file::path newContPath =
 			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
 
+		// The new parent folder may not have any sub-folder yet
+		fsf->create(newRootPath.getParent())->createDirectory(true);
+
 		rootDir->rename(newRootPath);
 
 		// Container directory may not exist, so ignore error when trying to rename it
-- 
2.43.0


From f12b99c2e9e2f0c097532a4087e6febb11562e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 066/143] fix: do not lose maildir folders when renaming onto
 another folder or into a sub-folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..4362c15 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -547,6 +547,10 @@ void maildirFolder::rename(const folder::path& newPath) {
 		throw exceptions::illegal_operation("Cannot rename root folder");
 	} else if (!store->isValidFolderName(newPath.getLastComponent())) {
 		throw exceptions::invalid_folder_name();
+	} else if (m_path.isParentOf(newPath)) {
+		throw exceptions::illegal_operation("Cannot move a folder into one of its sub-folders");
+	} else if (store->getFormat()->folderExists(newPath)) {
+		throw exceptions::illegal_state("Folder already exists");
 	}
 
 	// Rename the directory on the file system
-- 
2.43.0


From f7590b35bfb1d1f84d4a440bdef142bd8feb17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 067/143] fix: keep the sub-folders of a renamed maildir folder
 below its new path

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4362c15..08e4883 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -595,7 +595,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -603,7 +603,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From e7463e4ce83ed5859deb4740fdef102ce96b5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 068/143] fix: do not let the path of a maildir folder lead out
 of the store

---
 .../maildir/format/courierMaildirFormat.cpp   | 14 +++++++++
 .../net/maildir/format/kmailMaildirFormat.cpp | 31 +++++++++++++++++++
 .../net/maildir/format/kmailMaildirFormat.hpp |  9 ++++++
 3 files changed, 54 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 95d1d71..0d16e67 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -152,6 +152,13 @@ void courierMaildirFormat::renameFolderImpl(
 
 bool courierMaildirFormat::folderExists(const folder::path& path) const {
 
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+		if (path[i].isEmpty()) {
+			return false;
+		}
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	shared_ptr <utility::file> rootDir = fsf->create(
@@ -209,6 +216,13 @@ const utility::file::path courierMaildirFormat::folderPathToFileSystemPath(
 		string folderComp;
 
 		for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+			// An empty component would designate the directory of the
+			// store ("."), or its parent directory ("..")
+			if (path[i].isEmpty()) {
+				throw exceptions::invalid_folder_name();
+			}
+
 			folderComp += "." + toModifiedUTF7(path[i]);
 		}
 
diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 169ce84..083aa68 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -100,6 +100,13 @@ void kmailMaildirFormat::destroyFolder(const folder::path& path) {
 
 bool kmailMaildirFormat::folderExists(const folder::path& path) const {
 
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+		if (!isValidComponent(path[i])) {
+			return false;
+		}
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	shared_ptr <utility::file> rootDir = fsf->create(
@@ -123,6 +130,22 @@ bool kmailMaildirFormat::folderExists(const folder::path& path) const {
 }
 
 
+// static
+bool kmailMaildirFormat::isValidComponent(const folder::path::component& comp) {
+
+	const string& name = comp.getBuffer();
+
+#if VMIME_PLATFORM_IS_WINDOWS
+	static const string INVALID_CHARS("/\\\0", 3);
+#else
+	static const string INVALID_CHARS("/\0", 2);
+#endif
+
+	return !name.empty() && name[0] != '.' &&
+	       name.find_first_of(INVALID_CHARS) == string::npos;
+}
+
+
 const utility::file::path kmailMaildirFormat::folderPathToFileSystemPath(
 	const folder::path& path,
 	const DirectoryType type
@@ -135,6 +158,14 @@ const utility::file::path kmailMaildirFormat::folderPathToFileSystemPath(
 	const size_t count = (type == CONTAINER_DIRECTORY
 		? pathSize : (pathSize >= 1 ? pathSize - 1 : 0));
 
+	// Do not let the name of a folder lead out of the store
+	for (size_t i = 0 ; i < pathSize ; ++i) {
+
+		if (!isValidComponent(path[i])) {
+			throw exceptions::invalid_folder_name();
+		}
+	}
+
 	// Parent folders
 	for (size_t i = 0 ; i < count ; ++i) {
 
diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.hpp b/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
index 26b557a..a333471 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
@@ -99,6 +99,15 @@ protected:
 	  * false otherwise
 	  */
 	static bool isSubfolderDirectory(const utility::file& file);
+
+	/** Test whether a path component can be the name of a folder. Other
+	  * names may designate something outside the directory of the store.
+	  *
+	  * @param comp path component
+	  * @return true if this component can be the name of a folder,
+	  * false otherwise
+	  */
+	static bool isValidComponent(const folder::path::component& comp);
 };
 
 
-- 
2.43.0


From 68fe65fab743e6f70cccc810a65ac0e1e41984d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 069/143] fix: encode the names of courier maildir folders as
 specified

---
 .../maildir/format/courierMaildirFormat.cpp   | 162 +++++++++---------
 1 file changed, 77 insertions(+), 85 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 0d16e67..8580227 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -41,6 +41,11 @@ namespace maildir {
 namespace format {
 
 
+// Base64 alphabet, with ',' instead of '/'
+static const string MODIFIED_BASE64_ALPHABET =
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
+
 courierMaildirFormat::courierMaildirFormat(const shared_ptr <context>& ctx)
 	: maildirFormat(ctx) {
 
@@ -400,76 +405,72 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
+	// Transcode path component to UTF-16.
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	string cvt;
+	charset::convert(text.getBuffer(), cvt, text.getCharset(), charset("UTF-16BE"));
 
-	// Transcode to modified UTF-7 (RFC-2060).
 	string out;
-	out.reserve((cvt.length() * 3) / 2);
+	out.reserve(cvt.length());
 
+	unsigned long bits = 0;
+	int bitCount = 0;
 	bool inB64sequence = false;
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
+	for (size_t i = 0 ; i + 1 < cvt.length() ; i += 2) {
+
+		const unsigned int c =
+			(static_cast <unsigned char>(cvt[i]) << 8) | static_cast <unsigned char>(cvt[i + 1]);
 
-		const unsigned char c = *it;
+		const bool direct = c >= 0x20 && c < 0x7f && c != '.' && c != '/';
 
-		switch (c) {
+		if (direct) {
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+			// End of Base64 sequence
+			if (inB64sequence) {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
+				if (bitCount) {
+					out += MODIFIED_BASE64_ALPHABET[(bits << (6 - bitCount)) & 0x3f];
 				}
 
-				break;
+				out += '-';
+				inB64sequence = false;
 			}
-			// End of Base64 sequence
-			case '-': {
 
-				inB64sequence = false;
+			out += static_cast <char>(c);
+
+			// '&' (0x26) is represented by the two-octet sequence "&-"
+			if (c == '&') {
 				out += '-';
-				break;
 			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+		} else {
 
-				out += "&Lg-";
-				break;
+			// Beginning of Base64 sequence
+			if (!inB64sequence) {
+				out += '&';
+				inB64sequence = true;
+				bits = 0;
+				bitCount = 0;
 			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
-				}
+			bits = ((bits & 0x3f) << 16) | c;
+			bitCount += 16;
 
-				break;
+			while (bitCount >= 6) {
+				bitCount -= 6;
+				out += MODIFIED_BASE64_ALPHABET[(bits >> bitCount) & 0x3f];
 			}
-			default: {
+		}
+	}
 
-				out += c;
-				break;
-			}
+	if (inB64sequence) {
+
+		if (bitCount) {
+			out += MODIFIED_BASE64_ALPHABET[(bits << (6 - bitCount)) & 0x3f];
 		}
+
+		out += '-';
 	}
 
 	return out;
@@ -479,63 +480,54 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 // static
 const folder::path::component courierMaildirFormat::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7
+	// Transcode from modified UTF-7 to UTF-16
 	string out;
-	out.reserve(text.length());
+	out.reserve(text.length() * 2);
 
-	bool inB64sequence = false;
-	unsigned char prev = 0;
+	for (size_t i = 0 ; i < text.length() ; ++i) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		if (text[i] != '&') {
 
-		const unsigned char c = *it;
+			out += '\0';
+			out += text[i];
 
-		switch (c) {
+		} else if (i + 1 < text.length() && text[i + 1] == '-') {
 
-			// Start of Base64 sequence
-			case '&': {
+			// "&-" --> "&"
+			out += '\0';
+			out += '&';
+			++i;
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+		} else {
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+			// Base64 sequence: an incomplete 16-bit character is discarded
+			unsigned long bits = 0;
+			int bitCount = 0;
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
-				}
+			for (++i ; i < text.length() && text[i] != '-' ; ++i) {
 
-				inB64sequence = false;
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+				const size_t value = MODIFIED_BASE64_ALPHABET.find(text[i]);
 
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+				if (value == string::npos) {
+					--i;  // sequence is not terminated
+					break;
+				}
 
-				out += c;
-				break;
-			}
+				bits = ((bits & 0xffff) << 6) | value;
+				bitCount += 6;
 
+				if (bitCount >= 16) {
+					bitCount -= 16;
+					out += static_cast <char>((bits >> (bitCount + 8)) & 0xff);
+					out += static_cast <char>((bits >> bitCount) & 0xff);
+				}
+			}
 		}
-
-		prev = c;
 	}
 
 	// Store it as UTF-8 by default
 	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+	charset::convert(out, cvt, charset("UTF-16BE"), charset(charsets::UTF_8));
 
 	return folder::path::component(cvt, charset(charsets::UTF_8));
 }
-- 
2.43.0


From 6ccb2fc49c5adc5dc73bfcd9b7b452fe5b757e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 070/143] fix: write the rest of the data after a short write
 to a file

---
 src/vmime/platforms/posix/posixFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..5601029 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -167,6 +167,8 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+
+			continue;
 		}
 
 		break;
-- 
2.43.0


From abd0c503b6eb53e7c6d44d58fb2736a52beb3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 071/143] fix: do not create an empty file before renaming
 another one to its name

---
 src/vmime/platforms/posix/posixFile.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 5601029..68b4f8c 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -486,12 +486,14 @@ void posixFile::rename(const path& newName) {
 
 	const vmime::string newNativePath = posixFileSystemFactory::pathToStringImpl(newName);
 
-	posixFile dest(newName);
+	if (newNativePath == m_nativePath) {
+		return;
+	}
 
-	if (isDirectory()) {
-		dest.createDirectory();
-	} else {
-		dest.createFile();
+	// Do not replace an existing file. The destination must not be created
+	// beforehand, as an empty file would be seen there in the meantime.
+	if (!isDirectory() && posixFile(newName).exists()) {
+		posixFileSystemFactory::reportError(newName, EEXIST);
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-- 
2.43.0


From 20fe287ca5011b17d4137813bcda0bde85c3d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 072/143] fix: do not terminate the program when closing a file
 fails; close files on errors

---
 src/vmime/platforms/posix/posixFile.cpp | 33 ++++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 68b4f8c..561fe5f 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -66,7 +66,15 @@ posixFileIterator::posixFileIterator(
 		posixFileSystemFactory::reportError(path, errno);
 	}
 
-	getNextElement();
+	try {
+
+		getNextElement();
+
+	} catch (...) {
+
+		::closedir(m_dir);
+		throw;
+	}
 }
 
 
@@ -74,9 +82,8 @@ posixFileIterator::~posixFileIterator() {
 
 	if (m_dir) {
 
-		if (::closedir(m_dir) == -1) {
-			posixFileSystemFactory::reportError(m_path, errno);
-		}
+		// Don't throw in destructor
+		::closedir(m_dir);
 	}
 }
 
@@ -202,9 +209,8 @@ posixFileReaderInputStream::posixFileReaderInputStream(
 
 posixFileReaderInputStream::~posixFileReaderInputStream() {
 
-	if (::close(m_fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
-	}
+	// Don't throw in destructor
+	::close(m_fd);
 }
 
 
@@ -231,7 +237,12 @@ size_t posixFileReaderInputStream::read(
 
 	ssize_t c = 0;
 
-	if ((c = ::read(m_fd, data, count)) == -1) {
+	while ((c = ::read(m_fd, data, count)) == -1) {
+
+		if (errno == EINTR) {
+			continue;
+		}
+
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
@@ -358,7 +369,11 @@ void posixFile::createFile() {
 	}
 
 	if (::fsync(fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+
+		const int err = errno;
+		::close(fd);
+
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 
 	if (::close(fd) == -1) {
-- 
2.43.0


From 384eb7bbc1966bfeac185b57791ba5ea6a439318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 073/143] fix: do not crash or access another message when a
 maildir store, folder or message is gone

---
 src/vmime/net/maildir/maildirFolder.cpp  | 39 +++++++++++++++++++++---
 src/vmime/net/maildir/maildirMessage.cpp | 18 ++++++++++-
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 08e4883..94e0431 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -117,7 +117,13 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -274,6 +280,10 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	return store->getFormat()->folderExists(m_path);
 }
 
@@ -498,7 +508,7 @@ std::vector <shared_ptr <folder> > maildirFolder::getFolders(const bool recursiv
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	if (!isOpen() && !store) {
+	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -1078,6 +1088,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	const size_t oldCount = m_messageCount;
 
 	scanFolder();
@@ -1236,7 +1250,14 @@ shared_ptr <folder> maildirFolder::getParent() {
 	if (m_path.isEmpty()) {
 		return null;
 	} else {
-		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), m_store.lock()));
+
+		shared_ptr <maildirStore> store = m_store.lock();
+
+		if (!store) {
+			throw exceptions::illegal_state("Store disconnected");
+		}
+
+		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), store));
 	}
 }
 
@@ -1347,7 +1368,17 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
-	utility::file::path curDirPath = m_store.lock()->getFormat()->
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	if (number < 1 || number > m_messageInfos.size()) {
+		throw exceptions::message_not_found();
+	}
+
+	utility::file::path curDirPath = store->getFormat()->
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	return curDirPath / m_messageInfos[number - 1].path;
diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..132393c 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -157,6 +157,8 @@ void maildirMessage::setFlags(const int flags, const int mode) {
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	folder->setMessageFlags(messageSet::byNumber(m_num), flags, mode);
@@ -205,6 +207,12 @@ void maildirMessage::extractImpl(
 
 	shared_ptr <const maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	const utility::file::path path = folder->getMessageFSPath(m_num);
@@ -255,6 +263,12 @@ void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -290,8 +304,10 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
-	if (folder != msgFolder) {
+	if (!folder || folder != msgFolder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-- 
2.43.0


From 67fdb4a8adee884718aa926a9866258009b83a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 074/143] fix: do not read past the end of a part of a maildir
 message

---
 src/vmime/net/maildir/maildirMessage.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index 132393c..6b02b03 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -221,13 +221,15 @@ void maildirMessage::extractImpl(
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
 	shared_ptr <utility::inputStream> is = reader->getInputStream();
 
-	is->skip(start + partialStart);
+	const size_t skip = std::min(partialStart, length);
+
+	is->skip(start + skip);
 
 	byte_t buffer[8192];
 	size_t remaining =
 		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
+			? length - skip
+			: std::min(partialLength, length - skip)
 		);
 
 	const size_t total = remaining;
-- 
2.43.0


From 9c6c964d8d8aed29578d97b43bbc90c8689c8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 075/143] fix: do not list messages marked as deleted again
 each time a maildir folder is scanned

---
 src/vmime/net/maildir/maildirFolder.cpp | 41 +++++++++++++------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 94e0431..c3132b2 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -300,9 +300,6 @@ void maildirFolder::scanFolder() {
 
 	try {
 
-		m_messageCount = 0;
-		m_unreadMessageCount = 0;
-
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 		utility::file::path newDirPath =
@@ -339,6 +336,11 @@ void maildirFolder::scanFolder() {
 			}
 		}
 
+		// Messages have no number while the folder is not open
+		if (!isOpen()) {
+			m_messageInfos.clear();
+		}
+
 		// Update/delete existing messages (found in previous scan)
 		for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
 
@@ -349,27 +351,28 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			const std::vector <utility::file::path::component>::iterator pos =
+				std::find_if(
+					curMessageFilenames.begin(),
+					curMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+			// If we cannot find this message in the 'cur' directory,
+			// it means it has been deleted (and expunged).
+			if (pos == curMessageFilenames.end()) {
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+				msgInfos.type = messageInfos::TYPE_DELETED;
 
-					msgInfos.type = messageInfos::TYPE_DELETED;
+			// Otherwise, update its information.
+			} else {
 
-				// Otherwise, update its information.
-				} else {
+				msgInfos.path = *pos;
+				msgInfos.type = maildirUtils::extractFlags(*pos) & message::FLAG_DELETED
+					? messageInfos::TYPE_DELETED
+					: messageInfos::TYPE_CUR;
 
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
-				}
+				curMessageFilenames.erase(pos);
 			}
 		}
 
-- 
2.43.0


From 2b505391abece2e9bbc4b2fd51e976732778ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 076/143] fix: do not present a maildir folder that cannot be
 read as an empty one

---
 src/vmime/net/maildir/maildirFolder.cpp | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index c3132b2..93b6288 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -389,8 +389,16 @@ void maildirFolder::scanFolder() {
 				maildirUtils::buildFilename(maildirUtils::extractId(*it), 0);
 
 			// Move messages from 'new' to 'cur'
-			shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
-			file->rename(curDirPath / newFilename);
+			try {
+
+				shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
+				file->rename(curDirPath / newFilename);
+
+			} catch (exceptions::filesystem_exception&) {
+
+				// Leave it in 'new', until next scan
+				continue;
+			}
 
 			// Append to message list
 			messageInfos msgInfos;
@@ -437,9 +445,9 @@ void maildirFolder::scanFolder() {
 		m_unreadMessageCount = unreadMessageCount;
 		m_messageCount = static_cast <size_t>(m_messageInfos.size());
 
-	} catch (exceptions::filesystem_exception&) {
+	} catch (exceptions::filesystem_exception& e) {
 
-		// Should not happen...
+		throw exceptions::command_error("SCAN", "", "", e);
 	}
 }
 
@@ -1064,8 +1072,15 @@ void maildirFolder::notifyMessagesCopied(const folder::path& dest) {
 
 			// We only need to update the first folder we found as calling
 			// status() will notify all the folders with the same path.
-			size_t count, unseen;
-			(*it)->status(count, unseen);
+			try {
+
+				size_t count, unseen;
+				(*it)->status(count, unseen);
+
+			} catch (exceptions::command_error&) {
+
+				// Messages have been copied anyway
+			}
 
 			return;
 		}
-- 
2.43.0


From dce332ce06e78c35d9f0894610530b781baae760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 077/143] fix: do not write past the end of the list of new
 maildir messages

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 93b6288..149afdd 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1125,8 +1125,8 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
 		shared_ptr <events::messageCountEvent> event =
-- 
2.43.0


From 28feadaadc884f545745b92111b6e3a53976ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 078/143] fix: keep track of the flags of maildir messages

---
 src/vmime/net/maildir/maildirFolder.cpp | 145 +++++++++++++++---------
 src/vmime/net/maildir/maildirFolder.hpp |  15 +++
 2 files changed, 109 insertions(+), 51 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 149afdd..d089086 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -658,7 +658,7 @@ void maildirFolder::setMessageFlags(
 
 	if (msgs.isNumberSet()) {
 
-		const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		const std::vector <size_t> nums = messageSetToNumberList(msgs);
 
 		// Change message flags
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -666,14 +666,15 @@ void maildirFolder::setMessageFlags(
 		utility::file::path curDirPath = store->getFormat()->
 			folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
+		std::vector <size_t> changedNums;
+		std::vector <utility::file::path::component> changedPaths;
+
 		for (std::vector <size_t>::const_iterator it =
 			 nums.begin() ; it != nums.end() ; ++it) {
 
-			const size_t num = *it - 1;
-
 			try {
 
-				const utility::file::path::component path = m_messageInfos[num].path;
+				const utility::file::path::component path = m_messageInfos[*it - 1].path;
 				shared_ptr <utility::file> file = fsf->create(curDirPath / path);
 
 				int newFlags = maildirUtils::extractFlags(path);
@@ -690,13 +691,11 @@ void maildirFolder::setMessageFlags(
 
 				file->rename(curDirPath / newPath);
 
-				if (flags & message::FLAG_DELETED) {
-					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
-				} else {
-					m_messageInfos[num].type = messageInfos::TYPE_CUR;
-				}
+				// Update local flags
+				updateMessagePath(*it, newPath);
 
-				m_messageInfos[num].path = newPath;
+				changedNums.push_back(*it);
+				changedPaths.push_back(newPath);
 
 			} catch (exceptions::filesystem_exception& e) {
 
@@ -704,70 +703,114 @@ void maildirFolder::setMessageFlags(
 			}
 		}
 
-		// Update local flags
-		switch (mode) {
+		// Notify message flags changed
+		shared_ptr <events::messageChangedEvent> event =
+			make_shared <events::messageChangedEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageChangedEvent::TYPE_FLAGS,
+				changedNums
+			);
+
+		notifyMessageChanged(event);
+
+		// Notify folders with the same path
+		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+		     it != store->m_folders.end() ; ++it) {
+
+			if ((*it) != this && (*it)->isOpen() && (*it)->getFullPath() == m_path) {
 
-			case message::FLAG_MODE_ADD: {
+				std::vector <size_t> otherNums;
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
+				for (size_t i = 0 ; i < changedPaths.size() ; ++i) {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+					const size_t num = (*it)->findMessageNumber(changedPaths[i]);
 
-						(*it)->m_flags |= flags;
+					if (num != 0) {
+						(*it)->updateMessagePath(num, changedPaths[i]);
+						otherNums.push_back(num);
 					}
 				}
 
-				break;
-			}
-			case message::FLAG_MODE_REMOVE: {
+				if (!otherNums.empty()) {
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
+					std::sort(otherNums.begin(), otherNums.end());
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+					shared_ptr <events::messageChangedEvent> event =
+						make_shared <events::messageChangedEvent>(
+							dynamicCast <folder>((*it)->shared_from_this()),
+							events::messageChangedEvent::TYPE_FLAGS,
+							otherNums
+						);
 
-						(*it)->m_flags &= ~flags;
-					}
+					(*it)->notifyMessageChanged(event);
 				}
-
-				break;
 			}
-			default:
-			case message::FLAG_MODE_SET: {
+		}
 
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
+	} else {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+		throw exceptions::operation_not_supported();
+	}
+}
 
-						(*it)->m_flags = flags;
-					}
-				}
 
-				break;
-			}
+std::vector <size_t> maildirFolder::messageSetToNumberList(const messageSet& msgs) const {
+
+	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+
+	for (std::vector <size_t>::const_iterator it = nums.begin() ; it != nums.end() ; ++it) {
 
+		if (*it < 1 || *it > m_messageCount) {
+			throw exceptions::message_not_found();
 		}
+	}
 
-		// Notify message flags changed
-		shared_ptr <events::messageChangedEvent> event =
-			make_shared <events::messageChangedEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageChangedEvent::TYPE_FLAGS,
-				nums
-			);
+	return nums;
+}
 
-		notifyMessageChanged(event);
 
-		// TODO: notify other folders with the same path
+size_t maildirFolder::findMessageNumber(const utility::file::path::component& filename) const {
 
-	} else {
+	const maildirUtils::messageIdComparator comp(filename);
 
-		throw exceptions::operation_not_supported();
+	for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
+
+		if (comp(m_messageInfos[i].path)) {
+			return i + 1;
+		}
+	}
+
+	return 0;
+}
+
+
+void maildirFolder::updateMessagePath(
+	const size_t num,
+	const utility::file::path::component& newPath
+) {
+
+	messageInfos& infos = m_messageInfos[num - 1];
+
+	const bool wasSeen = (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) != 0;
+	const int flags = maildirUtils::extractFlags(newPath);
+
+	infos.path = newPath;
+	infos.type = (flags & message::FLAG_DELETED) ? messageInfos::TYPE_DELETED : messageInfos::TYPE_CUR;
+
+	if (wasSeen && !(flags & message::FLAG_SEEN)) {
+		++m_unreadMessageCount;
+	} else if (!wasSeen && (flags & message::FLAG_SEEN)) {
+		--m_unreadMessageCount;
+	}
+
+	for (std::vector <maildirMessage*>::iterator it =
+	     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+		if (!(*it)->m_expunged && (*it)->m_num == num &&
+		    (*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+
+			(*it)->m_flags = flags;
+		}
 	}
 }
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..ce3acc4 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -170,6 +170,21 @@ private:
 
 	void notifyMessagesCopied(const folder::path& dest);
 
+	/** Return the numbers of the messages in the specified set.
+	  *
+	  * @throw exceptions::message_not_found if there is no such message
+	  */
+	std::vector <size_t> messageSetToNumberList(const messageSet& msgs) const;
+
+	/** Return the number of the message which has the same unique
+	  * identifier as the specified filename, or 0 if there is none.
+	  */
+	size_t findMessageNumber(const utility::file::path::component& filename) const;
+
+	/** Update message information after its file has been renamed (flags changed).
+	  */
+	void updateMessagePath(const size_t num, const utility::file::path::component& newPath);
+
 
 	weak_ptr <maildirStore> m_store;
 
-- 
2.43.0


From a0637041ebb4a85255f682afa094549174b3e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 079/143] fix: do not copy maildir messages that do not exist

---
 src/vmime/net/maildir/maildirFolder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index d089086..34127a8 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1036,8 +1036,12 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (!isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
+	} else if (!msgs.isNumberSet()) {
+		throw exceptions::operation_not_supported();
 	}
 
+	const std::vector <size_t> nums = messageSetToNumberList(msgs);
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	utility::file::path curDirPath =
@@ -1070,8 +1074,6 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	}
 
 	// Copy messages
-	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
-
 	try {
 
 		for (std::vector <size_t>::const_iterator it =
-- 
2.43.0


From 5e1cf1ee461d888bf8283e9ef7f764a33805db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 080/143] fix: keep the numbers of messages in other maildir
 folder objects when adding a message

---
 src/vmime/net/maildir/maildirFolder.cpp | 31 +++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 34127a8..b8a5aba 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -884,15 +884,27 @@ messageSet maildirFolder::addMessage(
 	// Actually add the message
 	copyMessageImpl(tmpDirPath, dstDirPath, filename, is, size, progress);
 
+	// A message in the 'new' directory is listed when scanning the folder
+	if (flags == message::FLAG_RECENT) {
+
+		getStatus();
+
+		return messageSet::empty();
+	}
+
 	// Append the message to the cache list
 	messageInfos msgInfos;
 	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
+	msgInfos.type = maildirUtils::extractFlags(filename) & message::FLAG_DELETED
+		? messageInfos::TYPE_DELETED
+		: messageInfos::TYPE_CUR;
 
 	m_messageInfos.push_back(msgInfos);
 	m_messageCount++;
 
-	if ((flags == -1) || !(flags & message::FLAG_SEEN)) {
+	const bool unread = (flags == -1) || !(flags & message::FLAG_SEEN);
+
+	if (unread) {
 		m_unreadMessageCount++;
 	}
 
@@ -915,17 +927,22 @@ messageSet maildirFolder::addMessage(
 
 		if ((*it) != this && (*it)->getFullPath() == m_path) {
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			// Messages may have other numbers in this folder
+			(*it)->m_messageInfos.push_back(msgInfos);
+			(*it)->m_messageCount++;
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+			if (unread) {
+				(*it)->m_unreadMessageCount++;
+			}
+
+			std::vector <size_t> otherNums;
+			otherNums.push_back((*it)->m_messageCount);
 
 			shared_ptr <events::messageCountEvent> event =
 				make_shared <events::messageCountEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::messageCountEvent::TYPE_ADDED,
-					nums
+					otherNums
 				);
 
 			(*it)->notifyMessageCount(event);
-- 
2.43.0


From 8eab02ffd086c04266eb954239e66d6a03d1f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 081/143] fix: keep the numbers of messages in other maildir
 folder objects when getting the status

---
 src/vmime/net/maildir/maildirFolder.cpp | 30 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index b8a5aba..09ce36f 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1206,20 +1206,28 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 			if ((*it) != this && (*it)->getFullPath() == m_path) {
 
-				(*it)->m_messageCount = m_messageCount;
-				(*it)->m_unreadMessageCount = m_unreadMessageCount;
+				// Messages may have other numbers in this folder
+				const size_t otherOldCount = (*it)->m_messageCount;
 
-				(*it)->m_messageInfos.resize(m_messageInfos.size());
-				std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+				(*it)->scanFolder();
 
-				shared_ptr <events::messageCountEvent> event =
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>((*it)->shared_from_this()),
-						events::messageCountEvent::TYPE_ADDED,
-						nums
-					);
+				std::vector <size_t> otherNums;
+
+				for (size_t i = otherOldCount + 1 ; i <= (*it)->m_messageCount ; ++i) {
+					otherNums.push_back(i);
+				}
+
+				if (!otherNums.empty()) {
 
-				(*it)->notifyMessageCount(event);
+					shared_ptr <events::messageCountEvent> event =
+						make_shared <events::messageCountEvent>(
+							dynamicCast <folder>((*it)->shared_from_this()),
+							events::messageCountEvent::TYPE_ADDED,
+							otherNums
+						);
+
+					(*it)->notifyMessageCount(event);
+				}
 			}
 		}
 	}
-- 
2.43.0


From 34928686acf84e2a6605f532d6518fd75f661ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 082/143] fix: remove the right messages from the list when
 expunging a maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 91 ++++++++++++++++---------
 src/vmime/net/maildir/maildirFolder.hpp |  6 ++
 2 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 09ce36f..8c329f6 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1254,7 +1254,7 @@ void maildirFolder::expunge() {
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	std::vector <size_t> nums;
-	size_t unreadCount = 0;
+	std::vector <utility::file::path::component> paths;
 
 	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
 
@@ -1262,41 +1262,27 @@ void maildirFolder::expunge() {
 
 		if (infos.type == messageInfos::TYPE_DELETED) {
 
-			nums.push_back(num);
-
-			for (std::vector <maildirMessage*>::iterator it =
-			     m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-				if ((*it)->m_num == num) {
-					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
-					(*it)->m_num--;
-				}
-			}
-
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
-				++unreadCount;
-			}
-
 			// Delete file from file system
+			shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+
 			try {
-				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+
 				file->remove();
+
 			} catch (exceptions::filesystem_exception& e) {
-				// Ignore (not important)
-			}
-		}
-	}
 
-	if (!nums.empty()) {
+				// Not expunged, unless somebody else already did it
+				if (file->exists()) {
+					continue;
+				}
+			}
 
-		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+			nums.push_back(num);
+			paths.push_back(infos.path);
 		}
 	}
 
-	m_messageCount -= static_cast <size_t>(nums.size());
-	m_unreadMessageCount -= unreadCount;
+	removeMessages(nums);
 
 	// Notify message expunged
 	shared_ptr <events::messageCountEvent> event =
@@ -1314,17 +1300,27 @@ void maildirFolder::expunge() {
 
 		if ((*it) != this && (*it)->getFullPath() == m_path) {
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			// Messages may have other numbers in this folder
+			std::vector <size_t> otherNums;
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+			for (size_t i = 0 ; i < paths.size() ; ++i) {
+
+				const size_t num = (*it)->findMessageNumber(paths[i]);
+
+				if (num != 0) {
+					otherNums.push_back(num);
+				}
+			}
+
+			std::sort(otherNums.begin(), otherNums.end());
+
+			(*it)->removeMessages(otherNums);
 
 			shared_ptr <events::messageCountEvent> event =
 				make_shared <events::messageCountEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::messageCountEvent::TYPE_REMOVED,
-					nums
+					otherNums
 				);
 
 			(*it)->notifyMessageCount(event);
@@ -1333,6 +1329,37 @@ void maildirFolder::expunge() {
 }
 
 
+void maildirFolder::removeMessages(const std::vector <size_t>& nums) {
+
+	for (std::vector <size_t>::const_reverse_iterator
+	     num = nums.rbegin() ; num != nums.rend() ; ++num) {
+
+		for (std::vector <maildirMessage*>::iterator it =
+		     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+			if ((*it)->m_expunged) {
+				continue;
+			}
+
+			if ((*it)->m_num == *num) {
+				(*it)->m_expunged = true;
+			} else if ((*it)->m_num > *num) {
+				(*it)->m_num--;
+			}
+		}
+
+		const std::vector <messageInfos>::iterator infos = m_messageInfos.begin() + (*num - 1);
+
+		if (!(maildirUtils::extractFlags(infos->path) & message::FLAG_SEEN)) {
+			--m_unreadMessageCount;
+		}
+
+		m_messageInfos.erase(infos);
+		--m_messageCount;
+	}
+}
+
+
 shared_ptr <folder> maildirFolder::getParent() {
 
 	if (m_path.isEmpty()) {
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index ce3acc4..40235f7 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -181,6 +181,12 @@ private:
 	  */
 	size_t findMessageNumber(const utility::file::path::component& filename) const;
 
+	/** Remove messages from the list, and renumber the next messages.
+	  *
+	  * @param nums numbers of the messages to remove, in ascending order
+	  */
+	void removeMessages(const std::vector <size_t>& nums);
+
 	/** Update message information after its file has been renamed (flags changed).
 	  */
 	void updateMessagePath(const size_t num, const utility::file::path::component& newPath);
-- 
2.43.0


From 8894701ef30499e24034c5c4c7adeb4e1bb42b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 083/143] fix: clean up after a message could not be added to a
 maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 8c329f6..a2c98a2 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1011,6 +1011,18 @@ void maildirFolder::copyMessageImpl(
 		}
 
 		throw exceptions::command_error("ADD", "", "", e);
+
+	} catch (...) {
+
+		// Exception from the input stream or the progress listener
+		try {
+			shared_ptr <utility::file> file = fsf->create(tmpDirPath / filename);
+			file->remove();
+		} catch (exceptions::filesystem_exception&) {
+			// Ignore
+		}
+
+		throw;
 	}
 
 	// ...then, move it to 'cur'
@@ -1028,8 +1040,6 @@ void maildirFolder::copyMessageImpl(
 		try {
 
 			file->remove();
-			shared_ptr <utility::file> file = fsf->create(dstDirPath / filename);
-			file->remove();
 
 		} catch (exceptions::filesystem_exception&) {
 
-- 
2.43.0


From 6f9be783c680e86c74bd2bc7b0fdcaaa9e4a3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 084/143] fix: report errors of poll() while connecting (it was
 called again for ever)

---
 src/vmime/platforms/posix/posixSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c0ce0cf..64e4693 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -254,7 +254,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 						break;
 
 					// Error
-					} else if (ret < -1) {
+					} else if (ret < 0) {
 
 						if (errno != EAGAIN && errno != EINTR) {
 
-- 
2.43.0


From 3d55fc4a2e70b3107f088412524c824402c0b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 085/143] fix: try the next address of a server when one does
 not answer within 5 seconds

---
 src/vmime/platforms/posix/posixSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 64e4693..b4e6433 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -288,7 +288,8 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					gettimeofday(&curTime, /* timezone */ NULL);
 
 					if (curAddrInfo->ai_next != NULL &&
-						curTime.tv_usec - startTime.tv_usec >= tryNextTimeout * 1000) {
+						(curTime.tv_sec - startTime.tv_sec) * 1000 +
+						(curTime.tv_usec - startTime.tv_usec) / 1000 >= tryNextTimeout) {
 
 						connectErrno = ETIMEDOUT;
 						break;
-- 
2.43.0


From bd8e70ab883d5d45c2a10b83e60507eb723881d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 086/143] fix: report the reason for which a connection failed,
 instead of a time-out in all cases

---
 src/vmime/platforms/posix/posixSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index b4e6433..f4f6758 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -141,7 +141,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	// Connect to host
 	int sock = -1;
-	int connectErrno = 0;
+	int connectErrno = EAFNOSUPPORT;
 
 	if (m_timeoutHandler != NULL) {
 		m_timeoutHandler->resetTimeOut();
@@ -149,7 +149,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	for (struct ::addrinfo* curAddrInfo = addrInfo ;
 	     sock == -1 && curAddrInfo != NULL ;
-	     curAddrInfo = curAddrInfo->ai_next, connectErrno = ETIMEDOUT) {
+	     curAddrInfo = curAddrInfo->ai_next) {
 
 		if (curAddrInfo->ai_family != AF_INET && curAddrInfo->ai_family != AF_INET6) {
 			continue;
-- 
2.43.0


From 38f6513197608a470d41ed1ff0397e1b75cb1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 087/143] fix: do not poll a broken connection again and again,
 report the error

---
 src/vmime/platforms/posix/posixSocket.cpp | 26 +++++++++++------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index f4f6758..3d973cf 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -232,22 +232,20 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					// Success
 					if (ret > 0) {
 
-						if (fds[0].revents & (POLLIN | POLLOUT)) {
+						// (including when there is only POLLERR or POLLHUP: SO_ERROR says why)
+						int error = 0;
+						socklen_t len = sizeof(error);
 
-							int error = 0;
-							socklen_t len = sizeof(error);
+						if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) < 0) {
 
-							if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) < 0) {
+							connectErrno = errno;
 
-								connectErrno = errno;
+						} else {
 
+							if (error != 0) {
+								connectErrno = error;
 							} else {
-
-								if (error != 0) {
-									connectErrno = error;
-								} else {
-									connected = true;
-								}
+								connected = true;
 							}
 						}
 
@@ -670,9 +668,9 @@ bool posixSocket::waitForData(const bool read, const bool write, const int msecs
 
 		} else if (ret > 0) {
 
-			if (fds[0].revents & (POLLIN | POLLOUT)) {
-				return true;
-			}
+			// Either data can be read/written, or there is an error (POLLERR,
+			// POLLHUP, POLLNVAL), which reading/writing will report
+			return true;
 		}
 
 		// No data available at this time
-- 
2.43.0


From b0036b9158e651f5fdbcd2812d91f7f76df418b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 088/143] fix: cancel the connection when the time-out handler
 says so, do not go on with other addresses

---
 src/vmime/platforms/posix/posixSocket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 3d973cf..c194f89 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -142,13 +142,14 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 	// Connect to host
 	int sock = -1;
 	int connectErrno = EAFNOSUPPORT;
+	bool cancelled = false;
 
 	if (m_timeoutHandler != NULL) {
 		m_timeoutHandler->resetTimeOut();
 	}
 
 	for (struct ::addrinfo* curAddrInfo = addrInfo ;
-	     sock == -1 && curAddrInfo != NULL ;
+	     sock == -1 && !cancelled && curAddrInfo != NULL ;
 	     curAddrInfo = curAddrInfo->ai_next) {
 
 		if (curAddrInfo->ai_family != AF_INET && curAddrInfo->ai_family != AF_INET6) {
@@ -268,7 +269,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 						if (!m_timeoutHandler->handleTimeOut()) {
 
 							// Cancel connection
-							connectErrno = ETIMEDOUT;
+							cancelled = true;
 							break;
 
 						} else {
@@ -324,6 +325,10 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	::freeaddrinfo(addrInfo);
 
+	if (cancelled) {
+		throw exceptions::operation_timed_out();
+	}
+
 	if (sock == -1) {
 
 		try {
-- 
2.43.0


From fb4d80f6854cc96672e65479f200c99c8e41a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 089/143] fix: report a time-out as such when receiving from a
 socket

---
 src/vmime/platforms/posix/posixSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c194f89..ade35de 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -748,7 +748,7 @@ size_t posixSocket::receiveRaw(byte_t* buffer, const size_t count) {
 			if (!m_timeoutHandler->handleTimeOut()) {
 
 				// Server did not react within timeout delay
-				throwSocketError(errno);
+				throw exceptions::operation_timed_out();
 
 			} else {
 
-- 
2.43.0


From d81e2ccb7313c45bed32d5b166ec60807e4785ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 090/143] fix: a socket whose connection was reset is not
 connected

---
 src/vmime/platforms/posix/posixSocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index ade35de..5b2901d 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -526,7 +526,9 @@ bool posixSocket::isConnected() const {
 
 	char buff;
 
-	return ::recv(m_desc, &buff, 1, MSG_PEEK) != 0;
+	const ssize_t ret = ::recv(m_desc, &buff, 1, MSG_PEEK);
+
+	return ret > 0 || (ret < 0 && IS_EAGAIN(errno));
 }
 
 
-- 
2.43.0


From d043de5a0320020e507ff49200ae557b7345f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 091/143] fix: return the right address and name of the peer of
 a socket, for IPv6 too

---
 src/vmime/platforms/posix/posixSocket.cpp | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 5b2901d..6c2776a 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -577,20 +577,32 @@ static bool isNumericAddress(const char* address) {
 }
 
 
+// Returns the Internet address in a socket address (IPv4 or IPv6)
+static const void* getInetAddress(const sockaddr_storage& addr) {
+
+	if (addr.ss_family == AF_INET6) {
+		return &reinterpret_cast <const sockaddr_in6*>(&addr)->sin6_addr;
+	} else {
+		return &reinterpret_cast <const sockaddr_in*>(&addr)->sin_addr;
+	}
+}
+
+
 const string posixSocket::getPeerAddress() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
 	// Convert to numerical presentation format
 	char buf[INET6_ADDRSTRLEN];
+	const void* addr = getInetAddress(peer);
 
-	if (!inet_ntop(peer.sa_family, &(reinterpret_cast <struct sockaddr_in *>(&peer))->sin_addr, buf, sizeof(buf))) {
+	if (!inet_ntop(peer.ss_family, addr, buf, sizeof(buf))) {
 		throwSocketError(errno);
 	}
 
@@ -601,10 +613,10 @@ const string posixSocket::getPeerAddress() const {
 const string posixSocket::getPeerName() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
@@ -628,8 +640,9 @@ const string posixSocket::getPeerName() const {
 
 		struct hostent *hp;
 
-		if ((hp = gethostbyaddr(reinterpret_cast <const void *>(&peer),
-				sizeof(peer), peer.sa_family)) != NULL) {
+		if ((hp = gethostbyaddr(getInetAddress(peer),
+				peer.ss_family == AF_INET6 ? sizeof(in6_addr) : sizeof(in_addr),
+				peer.ss_family)) != NULL) {
 
 			return string(hp->h_name);
 		}
-- 
2.43.0


From c6f8f7ccb51d0a238e327c89f0bdb31ccf896e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 092/143] fix: do not leave the resolver with a request which
 no longer exists when resolving a name is given up

---
 src/vmime/platforms/posix/posixSocket.cpp | 118 ++++++++++++++++++----
 1 file changed, 100 insertions(+), 18 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 6c2776a..f67ef18 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -400,36 +400,113 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 }
 
 
-void posixSocket::resolve(
-	struct ::addrinfo** addrInfo,
-	const vmime::string& address,
+#if VMIME_HAVE_GETADDRINFO
+
+static void initAddrInfoHints(
+	struct ::addrinfo& hints,
+	char* portStr,
+	const size_t portStrLen,
 	const vmime::port_t port
 ) {
 
-	char portStr[16];
-	snprintf(portStr, sizeof(portStr), "%u", static_cast <unsigned int>(port));
-
+	snprintf(portStr, portStrLen, "%u", static_cast <unsigned int>(port));
 
-	struct ::addrinfo hints;
 	memset(&hints, 0, sizeof(hints));
 
 	hints.ai_flags = AI_CANONNAME | AI_NUMERICSERV;
 	hints.ai_family = PF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
+}
+
+#endif // VMIME_HAVE_GETADDRINFO
+
+
+#if VMIME_HAVE_GETADDRINFO_A
+
+namespace {
+
+/** A request for getaddrinfo_a(). If it is abandoned before it has completed, it is
+  * cancelled, and it outlives this object if it cannot be: the resolver still uses it.
+  */
+class addrInfoRequest {
+
+public:
+
+	addrInfoRequest(const vmime::string& address, const vmime::port_t port)
+		: m_data(new data) {
+
+		m_data->address = address;
+		initAddrInfoHints(m_data->hints, m_data->portStr, sizeof(m_data->portStr), port);
+
+		memset(&m_data->request, 0, sizeof(m_data->request));
+
+		m_data->request.ar_name = m_data->address.c_str();
+		m_data->request.ar_service = m_data->portStr;
+		m_data->request.ar_request = &m_data->hints;
+	}
+
+	~addrInfoRequest() {
+
+		if (gai_error(&m_data->request) == EAI_INPROGRESS &&
+		    gai_cancel(&m_data->request) == EAI_NOTCANCELED) {
+
+			return;  // in use
+		}
+
+		if (m_data->request.ar_result) {
+			::freeaddrinfo(m_data->request.ar_result);
+		}
+
+		delete m_data;
+	}
+
+	struct ::gaicb* get() {
+
+		return &m_data->request;
+	}
+
+	struct ::addrinfo* takeResult() {
+
+		struct ::addrinfo* result = m_data->request.ar_result;
+		m_data->request.ar_result = NULL;
+
+		return result;
+	}
+
+private:
+
+	addrInfoRequest(const addrInfoRequest&);
+	addrInfoRequest& operator=(const addrInfoRequest&);
+
+	struct data {
+		vmime::string address;
+		char portStr[16];
+		struct ::addrinfo hints;
+		struct ::gaicb request;
+	};
+
+	data* m_data;
+};
+
+}
+
+#endif // VMIME_HAVE_GETADDRINFO_A
+
+
+void posixSocket::resolve(
+	struct ::addrinfo** addrInfo,
+	const vmime::string& address,
+	const vmime::port_t port
+) {
 
 #if VMIME_HAVE_GETADDRINFO_A
 
 	// If getaddrinfo_a() is available, use asynchronous resolving to allow
 	// the timeout handler to cancel the operation
 
-	struct ::gaicb gaiRequest;
-	memset(&gaiRequest, 0, sizeof(gaiRequest));
+	addrInfoRequest request(address, port);
 
-	gaiRequest.ar_name = address.c_str();
-	gaiRequest.ar_service = portStr;
-	gaiRequest.ar_request = &hints;
-
-	struct ::gaicb* gaiRequests = &gaiRequest;
+	struct ::gaicb* gaiRequests = request.get();
 	int gaiError;
 
 	if ((gaiError = getaddrinfo_a(GAI_NOWAIT, &gaiRequests, 1, NULL)) != 0) {
@@ -453,7 +530,7 @@ void posixSocket::resolve(
 
 		if (gaiError == 0 || gaiError == EAI_ALLDONE) {
 
-			const int ret = gai_error(&gaiRequest);
+			const int ret = gai_error(request.get());
 
 			if (ret != 0) {
 
@@ -463,15 +540,15 @@ void posixSocket::resolve(
 
 			} else {
 
-				*addrInfo = gaiRequest.ar_result;
+				*addrInfo = request.takeResult();
 				break;
 			}
 
-		} else if (gaiError != EAI_AGAIN) {
+		} else if (gaiError != EAI_AGAIN && gaiError != EAI_INTR) {
 
 			if (gaiError == EAI_SYSTEM) {
 
-				const int ret = gai_error(&gaiRequest);
+				const int ret = gai_error(request.get());
 
 				if (ret != EAI_INPROGRESS && errno != 0) {
 
@@ -507,6 +584,11 @@ void posixSocket::resolve(
 
 #else  // !VMIME_HAVE_GETADDRINFO_A
 
+	char portStr[16];
+	struct ::addrinfo hints;
+
+	initAddrInfoHints(hints, portStr, sizeof(portStr), port);
+
 	if (::getaddrinfo(address.c_str(), portStr, &hints, addrInfo) != 0) {
 
 		// Error: cannot resolve address
-- 
2.43.0


From 150b83a1d70cd733eb37d3f56a12d7180b9e5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 093/143] fix: interrupted and partial reads and writes on the
 pipe to a child process

---
 .../platforms/posix/posixChildProcess.cpp     | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 4a9fef3..a60a469 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -127,9 +127,21 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
-		if (::write(m_desc, data, count) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		size_t written = 0;
+
+		while (written < count) {
+
+			const ssize_t ret = ::write(m_desc, data + written, count - written);
+
+			if (ret != -1) {
+
+				written += ret;
+
+			} else if (errno != EINTR) {
+
+				const string errorMsg = getPosixErrorMessage(errno);
+				throw exceptions::system_error(errorMsg);
+			}
 		}
 	}
 
@@ -146,7 +158,9 @@ class inputStreamPosixPipeAdapter : public utility::inputStream {
 public:
 
 	inputStreamPosixPipeAdapter(const int desc)
-		: m_desc(desc) {
+		: m_desc(desc),
+		  m_eof(false) {
+
 	}
 
 	bool eof() const {
@@ -171,6 +185,11 @@ public:
 			std::min(sizeof(buffer), count - bytesSkipped))) != 0) {
 
 			if (bytesRead == -1) {
+
+				if (errno == EINTR) {
+					continue;
+				}
+
 				const string errorMsg = getPosixErrorMessage(errno);
 				throw exceptions::system_error(errorMsg);
 			}
@@ -185,7 +204,12 @@ public:
 
 		ssize_t bytesRead = 0;
 
-		if ((bytesRead = ::read(m_desc, data, count)) == -1) {
+		while ((bytesRead = ::read(m_desc, data, count)) == -1) {
+
+			if (errno == EINTR) {
+				continue;
+			}
+
 			const string errorMsg = getPosixErrorMessage(errno);
 			throw exceptions::system_error(errorMsg);
 		}
-- 
2.43.0


From 35a343ade0f43c51010e71b518fef2d223341185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 094/143] fix: report that the status of a child process could
 not be obtained

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index a60a469..b745418 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -394,8 +394,11 @@ void posixChildProcess::waitForFinish() {
 
 	int wstat;
 
-	while (waitpid(m_pid, &wstat, 0) == -1 && errno == EINTR) {
-		;
+	while (waitpid(m_pid, &wstat, 0) == -1) {
+
+		if (errno != EINTR) {
+			throw exceptions::system_error(getPosixErrorMessage(errno));
+		}
 	}
 
 	if (!WIFEXITED(wstat)) {
-- 
2.43.0


From 910d69426130f698999d246970484b1678206819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 095/143] fix: do not allocate memory in a child process, nor
 run it with SIGCHLD blocked

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index b745418..11f4b57 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -291,6 +291,12 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		argv[i + 1] = m_argVector[i].c_str();
 	}
 
+	// Path of the executable file (not computed in the child process: nothing can
+	// safely be allocated there if there are other threads)
+	scoped_ptr <posixFileSystemFactory> pfsf(new posixFileSystemFactory());
+
+	const string path = pfsf->pathToString(m_processPath);
+
 	// Create a pipe to communicate with the child process
 	int fd[2];
 
@@ -337,11 +343,8 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 			close(fd[1]);
 		}
 
-		posixFileSystemFactory* pfsf = new posixFileSystemFactory();
-
-		const string path = pfsf->pathToString(m_processPath);
-
-		delete pfsf;
+		// SIGCHLD is blocked in this process only
+		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 
 		execv(path.c_str(), const_cast <char**>(argv));
 		_exit(255);
-- 
2.43.0


From 870b3bf071ca81e3c4ccafc4c5556e822fc456d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 096/143] fix: do not close twice the pipe for a process which
 could not be created

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 11f4b57..daa3e7f 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -327,6 +327,9 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		close(fd[0]);
 		close(fd[1]);
 
+		m_pipe[0] = 0;
+		m_pipe[1] = 0;
+
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
-- 
2.43.0


From e7b7b01fc452663d9d18d9ad08495a28dd930c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 097/143] fix: do not leave SIGCHLD blocked after several child
 processes

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index daa3e7f..7ba52a4 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -250,8 +250,15 @@ posixChildProcess::posixChildProcess(const utility::file::path& path)
 
 posixChildProcess::~posixChildProcess() {
 
-	if (m_started) {
-		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
+	// Only undo what start() has done: other child processes may have
+	// been started or destroyed since
+	if (m_started && !sigismember(&m_oldProcMask, SIGCHLD)) {
+
+		sigset_t mask;
+
+		sigemptyset(&mask);
+		sigaddset(&mask, SIGCHLD);
+		sigprocmask(SIG_UNBLOCK, &mask, NULL);
 	}
 
 	if (m_pipe[0] != 0) {
-- 
2.43.0


From 854a66cb30a6f712a33f232e865b5d0904560d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 098/143] fix: do not let the application be killed by SIGPIPE
 when a child process exits early

---
 .../platforms/posix/posixChildProcess.cpp     | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 7ba52a4..146aa34 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -107,6 +107,52 @@ static const string getPosixErrorMessage(const int num) {
 }
 
 
+// Blocks SIGPIPE for the lifetime of the object, so that writing to a process
+// which has exited is reported by EPIPE and does not kill the application.
+
+class sigPipeBlocker {
+
+public:
+
+	sigPipeBlocker() {
+
+		sigset_t pending;
+
+		sigemptyset(&m_mask);
+		sigaddset(&m_mask, SIGPIPE);
+
+		sigpending(&pending);
+		m_wasPending = sigismember(&pending, SIGPIPE);
+
+		if (!m_wasPending) {
+			sigprocmask(SIG_BLOCK, &m_mask, &m_oldMask);
+		}
+	}
+
+	~sigPipeBlocker() {
+
+		if (!m_wasPending) {
+
+			sigset_t pending;
+			sigpending(&pending);
+
+			if (sigismember(&pending, SIGPIPE)) {
+				int sig;
+				sigwait(&m_mask, &sig);
+			}
+
+			sigprocmask(SIG_SETMASK, &m_oldMask, NULL);
+		}
+	}
+
+private:
+
+	sigset_t m_mask;
+	sigset_t m_oldMask;
+	bool m_wasPending;
+};
+
+
 // Output stream adapter for POSIX pipe
 
 class outputStreamPosixPipeAdapter : public utility::outputStream {
@@ -127,6 +173,7 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
+		sigPipeBlocker blocker;
 		size_t written = 0;
 
 		while (written < count) {
-- 
2.43.0


From 3ab985f843e7f4ac0c1d9ca200837aa6427bb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 099/143] fix: use one pipe for each standard stream of a child
 process, not inherited by other processes

---
 .../platforms/posix/posixChildProcess.cpp     | 87 +++++++++++++------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 146aa34..cadbb2e 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -274,6 +274,44 @@ private:
 };
 
 
+// Creates a pipe which is not inherited by the other processes that may be started:
+// they would keep the end of the data from being seen.
+
+static bool createPipe(int* fd) {
+
+	if (pipe(fd) == -1) {
+		fd[0] = fd[1] = -1;
+		return false;
+	}
+
+	fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+	fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+
+	return true;
+}
+
+
+static void closePipe(const int* fd) {
+
+	if (fd[0] != -1) {
+		close(fd[0]);
+		close(fd[1]);
+	}
+}
+
+
+// Makes a descriptor a standard descriptor of the executed program
+
+static void redirect(const int fd, const int standardFd) {
+
+	if (fd == standardFd) {
+		fcntl(fd, F_SETFD, 0);   // keep open
+	} else {
+		dup2(fd, standardFd);
+	}
+}
+
+
 #endif // VMIME_BUILDING_DOC
 
 
@@ -351,15 +389,19 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 	const string path = pfsf->pathToString(m_processPath);
 
-	// Create a pipe to communicate with the child process
-	int fd[2];
+	// Create the pipes to communicate with the child process
+	int in[2] = { -1, -1 };   // standard input of the child process
+	int out[2] = { -1, -1 };  // standard output of the child process
 
-	if (pipe(fd) == -1) {
-		throw exceptions::system_error(getPosixErrorMessage(errno));
-	}
+	if (((flags & FLAG_REDIRECT_STDIN) && !createPipe(in)) ||
+	    ((flags & FLAG_REDIRECT_STDOUT) && !createPipe(out))) {
+
+		const string errorMsg = getPosixErrorMessage(errno);
 
-	m_pipe[0] = fd[0];
-	m_pipe[1] = fd[1];
+		closePipe(in);
+
+		throw exceptions::system_error(errorMsg);
+	}
 
 	// Block SIGCHLD so the calling application doesn't notice
 	// process exiting before we do
@@ -378,26 +420,19 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 
-		close(fd[0]);
-		close(fd[1]);
-
-		m_pipe[0] = 0;
-		m_pipe[1] = 0;
+		closePipe(in);
+		closePipe(out);
 
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
 
 		if (flags & FLAG_REDIRECT_STDIN) {
-			dup2(fd[0], STDIN_FILENO);
-		} else {
-			close(fd[0]);
+			redirect(in[0], STDIN_FILENO);
 		}
 
 		if (flags & FLAG_REDIRECT_STDOUT) {
-			dup2(fd[1], STDOUT_FILENO);
-		} else {
-			close(fd[1]);
+			redirect(out[1], STDOUT_FILENO);
 		}
 
 		// SIGCHLD is blocked in this process only
@@ -409,22 +444,18 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 	if (flags & FLAG_REDIRECT_STDIN) {
 
-		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
-
-	} else {
+		close(in[0]);
 
-		close(m_pipe[1]);
-		m_pipe[1] = 0;
+		m_pipe[1] = in[1];
+		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
 	}
 
 	if (flags & FLAG_REDIRECT_STDOUT) {
 
-		m_stdOut = make_shared <inputStreamPosixPipeAdapter>(m_pipe[0]);
-
-	} else {
+		close(out[1]);
 
-		close(m_pipe[0]);
-		m_pipe[0] = 0;
+		m_pipe[0] = out[0];
+		m_stdOut = make_shared <inputStreamPosixPipeAdapter>(m_pipe[0]);
 	}
 
 	m_pid = pid;
-- 
2.43.0


From ab3fbe5d373ef6fd79a261391097395bc8443a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 100/143] fix: do not let a process take incomplete data for
 the whole when writing to it is abandoned

---
 .../platforms/posix/posixChildProcess.cpp     | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index cadbb2e..3fd19c7 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -335,15 +335,18 @@ posixChildProcess::posixChildProcess(const utility::file::path& path)
 
 posixChildProcess::~posixChildProcess() {
 
-	// Only undo what start() has done: other child processes may have
-	// been started or destroyed since
-	if (m_started && !sigismember(&m_oldProcMask, SIGCHLD)) {
+	// If writing to the process was abandoned, do not let it take what it
+	// has received so far for the whole data
+	bool abandoned = m_started && m_pipe[1] != 0;
 
-		sigset_t mask;
+	if (abandoned) {
 
-		sigemptyset(&mask);
-		sigaddset(&mask, SIGCHLD);
-		sigprocmask(SIG_UNBLOCK, &mask, NULL);
+		// (unless it has already exited)
+		abandoned = waitpid(m_pid, NULL, WNOHANG) == 0;
+
+		if (abandoned) {
+			kill(m_pid, SIGKILL);
+		}
 	}
 
 	if (m_pipe[0] != 0) {
@@ -354,6 +357,24 @@ posixChildProcess::~posixChildProcess() {
 		close(m_pipe[1]);
 	}
 
+	if (abandoned) {
+
+		while (waitpid(m_pid, NULL, 0) == -1 && errno == EINTR) {
+			;
+		}
+	}
+
+	// Only undo what start() has done: other child processes may have
+	// been started or destroyed since
+	if (m_started && !sigismember(&m_oldProcMask, SIGCHLD)) {
+
+		sigset_t mask;
+
+		sigemptyset(&mask);
+		sigaddset(&mask, SIGCHLD);
+		sigprocmask(SIG_UNBLOCK, &mask, NULL);
+	}
+
 	delete [] m_argArray;
 }
 
-- 
2.43.0


From 43d5d1a5893951f83238305eeafaed723ebedb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 101/143] fix: refuse to send a message with sendmail when not
 connected

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..d289af3 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -152,6 +152,10 @@ void sendmailTransport::send(
 	const sendOptions& /* options */
 ) {
 
+	if (!isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	// If no recipient/expeditor was found, throw an exception
 	if (recipients.isEmpty()) {
 		throw exceptions::no_recipient();
-- 
2.43.0


From b656b99f4200ae2f0fd3ce518e207631c8b59275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 102/143] fix: do not lose a CR at the end of a message given
 to sendmail

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index d289af3..5f95461 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -216,6 +216,7 @@ void sendmailTransport::internalSend(
 	// TODO: remove 'Bcc:' field from message header
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
+	fos.flush();
 
 	// Wait for sendmail to exit
 	proc->waitForFinish();
-- 
2.43.0


From 04bdcb6616624315badb487d656ff591a93b9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 103/143] fix: do not use a POP3 connection anymore when a
 response has not been read completely

---
 src/vmime/net/pop3/POP3Command.cpp  | 13 +++++++-
 src/vmime/net/pop3/POP3Response.cpp | 47 ++++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 2abc641..45f15e6 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -258,7 +258,18 @@ void POP3Command::send(const shared_ptr <POP3Connection>& conn) {
 		throw exceptions::invalid_argument();
 	}
 
-	conn->getSocket()->send(m_text + "\r\n");
+	const shared_ptr <socket> sok = conn->getSocket();
+
+	try {
+
+		sok->send(m_text + "\r\n");
+
+	} catch (...) {
+
+		// The command may have been partially sent
+		sok->disconnect();
+		throw;
+	}
 
 	if (conn->getTracer()) {
 		conn->getTracer()->traceSend(m_traceText);
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index d6db88a..a9858a8 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -65,7 +65,18 @@ shared_ptr <POP3Response> POP3Response::readResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ false);
+
+	try {
+
+		resp->readResponseImpl(buffer, /* multiLine */ false);
+
+	} catch (...) {
+
+		// The connection must not be used anymore: what remains of the
+		// response would be taken for the response to the next command
+		resp->m_socket->disconnect();
+		throw;
+	}
 
 	resp->m_firstLine = buffer;
 	resp->m_code = getResponseCode(buffer);
@@ -89,7 +100,18 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ true);
+
+	try {
+
+		resp->readResponseImpl(buffer, /* multiLine */ true);
+
+	} catch (...) {
+
+		// The connection must not be used anymore: what remains of the
+		// response would be taken for the response to the next command
+		resp->m_socket->disconnect();
+		throw;
+	}
 
 	string firstLine, nextLines;
 	stripFirstLine(buffer, nextLines, &firstLine);
@@ -142,13 +164,28 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	);
 
 	string firstLine;
-	const size_t length =
-		resp->readResponseImpl(firstLine, os, progress, predictedSize, keepLastLineBreak);
+	size_t length = 0;
+
+	try {
+
+		length = resp->readResponseImpl(firstLine, os, progress, predictedSize, keepLastLineBreak);
+
+	} catch (...) {
+
+		// The connection must not be used anymore: what remains of the
+		// response would be taken for the response to the next command
+		resp->m_socket->disconnect();
+		throw;
+	}
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
 	stripResponseCode(firstLine, resp->m_text);
 
+	if (!resp->isSuccess()) {
+		throw exceptions::command_error("?", firstLine);
+	}
+
 	if (resp->m_tracer) {
 		resp->m_tracer->traceReceive(firstLine);
 		resp->m_tracer->traceReceiveBytes(length);
@@ -339,7 +376,7 @@ size_t POP3Response::readResponseImpl(
 
 					// No data follows an error response
 					if (getResponseCode(firstLine) != CODE_OK) {
-						throw exceptions::command_error("?", firstLine);
+						return 0;
 					}
 
 					state = STATE_LINE_START;
-- 
2.43.0


From 6a2d9cb0b1e20fca4ab86c4a7581b688713ef1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 104/143] fix: do not use message numbers of a lost POP3
 session in the next one

---
 src/vmime/net/pop3/POP3Store.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b06640f..6c0eb78 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -131,6 +131,16 @@ void POP3Store::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// Message numbers are only valid during a session: folders opened on
+	// a connection that has been lost must not be used with the new one
+	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		(*it)->onStoreDisconnected();
+	}
+
+	m_folders.clear();
+
 	m_connection = make_shared <POP3Connection>(
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
-- 
2.43.0


From 677a6bdc677d750f3f895097468967d4bdb5d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 105/143] fix: do not use an IMAP connection anymore when a
 response has not been read completely

---
 src/vmime/net/imap/IMAPConnection.cpp | 59 ++++++++++++++++++++++-----
 src/vmime/net/imap/IMAPConnection.hpp |  6 +++
 2 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 1696a6f..4d4e2d0 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -303,7 +303,7 @@ void IMAPConnection::authenticate() {
 	shared_ptr <IMAPConnection> conn = dynamicCast <IMAPConnection>(shared_from_this());
 	IMAPCommand::LOGIN(username, password)->send(conn);
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
 	if (resp->isBad()) {
 
@@ -425,7 +425,7 @@ void IMAPConnection::authenticateSASL() {
 
 		for (bool cont = true ; cont ; ) {
 
-			scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+			scoped_ptr <IMAPParser::response> resp(readResponse());
 
 			if (resp->response_done &&
 			    resp->response_done->response_tagged &&
@@ -538,7 +538,7 @@ void IMAPConnection::startTLS() {
 
 		IMAPCommand::STARTTLS()->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-		scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+		scoped_ptr <IMAPParser::response> resp(readResponse());
 
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
@@ -646,7 +646,7 @@ void IMAPConnection::fetchCapabilities() {
 
 	IMAPCommand::CAPABILITY()->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
 	if (!resp->isBad() &&
 	    resp->response_done->response_tagged->
@@ -758,7 +758,7 @@ void IMAPConnection::initHierarchySeparator() {
 
 	IMAPCommand::LIST("", "")->send(dynamicCast <IMAPConnection>(shared_from_this()));
 
-	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
+	scoped_ptr <IMAPParser::response> resp(readResponse());
 
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
@@ -801,10 +801,19 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 		++(*m_tag);
 	}
 
-	m_socket->send(*m_tag);
-	m_socket->send(" ");
-	m_socket->send(cmd->getText());
-	m_socket->send("\r\n");
+	try {
+
+		m_socket->send(*m_tag);
+		m_socket->send(" ");
+		m_socket->send(cmd->getText());
+		m_socket->send("\r\n");
+
+	} catch (...) {
+
+		// The command may have been partially sent
+		abort();
+		throw;
+	}
 
 	m_firstTag = false;
 
@@ -820,13 +829,41 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
-	m_socket->sendRaw(buffer, count);
+	try {
+
+		m_socket->sendRaw(buffer, count);
+
+	} catch (...) {
+
+		// Data may have been partially sent
+		abort();
+		throw;
+	}
 }
 
 
 IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* lh) {
 
-	return m_parser->readResponse(*m_tag, lh);
+	try {
+
+		return m_parser->readResponse(*m_tag, lh);
+
+	} catch (...) {
+
+		// The connection must not be used anymore: what remains of the
+		// response would be taken for the response to the next command,
+		// and the status updates in this response have been lost
+		abort();
+		throw;
+	}
+}
+
+
+void IMAPConnection::abort() {
+
+	if (m_socket) {
+		m_socket->disconnect();
+	}
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..0e76b16 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -85,6 +85,12 @@ public:
 
 	IMAPParser::response* readResponse(IMAPParser::literalHandler* lh = NULL);
 
+	/** Close the connection at once, without logging out. This must be
+	  * used when a command or a response has not been exchanged completely,
+	  * so that the rest of it is not taken for another command or response.
+	  */
+	void abort();
+
 
 	shared_ptr <const IMAPStore> getStore() const;
 	shared_ptr <IMAPStore> getStore();
-- 
2.43.0


From 30084891227719a58310a50962a4853306cff83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:27 +0000
Subject: [PATCH 106/143] fix: do not use an IMAP connection anymore when a
 message has been partially appended

---
 src/vmime/net/imap/IMAPFolder.cpp | 55 +++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 7d2d139..1d46d9e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1206,31 +1206,50 @@ messageSet IMAPFolder::addMessage(
 	const size_t total = size;
 	size_t current = 0;
 
-	if (progress) {
-		progress->start(total);
-	}
+	try {
 
-	const size_t blockSize = std::min(
-		is.getBlockSize(),
-		static_cast <size_t>(m_connection->getSocket()->getBlockSize())
-	);
+		if (progress) {
+			progress->start(total);
+		}
 
-	std::vector <byte_t> vbuffer(blockSize);
-	byte_t* buffer = &vbuffer.front();
+		const size_t blockSize = std::min(
+			is.getBlockSize(),
+			static_cast <size_t>(m_connection->getSocket()->getBlockSize())
+		);
 
-	while (!is.eof()) {
+		std::vector <byte_t> vbuffer(blockSize);
+		byte_t* buffer = &vbuffer.front();
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+		while (!is.eof()) {
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, blockSize);
 
-		// Notify progress
-		if (progress) {
-			progress->progress(current, total);
+			// The server expects exactly the announced size
+			if (read > total - current) {
+				throw exceptions::invalid_argument();
+			}
+
+			current += read;
+
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
+		}
+
+		if (current != total) {
+			throw exceptions::invalid_argument();
 		}
+
+	} catch (...) {
+
+		// Message data has been partially sent
+		m_connection->abort();
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
-- 
2.43.0


From f222b49f92236723e10864a3ea8d19b7a8c57925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 107/143] fix: do not use an SMTP connection anymore when a
 response has not been read completely

---
 src/vmime/net/smtp/SMTPCommand.cpp    | 11 ++++++++++-
 src/vmime/net/smtp/SMTPConnection.cpp | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 4527677..f20e6d0 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -257,7 +257,16 @@ const string SMTPCommand::getTraceText() const {
 
 void SMTPCommand::writeToSocket(const shared_ptr <socket>& sok, shared_ptr <tracer> tr) {
 
-	sok->send(m_text + "\r\n");
+	try {
+
+		sok->send(m_text + "\r\n");
+
+	} catch (...) {
+
+		// The command may have been partially sent
+		sok->disconnect();
+		throw;
+	}
 
 	if (tr) {
 		tr->traceSend(m_traceText);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 08cbea4..027b0c4 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -649,9 +649,21 @@ void SMTPConnection::sendRequest(const shared_ptr <SMTPCommand>& cmd) {
 
 shared_ptr <SMTPResponse> SMTPConnection::readResponse() {
 
-	shared_ptr <SMTPResponse> resp = SMTPResponse::readResponse(
-		m_tracer, m_socket, m_timeoutHandler, m_responseState
-	);
+	shared_ptr <SMTPResponse> resp;
+
+	try {
+
+		resp = SMTPResponse::readResponse(
+			m_tracer, m_socket, m_timeoutHandler, m_responseState
+		);
+
+	} catch (...) {
+
+		// The connection must not be used anymore: what remains of the
+		// response would be taken for the response to the next command
+		m_socket->disconnect();
+		throw;
+	}
 
 	m_responseState = resp->getCurrentState();
 
-- 
2.43.0


From a24d6b778daa788553f77021c13a455d7725027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 108/143] fix: do not send a QUIT command in the middle of
 message data

---
 src/vmime/net/smtp/SMTPTransport.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index bda046b..35973e8 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -435,7 +435,10 @@ void SMTPTransport::abortConnection() {
 	try {
 
 		if (isConnected()) {
-			disconnect();
+
+			// A "QUIT" command would be taken for message data
+			m_connection->getSocket()->disconnect();
+			m_connection = null;
 		}
 
 	} catch (exception&) {
-- 
2.43.0


From f69247ebfcbe719bb2a1a8381fab7cce33449d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:56 +0000
Subject: [PATCH 109/143] fix: accept the completion of an IMAP command without
 a text

---
 src/vmime/net/imap/IMAPParser.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 79df24b..d72eddd 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -4187,9 +4187,12 @@ public:
 				status = BAD;
 			}
 
-			VIMAP_PARSER_CHECK(SPACE);
-
-			VIMAP_PARSER_GET(IMAPParser::resp_text, resp_text);
+			if (VIMAP_PARSER_TRY_CHECK(SPACE)) {
+				VIMAP_PARSER_GET(IMAPParser::resp_text, resp_text);
+			} else {
+				// Some servers do not send any text
+				resp_text.reset(new IMAPParser::resp_text());
+			}
 
 			*currentPos = pos;
 
-- 
2.43.0


From 1e41e739df03f64cef2b6ae000f36adf25ea2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 110/143] fix: do not use a connection anymore when the
 application failed between a command and its response

---
 src/vmime/net/imap/IMAPConnection.cpp | 21 +++++++++++----------
 src/vmime/net/imap/IMAPFolder.cpp     | 20 ++++++++++----------
 src/vmime/net/pop3/POP3Command.cpp    | 11 ++++++-----
 src/vmime/net/smtp/SMTPCommand.cpp    | 11 ++++++-----
 src/vmime/net/smtp/SMTPTransport.cpp  | 10 +++++-----
 5 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 4d4e2d0..67a94e2 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -808,21 +808,22 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 		m_socket->send(cmd->getText());
 		m_socket->send("\r\n");
 
-	} catch (...) {
+		m_firstTag = false;
 
-		// The command may have been partially sent
-		abort();
-		throw;
-	}
+		if (m_tracer) {
 
-	m_firstTag = false;
+			std::ostringstream oss;
+			oss << string(*m_tag) << " " << cmd->getText();
 
-	if (m_tracer) {
+			m_tracer->traceSend(oss.str());
+		}
 
-		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
+	} catch (...) {
 
-		m_tracer->traceSend(oss.str());
+		// The command may have been partially sent, and
+		// the response to it will not be read
+		abort();
+		throw;
 	}
 }
 
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 1d46d9e..ac3dff4 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1245,6 +1245,16 @@ messageSet IMAPFolder::addMessage(
 			throw exceptions::invalid_argument();
 		}
 
+		m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
+
+		if (m_connection->getTracer()) {
+			m_connection->getTracer()->traceSendBytes(current);
+		}
+
+		if (progress) {
+			progress->stop(total);
+		}
+
 	} catch (...) {
 
 		// Message data has been partially sent
@@ -1252,16 +1262,6 @@ messageSet IMAPFolder::addMessage(
 		throw;
 	}
 
-	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
-
-	if (m_connection->getTracer()) {
-		m_connection->getTracer()->traceSendBytes(current);
-	}
-
-	if (progress) {
-		progress->stop(total);
-	}
-
 	// Get the response
 	scoped_ptr <IMAPParser::response> finalResp(m_connection->readResponse());
 
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 45f15e6..6f0ada0 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -264,16 +264,17 @@ void POP3Command::send(const shared_ptr <POP3Connection>& conn) {
 
 		sok->send(m_text + "\r\n");
 
+		if (conn->getTracer()) {
+			conn->getTracer()->traceSend(m_traceText);
+		}
+
 	} catch (...) {
 
-		// The command may have been partially sent
+		// The command may have been partially sent, and
+		// the response to it will not be read
 		sok->disconnect();
 		throw;
 	}
-
-	if (conn->getTracer()) {
-		conn->getTracer()->traceSend(m_traceText);
-	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index f20e6d0..56f81b1 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -261,16 +261,17 @@ void SMTPCommand::writeToSocket(const shared_ptr <socket>& sok, shared_ptr <trac
 
 		sok->send(m_text + "\r\n");
 
+		if (tr) {
+			tr->traceSend(m_traceText);
+		}
+
 	} catch (...) {
 
-		// The command may have been partially sent
+		// The command may have been partially sent, and
+		// the response to it will not be read
 		sok->disconnect();
 		throw;
 	}
-
-	if (tr) {
-		tr->traceSend(m_traceText);
-	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 35973e8..785e68e 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -479,6 +479,11 @@ void SMTPTransport::send(
 		// Send end-of-data delimiter
 		m_connection->getSocket()->send("\r\n.\r\n");
 
+		if (m_connection->getTracer()) {
+			m_connection->getTracer()->traceSendBytes(size);
+			m_connection->getTracer()->traceSend(".");
+		}
+
 	} catch (...) {
 
 		// Message data has been partially sent
@@ -486,11 +491,6 @@ void SMTPTransport::send(
 		throw;
 	}
 
-	if (m_connection->getTracer()) {
-		m_connection->getTracer()->traceSendBytes(size);
-		m_connection->getTracer()->traceSend(".");
-	}
-
 	shared_ptr <SMTPResponse> resp = m_connection->readResponse();
 	auto code = resp->getCode();
 
-- 
2.43.0


From 3aa92aee3ca494bf03bb00eb011aeea6367bfe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 111/143] fix: use the full period of the random number
 generator, and one number only once in several threads

---
 src/vmime/utility/random.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/random.cpp b/src/vmime/utility/random.cpp
index 055122b..f8a6d84 100644
--- a/src/vmime/utility/random.cpp
+++ b/src/vmime/utility/random.cpp
@@ -24,6 +24,7 @@
 #include "vmime/utility/random.hpp"
 #include "vmime/platform.hpp"
 
+#include <atomic>
 #include <ctime>
 
 
@@ -39,18 +40,26 @@ static unsigned int getRandomSeed() {
 		reinterpret_cast <unsigned char*>(&seed), sizeof(seed)
 	);
 
-	return seed;
+	// The state of the generator is in the range 1..2^31-2
+	return seed % 2147483646u + 1;
 }
 
 
 unsigned int random::getNext() {
 
-	static unsigned int next = getRandomSeed();
+	static std::atomic <unsigned int> state(getRandomSeed());
 
 	// Park and Miller's minimal standard generator:
 	// xn+1 = (a * xn + b) mod c
 	// xn+1 = (16807 * xn) mod (2^31 - 1)
-	next = static_cast<unsigned int>((16807 * next) % 2147483647ul);
+	// The product does not fit in 32 bits
+	unsigned int current = state.load();
+	unsigned int next;
+
+	do {
+		next = static_cast <unsigned int>((16807ull * current) % 2147483647ull);
+	} while (!state.compare_exchange_weak(current, next));
+
 	return next;
 }
 
-- 
2.43.0


From 23779e1b2dc001f223ad420fb366a392b38154b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 112/143] fix: do not share the workspace of SHA-1 between
 digests computed in different threads

---
 src/vmime/security/digest/sha1/sha1MessageDigest.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
index c098f14..7832016 100644
--- a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
+++ b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@@ -211,10 +211,9 @@ void sha1MessageDigest::transform(
 
 	assert(sizeof(unsigned int) == 4);
 
-	CHAR64LONG16* block;
-	static unsigned char workspace[64];
+	CHAR64LONG16 workspace;
+	CHAR64LONG16* block = &workspace;
 
-	block = reinterpret_cast <CHAR64LONG16*>(workspace);
 	memcpy(block, buffer, 64);
 
 	// Copy context->state[] to working vars
-- 
2.43.0


From 093049eb5a6e49f1ea5499f4e2547f672028b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 113/143] fix: number the connections correctly when they are
 created in several threads

---
 src/vmime/net/imap/IMAPConnection.cpp | 3 ++-
 src/vmime/net/pop3/POP3Connection.cpp | 4 +++-
 src/vmime/net/smtp/SMTPConnection.cpp | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 67a94e2..c953461 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -49,6 +49,7 @@
 	#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
 #endif // VMIME_HAVE_TLS_SUPPORT
 
+#include <atomic>
 #include <sstream>
 
 // Helpers for service properties
@@ -82,7 +83,7 @@ IMAPConnection::IMAPConnection(
 	  m_capabilitiesFetched(false),
 	  m_noModSeq(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	m_tag = make_shared <IMAPTag>();
 
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index b89aa5e..4f560b0 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -37,6 +37,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <atomic>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #endif // VMIME_HAVE_SASL_SUPPORT
@@ -75,7 +77,7 @@ POP3Connection::POP3Connection(
 	  m_secured(false),
 	  m_capabilitiesFetched(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (store->getTracerFactory()) {
 		m_tracer = store->getTracerFactory()->create(store, ++connectionId);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 027b0c4..f91c23f 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -38,6 +38,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <atomic>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #else
@@ -79,7 +81,7 @@ SMTPConnection::SMTPConnection(
 	  m_secured(false),
 	  m_extendedSMTP(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (transport->getTracerFactory()) {
 		m_tracer = transport->getTracerFactory()->create(transport, ++connectionId);
-- 
2.43.0


From 06f30f978b4b7967883b8d58f0ae5031d3d2ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:38 +0000
Subject: [PATCH 114/143] fix: do not follow symbolic links when destroying a
 maildir folder

---
 src/vmime/net/maildir/maildirUtils.cpp  | 9 +++++++++
 src/vmime/platforms/posix/posixFile.cpp | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9676cb4..74abcef 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -193,6 +193,15 @@ const utility::file::path::component maildirUtils::generateId() {
 
 void maildirUtils::recursiveFSDelete(const shared_ptr <utility::file>& dir) {
 
+	// A symbolic link is removed, and nothing of the directory it refers to
+	// (this succeeds for an empty directory too)
+	try {
+		dir->remove();
+		return;
+	} catch (exceptions::filesystem_exception&) {
+		// Directory is not empty
+	}
+
 	shared_ptr <utility::fileIterator> files = dir->getFiles();
 
 	// First, delete files and subdirectories in this directory
diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 561fe5f..8db9cc0 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -524,7 +524,8 @@ void posixFile::remove() {
 
 	struct stat buf;
 
-	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+	// Remove a symbolic link, not the file it refers to
+	if (::lstat(m_nativePath.c_str(), &buf) == -1) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
@@ -534,7 +535,7 @@ void posixFile::remove() {
 			posixFileSystemFactory::reportError(m_path, errno);
 		}
 
-	} else if (S_ISREG(buf.st_mode)) {
+	} else if (S_ISREG(buf.st_mode) || S_ISLNK(buf.st_mode)) {
 
 		if (::unlink(m_nativePath.c_str()) == -1) {
 			posixFileSystemFactory::reportError(m_path, errno);
-- 
2.43.0


From 1e5098f6394ba333e5d0d9a06bb55612a1e61c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 115/143] fix: convert a time_t to the given time zone when
 building a datetime

---
 src/vmime/dateTime.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index d8a3bb6..0ff05a2 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -714,7 +714,12 @@ datetime::datetime(const time_t t, const int zone) {
 	m_hour = tms.tm_hour;
 	m_minute = tms.tm_min;
 	m_second = tms.tm_sec;
-	m_zone = zone;
+	m_zone = GMT;
+
+	// The fields above are those of Universal Time
+	if (zone != GMT) {
+		*this = utility::datetimeUtils::toLocalTime(*this, zone);
+	}
 }
 
 
-- 
2.43.0


From 35873f5125602ee35f39a8905ed03387f54ff345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:28 +0000
Subject: [PATCH 116/143] fix: do not trace passwords (IMAP LOGIN, initial
 response of AUTH)

---
 src/vmime/net/imap/IMAPCommand.cpp    | 7 ++++++-
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 src/vmime/net/pop3/POP3Command.cpp    | 7 ++++++-
 src/vmime/net/smtp/SMTPCommand.cpp    | 7 ++++++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..6c53e07 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -81,7 +81,12 @@ shared_ptr <IMAPCommand> IMAPCommand::AUTHENTICATE(const string& mechName, const
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTHENTICATE " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	// The initial response may contain the password
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTHENTICATE " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index c953461..6fa87f0 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -814,7 +814,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 		if (m_tracer) {
 
 			std::ostringstream oss;
-			oss << string(*m_tag) << " " << cmd->getText();
+			oss << string(*m_tag) << " " << cmd->getTraceText();
 
 			m_tracer->traceSend(oss.str());
 		}
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 6f0ada0..a55e100 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -83,7 +83,12 @@ shared_ptr <POP3Command> POP3Command::AUTH(const string& mechName, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	// The initial response may contain the password
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 56f81b1..43fdfa0 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -121,7 +121,12 @@ shared_ptr <SMTPCommand> SMTPCommand::AUTH(const string& mechName, const std::st
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	// The initial response may contain the password
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
-- 
2.43.0


From d0c6b6da71bb1657e66a96cd91eb245d9dd95db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:28 +0000
Subject: [PATCH 117/143] fix: trace negative POP3 responses as they are
 received

---
 src/vmime/net/pop3/POP3Response.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index a9858a8..eb45931 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -142,7 +142,8 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 		}
 	}
 
-	if (resp->m_tracer) {
+	// There is only one line in a negative response
+	if (resp->m_tracer && resp->isSuccess()) {
 		resp->m_tracer->traceReceive(".");
 	}
 
@@ -182,12 +183,15 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	resp->m_code = getResponseCode(firstLine);
 	stripResponseCode(firstLine, resp->m_text);
 
+	if (resp->m_tracer) {
+		resp->m_tracer->traceReceive(firstLine);
+	}
+
 	if (!resp->isSuccess()) {
 		throw exceptions::command_error("?", firstLine);
 	}
 
 	if (resp->m_tracer) {
-		resp->m_tracer->traceReceive(firstLine);
 		resp->m_tracer->traceReceiveBytes(length);
 		resp->m_tracer->traceReceive(".");
 	}
-- 
2.43.0


From e7ed468c0ba0b60e902c504896cba725eda21a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 118/143] fix: notify the start of the operation when decoding
 quoted-printable

---
 src/vmime/utility/encoder/qpEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 7ae1b38..def8b6e 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -398,6 +398,10 @@ size_t qpEncoder::decode(
 	size_t total = 0;
 	size_t inTotal = 0;
 
+	if (progress) {
+		progress->start(0);
+	}
+
 	while (bufferPos < bufferLength || !in.eof()) {
 
 		// Flush current output buffer
-- 
2.43.0


From 8102401085ff2a493be762907c38540cddfb071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 119/143] fix: predict the known total to the listener wrapped
 by progressListenerSizeAdapter

---
 src/vmime/utility/progressListener.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/progressListener.cpp b/src/vmime/utility/progressListener.cpp
index cc4969c..1f9b2ba 100644
--- a/src/vmime/utility/progressListener.cpp
+++ b/src/vmime/utility/progressListener.cpp
@@ -43,7 +43,12 @@ progressListenerSizeAdapter::progressListenerSizeAdapter(
 void progressListenerSizeAdapter::start(const size_t predictedTotal) {
 
 	if (m_wrapped) {
-		m_wrapped->start(predictedTotal);
+
+		if (predictedTotal > m_total) {
+			m_total = predictedTotal;
+		}
+
+		m_wrapped->start(m_total);
 	}
 }
 
-- 
2.43.0


From cde6789da614238d8cee7dbd32ddb6d1e11d0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:31 +0000
Subject: [PATCH 120/143] fix: list the pipelining and chunking options among
 the properties of the SMTP service

---
 src/vmime/net/smtp/SMTPServiceInfos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPServiceInfos.cpp b/src/vmime/net/smtp/SMTPServiceInfos.cpp
index a2ee3d5..8e8daf1 100644
--- a/src/vmime/net/smtp/SMTPServiceInfos.cpp
+++ b/src/vmime/net/smtp/SMTPServiceInfos.cpp
@@ -112,6 +112,8 @@ const std::vector <serviceInfos::property> SMTPServiceInfos::getAvailablePropert
 
 	// SMTP-specific options
 	list.push_back(p.PROPERTY_OPTIONS_NEEDAUTH);
+	list.push_back(p.PROPERTY_OPTIONS_PIPELINING);
+	list.push_back(p.PROPERTY_OPTIONS_CHUNKING);
 #if VMIME_HAVE_SASL_SUPPORT
 	list.push_back(p.PROPERTY_OPTIONS_SASL);
 	list.push_back(p.PROPERTY_OPTIONS_SASL_FALLBACK);
-- 
2.43.0


From 9d0f83de21602fcfe751e0823ddd97117abee612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:31 +0000
Subject: [PATCH 121/143] fix: read domain literals which contain a colon in
 lists of addresses

---
 src/vmime/address.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index 237e306..f1e67d8 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -79,6 +79,7 @@ shared_ptr <address> address::parseNext(
 	bool quoted = false;
 	bool quotedRFC2047 = false;
 	bool inRouteAddr = false;
+	bool inDomainLiteral = false;
 	bool isGroup = false;
 	bool stop = false;
 	int commentLevel = 0;
@@ -134,6 +135,20 @@ shared_ptr <address> address::parseNext(
 
 					break;
 
+				case '[':
+
+					// Domain literal, eg. "user@[IPv6:::1]"
+					if (commentLevel == 0 && !quoted && pos > start && buffer[pos - 1] == '@') {
+						inDomainLiteral = true;
+					}
+
+					break;
+
+				case ']':
+
+					inDomainLiteral = false;
+					break;
+
 				case '(':
 
 					if (!quoted) {
@@ -170,7 +185,7 @@ shared_ptr <address> address::parseNext(
 
 				default:
 				{
-					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr) {
+					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr && !inDomainLiteral) {
 
 						switch (buffer[pos]) {
 
-- 
2.43.0


From 9e2e92b662b842b1ad6198b1bb7a8cb56cdb5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:31 +0000
Subject: [PATCH 122/143] fix: read quoted words after other words or comments
 in the name of a mailbox

---
 src/vmime/mailbox.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index b40f0e1..500059a 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -144,6 +144,7 @@ void mailbox::parseImpl(
 			for (; p < pend; ++p) {
 				if (escaped) {
 					name += *p;
+					hold = 0;
 					escaped = false;
 					continue;
 				} else if (*p == '\\') {
@@ -152,10 +153,11 @@ void mailbox::parseImpl(
 				}
 				if (*p == '"') {
 					++p;
-					state = State_None;
+					state = State_Name;
 					break;
 				}
 				name += *p;
+				hold = 0;
 			}
 		} else if (state == State_Address_Bracketed) {
 			bool escaped = false;
@@ -278,6 +280,10 @@ void mailbox::parseImpl(
 					escaped = true;
 				} else if (*p == '(') {
 					++comment;
+				} else if (*p == '"' && (name.empty() || parserHelpers::isSpace(name[name.length() - 1]))) {
+					// A word of the name which is quoted, or a quoted local-part
+					state = State_None;
+					break;
 				} else if (*p == '<') {
 					state = State_Bracket;
 					break;
-- 
2.43.0


From be8f497f50db3296bc962abc0a9a5a4c3f30df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:31 +0000
Subject: [PATCH 123/143] fix: ignore comments which stand alone in lists of
 addresses or in the name of a group

---
 src/vmime/address.cpp      | 10 +++++++++-
 src/vmime/mailboxGroup.cpp | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index f1e67d8..1b35886 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -82,6 +82,7 @@ shared_ptr <address> address::parseNext(
 	bool inDomainLiteral = false;
 	bool isGroup = false;
 	bool stop = false;
+	bool isEmpty = true;  // only white space and comments
 	int commentLevel = 0;
 
 	if (isLastAddressOfGroup) {
@@ -98,6 +99,8 @@ shared_ptr <address> address::parseNext(
 
 	while (!stop && pos < end) {
 
+		const bool inComment = (commentLevel != 0);
+
 		if (escaped) {
 
 			escaped = false;
@@ -227,6 +230,11 @@ shared_ptr <address> address::parseNext(
 		}
 
 		if (!stop) {
+
+			if (!inComment && commentLevel == 0 && !parserHelpers::isSpace(buffer[pos])) {
+				isEmpty = false;
+			}
+
 			++pos;
 		}
 	}
@@ -244,7 +252,7 @@ shared_ptr <address> address::parseNext(
 	}
 
 	// Parse extracted address (mailbox or group)
-	if (pos != start) {
+	if (!isEmpty) {
 
 		shared_ptr <address> parsedAddress;
 
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 735c98f..8294b8d 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -72,10 +72,23 @@ void mailboxGroup::parseImpl(
 	string name;
 
 	bool quoted = false;
+	int commentLevel = 0;
 
-	while (p < pend && (quoted || *p != ':')) {
+	while (p < pend && (quoted || commentLevel != 0 || *p != ':')) {
 
-		if (*p == '"') {
+		if (!quoted && *p == '(') {
+
+			++commentLevel;
+
+		} else if (commentLevel != 0) {
+
+			if (*p == ')') {
+				--commentLevel;
+			} else if (*p == '\\' && p + 1 < pend) {
+				++p;
+			}
+
+		} else if (*p == '"') {
 
 			quoted = !quoted;
 
-- 
2.43.0


From 2154fc14251a07debe19e52cf4298a877cf7f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:50 +0000
Subject: [PATCH 124/143] fix: only the first colon separates the name of a
 header field from its value

---
 src/vmime/headerField.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 7a66a1e..a791c32 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -174,9 +174,7 @@ shared_ptr <headerField> headerField::parseNext(
 				);
 
 				// Skip ':' character
-				while (pos < end && buffer[pos] == ':') {
-					++pos;
-				}
+				++pos;
 
 				// Skip spaces between ':' and the field contents
 				while (pos < end && (buffer[pos] == ' ' || buffer[pos] == '\t')) {
-- 
2.43.0


From f8f8397e30ea22adc5ed9602cafe3aab9f0f58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:56 +0000
Subject: [PATCH 125/143] fix: a message whose only part is a text of an
 unknown type can be parsed

---
 src/vmime/messageParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index d7dd592..37874cb 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -151,10 +151,17 @@ void messageParser::findTextParts(
 
 		if (accept) {
 
-			shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
-			txtPart->parse(msg, msg, msg);
+			try {
+
+				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
+				txtPart->parse(msg, msg, msg);
+
+				m_textParts.push_back(txtPart);
 
-			m_textParts.push_back(txtPart);
+			} catch (exceptions::no_factory_available& e) {
+
+				// Content-type not recognized.
+			}
 		}
 
 	// Multipart message
-- 
2.43.0


From f92ab2c103ff238a4358d3a86a9df13968ec23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 126/143] fix: an attachment without Content-Type is not a text
 of the message

---
 src/vmime/messageParser.cpp | 51 +++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index 37874cb..d3302db 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -191,41 +191,32 @@ bool messageParser::findSubTextParts(
 		shared_ptr <const contentTypeField> ctf =
 			p->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
 
-		if (ctf) {
+		// If there is no "Content-type" field, RFC2045 section 5.2
+		// assumes this is TEXT/PLAIN
+		mediaType type(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN);
 
-			const mediaType type = *ctf->getValue <mediaType>();
-			contentDisposition disp; // default should be inline
+		if (ctf) {
+			type = *ctf->getValue <mediaType>();
+		}
 
-			if (type.getType() == mediaTypes::TEXT) {
+		contentDisposition disp; // default should be inline
 
-				shared_ptr <const contentDispositionField> cdf = p->getHeader()->
-					findField <contentDispositionField>(fields::CONTENT_DISPOSITION);
+		if (type.getType() == mediaTypes::TEXT) {
 
-				if (cdf) {
+			shared_ptr <const contentDispositionField> cdf = p->getHeader()->
+				findField <contentDispositionField>(fields::CONTENT_DISPOSITION);
 
-					disp = *cdf->getValue <contentDisposition>();
+			if (cdf) {
 
-				} else {
+				disp = *cdf->getValue <contentDisposition>();
 
-					// No "Content-Disposition" field, assume default
-				}
+			} else {
 
-				if (disp.getName() == contentDispositionTypes::INLINE) {
-					textParts.push_back(p);
-				}
+				// No "Content-Disposition" field, assume default
 			}
 
-		} else {
-
-			// No "Content-type" field. RFC2045 section 5.2 assumes this is TEXT/PLAIN
-			try {
-				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(mediaType(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN));
-				txtPart->parse(msg, part, p);
-
-				m_textParts.push_back(txtPart);
-			}
-			catch (exceptions::no_factory_available& e) {
-				// Content-type not recognized.
+			if (disp.getName() == contentDispositionTypes::INLINE) {
+				textParts.push_back(p);
 			}
 		}
 	}
@@ -236,10 +227,14 @@ bool messageParser::findSubTextParts(
 		for (std::vector <shared_ptr <const bodyPart> >::const_iterator p = textParts.begin() ;
 		     p != textParts.end() ; ++p) {
 
-			const contentTypeField& ctf =
-				*(*p)->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+			shared_ptr <const contentTypeField> ctf =
+				(*p)->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+
+			mediaType type(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN);
 
-			const mediaType type = *ctf.getValue <mediaType>();
+			if (ctf) {
+				type = *ctf->getValue <mediaType>();
+			}
 
 			try {
 
-- 
2.43.0


From a4cb82ccf8f7e6a569e5909c4b0e7a4d173383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 127/143] fix: a part with an empty Content-Id or
 Content-Location is not referenced by every HTML part

---
 src/vmime/htmlTextPart.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/htmlTextPart.cpp b/src/vmime/htmlTextPart.cpp
index a30023c..316dfb4 100644
--- a/src/vmime/htmlTextPart.cpp
+++ b/src/vmime/htmlTextPart.cpp
@@ -247,8 +247,9 @@ void htmlTextPart::parse(
 
 		const messageId mid = *midField->getValue <messageId>();
 
-		if (data.find("CID:" + mid.getId()) != string::npos ||
-		    data.find("cid:" + mid.getId()) != string::npos) {
+		if (!mid.getId().empty() &&
+		    (data.find("CID:" + mid.getId()) != string::npos ||
+		     data.find("cid:" + mid.getId()) != string::npos)) {
 
 			// This part is referenced in the HTML text.
 			// Add it to the embedded object list.
@@ -265,7 +266,7 @@ void htmlTextPart::parse(
 		const text loc = *locField->getValue <text>();
 		const string locStr = loc.getWholeBuffer();
 
-		if (data.find(locStr) != string::npos) {
+		if (!locStr.empty() && data.find(locStr) != string::npos) {
 
 			// This part is referenced in the HTML text.
 			// Add it to the embedded object list.
-- 
2.43.0


From e9971571de5b5d006489382ce21f9bd043dc5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 128/143] fix: resetting the importance removes all the fields

---
 src/vmime/misc/importanceHelper.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/vmime/misc/importanceHelper.cpp b/src/vmime/misc/importanceHelper.cpp
index 20c8e13..ecbac0c 100644
--- a/src/vmime/misc/importanceHelper.cpp
+++ b/src/vmime/misc/importanceHelper.cpp
@@ -39,13 +39,8 @@ void importanceHelper::resetImportance(const shared_ptr <message>& msg) {
 
 void importanceHelper::resetImportanceHeader(const shared_ptr <header>& hdr) {
 
-	shared_ptr <headerField> fld;
-
-	if ((fld = hdr->findField("X-Priority")))
-		hdr->removeField(fld);
-
-	if ((fld = hdr->findField("Importance")))
-		hdr->removeField(fld);
+	hdr->removeAllFields("X-Priority");
+	hdr->removeAllFields("Importance");
 }
 
 
-- 
2.43.0


From 931ec3050e35d8342c30c60efac683345060d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:03 +0000
Subject: [PATCH 129/143] fix: the plain text of a HTML part is searched in the
 nearest multipart/alternative

---
 src/vmime/htmlTextPart.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vmime/htmlTextPart.cpp b/src/vmime/htmlTextPart.cpp
index 316dfb4..f46bb81 100644
--- a/src/vmime/htmlTextPart.cpp
+++ b/src/vmime/htmlTextPart.cpp
@@ -288,7 +288,14 @@ bool htmlTextPart::findPlainTextPart(
 	const bodyPart& textPart
 ) {
 
-	// We search for the nearest "multipart/alternative" part.
+	// We search for the nearest "multipart/alternative" part: sub-parts first.
+	for (size_t i = 0 ; i < part.getBody()->getPartCount() ; ++i) {
+
+		if (findPlainTextPart(*part.getBody()->getPartAt(i), parent, textPart)) {
+			return true;
+		}
+	}
+
 	const shared_ptr <const headerField> ctf =
 		part.getHeader()->findField(fields::CONTENT_TYPE);
 
@@ -353,14 +360,7 @@ bool htmlTextPart::findPlainTextPart(
 		// No "Content-type" field.
 	}
 
-	bool found = false;
-
-	for (size_t i = 0 ; !found && i < part.getBody()->getPartCount() ; ++i) {
-
-		found = findPlainTextPart(*part.getBody()->getPartAt(i), parent, textPart);
-	}
-
-	return found;
+	return false;
 }
 
 
-- 
2.43.0


From 30bf95ece099968f39079506afabca68f35af1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 130/143] fix: comments in the fields with parameters are not
 part of their values

---
 src/vmime/parameterizedHeaderField.cpp | 94 ++++++++++++++++++--------
 src/vmime/parserHelpers.hpp            | 57 ++++++++++++++++
 2 files changed, 122 insertions(+), 29 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 18d715d..7e1cf5f 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -89,18 +89,40 @@ void parameterizedHeaderField::parseImpl(
 	const char* const pstart = buffer.data() + position;
 	const char* p = pstart;
 
-	// Skip non-significant whitespaces
-	size_t valueStart = position;
+	// Position of the character at or after 'p' which is neither
+	// white space nor part of a comment
+	bool allowComments = true;
 
-	while (p < pend && parserHelpers::isSpace(*p)) {
-		++p;
-		++valueStart;
-	}
+	const auto skipSpacesAndComments = [&](const char* p) {
+
+		if (allowComments) {
+
+			p = pstart + (
+				parserHelpers::skipSpacesAndComments(buffer, position + (p - pstart), end) - position
+			);
+
+			// A comment which does not end is not a comment
+			if (p < pend && *p == '(') {
+				allowComments = false;
+			}
+
+		} else {
+
+			while (p < pend && parserHelpers::isSpace(*p)) ++p;
+		}
+
+		return p;
+	};
+
+	// Skip non-significant whitespaces and comments
+	p = skipSpacesAndComments(p);
+
+	const size_t valueStart = position + (p - pstart);
 
 	// Advance up to ';', if any
 	size_t valueLength = 0;
 
-	while (p < pend && *p != ';' && (!parserHelpers::isSpace(*p))) {  // FIXME: support ";" inside quoted or RFC-2047-encoded text
+	while (p < pend && *p != ';' && skipSpacesAndComments(p) == p) {  // FIXME: support ";" inside quoted or RFC-2047-encoded text
 
 		++p;
 		++valueLength;
@@ -122,24 +144,40 @@ void parameterizedHeaderField::parseImpl(
 
 		std::map <string, paramInfo> params;
 
-		if (*p != ';') {
+		// Advance up to the next ';', wherever it is not part of a comment
+		const auto skipToSeparator = [pend, &skipSpacesAndComments](const char* p) {
 
-			while (p < pend && *p != ';') {  // FIXME: support ";" inside quoted or RFC-2047-encoded text
-				++p;
+			while (p < pend && *p != ';') {
+
+				const char* const q = skipSpacesAndComments(p);
+				p = (q != p ? q : p + 1);
 			}
-		}
+
+			return p;
+		};
+
+		p = skipToSeparator(p);  // FIXME: support ";" inside quoted or RFC-2047-encoded text
 
 		while (p < pend && *p == ';') {
 
 			// Skip ';'
 			++p;
 
-			while (p < pend && parserHelpers::isSpace(*p)) ++p;
+			p = skipSpacesAndComments(p);
 
 			const size_t attrStart = position + (p - pstart);
+			size_t attrEnd = attrStart;
 
 			while (p < pend && !(*p == ';' || *p == '=')) {
-				++p;
+
+				const char* const q = skipSpacesAndComments(p);
+
+				if (q != p) {
+					p = q;
+				} else {
+					++p;
+					attrEnd = position + (p - pstart);
+				}
 			}
 
 			if (p >= pend || *p == ';') {
@@ -152,18 +190,11 @@ void parameterizedHeaderField::parseImpl(
 
 			} else {
 
-				// Extract the attribute name
-				size_t attrEnd = position + (p - pstart);
-
-				while (attrEnd != attrStart && parserHelpers::isSpace(buffer[attrEnd - 1])) {
-					--attrEnd;
-				}
-
 				// Skip '='
 				++p;
 
-				// Skip white-spaces between '=' and the value
-				while (p < pend && parserHelpers::isSpace(*p)) ++p;
+				// Skip white-spaces and comments between '=' and the value
+				p = skipSpacesAndComments(p);
 
 				// Extract the value
 				string value;
@@ -232,16 +263,21 @@ void parameterizedHeaderField::parseImpl(
 				// -- the value is a simple token
 				} else {
 
+					// Comments are not part of the value, unless they are followed by
+					// something else (eg. "name=file (1).txt", which should be quoted)
 					const size_t valStart = position + (p - pstart);
+					size_t valEnd = valStart;
 
 					while (p < pend && *p != ';') {
-						++p;
-					}
 
-					size_t valEnd = position + (p - pstart);
+						const char* const q = skipSpacesAndComments(p);
 
-					while (valEnd != valStart && parserHelpers::isSpace(buffer[valEnd - 1])) {
-						--valEnd;
+						if (q != p) {
+							p = q;
+						} else {
+							++p;
+							valEnd = position + (p - pstart);
+						}
 					}
 
 					value = string(
@@ -346,8 +382,8 @@ void parameterizedHeaderField::parseImpl(
 					}
 				}
 
-				// Skip white-spaces after this parameter
-				while (p < pend && parserHelpers::isSpace(*p)) ++p;
+				// Skip everything up to the next parameter
+				p = skipToSeparator(p);
 			}
 		}
 
diff --git a/src/vmime/parserHelpers.hpp b/src/vmime/parserHelpers.hpp
index f150a35..f771afb 100644
--- a/src/vmime/parserHelpers.hpp
+++ b/src/vmime/parserHelpers.hpp
@@ -94,6 +94,63 @@ public:
 	}
 
 
+	/** Skips the white space and the comments (RFC-5322, section 3.2.2)
+	  * at a position. A comment which does not end is not skipped.
+	  *
+	  * @param buffer buffer
+	  * @param currentPos position of the first character
+	  * @param end end of the region to consider in the buffer
+	  * @return position of the first character which is neither white
+	  * space nor part of a comment, or end if there is no such character
+	  */
+	static size_t skipSpacesAndComments(
+		const string& buffer,
+		const size_t currentPos,
+		const size_t end
+	) {
+
+		size_t pos = currentPos;
+
+		while (pos < end) {
+
+			if (isSpace(buffer[pos])) {
+
+				++pos;
+
+			} else if (buffer[pos] == '(') {
+
+				size_t commentEnd = pos;
+				size_t level = 0;
+
+				do {
+
+					switch (buffer[commentEnd]) {
+
+						case '(': ++level; break;
+						case ')': --level; break;
+						case '\\': ++commentEnd; break;
+					}
+
+					++commentEnd;
+
+				} while (level != 0 && commentEnd < end);
+
+				if (level != 0) {
+					break;
+				}
+
+				pos = commentEnd;
+
+			} else {
+
+				break;
+			}
+		}
+
+		return pos;
+	}
+
+
 	/** Finds the next EOL sequence in the specified buffer.
 	  * An EOL sequence may be a CR+LF sequence, or a LF sequence.
 	  *
-- 
2.43.0


From f93c059fe1444c39274806db2d1af85ec56e134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 131/143] fix: comments around a transfer encoding are not part
 of its name

---
 src/vmime/encoding.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bcca587..2d64d45 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -23,6 +23,7 @@
 
 #include "vmime/encoding.hpp"
 #include "vmime/contentHandler.hpp"
+#include "vmime/parserHelpers.hpp"
 
 #include "vmime/utility/outputStreamStringAdapter.hpp"
 #include "vmime/utility/encoder/encoderFactory.hpp"
@@ -71,12 +72,32 @@ void encoding::parseImpl(
 
 	m_usage = USAGE_UNKNOWN;
 
+	// White space and comments around the name are not part of it
+	const size_t nameStart = parserHelpers::skipSpacesAndComments(buffer, position, end);
+	size_t nameEnd = nameStart;
+
+	for (size_t pos = nameStart ; pos < end ; ) {
+
+		const size_t next = parserHelpers::skipSpacesAndComments(buffer, pos, end);
+
+		if (next < end && buffer[next] == '(') {
+
+			// This is not a comment, as it does not end
+			nameEnd = end;
+			break;
+		}
+
+		if (next != pos) {
+			pos = next;
+		} else {
+			nameEnd = ++pos;
+		}
+	}
+
 	m_name = utility::stringUtils::toLower(
 		utility::stringUtils::trim(
 			utility::stringUtils::unquote(
-				utility::stringUtils::trim(
-					string(buffer.begin() + position, buffer.begin() + end)
-				)
+				string(buffer.begin() + nameStart, buffer.begin() + nameEnd)
 			)
 		)
 	);
-- 
2.43.0


From 4ab3d5a33c7abca4b1b9bcaef0eb5142dc550197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 132/143] fix: comments in a date are not part of it

---
 src/vmime/dateTime.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 0ff05a2..6da1efe 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -90,8 +90,27 @@ void datetime::parseImpl(
 	size_t* newPosition
 ) {
 
-	const char* const pend = buffer.data() + end;
-	const char* p = buffer.data() + position;
+	// Comments are read as white space
+	string contents;
+
+	for (size_t pos = position ; pos < end ; ) {
+
+		const size_t next = (buffer[pos] == '(')
+			? parserHelpers::skipSpacesAndComments(buffer, pos, end) : pos + 1;
+
+		if (next == pos) {
+
+			// This is not a comment, as it does not end
+			contents.append(buffer, pos, end - pos);
+			break;
+		}
+
+		contents += (buffer[pos] == '(') ? ' ' : buffer[pos];
+		pos = next;
+	}
+
+	const char* const pend = contents.data() + contents.length();
+	const char* p = contents.data();
 
 	// Fields which are not specified
 	m_year = 1970;
-- 
2.43.0


From cf5d464a190310b772c8906abc10a52e3d8b7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 133/143] fix: two-digit years from 50 to 69 are in the 20th
 century

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 6da1efe..510fe1e 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -326,7 +326,7 @@ void datetime::parseImpl(
 					++p;
 				} while (p < pend && parserHelpers::isDigit(*p));
 
-				if (year < 70)         m_year = year + 2000;
+				if (year < 50)         m_year = year + 2000;
 				else if (year < 1000)  m_year = year + 1900;
 				else                   m_year = year;
 
-- 
2.43.0


From d177925bc786dff2af1f176d8bec53cdcd82fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:07 +0000
Subject: [PATCH 134/143] fix: sections of a parameter whose names differ in
 case belong together

---
 src/vmime/parameterizedHeaderField.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 7e1cf5f..bf81b44 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -24,6 +24,7 @@
 #include "vmime/parameterizedHeaderField.hpp"
 #include "vmime/text.hpp"
 #include "vmime/parserHelpers.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -74,6 +75,15 @@ struct paramInfo {
 	size_t end;
 };
 
+// The names of the parameters are not case-sensitive
+struct paramNameLess {
+
+	bool operator()(const string& a, const string& b) const {
+
+		return utility::stringUtils::toLower(a) < utility::stringUtils::toLower(b);
+	}
+};
+
 #endif // VMIME_BUILDING_DOC
 
 
@@ -142,7 +152,7 @@ void parameterizedHeaderField::parseImpl(
 	// If there is one or more parameters following...
 	if (p < pend) {
 
-		std::map <string, paramInfo> params;
+		std::map <string, paramInfo, paramNameLess> params;
 
 		// Advance up to the next ';', wherever it is not part of a comment
 		const auto skipToSeparator = [pend, &skipSpacesAndComments](const char* p) {
@@ -328,7 +338,7 @@ void parameterizedHeaderField::parseImpl(
 					}
 
 					// Add/replace/modify the parameter
-					const std::map <string, paramInfo>::iterator it = params.find(name);
+					const std::map <string, paramInfo, paramNameLess>::iterator it = params.find(name);
 
 					if (it != params.end()) {
 
@@ -378,7 +388,7 @@ void parameterizedHeaderField::parseImpl(
 						info.end = position + (p - pstart);
 
 						// Insert a new parameter
-						params.insert(std::map <string, paramInfo>::value_type(name, info));
+						params.insert(std::map <string, paramInfo, paramNameLess>::value_type(name, info));
 					}
 				}
 
@@ -387,7 +397,7 @@ void parameterizedHeaderField::parseImpl(
 			}
 		}
 
-		for (std::map <string, paramInfo>::const_iterator it = params.begin() ;
+		for (std::map <string, paramInfo, paramNameLess>::const_iterator it = params.begin() ;
 		     it != params.end() ; ++it) {
 
 			const paramInfo& info = (*it).second;
-- 
2.43.0


From 17536ffa478fbcb20bb96da82984ef9b0a4ea27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:01 +0000
Subject: [PATCH 135/143] fix: comments between message identifiers are not
 message identifiers

---
 src/vmime/messageId.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 11e46d5..2a74cb4 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -166,22 +166,37 @@ shared_ptr <messageId> messageId::parseNext(
 	size_t* newPosition
 ) {
 
-	size_t pos = position;
+	size_t pos = parserHelpers::skipSpacesAndComments(buffer, position, end);
 
-	while (pos < end && parserHelpers::isSpace(buffer[pos])) {
-		++pos;
-	}
-
-	if (pos != end) {
+	// A comment which does not end extends to the end of the buffer
+	if (pos < end && buffer[pos] != '(') {
 
 		const size_t begin = pos;
 
-		while (pos < end && !parserHelpers::isSpace(buffer[pos])) {
+		while (pos < end && !parserHelpers::isSpace(buffer[pos]) &&
+		       !(buffer[begin] == '<' && buffer[pos] == '>')) {
+
 			++pos;
 		}
 
 		shared_ptr <messageId> mid = make_shared <messageId>();
-		mid->parse(ctx, buffer, begin, pos, NULL);
+
+		if (pos < end && buffer[pos] == '>') {
+
+			++pos;
+			mid->parse(ctx, buffer, begin, pos, NULL);
+
+			// Skip everything up to the next message identifier
+			while (pos < end && !parserHelpers::isSpace(buffer[pos]) &&
+			       buffer[pos] != '<' && buffer[pos] != '(') {
+
+				++pos;
+			}
+
+		} else {
+
+			mid->parse(ctx, buffer, begin, pos, NULL);
+		}
 
 		if (newPosition) {
 			*newPosition = pos;
-- 
2.43.0


From d9109438295a13692c599a170da98ccfdfab3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:30 +0000
Subject: [PATCH 136/143] fix: comments before a path are not part of it

---
 src/vmime/path.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index 049def9..bb9ffb0 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -122,11 +122,7 @@ void path::parseImpl(
 	size_t* newPosition
 ) {
 
-	size_t pos = position;
-
-	while (pos < end && parserHelpers::isSpace(buffer[pos])) {
-		++pos;
-	}
+	size_t pos = parserHelpers::skipSpacesAndComments(buffer, position, end);
 
 	string addrSpec;
 
-- 
2.43.0


From 1ad69dfb1ef68ab86b33ce6a1b102a1e3fae1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:16 +0000
Subject: [PATCH 137/143] fix: do not crash on a NOOP after a POP3 login has
 failed

---
 src/vmime/net/pop3/POP3Store.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index 6c0eb78..dc2911c 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -209,7 +209,7 @@ void POP3Store::disconnect() {
 
 void POP3Store::noop() {
 
-	if (!m_connection) {
+	if (!isConnected()) {
 		throw exceptions::not_connected();
 	}
 
-- 
2.43.0


From 881ac231eeeb897c5180f0bf33dc80d6c435f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:40 +0000
Subject: [PATCH 138/143] fix: find the APOP timestamp wherever it is in the
 greeting, and only there

---
 src/vmime/net/pop3/POP3Connection.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 4f560b0..d9e1ab9 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -192,7 +192,20 @@ void POP3Connection::connect() {
 #endif // VMIME_HAVE_TLS_SUPPORT
 
 	// Start authentication process
-	authenticate(messageId(response->getText()));
+	//
+	// The APOP timestamp, if any, is enclosed in angle brackets, and can be
+	// anywhere in the greeting (RFC-1939, 7)
+	const string greeting = response->getText();
+	const size_t begin = greeting.find('<');
+	const size_t end = greeting.find('>', begin);
+
+	messageId randomMID;
+
+	if (begin != string::npos && end != string::npos) {
+		randomMID = messageId(string(greeting, begin, end - begin + 1));
+	}
+
+	authenticate(randomMID);
 }
 
 
-- 
2.43.0


From db26ffa8ddcf16d9c2f5f7e3118f780f19fc5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:40 +0000
Subject: [PATCH 139/143] fix: close the SMTP connection when there is no way
 to authenticate

---
 src/vmime/net/smtp/SMTPConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index f91c23f..e226dd9 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -369,6 +369,7 @@ void SMTPConnection::authenticate() {
 #endif // VMIME_HAVE_SASL_SUPPORT
 
 	// No other authentication method is possible
+	internalDisconnect();
 	throw exceptions::authentication_error("All authentication methods failed");
 }
 
-- 
2.43.0


From ff8da057ddbf5517ec7ff5ea997b1b58114be240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:40 +0000
Subject: [PATCH 140/143] fix: do not send the password to an IMAP server which
 says LOGIN is disabled

---
 src/vmime/net/imap/IMAPConnection.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 6fa87f0..8718982 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -298,6 +298,15 @@ void IMAPConnection::authenticate() {
 #endif // VMIME_HAVE_SASL_SUPPORT
 
 	// Normal authentication
+	//
+	// " A client implementation MUST NOT send a LOGIN command if the
+	//   LOGINDISABLED capability is advertised. " (RFC-3501, 6.2.3)
+	if (hasCapability("LOGINDISABLED")) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("LOGIN is disabled by the server.");
+	}
+
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
 
-- 
2.43.0


From cff31eedb21ee723e5374167642fa784007fab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:35 +0000
Subject: [PATCH 141/143] fix: forget IMAP capabilities after SASL login with
 an initial response

---
 src/vmime/net/imap/IMAPConnection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 8718982..2603098 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -443,6 +443,10 @@ void IMAPConnection::authenticateSASL() {
 			    	status == IMAPParser::resp_cond_state::OK) {
 
 				setSocket(saslSession->getSecuredSocket(m_socket));
+
+				// Server capabilities may change when logged in
+				invalidateCapabilities();
+
 				return;
 
 			} else {
@@ -488,9 +492,6 @@ void IMAPConnection::authenticateSASL() {
 						m_tracer->traceSendBytes(respB64.length() - 2, "SASL exchange");
 					}
 
-					// Server capabilities may change when logged in
-					invalidateCapabilities();
-
 				} catch (exceptions::sasl_exception& e) {
 
 					if (challenge) {
-- 
2.43.0


From 8260f92041f0c6ff1318766f08c7c42eb0f1552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:35 +0000
Subject: [PATCH 142/143] fix: log in when only custom SASL mechanisms are
 offered

---
 src/vmime/security/sasl/SASLContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/sasl/SASLContext.cpp b/src/vmime/security/sasl/SASLContext.cpp
index 9689e2c..e4fb5a8 100644
--- a/src/vmime/security/sasl/SASLContext.cpp
+++ b/src/vmime/security/sasl/SASLContext.cpp
@@ -116,7 +116,8 @@ shared_ptr <SASLMechanism> SASLContext::suggestMechanism(
 		}
 	}
 
-	return null;
+	// None is known to the SASL library (eg. custom mechanisms only)
+	return mechs[0];
 }
 
 
-- 
2.43.0


From 6d00e4bcb7311134cfd4bf3e0884f53d5bb76285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:46 +0000
Subject: [PATCH 143/143] fix: copy all the settings of a parsing or generation
 context

---
 src/vmime/context.cpp           |  3 ++-
 src/vmime/generationContext.cpp |  1 +
 src/vmime/parsingContext.cpp    | 21 ++++++++++++++++++++-
 src/vmime/parsingContext.hpp    |  3 +++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/vmime/context.cpp b/src/vmime/context.cpp
index 3fc4941..e9045e1 100644
--- a/src/vmime/context.cpp
+++ b/src/vmime/context.cpp
@@ -35,7 +35,8 @@ context::context()
 
 context::context(const context& ctx)
 	: object(),
-	  m_internationalizedEmail(ctx.m_internationalizedEmail) {
+	  m_internationalizedEmail(ctx.m_internationalizedEmail),
+	  m_charsetConvOptions(ctx.m_charsetConvOptions) {
 
 }
 
diff --git a/src/vmime/generationContext.cpp b/src/vmime/generationContext.cpp
index 24757c7..514c782 100644
--- a/src/vmime/generationContext.cpp
+++ b/src/vmime/generationContext.cpp
@@ -132,6 +132,7 @@ void generationContext::copyFrom(const generationContext& ctx) {
 	m_maxLineLength = ctx.m_maxLineLength;
 	m_prologText = ctx.m_prologText;
 	m_epilogText = ctx.m_epilogText;
+	m_wrapMessageId = ctx.m_wrapMessageId;
 	m_paramValueMode = ctx.m_paramValueMode;
 }
 
diff --git a/src/vmime/parsingContext.cpp b/src/vmime/parsingContext.cpp
index e80eab7..a4ec5af 100644
--- a/src/vmime/parsingContext.cpp
+++ b/src/vmime/parsingContext.cpp
@@ -35,11 +35,30 @@ parsingContext::parsingContext()
 
 parsingContext::parsingContext(const parsingContext& ctx)
 	: context(ctx),
-	  m_headerParseErrorRecovery(vmime::headerParseRecoveryMethod::SKIP_LINE) {
+	  m_headerParseErrorRecovery(ctx.m_headerParseErrorRecovery),
+	  m_headerParseRecoveryNeeded(ctx.m_headerParseRecoveryNeeded),
+	  m_useMyHostname(ctx.m_useMyHostname) {
 
 }
 
 
+parsingContext& parsingContext::operator=(const parsingContext& ctx) {
+
+	copyFrom(ctx);
+	return *this;
+}
+
+
+void parsingContext::copyFrom(const parsingContext& ctx) {
+
+	context::copyFrom(ctx);
+
+	m_headerParseErrorRecovery = ctx.m_headerParseErrorRecovery;
+	m_headerParseRecoveryNeeded = ctx.m_headerParseRecoveryNeeded;
+	m_useMyHostname = ctx.m_useMyHostname;
+}
+
+
 parsingContext& parsingContext::getDefaultContext() {
 
 	static thread_local parsingContext ctx;
diff --git a/src/vmime/parsingContext.hpp b/src/vmime/parsingContext.hpp
index 95c5195..b387621 100644
--- a/src/vmime/parsingContext.hpp
+++ b/src/vmime/parsingContext.hpp
@@ -58,6 +58,9 @@ public:
 	parsingContext();
 	parsingContext(const parsingContext& ctx);
 
+	parsingContext& operator=(const parsingContext& ctx);
+	void copyFrom(const parsingContext& ctx);
+
 	/** Returns the default context used for parsing messages. The context
 	  * is scoped as a thread local variable.
 	  *
-- 
2.43.0

