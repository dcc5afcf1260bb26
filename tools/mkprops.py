#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Content transfer encodings are lossless",
 "For every byte string, encoding it with any of the library's content transfer encodings that can carry it (base64 and quoted-printable in text and binary mode, uuencode, 7bit, 8bit and binary for data those can represent) and decoding the result gives back exactly the original bytes, whatever maximum line length is configured. The byte counts returned by encode and decode calls describe the data truthfully.",
 ["inputs","configurations"],"all byte strings (text and binary), all encoders, all line-length and text/binary/RFC 2047 option settings",
 "encoder tests compare a handful of fixed strings at one or two line lengths; padding, soft-break and block-edge combinations are unbounded",
 ["src/vmime/utility/encoder/b64Encoder.cpp","src/vmime/utility/encoder/qpEncoder.cpp","src/vmime/utility/encoder/uuEncoder.cpp","src/vmime/utility/encoder/sevenBitEncoder.cpp","src/vmime/utility/encoder/noopEncoder.cpp"],
 [("block/line state machines in encode() and decode()","src/vmime/utility/encoder/*.cpp")],["encoder::encode","encoder::decode"])
p("C02","Encoded output conforms to its transfer encoding",
 "Whatever the input bytes, the output of an encoder never exceeds the configured maximum line length (quoted-printable may run over a configured maximum below 76 by at most two bytes, so that an escape stays whole; the maximum of uuencode counts the data bytes per line), uses only the bytes its encoding allows (base64 alphabet and padding, printable quoted-printable with valid =XX escapes and no trailing white space or bare line breaks, 7-bit only where required), and its length never exceeds the size announced in advance for an input of that length. The encoding chosen automatically for some content is always one that can represent that content.",
 ["inputs","configurations"],"all byte strings, all line lengths, all encoders; all contents given to the automatic choice of an encoding",
 "tests check sample outputs; the line-length, alphabet and size bounds are universal statements over inputs and option values",
 ["src/vmime/utility/encoder/b64Encoder.cpp","src/vmime/utility/encoder/qpEncoder.cpp","src/vmime/utility/encoder/uuEncoder.cpp","src/vmime/encoding.cpp"],
 [("line breaking, escaping tables, getEncodedSize","src/vmime/utility/encoder/*.cpp"),("encoding::decide","src/vmime/encoding.cpp")],["encoder::encode","encoder::getEncodedSize","encoding::decide"])
p("C03","Stream processing does not depend on how data is chunked",
 "Every streaming component (encoders and decoders, line-ending and dot filters, stop-sequence filter, region, string, pointer and byte-array adapters, stream copies) produces a total output that depends only on the total input bytes, never on how reads or writes happen to be split into pieces, nor on sources that return short reads. What each filter produces for the whole input is what its documentation says: dot-stuffing and its inverse, CRLF to LF, bare CR or LF to CRLF, data up to the stop sequence, the given region.",
 ["inputs","schedules"],"all inputs and all partitions of them into reads and writes",
 "tests use a few hand-picked chunkings; the number of partitions is exponential and the state carried across a boundary is what breaks",
 ["src/vmime/utility/filteredStream.cpp","src/vmime/utility/filteredStream.hpp","src/vmime/utility/seekableInputStreamRegionAdapter.cpp","src/vmime/utility/streamUtils.cpp","src/vmime/utility/encoder/b64Encoder.cpp","src/vmime/utility/encoder/qpEncoder.cpp","src/vmime/utility/encoder/uuEncoder.cpp"],
 [("carry-over state between calls","src/vmime/utility/filteredStream.cpp")],["inputStream::read","outputStream::write"])
p("C04","Charset conversion is exact and independent of buffering",
 "Converting text between charsets yields exactly the characters of the source text: converting valid text to a charset that can represent it and back is the identity, the result is the same through the string, stream and filtered-stream interfaces however the data is chunked, and the reported byte counts match. Malformed or unrepresentable input is either replaced by the configured replacement or reported as an error according to the options, and never silently drops the valid text around it.",
 ["inputs","schedules","configurations"],"all Unicode strings, charset pairs, chunkings of the input and option settings",
 "tests convert fixed samples; multi-byte sequences straddling internal buffers occur only at specific offsets",
 ["src/vmime/charsetConverter_icu.cpp","src/vmime/charsetConverter.cpp","src/vmime/charset.cpp"],
 [("conversion loops with flush flag","src/vmime/charsetConverter_icu.cpp")],["charset::convert","charsetConverter::getFilteredOutputStream"])
p("C05","E-mail addresses survive generation and parsing",
 "A local part and domain stored in an e-mail address come back equal after generating the address and parsing the result, including quoted local parts, non-ASCII domains (IDN) and non-ASCII local parts, with and without internationalized-mail support. The ASCII form produced without internationalization support contains only ASCII, and IDN encoding and decoding of a domain are inverse to each other label by label.",
 ["inputs","configurations"],"all local parts and domains over the allowed characters, both internationalization modes",
 "tests contain a list of addresses; quoting, dots and Punycode interact per character",
 ["src/vmime/emailAddress.cpp","src/vmime/charsetConverter_idna.cpp","contrib/punycode/punycode.c"],
 [("emailAddress::parseImpl state machine and generateImpl","src/vmime/emailAddress.cpp"),("IDNA converter","src/vmime/charsetConverter_idna.cpp")],["emailAddress::parse","emailAddress::generate"])
p("C06","Header text survives RFC 2047 encoding",
 "Any text assigned to a header value as words with a charset, when generated and decoded again, yields the same characters in the same order (white space at the very start and end of the value apart), whatever mix of ASCII and non-ASCII words, spaces, '=?' sequences, and whatever the line folding. Each encoded-word produced is at most 75 characters long, decodes on its own to whole characters, and when several are produced the white space between them adds nothing to the decoded text.",
 ["inputs","configurations"],"all word sequences, charsets, header offsets and line lengths",
 "tests check fixed phrases; interactions between folding position, word boundaries and multi-byte characters are combinatorial",
 ["src/vmime/word.cpp","src/vmime/wordEncoder.cpp","src/vmime/text.cpp"],
 [("word::generate / wordEncoder::getNextChunk","src/vmime/word.cpp"),("text::parseAndUnfold","src/vmime/text.cpp")],["text::generate","text::decodeAndUnfold","text::encodeAndFold"])
p("C07","Values cannot inject header lines",
 "No string stored through the API as the content of a header field (unstructured text, mailbox and group names, addresses, parameter values, message identifiers, media types) can, when the message is generated, create an additional header field, end the header early or change the value of another field: parsing the generated message gives exactly the field names that were set, in order, followed by the body that was set.",
 ["inputs"],"all strings, in particular those with CR, LF and NUL, in every field value kind",
 "tests never store hostile values; the guarantee is a universal statement over strings",
 ["src/vmime/headerField.cpp","src/vmime/text.cpp","src/vmime/word.cpp","src/vmime/mailbox.cpp","src/vmime/parameter.cpp","src/vmime/messageId.cpp","src/vmime/mediaType.cpp"],
 [("quoting/encoding decision in generateImpl of each value type","src/vmime/word.cpp, src/vmime/parameter.cpp, src/vmime/mailbox.cpp")],["message::generate","header::parse"])
p("C08","Folding and unfolding of header fields is transparent",
 "Inserting or removing a line fold before white space in a header field does not change the parsed field name or the decoded value (a fold and the white space around it count as one space), and fields are returned in the order and with the names they had in the source. When a header is generated, no line exceeds the maximum line length unless it holds a single unbreakable token or the first section of a parameter which is split into RFC 2231 sections, the announced generated size of a field is not smaller than what is generated, and folded lines always continue with white space followed by text.",
 ["inputs","configurations"],"all field values, all fold positions, all maximum line lengths",
 "tests fold at fixed places; every fold position for every field kind cannot be listed by hand",
 ["src/vmime/headerField.cpp","src/vmime/header.cpp","src/vmime/text.cpp","src/vmime/word.cpp","src/vmime/parameterizedHeaderField.cpp"],
 [("headerField::parseNext","src/vmime/headerField.cpp"),("generationContext max line length","src/vmime/generationContext.cpp")],["header::parse","header::generate"])
p("C09","Field parameters survive generation and parsing",
 "A set of parameters with values in any charset stored on a Content-Type or Content-Disposition field reads back with the same names and values after generating and parsing the field, in every encoding mode for parameter values that is able to carry it (RFC 2231 only, both forms, RFC 2047, none for printable ASCII values that fit on the line). Long values split into sections are reassembled exactly and in order, and the main value of the field is unaffected by its parameters.",
 ["inputs","configurations"],"all parameter names and values (length, specials, quotes, backslashes, non-ASCII), all encoding modes and line lengths",
 "tests have a few fixed parameters; section splitting depends on exact lengths and encoded widths",
 ["src/vmime/parameter.cpp","src/vmime/parameterizedHeaderField.cpp"],
 [("parameter::generateImpl section splitting","src/vmime/parameter.cpp"),("parameter::parse, parameterizedHeaderField::parseImpl","src/vmime/parameterizedHeaderField.cpp")],["parameterizedHeaderField::generate","parameterizedHeaderField::parse"])
p("C10","Address lists survive generation and parsing",
 "A list of mailboxes and groups with arbitrary display names reads back with the same number of entries, in the same order, with the same names, e-mail addresses and group membership after generating and parsing it. Display names containing commas, colons, semicolons, angle brackets, quotes, backslashes, parentheses or non-ASCII text never change the number or the identity of the addresses.",
 ["inputs","configurations"],"all lists of mailboxes and groups over an alphabet of special characters, all line lengths",
 "tests parse sample lists; separators in names interact with quoting, folding and group syntax",
 ["src/vmime/address.cpp","src/vmime/addressList.cpp","src/vmime/mailbox.cpp","src/vmime/mailboxGroup.cpp","src/vmime/mailboxList.cpp"],
 [("mailbox::generateImpl quoting; address::parseNext scanner","src/vmime/mailbox.cpp, src/vmime/address.cpp")],["addressList::generate","addressList::parse"])
p("C11","Dates are consistent",
 "Every valid date and time with a UTC offset is unchanged by generating it as a header value and parsing it back; day of week, day-of-month counts, leap years and week numbers agree with the Gregorian calendar and ISO 8601; conversions between local time and universal time keep the instant and are inverse to each other; comparisons order dates by instant and form a total order consistent with equality.",
 ["inputs"],"all dates in a large range of years, all UTC offsets, all pairs for comparisons",
 "tests sample a few dates; carry over day, month and year boundaries combined with offsets is a large product",
 ["src/vmime/dateTime.cpp","src/vmime/utility/datetimeUtils.cpp"],
 [("parseImpl/generateImpl","src/vmime/dateTime.cpp"),("toUniversalTime/toLocalTime/getWeekOfYear","src/vmime/utility/datetimeUtils.cpp")],["datetime::parse","datetime::generate","datetimeUtils::*","datetime::operator<"])
p("C12","Structured field values survive generation and parsing",
 "Message identifiers and lists of them, media types, content encodings and dispositions, MDN dispositions, paths, charsets and relay (Received) values compare equal to the original after generating and parsing them, and copying or assigning such a value yields an equal, independent value.",
 ["inputs"],"all values over small alphabets of tokens, all list lengths, all line lengths",
 "tests parse one or two samples per type",
 ["src/vmime/messageId.cpp","src/vmime/messageIdSequence.cpp","src/vmime/mediaType.cpp","src/vmime/encoding.cpp","src/vmime/disposition.cpp","src/vmime/contentDisposition.cpp","src/vmime/path.cpp","src/vmime/charset.cpp","src/vmime/relay.cpp"],
 [("parseImpl/generateImpl of each type","src/vmime/*.cpp")],["parse","generate","operator=="])
p("C13","A MIME tree survives generation and parsing",
 "Any message assembled through the API as a tree of parts (any nesting of multiparts, with or without prolog and epilog, empty parts, any content bytes in any transfer encoding) reads back, after being generated and parsed, with the same tree shape, the same header fields, byte-identical decoded contents, and the same prolog and epilog text (line breaks in them count as a space). The size announced for a message is never smaller than its real size. Bodies containing text that looks like boundary delimiters or header fields do not alter the structure.",
 ["inputs","programs"],"all part trees up to a size, all contents over an alphabet of boundary-like lines",
 "tests build a few fixed trees",
 ["src/vmime/body.cpp","src/vmime/bodyPart.cpp","src/vmime/header.cpp","src/vmime/message.cpp"],
 [("boundary generation and findNextBoundaryPosition","src/vmime/body.cpp")],["message::generate","message::parse"])
p("C14","Parsing is insensitive to the data source and reports true offsets",
 "Parsing a message from a string, and from any seekable stream however it splits its reads, gives the same result. After parsing, the reported offset range of every component lies within the parsed input and within the range of the component that contains it, ranges of successive parts do not overlap, and the bytes in the range of a header field or part are the source text of that very component.",
 ["inputs","schedules"],"all messages over an alphabet of structural lines, all read chunkings",
 "stream parsing is tested on few messages with one chunking; offsets are checked for two samples",
 ["src/vmime/body.cpp","src/vmime/component.cpp","src/vmime/utility/parserInputStreamAdapter.cpp","src/vmime/headerField.cpp","src/vmime/header.cpp"],
 [("setParsedBounds/offsetParsedBounds","src/vmime/component.cpp"),("parserInputStreamAdapter::findNext","src/vmime/utility/parserInputStreamAdapter.cpp")],["message::parse","component::getParsedOffset","component::getParsedLength"])
p("C15","Parsers are total and memory-safe",
 "Parsing any byte string as a message or as any individual header value type terminates, touches no memory outside the input and the objects, and either succeeds or throws a library exception; the resulting object can then be inspected, copied, generated and destroyed safely.",
 ["inputs"],"all byte strings over alphabets of structural characters up to a length, plus boundary and nesting length sweeps",
 "tests use well-formed samples and a few regression inputs",
 ["src/vmime/body.cpp","src/vmime/headerField.cpp","src/vmime/mailbox.cpp","src/vmime/address.cpp","src/vmime/dateTime.cpp","src/vmime/emailAddress.cpp","src/vmime/messageId.cpp","src/vmime/parameterizedHeaderField.cpp","src/vmime/word.cpp","src/vmime/text.cpp","src/vmime/encoding.cpp"],
 [("bounds checks in every scanner","src/vmime/*.cpp")],["component::parse"])
p("C16","Parsing depends only on the given bytes",
 "The result of parsing is a function of the bytes in the requested range only: bytes before the start or at and after the end position never influence it, and parsing into an object that already held other content gives the same result as parsing into a fresh object, for header values, fields, headers, lists, groups and whole messages.",
 ["inputs","histories"],"all pairs (earlier content, new content) and all surrounding bytes over the value samples",
 "tests parse whole strings into fresh objects",
 ["src/vmime/headerField.cpp","src/vmime/mailbox.cpp","src/vmime/mailboxGroup.cpp","src/vmime/addressList.cpp","src/vmime/dateTime.cpp","src/vmime/parameterizedHeaderField.cpp","src/vmime/body.cpp"],
 [("state cleared at the start of parseImpl","src/vmime/*.cpp")],["component::parse(ctx, buffer, position, end)"])
p("C17","Copies are deep, equal and independent",
 "Cloning, copy-assigning or copy-constructing any message component gives an object that generates the same bytes and has the same observable attributes as the original, and any later change to one of the two never shows in the other. The same holds for parsing and generation contexts with every setting, also when a context stands in for the default one for a while.",
 ["inputs","histories"],"all component kinds and states reached by short operation sequences, followed by every mutation on either copy",
 "clone tests exist for a few components in one state",
 ["src/vmime/component.hpp","src/vmime/body.cpp","src/vmime/bodyPart.cpp","src/vmime/header.cpp","src/vmime/headerField.cpp","src/vmime/parameter.cpp","src/vmime/word.cpp","src/vmime/text.cpp","src/vmime/encoding.cpp","src/vmime/contentDisposition.cpp"],
 [("clone/copyFrom","src/vmime/*.cpp")],["component::clone","component::copyFrom"])
p("C18","Collections of fields, parts and addresses behave as ordered lists",
 "Under any sequence of insertions, appends, removals, replacements and lookups, headers, parameter lists, bodies (parts), address and mailbox lists, groups, texts and message identifier sequences behave as the corresponding ordered list: same contents, same order, correct positions, lookups by name return the first matching entry, and absent elements are reported without changing the collection. Parts always know their current parent, and a part removed from a body can be added again elsewhere.",
 ["histories"],"all operation sequences up to a depth over small element domains",
 "tests run single operations from one initial state",
 ["src/vmime/header.cpp","src/vmime/body.cpp","src/vmime/bodyPart.cpp","src/vmime/addressList.cpp","src/vmime/mailboxList.cpp","src/vmime/mailboxGroup.cpp","src/vmime/parameterizedHeaderField.cpp","src/vmime/text.cpp","src/vmime/messageIdSequence.cpp"],
 [("vector/map operations and parent pointers","src/vmime/*.cpp")],["insert*/append*/remove*/get*/find*/has*/replace*"])
p("C19","A built message gives back what was put into it",
 "A message made with the message builder (any expeditor, recipients, subject, date, plain or HTML text, embedded objects and attachments) and re-read with the message parser after generation and parsing returns the same addresses, subject, texts with charset, embedded objects reachable by their identifiers, and attachments with the same names, types and bytes, in the same order. Adding attachments afterwards to an existing message keeps the content it already had.",
 ["inputs","programs","configurations"],"all combinations of builder inputs up to small counts, contents over critical byte strings",
 "tests build one or two configurations",
 ["src/vmime/messageBuilder.cpp","src/vmime/messageParser.cpp","src/vmime/htmlTextPart.cpp","src/vmime/plainTextPart.cpp","src/vmime/attachmentHelper.cpp","src/vmime/bodyPartAttachment.cpp","src/vmime/defaultAttachment.cpp","src/vmime/fileAttachment.cpp"],
 [("part assembly and discovery","src/vmime/htmlTextPart.cpp, src/vmime/attachmentHelper.cpp")],["messageBuilder::construct","messageParser"])
p("C20","Content handlers agree on their data",
 "A body content gives the same decoded bytes, the same length and the same output in any transfer encoding whether it is held in a string, read from a stream or file, or left in its original encoding, including a part of a larger string; extraction is repeatable where the handler is rewindable; and re-encoding a body never changes its decoded content.",
 ["inputs","configurations","histories"],"all contents over critical strings, all source encodings times target encodings, all handler kinds, repeated use",
 "tests check each handler on one string and a few encodings",
 ["src/vmime/stringContentHandler.cpp","src/vmime/streamContentHandler.cpp","src/vmime/fileContentHandler.cpp","src/vmime/emptyContentHandler.cpp","src/vmime/body.cpp"],
 [("generate/extract/extractRaw","src/vmime/*ContentHandler.cpp")],["contentHandler::extract","contentHandler::generate","contentHandler::getLength"])
p("C21","The SMTP client delivers exactly the message or reports failure",
 "For every server behaviour (any extensions offered, any reply codes, any fragmentation of its replies and of the data it accepts), sending a message either reports success, in which case the server received exactly the message bytes once, for exactly the given sender and recipients, and accepted all of them, or throws an exception. Commands follow the protocol order with no command lost or reordered by pipelining or chunking, and after a failed transaction the next one on the same connection is not affected by it.",
 ["fault_sequences","schedules","inputs","configurations"],"all server reply scripts and fragmentations up to a bound, extension sets, recipient counts, message contents",
 "tests use a few scripted servers with one behaviour each",
 ["src/vmime/net/smtp/SMTPTransport.cpp","src/vmime/net/smtp/SMTPConnection.cpp","src/vmime/net/smtp/SMTPResponse.cpp","src/vmime/net/smtp/SMTPCommandSet.cpp","src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp","src/vmime/net/transport.cpp"],
 [("sendEnvelope/send state machine","src/vmime/net/smtp/SMTPTransport.cpp")],["transport::send","socket traffic"])
p("C22","The POP3 client retrieves exactly what the server stores",
 "For every mailbox content and every fragmentation of the server's answers, the client lists, fetches, extracts and deletes exactly the messages the server has: sizes, identifiers and message bytes are those of the server with byte-stuffing removed and the terminator excluded. Negative replies and truncated connections lead to exceptions, never to wrong data.",
 ["fault_sequences","schedules","inputs"],"all message contents over dot/CRLF alphabets, all fragmentations up to a bound, all reply failures",
 "tests parse one unfragmented response per kind",
 ["src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/pop3/POP3Folder.cpp","src/vmime/net/pop3/POP3Message.cpp","src/vmime/net/pop3/POP3Utils.cpp"],
 [("readLargeResponse terminator detection; multi-line parsing","src/vmime/net/pop3/POP3Response.cpp")],["POP3Folder","POP3Message::extract"])
p("C23","IMAP responses are understood independently of framing",
 "The meaning extracted from IMAP server responses (greeting, capabilities, LIST, STATUS, FETCH with envelopes, body structures, flags and body data, response codes, completions) does not depend on how the bytes are split into network reads, nor on whether the server sends a string as quoted or as a literal; literals are taken byte for byte. Malformed responses raise an exception and never leave the parser reading beyond them.",
 ["schedules","inputs","fault_sequences"],"all fragmentations, all choices quoted/literal for each string, single-byte corruptions of a grammar-covering response set",
 "parser tests feed each response whole in one form",
 ["src/vmime/net/imap/IMAPParser.hpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/imap/IMAPMessagePart.cpp"],
 [("readLine/readLiteral buffering; recursive-descent components","src/vmime/net/imap/IMAPParser.hpp")],["IMAPParser::readResponse"])
p("C24","IMAP names and arguments are encoded reversibly and safely",
 "A folder path converted to an IMAP mailbox name and back is the same path, for all Unicode component names including the hierarchy separator, '&', '+' and characters outside the basic plane, with any separator; the name uses only printable ASCII and separates levels only where the path does. Quoting an argument yields exactly one syntactically valid string whose value is the argument, and sequence sets and search criteria sent to the server denote exactly the requested messages.",
 ["inputs"],"all names over an alphabet of special and non-ASCII characters, all message sets up to a size",
 "tests convert a few names",
 ["src/vmime/net/imap/IMAPUtils.cpp","src/vmime/net/imap/IMAPCommand.cpp","src/vmime/net/imap/IMAPSearchAttributes.cpp"],
 [("toModifiedUTF7/fromModifiedUTF7/quoteString/messageSetToSequenceSet","src/vmime/net/imap/IMAPUtils.cpp")],["IMAPUtils","IMAPCommand::getText"])
p("C25","An open IMAP folder tracks the server's mailbox",
 "For every sequence of unsolicited EXISTS, EXPUNGE, RECENT and FETCH FLAGS data the server interleaves with command completions, the folder's message count and the number and flags of every message object held by the application agree with the server's mailbox: after expunges every remaining message has its new number, removed ones are marked expunged, and the events delivered to listeners list exactly what changed.",
 ["histories","schedules"],"all sequences of server notifications up to a depth over small mailboxes",
 "tests do not drive notification sequences at all",
 ["src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/imap/IMAPFolderStatus.cpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/imap/IMAPConnection.cpp"],
 [("IMAPFolder::processStatusUpdate","src/vmime/net/imap/IMAPFolder.cpp")],["folder::getMessageCount","message::getNumber","messageChangedListener"])
p("C26","Message sets denote exactly the given messages",
 "A set of messages built from numbers or UIDs, singly, as ranges or as unordered lists with duplicates, enumerates exactly the given messages, each once and in increasing order for list construction, and the ranges are disjoint; copying a set gives an equal, independent set, and an empty list gives an empty set.",
 ["inputs"],"all lists of numbers or UIDs up to a length over domains including the extremes",
 "tests use a few lists",
 ["src/vmime/net/messageSet.cpp","src/vmime/net/messageSet.hpp"],
 [("range merging in byNumber/byUID","src/vmime/net/messageSet.cpp")],["messageSet::enumerate"])
p("C27","A maildir store behaves as the mailbox it represents",
 "Under any sequence of folder creation, renaming, deletion, message addition, copying, flag changes, deletion and expunging, in both supported directory layouts, the folders, messages, numbers, flags and message bytes seen by the application are those of a simple mailbox model, also when the store is reopened; every path used on disk stays inside the store directory; flags and identifiers survive in file names.",
 ["histories","inputs"],"all operation sequences up to a depth over a few folder names and messages, both layouts, with reopening at every point",
 "tests list a fixed tree and rename a folder once",
 ["src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/maildir/maildirUtils.cpp","src/vmime/net/maildir/maildirStore.cpp","src/vmime/net/maildir/format/courierMaildirFormat.cpp","src/vmime/net/maildir/format/kmailMaildirFormat.cpp","src/vmime/net/maildir/maildirMessage.cpp"],
 [("file name flags, directory layouts, rename-based updates","src/vmime/net/maildir/*")],["folder API","file system contents"])
p("C28","Maildir messages survive crashes and write failures",
 "At every point where the process may stop or a file-system call may fail while a message is being added or copied or flags are changed, messages that were already stored are still there with unchanged bytes, and a message whose addition has not completed is either completely absent or completely present to readers of the folder, never truncated.",
 ["crash_points","fault_sequences"],"all file-system call boundaries and all single call failures of each operation history",
 "tests never interrupt or fail a file-system call",
 ["src/vmime/net/maildir/maildirFolder.cpp"],
 [("write to tmp then rename into place","src/vmime/net/maildir/maildirFolder.cpp")],["file system contents after each prefix of calls"])
p("C29","Digests match their specification for any chunking",
 "The MD5 and SHA-1 digests of a message depend only on its bytes and equal the values defined by the standards, whatever way the data is split into update calls, for every length; resetting a digest makes it independent of what it was fed before, and asking for the digest again gives the same value.",
 ["inputs","histories"],"all lengths around block boundaries, all two- and three-way splits, reset and re-digest histories",
 "tests check a few vectors in one call",
 ["src/vmime/security/digest/md5/md5MessageDigest.cpp","src/vmime/security/digest/sha1/sha1MessageDigest.cpp","src/vmime/security/digest/messageDigest.cpp"],
 [("block buffering in update/finalize","src/vmime/security/digest")],["messageDigest::update","messageDigest::finalize","messageDigest::getHexDigest"])
p("C30","Certificate verification accepts only what it should",
 "The default certificate verifier accepts a chain if and only if it is ordered and each certificate is issued by the next one, is within its validity period, ends at a trusted certificate (or is itself trusted), and the leaf matches the server's host name exactly or by a single left-most wildcard label; otherwise it throws.",
 ["inputs","configurations"],"all chains up to a length over a small set of certificates (valid, expired, wrong issuer, wrong name), all host names over a label alphabet, all trust settings",
 "no test exercises chains with real certificates",
 ["src/vmime/security/cert/defaultCertificateVerifier.cpp","src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp"],
 [("verifyX509","src/vmime/security/cert/defaultCertificateVerifier.cpp")],["certificateVerifier::verify"])
p("C31","URLs survive building and parsing",
 "A URL with any protocol, user name, password, host (including IPv6), port, path and parameters reads back with the same parts after building and parsing it, and percent-encoding followed by decoding is the identity on all byte strings, producing only unreserved ASCII and %XX escapes. Text that is not a URL is rejected with an exception without changing the object.",
 ["inputs"],"all byte strings per part over an alphabet of delimiters, all combinations of present and absent parts",
 "tests use a dozen URLs",
 ["src/vmime/utility/url.cpp","src/vmime/utility/urlUtils.cpp"],
 [("url::parse/build, urlUtils::encode/decode","src/vmime/utility")],["url::build","url::parse"])
p("C32","Folder paths obey path algebra",
 "Joining, taking the parent or the last component, parent tests, renaming of a parent, comparison, and conversion to and from strings with a separator obey the laws of sequences of components for all paths; renaming a parent changes only paths that really start with that parent.",
 ["inputs","histories"],"all paths up to a depth over a small component alphabet, all pairs and triples, all separators",
 "tests check a few pairs",
 ["src/vmime/utility/path.cpp"],
 [("path operations","src/vmime/utility/path.cpp")],["utility::path"])
p("C33","SASL exchanges and secured sockets carry bytes faithfully",
 "Once a SASL security layer is active, the bytes received by the application are exactly the unwrapped payloads in order, however the length-prefixed frames are fragmented or coalesced on the wire and whatever buffer size the application uses, and every byte sent reaches the wire in complete frames in order. Challenge and response tokens of an authentication exchange are transported unchanged through base64.",
 ["schedules","inputs"],"all fragmentations of small frame sequences, all application buffer sizes",
 "tests cover one exchange without fragmentation",
 ["src/vmime/security/sasl/SASLSocket.cpp","src/vmime/security/sasl/SASLContext.cpp","src/vmime/security/sasl/SASLSession.cpp"],
 [("SASLSocket::receiveRaw pending buffers","src/vmime/security/sasl/SASLSocket.cpp")],["socket::receiveRaw","socket::sendRaw"])
p("C34","Property sets are exact typed maps",
 "A property set behaves as a case-insensitive map from names to values for any sequence of set, get, default and removal operations, textual definitions parse into the same map they describe, and values read back as the type they were stored with (booleans, numbers, strings) or raise an exception, with copies independent of the original. Session service properties are found under their documented prefix for every service.",
 ["histories","inputs"],"all operation sequences up to a depth over small name and value domains; all definition strings over the delimiter alphabet",
 "tests check single operations",
 ["src/vmime/propertySet.cpp","src/vmime/propertySet.hpp","src/vmime/net/serviceInfos.cpp"],
 [("propertySet::parse/find/valueFromString","src/vmime/propertySet.cpp")],["propertySet"])
p("C35","Network waits always honour the timeout handler",
 "While a mail protocol client waits for a server that stays silent, at any point of a connection, command, multi-line response, literal or data transfer, the client consults the timeout handler and, once the time-out elapses and the handler declines to continue, fails with a time-out exception; when the handler asks to continue, waiting goes on and a late answer completes the operation normally.",
 ["fault_sequences","schedules"],"every byte position in the server's output at which it may stall, handler answers continue/stop, for each protocol",
 "tests never stall a server",
 ["src/vmime/net/smtp/SMTPResponse.cpp","src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/imap/IMAPParser.hpp"],
 [("isTimeOut/handleTimeOut/resetTimeOut in every receive loop","src/vmime/net")],["timeoutHandler"])
p("C36","Read receipts and delivery reports refer to the right message",
 "A read receipt (MDN) built for any message that requests one is addressed to the requested address, and when generated, parsed and read as an MDN again yields the same disposition, original message identifier and final recipient; a message is considered to request or to be a receipt exactly when its header says so.",
 ["inputs","configurations"],"all combinations of receipt header fields, disposition modes, and identifiers",
 "tests check a few header combinations",
 ["src/vmime/mdn/MDNHelper.cpp","src/vmime/mdn/receivedMDNInfos.cpp","src/vmime/mdn/sendableMDNInfos.cpp","src/vmime/disposition.cpp"],
 [("MDNHelper::buildMDN/getPossibleMDNs/isMDN","src/vmime/mdn")],["MDNHelper"])
p("C37","IMAP client retrieves and changes exactly what the server stores",
 "Whatever attributes, message sets, parts and byte ranges an application asks for, the IMAP client returns exactly the sizes, flags, identifiers, structures, headers, envelopes and bytes the server stores for the messages asked for, however the server renders, orders, splits or fragments its answers, and every change (flags, deletion, expunge, copy, append, folder creation, renaming, deletion) changes exactly what was asked for in the server's mailboxes. A refused command or a broken connection is reported, nothing is made up, and after a refusal the connection can be used as if the command had not been given.",
 ["histories","inputs","fault_sequences"],"all fetch attribute combinations, all parts and ranges of a set of messages, all histories up to a depth over a small mailbox and folder tree, every fragmentation point, every command refused or cut",
 "tests parse a few recorded responses",
 ["src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/imap/IMAPMessagePart.cpp","src/vmime/net/imap/IMAPMessagePartContentHandler.cpp","src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/imap/IMAPStore.cpp","src/vmime/net/imap/IMAPUtils.cpp"],
 [("fetch, extract, store, copy, append, list, rename","src/vmime/net/imap/IMAPFolder.cpp"),("processFetchResponse, extractImpl","src/vmime/net/imap/IMAPMessage.cpp")],["folder","message","messagePart","messageStructure"])
p("C38","A secured connection is really secured",
 "A TLS socket delivers exactly the bytes given to it in both directions however records and network reads and writes are cut, shows none of them in clear on the network, and any break, closing, modification or silence of the network makes the operation fail instead of yielding wrong data or waiting forever; SMTP, POP3 and IMAP services connect over TLS (from the start, or by STARTTLS) exactly when the server and its certificate allow it, never send credentials or anything beyond the negotiation in clear when TLS is required or has begun, ignore anything received in clear before TLS starts, fall back to a clear connection only when TLS is not required, and say a connection is secured exactly when it is.",
 ["fault_sequences","configurations","inputs"],"data sizes around the record size, record sizes, read and write fragmentations; a break, a changed byte and a stall at every byte of the handshake and of the data; every server reaction, certificate kind and client wish for six protocols; injected plaintext cut at each place; TLS 1.2 and 1.3",
 "tests have no TLS server at all",
 ["src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp","src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp","src/vmime/net/tls/TLSSecuredConnectionInfos.cpp","src/vmime/net/smtp/SMTPConnection.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/imap/IMAPConnection.cpp"],
 [("handshake, receiveRaw, sendRaw","src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp"),("connect, startTLS","src/vmime/net/smtp/SMTPConnection.cpp")],["TLSSocket","TLSSession"])
p("C39","Several programs can use a maildir at once",
 "While a program uses a maildir folder, another program (another instance of the library, a delivery agent, another mail reader) may at any moment deliver, add, copy, flag or expunge messages or look into the folder, without any locking: no message is lost, altered or stored twice, only messages marked as deleted are ever expunged, a flag change made by one program is not silently undone by the other changing other flags, a message is never presented with the number, flags or contents of another one, and after it has updated its view (status) or opened the folder again without being interrupted, each program lists exactly what is there.",
 ["schedules","histories"],"every operation interrupted before each of its file-system calls by each action of another program, from several states, both layouts",
 "tests use a maildir from one program only",
 ["src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/maildir/maildirMessage.cpp","src/vmime/net/maildir/maildirUtils.cpp","src/vmime/platforms/posix/posixFile.cpp"],
 [("scanFolder: new before cur, messages found again by their identifier; rename-based updates","src/vmime/net/maildir/maildirFolder.cpp")],["folder API","file system contents"])
p("C40","Sockets connect and carry bytes over every behaviour of the system calls",
 "Connecting to a host tries each address its name resolves to, in order, until one accepts, without being held up by one that does not answer; the time-out handler is consulted regularly during name resolution, connection, sending and receiving, and when it declines the operation ends with a time-out and nothing is left behind (no descriptor, no pending resolver request, no further attempt). A failure is reported with its own reason. Whatever the system calls answer (interruptions, errors, partial transfers, late answers), bytes are sent and received exactly once and in order, the status flags and isConnected() tell the truth, no call spins without progress, a broken connection raises an error and never a signal.",
 ["fault_sequences","histories","configurations"],"all lists of up to three addresses of eight behaviours, all resolver behaviours, handler decisions, sequences of transfers, and every placement of up to two unusual answers of the system calls",
 "tests use scripted socket objects; the real socket class is not tested at all",
 ["src/vmime/platforms/posix/posixSocket.cpp"],
 [("connect, resolve, waitForData, receiveRaw, sendRaw, sendRawNonBlocking","src/vmime/platforms/posix/posixSocket.cpp")],["socket"])
p("C41","A message handed to a sendmail program is complete, or it is not sent",
 "When the sendmail transport reports success, the configured program was executed once with exactly the arguments that name the sender and the recipients, has received exactly the message (with LF line ends) and has exited successfully; whenever the program fails, cannot be executed, exits early or is killed, or the source of the message, the progress listener or a system call fails, an error is reported and the program never takes an incomplete message for a complete one. The application is never killed by a signal, no process or descriptor is left behind, and the signal mask is as before. The same holds for child processes used directly, several of them at once, with any redirection.",
 ["fault_sequences","schedules","histories","inputs"],"all messages over line-end bytes, program behaviours, points of failure of the source, recipients; every placement of up to two unusual answers of the system calls; all short histories of two process objects",
 "there is no test of the sendmail transport or of child processes",
 ["src/vmime/net/sendmail/sendmailTransport.cpp","src/vmime/platforms/posix/posixChildProcess.cpp","src/vmime/utility/filteredStream.cpp"],
 [("internalSend","src/vmime/net/sendmail/sendmailTransport.cpp"),("start, waitForFinish, destructor, pipe streams","src/vmime/platforms/posix/posixChildProcess.cpp")],["transport::send","childProcess"])
p("C42","A failure in mid-operation never leaves a connection out of step",
 "Whenever an operation of a POP3, SMTP or IMAP client fails in the middle (an exception of the application's stream, listener or tracer, a write that fails after a part of the data, a source shorter or longer than announced, a time-out the application declines to extend), every later operation on the same objects either gives the right result or reports an error, and never takes the answer of one command for that of another: no wrong data, no operation on another message, no half command joined to the next one, no message accepted incomplete or twice, no waiting for an answer that does not come. After reconnecting, objects of the former session either still mean the same thing or are refused.",
 ["fault_sequences","histories"],"every operation interrupted at every call of application code, at every write with five partial lengths, at every stall position of the answer, followed by every other operation and by a reconnection to a changed mailbox",
 "tests have neither failing streams nor operations after a failure",
 ["src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/pop3/POP3Folder.cpp","src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/smtp/SMTPConnection.cpp","src/vmime/net/smtp/SMTPTransport.cpp","src/vmime/net/smtp/SMTPResponse.cpp"],
 [("readResponse","src/vmime/net/imap/IMAPConnection.cpp"),("readResponseImpl","src/vmime/net/pop3/POP3Response.cpp"),("send, sendEnvelope","src/vmime/net/smtp/SMTPTransport.cpp")],["store","folder","message","transport"])
p("C43","Threads using different objects do not disturb each other",
 "Two threads that use different objects of the library (parse, generate or build messages, convert charsets, compute digests, encode, handle dates, addresses, URLs, properties and identifiers, run SMTP, POP3, IMAP, TLS and SASL sessions, verify certificates), or that only read the same message made by the application, obtain the results they would obtain alone, whatever the interleaving, on first use as well as later: the library keeps no common data which is changed without synchronisation. Random numbers and identifiers given to two threads are different.",
 ["schedules"],"all pairs of operations, first use and later; all schedules with up to two preemptions at accesses to data both threads use and one changes; happens-before detection on every one",
 "tests use one thread",
 ["src/vmime/utility/random.cpp","src/vmime/security/digest/sha1/sha1MessageDigest.cpp","src/vmime/headerFieldFactory.cpp","src/vmime/utility/encoder/encoderFactory.cpp","src/vmime/parsingContext.cpp","src/vmime/generationContext.cpp","src/vmime/platforms/posix/posixHandler.cpp"],
 [("static objects of functions and classes","src/vmime"),("state of the random number generator","src/vmime/utility/random.cpp")],["results of operations in threads"])
p("C44","Identifiers and boundaries the library makes up are unique",
 "Random numbers do not repeat before the whole range of the generator was used, whatever the operating system gave as a seed; message identifiers and names of maildir files made within one second are all different, in one process and in several ones even if these are copies of one another; boundaries are valid, different at every level of a message, and random strings have the requested length and characters.",
 ["inputs","histories"],"edge and other seeds of 32 bits, 2^21 (thorough: all 2^31) states of the generator, tens of thousands of identifiers per second, copies of a process, all string lengths and alphabets, nested multiparts",
 "a test sees a few identifiers",
 ["src/vmime/utility/random.cpp","src/vmime/messageId.cpp","src/vmime/body.cpp","src/vmime/net/maildir/maildirUtils.cpp"],
 [("getNext, getString","src/vmime/utility/random.cpp"),("generateId","src/vmime/messageId.cpp"),("generateRandomBoundaryString","src/vmime/body.cpp"),("generateId","src/vmime/net/maildir/maildirUtils.cpp")],["random","messageId::generateId","body::generateRandomBoundaryString"])
p("C45","Traces show the dialogue without its secrets and change nothing",
 "With a tracer installed on an SMTP, POP3 or IMAP connection, what is sent and what results is the same as without one; every command and every answer of the dialogue is shown, in order and as it was, message data and authentication exchanges only as counts of bytes; neither the traces nor the errors reported ever contain the password of the user, in clear, quoted, in hexadecimal or in base64.",
 ["inputs","faults","histories"],"3 protocols x 9 ways to authenticate x all verdicts of the server on 3 attempts x 15 pairs of user name and password x 4 server variants x 3 fragmentations, and a break of the connection at every byte received",
 "no test looks at a trace",
 ["src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/imap/IMAPCommand.cpp","src/vmime/net/imap/IMAPParser.hpp","src/vmime/net/pop3/POP3Command.cpp","src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/smtp/SMTPCommand.cpp","src/vmime/net/smtp/SMTPResponse.cpp","src/vmime/net/tracer.cpp"],
 [("sendCommand","src/vmime/net/imap/IMAPConnection.cpp"),("getTraceText","src/vmime/net/imap/IMAPCommand.cpp"),("getTraceText","src/vmime/net/pop3/POP3Command.cpp"),("readResponse","src/vmime/net/pop3/POP3Response.cpp"),("getTraceText","src/vmime/net/smtp/SMTPCommand.cpp"),("traceSendBytes","src/vmime/net/tracer.cpp")],["tracer::traceSend","tracer::traceReceive","exceptions"])
p("C46","Progress listeners are told the truth",
 "An operation with a progress listener calls start once and first, then progress, then stop once and last when it succeeds; nothing follows stop, also when the operation fails or the listener throws. The position never goes back and never exceeds the total. When the amount of work is known (length of contents, size of a message, number of messages) it is announced at the start, reached, and repeated at the end. The result is the same as without a listener. This holds for stream copies, encoders, content handlers, the size adapter, and the maildir, IMAP, POP3 and SMTP operations.",
 ["inputs","faults"],"all inputs of up to 3 pieces and sizes around every buffer x deliveries x every operation; every failing read, every byte where the connection may break (steps of 1 to 5), every notification at which the listener may throw",
 "no test passes a progress listener",
 ["src/vmime/utility/progressListener.cpp","src/vmime/utility/streamUtils.cpp","src/vmime/utility/encoder","src/vmime/stringContentHandler.cpp","src/vmime/streamContentHandler.cpp","src/vmime/net/maildir/maildirFolder.cpp","src/vmime/net/maildir/maildirMessage.cpp","src/vmime/net/imap/IMAPFolder.cpp","src/vmime/net/imap/IMAPMessage.cpp","src/vmime/net/imap/IMAPParser.hpp","src/vmime/net/pop3/POP3Folder.cpp","src/vmime/net/pop3/POP3Response.cpp","src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp","src/vmime/net/smtp/SMTPTransport.cpp"],
 [("start, progress, stop","src/vmime/utility/progressListener.cpp"),("bufferedStreamCopy","src/vmime/utility/streamUtils.cpp"),("copyMessageImpl","src/vmime/net/maildir/maildirFolder.cpp"),("readLiteral","src/vmime/net/imap/IMAPParser.hpp"),("readResponseImpl","src/vmime/net/pop3/POP3Response.cpp"),("sendChunk","src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp")],["utility::progressListener"])
p("C47","A service is what its URL and the properties of its session say",
 "A session makes, for a protocol name (in any case) or a URL, the service of that protocol, nothing for the wrong kind and an error for unknown ones. Connecting opens exactly one connection to the host and the port given by the URL or else by the properties of the session (or else the port of the protocol), starts TLS at once for the secured protocols, and logs in as the user given by the URL, the properties or the authenticator of the application, by the way which the options and the server allow; without credentials it does not log in, and works once they are given. Properties of other protocols and of other sessions are never used; a property which is not set has its documented default or is reported missing; each service lists all its properties. A maildir store uses the directory named by its URL or properties.",
 ["inputs","histories"],"10 protocols x spellings x ways to obtain a service; 6 protocols x ports x user names and passwords (percent-encoded) x parts given by properties x 6 ways to authenticate; all listed properties; all sequences of up to 4 (thorough 5) changes of properties, new services, connections and disconnections",
 "tests connect with one set of properties only",
 ["src/vmime/net/session.cpp","src/vmime/net/serviceFactory.cpp","src/vmime/net/serviceInfos.cpp","src/vmime/net/serviceRegistration.inl","src/vmime/net/defaultConnectionInfos.cpp","src/vmime/security/defaultAuthenticator.cpp","src/vmime/net/imap/IMAPServiceInfos.cpp","src/vmime/net/pop3/POP3ServiceInfos.cpp","src/vmime/net/smtp/SMTPServiceInfos.cpp","src/vmime/net/maildir/maildirServiceInfos.cpp","src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/smtp/SMTPConnection.cpp"],
 [("create","src/vmime/net/serviceFactory.cpp"),("getPropertyValue","src/vmime/net/serviceInfos.hpp"),("connect, authenticate","src/vmime/net/imap/IMAPConnection.cpp"),("connect, authenticate","src/vmime/net/pop3/POP3Connection.cpp"),("connect, authenticate","src/vmime/net/smtp/SMTPConnection.cpp")],["session::getStore","session::getTransport","service::connect","serviceInfos"])
p("C48","Multipart messages are split as RFC 2046 says",
 "Whoever made a multipart message, its parts are exactly the regions between the delimiter lines (two dashes and the boundary at the beginning of a line, optional white space, line end CRLF or LF) of its boundary: the line break before a delimiter belongs to it, lines which only resemble a delimiter are text, the text before the first and after the close delimiter is prolog and epilog, a part without a delimiter after it extends to the end, nested multiparts are confined to their part; a boundary which is not given is taken from the first line that looks like a delimiter. Offsets, header fields, contents, prolog and epilog of every part say so, whether the message is parsed from a string, from a stream in pieces or inside a larger buffer, and the parts are the same when the message is generated and parsed again.",
 ["inputs","schedules"],"all sequences of up to 3 (thorough 5) lines of 19 kinds and of up to 5 (7) lines of 7 kinds, all line-end combinations, boundaries of all lengths and characters, text around buffer sizes, nesting up to 25 (60)",
 "tests contain a dozen multipart messages",
 ["src/vmime/body.cpp","src/vmime/bodyPart.cpp","src/vmime/utility/parserInputStreamAdapter.cpp","src/vmime/header.cpp"],
 [("parseImpl, findNextBoundaryPosition","src/vmime/body.cpp"),("findNext, matchBytes, skipIf, extract","src/vmime/utility/parserInputStreamAdapter.cpp")],["message::parse","body::getPartAt","body::getPrologText"])
p("C49","Address lists of others are read as RFC 5322 says",
 "Whatever program wrote a list of addresses, reading it gives exactly the mailboxes and groups which the grammar of RFC 5322 finds in it, in order, with their names (plain, quoted and encoded words together), local parts (quoted or not), domains (also address literals) and group membership; comments, folds and white space between the tokens change nothing, and no separator inside a quoted string, a comment, an encoded word, angle brackets or an address literal separates anything. The same holds for single mailboxes, mailbox lists, address fields, parts of larger buffers, the flat list of all mailboxes of a list, and for the list generated and read again.",
 ["inputs"],"all sequences of up to 5 (thorough 6) tokens of 17 kinds which the grammar accepts; all pairs and triples of 18 entries with 7 separators; comments and white space at every place of pairs",
 "tests contain some forms one by one",
 ["src/vmime/address.cpp","src/vmime/mailbox.cpp","src/vmime/mailboxGroup.cpp","src/vmime/addressList.cpp","src/vmime/mailboxList.cpp","src/vmime/emailAddress.cpp"],
 [("parseNext","src/vmime/address.cpp"),("parseImpl","src/vmime/mailbox.cpp"),("parseImpl","src/vmime/mailboxGroup.cpp")],["addressList::parse","mailboxList::parse","mailbox::parse","addressList::toMailboxList"])
p("C50","Headers of others are read as RFC 5322 says",
 "Whatever program wrote a header, its fields are exactly the lines 'name: value' with the folded lines after them, in order; the first colon ends the name, white space around it and at the end of the value does not count, the first empty line ends the header, and what follows is the body, byte for byte. A line which is no field is skipped or ends the header, as the application chose, and the parsing context tells that this was needed. Fields are found by name without regard to case, all of them and the first first; the offsets of each field and of the header are those of their text, whether parsed from a string, a stream or a part of a buffer into a new or a used object, and fields of a correct header are the same when generated and parsed again.",
 ["inputs"],"all sequences of up to 4 (thorough 5) lines of 16 kinds with all line-end styles, of up to 6 (8) pieces of fields, and long names, values, folds and headers around buffer sizes",
 "tests contain a few headers",
 ["src/vmime/header.cpp","src/vmime/headerField.cpp","src/vmime/parserHelpers.hpp","src/vmime/parsingContext.cpp","src/vmime/component.cpp"],
 [("parseNext","src/vmime/headerField.cpp"),("parseImpl, findField, findAllFields","src/vmime/header.cpp"),("findEOL","src/vmime/parserHelpers.hpp")],["header::parse","header::findField","message::parse"])
p("C51","Texts, objects and attachments of a message of others are found",
 "In every message, whatever program built it: the attachments are exactly the parts which are declared to be attachments (any disposition other than inline), inline parts nothing can refer to, and parts of other types than text which are no embedded objects (or all objects, when the application asks for them), in the order of the message, each with its type, name, description, encoding and data; the texts are exactly the plain and HTML texts (a part without type is plain text) which are not declared to be attachments, with their character set and contents; a HTML text has exactly the objects to which it refers by Content-Id or Content-Location, and the plain text of the nearest multipart/alternative of which it is a member. A part of an unknown type is no reason to refuse the message. The date of a message is that of its first Received field, or of its Date field; its importance that of X-Priority, or of Importance, and what is set or reset is what is read afterwards.",
 ["inputs"],"all messages of one leaf, all pairs of leaves in three kinds of multiparts, all triples of critical leaves in ten structures, over kinds of types, dispositions, identifiers, references and encodings; all importance and date fields of a set",
 "tests contain a few structures; the rules for type, disposition, identifiers and structure are only decided by their combinations",
 ["src/vmime/messageParser.cpp","src/vmime/attachmentHelper.cpp","src/vmime/htmlTextPart.cpp","src/vmime/plainTextPart.cpp","src/vmime/bodyPartAttachment.cpp","src/vmime/generatedMessageAttachment.cpp","src/vmime/misc/importanceHelper.cpp"],
 [("findSubTextParts, findTextParts, parse","src/vmime/messageParser.cpp"),("isBodyPartAnAttachment, findAttachmentsInBodyPart","src/vmime/attachmentHelper.cpp"),("parse, findPlainTextPart, findEmbeddedParts","src/vmime/htmlTextPart.cpp"),("getImportanceHeader","src/vmime/misc/importanceHelper.cpp")],["messageParser","attachmentHelper::findAttachmentsInMessage","htmlTextPart::findObject","importanceHelper"])
p("C52","Comments and white space in structured fields mean nothing",
 "Wherever RFC 2045 and RFC 5322 allow comments, white space and folds in a structured header field (around the value, the separators, the names and the values of parameters, between the parts of a date, around and between message identifiers and paths), their presence, contents (delimiters of the field, nested comments, quoted pairs, things that look like values) and number change nothing of what is read: media type, disposition, transfer encoding (and so the decoded body), every parameter with its name and value (also in sections whose names differ in case), date, identifiers and their number. Parentheses inside quoted strings and identifiers are no comments. A comment that does not end is read in a time proportional to its length.",
 ["inputs"],"18 fields of 10 kinds, eight kinds of comments and white space at every one and every two (thorough: three) of the places where they are allowed; alone, inside a larger buffer and in a message; unterminated comments of 100,000 pieces of 11 kinds",
 "tests contain a few comments in dates and addresses; the places multiply with the contents",
 ["src/vmime/parameterizedHeaderField.cpp","src/vmime/encoding.cpp","src/vmime/dateTime.cpp","src/vmime/messageId.cpp","src/vmime/messageIdSequence.cpp","src/vmime/path.cpp","src/vmime/mediaType.cpp","src/vmime/contentDisposition.cpp","src/vmime/parserHelpers.hpp"],
 [("parseImpl","src/vmime/parameterizedHeaderField.cpp"),("parseImpl","src/vmime/encoding.cpp"),("parseImpl","src/vmime/dateTime.cpp"),("parseImpl, parseNext","src/vmime/messageId.cpp"),("parseImpl","src/vmime/path.cpp")],["headerField::parse","message::parse","parameterizedHeaderField::getParameter"])
p("C53","Logging in is done as configured, and a refusal is one",
 "When an SMTP, POP3 or IMAP service connects, what identifies the user is sent only in the ways the configuration and the server allow, in their order, and with exactly the name and password given: the SASL mechanisms offered, supported and accepted by the application; then, only where falling back is allowed, APOP (with the timestamp of the greeting wherever it stands, never without one) and USER/PASS or LOGIN; nothing when no authentication is needed, when the server has already recognised the user, or after it refused the connection, and no LOGIN where the server disables it. The service is connected exactly when the server accepted one of them; otherwise the failure is reported, no connection stays open, using the service is refused, and connecting again with the same objects works as if nothing had happened. Once logged in to an IMAP server, what is used is what the server offers then, not what it had announced before.",
 ["inputs","history"],"three protocols x all options x kinds of authenticators x greetings x mechanisms offered and wanted x all sequences of answers up to 3 (thorough 4) incl. closing the connection, three fragmentations; each followed by a second connection of the same objects",
 "tests do not log in",
 ["src/vmime/net/pop3/POP3Connection.cpp","src/vmime/net/imap/IMAPConnection.cpp","src/vmime/net/smtp/SMTPConnection.cpp"],
 [("authenticate, authenticateSASL, connect","src/vmime/net/pop3/POP3Connection.cpp"),("authenticate, authenticateSASL, connect","src/vmime/net/imap/IMAPConnection.cpp"),("authenticate, authenticateSASL, helo, connect","src/vmime/net/smtp/SMTPConnection.cpp")],["service::connect","service::isConnected"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
