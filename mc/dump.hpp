// Observable attributes of any message component, as text.
#pragma once
#include "mcv.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/contentTypeField.hpp"
namespace mc {
using namespace vmime;
inline S contentOf(const vmime::shared_ptr <const contentHandler>& c, bool raw) { S o; utility::outputStreamStringAdapter os(o); try { raw ? c->extractRaw(os) : c->extract(os); } catch (exception& e) { o += S("!") + e.name(); } return o; }
/** attributes of one object and of all its children; with bounds, offsets relative to base */
inline void attrs(component& c, S& o, bool bounds, long base) {
	if (bounds && c.getParsedLength()) o += "[" + str(long(c.getParsedOffset()) - base) + "+" + str(c.getParsedLength()) + "]";
	auto sub = [&](component& k) { o += "<"; attrs(k, o, bounds, base); o += ">"; };
	if (auto x = dynamic_cast <word*>(&c)) o += "word:" + x->getBuffer() + "/" + x->getCharset().getName() + "/" + x->getLanguage();
	else if (auto x = dynamic_cast <text*>(&c)) { o += "text" + str(x->getWordCount()); }
	else if (auto x = dynamic_cast <emailAddress*>(&c)) { o += "email"; word l(x->getLocalName()), d(x->getDomainName()); o += l.getBuffer() + "/" + l.getCharset().getName() + "@" + d.getBuffer() + "/" + d.getCharset().getName(); }
	else if (auto x = dynamic_cast <mailbox*>(&c)) { o += "mailbox"; text n(x->getName()); S t; for (size_t i = 0 ; i < n.getWordCount() ; ++i) o += n.getWordAt(i)->getBuffer() + "/" + n.getWordAt(i)->getCharset().getName() + ","; emailAddress e(x->getEmail()); attrs(e, o, false, 0); }
	else if (auto x = dynamic_cast <mailboxGroup*>(&c)) { o += "group"; text n(x->getName()); for (size_t i = 0 ; i < n.getWordCount() ; ++i) o += n.getWordAt(i)->getBuffer() + "/" + n.getWordAt(i)->getCharset().getName() + ","; o += str(x->getMailboxCount()); }
	else if (auto x = dynamic_cast <addressList*>(&c)) o += "addresses" + str(x->getAddressCount());
	else if (auto x = dynamic_cast <mailboxList*>(&c)) o += "mailboxes" + str(x->getMailboxCount());
	else if (auto x = dynamic_cast <datetime*>(&c)) o += "date" + str(x->getYear()) + "-" + str(x->getMonth()) + "-" + str(x->getDay()) + "T" + str(x->getHour()) + ":" + str(x->getMinute()) + ":" + str(x->getSecond()) + "Z" + str(x->getZone());
	else if (auto x = dynamic_cast <messageId*>(&c)) o += "mid" + x->getLeft() + "@" + x->getRight();
	else if (auto x = dynamic_cast <messageIdSequence*>(&c)) o += "mids" + str(x->getMessageIdCount());
	else if (auto x = dynamic_cast <mediaType*>(&c)) o += "media" + x->getType() + "/" + x->getSubType();
	else if (auto x = dynamic_cast <contentDisposition*>(&c)) o += "disp" + x->getName();
	else if (auto x = dynamic_cast <encoding*>(&c)) o += "enc" + x->getName();
	else if (auto x = dynamic_cast <charset*>(&c)) o += "charset" + x->getName();
	else if (auto x = dynamic_cast <disposition*>(&c)) { o += "mdn" + x->getActionMode() + "|" + x->getSendingMode() + "|" + x->getType(); for (auto& m : x->getModifierList()) o += "," + m; }
	else if (auto x = dynamic_cast <vmime::path*>(&c)) o += "path" + x->getLocalPart() + "|" + x->getDomain();
	else if (auto x = dynamic_cast <relay*>(&c)) { o += "relay" + x->getFrom() + "|" + x->getVia() + "|" + x->getBy() + "|" + x->getId() + "|" + x->getFor(); for (auto& w : x->getWithList()) o += "|" + w; datetime d(x->getDate()); attrs(d, o, false, 0); }
	else if (auto x = dynamic_cast <parameter*>(&c)) { o += "param" + x->getName() + "="; word w(x->getValue()); attrs(w, o, false, 0); }
	else if (auto x = dynamic_cast <body*>(&c)) { o += "body" + x->getPrologText() + "|" + x->getEpilogText() + "|" + str(x->getPartCount()) + "|" + x->getContentType().generate() + "|" + x->getCharset().getName() + "|" + x->getEncoding().generate() + "|" + contentOf(x->getContents(), true) + "|" + contentOf(x->getContents(), false) + "|" + x->getContents()->getEncoding().getName() + "|" + str(x->getContents()->getLength()); }
	if (auto x = dynamic_cast <headerField*>(&c)) {
		o += "field" + x->getName() + ":"; sub(*x->getValue());
		if (auto p = dynamic_cast <parameterizedHeaderField*>(x)) for (size_t i = 0 ; i < p->getParameterCount() ; ++i) sub(*p->getParameterAt(i));
	} else {
		o += "{"; for (auto& k : c.getChildComponents()) sub(*k); o += "}";
	}
}
inline S attrs(component& c, bool bounds = false, long base = 0) { S o; attrs(c, o, bounds, base); return o; }
}
