// Certificate and key builders shared by harnesses.
#pragma once
#include "der.h"
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static B oid(std::initializer_list<int> l) { B o; for (int x : l) o.push_back(uint8_t(x)); return o; }
struct Parts { B version = tlv(0xa0, tlv(2, B{2})), serial = B{1, 2, 3}, issuer, start = tlv(23, txt("200101000000Z")), end = tlv(23, txt("300101000000Z")), subject, spki = tlv(0x30, tlv(0x30, tlv(6, B{0x2b, 0x65, 0x6e})) + tlv(3, B{0, 1, 2})), rest; };
static B tbs(const Parts& p) { return tlv(0x30, p.version + tlv(2, p.serial) + tlv(0x30, tlv(6, oid({0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11})) + tlv(5, {})) + tlv(0x30, p.issuer) + tlv(0x30, p.start + p.end) + tlv(0x30, p.subject) + p.spki + p.rest); }
static B cert(const Parts& p) { return tlv(0x30, tbs(p) + tlv(0x30, tlv(6, oid({0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11})) + tlv(5, {})) + tlv(3, B{0, 9, 9, 9})); }
static B rdn(const B& o, const B& value, int type = 19) { return tlv(0x31, tlv(0x30, tlv(6, o) + tlv(type, value))); }
static B rsakey(const B& n, const B& e) { return tlv(0x30, tlv(0x30, tlv(6, OID_RSA) + tlv(5, {})) + tlv(3, B{0} + tlv(0x30, tlv(2, n) + tlv(2, e)))); }
static B armour(const B& d, const char* what, const char* eol) { B o = txt("-----BEGIN ") + txt(what) + txt("-----") + txt(eol); int col = 0; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = uint32_t(d[i]) << 16; if (i + 1 < d.size()) v |= uint32_t(d[i + 1]) << 8; if (i + 2 < d.size()) v |= d[i + 2]; for (int k = 0; k < 4; k++) o.push_back(i + k > d.size() ? '=' : uint8_t(B64[v >> (18 - 6 * k) & 63])); if ((col += 4) == 64) { o = o + txt(eol); col = 0; } } if (col) o = o + txt(eol); return o + txt("-----END ") + txt(what) + txt("-----") + txt(eol); }
static B priv(const B& n, const B& e, const B& d) { return tlv(0x30, tlv(2, B{0}) + tlv(2, n) + tlv(2, e) + tlv(2, d) + tlv(2, B{3}) + tlv(2, B{5})); }
static const B CN{0x55, 4, 3};
