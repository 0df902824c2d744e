// DER building blocks and a reference reader for harnesses.
#pragma once
#include <vector>
#include <cstdint>
#include <cstring>
typedef std::vector<uint8_t> B;
static inline B operator+(B a, const B& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// the shortest form, or a long form of `form` octets
static inline B tlv(int tag, const B& c, int form = -1) { B o; size_t n = c.size(); o.push_back(uint8_t(tag)); if (form < 0) form = n < 128 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : 3; if (form == 0) o.push_back(uint8_t(n)); else { o.push_back(uint8_t(0x80 | form)); for (int i = form - 1; i >= 0; i--) o.push_back(i < 8 ? uint8_t(n >> 8 * i) : 0); } return o + c; }
static inline B txt(const char* s) { return B((const uint8_t*)s, (const uint8_t*)s + strlen(s)); }
static inline B any(size_t n, const char* name) { B o(n); if (n) sa_sym(o.data(), n, name, 0); return o; }
static inline B pat(size_t n, int m) { B o(n); for (size_t k = 0; k < n; k++) o[k] = uint8_t(m * k + 17 * m + 1); return o; }
static const B OID_RSA{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01};
