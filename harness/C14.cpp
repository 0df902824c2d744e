// Base64 text: encoding is RFC 4648 in the chosen alphabet with 76-character lines; decoding inverts every variant, skips everything that is not a
// SA-MIN: 4000
// digit of some variant, and computes exactly the digits' bits.
#include "priv.h"
#include "sa.h"
#include "caligo/base64.h"
using namespace Caligo;
typedef std::span<const uint8_t> bytes;
static constexpr const char* ABC[] = {"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
static const Base64CharSet CS[] = {PlusSlash, PlusComma, MinusUnderscore};
#ifdef THOROUGH
static constexpr size_t MX = 240;
#else
static constexpr size_t MX = 124;
#endif
static size_t enc(const uint8_t* d, size_t n, bool nl, bool omit, const char* a, char* o) { size_t k = 0, col = 0; for (size_t i = 0; i < n; i += 3) { unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); size_t have = n - i < 3 ? n - i : 3;
    for (size_t j = 0; j < 4; j++) if (j <= have) o[k++] = a[v >> (18 - 6 * j) & 63]; else if (!omit) o[k++] = '='; if (have == 3 && ++col == 19) { col = 0; if (nl) o[k++] = '\n'; } } if (nl) o[k++] = '\n'; return k; }
static void roundtrip(int cs) { uint8_t d[MX]; sa_sym(d, MX, "d", 0); char e[2 * MX + 20]; for (size_t n = 0; n <= MX; n += n < 64 || n % 57 < 4 || n % 57 > 54 ? 1 : 4) for (int nl = 0; nl < 2; nl++) for (int om = 0; om < 2; om++) { sa_ctx("n,options", n * 10 + nl * 2 + om);
    sa_freeze(d); std::string s = base64(bytes(d, n), nl, om, CS[cs]); sa_unfreeze(d); size_t k = enc(d, n, nl, om, ABC[cs], e); sa_true("encoded-length", s.size() == k); if (s.size() == k) sa_same("encoding", s.data(), e, k);
    auto r = base64d(s); sa_true("decoded-length", r.size() == n); if (r.size() == n) sa_same("round-trip", r.data(), d, n);
    auto r2 = base64d(std::string_view(e, k)); sa_true("decoded-length", r2.size() == n); if (r2.size() == n) sa_same("decodes-the-standard", r2.data(), d, n); } }
ENTRY prop_roundtrip_slash() { roundtrip(0); }
ENTRY prop_roundtrip_comma() { roundtrip(1); }
ENTRY prop_roundtrip_url() { roundtrip(2); }
ENTRY prop_defaults() { uint8_t d[60]; sa_sym(d, 60, "d", 0); char e[100]; size_t k = enc(d, 60, true, false, ABC[0], e); std::string s = base64(bytes(d, 60)); sa_true("length", s.size() == k); if (s.size() == k) sa_same("default-options", s.data(), e, k); }
// character classes: [first, last] -> digit value of first, or -1
struct Ref { int8_t v[256]; constexpr Ref() : v() { for (auto& x : v) x = -1; for (int a = 0; a < 3; a++) for (int i = 0; i < 64; i++) v[(uint8_t)ABC[a][i]] = i; } };
static constexpr Ref REF;
struct Cl { int lo, hi, v; };
static const Cl CLS[] = {{'A', 'Z', 0}, {'a', 'z', 26}, {'0', '9', 52}, {'+', '+', 62}, {'-', '-', 62}, {'/', '/', 63}, {',', ',', 63}, {'_', '_', 63}, {0, 42, -1}, {'.', '.', -1}, {58, 60, -1}, {'=', '=', -1}, {62, 64, -1}, {91, 94, -1}, {96, 96, -1}, {123, 127, -1}, {128, 255, -1}};
static constexpr int NC = sizeof CLS / sizeof *CLS;
static void decodeCase(const int* cl, size_t n) { uint8_t s[16]; sa_sym(s, 16, "s", 0); uint32_t acc = 0; uint8_t out[16]; size_t cnt = 0, k = 0;
  for (size_t i = 0; i < n; i++) { auto& c = CLS[cl[i]]; sa_assume(s[i] >= c.lo); sa_assume(s[i] <= c.hi); if (c.v < 0) continue; acc = acc << 6 | (uint32_t)(int32_t)REF.v[s[i]]; if (++cnt == 4) { out[k++] = acc >> 16; out[k++] = acc >> 8; out[k++] = acc; cnt = 0; } }
  if (cnt == 2) out[k++] = acc >> 4; if (cnt == 3) { out[k++] = acc >> 10; out[k++] = acc >> 2; }
  auto r = base64d(std::string_view((char*)s, n)); sa_true("decoded-length", r.size() == k); if (r.size() == k) sa_same("decoded-bits", r.data(), out, k); }
ENTRY prop_each_character() { for (int b = 0; b < 256; b++) { sa_ctx("character", b); uint8_t s[4]; sa_sym(s, 4, "s", 0); 
    for (int p = 1; p < 4; p++) { sa_assume(s[p] >= 'A'); sa_assume(s[p] <= 'Z'); } uint8_t t[4] = {s[1], s[2], (uint8_t)b, s[3]}; uint32_t v = 0; size_t c = 0;
    int skip = REF.v[b] < 0; for (int i = 0; i < 4; i++) if (!(i == 2 && skip)) { v = v << 6 | (uint32_t)(int32_t)REF.v[t[i]]; c++; } uint8_t out[3]; size_t k; if (c == 4) { out[0] = v >> 16; out[1] = v >> 8; out[2] = v; k = 3; } else { out[0] = v >> 10; out[1] = v >> 2; k = 2; }
    auto r = base64d(std::string_view((char*)t, 4)); sa_true("decoded-length", r.size() == k); if (r.size() == k) sa_same("decoded-bits", r.data(), out, k); } }
ENTRY prop_classes_single() { for (int c = 0; c < NC; c++) for (size_t n = 1; n <= 9; n++) for (size_t p = 0; p < n; p++) { sa_ctx("class,len,pos", c * 100 + n * 10 + p); int cl[9]; for (auto& x : cl) x = 0; cl[p] = c; decodeCase(cl, n); } }
ENTRY prop_classes_pairs() { for (int c = 0; c < NC; c++) for (int e = 0; e < NC; e++) { sa_ctx("classes", c * 100 + e); int cl[6] = {c, e, 1, 2, e, c}; decodeCase(cl, 6); int cl2[4] = {c, c, e, e}; decodeCase(cl2, 4); int cl3[5] = {e, 0, c, 1, e}; decodeCase(cl3, 5); } }
// many lines
ENTRY prop_long() { static uint8_t d[4001]; static char e[6000]; uint32_t s = 3; for (auto& x : d) { s = s * 1664525 + 1013904223; x = s >> 24; } sa_sym(d + 165, 12, "d", 0); for (size_t n : {171, 172, 228, 255, 256, 257, 285, 513, 1026, 1083, 4001}) for (int o = 0; o < 12; o++) { int nl = o & 1, om = o >> 1 & 1, cs = o >> 2; if (n > 600 && o > 3) continue; sa_ctx("n,options", n * 100 + o); std::string t = base64(bytes(d, n), nl, om, CS[cs]); size_t k = enc(d, n, nl, om, ABC[cs], e); sa_true("encoded-length", t.size() == k); if (t.size() == k) sa_same("long-encoding", t.data(), e, k); auto r = base64d(std::string_view(e, k)); sa_true("decoded-length", r.size() == n); if (r.size() == n) sa_same("long-decoding", r.data(), d, n); } }
