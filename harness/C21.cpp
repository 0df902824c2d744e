// CRC-32 (IEEE 802.3, reflected, polynomial EDB88320): for every message content and split, for every running state.
// SA-MIN: 150
#include "priv.h"
#include "sa.h"
#include "caligo/crc.h"
using namespace Caligo;
typedef std::span<const uint8_t> bytes;
struct Tab { uint32_t t[256]; constexpr Tab() : t() { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; t[i] = c; } } };
static constexpr Tab TAB;
static void refcrc(const uint8_t* m, size_t n, uint8_t* o) { uint32_t h = ~0u; for (size_t i = 0; i < n; i++) h = h >> 8 ^ TAB.t[(h ^ m[i]) & 255]; h = ~h; for (int i = 0; i < 4; i++) o[i] = h >> (24 - 8 * i); }
ENTRY prop_lengths() { uint8_t m[40], e[4]; sa_sym(m, 40, "m", 0); for (size_t n = 0; n <= 40; n++) { sa_ctx("n", n); CRC32 c; c.add(bytes(m, n)); auto d = c.data(); refcrc(m, n, e); sa_same("crc", d.data(), e, 4); std::string s = c; char hex[8]; for (int i = 0; i < 8; i++) hex[i] = "0123456789abcdef"[i % 2 ? e[i / 2] & 15 : e[i / 2] >> 4]; sa_true("hex-length", s.size() == 8); if (s.size() == 8) sa_same("hex", s.data(), hex, 8); auto d2 = c.data(); sa_same("query-repeatable", d2.data(), e, 4); } }
ENTRY prop_splits() { uint8_t m[12], e[4]; sa_sym(m, 12, "m", 0); refcrc(m, 12, e); for (size_t k = 0; k <= 12; k++) for (size_t l = k; l <= 12; l++) { sa_ctx("split", k * 100 + l); CRC32 c; c.add(bytes(m, k)); auto q = c.data(); (void)q; CRC32 x = c; c.add(std::string_view((char*)m + k, l - k)); c.add(bytes(m + l, 12 - l)); auto d = c.data(); sa_same("split", d.data(), e, 4); x.add(bytes(m + k, 12 - k)); auto y = x.data(); sa_same("copy", y.data(), e, 4); }
  CRC32 v{bytes(m, 5), std::string_view((char*)m + 5, 7)}; auto d = v.data(); sa_same("constructor", d.data(), e, 4); std::array<uint8_t, 4> a = v; sa_same("conversion", a.data(), e, 4); }
// the step from an arbitrary running state (so: messages of any length, by induction)
ENTRY prop_step() { auto run = [&](auto c) { if constexpr (requires { c.h = 0u; }) { { CRC32 k; uint8_t z[2] = {1, 2}; for (int i = 0; i < 2; i++) { auto d = k.data(); uint32_t x = 0; for (int t = 0; t < 4; t++) x = x << 8 | d[t]; if (k.h != ~x) return; k.add(bytes(z + i, 1)); } } // only where the field is the complemented checksum
  for (size_t n = 0; n <= 3; n++) { sa_ctx("bytes", n); uint32_t s; sa_symw(&s, 4, "state", 0); uint8_t m[3]; sa_sym(m, 3, "m", 0); c.h = s; c.add(bytes(m, n)); for (size_t i = 0; i < n; i++) s = s >> 8 ^ TAB.t[(s ^ m[i]) & 255]; s = ~s; uint8_t e[4]; for (int i = 0; i < 4; i++) e[i] = s >> (24 - 8 * i); auto d = c.data(); sa_same("any-state", d.data(), e, 4); } } }; run(CRC32()); }
// long messages, in one piece and in two; the last octets unknown
ENTRY prop_long() { static uint8_t m[66001]; uint32_t s = 3; for (auto& x : m) { s = s * 1664525 + 1013904223; x = s >> 24; } for (size_t n : {255, 256, 257, 1000, 4096, 66001}) { sa_ctx("n", n); uint8_t keep[4], e[4]; memcpy(keep, m + n - 4, 4); sa_sym(m + n - 4, 4, "tail", 0); CRC32 c, d; c.add(bytes(m, n)); d.add(bytes(m, n / 3)); d.add(bytes(m + n / 3, n - n / 3)); refcrc(m, n, e); auto x = c.data(), y = d.data(); sa_same("long", x.data(), e, 4); sa_same("long-two-parts", y.data(), e, 4); memcpy(m + n - 4, keep, 4); } }
