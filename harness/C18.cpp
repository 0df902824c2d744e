// Random data: every element asked for is written with bits of its own from the platform's entropy source, and nothing else is written.
// SA-MIN: 300
#include "priv.h"
#include "sa.h"
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/x25519.h"
using namespace Caligo;
template <class T> static void fill() { for (size_t n = 0; n <= 40; n++) for (size_t at = 0; at < 3; at++) { sa_ctx("elements,offset", long(n * 10 + at)); std::vector<T> buf(n + 6); sa_sym(buf.data(), buf.size() * sizeof(T), "old", 1); std::vector<T> old = buf; generate_random(std::span<T>(buf.data() + at, n)); if (n) sa_fresh("every-element-from-the-source", buf.data() + at, n * sizeof(T), nullptr); if (at) sa_same("before-kept", buf.data(), old.data(), at * sizeof(T)); sa_same("after-kept", buf.data() + at + n, old.data() + at + n, (6 - at) * sizeof(T)); } }
ENTRY prop_fill_64() { fill<uint64_t>(); }
ENTRY prop_fill_32() { fill<uint32_t>(); }
ENTRY prop_fill_16() { fill<uint16_t>(); }
ENTRY prop_fill_8() { fill<uint8_t>(); }
template <class T> static void large() { for (size_t n : {64, 65, 127, 200, 255, 256, 257, 513, 1000}) { sa_ctx("elements", long(n)); std::vector<T> buf(n); generate_random(std::span<T>(buf)); sa_fresh("every-element-from-the-source", buf.data(), n * sizeof(T), nullptr); } }
ENTRY prop_large() { large<uint8_t>(); large<uint16_t>(); large<uint32_t>(); large<uint64_t>(); }
// consecutive requests never share bits, whatever their widths
ENTRY prop_consecutive() { struct { uint64_t a[3]; uint32_t b[3]; uint16_t c[5]; uint8_t d[9]; uint8_t e[3]; uint16_t f[1]; uint32_t g[1]; uint64_t h[1]; uint8_t i[1]; uint8_t j[1]; uint64_t v, w; } s; memset(&s, 0, sizeof s); generate_random(std::span<uint64_t>(s.a)); generate_random(std::span<uint32_t>(s.b)); generate_random(std::span<uint16_t>(s.c)); generate_random(std::span<uint8_t>(s.d)); generate_random(std::span<uint8_t>(s.e)); generate_random(std::span<uint16_t>(s.f)); generate_random(std::span<uint32_t>(s.g)); generate_random(std::span<uint64_t>(s.h)); generate_random(std::span<uint8_t>(s.i)); generate_random(std::span<uint8_t>(s.j)); s.v = generate_random_value(); s.w = generate_random_value();
  std::vector<uint8_t> o; auto put = [&](const void* p, size_t n) { o.insert(o.end(), (const uint8_t*)p, (const uint8_t*)p + n); }; put(s.a, sizeof s.a); put(s.b, sizeof s.b); put(s.c, sizeof s.c); put(s.d, sizeof s.d); put(s.e, sizeof s.e); put(s.f, sizeof s.f); put(s.g, sizeof s.g); put(s.h, sizeof s.h); put(s.i, 1); put(s.j, 1); put(&s.v, 8); put(&s.w, 8); sa_fresh("requests-share-nothing", o.data(), o.size(), nullptr); }
template <size_t K> static void big() { sa_ctx("bits", K); std::vector<uint8_t> o; for (int k = 0; k < 3; k++) { bignum<K> b = bignum<K>::random(); const uint8_t* p = (const uint8_t*)&b.v[0]; o.insert(o.end(), p, p + K / 8); } sa_fresh("number-from-the-source", o.data(), o.size(), nullptr); }
ENTRY prop_bignum() { big<32>(); big<64>(); big<96>(); big<128>(); big<160>(); big<256>(); big<512>(); big<1024>(); }
// X25519 keys: 251 bits from the source, the others fixed by RFC 7748
ENTRY prop_x25519_key() { std::vector<uint8_t> o, m; for (int k = 0; k < 3; k++) { ec_value key = ec_value::random_private_key(); const uint8_t* p = (const uint8_t*)&key.v.v[0]; o.insert(o.end(), p, p + 32); for (int i = 0; i < 32; i++) m.push_back(i == 0 ? 0xf8 : i == 31 ? 0x3f : 0xff); uint8_t lo = p[0] & 7, hi = p[31] & 0xc0, z = 0, t = 0x40; sa_same("clamped-low", &lo, &z, 1); sa_same("clamped-high", &hi, &t, 1); } sa_fresh("key-from-the-source", o.data(), o.size(), m.data()); }
