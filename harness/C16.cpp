// Big integers: every operation of bignum is exact integer arithmetic on its whole range, reports its carry or borrow, keeps its operands, and
// converts to and from octets, words and other sizes without losing anything that fits.
// SA-MIN: 400
#include "priv.h"
#include "sa.h"
#include <random>
#include "caligo/bignum.h"
using namespace Caligo;
typedef uint32_t u32; typedef uint64_t u64;
template <size_t K> static bignum<K> sym(const char* n) { bignum<K> b; for (auto& w : b.v) sa_symw(&w, 4, n, 0); return b; }
template <size_t K> static void same(const char* id, const bignum<K>& a, const u32* e) { sa_same(id, a.v, e, sizeof a.v); }
static u32 radd(u32* r, const u32* a, const u32* b, size_t n) { u64 t = 0; for (size_t i = 0; i < n; i++) { t += (u64)a[i] + b[i]; r[i] = t; t >>= 32; } return t; }
static u32 rsub(u32* r, const u32* a, const u32* b, size_t n) { u32 br = 0; for (size_t i = 0; i < n; i++) { u64 t = (u64)a[i] - b[i] - br; r[i] = t; br = (t >> 32) ? 1 : 0; } return br; }
static void rmul(u32* r, const u32* a, size_t an, const u32* b, size_t bn) { for (size_t i = 0; i < an + bn; i++) r[i] = 0; for (size_t i = 0; i < an; i++) { u64 t = 0; for (size_t j = 0; j < bn; j++) { t += (u64)a[i] * b[j] + r[i + j]; r[i + j] = t; t >>= 32; } r[i + bn] = t; } }
template <size_t K> static void arith() { constexpr size_t N = (K + 31) / 32; const auto a = sym<K>("a"), b = sym<K>("b"); sa_freeze(&a); sa_freeze(&b); u32 e[2 * N + 2];
  { auto [c, s] = a + b; u32 x = radd(e, a.v, b.v, N); same("sum", s, e); bool y = x; sa_same("carry", &c, &y, 1); auto t = a; bool c2 = t.add(b.v); same("add", t, e); sa_same("add-carry", &c2, &y, 1); }
  { auto [c, s] = a - b; u32 x = rsub(e, a.v, b.v, N); same("difference", s, e); bool y = x; sa_same("borrow", &c, &y, 1); auto t = a; bool c2 = t.sub(b.v); same("sub", t, e); sa_same("sub-borrow", &c2, &y, 1); bool l = a < b; sa_same("less", &l, &y, 1); auto [c3, s3] = a - a; sa_true("self-borrow", !c3); for (auto& w : e) w = 0; same("self-difference", s3, e); sa_true("not-less-than-self", !(a < a)); }
  { auto p = a * b; rmul(e, a.v, N, b.v, N); for (size_t i = 0; i < sizeof p.v / 4; i++) sa_same("product", &p.v[i], &e[i], 4); auto q = a.square(); rmul(e, a.v, N, a.v, N); for (size_t i = 0; i < sizeof q.v / 4; i++) sa_same("square", &q.v[i], &e[i], 4); }
  { u32 m; sa_symw(&m, 4, "m", 0); auto p = a * m; rmul(e, a.v, N, &m, 1); for (size_t i = 0; i < N + 1; i++) sa_same("word-product", &p.v[i], &e[i], 4); }
  { bool q = a == b, r = true; for (size_t i = 0; i < N; i++) r &= a.v[i] == b.v[i]; sa_same("equality", &q, &r, 1); sa_true("equals-self", a == a); }
  { auto x = a ^ b; for (size_t i = 0; i < N; i++) e[i] = a.v[i] ^ b.v[i]; same("xor", x, e); x = a; auto& x2 = (x ^= b); same("xor-assign", x, e); sa_true("returns-itself", &x2 == &x); x = a; auto& x3 = (x &= b); for (size_t i = 0; i < N; i++) e[i] = a.v[i] & b.v[i]; same("and-assign", x, e); sa_true("returns-itself", &x3 == &x); x = a; x.neg(); for (size_t i = 0; i < N; i++) e[i] = ~a.v[i]; same("complement", x, e); }
  { for (int sw = 0; sw < 2; sw++) { auto x = a, y = b; ctime_swap(sw, x, y); same("swap", x, sw ? b.v : a.v); same("swap", y, sw ? a.v : b.v); } uint8_t s; sa_sym(&s, 1, "swap", 0); auto x = a, y = b; ctime_swap(s & 1, x, y); for (size_t i = 0; i < N; i++) e[i] = s & 1 ? b.v[i] : a.v[i]; same("swap-any", x, e); for (size_t i = 0; i < N; i++) e[i] = s & 1 ? a.v[i] : b.v[i]; same("swap-any", y, e); }
  sa_unfreeze(&a); sa_unfreeze(&b); }
ENTRY prop_arith_32() { arith<32>(); }
ENTRY prop_arith_64() { arith<64>(); }
ENTRY prop_arith_96() { arith<96>(); }
ENTRY prop_arith_128() { arith<128>(); }
ENTRY prop_arith_256() { arith<256>(); }
ENTRY prop_arith_1024() { arith<1024>(); }
ENTRY prop_arith_2048() { arith<2048>(); }
ENTRY prop_arith_512() { arith<512>(); }
#ifdef THOROUGH
ENTRY prop_arith_4096() { arith<4096>(); }
#endif
// one operand at a boundary, the other one abstract: carries and borrows through every word
template <size_t K> static void ripple() { constexpr size_t N = K / 32; const auto a = sym<K>("a"); u32 e[2 * N + 2]; for (size_t i = 0; i < N; i++) for (int k = 0; k < 6; k++) { sa_ctx("word,kind", i * 10 + k); bignum<K> b; for (size_t j = 0; j < N; j++) b.v[j] = k == 0 ? (j == i ? 0xffffffff : 0) : k == 1 ? (j <= i ? 0xffffffff : 0) : k == 2 ? (j == i) : k == 3 ? (j >= i ? 0xffffffff : 0) : k == 4 ? (j == i ? 0x80000000 : 0) : (j < i ? 0 : 1);
    auto [c, s] = a + b; bool y = radd(e, a.v, b.v, N); same("sum", s, e); sa_same("carry", &c, &y, 1); auto [c1, s1] = a - b; y = rsub(e, a.v, b.v, N); same("difference", s1, e); sa_same("borrow", &c1, &y, 1); auto [c2, s2] = b - a; y = rsub(e, b.v, a.v, N); same("difference", s2, e); sa_same("borrow", &c2, &y, 1); bool l = b < a; sa_same("less", &l, &y, 1);
    auto p = a * b; rmul(e, a.v, N, b.v, N); for (size_t j = 0; j < 2 * N; j++) sa_same("product", &p.v[j], &e[j], 4); auto q = b * a; for (size_t j = 0; j < 2 * N; j++) { u32 z[2 * N]; rmul(z, b.v, N, a.v, N); sa_same("product", &q.v[j], &z[j], 4); } } }
ENTRY prop_ripple_64() { ripple<64>(); }
ENTRY prop_ripple_128() { ripple<128>(); }
ENTRY prop_ripple_256() { ripple<256>(); }
ENTRY prop_ripple_512() { ripple<512>(); }
template <size_t K> static void bits() { constexpr size_t N = K / 32; const auto a = sym<K>("a"); u32 e[N]; for (size_t n = 0; n < K; n++) { sa_ctx("bit", n); int b = a.bit(n), r = a.v[n / 32] >> n % 32 & 1; sa_same("bit", &b, &r, 4); auto x = a; x.set_bit(n); memcpy(e, a.v, sizeof e); e[n / 32] |= 1u << n % 32; same("set-bit", x, e); x = a; x.clear_bit(n); memcpy(e, a.v, sizeof e); e[n / 32] &= ~(1u << n % 32); same("clear-bit", x, e); }
  auto x = a; for (size_t n = 0; n <= K; n++) { sa_ctx("shifts", n); for (size_t i = 0; i < N; i++) { u32 v = 0; for (size_t b = 0; b < 32; b++) { size_t q = i * 32 + b + n; if (q < K) v |= (a.v[q / 32] >> q % 32 & 1) << b; } e[i] = v; } same("shift-right", x, e); x.shr1(); }
  for (size_t w = 0; w <= N; w++) { sa_ctx("words", w); x = a; x.shl_word(w); for (size_t i = 0; i < N; i++) e[i] = i < w ? 0 : a.v[i - w]; same("shift-left-words", x, e); } }
ENTRY prop_bits_64() { bits<64>(); }
ENTRY prop_bits_160() { bits<160>(); }
ENTRY prop_bits_512() { bits<512>(); }
// sizes that are not whole words: only the bits below the size count
template <size_t K> constexpr u32 topmask = K % 32 ? (1u << K % 32) - 1 : 0xffffffffu;
template <size_t K, size_t L> static void conv() { constexpr size_t N = (K + 31) / 32, M = (L + 31) / 32; sa_ctx("from,to", K * 10000 + L); auto a = sym<K>("a"); a.v[N - 1] &= topmask<K>; bignum<L> b(a); u32 e[M] = {}; for (size_t i = 0; i < M && i < N; i++) e[i] = a.v[i]; e[M - 1] &= topmask<L>; b.v[M - 1] &= topmask<L>; same("resized", b, e); }
template <size_t K> static void convs() { conv<K, 32>(); conv<K, 33>(); conv<K, 64>(); conv<K, 65>(); conv<K, 96>(); conv<K, 128>(); conv<K, 129>(); conv<K, 256>(); }
ENTRY prop_resize() { convs<32>(); convs<33>(); convs<64>(); convs<65>(); convs<96>(); convs<128>(); convs<129>(); convs<256>(); }
template <size_t K> static void octets() { constexpr size_t N = (K + 31) / 32; uint8_t d[4 * N + 9]; sa_sym(d, sizeof d, "octets", 0); u32 e[N]; for (size_t n = 0; n <= sizeof d; n++) { sa_ctx("octets", n); for (size_t i = 0; i < N; i++) { e[i] = 0; for (size_t k = 0; k < 4; k++) if (4 * i + k < n) e[i] |= (u32)d[4 * i + k] << 8 * k; } bignum<K> b(std::span<const uint8_t>(d, n)); same("from-octets", b, e); auto v = b.as_bytes(); sa_true("octet-count", v.size() == 4 * N); if (v.size() == 4 * N) { uint8_t x[4 * N] = {}; memcpy(x, d, n < 4 * N ? n : 4 * N); sa_same("octets-back", v.data(), x, 4 * N); } }
  const auto a = sym<K>("a"); auto v = a.as_bytes(); bignum<K> b{std::span<const uint8_t>(v)}; same("round-trip", b, a.v); u32 w[N]; for (size_t i = 0; i < N; i++) w[i] = a.v[N - 1 - i]; bignum<K> c{std::span<const u32>(w, N)}; same("from-words", c, a.v); u32 q; sa_symw(&q, 4, "q", 0); bignum<K> s(q); for (size_t i = 0; i < N; i++) e[i] = i ? 0 : q; same("from-number", s, e); s = a; auto& r = (s = q); same("assign-number", s, e); sa_true("returns-itself", &r == &s); bignum<K> z; for (auto& i : e) i = 0; same("default-zero", z, e);
  for (size_t i = 0; i < N; i++) sa_true("element", &a[i] == &a.v[i] && &s[i] == &s.v[i]); }
template <size_t K> static void odd_octets() { constexpr size_t N = (K + 31) / 32; uint8_t d[4 * N + 9]; sa_sym(d, sizeof d, "octets", 0); u32 e[N]; for (size_t n = 0; n <= sizeof d; n++) { sa_ctx("octets", n * 10000 + K); for (size_t i = 0; i < N; i++) { e[i] = 0; for (size_t k = 0; k < 4; k++) if (4 * i + k < n) e[i] |= (u32)d[4 * i + k] << 8 * k; } bignum<K> b(std::span<const uint8_t>(d, n)); b.v[N - 1] &= topmask<K>; e[N - 1] &= topmask<K>; same("from-octets", b, e); auto v = b.as_bytes(); sa_true("octet-count", v.size() * 8 >= K); uint8_t x[4 * N] = {}; memcpy(x, b.v, 4 * N); sa_same("octets-back", v.data(), x, (K + 7) / 8); } 
  auto a = sym<K>("a"); a.v[N - 1] &= topmask<K>; auto v = a.as_bytes(); bignum<K> b{std::span<const uint8_t>(v)}; same("round-trip", b, a.v); }
static const char digit[17] = "0123456789ABCDEF";
// the text form: eight hexadecimal digits for every word, leading zeros included, most significant word first, words separated by one space
template <size_t K> static void text() { constexpr size_t N = (K + 31) / 32; auto a = sym<K>("a"); sa_freeze(&a); sa_ctx("bits", K); std::string s = to_string(a); sa_true("text-length", s.size() == 9 * N - 1); if (s.size() != 9 * N - 1) return;
  for (size_t i = 0; i < N; i++) { uint8_t e[9]; for (int k = 0; k < 8; k++) { uint8_t q = a.v[N - 1 - i] >> (28 - 4 * k) & 15; e[k] = digit[q]; } e[8] = ' '; sa_same("text", s.data() + 9 * i, e, i + 1 < N ? 9 : 8); } sa_unfreeze(&a); }
template <class B> static void shown(B) { if constexpr (requires (const B& b) { { to_string(b) } -> std::convertible_to<std::string>; }) { text<32>(); text<33>(); text<64>(); text<160>(); text<256>(); text<521>(); text<1024>(); text<2048>(); text<4096>(); } }
template <size_t K> static void text_values() { constexpr size_t N = (K + 31) / 32; static const u32 w[] = {0, 1, 0xa, 0x10, 0xbcd, 0x1234, 0xfffff, 0x7654321, 0x80000000, 0xffffffff, 0xdeadbeef}; for (size_t r = 0; r < 12; r++) { bignum<K> a(0); for (size_t i = 0; i < N; i++) a.v[i] = r == 11 ? (i == 0 ? 7 : 0) : w[(i + r) % 11]; sa_ctx("bits,value", K * 100 + r);
  std::string s = to_string(a); sa_true("text-length", s.size() == 9 * N - 1); if (s.size() != 9 * N - 1) continue; for (size_t i = 0; i < N; i++) { uint8_t e[9]; for (int k = 0; k < 8; k++) e[k] = digit[a.v[N - 1 - i] >> (28 - 4 * k) & 15]; e[8] = ' '; sa_same("text", s.data() + 9 * i, e, i + 1 < N ? 9 : 8); } } }
template <class B> static void shown_values(B) { if constexpr (requires (const B& b) { { to_string(b) } -> std::convertible_to<std::string>; }) { text_values<32>(); text_values<64>(); text_values<256>(); text_values<521>(); text_values<1024>(); text_values<2048>(); text_values<4096>(); } }
ENTRY prop_text_values() { shown_values(bignum<64>(0)); }
ENTRY prop_text() { shown(bignum<64>(0)); }
template <size_t K, size_t S> static void part() { auto a = sym<320>("a"); sa_ctx("start,bits", S * 1000 + K); auto t = a.slice<K>(S); constexpr size_t N = (K + 31) / 32; for (size_t i = 0; i < N; i++) { u32 x = t.v[i], y = a.v[S / 32 + i]; if (i == N - 1) { x &= topmask<K>; y &= topmask<K>; } sa_same("slice", &x, &y, 4); } }
ENTRY prop_slices() { part<1, 0>(); part<8, 32>(); part<33, 0>(); part<40, 64>(); part<64, 256>(); part<95, 128>(); part<129, 32>(); part<250, 0>(); part<255, 64>(); part<256, 64>(); part<288, 32>(); part<289, 0>(); part<320, 0>(); }
ENTRY prop_octets_odd() { odd_octets<33>(); odd_octets<40>(); odd_octets<63>(); odd_octets<129>(); odd_octets<250>(); }
ENTRY prop_octets_32() { octets<32>(); }
ENTRY prop_octets_128() { octets<128>(); }
ENTRY prop_octets_256() { octets<256>(); }
ENTRY prop_octets_1024() { octets<1024>(); }
ENTRY prop_octets_2048() { octets<2048>(); }
ENTRY prop_lists() { u32 w[5]; for (auto& x : w) sa_symw(&x, 4, "w", 0); bignum<160> a{w[0], w[1], w[2], w[3], w[4]}; u32 e[5] = {w[4], w[3], w[2], w[1], w[0]}; same("list", a, e); bignum<160> b{w[0], w[1]}; u32 f[5] = {w[1], w[0], 0, 0, 0}; same("short-list", b, f); bignum<160> s = a; auto t = s.slice<96>(32); same("slice", t, e + 1); auto t2 = s.slice<64>(0); same("slice", t2, e); auto t3 = s.slice<32>(128); same("slice", t3, e + 4); }
// remainder: against the compiler's own wide remainder
template <size_t V, size_t P> static void reduce(u32 topword, const char* nm) { constexpr size_t N = V / 32, M = P / 32; const auto a = sym<V>("a"); bignum<P> p; for (size_t i = 0; i < M; i++) p.v[i] = 0; if (topword) { for (size_t i = 0; i < M; i++) p.v[i] = i + 1 == M ? topword : 0x89abcdef * (i + 1); } else p.v[0] = 3; sa_ctx(nm, topword); auto r = a.naive_reduce(p);
  unsigned _BitInt(V) x = 0, q = 0; for (size_t i = 0; i < N; i++) x |= (unsigned _BitInt(V))a.v[i] << 32 * i; for (size_t i = 0; i < M; i++) q |= (unsigned _BitInt(V))p.v[i] << 32 * i; x %= q; u32 e[M]; for (size_t i = 0; i < M; i++) e[i] = (u32)(x >> 32 * i); same("remainder", r, e); }
ENTRY prop_reduce_a() { for (u32 t : {0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x12345678u}) reduce<64, 32>(t, "64 mod 32"); }
ENTRY prop_reduce_b() { for (u32 t : {0u, 1u, 0x7fffffffu, 0x80000001u, 0xffffffffu}) reduce<128, 64>(t, "128 mod 64"); }
ENTRY prop_reduce_c() { for (u32 t : {0u, 1u, 0x80000001u, 0xfffffffeu}) reduce<96, 96>(t, "96 mod 96"); }
ENTRY prop_reduce_d() { for (u32 t : {1u, 0x80000001u, 0xfffffffeu}) reduce<160, 64>(t, "160 mod 64"); }
// boundary numbers modulo boundary numbers, at every size up to the products of RSA keys: both sides fold to constants
template <size_t V> static unsigned _BitInt(V) special(size_t bits, int i) { typedef unsigned _BitInt(V) T; T one = 1, m = ~(T)0 >> (V - bits); switch (i) { case 0: return m; case 1: return m - 1; case 2: return one << (bits - 1); case 3: return (one << (bits - 1)) + 1; case 4: return (one << (bits - 1)) - 1; case 5: return m / 3; case 6: return m / 7 * 5; case 7: return bits > 32 ? (one << (bits > 32 ? bits - 32 : 0)) + 1 : 1; case 8: return bits > 32 ? (one << (bits > 32 ? bits - 32 : 0)) - 1 : 2; case 9: return 1; case 10: return 3; case 11: return 0xffffffff; case 12: return bits > 32 ? m - 0xffffffff : 5; default: return 0; } }
template <size_t V, size_t P> static void edges(int from, int to, int step = 1) { typedef unsigned _BitInt(V) T; for (int j = 0; j < 13; j += step) { T q = special<V>(P, j); for (int i = from; i < to; i++) for (int d = 0; d < 2; d++) { T x = special<V>(V, i); if (d) x = x / q * q; sa_ctx("modulus,number", j * 100 + i * 2 + d); bignum<V> a; for (size_t k = 0; k < V / 32; k++) a.v[k] = (u32)(x >> 32 * k); bignum<P> p; for (size_t k = 0; k < P / 32; k++) p.v[k] = (u32)(q >> 32 * k); auto r = a.naive_reduce(p); u32 e[P / 32]; for (size_t k = 0; k < P / 32; k++) e[k] = (u32)((x % q) >> 32 * k); same("remainder", r, e); u32 pe[P / 32]; for (size_t k = 0; k < P / 32; k++) pe[k] = (u32)(q >> 32 * k); same("modulus-kept", p, pe); } } }
ENTRY prop_edges_64() { edges<64, 32>(0, 14); edges<64, 64>(0, 14); }
ENTRY prop_edges_96() { edges<96, 32>(0, 14); edges<96, 64>(0, 14); edges<96, 96>(0, 14); }
ENTRY prop_edges_256() { edges<256, 128>(0, 14); edges<256, 256>(0, 14); }
ENTRY prop_edges_512() { edges<512, 256>(0, 14); edges<512, 512>(0, 5, 2); }
ENTRY prop_edges_1024() { edges<1024, 512>(0, 2, 2); edges<1024, 512>(6, 7, 2); }
ENTRY prop_edges_2048() { edges<2048, 1024>(0, 1, 3); edges<2048, 1024>(6, 7, 4); }
