// Primality: numbers up to 7919 are decided exactly, larger ones by Miller-Rabin with every prime base below 7920, and random primes are odd, full-sized,
// freshly drawn and tested. Exponentiation is abstracted here (C22 decides it): a script says what every base's sequence of squares is.
// SA-MIN: 1000
// SA-STUB: Caligo::MontgomeryState<64ul>::MontgomeryState(=stub_state
// SA-STUB: Caligo::MontgomeryValue<64ul>::MontgomeryValue(Caligo::MontgomeryState=stub_value
// SA-STUB: Caligo::MontgomeryValue<64ul>::exp(Caligo::bignum=stub_exp
// SA-STUB: Caligo::MontgomeryValue<64ul>::exp(unsigned=stub_exp32
// SA-STUB: Caligo::MontgomeryValue<64ul>::operator*(=stub_mul
// SA-STUB: Caligo::MontgomeryValue<64ul>::square(=stub_square
// SA-STUB: Caligo::MontgomeryValue<64ul>::operator Caligo::bignum=stub_out
// SA-STUB: bool Caligo::miller_rabin_is_probably_prime<128ul>(=stub_prime
// SA-STUB: bool Caligo::miller_rabin_is_probably_prime<160ul>(=stub_prime_160
// SA-STUB: bool Caligo::miller_rabin_is_probably_prime<512ul>(=stub_prime_512
// SA-STUB: bool Caligo::miller_rabin_is_probably_prime<2048ul>(=stub_prime_2048
// SA-STUB: Caligo::MontgomeryState<320ul>::MontgomeryState(=wide_state
// SA-STUB: Caligo::MontgomeryValue<320ul>::MontgomeryValue(Caligo::MontgomeryState=wide_value
// SA-STUB: Caligo::MontgomeryValue<320ul>::exp(Caligo::bignum=wide_exp
// SA-STUB: Caligo::MontgomeryValue<320ul>::exp(unsigned=wide_exp32
// SA-STUB: Caligo::MontgomeryValue<320ul>::operator*(=wide_mul
// SA-STUB: Caligo::MontgomeryValue<320ul>::square(=wide_square
// SA-STUB: Caligo::MontgomeryValue<320ul>::operator Caligo::bignum=wide_out
#include "priv.h"
#include "sa.h"
#include "caligo/bignum.h"
#include "caligo/mont.h"
#include "caligo/random.h"
#include "caligo/random_prime.h"
using namespace Caligo;
typedef MontgomeryState<64> S; typedef MontgomeryValue<64> V; typedef bignum<64> N64;
static uint64_t num(const N64& b) { return b.v[0] | (uint64_t)b.v[1] << 32; }
static N64 big(uint64_t x) { N64 b; b.v[0] = (uint32_t)x; b.v[1] = (uint32_t)(x >> 32); return b; }
// the script: for every base, where -1 appears in its sequence of squares (-1: it starts with 1, -2: nowhere), and where 1 appears
static uint64_t n_, d_; static int dflt, special, sp_base, odd_base_one; static int exps, wrongexp, unknown; static uint8_t seen[8192];
static const uint64_t TAG = 1ull << 62;
static uint64_t word(const V* v) { uint64_t x; memcpy(&x, &v->value, 8); return x; }
static V mk(const V* like, uint64_t x) { V r = *like; memcpy((void*)&r.value, &x, 8); return r; }
extern "C" {
void stub_state(S* s, const void*) { memset((void*)s, 0, sizeof *s); }
void stub_value(V* v, const S* s, const N64* in) { memset((void*)v, 0, sizeof *v); if constexpr (requires { v->state = s; }) v->state = s; uint64_t x = num(*in); memcpy((void*)&v->value, &x, 8); }
V stub_exp(const V* b, N64 e) { exps++; uint64_t a = word(b); if (a >= 8192) unknown++; else seen[a] = 1; if (num(e) != d_) wrongexp++; return mk(b, TAG | a << 16); }
V stub_exp32(const V* b, uint32_t e) { exps++; uint64_t a = word(b); if (a >= 8192) unknown++; else seen[a] = 1; if (e != d_) wrongexp++; return mk(b, TAG | a << 16); }
V stub_square(const V* x) { uint64_t w = word(x); if ((w >> 48) != (TAG >> 48)) unknown++; return mk(x, w + 1); }
V stub_mul(const V* x, const V* y) { if (word(x) != word(y)) unknown++; return stub_square(x); }
N64 stub_out(const V* x) { uint64_t w = word(x); if ((w >> 48) != (TAG >> 48)) return big(w); int a = w >> 16 & 0xffff, j = w & 0xffff; int s = a == sp_base ? special : dflt; if (s == -1) return big(1); if (s >= 0) return big(j == s ? n_ - 1 : j > s ? 1 : 1000003 + a * 64 + j); return big(odd_base_one && j >= odd_base_one ? 1 : 1000003 + a * 64 + j); }
}
static const uint64_t P[] = {0xc30d8b7651b7a4bfull, 0xdaf84e693d659c9dull, 0xe0597bdaedf22049ull, 0xa6a5bc974a677c71ull, 0x9ed2aa1ffa43e121ull, 0x80b91b378343f141ull, 0xc3cdc33e2aeef081ull, 0x8016e1d111eb3701ull, 0x84366929648e0201ull, 0xb212c41c48f23401ull, 0xd9bbb0015a5a6801ull, 0xd23c659e2be57001ull, 0xa043b8552f9c6001ull, 0x95055bb353144001ull, 0x9f52ebc8b5608001ull, 0x8e350b26efff0001ull, 0xcbc8b2851a260001ull, 0xc083b2b553ac0001ull, 0xa1fd00340c680001ull, 0x8df3956546700001ull, 0xe71a38d55f600001ull, 0x89484edd67400001ull, 0xe1282ed757800001ull, 0xc9e5662733000001ull, 0xcf9fc86d06000001ull, 0xa1b73268e4000001ull, 0x87d2f6e4d8000001ull, 0xa249f32750000001ull, 0xf5da588a20000001ull, 0xd12163a9c0000001ull, 0xb67344c380000001ull, 0xc7df24e300000001ull, 0xcbb01a0600000001ull, 0xed3d170000000001ull, 0xaedb000000000001ull, 0xf600000000000001ull,
  0x300000005, 0x500000003, 0x500001edd, 0x700000009, 0x800001eef, 0xd00000009, 0xf00001edd, 7927, 7933, 7937, 7949, 7951, 7963, 0xfffffffb};
static int R; static void pick(uint64_t n) { n_ = n; d_ = n - 1; R = 0; while (!(d_ & 1)) d_ >>= 1, R++; exps = wrongexp = unknown = 0; dflt = special = -1; sp_base = 0; odd_base_one = 0; }
static bool go() { return miller_rabin_is_probably_prime<64>(big(n_)); }
static bool modelled() { static int m = -1; if (m < 0) { pick(P[0]); bool r = go(); m = exps > 0 && !unknown && (r || !r); } return m; }
static void expect(const char* id, bool want) { bool r = go(); if (unknown) return; sa_true(id, r == want); if (exps) sa_true("exponent-is-the-odd-part", wrongexp == 0); }
// where -1 appears: at each place of the sequence or nowhere
static void positions(int from, int to) { if (!modelled()) return; for (int i = from; i < to && i < int(sizeof P / sizeof *P); i++) { uint64_t n = P[i]; pick(n); sa_ctx("trailing-zeros", R); int last = -9; for (int j : {0, R / 2, R - 1}) if (j != last) { last = j; pick(n); sp_base = 2; special = j; expect("accepted-when-every-base-agrees", true); }
    pick(n); sp_base = 2; special = -2; expect("rejected-without-minus-one", false); for (int o = 1; o < R; o++) { pick(n); sp_base = 2; special = -2; odd_base_one = o; expect("one-without-minus-one-is-composite", false); } } }
ENTRY prop_positions_a() { positions(0, 10); }
ENTRY prop_positions_b() { positions(10, 20); }
ENTRY prop_positions_c() { positions(20, 30); }
ENTRY prop_positions_d() { positions(30, 40); }
ENTRY prop_positions_e() { positions(40, 60); }
ENTRY prop_all_bases() { if (!modelled()) return; for (uint64_t n : {P[0], P[1], P[4]}) { pick(n); sa_ctx("trailing-zeros", R); for (int j = 0; j < R; j++) { pick(n); dflt = special = j; expect("accepted-when-every-base-agrees", true); } } }
static bool tableprime(int x) { if (x < 2) return false; for (int k = 2; k * k <= x; k++) if (x % k == 0) return false; return true; }
// every prime base is used, and each of them alone can reject
ENTRY prop_bases() { if (!modelled()) return; for (uint64_t n : {P[0], P[5], P[20], P[40]}) { pick(n); sa_ctx("trailing-zeros", R); memset(seen, 0, sizeof seen); bool r = go(); if (unknown) continue; sa_true("accepted", r); for (int b = 2; b < 7920; b++) if (tableprime(b)) { sa_ctx("base", b); sa_true("base-used", seen[b]); } } }
static void oneBase(int from, int to) { if (!modelled()) return; for (int b = from; b < to; b++) if (tableprime(b)) { sa_ctx("base", b); pick(P[2]); sp_base = b; special = -2; expect("one-base-rejects", false); } }
ENTRY prop_base_a() { oneBase(2, 800); }
ENTRY prop_base_b() { oneBase(7800, 7920); oneBase(3900, 4000); }
ENTRY prop_base_c() { oneBase(800, 3000); }
ENTRY prop_base_d() { oneBase(3000, 5500); }
ENTRY prop_base_e() { oneBase(5500, 7800); }
// even numbers, all at once
ENTRY prop_even() { pick(P[0]); uint64_t x; sa_symw(&x, 8, "number", 0); bool r, f = false; for (int k = 13; k < 64; k += 3) { sa_ctx("bit", k); uint64_t y = x << 1 | 1ull << k; r = miller_rabin_is_probably_prime<64>(big(y)); sa_same("even-rejected", &r, &f, 1); } bignum<96> b(0); for (int i = 0; i < 3; i++) { uint32_t w; sa_symw(&w, 4, "number", 0); b.v[i] = w; } b.v[0] &= ~1u; b.v[2] |= 1; r = miller_rabin_is_probably_prime<96>(b); sa_same("even-rejected", &r, &f, 1); }
// small numbers, one by one
static void small(int from, int to) { for (int x = from; x < to; x++) { sa_ctx("number", x); sa_true("exact-below-7920", miller_rabin_is_probably_prime<32>(bignum<32>(x)) == tableprime(x)); } }
ENTRY prop_small_a() { small(0, 1320); }
ENTRY prop_small_b() { small(1320, 2640); }
ENTRY prop_small_c() { small(2640, 3960); }
ENTRY prop_small_d() { small(3960, 5280); }
ENTRY prop_small_e() { small(5280, 6600); }
ENTRY prop_small_f() { small(6600, 7920); }
ENTRY prop_small_wide() { for (int x = 0; x < 7920; x = x < 100 || x > 7900 ? x + 1 : x + 97) { sa_ctx("number", x); sa_true("exact-below-7920", miller_rabin_is_probably_prime<256>(bignum<256>(x)) == tableprime(x)); } }
// composites that fool single bases, with the real arithmetic
ENTRY prop_composites() { for (uint32_t x : {7921u, 7923u, 7925u, 8321u, 15841u, 29341u, 42799u, 49141u, 52633u, 65281u, 74665u, 80581u, 85489u, 88357u, 90751u, 104653u, 130561u, 196093u, 220729u, 233017u, 252601u, 253241u, 256999u, 4294967295u, 3215031751u, 4294836225u, 4294049777u}) { if (x == 4294836225u || x % 2 == 0) continue; sa_ctx("composite", x); sa_true("composite-rejected", !miller_rabin_is_probably_prime<32>(bignum<32>(x))); bignum<96> w(x); sa_true("composite-rejected", !miller_rabin_is_probably_prime<96>(w)); } }
#ifdef THOROUGH
ENTRY prop_real_prime() { sa_true("prime-accepted", miller_rabin_is_probably_prime<32>(bignum<32>(4294967291u))); }
ENTRY prop_real_prime_2() { sa_true("prime-accepted", miller_rabin_is_probably_prime<32>(bignum<32>(7927u))); }
#endif
// random primes
static int rejections, tests; static bignum<128> last; static uint8_t lastWide[256]; template <size_t N> static bool primeWide(const bignum<N>* b) { memcpy(lastWide, &b->v[0], N / 8); tests++; if (rejections) { rejections--; return false; } return true; }
extern "C" { bool stub_prime_160(const bignum<160>* b) { return primeWide(b); } bool stub_prime_512(const bignum<512>* b) { return primeWide(b); } bool stub_prime_2048(const bignum<2048>* b) { return primeWide(b); } }
extern "C" bool stub_prime(const bignum<128>* b) { last = *b; tests++; if (rejections) { rejections--; return false; } return true; }
template <bool fips> static void draw() { for (int k = 0; k < 6; k++) { sa_ctx("rejections", k); rejections = k; tests = 0; bignum<128> p = random_prime<128, fips>(); sa_true("tested", tests == k + 1); if (!tests) continue; sa_same("the-tested-number-is-returned", &p.v[0], &last.v[0], 16); uint8_t b[16], m[16]; memcpy(b, &p.v[0], 16); memset(m, 0xff, 16); m[0] = 0xfe; m[15] = fips ? 0x3f : 0x7f; sa_fresh("drawn-afresh", b, 16, m); uint8_t lo = b[0] & 1, hi = b[15] & (fips ? 0xc0 : 0x80), l1 = 1, h1 = fips ? 0xc0 : 0x80; sa_same("odd", &lo, &l1, 1); sa_same("full-size", &hi, &h1, 1); } }
ENTRY prop_random_prime() { draw<false>(); }
ENTRY prop_random_prime_fips() { draw<true>(); }
template <size_t N, bool fips> static void drawWide(int maxRejections) { for (int k = 0; k <= maxRejections; k = k < 2 ? k + 1 : k * 4) { sa_ctx("bits,rejections", long(N) * 1000 + k); rejections = k; tests = 0; bignum<N> p = random_prime<N, fips>(); sa_true("tested", tests == k + 1); if (!tests) continue; sa_same("the-tested-number-is-returned", &p.v[0], lastWide, N / 8); uint8_t b[N / 8], m[N / 8]; memcpy(b, &p.v[0], N / 8); memset(m, 0xff, N / 8); m[0] = 0xfe; m[N / 8 - 1] = fips ? 0x3f : 0x7f; sa_fresh("drawn-afresh", b, N / 8, m); uint8_t lo = b[0] & 1, hi = b[N / 8 - 1] & (fips ? 0xc0 : 0x80), l1 = 1, h1 = fips ? 0xc0 : 0x80; sa_same("odd", &lo, &l1, 1); sa_same("full-size", &hi, &h1, 1); } }
ENTRY prop_random_prime_wide() { drawWide<160, false>(600); drawWide<160, true>(40); drawWide<512, false>(10); drawWide<512, true>(10); drawWide<2048, false>(2); drawWide<2048, true>(2); }
// ---- numbers of several words, with more squarings than a word has bits
typedef MontgomeryState<320> WS; typedef MontgomeryValue<320> WV; typedef bignum<320> W;
static const uint32_t WP[][10] = {
  {0x279bcc13, 0x4ada2105, 0xb872debc, 0xa9626602, 0x877ec9d2, 0x29ab5d49, 0xe272bce2, 0x75c8c2aa, 0x5a7fc52e, 0x13b124},
  {0x5991a905, 0x4cdc992c, 0x175ed8b, 0x86b180db, 0x876ef626, 0x26430892, 0xe890ecc9, 0x66462e29, 0x87d661a0, 0x990},
  {0x2ac94d89, 0xfa8c005f, 0x660776db, 0x5ccc720a, 0x4aa3a947, 0x30171ef4, 0x7fd554c6, 0x4ed8e1fa, 0xf5be72dc, 0xffc},
  {0x80000001, 0xc94e76e3, 0xd92e3f8a, 0x8e775e0c, 0x5e27b47b, 0x41b00692, 0xf462681b, 0x4b5285bf, 0xc88eedc9, 0x948},
  {0x1, 0xb3df0515, 0x40611c92, 0x6009a07a, 0x1a514b4d, 0x5d61d917, 0x5b4d315a, 0xa9baa6c4, 0xcd9f5ec5, 0x85c82e},
  {0x1, 0xd9ffa412, 0x5c143169, 0x9684b641, 0x1b923824, 0xa909a3ed, 0x89d84ea0, 0xc665136d, 0x8a2d7bc8, 0xf5bba5},
  {0x1, 0xc0000000, 0xb26a1b06, 0x353febed, 0xd3163ced, 0xb3c6d113, 0x4471735b, 0x6e50c1de, 0xe3c98650, 0xf479bf},
  {0x1, 0x80000000, 0x7fa752c2, 0x5d4d3c, 0xe552c984, 0x70ba9fb1, 0xbd67b419, 0x84d44cbf, 0x3fa87476, 0x868aa1},
  {0x1, 0x0, 0x7f8491c5, 0x7e4b9284, 0x5d1cebda, 0xb10b8b15, 0xf9e82520, 0x49b3609, 0xe9635fb, 0xe00},
  {0x1, 0x0, 0x75d94776, 0x7a552679, 0xb30fca84, 0xc3416def, 0xb2577a75, 0xf7a25c49, 0x33ecde9b, 0x96fc08},
  {0x1, 0x0, 0xc71b0a34, 0x8539744e, 0xac82558e, 0x73083250, 0xda7c4a34, 0xa5eaf889, 0x6daf015c, 0xae4},
  {0x1, 0x0, 0x80000000, 0x92220873, 0x14cf2a0e, 0x943ec3d8, 0x9369dd80, 0x131e6c2c, 0x8e217f29, 0x96a},
  {0x1, 0x0, 0x0, 0xb8f45d59, 0x3fad229d, 0x5a717e8c, 0x9232b58a, 0xcffc7001, 0xe69c1b6c, 0x982},
  {0x1, 0x0, 0x0, 0x6c14da8a, 0x526372a4, 0x192401a3, 0x1e921e64, 0x6e714a7b, 0xec365576, 0x1e7d50},
  {0x1, 0x0, 0x0, 0x80000000, 0xf13cc93, 0x42ea4a97, 0x3b638c27, 0x2669fcb0, 0xbe59aef7, 0xf79d2f},
  {0x1, 0x0, 0x0, 0x0, 0x81c0587b, 0x1a2456d0, 0x9c3f1d0, 0x555235fa, 0x4112e822, 0x169aab},
  {0x1, 0x0, 0x0, 0x0, 0x653ac16e, 0xfc702b81, 0xeea4d810, 0xbf4beddd, 0xac850300, 0x13286b},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x80ea089b, 0xe04988a8, 0xee5fdf9a, 0x6b819704, 0xc72ba6},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x9e0f6d00, 0xf705276f, 0x464dc656, 0xcee},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x40000000, 0x3dca5d59, 0x9bc},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x80000000, 0x9a293f1, 0x1d3a3f},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0xf222e391, 0xd8067e},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x75def822, 0xb91384},
  {0x1, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x891000},
};
static W wn, wd; static int wR; static const uint32_t WT = 0x40000000;
static bool wtag(const WV* v) { uint32_t t[10]; memcpy(t, &v->value, 40); return t[9] == WT; }
static WV wmk(const WV* like, uint32_t a, uint32_t j) { WV r = *like; uint32_t t[10] = {j, a, 0, 0, 0, 0, 0, 0, 0, WT}; memcpy((void*)&r.value, t, 40); return r; }
static bool weq(const W& a, const W& b) { for (int i = 0; i < 10; i++) if (a.v[i] != b.v[i]) return false; return true; }
static uint32_t wbase(const WV* v) { uint32_t t[10]; memcpy(t, &v->value, 40); for (int i = 1; i < 10; i++) if (t[i]) return 8192; return t[0]; }
extern "C" {
void wide_state(WS* s, const void*) { memset((void*)s, 0, sizeof *s); }
void wide_value(WV* v, const WS* s, const W* in) { memset((void*)v, 0, sizeof *v); if constexpr (requires { v->state = s; }) v->state = s; memcpy((void*)&v->value, &in->v[0], 40); }
WV wide_exp(const WV* b, const W* e) { exps++; uint32_t a = wbase(b); if (a >= 8192) unknown++; if (!weq(*e, wd)) wrongexp++; return wmk(b, a, 0); }
WV wide_exp32(const WV* b, uint32_t) { exps++; wrongexp++; return wmk(b, wbase(b), 0); }
WV wide_square(const WV* x) { uint32_t t[10]; memcpy(t, &x->value, 40); if (t[9] != WT) unknown++; return wmk(x, t[1], t[0] + 1); }
WV wide_mul(const WV* x, const WV* y) { if (memcmp(&x->value, &y->value, 40)) unknown++; return wide_square(x); }
W wide_out(const WV* x) { uint32_t t[10]; memcpy(t, &x->value, 40); if (t[9] != WT) { W r; for (int i = 0; i < 10; i++) r.v[i] = t[i]; return r; } int j = t[0], s = int(t[1]) == sp_base ? special : dflt; W other(1000003 + t[1]); other.v[1] = t[0]; if (s == -1) return W(1); if (s >= 0) { if (j > s) return W(1); if (j < s) return other; W m = wn; m.v[0]--; return m; } return odd_base_one && j >= odd_base_one ? W(1) : other; }
}
static void wpick(int i) { for (int k = 0; k < 10; k++) wd.v[k] = wn.v[k] = WP[i][k]; wd.v[0]--; wR = 0; while (!(wd.v[0] & 1)) { for (int k = 0; k < 10; k++) wd.v[k] = wd.v[k] >> 1 | (k < 9 ? wd.v[k + 1] << 31 : 0); wR++; } exps = wrongexp = unknown = 0; dflt = special = -1; sp_base = 0; odd_base_one = 0; }
static bool wgo() { return miller_rabin_is_probably_prime<320>(wn); }
static bool wmodelled() { static int m = -1; if (m < 0) { wpick(5); bool r = wgo(); m = exps > 0 && !unknown && (r || !r); } return m; }
static void wexpect(const char* id, bool want) { bool r = wgo(); if (unknown) return; sa_true(id, r == want); if (exps) sa_true("exponent-is-the-odd-part", wrongexp == 0); }
static void wide(int from, int to) { if (!wmodelled()) return; for (int i = from; i < to && i < int(sizeof WP / sizeof *WP); i++) { wpick(i); sa_ctx("trailing-zeros", wR); int r = wR; for (int j : {0, 1, 31, 32, 63, 64, 65, 127, 128, 255, 256, r - 1}) if (j < r) { sa_ctx("trailing-zeros,place", r * 1000 + j); wpick(i); sp_base = 2; special = j; wexpect("accepted-when-every-base-agrees", true); wpick(i); sp_base = 7919; special = j; wexpect("accepted-when-every-base-agrees", true); }
    sa_ctx("trailing-zeros", r); for (int b : {2, 3, 7919}) { wpick(i); sp_base = b; special = -2; wexpect("rejected-without-minus-one", false); wpick(i); sp_base = b; special = r; wexpect("minus-one-after-the-last-square-does-not-count", false); for (int o : {1, 2, 63, 64, 65, r - 1}) if (o > 0 && o < r) { wpick(i); sp_base = b; special = -2; odd_base_one = o; wexpect("one-without-minus-one-is-composite", false); } } } }
ENTRY prop_wide_a() { wide(0, 5); }
ENTRY prop_wide_b() { wide(5, 10); }
ENTRY prop_wide_c() { wide(10, 14); }
ENTRY prop_wide_d() { wide(14, 18); }
ENTRY prop_wide_e() { wide(18, 21); }
ENTRY prop_wide_f() { wide(21, 24); }
