// X25519 is the function of RFC 7748: field arithmetic modulo 2^255-19 for every pair of representatives, the Montgomery ladder, clamping, the ignored
// top bit, and canonical output.
// SA-MIN: 200
// SA-STUB: Caligo::generate_random(std::span<unsigned int=stub_random32
// SA-STUB: Caligo::generate_random(std::span<unsigned char=stub_random8
// SA-STUB: Caligo::generate_random(std::span<unsigned short=stub_random16
// SA-STUB: Caligo::generate_random(std::span<unsigned long=stub_random64
// SA-STUB: Caligo::generate_random_value(=stub_random_value
#include "priv.h"
#include "sa.h"
#include "caligo/x25519.h"
using namespace Caligo;
typedef unsigned _BitInt(256) I; typedef unsigned _BitInt(512) W;
static const I P = ((I)1 << 255) - 19;
static int draws;
template <class X> static void draw(std::span<X> t) { draws += t.size_bytes(); for (auto& w : t) sa_symw(&w, sizeof w, "random", 0); }
extern "C" void stub_random8(std::span<uint8_t> t) { draw(t); }
extern "C" void stub_random16(std::span<uint16_t> t) { draw(t); }
extern "C" void stub_random32(std::span<uint32_t> t) { draw(t); }
extern "C" void stub_random64(std::span<uint64_t> t) { draw(t); }
extern "C" uint64_t stub_random_value() { uint64_t v; draws += 8; sa_symw(&v, 8, "random", 0); return v; }
static I val(const ec_value& e) { I r = 0; for (int i = 0; i < 8; i++) r |= (I)e.v.v[i] << 32 * i; return r; }
static ec_value ec(I x) { bignum<256> b; for (int i = 0; i < 8; i++) b.v[i] = (uint32_t)(x >> 32 * i); return ec_value(b); }
static I canon(I x) { return x % P; }
static I addm(I a, I b) { return (I)(((W)a + b) % P); }
static I subm(I a, I b) { return (I)(((W)canon(a) + P - canon(b)) % P); }
static I mulm(I a, I b) { return (I)((W)a * b % P); }
static void same(const char* id, I got, I exp) { sa_same(id, &got, &exp, 32); }
static I sym(const char* n) { uint8_t d[32]; sa_sym(d, 32, n, 0); I r = 0; for (int i = 0; i < 32; i++) r |= (I)d[i] << 8 * i; return r; }
static I symW(const char* n) { I r = 0; for (int i = 0; i < 8; i++) { uint32_t w; sa_symw(&w, 4, n, 0); r |= (I)w << 32 * i; } return r; }
static I boundary(int i) { I M = ~(I)0, H = (I)1 << 255; switch (i) { case 0: return 0; case 1: return 1; case 2: return 18; case 3: return 19; case 4: return 37; case 5: return 38; case 6: return 39; case 7: return P - 1; case 8: return P; case 9: return P + 1; case 10: return H - 1; case 11: return H; case 12: return H + 1; case 13: return 2 * P - 1; case 14: return 2 * P; case 15: return 2 * P + 1; case 16: return M - 37; case 17: return M - 38; case 18: return M - 1; case 19: return M; case 20: return P / 2; case 21: return P / 2 + 1; case 22: return 0xffffffff; case 23: return (I)1 << 32; case 24: return M << 32; case 25: return M >> 32; case 26: return M - 0xffffffff + 5; case 27: return (I)0xffffffff << 32; case 28: return M / 3; case 29: return H - 20; case 30: return H + 18; case 31: return M - 36; case 32: return (I)121665; default: return M / 5 * 3; } }
static const int NB = 34;
ENTRY prop_add_boundaries() { for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { sa_ctx("pair", i * 100 + j); I a = boundary(i), b = boundary(j); same("sum", canon(val(ec(a) + ec(b))), addm(a, b)); } }
ENTRY prop_sub_boundaries() { for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { sa_ctx("pair", i * 100 + j); I a = boundary(i), b = boundary(j); same("difference", canon(val(ec(a) - ec(b))), subm(a, b)); } }
ENTRY prop_mul_boundaries() { for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { sa_ctx("pair", i * 100 + j); I a = boundary(i), b = boundary(j); same("product", canon(val(ec(a) * ec(b))), mulm(a, b)); } }
ENTRY prop_small_boundaries() { for (int i = 0; i < NB; i++) for (uint32_t k : {0u, 1u, 2u, 19u, 38u, 121665u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) { sa_ctx("number,factor", i * 1000 + k % 1000); I a = boundary(i); same("multiple", canon(val(ec(a) * k)), mulm(a, k)); } }
ENTRY prop_square_boundaries() { for (int i = 0; i < NB; i++) { sa_ctx("number", i); I a = boundary(i); same("square", canon(val(ec(a).square())), mulm(a, a)); } }
// 0: sums etc. of abstract numbers; the others: one operand at a boundary, the other abstract
static void ops(I a, I b) { const ec_value x = ec(a), y = ec(b); sa_freeze(&x); sa_freeze(&y); same("sum", canon(val(x + y)), addm(a, b)); same("difference", canon(val(x - y)), subm(a, b)); same("product", canon(val(x * y)), mulm(a, b)); same("square", canon(val(x.square())), mulm(a, a)); sa_unfreeze(&x); sa_unfreeze(&y); }
ENTRY prop_ops() { ops(symW("a"), symW("b")); ops(sym("a"), sym("b")); uint32_t k; sa_symw(&k, 4, "k", 0); I a = symW("a"); same("multiple", canon(val(ec(a) * k)), mulm(a, k)); same("multiple", canon(val(ec(a) * 121665)), mulm(a, 121665)); }
ENTRY prop_ops_half() { for (int i = 0; i < NB; i++) { sa_ctx("boundary", i); ops(symW("a"), boundary(i)); ops(boundary(i), symW("b")); } }
ENTRY prop_canonical() { for (int i = 0; i <= NB; i++) { sa_ctx("number", i); I a = i == NB ? symW("a") : boundary(i); ec_value x = ec(a); x.applyModulus(); same("canonical", val(x), canon(a)); } }
ENTRY prop_compare() { for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { sa_ctx("pair", i * 100 + j); I a = boundary(i), b = boundary(j); bool e = canon(a) == canon(b), l = canon(a) < canon(b); bool g = ec(a) == ec(b), n = ec(a) != ec(b), h = ec(a) < ec(b), ne = !e; sa_same("equal", &g, &e, 1); sa_same("different", &n, &ne, 1); sa_same("less", &h, &l, 1); } I a = symW("a"), b = symW("b"); bool e = canon(a) == canon(b), l = canon(a) < canon(b); bool g = ec(a) == ec(b), h = ec(a) < ec(b); sa_same("equal", &g, &e, 1); sa_same("less", &h, &l, 1); I c = canon(symW("c")); I d = c + P; g = ec(c) == ec(d); bool t = true; sa_same("representatives-equal", &g, &t, 1); }
ENTRY prop_clamp() { I a = sym("k"); ec_value x = ec(a); x.normalize(); same("clamped", val(x), (a & ~(I)7 & ~((I)1 << 255)) | (I)1 << 254); }
ENTRY prop_select() { for (int s = 0; s < 2; s++) { I a = sym("a"), b = sym("b"); ec_value x = ec(a), y = ec(b); ctime_swap(s, x, y); same("swap", val(x), s ? b : a); same("swap", val(y), s ? a : b); } uint8_t s; sa_sym(&s, 1, "swap", 0); I a = sym("a"), b = sym("b"); ec_value x = ec(a), y = ec(b); ctime_swap(s & 1, x, y); same("swap", val(x), s & 1 ? b : a); same("swap", val(y), s & 1 ? a : b); }
ENTRY prop_private_key() { draws = 0; ec_value k = ec_value::random_private_key(); sa_true("drawn-at-random", draws >= 32); I v = val(k); I m = (v & ~(I)7 & ~((I)1 << 255)) | (I)1 << 254; same("clamped", v, m); draws = 0; ec_value k2 = ec_value::random_private_key(); sa_true("drawn-each-time", draws >= 32); sa_true("all-free-bits-random", !sa_known("key", k2.v.v, 32)); uint8_t b[32]; memcpy(b, k2.v.v, 32); for (int i = 0; i < 32; i++) { sa_ctx("octet", i); sa_true("octet-random", !sa_known("octet", b + i, 1)); } }
static I power(I z, int) { I r = 1; I e = P - 2; for (int i = 254; i >= 0; i--) { r = mulm(r, r); if (e >> i & 1) r = mulm(r, z); } return r; }
ENTRY prop_inverse_boundaries() { for (int i = 0; i < NB; i++) { sa_ctx("number", i); I a = boundary(i); I r = canon(val(inverse(ec(a)))); same("inverse", r, power(a, 0)); same("inverse-inverts", mulm(r, a), canon(a) == 0 ? 0 : 1); } }
ENTRY prop_inverse() { I a = sym("a"); same("inverse", canon(val(inverse(ec(a)))), power(a, 0)); }
static I ladder(I k, I u) { k = (k & ~(I)7 & ~((I)1 << 255)) | (I)1 << 254; u &= ~((I)1 << 255); I x1 = canon(u), x2 = 1, z2 = 0, x3 = x1, z3 = 1; for (int t = 254; t >= 0; t--) { bool b = k >> t & 1; I m = -(I)b; I s = (x2 ^ x3) & m; x2 ^= s; x3 ^= s; s = (z2 ^ z3) & m; z2 ^= s; z3 ^= s; I A = addm(x2, z2), AA = mulm(A, A), B = subm(x2, z2), BB = mulm(B, B), E = subm(AA, BB), C = addm(x3, z3), D = subm(x3, z3), DA = mulm(D, A), CB = mulm(C, B); x3 = addm(DA, CB); x3 = mulm(x3, x3); z3 = subm(DA, CB); z3 = mulm(z3, z3); z3 = mulm(z3, x1); x2 = mulm(AA, BB); z2 = mulm(E, addm(AA, mulm(E, 121665))); s = (x2 ^ x3) & m; x2 ^= s; x3 ^= s; s = (z2 ^ z3) & m; z2 ^= s; z3 ^= s; } return mulm(x2, power(z2, 0)); }
static I hex(const char* s) { I r = 0; for (int i = 0; i < 64; i++) { int d = s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10; r |= (I)d << (i ^ 1) * 4; } return r; }
// the reference ladder itself against RFC 7748, 5.2
ENTRY prop_reference() { I k = hex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), u = hex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"), r = hex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"); same("rfc7748", val(X25519(ec(k), ec(u))), r); if (ladder(k, u) != r) sa_fail("reference-ladder"); }
static void points(std::initializer_list<int> l) { I k = hex("77076d0a7318a57d3c16c17251b26645df4c6f8700000000b51177fba51db92c"); for (int i : l) { sa_ctx("point", i); I u = boundary(i); same("result", val(X25519(ec(k), ec(u))), ladder(k, u)); } }
static void scalars(std::initializer_list<int> l) { I u = hex("de9edb7d7b7dbc1a35b61c2ece435373f8343c85b78674dadfc7e146f8000000"); for (int i : l) { sa_ctx("scalar", i); I k = boundary(i); same("result", val(X25519(ec(k), ec(u))), ladder(k, u)); } }
ENTRY prop_x25519_points_a() { points({0, 1, 7}); }
ENTRY prop_x25519_points_b() { points({8, 9, 10}); }
ENTRY prop_x25519_points_c() { points({11, 12, 19}); }
ENTRY prop_x25519_scalars_a() { scalars({0, 19, 28}); }
ENTRY prop_x25519_scalars_b() { scalars({10, 11, 33}); }
#ifdef THOROUGH
ENTRY prop_x25519_points_d() { points({2, 3, 4, 5, 6, 13, 14, 15}); }
ENTRY prop_x25519_points_e() { points({16, 17, 18, 20, 21, 22, 23, 24}); }
ENTRY prop_x25519_points_f() { points({25, 26, 27, 28, 29, 30, 31, 32, 33}); }
ENTRY prop_x25519_scalars_d() { scalars({1, 2, 3, 4, 5, 6, 7, 8, 9}); }
ENTRY prop_x25519_scalars_e() { scalars({12, 13, 14, 15, 16, 17, 18, 20, 21}); }
ENTRY prop_x25519_scalars_f() { scalars({22, 23, 24, 25, 26, 27, 29, 30, 31, 32}); }
#endif
ENTRY prop_x25519() { I k = sym("k"), u = sym("u"); same("result", val(X25519(ec(k), ec(u))), ladder(k, u)); }
ENTRY prop_x25519_nine() { I k = sym("k"); same("result", val(X25519(ec(k), ec(9))), ladder(k, 9)); }
ENTRY prop_bytes() { uint8_t d[32]; sa_sym(d, 32, "octets", 0); I x = 0; for (int i = 0; i < 32; i++) x |= (I)d[i] << 8 * i; ec_value e{bignum<256>(std::span<const uint8_t>(d, 32))}; same("little-endian", val(e), x); auto v = e.as_bytes(); sa_true("octet-count", v.size() == 32); if (v.size() == 32) sa_same("octets-back", v.data(), d, 32); ec_value w = ec(0); uint32_t k; sa_symw(&k, 4, "k", 0); w = k; same("number", val(w), k); w = ec(x); for (size_t i = 0; i < 256; i++) { sa_ctx("bit", i); int b = w.bit(i), f = (int)(x >> i & 1); sa_same("bit", &b, &f, 4); } w.wipe(); same("wiped", val(w), 0); }
