// Montgomery arithmetic and RSA exponentiation are exact modular arithmetic for every odd modulus, operand and exponent.
// SA-MIN: 200
#include "priv.h"
#include "sa.h"
#include "caligo/bignum.h"
#include "caligo/mont.h"
#include "caligo/rsa.h"
using namespace Caligo;
template <size_t K> using I = unsigned _BitInt(K); template <size_t K> using W = unsigned _BitInt(2 * K + 32);
template <size_t K> static I<K> val(const bignum<K>& b) { I<K> r = 0; for (size_t i = 0; i < K / 32; i++) r |= (I<K>)b.v[i] << 32 * i; return r; }
template <size_t K> static bignum<K> big(I<K> x) { bignum<K> b; for (size_t i = 0; i < K / 32; i++) b.v[i] = (uint32_t)(x >> 32 * i); return b; }
template <size_t K> static I<K> sym(const char* n) { I<K> r = 0; for (size_t i = 0; i < K / 32; i++) { uint32_t w; sa_symw(&w, 4, n, 0); r |= (I<K>)w << 32 * i; } return r; }
template <size_t K> static void same(const char* id, I<K> got, I<K> exp) { sa_same(id, &got, &exp, K / 8); }
template <size_t K> static I<K> mulm(I<K> a, I<K> b, I<K> n) { return (I<K>)((W<K>)a * b % n); }
template <size_t K> static I<K> addm(I<K> a, I<K> b, I<K> n) { return (I<K>)(((W<K>)a + b) % n); }
template <size_t K> static I<K> powm(I<K> a, I<K> e, I<K> n) { I<K> r = (I<K>)1 % n; for (size_t i = K; i-- > 0;) { r = mulm<K>(r, r, n); I<K> p = mulm<K>(r, a, n); r = (e >> i & 1) ? p : r; } return r; }
// odd moduli around every word boundary, and ordinary ones
template <size_t K> static I<K> modulus(int i) { I<K> M = ~(I<K>)0, x = 0; switch (i) { case 0: return M; case 1: return M - 2; case 2: return ((I<K>)1 << (K - 1)) + 1; case 3: return M >> 1; case 4: return 3; case 5: return 0xffffffff; case 6: return K > 32 ? ((I<K>)1 << (K > 32 ? 32 : 0)) + 1 : 5; case 7: return 1; case 8: return M / 3; case 9: return M - 0xfffe; case 10: return M >> 31; case 11: return M >> 33 | 1; default: { uint32_t s = i * 2654435761u; for (size_t k = 0; k < K / 32; k++) { s = s * 1664525 + 1013904223; x = x << 32 | (s ^ s >> 15); } return x | 1; } } }
static const int NM = 15;
template <size_t K> static void ops(const MontgomeryState<K>& s, I<K> n, I<K> a, I<K> b) { MontgomeryValue<K> x(s, big<K>(a)), y(s, big<K>(b)); same<K>("in-and-out", val<K>(bignum<K>(x)), a % n); MontgomeryValue<K> p = x * y; same<K>("product", val<K>(bignum<K>(p)), mulm<K>(a % n, b % n, n)); MontgomeryValue<K> q = x.square(); same<K>("square", val<K>(bignum<K>(q)), mulm<K>(a % n, a % n, n)); MontgomeryValue<K> t = x + y; same<K>("sum", val<K>(bignum<K>(t)), addm<K>(a % n, b % n, n)); MontgomeryValue<K> u = (t * p) + q; same<K>("combined", val<K>(bignum<K>(u)), addm<K>(mulm<K>(addm<K>(a % n, b % n, n), mulm<K>(a % n, b % n, n), n), mulm<K>(a % n, a % n, n), n)); same<K>("operand-kept", val<K>(bignum<K>(x)), a % n); }
template <size_t K> static I<K> edge(I<K> n, int i) { I<K> M = ~(I<K>)0; switch (i) { case 0: return 0; case 1: return 1; case 2: return n - 1; case 3: return n; case 4: return n + 1; case 5: return M; case 6: return M - 1; case 7: return (I<K>)1 << (K - 1); case 8: return 0xffffffff; default: return n / 2 + 1; } }
template <size_t K> static void arith(int from, int to) { for (int m = from; m < to; m++) { sa_ctx("modulus", m); I<K> n = modulus<K>(m); MontgomeryState<K> s(big<K>(n)); for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) { sa_ctx("operands", i * 10 + j); ops<K>(s, n, edge<K>(n, i), edge<K>(n, j)); } ops<K>(s, n, sym<K>("a"), sym<K>("b")); for (int i = 0; i < 10; i++) { sa_ctx("operand", i); ops<K>(s, n, edge<K>(n, i), sym<K>("b")); } } }
ENTRY prop_arith_32() { arith<32>(0, NM); }
ENTRY prop_arith_64() { arith<64>(0, NM); }
ENTRY prop_arith_96() { arith<96>(0, NM); }
ENTRY prop_arith_128a() { arith<128>(0, 7); }
ENTRY prop_arith_128b() { arith<128>(7, NM); }
ENTRY prop_arith_256() { arith<256>(0, 3); arith<256>(12, NM); }
#ifdef THOROUGH
ENTRY prop_arith_256_more() { arith<256>(3, 12); }
ENTRY prop_arith_512() { arith<512>(0, 3); arith<512>(12, NM); }
#endif
// the sizes of RSA keys
template <size_t K> static void wide(int m) { sa_ctx("size,modulus", K * 100 + m); I<K> n = modulus<K>(m); MontgomeryState<K> s(big<K>(n)); for (int i = 0; i < 9; i += 2) { sa_ctx("operand", i); ops<K>(s, n, edge<K>(n, i), modulus<K>(12)); ops<K>(s, n, edge<K>(n, i + 1), edge<K>(n, i)); } for (uint32_t e : {0u, 1u, 2u, 17u, 65537u}) { sa_ctx("exponent", e); MontgomeryValue<K> x(s, big<K>(modulus<K>(13))); MontgomeryValue<K> r = x.exp(e); I<K> w = (I<K>)1 % n; for (int i = 32; i-- > 0;) { w = mulm<K>(w, w, n); if (e >> i & 1) w = mulm<K>(w, modulus<K>(13) % n, n); } same<K>("power", val<K>(bignum<K>(r)), w); } }
ENTRY prop_wide_512() { for (int m : {0, 2, 9, 12}) wide<512>(m); }
ENTRY prop_wide_1024() { for (int m : {1, 8, 12}) wide<1024>(m); }
ENTRY prop_wide_2048() { for (int m : {0, 13}) wide<2048>(m); }
#ifdef THOROUGH
ENTRY prop_wide_4096() { wide<4096>(14); }
#endif
ENTRY prop_wide_exponent_512() { for (int m : {14}) { sa_ctx("modulus", m); I<512> n = modulus<512>(m); MontgomeryState<512> s(big<512>(n)); for (I<512> e : {n - 2, modulus<512>(12) >> 1}) { MontgomeryValue<512> x(s, big<512>(modulus<512>(13))); MontgomeryValue<512> r = x.exp(big<512>(e)); same<512>("power", val<512>(bignum<512>(r)), powm<512>(modulus<512>(13) % n, e, n)); } } }
// every odd modulus at once
template <size_t K> static MontgomeryState<K> any(I<K>& n) { MontgomeryState<K> s(bignum<K>(3)); n = 3; // the state's own convention is recognised on a sample first
  if constexpr (requires { { s.N = bignum<K>() }; { s.Ninv = bignum<K>() }; { s.R1MN = bignum<K>() }; { s.R2MN = bignum<K>() }; { s.R3MN = bignum<K>() }; }) { W<K> R = (W<K>)1 << K; I<K> r = (I<K>)(R % n); if (val<K>(s.N) != 3 || val<K>(s.Ninv) * 3 != ~(I<K>)0 || val<K>(s.R1MN) != r || val<K>(s.R2MN) != mulm<K>(r, r, n) || val<K>(s.R3MN) != mulm<K>(mulm<K>(r, r, n), r, n)) return s;
    n = sym<K>("n") | 1; I<K> inv = n; for (int i = 0; i < 12; i++) inv *= 2 - n * inv; r = (I<K>)(R % n); s.N = big<K>(n); s.Ninv = big<K>(-inv); s.R1MN = big<K>(r); s.R2MN = big<K>(mulm<K>(r, r, n)); s.R3MN = big<K>(mulm<K>(mulm<K>(r, r, n), r, n)); } return s; }
template <size_t K> static void anyMod() { I<K> n; MontgomeryState<K> s = any<K>(n); I<K> a = sym<K>("a"), b = sym<K>("b"); ops<K>(s, n, a, b); if constexpr (requires (bignum<2 * K> v) { s.REDC(v); }) { I<K> x = (I<K>)((W<K>)a % n); bignum<2 * K> v = big<K>(x) * big<K>(b); I<K> r = val<K>(s.REDC(v)); same<K>("reduction", (I<K>)(((W<K>)r << K) % n), mulm<K>(x, b, n)); } }
ENTRY prop_any_modulus_32() { anyMod<32>(); }
ENTRY prop_any_modulus_64() { anyMod<64>(); }
ENTRY prop_any_modulus_128() { anyMod<128>(); }
ENTRY prop_any_modulus_256() { anyMod<256>(); }
template <size_t K> static void inv() { if constexpr (requires (bignum<K> b) { RecursiveInverseModPower2(b); }) { I<K> a = sym<K>("a") | 1; same<K>("inverse", val<K>(RecursiveInverseModPower2(big<K>(a))) * a, 1); for (int i = 0; i < NM; i++) { sa_ctx("number", i); I<K> n = modulus<K>(i); same<K>("inverse", val<K>(RecursiveInverseModPower2(big<K>(n))) * n, 1); } } }
ENTRY prop_inverse() { inv<32>(); inv<64>(); inv<96>(); inv<128>(); inv<160>(); inv<256>(); inv<512>(); }
// exponentiation
template <size_t K> static void small(const MontgomeryState<K>& s, I<K> n, I<K> a, uint32_t e) { sa_ctx("exponent", e); MontgomeryValue<K> x(s, big<K>(a)); MontgomeryValue<K> r = x.exp(e); same<K>("power", val<K>(bignum<K>(r)), powm<K>(a % n, e, n)); }
template <size_t K> static void smalls() { for (int m : {0, 2, 4, 7, 13}) { sa_ctx("modulus", m); I<K> n = modulus<K>(m); MontgomeryState<K> s(big<K>(n)); for (uint32_t e : {0u, 1u, 2u, 3u, 4u, 5u, 17u, 257u, 65536u, 65537u, 65539u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu, 0xaaaaaaaau}) { small<K>(s, n, sym<K>("a"), e); for (int i = 0; i < 5; i++) small<K>(s, n, edge<K>(n, i), e); } } }
ENTRY prop_small_exponent_32() { smalls<32>(); }
ENTRY prop_small_exponent_64() { smalls<64>(); }
ENTRY prop_small_exponent_128() { smalls<128>(); }
template <size_t K> static void large(const MontgomeryState<K>& s, I<K> n, I<K> a, I<K> e) { MontgomeryValue<K> x(s, big<K>(a)); MontgomeryValue<K> r = x.exp(big<K>(e)); same<K>("power", val<K>(bignum<K>(r)), powm<K>(a % n, e, n)); same<K>("operand-kept", val<K>(bignum<K>(x)), a % n); }
template <size_t K> static void larges() { for (int m : {0, 2, 4, 7, 13}) { sa_ctx("modulus", m); I<K> n = modulus<K>(m); MontgomeryState<K> s(big<K>(n)); large<K>(s, n, sym<K>("a"), sym<K>("e")); for (int i = 0; i < 10; i++) { sa_ctx("exponent", i); large<K>(s, n, edge<K>(n, 2 + i % 3), edge<K>(n, i)); large<K>(s, n, sym<K>("a"), edge<K>(n, i)); } } }
ENTRY prop_exponent_32() { larges<32>(); }
ENTRY prop_exponent_64() { larges<64>(); }
ENTRY prop_exponent_128() { larges<128>(); }
#ifdef THOROUGH
ENTRY prop_exponent_256() { larges<256>(); }
#endif
// RSA: the public and the private operation are m^e and m^d modulo n, whatever the exponent's size
template <size_t K> static void rsa(int m) { sa_ctx("modulus", m); I<K> n = modulus<K>(m); I<K> x = sym<K>("m") % n;
  for (int i = 0; i < 8; i++) { I<K> e = i == 0 ? (I<K>)65537 : i == 1 ? (I<K>)3 : i == 2 ? (I<K>)17 : i == 3 ? (I<K>)65539 : i == 4 ? (I<K>)0xffffffff : i == 5 ? (I<K>)65537 | (I<K>)1 << (K - 1) : i == 6 ? n - 2 : sym<K>("e"); sa_ctx("exponent", i); rsa_public_key<K> k(big<K>(n), big<K>(e)); if constexpr (requires { k.rsaep(big<K>(x)); }) same<K>("public-operation", val<K>(k.rsaep(big<K>(x))), powm<K>(x, e, n)); rsa_private_key<K> q(big<K>(n), big<K>(e)); if constexpr (requires { q.rsadp(big<K>(x)); }) same<K>("private-operation", val<K>(q.rsadp(big<K>(x))), powm<K>(x, e, n)); } }
ENTRY prop_rsa_64() { for (int m : {0, 2, 3, 12, 13}) rsa<64>(m); }
ENTRY prop_rsa_128() { for (int m : {0, 8, 12, 13}) rsa<128>(m); }
// even moduli are refused, they would compute garbage
ENTRY prop_even() { for (int m = 0; m < NM; m++) { sa_ctx("modulus", m); I<96> n = modulus<96>(m) & ~(I<96>)1; int o = outcome([&] { MontgomeryState<96> s(big<96>(n)); }); sa_true("even-modulus-refused", o == 1); o = outcome([&] { rsa_private_key<96> s(big<96>(n), big<96>(3)); }); sa_true("even-modulus-refused", o == 1); o = outcome([&] { rsa_public_key<96> s(big<96>(n), big<96>(3)); }); sa_true("even-modulus-refused", o == 1); } }
