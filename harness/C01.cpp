// Constant time, private-key side: no branch, memory address, variable-time instruction or early-exit comparison depends on a private scalar, a
// private exponent or an intermediate value derived from it. Moduli, sizes and public keys are public.
// SA-MIN: 6
// SA-MAXSEC: 500
#include "priv.h"
#include "hashes.h"
#include "sa.h"
#include <stdexcept>
#include <algorithm>
#include "caligo/bignum.h"
#include "caligo/mont.h"
#include "caligo/x25519.h"
#include "caligo/rsa.h"
using namespace Caligo;
#ifdef THOROUGH
static constexpr size_t BIG = 512; static constexpr size_t RSAN = 1024;
#else
static constexpr size_t BIG = 256; static constexpr size_t RSAN = 512;
#endif
template <size_t K> static bignum<K> sec(const char* n, int g = 1) { bignum<K> b; sa_sym(b.v, sizeof b.v, n, g); return b; }
template <size_t K> static bignum<K> mod(uint32_t seed) { bignum<K> b; uint32_t x = seed; for (size_t i = 0; i < K / 32; i++) { x = x * 1664525 + 1013904223; b.v[i] = x; } b.v[0] |= 1; b.v[K / 32 - 1] |= 0x80000000; return b; }
template <class... T> static void use(T&... v) { ((sa_freeze(&v), sa_unfreeze(&v)), ...); }
// integers
template <size_t K> static void arith() { auto a = sec<K>("a"), b = sec<K>("b"); auto s = a + b; auto d = a - b; auto m = a * b; auto q = a.square(); auto w = a * 7u; bool c = a < b, e = a == b; use(c, e); a ^= b; a &= b; auto x = a ^ b; uint8_t sw; sa_sym(&sw, 1, "swap", 1); ctime_swap(sw & 1, a, b); auto sh = a; sh.shr1(); bignum<K + 32> wide(a); auto bytes_ = a.as_bytes(); auto neg = a; neg.neg(); use(s, d, m, q, w, x, wide, neg, sh, a, b); sa_true("analysed", bytes_.size() == K / 8); }
ENTRY ct_bignum_64() { arith<64>(); }
ENTRY ct_bignum_256() { arith<256>(); }
ENTRY ct_bignum_2048() { arith<2048>(); }
// Montgomery
template <size_t K> static void mont() { MontgomeryState<K> s(mod<K>(7)); auto a = sec<K>("a"), b = sec<K>("b"), e = sec<K>("exponent"); MontgomeryValue<K> x(s, a), y(s, b); auto p = x * y; auto q = x.square(); auto r = x + y; bignum<K> o = p; use(o); o = q; use(o); o = r; auto t = s.REDC(a * b); use(t, o); auto v = x.exp(e); bignum<K> out = v; sa_true("analysed", out.as_bytes().size() == K / 8); }
ENTRY ct_mont_64() { mont<64>(); }
ENTRY ct_mont_128() { mont<128>(); }
ENTRY ct_mont_big() { mont<BIG>(); }
// RSA
template <size_t K> static void rsa() { auto n = mod<K>(11); rsa_private_key<K> k(n, sec<K>("private-exponent")); uint8_t m[40]; sa_sym(m, 40, "message", 0); auto c = sec<K>("ciphertext", 0); auto p = k.rsadp(c); sa_true("analysed", p.as_bytes().size() == K / 8); auto s = k.template signPkcs1_5Signature<SHA2<256>>(bytes(m, 40)); sa_true("analysed", s.size() < 10000); }
ENTRY ct_rsa() { rsa<RSAN>(); }
ENTRY ct_rsa_pss() { auto n = mod<RSAN>(13); rsa_private_key<RSAN> k(n, sec<RSAN>("private-exponent")); uint8_t m[32], salt[20]; sa_sym(m, 32, "digest", 0); sa_sym(salt, 20, "salt", 0); auto s = k.template signPssSignature<SHA2<256>, MGF1<SHA1>>(bytes(m, 32), bytes(salt, 20)); sa_true("analysed", s.size() < 10000); }
// X25519
ENTRY ct_field() { ec_value a = sec<256>("a"), b = sec<256>("b"); auto s = a + b; auto d = a - b; auto m = a * b; auto w = a * 121665u; auto q = a.square(); bool e = a == b, l = a < b, ne = a != b; use(e, l, ne, s, d, m, w, q); auto r = a; r.applyModulus(); use(r); r.normalize(); use(r); uint8_t sw; sa_sym(&sw, 1, "swap", 1); ctime_swap(sw & 1, a, b); auto i = inverse(a); use(i, a, b); sa_true("analysed", a.as_bytes().size() == 32); }
ENTRY ct_x25519() { ec_value k = sec<256>("scalar"), u = sec<256>("u", 0); ec_value r = X25519(k, u); sa_true("analysed", r.as_bytes().size() == 32); }
ENTRY ct_x25519_base() { ec_value k = sec<256>("scalar"); ec_value r = X25519(k, {9}); sa_true("analysed", r.as_bytes().size() == 32); }
// the peer's coordinate times a secret stays secret: shared secrets are handled in constant time too
ENTRY ct_x25519_secret_u() { ec_value k = sec<256>("scalar", 0), u = sec<256>("u"); ec_value r = X25519(k, u); sa_true("analysed", r.as_bytes().size() == 32); }
