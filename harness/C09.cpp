// RSA signatures follow RFC 8017: PKCS#1 v1.5 and PSS encodings, lengths and ranges, and the choice of scheme. Modular exponentiation is an abstract
// pair of inverse functions here (C22 decides it); the hash is an abstract function in the scheme entries and the real one in the dispatch entries.
// SA-MIN: 200
// SA-STUB: Caligo::MontgomeryState<320ul>::MontgomeryState(=stub_state
// SA-STUB: Caligo::MontgomeryState<4096ul>::MontgomeryState(=stub_state
// SA-STUB: Caligo::MontgomeryValue<320ul>::MontgomeryValue(Caligo::MontgomeryState=stub_val_320
// SA-STUB: Caligo::MontgomeryValue<320ul>::exp(unsigned int)=stub_exp_u_320
// SA-STUB: Caligo::MontgomeryValue<320ul>::exp(Caligo::bignum=stub_exp_b_320
// SA-STUB: Caligo::MontgomeryValue<320ul>::operator Caligo::bignum=stub_out_320
// SA-STUB: Caligo::MontgomeryValue<4096ul>::MontgomeryValue(Caligo::MontgomeryState=stub_val_4096
// SA-STUB: Caligo::MontgomeryValue<4096ul>::exp(unsigned int)=stub_exp_u_4096
// SA-STUB: Caligo::MontgomeryValue<4096ul>::exp(Caligo::bignum=stub_exp_b_4096
// SA-STUB: Caligo::MontgomeryValue<4096ul>::operator Caligo::bignum=stub_out_4096
// SA-STUB: Caligo::generate_random(std::span<unsigned char=stub_random
#include "priv.h"
#include "hashes.h"
#include "sa.h"
#include "der.h"
#include "caligo/rsa.h"
#include "caligo/X509Certificate.h"
using namespace Caligo;
// ---- the abstract permutation: numbers are kept as they are, exponentiation by D and E are inverse to each other, others unrelated
static size_t BITS, KLEN; static uint64_t EXPE = 65537; static bool forced; static uint8_t forcedEm[512]; static int nextRandom; static B randomBytes;
struct Pair { uint8_t em[512], s[512]; }; static Pair pairs[4]; static int npairs; static int expCalls; static uint8_t lastIn[512], lastOut[512];
static const uint32_t DMARK = 0x00d00d01;   // the private exponents used by the entries start with this word
template <size_t N> static void power(uint32_t* v, bool priv, uint64_t e) { constexpr size_t NB = N / 8; uint8_t in[NB], out[NB] = {}; memcpy(in, v, NB); expCalls++; memcpy(lastIn, in, NB);
  if (priv) { sa_uf("dp", in, KLEN, out, KLEN); out[KLEN - 1] &= uint8_t(0xff >> (8 * KLEN - BITS)); out[0] &= 0xfe; Pair& p = pairs[npairs++ % 4]; memset(&p, 0, sizeof p); memcpy(p.em, in, NB); memcpy(p.s, out, NB); }
  else if (forced) memcpy(out, forcedEm, NB);
  else { uint8_t key[NB + 8]; memcpy(key, in, NB); memcpy(key + NB, &e, 8); sa_uf("ep", key, NB + 8, out, KLEN); out[KLEN - 1] &= uint8_t(0xff >> (8 * KLEN - BITS)); if (e == EXPE) for (int i = 0; i < npairs; i++) { uint8_t d = 0; for (size_t k = 0; k < NB; k++) d |= in[k] ^ pairs[i].s[k]; for (size_t k = 0; k < NB; k++) out[k] = d == 0 ? pairs[i].em[k] : out[k]; } }
  memcpy(lastOut, out, NB); memcpy(v, out, NB); }
template <size_t N> struct MV { const void* state; uint32_t v[N / 32]; };
template <size_t N> static void powb(MV<N>* r, const MV<N>* a, const uint32_t* e) { *r = *a; bool isD = e[0] == DMARK && e[1] == 7; uint32_t hi = 0; for (size_t i = 2; i < N / 32; i++) hi |= e[i]; uint64_t w = e[0] | uint64_t(e[1]) << 32; sa_true("exponent-is-one-of-the-key", hi == 0 && (isD || w == EXPE)); power<N>(r->v, isD, w); }
extern "C" {
void stub_state(void*, const void*) {}
#define STUBS(N) void stub_val_##N(MV<N>* self, const void* st, const uint32_t* in) { self->state = st; memcpy(self->v, in, N / 8); } void stub_exp_u_##N(MV<N>* r, const MV<N>* self, uint32_t e) { *r = *self; sa_true("exponent-is-one-of-the-key", e == EXPE); power<N>(r->v, false, e); } void stub_exp_b_##N(MV<N>* r, const MV<N>* self, const uint32_t* e) { powb<N>(r, self, e); } void stub_out_##N(uint32_t* r, const MV<N>* self) { memcpy(r, self->v, N / 8); }
STUBS(320) STUBS(4096)
void stub_random(uint8_t* p, size_t n) { if (n) sa_sym(p, n, "salt", 0); nextRandom++; randomBytes.assign(p, p + n); }
}
template <size_t N> static bignum<N> modulus(size_t bits) { BITS = bits; KLEN = (bits + 7) / 8; bignum<N> n; for (size_t i = 0; i < bits; i++) n.set_bit(i); return n; }
template <size_t N> static bignum<N> expD() { bignum<N> d; d.v[0] = DMARK; d.v[1] = 7; return d; }
static void reset() { forced = false; npairs = 0; expCalls = 0; nextRandom = 0; }
// ---- an abstract hash
template <size_t O, size_t AID> struct TH { static constexpr size_t hashsize = O, blocksize = 64; B buf; TH() {} template <typename... T> TH(T... ts) { (add(ts), ...); } void add(std::string_view s) { add(std::span<const uint8_t>((const uint8_t*)s.data(), s.size())); } void add(std::span<const uint8_t> d) { buf.insert(buf.end(), d.begin(), d.end()); }
  static void go(const uint8_t* p, size_t n, uint8_t* o) { sa_uf("H", p, n, o, O); }
  operator std::array<uint8_t, O>() const { std::array<uint8_t, O> a; go(buf.data(), buf.size(), a.data()); return a; } std::array<uint8_t, O> data() const { return *this; } static size_t MaxLength() { return ~size_t(0); } static B getAsn1Id() { B v; for (size_t i = 0; i < AID; i++) v.push_back(uint8_t(0x30 + i)); return v; } };
typedef TH<4, 3> T4; typedef TH<6, 0> T6;
template <class H> struct HR { static B go(const B& m) { B o(H::hashsize); if constexpr (requires { H::go((const uint8_t*)0, size_t(0), (uint8_t*)0); }) H::go(m.data(), m.size(), o.data()); else Ref<H>::go(m.data(), m.size(), o.data()); return o; } };
// ---- reference encodings (big endian)
template <class H> static B mgf1(const B& seed, size_t len) { B t; for (uint32_t c = 0; t.size() < len; c++) t = t + HR<H>::go(seed + B{uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c)}); t.resize(len); return t; }
template <class H> static B pss(const B& mhash, const B& salt, size_t emBits) { size_t emLen = (emBits + 7) / 8; B h = HR<H>::go(B(8, 0) + mhash + salt), db(emLen - salt.size() - H::hashsize - 2, 0); db.push_back(1); db = db + salt; B m = mgf1<H>(h, db.size()); for (size_t i = 0; i < db.size(); i++) m[i] ^= db[i]; m[0] &= uint8_t(0xff >> (8 * emLen - emBits)); return m + h + B{0xbc}; }
template <class H> static B digestInfo() { return H::getAsn1Id(); }
template <class H> static B pkcs1(const B& data, size_t k) { B wrapped = tlv(0x30, data); B t = digestInfo<H>() + HR<H>::go(wrapped); B o{0, 1}; o = o + B(k - t.size() - 3, 0xff); o.push_back(0); return o + t; }
static B be(const uint8_t* le, size_t n) { B o(n); for (size_t i = 0; i < n; i++) o[i] = le[n - 1 - i]; return o; }
static void same(const char* id, const B& a, const B& b) { sa_true(id, a.size() == b.size()); if (a.size() == b.size() && a.size()) sa_same(id, a.data(), b.data(), a.size()); }
static void force(const B& em) { forced = true; memset(forcedEm, 0, 512); for (size_t i = 0; i < em.size(); i++) forcedEm[i] = em[em.size() - 1 - i]; }
template <size_t N> static rsa_public_key<N> pub(size_t bits, uint64_t e = 65537) { EXPE = e; bignum<N> b; b.v[0] = uint32_t(e); b.v[1] = uint32_t(e >> 32); return rsa_public_key<N>(modulus<N>(bits), b); }
// ---- PKCS#1 v1.5
template <size_t N, class H> static void p1(size_t bits, size_t dn, uint64_t e) { sa_ctx("bits,len", long(bits * 1000000 + dn)); reset(); rsa_private_key<N> priv(modulus<N>(bits), expD<N>()); auto pk = pub<N>(bits, e); B data = any(dn, "data"); B em = pkcs1<H>(data, KLEN);
  B s = priv.template signPkcs1_5Signature<H>(data); sa_true("one-exponentiation", expCalls == 1); same("encoding", be(lastIn, N / 8), B(N / 8 - KLEN, 0) + em); same("signature-octets", s, be(lastOut, KLEN));
  bool v = pk.template validatePkcs1_5Signature<H>(data, s), t = true; sa_same("signature-verifies", &v, &t, 1);
  B d2 = data; if (dn) { for (size_t k : {size_t(0), dn / 2, dn - 1}) { d2 = data; d2[k] ^= 0x10; bool w = pk.template validatePkcs1_5Signature<H>(d2, s), f = false; sa_same("other-message-fails", &w, &f, 1); } }
  for (size_t k = 0; k < s.size(); k++) { B s2 = s; s2[k] ^= uint8_t(k + 1 == s.size() ? 2 : k ? 0x80 : 1); bool w = pk.template validatePkcs1_5Signature<H>(data, s2), f = false; sa_same("other-signature-fails", &w, &f, 1); } }
template <size_t N, class H> static void p1forced(size_t bits, uint64_t e) { reset(); auto pk = pub<N>(bits, e); B data = any(5, "data"), s = any(KLEN, "sig"), em = pkcs1<H>(data, KLEN); s[0] &= uint8_t((0xff >> (8 * KLEN - BITS)) >> 1);
  for (size_t k = 0; k < KLEN; k++) { sa_ctx("octet", long(k)); uint8_t x = sa_any("change"); B m = em; m[k] ^= x; force(m); bool v = pk.template validatePkcs1_5Signature<H>(data, s), w = x == 0; sa_same("every-octet-of-the-encoding-counts", &v, &w, 1); }
  sa_ctx("shapes", 0); auto no = [&](const B& m, const char* what) { force(m); bool v = pk.template validatePkcs1_5Signature<H>(data, s), f = false; sa_same(what, &v, &f, 1); }; B hash = HR<H>::go(tlv(0x30, data)), di = digestInfo<H>() + hash; size_t room = KLEN - di.size();
  no(B{0, 2} + B(room - 3, 0xff) + B{0} + di, "block-type-2"); no(B{0, 1} + B(8, 0xff) + B{0} + di + B(room - 11, 0x55), "digest-info-must-end-the-block"); no(B{0, 1} + B(room - 2, 0xff) + di, "no-separator"); no(B{0, 1, 0} + di + B(room - 3, 0xff), "no-padding"); no(B{0, 1} + B(KLEN - 3 - hash.size(), 0xff) + B{0} + hash, digestInfo<H>().empty() ? "digest-alone-is-the-encoding" : "digest-without-info"); no(B{1} + B(KLEN - 1, 0), "unrelated"); }
#define P1(n, N, H, bits) ENTRY prop_pkcs1_##n() { for (size_t d : {0, 1, 20}) for (uint64_t e : {65537ull, 3ull, 0x100000000ull + 65537, 0x1100000003ull}) p1<N, H>(bits, d, e); }
P1(a, 320, T4, 320) P1(b, 320, T4, 312) P1(c, 320, T4, 313) P1(d, 320, T4, 319) P1(e, 320, T4, 257) P1(f, 320, T4, 144)
ENTRY prop_pkcs1_lengths() { for (size_t d : {127, 128, 255, 256, 300, 1000}) p1<320, T4>(320, d, 65537); }
// long messages: the length octets of the wrapped message take one, two or three octets
static void p1long(size_t dn) { sa_ctx("long,len", long(dn)); reset(); rsa_private_key<320> priv(modulus<320>(320), expD<320>()); auto pk = pub<320>(320); B data = any(dn, "data"), em = pkcs1<T4>(data, 40), s = priv.template signPkcs1_5Signature<T4>(data); same("encoding", be(lastIn, 40), em); force(em); bool v = pk.template validatePkcs1_5Signature<T4>(data, s), t = true; sa_same("signature-verifies", &v, &t, 1); }
ENTRY prop_pkcs1_long() { for (size_t d : {65535, 65536, 70000}) p1long(d); }
// the scheme numbers are those of the TLS registry (RFC 8446, 4.2.3)
ENTRY prop_scheme_numbers() { using enum Tls13SignatureScheme; static const int got[] = {int(rsa_pkcs1_sha256), int(rsa_pkcs1_sha384), int(rsa_pkcs1_sha512), int(rsa_pss_rsae_sha256), int(rsa_pss_rsae_sha384), int(rsa_pss_rsae_sha512), int(rsa_pss_pss_sha256), int(rsa_pss_pss_sha384), int(rsa_pss_pss_sha512), int(ecdsa_secp256r1_sha256), int(ecdsa_secp384r1_sha384), int(ecdsa_secp521r1_sha512), int(ed25519), int(ed448)}, want[] = {0x401, 0x501, 0x601, 0x804, 0x805, 0x806, 0x809, 0x80a, 0x80b, 0x403, 0x503, 0x603, 0x807, 0x808}; for (size_t i = 0; i < sizeof want / sizeof *want; i++) { sa_ctx("scheme", want[i]); sa_true("scheme-number", got[i] == want[i]); } }
ENTRY prop_pkcs1_octets() { for (size_t b : {320, 313, 200}) p1forced<320, T4>(b, 65537); p1forced<320, T4>(320, 3); }
template <size_t N, class H> static void refused(size_t bits) { sa_ctx("bits", long(bits)); reset(); rsa_private_key<N> priv(modulus<N>(bits), expD<N>()); auto pk = pub<N>(bits); B data = any(3, "data"), s = any(KLEN, "sig"), salt = any(H::hashsize, "salt"); size_t k = KLEN; B r; bool fit1 = k >= H::getAsn1Id().size() + H::hashsize + 11, fit2 = (bits - 1 + 7) / 8 >= 2 * H::hashsize + 2; int t = outcome([&] { r = priv.template signPkcs1_5Signature<H>(data); }); sa_true("key-too-small-for-pkcs1", fit1 ? t == 0 && r.size() == k : t == 1); t = outcome([&] { r = priv.template signPssSignature<H, MGF1<H>>(HR<H>::go(data), salt); }); sa_true("key-too-small-for-pss", fit2 ? t == 0 && r.size() == k : t == 1); bool v = true, w = true, f = false; t = outcome([&] { v = pk.template validatePkcs1_5Signature<H>(data, s); w = pk.template validatePssSignature<H, MGF1<H>>(data, s); }); sa_true("verification-does-not-throw", t == 0); if (!fit1) sa_same("nothing-verifies-under-a-small-key", &v, &f, 1); if (!fit2) sa_same("nothing-verifies-under-a-small-key", &w, &f, 1); }
ENTRY prop_small_keys() { for (size_t b = 9; b < 150; b += b < 100 ? 3 : 1) refused<320, T4>(b); }
// ---- signature length and range
template <size_t N, class H> static void range(size_t bits) { sa_ctx("bits", long(bits)); reset(); auto pk = pub<N>(bits); B data = any(3, "data"), mh = HR<H>::go(data); bool f = false; for (size_t n = 0; n < KLEN + 12; n++) { if (n == KLEN) continue; B s = any(n, "sig"); for (int w = 0; w < 2; w++) { force(w ? pss<H>(mh, B(H::hashsize, 7), bits - 1) : pkcs1<H>(data, KLEN)); bool v = w ? pk.template validatePssSignature<H, MGF1<H>>(data, s) : pk.template validatePkcs1_5Signature<H>(data, s); sa_same("wrong-length-fails", &v, &f, 1); if (n > KLEN) { for (size_t k = 0; k < n - KLEN; k++) s[k] = 0; v = w ? pk.template validatePssSignature<H, MGF1<H>>(data, s) : pk.template validatePkcs1_5Signature<H>(data, s); sa_same("padded-signature-fails", &v, &f, 1); } } } }
ENTRY prop_lengths() { range<320, T4>(320); range<320, T4>(313); range<320, T4>(256); }
template <size_t N, class H> static void below(size_t bits, uint32_t seed) { sa_ctx("bits", long(bits)); reset(); bignum<N> n = modulus<N>(bits); uint32_t x = seed; for (size_t i = 0; i + 1 < bits / 32; i++) { x = x * 1664525 + 1013904223; n.v[i] = x | (i == 0); } rsa_public_key<N> pk(n, bignum<N>(65537)); B data = any(3, "data"), mh = HR<H>::go(data), nb = be((const uint8_t*)n.v, KLEN); for (int w = 0; w < 2; w++) { force(w ? pss<H>(mh, B(H::hashsize, 7), bits - 1) : pkcs1<H>(data, KLEN)); auto go = [&](const B& s) { return w ? pk.template validatePssSignature<H, MGF1<H>>(data, s) : pk.template validatePkcs1_5Signature<H>(data, s); };
    auto is = [&](B s, bool want, const char* id) { bool v = go(s); sa_same(id, &v, &want, 1); }; is(nb, false, "modulus-itself-fails"); B a = nb; a[KLEN - 1] -= 1; is(a, true, "below-the-modulus-passes"); a = nb; a[KLEN - 1] += 1; if (a[KLEN - 1]) is(a, false, "above-the-modulus-fails"); is(B(KLEN, 0xff), false, "above-the-modulus-fails"); for (size_t k = 0; k < KLEN; k++) { if (nb[k] != 0xff) { a = nb; a[k]++; for (size_t j = k + 1; j < KLEN; j++) a[j] = 0; is(a, false, "above-the-modulus-fails"); } if (nb[k]) { a = nb; a[k]--; for (size_t j = k + 1; j < KLEN; j++) a[j] = 0xff; is(a, true, "below-the-modulus-passes"); } }
    B s = any(KLEN, "sig"); bool v = go(s); bool lt = false; for (size_t k = KLEN; k-- > 0;) lt = (s[k] < nb[k]) | ((s[k] == nb[k]) & lt); sa_same("accepted-iff-below-the-modulus", &v, &lt, 1); } }
ENTRY prop_range() { below<320, T4>(320, 5); below<320, T4>(256, 9); below<320, T4>(288, 77); below<320, T4>(313, 3); }
// ---- PSS
template <size_t N, class H> static void ps(size_t bits, size_t dn, uint64_t e) { sa_ctx("bits,len", long(bits * 1000 + dn)); reset(); rsa_private_key<N> priv(modulus<N>(bits), expD<N>()); auto pk = pub<N>(bits, e); B data = any(dn, "data"), salt = any(H::hashsize, "salt"), mh = HR<H>::go(data); size_t emLen = (bits - 1 + 7) / 8; if (emLen < 2 * H::hashsize + 2) return; B em = pss<H>(mh, salt, bits - 1);
  B s = priv.template signPssSignature<H, MGF1<H>>(mh, salt); sa_true("one-exponentiation", expCalls == 1); same("encoding", be(lastIn, N / 8), B(N / 8 - emLen, 0) + em); same("signature-octets", s, be(lastOut, KLEN)); bool v = pk.template validatePssSignature<H, MGF1<H>>(data, s), t = true, f = false; sa_same("signature-verifies", &v, &t, 1);
  for (size_t k = 0; k < dn; k += 3) { B d2 = data; d2[k] ^= 0x10; bool w = pk.template validatePssSignature<H, MGF1<H>>(d2, s); sa_same("other-message-fails", &w, &f, 1); }
  for (size_t k = 0; k < s.size(); k++) { B s2 = s; s2[k] ^= uint8_t(k + 1 == s.size() ? 2 : k ? 0x80 : 1); bool w = pk.template validatePssSignature<H, MGF1<H>>(data, s2); sa_same("other-signature-fails", &w, &f, 1); } }
template <size_t N, class H> static void psforced(size_t bits) { sa_ctx("bits", long(bits)); reset(); auto pk = pub<N>(bits); B data = any(5, "data"), salt = any(H::hashsize, "salt"), s = any(KLEN, "sig"), mh = HR<H>::go(data); size_t emLen = (bits - 1 + 7) / 8; B em = pss<H>(mh, salt, bits - 1); s[0] &= uint8_t((0xff >> (8 * KLEN - BITS)) >> 1); bool f = false, t = true; auto is = [&](const B& m, const char* id, bool want) { force(m); bool v = pk.template validatePssSignature<H, MGF1<H>>(data, s); sa_same(id, &v, &want, 1); };
  is(em, "valid-encoding", t); for (size_t k = 0; k < emLen; k++) for (int b = 0; b < 8; b++) { sa_ctx("octet", long(k * 8 + b)); B m = em; m[k] ^= uint8_t(1 << b); is(m, "every-bit-of-the-encoding-counts", f); } if (KLEN > emLen) { sa_ctx("octet", -1); is(B{1} + em, "leading-octet-counts", f); }
  // wrong salt lengths, and a padding that is not zero, all consistently hashed
  for (size_t sn = 0; sn < H::hashsize + 4; sn++) { if (sn == H::hashsize || emLen < H::hashsize + sn + 2) continue; sa_ctx("salt", long(sn)); is(pss<H>(mh, any(sn, "salt"), bits - 1), "salt-of-another-length", f); }
  B h = HR<H>::go(B(8, 0) + mh + salt); for (size_t k = 0; k + salt.size() < emLen - H::hashsize - 1; k++) { sa_ctx("padding", long(k)); B db(emLen - salt.size() - H::hashsize - 2, 0); db.push_back(1); db = db + salt; db[k] ^= 0x2; B m = mgf1<H>(h, db.size()); for (size_t i = 0; i < db.size(); i++) m[i] ^= db[i]; B before = m; m[0] &= uint8_t(0xff >> (8 * emLen - (bits - 1))); if (k == 0 && (2 & ~(0xff >> (8 * emLen - (bits - 1))))) continue; is(m + h + B{0xbc}, "padding-must-be-zero", f); } }
#define PSS(n, bits) ENTRY prop_pss_##n() { for (size_t d : {0, 1, 20}) for (uint64_t e : {65537ull, 3ull, 0x500010001ull}) { ps<320, T4>(bits, d, e); ps<320, T6>(bits, d, e); } }
PSS(320, 320) PSS(319, 319) PSS(318, 318) PSS(313, 313) PSS(314, 314) PSS(312, 312) PSS(257, 257) PSS(160, 160)
ENTRY prop_pss_min() { for (size_t b = 81; b < 100; b++) ps<320, T4>(b, 3, 65537); }
#define PSF(n, bits) ENTRY prop_pss_octets_##n() { psforced<320, T4>(bits); }
PSF(320, 320) PSF(313, 313) PSF(317, 317) PSF(160, 160)
ENTRY prop_mgf1() { for (size_t n : {0, 1, 3, 4, 5, 8, 20, 64, 1023, 1024, 1025, 1030, 1100, 2050, 3100}) for (size_t sn : {0, 1, 6}) { sa_ctx("len", long(n * 10 + sn)); B seed = any(sn, "seed"); same("mask", MGF1<T4>::MGF(seed, n), mgf1<T4>(seed, n)); } }
#ifdef THOROUGH
ENTRY prop_mgf1_long() { B seed = any(3, "seed"); for (size_t n : {262140, 262144, 262148, 262200}) { sa_ctx("len", long(n)); same("mask", MGF1<T4>::MGF(seed, n), mgf1<T4>(seed, n)); } }
#endif
// ---- dispatch with the real hashes, keys of type 4096
static rsa_private_key<4096> pk4096(size_t bits) { return rsa_private_key<4096>(modulus<4096>(bits), expD<4096>()); }
template <class H> static void scheme1(int type, size_t bits) { sa_ctx("scheme", type); reset(); RsaPrivateKey k(pk4096(bits)); RsaPubkey p(pub<4096>(bits)); B data = any(20, "data"); B s = k.sign(Tls13SignatureScheme(type), data); same("encoding", be(lastIn, KLEN), pkcs1<H>(data, KLEN)); same("signature-octets", s, be(lastOut, KLEN)); bool v = p.validateSignature(Tls13SignatureScheme(type), data, s), t = true; sa_same("signature-verifies", &v, &t, 1); sa_true("no-randomness-needed", nextRandom == 0); force(pkcs1<H>(data, KLEN)); B any1 = any(KLEN, "sig"); any1[0] &= 0x7f; v = p.validateSignature(Tls13SignatureScheme(type), data, any1); sa_same("encoding-accepted", &v, &t, 1); }
template <class H> static void scheme2(int type, size_t bits) { sa_ctx("scheme", type); reset(); RsaPrivateKey k(pk4096(bits)); RsaPubkey p(pub<4096>(bits)); B data = any(20, "data"); B s = k.sign(Tls13SignatureScheme(type), data); sa_true("fresh-salt", nextRandom == 1 && randomBytes.size() == H::hashsize); B salt = randomBytes; if (salt.size() == H::hashsize) same("encoding", be(lastIn, KLEN), pss<H>(HR<H>::go(data), salt, bits - 1)); same("signature-octets", s, be(lastOut, KLEN)); bool v = p.validateSignature(Tls13SignatureScheme(type), data, s), t = true; sa_same("signature-verifies", &v, &t, 1); k.sign(Tls13SignatureScheme(type), data); sa_true("fresh-salt-each-time", nextRandom == 2); force(pss<H>(HR<H>::go(data), B(H::hashsize, 0x5a), bits - 1)); B any1 = any(KLEN, "sig"); any1[0] &= 0x7f; v = p.validateSignature(Tls13SignatureScheme(type), data, any1); sa_same("encoding-accepted", &v, &t, 1); }
ENTRY prop_scheme_0401() { scheme1<SHA2<256>>(0x401, 1024); }
ENTRY prop_scheme_0501() { scheme1<SHA2<384>>(0x501, 1024); }
ENTRY prop_scheme_0601() { scheme1<SHA2<512>>(0x601, 1024); }
ENTRY prop_scheme_0804() { scheme2<SHA2<256>>(0x804, 1024); }
ENTRY prop_scheme_0805() { scheme2<SHA2<384>>(0x805, 1024); }
ENTRY prop_scheme_0806() { scheme2<SHA2<512>>(0x806, 2048); }
ENTRY prop_scheme_0809() { scheme2<SHA2<256>>(0x809, 1024); }
ENTRY prop_scheme_080a() { scheme2<SHA2<384>>(0x80a, 1024); }
ENTRY prop_scheme_080b() { scheme2<SHA2<512>>(0x80b, 2048); }
// a signature of one scheme is none of another
template <class H> static void cross(int type, bool isPss) { reset(); RsaPubkey p(pub<4096>(2048)); B data = any(5, "data"); B s = any(KLEN, "sig"); s[0] &= 0x7f; force(isPss ? pss<H>(HR<H>::go(data), B(H::hashsize, 0x5a), 2047) : pkcs1<H>(data, KLEN)); bool f = false; for (int o : {0x401, 0x501, 0x601, 0x804, 0x805, 0x806, 0x809, 0x80a, 0x80b}) { bool same = isPss ? (o >= 0x804 && (o & 0xff) - (o >= 0x809 ? 5 : 0) == (type & 0xff) - (type >= 0x809 ? 5 : 0)) : o == type; if (same) continue; sa_ctx("as", type * 65536 + o); bool v = p.validateSignature(Tls13SignatureScheme(o), data, s); sa_same("not-valid-under-another-scheme", &v, &f, 1); } }
ENTRY prop_cross_a() { cross<SHA2<256>>(0x401, false); cross<SHA2<384>>(0x501, false); cross<SHA2<512>>(0x601, false); }
ENTRY prop_cross_b() { cross<SHA2<256>>(0x804, true); }
ENTRY prop_cross_c() { cross<SHA2<384>>(0x805, true); }
ENTRY prop_cross_d() { cross<SHA2<512>>(0x806, true); }
ENTRY prop_other_schemes() { reset(); RsaPrivateKey k(pk4096(1024)); RsaPubkey p(pub<4096>(1024)); B data = any(5, "data"), s = any(128, "sig"); for (int t : {0, 1, 0x201, 0x203, 0x301, 0x400, 0x402, 0x403, 0x503, 0x603, 0x701, 0x801, 0x803, 0x807, 0x808, 0x80c, 0x80d, 0x8040, 0xffff, 0x10401}) { sa_ctx("scheme", t); B r; int o = outcome([&] { r = k.sign(Tls13SignatureScheme(t), data); }); sa_true("no-signature-under-unknown-schemes", o == 1 || r.empty()); for (int w = 0; w < 2; w++) { force(w ? pss<SHA2<256>>(HR<SHA2<256>>::go(data), B(32, 1), 1023) : pkcs1<SHA2<256>>(data, 128)); bool v = true; o = outcome([&] { v = p.validateSignature(Tls13SignatureScheme(t), data, s); }); sa_true("nothing-verifies-under-unknown-schemes", o == 1 || !v); } } }
