// GCM is SP 800-38D for any block cipher (the cipher is an uninterpreted function), round trips, accepts exactly the right tag, separates nonces.
// SA-MIN: 2000
// SA-ENGINE: --xlim 24 --bitpush
#include "priv.h"
#include "sa.h"
#include "ref_aes.h"
#include "caligo/gcm.h"
#include "caligo/aes.h"
using namespace Caligo;
typedef std::span<const uint8_t> bytes;
// an arbitrary keyed permutation-shaped function of one block
template <int VARIANT> struct Spy {
  static constexpr size_t size = 16, ivsize = 12, keysize = 16;
  struct KeySchedule { uint8_t k[16]; explicit KeySchedule(bytes key) { for (int i = 0; i < 16; i++) k[i] = key[i]; } };
  static void raw(const uint8_t* key, const uint8_t* in, uint8_t* out) {
    if constexpr (VARIANT == 1) { uint8_t o = 0; for (int i = 0; i < 16; i++) o |= in[i]; if (o == 0) { for (int i = 0; i < 16; i++) out[i] = i ? 0 : 0x80; return; } } // hash key = 1, so that GHASH is transparent
    uint8_t b[32]; memcpy(b, key, 16); memcpy(b + 16, in, 16); sa_uf("E", b, 32, out, 16); }
  static __m128i Encrypt(const KeySchedule& ks, __m128i x) { uint8_t i[16], o[16]; memcpy(i, &x, 16); sa_log("blocks", i, 16); raw(ks.k, i, o); memcpy(&x, o, 16); return x; } };
#ifdef THOROUGH
static constexpr size_t NMAX = 100;
#else
static constexpr size_t NMAX = 50;
#endif
// the caller's texts start at odd addresses
struct alignas(16) In { uint8_t key[16], iv[64], pad = 0, p[(NMAX + 20) / 2 * 2], a[80]; In() { sa_sym(key, 16, "key", 0); sa_sym(iv, 64, "iv", 0); sa_sym(p, sizeof p, "p", 0); sa_sym(a, 80, "aad", 0); } };
template <class C> static void one(GCM<C>& g, In& in, size_t ivn, uint64_t seq, size_t n, size_t an, const char* what) {
  auto enc = [&](const uint8_t* i, uint8_t* o) { C::raw(in.key, i, o); };
  uint8_t c[NMAX + 20], t[16]; ref::gcm(enc, in.iv, ivn, seq, in.p, n, in.a, an, c, t);
  auto [ct, tag] = g.Encrypt(bytes(in.p, n), bytes(in.a, an));
  sa_true("ciphertext-length", ct.size() == n); if (ct.size() == n) sa_same(what, ct.data(), c, n); sa_same("tag", tag.data(), t, 16); }
template <class C> static void two(GCM<C>& g, In& in, size_t ivn, uint64_t seq, size_t n, size_t an) { // decrypts arbitrary ciphertext p
  auto enc = [&](const uint8_t* i, uint8_t* o) { C::raw(in.key, i, o); };
  uint8_t c[NMAX + 20]; std::array<uint8_t, 16> t; ref::gcm(enc, in.iv, ivn, seq, in.p, n, in.a, an, c, t.data(), true);
  auto [pt, ok] = g.Decrypt(bytes(in.p, n), bytes(in.a, an), t);
  sa_true("accepts-right-tag", ok); sa_true("plaintext-length", pt.size() == n); if (pt.size() == n) sa_same("plaintext", pt.data(), c, n); }
typedef Spy<0> S;
static const size_t AADS[] = {0, 1, 12, 15, 16, 17, 31, 32, 33, 48, 50};
static void lengths(size_t from, size_t to) { In in; for (size_t n = from; n <= to; n++) for (size_t an : AADS) { sa_ctx("text,aad", n * 1000 + an); GCM<S> g({bytes(in.key, 16), bytes(in.iv, 12)}); one(g, in, 12, 0, n, an, "ciphertext"); GCM<S> h({bytes(in.key, 16), bytes(in.iv, 12)}); two(h, in, 12, 0, n, an); } }
ENTRY prop_len_a() { lengths(0, NMAX / 4); }
ENTRY prop_len_b() { lengths(NMAX / 4 + 1, NMAX / 2); }
ENTRY prop_len_c() { lengths(NMAX / 2 + 1, NMAX * 3 / 4); }
ENTRY prop_len_d() { lengths(NMAX * 3 / 4 + 1, NMAX); }
ENTRY prop_iv() { In in; for (size_t ivn : {8, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 60}) for (size_t n : {0, 5, 16, 33}) { sa_ctx("iv,text", ivn * 100 + n); GCM<S> g({bytes(in.key, 16), bytes(in.iv, ivn)}); one(g, in, ivn, 0, n, 7, "ciphertext"); GCM<S> h({bytes(in.key, 16), bytes(in.iv, ivn)}); two(h, in, ivn, 0, n, 7); } }
// nonces too short to be safe are refused: nothing is accepted, nothing derived from the plaintext is returned
ENTRY prop_short_iv() { In in; for (size_t ivn : {0, 1, 4, 7, 9, 10, 11}) { sa_ctx("iv", ivn);
  std::array<uint8_t, 16> t; sa_sym(t.data(), 16, "tag", 0); bool ok = false; int o = outcome([&] { GCM<S> g({bytes(in.key, 16), bytes(in.iv, ivn)}); auto r = g.Decrypt(bytes(in.p, 20), bytes(in.a, 3), t); ok = r.second; }); sa_true("refused", o == 1 || !ok); } }
// several messages on one object, in both directions interleaved with nothing else
ENTRY prop_sequence() { In in; for (size_t ivn : {12, 8, 16, 33}) { sa_ctx("iv", ivn); GCM<S> g({bytes(in.key, 16), bytes(in.iv, ivn)}), h({bytes(in.key, 16), bytes(in.iv, ivn)}); size_t ns[] = {17, 0, 40, 16}; for (uint64_t k = 0; k < 4; k++) { sa_ctx("iv,message", ivn * 10 + k); one(g, in, ivn, k, ns[k], 5, "ciphertext"); two(h, in, ivn, k, ns[k], 5); } } }
// any message number
ENTRY prop_any_sequence() { In in; // only where the field counts messages from 0
  bool counts = false; { uint8_t z[16] = {}; GCM<S> g({bytes(z, 16), bytes(z, 12)}); if constexpr (requires { g.message_counter == 0; }) { counts = g.message_counter == 0; g.Encrypt(bytes(z, 5), {}); counts = counts && g.message_counter == 1; g.Encrypt(bytes(z, 5), {}); counts = counts && g.message_counter == 2; } } if (!counts) return;
  uint64_t q = 0; sa_symw(&q, 8, "seq", 0); for (size_t n : {0, 3, 16, 30}) { sa_ctx("text", n); GCM<S> g({bytes(in.key, 16), bytes(in.iv, 12)}); auto set = [&](auto& o) { if constexpr (requires { o.message_counter = q; }) { if (o.message_counter != 0) return false; o.message_counter = q; return true; } else return false; };
  if (set(g)) { one(g, in, 12, q, n, 4, "ciphertext"); uint64_t r = 0; if constexpr (requires { r = g.message_counter; }) { r = g.message_counter; uint64_t w = q + 1; sa_same("counter-advances", &r, &w, 8); } GCM<S> h({bytes(in.key, 16), bytes(in.iv, 12)}); set(h); two(h, in, 12, q, n, 4); } } }
// block counter wraps modulo 2^32 without touching the nonce part
ENTRY prop_counter_wrap() { typedef Spy<1> W; In in; for (uint32_t j : {0xfffffffeu, 0xfffffffdu, 0xffffffffu, 0x00fffffeu, 0x0000fffeu, 0x000000feu, 0x01fffffeu, 0x7ffffffeu}) { sa_ctx("counter", j);
  in.iv[0] = 0x77; for (int i = 0; i < 4; i++) in.iv[12 + i] = j >> (24 - 8 * i); in.iv[15] ^= 128; /* the length block of a 16-byte IV */
  GCM<W> g({bytes(in.key, 16), bytes(in.iv, 16)}); one(g, in, 16, 0, 50, 0, "ciphertext"); GCM<W> h({bytes(in.key, 16), bytes(in.iv, 16)}); two(h, in, 16, 0, 50, 0); } }
// a tag that differs in any bit is rejected, wherever the difference is
ENTRY prop_forged_tag() { In in; for (size_t n : {0, 1, 16, 21}) for (size_t an : {0, 9}) for (int i = 0; i < 16; i++) { sa_ctx("text,aad,byte", n * 1000 + an * 100 + i);
  GCM<S> g({bytes(in.key, 16), bytes(in.iv, 12)}); auto [ct, tag] = g.Encrypt(bytes(in.p, n), bytes(in.a, an));
  GCM<S> h({bytes(in.key, 16), bytes(in.iv, 12)}), h2({bytes(in.key, 16), bytes(in.iv, 12)}); uint8_t d = sa_any("delta"); sa_assume(d != 0); auto t2 = tag; t2[i] ^= d; auto r = h.Decrypt(ct, bytes(in.a, an), t2); sa_true("rejects-forged-tag", !r.second);
  auto r2 = h2.Decrypt(ct, bytes(in.a, an), tag); sa_true("accepts", r2.second); sa_same("round-trip", r2.first.data(), in.p, n); } }
// every byte of text, associated data and lengths enters the tag
ENTRY prop_tag_covers() { In in; for (size_t n : {0, 1, 15, 16, 17, 40}) for (size_t an : {0, 1, 16, 20}) { sa_ctx("text,aad", n * 100 + an);
  GCM<S> g({bytes(in.key, 16), bytes(in.iv, 12)}); auto [ct, tag] = g.Encrypt(bytes(in.p, n), bytes(in.a, an)); for (size_t i = 0; i < n; i++) sa_depends("text-authenticated", tag.data(), 16, in.p + i, 1); for (size_t i = 0; i < an; i++) sa_depends("aad-authenticated", tag.data(), 16, in.a + i, 1);
  sa_depends("nonce", tag.data(), 16, in.iv, 12); } }
// no cipher input block is used twice by one object (key stream never reused), the hash key aside
ENTRY prop_block_reuse() { In in; for (size_t ivn : {12, 16}) { sa_ctx("iv", ivn); sa_logreset("blocks"); GCM<S> g({bytes(in.key, 16), bytes(in.iv, ivn)}); sa_logreset("blocks"); if (ivn == 12) for (size_t n : {33, 1, 0, 16}) g.Encrypt(bytes(in.p, n), {}); else g.Encrypt(bytes(in.p, 48), {}); sa_distinct("no-block-reuse", "blocks"); } }
// the field multiplication itself, on a basis, plus bilinearity
template <class V> static void field() { if constexpr (requires(V x) { galoisMultiply(x, x); }) { // only where elements are represented with the constant term in bit 0
  uint8_t ub[16] = {1}, vb[16] = {0x20}; __m128i u, v, m1, m2; memcpy(&u, ub, 16); memcpy(&v, vb, 16); m1 = galoisMultiply(u, v); m2 = galoisMultiply(v, u); if (memcmp(&m1, vb, 16) || memcmp(&m2, vb, 16)) return;
  V a; sa_symw(&a, 16, "a", 0); for (int j = 0; j < 128; j++) { sa_ctx("basis", j); uint8_t b[16] = {}; b[j / 8] = 1 << j % 8; __m128i bv; memcpy(&bv, b, 16); 
  auto bits = [](__m128i x, uint8_t* o) { uint8_t v[16]; memcpy(v, &x, 16); for (int i = 0; i < 128; i++) o[i] = v[i / 8] >> i % 8 & 1; };
  uint8_t got[128], q[128], w[128]; bits(galoisMultiply(a, bv), got); bits(ref::gfmul(a, bv), q); bits(a, w);
  for (int t = 0; t < j; t++) { uint8_t c = w[127]; for (int i = 127; i > 0; i--) w[i] = w[i - 1]; w[0] = c; w[1] ^= c; w[2] ^= c; w[7] ^= c; } // multiply the polynomial by x, j times
  sa_same("times-x^j", got, w, 128); sa_same("reference-times-x^j", q, w, 128); }
  __m128i b, c; sa_symw(&b, 16, "b", 0); sa_symw(&c, 16, "c", 0); sa_ctx("bilinear", 0); auto bits = [](__m128i x, uint8_t* o) { uint8_t v[16]; memcpy(v, &x, 16); for (int i = 0; i < 128; i++) o[i] = v[i / 8] >> i % 8 & 1; }; uint8_t l[128], r[128];
  bits(galoisMultiply(a, b ^ c), l); bits(galoisMultiply(a, b) ^ galoisMultiply(a, c), r); sa_same("linear-right", l, r, 128); bits(galoisMultiply(b ^ c, a), l); bits(galoisMultiply(b, a) ^ galoisMultiply(c, a), r); sa_same("linear-left", l, r, 128); } }
ENTRY prop_field() { field<__m128i>(); }
// with the real cipher
template <size_t B> static void real() { uint8_t k[B / 8]; sa_sym(k, B / 8, "k", 0); In in; for (size_t n : {0, 16, 21}) { sa_ctx("text", n); GCM<AES<B>> g({bytes(k, B / 8), bytes(in.iv, 12)}); ref::Aes<B> ra(k); uint8_t c[64], t[16]; ref::gcm([&](const uint8_t* i, uint8_t* o) { ra.enc(i, o); }, in.iv, 12, 0, in.p, n, in.a, 5, c, t); auto [ct, tag] = g.Encrypt(bytes(in.p, n), bytes(in.a, 5)); sa_true("ciphertext-length", ct.size() == n); sa_same("aes-ciphertext", ct.data(), c, n); sa_same("aes-tag", tag.data(), t, 16); } }
ENTRY prop_aes128() { real<128>(); }
ENTRY prop_aes256() { real<256>(); }
// long texts, associated data and IVs, across the 256th block; contents known, so that nothing but positions, counters and lengths is in question
ENTRY prop_long() { static uint8_t p[4999], c[4999]; static uint8_t a[3001]; uint8_t key[16], iv[300]; uint32_t s = 5; auto r = [&] { s = s * 1664525 + 1013904223; return uint8_t(s >> 24); }; for (auto& x : key) x = r(); for (auto& x : iv) x = r(); for (auto& x : p) x = r(); for (auto& x : a) x = r();
  ref::Aes<128> k(key); auto enc = [&](const uint8_t* i, uint8_t* o) { k.enc(i, o); }; struct { size_t iv, n, an; } cases[] = {{12, 4999, 0}, {12, 0, 3001}, {300, 1024, 255}, {128, 256, 1024}, {12, 1000, 300}, {272, 17, 257}};
  for (auto& t : cases) { sa_ctx("iv,text", t.iv * 10000 + t.n); uint8_t tag[16]; ref::gcm(enc, iv, t.iv, 0, p, t.n, a, t.an, c, tag); GCM<AES<128>> g({bytes(key, 16), bytes(iv, t.iv)}), d({bytes(key, 16), bytes(iv, t.iv)}); auto [ct, tg] = g.Encrypt(bytes(p, t.n), bytes(a, t.an)); sa_true("ciphertext-length", ct.size() == t.n); if (ct.size() == t.n) sa_same("long-ciphertext", ct.data(), c, t.n); sa_same("long-tag", tg.data(), tag, 16);
    std::array<uint8_t, 16> want; memcpy(want.data(), tag, 16); auto [pt, ok] = d.Decrypt(bytes(c, t.n), bytes(a, t.an), want); sa_true("accepts-right-tag", ok); sa_true("plaintext-length", pt.size() == t.n); if (pt.size() == t.n) sa_same("long-plaintext", pt.data(), p, t.n);
    if (t.n) { GCM<AES<128>> f({bytes(key, 16), bytes(iv, t.iv)}); c[t.n - 1] ^= 1; auto [x, bad] = f.Decrypt(bytes(c, t.n), bytes(a, t.an), want); sa_true("refuses-changed-end", !bad); c[t.n - 1] ^= 1; } if (t.an) { GCM<AES<128>> f({bytes(key, 16), bytes(iv, t.iv)}); a[t.an - 1] ^= 0x80; auto [x, bad] = f.Decrypt(bytes(c, t.n), bytes(a, t.an), want); sa_true("refuses-changed-end", !bad); a[t.an - 1] ^= 0x80; } } }
