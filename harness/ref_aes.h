// FIPS 197 and SP 800-38D, written from the standards.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
namespace ref {
constexpr uint8_t xt(uint8_t a) { return (a << 1) ^ (a & 0x80 ? 0x1b : 0); }
struct AesTab { uint8_t S[256], S2[256], S3[256]; constexpr AesTab() : S(), S2(), S3() {
  uint8_t p = 1, q = 1; do { p = p ^ xt(p); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 9; uint8_t x = q; for (int k = 1; k < 5; k++) x ^= uint8_t(q << k | q >> (8 - k)); S[p] = x ^ 0x63; } while (p != 1); S[0] = 0x63;
  for (int i = 0; i < 256; i++) { S2[i] = xt(S[i]); S3[i] = xt(S[i]) ^ S[i]; } } };
inline constexpr AesTab aesT;
template <size_t BITS> struct Aes { static constexpr size_t NK = BITS / 32, NR = NK + 6; uint8_t w[16 * (NR + 1)];
  explicit Aes(const uint8_t* key) { memcpy(w, key, 4 * NK); uint8_t rc = 1;
    for (size_t i = NK; i < 4 * (NR + 1); i++) { uint8_t t[4]; for (int k = 0; k < 4; k++) t[k] = w[4 * (i - 1) + k];
      if (i % NK == 0) { uint8_t u = t[0]; t[0] = aesT.S[t[1]] ^ rc; t[1] = aesT.S[t[2]]; t[2] = aesT.S[t[3]]; t[3] = aesT.S[u]; rc = xt(rc); }
      else if (NK > 6 && i % NK == 4) for (auto& x : t) x = aesT.S[x];
      for (int k = 0; k < 4; k++) w[4 * i + k] = w[4 * (i - NK) + k] ^ t[k]; } }
  void enc(const uint8_t* in, uint8_t* out) const { uint8_t s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
    for (size_t r = 1; r <= NR; r++) { for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) { auto b = [&](int j) { return s[((c + k + j) % 4) * 4 + (k + j) % 4]; }; const uint8_t* kk = w + 16 * r + 4 * c + k;
        t[4 * c + k] = r == NR ? aesT.S[b(0)] ^ *kk : aesT.S2[b(0)] ^ aesT.S3[b(1)] ^ aesT.S[b(2)] ^ aesT.S[b(3)] ^ *kk; } memcpy(s, t, 16); }
    memcpy(out, s, 16); }
};
}
#include <x86intrin.h>
namespace ref {
// GF(2^128) of GCM. In memory bit 7 of byte 0 is the coefficient of x^0; rev() makes bit i of the 128-bit word the coefficient of x^i.
typedef unsigned __int128 u128;
static inline __m128i rev(__m128i v) { __m128i a = _mm_set1_epi8(0x0f), b = _mm_set1_epi8(0x33), c = _mm_set1_epi8(0x55);
  v = (_mm_srli_epi64(v, 4) & a) | _mm_slli_epi64(v & a, 4); v = (_mm_srli_epi64(v, 2) & b) | _mm_slli_epi64(v & b, 2); return (_mm_srli_epi64(v, 1) & c) | _mm_slli_epi64(v & c, 1); }
// product modulo x^128 + x^7 + x^2 + x + 1 (Karatsuba and shift reduction as in Intel's white paper; prop_field relates it to multiplication by x)
static inline __m128i gfmul(__m128i a, __m128i b) {
  __m128i lo = _mm_clmulepi64_si128(a, b, 0x00), hi = _mm_clmulepi64_si128(a, b, 0x11), m = _mm_clmulepi64_si128(_mm_shuffle_epi32(a, 78) ^ a, _mm_shuffle_epi32(b, 78) ^ b, 0x00) ^ lo ^ hi;
  lo ^= _mm_slli_si128(m, 8); hi ^= _mm_srli_si128(m, 8);
  __m128i t = _mm_shuffle_epi32(_mm_srli_epi32(hi, 31) ^ _mm_srli_epi32(hi, 30) ^ _mm_srli_epi32(hi, 25), 0x93), k = _mm_setr_epi32(-1, 0, 0, 0);
  lo ^= _mm_andnot_si128(k, t); hi ^= t & k; return lo ^ hi ^ _mm_slli_epi32(hi, 1) ^ _mm_slli_epi32(hi, 2) ^ _mm_slli_epi32(hi, 7); }
struct Ghash { __m128i h, y; explicit Ghash(__m128i H) : h(rev(H)), y(_mm_setzero_si128()) {}
  void block(const uint8_t* p, size_t n) { uint8_t b[16]; for (size_t i = 0; i < 16; i++) b[i] = i < n ? p[i] : 0; __m128i v; memcpy(&v, b, 16); y = gfmul(y ^ rev(v), h); }
  void text(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i += 16) block(p + i, n - i < 16 ? n - i : 16); }
  void lens(uint64_t a, uint64_t c) { uint8_t b[16]; for (int i = 0; i < 8; i++) { b[i] = a * 8 >> (56 - 8 * i); b[8 + i] = c * 8 >> (56 - 8 * i); } block(b, 16); }
  void get(uint8_t* o) { __m128i v = rev(y); memcpy(o, &v, 16); } };
// SP 800-38D, with the message number XORed into bytes 4..11 of the pre-counter block (RFC 8446 5.3 for 12-byte IVs)
template <class E> static inline void gcm(E enc, const uint8_t* iv, size_t ivn, uint64_t seq, const uint8_t* p, size_t n, const uint8_t* aad, size_t an, uint8_t* c, uint8_t* tag, bool decrypt = false) {
  uint8_t z[16] = {}, H[16]; enc(z, H); __m128i hv; memcpy(&hv, H, 16);
  uint8_t j[16]; if (ivn == 12) { for (int i = 0; i < 12; i++) j[i] = iv[i]; j[12] = j[13] = j[14] = 0; j[15] = 1; } else { Ghash g(hv); g.text(iv, ivn); g.lens(0, ivn); g.get(j); }
  for (int i = 0; i < 8; i++) j[4 + i] ^= uint8_t(seq >> (56 - 8 * i));
  uint8_t ctr[16]; memcpy(ctr, j, 16);
  for (size_t i = 0; i < n; i += 16) { uint32_t v = (uint32_t)ctr[12] << 24 | ctr[13] << 16 | ctr[14] << 8 | ctr[15]; v++; ctr[12] = v >> 24; ctr[13] = v >> 16; ctr[14] = v >> 8; ctr[15] = v;
    uint8_t k[16]; enc(ctr, k); for (size_t t = 0; t < 16 && i + t < n; t++) c[i + t] = p[i + t] ^ k[t]; }
  Ghash g(hv); g.text(aad, an); g.text(decrypt ? p : c, n); g.lens(an, n); uint8_t ek[16]; enc(j, ek); __m128i zv; memcpy(&zv, ek, 16); g.get(tag); __m128i gv; memcpy(&gv, tag, 16); zv = rev(rev(gv) ^ rev(zv)); memcpy(tag, &zv, 16); }
}
