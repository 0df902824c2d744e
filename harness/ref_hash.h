// Reference definitions of the hash standards (RFC 1321, FIPS 180-4, FIPS 202), written from the standards.
#pragma once
#include "sa.h"
namespace ref {
static inline uint32_t rl(uint32_t v, unsigned n) { return (v << n) | (v >> (32 - n)); }
static inline uint32_t rr(uint32_t v, unsigned n) { return (v >> n) | (v << (32 - n)); }
static inline uint64_t rr64(uint64_t v, unsigned n) { return (v >> n) | (v << (64 - n)); }

struct MD5c {
  static constexpr size_t B = 64, L = 8, OUT = 16; static constexpr bool big = false; typedef uint32_t W; W s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  static constexpr size_t N = 4;
  void block(const uint8_t* p) {
    static const uint32_t K[64] = {
      0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
      0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
      0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
      0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
    static const unsigned R[16] = {7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
    uint32_t X[16]; for (int i = 0; i < 16; i++) X[i] = p[4*i] | (uint32_t)p[4*i+1] << 8 | (uint32_t)p[4*i+2] << 16 | (uint32_t)p[4*i+3] << 24;
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3];
    for (int i = 0; i < 64; i++) { uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5*i+1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3*i+5) % 16; } else { f = c ^ (b | ~d); g = (7*i) % 16; }
      uint32_t t = d; d = c; c = b; b = b + rl(a + f + K[i] + X[g], R[(i/16)*4 + i%4]); a = t; }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d;
  }
};
struct SHA1c {
  static constexpr size_t B = 64, L = 8, OUT = 20, N = 5; static constexpr bool big = true; typedef uint32_t W; W s[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  void block(const uint8_t* p) {
    uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 80; i++) w[i] = rl(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
    for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
      uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t; }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
  }
};
template <size_t BITS> struct SHA256c {
  static constexpr size_t B = 64, L = 8, OUT = BITS / 8, N = 8; static constexpr bool big = true; typedef uint32_t W; W s[8];
  SHA256c() { static const W i256[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; static const W i224[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4}; for (int i = 0; i < 8; i++) s[i] = BITS == 256 ? i256[i] : i224[i]; }
  void block(const uint8_t* p) {
    static const uint32_t K[64] = {
      0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
      0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
      0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
      0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) w[i] = (rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10)) + w[i-7] + (rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-16];
    uint32_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
    for (int i = 0; i < 64; i++) { uint32_t t1 = h + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e & f) | (~e & g)) + K[i] + w[i], t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c)); h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
    s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e; s[5]+=f; s[6]+=g; s[7]+=h;
  }
};
template <size_t BITS> struct SHA512c {
  static constexpr size_t B = 128, L = 16, OUT = BITS / 8, N = 8; static constexpr bool big = true; typedef uint64_t W; W s[8];
  SHA512c() { static const W i512[8] = {0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179}; static const W i384[8] = {0xcbbb9d5dc1059ed8,0x629a292a367cd507,0x9159015a3070dd17,0x152fecd8f70e5939,0x67332667ffc00b31,0x8eb44a8768581511,0xdb0c2e0d64f98fa7,0x47b5481dbefa4fa4}; for (int i = 0; i < 8; i++) s[i] = BITS == 512 ? i512[i] : i384[i]; }
  void block(const uint8_t* p) {
    static const uint64_t K[80] = {
      0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,0xd807aa98a3030242,0x12835b0145706fbe,
      0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,0xc19bf174cf692694,0xe49b69c19ef14ad2,0xefbe4786384f25e3,0x0fc19dc68b8cd5b5,0x240ca1cc77ac9c65,
      0x2de92c6f592b0275,0x4a7484aa6ea6e483,0x5cb0a9dcbd41fbd4,0x76f988da831153b5,0x983e5152ee66dfab,0xa831c66d2db43210,0xb00327c898fb213f,0xbf597fc7beef0ee4,0xc6e00bf33da88fc2,0xd5a79147930aa725,
      0x06ca6351e003826f,0x142929670a0e6e70,0x27b70a8546d22ffc,0x2e1b21385c26c926,0x4d2c6dfc5ac42aed,0x53380d139d95b3df,0x650a73548baf63de,0x766a0abb3c77b2a8,0x81c2c92e47edaee6,0x92722c851482353b,
      0xa2bfe8a14cf10364,0xa81a664bbc423001,0xc24b8b70d0f89791,0xc76c51a30654be30,0xd192e819d6ef5218,0xd69906245565a910,0xf40e35855771202a,0x106aa07032bbd1b8,0x19a4c116b8d2d0c8,0x1e376c085141ab53,
      0x2748774cdf8eeb99,0x34b0bcb5e19b48a8,0x391c0cb3c5c95a63,0x4ed8aa4ae3418acb,0x5b9cca4f7763e373,0x682e6ff3d6b2b8a3,0x748f82ee5defb2fc,0x78a5636f43172f60,0x84c87814a1f0ab72,0x8cc702081a6439ec,
      0x90befffa23631e28,0xa4506cebde82bde9,0xbef9a3f7b2c67915,0xc67178f2e372532b,0xca273eceea26619c,0xd186b8c721c0c207,0xeada7dd6cde0eb1e,0xf57d4f7fee6ed178,0x06f067aa72176fba,0x0a637dc5a2c898a6,
      0x113f9804bef90dae,0x1b710b35131c471b,0x28db77f523047d84,0x32caab7b40c72493,0x3c9ebe0a15c9bebc,0x431d67c49c100d4c,0x4cc5d4becb3e42b6,0x597f299cfc657e2a,0x5fcb6fab3ad6faec,0x6c44198c4a475817};
    uint64_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j]; }
    for (int i = 16; i < 80; i++) w[i] = (rr64(w[i-2],19) ^ rr64(w[i-2],61) ^ (w[i-2] >> 6)) + w[i-7] + (rr64(w[i-15],1) ^ rr64(w[i-15],8) ^ (w[i-15] >> 7)) + w[i-16];
    uint64_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
    for (int i = 0; i < 80; i++) { uint64_t t1 = h + (rr64(e,14)^rr64(e,18)^rr64(e,41)) + ((e & f) | (~e & g)) + K[i] + w[i], t2 = (rr64(a,28)^rr64(a,34)^rr64(a,39)) + ((a&b)^(a&c)^(b&c)); h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2; }
    s[0]+=a; s[1]+=b; s[2]+=c; s[3]+=d; s[4]+=e; s[5]+=f; s[6]+=g; s[7]+=h;
  }
};
// Merkle-Damgard: one-shot digest of n bytes; `prior` bytes (a multiple of the block size) are deemed absorbed already
template <class C> static inline void md(const uint8_t* m, size_t n, uint8_t* out, uint64_t prior = 0, C c = C()) {
  size_t i = 0; for (; i + C::B <= n; i += C::B) c.block(m + i);
  uint8_t t[2 * C::B]; size_t r = n - i; memset(t, 0, sizeof t); for (size_t j = 0; j < r; j++) t[j] = m[i + j];
  t[r] = 0x80; size_t tot = r + 1 + C::L <= C::B ? C::B : 2 * C::B;
  uint64_t bits = (prior + n) * 8; uint64_t hib = (prior + n) >> 61;
  for (size_t j = 0; j < 8; j++) { if (C::big) t[tot - 1 - j] = bits >> (8 * j); else t[tot - 8 + j] = bits >> (8 * j); }
  if (C::L == 16) t[tot - 9] = hib;
  c.block(t); if (tot > C::B) c.block(t + C::B);
  for (size_t j = 0; j < C::OUT; j++) { constexpr size_t ws = sizeof(typename C::W); out[j] = C::big ? c.s[j / ws] >> (8 * (ws - 1 - j % ws)) : c.s[j / ws] >> (8 * (j % ws)); }
}
struct keccak {
  static void f(uint64_t* A) {
    static const uint64_t RC[24] = {0x0000000000000001,0x0000000000008082,0x800000000000808A,0x8000000080008000,0x000000000000808B,0x0000000080000001,0x8000000080008081,0x8000000000008009,0x000000000000008A,0x0000000000000088,0x0000000080008009,0x000000008000000A,
      0x000000008000808B,0x800000000000008B,0x8000000000008089,0x8000000000008003,0x8000000000008002,0x8000000000000080,0x000000000000800A,0x800000008000000A,0x8000000080008081,0x8000000000008080,0x0000000080000001,0x8000000080008008};
    static const unsigned rot[25] = {0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
    for (int r = 0; r < 24; r++) {
      uint64_t C[5], D[5], B[25];
      for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
      for (int x = 0; x < 5; x++) D[x] = C[(x+4)%5] ^ ((C[(x+1)%5] << 1) | (C[(x+1)%5] >> 63));
      for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) { unsigned k = rot[x + 5*y]; uint64_t v = A[x + 5*y]; B[y + 5*((2*x + 3*y) % 5)] = k ? (v << k) | (v >> (64 - k)) : v; }
      for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) A[x + 5*y] = B[x + 5*y] ^ (~B[(x+1)%5 + 5*y] & B[(x+2)%5 + 5*y]);
      A[0] ^= RC[r];
    }
  }
};
template <size_t BITS> static inline void sha3(const uint8_t* m, size_t n, uint8_t* out) {
  constexpr size_t R = (1600 - 2 * BITS) / 8; uint64_t A[25]; for (auto& a : A) a = 0; size_t i = 0;
auto absorb = [&](const uint8_t* b) { for (size_t j = 0; j < R; j++) A[j / 8] ^= (uint64_t)b[j] << 8 * (j % 8); keccak::f(A); };
  for (; i + R <= n; i += R) absorb(m + i);
  for (size_t j = i; j < n; j++) A[(j - i) / 8] ^= (uint64_t)m[j] << 8 * ((j - i) % 8); A[(n - i) / 8] ^= 0x06ull << 8 * ((n - i) % 8); A[R / 8 - 1] ^= 1ull << 63; keccak::f(A);
  for (size_t j = 0; j < BITS / 8; j++) out[j] = A[j / 8] >> (8 * (j % 8));
}
}
