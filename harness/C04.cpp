// SA-ENGINE: --xlim 64
// SA-MIN: 4
#include "sa.h"
#include "ref_aes.h"
#include "caligo/aes.h"
using namespace Caligo;
template <size_t B> static void aes() { uint8_t k[B / 8], b[16]; sa_sym(k, B / 8, "key", 0); sa_sym(b, 16, "block", 0);
  AesKeySchedule<B> ks(std::span<const uint8_t>(k, B / 8)); __m128i x; memcpy(&x, b, 16); x = AES<B>::Encrypt(ks, x);
  uint8_t e[16]; ref::Aes<B> r(k); r.enc(b, e); sa_same("block", &x, e, 16); }
// the key may lie at any address
template <size_t B> static void odd_address() { alignas(16) uint8_t k[B / 8 + 16], b[16]; sa_sym(b, 16, "block", 0); for (size_t at = 1; at < 16; at++) { sa_ctx("key-at", at); sa_sym(k + at, B / 8, "key", 0);
  AesKeySchedule<B> ks(std::span<const uint8_t>(k + at, B / 8)); __m128i x; memcpy(&x, b, 16); x = AES<B>::Encrypt(ks, x); uint8_t e[16]; ref::Aes<B> r(k + at); r.enc(b, e); sa_same("block", &x, e, 16); } }
ENTRY prop_odd_address_128() { odd_address<128>(); }
ENTRY prop_odd_address_256() { odd_address<256>(); }
// a schedule serves any number of blocks, and copies of it are as good
template <size_t B> static void reuse() { uint8_t k[B / 8], b[3][16]; sa_sym(k, B / 8, "key", 0); sa_sym(b, 48, "block", 0); AesKeySchedule<B> ks(std::span<const uint8_t>(k, B / 8)), copy = ks; ref::Aes<B> r(k);
  for (int i = 0; i < 6; i++) { sa_ctx("use", i); __m128i x; memcpy(&x, b[i % 3], 16); x = AES<B>::Encrypt(i & 1 ? copy : ks, x); uint8_t e[16]; r.enc(b[i % 3], e); sa_same("block", &x, e, 16); } }
ENTRY prop_reuse_128() { reuse<128>(); }
ENTRY prop_reuse_256() { reuse<256>(); }
ENTRY prop_aes128() { aes<128>(); }
ENTRY prop_aes256() { aes<256>(); }
