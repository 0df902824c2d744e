// Stream encryption: ChaCha20 is RFC 8439 and CTR is the counter-mode keystream of its cipher, for every key, nonce, data and counter, however the
// SA-MIN: 2000
// data is split; decryption inverts encryption; no keystream block is used twice.
#include "priv.h"
#include "sa.h"
#include "ref_aes.h"
#include "caligo/chacha20.h"
#include "caligo/ctr.h"
#include "caligo/aes.h"
using namespace Caligo;
typedef std::span<const uint8_t> bytes;
static uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void qr(uint32_t* s, int a, int b, int c, int d) { s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 16); s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 12); s[a] += s[b]; s[d] = rl(s[d] ^ s[a], 8); s[c] += s[d]; s[b] = rl(s[b] ^ s[c], 7); }
static void chachaBlock(const uint8_t* key, const uint8_t* nonce, uint32_t ctr, uint8_t* out) {
  uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574}, w[16]; auto le = [](const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; };
  for (int i = 0; i < 8; i++) s[4 + i] = le(key + 4 * i); s[12] = ctr; for (int i = 0; i < 3; i++) s[13 + i] = le(nonce + 4 * i); memcpy(w, s, 64);
  for (int r = 0; r < 10; r++) { for (int i = 0; i < 4; i++) qr(w, i, 4 + i, 8 + i, 12 + i); for (int i = 0; i < 4; i++) qr(w, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
  for (int i = 0; i < 16; i++) { uint32_t v = w[i] + s[i]; for (int k = 0; k < 4; k++) out[4 * i + k] = v >> 8 * k; } }
static constexpr size_t MX = 260;
struct In { uint8_t key[32], nonce[12], p[MX], ks[MX + 64]; In() { sa_sym(key, 32, "key", 0); sa_sym(nonce, 12, "nonce", 0); sa_sym(p, MX, "p", 0); for (size_t i = 0; i < MX; i += 64) chachaBlock(key, nonce, 1 + i / 64, ks + i); } };
ENTRY prop_chacha_lengths() { In in; uint8_t b[MX], e[MX]; for (size_t n = 0; n <= MX; n++) { sa_ctx("n", n); ChaCha20 c(bytes(in.key, 32), bytes(in.nonce, 12)), d(bytes(in.key, 32), bytes(in.nonce, 12)); memcpy(b, in.p, MX); c.Encrypt(std::span<uint8_t>(b, n));
  for (size_t i = 0; i < MX; i++) e[i] = i < n ? in.p[i] ^ in.ks[i] : in.p[i]; sa_same("ciphertext", b, e, MX); memcpy(b, in.p, MX); d.Decrypt(std::span<uint8_t>(b, n)); sa_same("decrypt-keystream", b, e, MX); d = ChaCha20(bytes(in.key, 32), bytes(in.nonce, 12)); d.Decrypt(std::span<uint8_t>(b, n)); sa_same("round-trip", b, in.p, MX); } }
ENTRY prop_chacha_split() { In in; uint8_t b[MX], e[MX]; for (size_t i = 0; i < MX; i++) e[i] = in.p[i] ^ in.ks[i];
  for (size_t k = 0; k <= MX; k += k > 70 && k < 120 ? 5 : 1) for (size_t l : {k, k + 1, k + 63, k + 64, MX}) if (l <= MX) { sa_ctx("split", k * 1000 + l); ChaCha20 c(bytes(in.key, 32), bytes(in.nonce, 12)); memcpy(b, in.p, MX); c.Encrypt(std::span<uint8_t>(b, k)); c.Encrypt(std::span<uint8_t>(b + k, l - k)); ChaCha20 copy = c; c.Encrypt(std::span<uint8_t>(b + l, MX - l)); sa_same("split", b, e, MX);
    memcpy(b + l, in.p + l, MX - l); copy.Encrypt(std::span<uint8_t>(b + l, MX - l)); sa_same("copy-continues", b, e, MX);
    ChaCha20 m(bytes(in.key, 32), bytes(in.nonce, 12)); memcpy(b, in.p, MX); m.Encrypt(std::span<uint8_t>(b, k)); m.Decrypt(std::span<uint8_t>(b + k, MX - k)); sa_same("both-directions-share-the-position", b, e, MX); } }
// any position in the stream
ENTRY prop_chacha_any_counter() { In in; { uint8_t z[32] = {}; ChaCha20 c(bytes(z, 32), bytes(z, 12)); if constexpr (requires { c.state[12] == 2u; }) { if (c.state[12] != 2) return; } else return; } // only where the next block is numbered there and the first one is made at once
  uint32_t q; sa_symw(&q, 4, "ctr", 0); auto run = [&](auto c) { if constexpr (requires { c.state[12] = q; }) { if constexpr (requires { c.GenerateBlock(); }) { c.state[12] = q; c.GenerateBlock(); uint8_t b[130], e[192]; memcpy(b, in.p, 130); for (uint32_t i = 0; i < 3; i++) chachaBlock(in.key, in.nonce, q + i, e + 64 * i); for (int i = 0; i < 130; i++) e[i] ^= in.p[i]; c.Encrypt(std::span<uint8_t>(b, 130)); sa_same("any-counter", b, e, 130); } } };
  run(ChaCha20(bytes(in.key, 32), bytes(in.nonce, 12))); }
ENTRY prop_chacha_inputs_kept() { In in; sa_freeze(in.key); ChaCha20 c(bytes(in.key, 32), bytes(in.nonce, 12)); uint8_t b[10]; memcpy(b, in.p, 10); c.Encrypt(b); sa_unfreeze(in.key); sa_depends("key-used", b, 10, in.key, 32); sa_depends("nonce-used", b, 10, in.nonce, 12); }

struct Spy { static constexpr size_t size = 16, ivsize = 12, keysize = 16;
  struct KeySchedule { uint8_t k[16]; explicit KeySchedule(bytes key) { for (int i = 0; i < 16; i++) k[i] = key[i]; } };
  static void raw(const uint8_t* key, const uint8_t* in, uint8_t* out) { uint8_t b[32]; memcpy(b, key, 16); memcpy(b + 16, in, 16); sa_uf("E", b, 32, out, 16); }
  static __m128i Encrypt(const KeySchedule& ks, __m128i x) { uint8_t i[16], o[16]; memcpy(i, &x, 16); sa_log("blocks", i, 16); raw(ks.k, i, o); memcpy(&x, o, 16); return x; } };
template <class E> static void refctr(E enc, const uint8_t* iv, uint64_t seq, uint8_t* d, size_t n) { uint8_t c[16]; memcpy(c, iv, 16); for (int i = 0; i < 8; i++) c[4 + i] ^= uint8_t(seq >> (56 - 8 * i));
  for (size_t i = 0; i < n; i += 16) { uint32_t v = (uint32_t)c[12] << 24 | c[13] << 16 | c[14] << 8 | c[15]; v++; c[12] = v >> 24; c[13] = v >> 16; c[14] = v >> 8; c[15] = v; uint8_t k[16]; enc(c, k); for (size_t t = 0; t < 16 && i + t < n; t++) d[i + t] ^= k[t]; } }
struct alignas(16) Ic { uint8_t key[16], iv[16], pad = 0, p[100]; Ic() { sa_sym(key, 16, "key", 0); sa_sym(iv, 16, "iv", 0); sa_sym(p, 100, "p", 0); } };
static void ctrCase(uint32_t low, size_t n) { Ic in; for (int i = 0; i < 4; i++) in.iv[12 + i] = low >> (24 - 8 * i); auto enc = [&](const uint8_t* i, uint8_t* o) { Spy::raw(in.key, i, o); }; sa_ctx("low,n", (uint64_t)low * 1000 + n);
  uint8_t b[100], e[100]; sa_logreset("blocks"); CTR<Spy> c({bytes(in.key, 16), bytes(in.iv, 16)}), d({bytes(in.key, 16), bytes(in.iv, 16)});
  for (uint64_t m = 0; m < 3; m++) { memcpy(b, in.p, 100); memcpy(e, in.p, 100); refctr(enc, in.iv, m, e, n); c.Encrypt(std::span<uint8_t>(b, n)); sa_same("ctr-keystream", b, e, 100); }
  if (n) sa_distinct("no-block-reuse", "blocks");
  for (uint64_t m = 0; m < 3; m++) { memcpy(b, in.p, 100); refctr(enc, in.iv, m, b, n); d.Decrypt(std::span<uint8_t>(b, n)); sa_same("ctr-round-trip", b, in.p, 100); } }
// any message number
ENTRY prop_ctr_any_message() { { uint8_t z[16] = {}; CTR<Spy> c({bytes(z, 16), bytes(z, 16)}); if constexpr (requires { c.message_counter == 0; }) { if (c.message_counter != 0) return; c.GenerateKeystream(3); if (c.message_counter != 1) return; c.GenerateKeystream(3); if (c.message_counter != 2) return; } else return; }
  Ic in; for (int i = 0; i < 4; i++) in.iv[12 + i] = 0; auto enc = [&](const uint8_t* i, uint8_t* o) { Spy::raw(in.key, i, o); }; uint64_t q; sa_symw(&q, 8, "message", 0);
  auto go = [&](auto c) { if constexpr (requires { c.message_counter = q; }) { for (size_t n : {0, 7, 16, 40}) { sa_ctx("n", n); c.message_counter = q; uint8_t b[100], e[100]; memcpy(b, in.p, 100); memcpy(e, in.p, 100); refctr(enc, in.iv, q, e, n); c.Encrypt(std::span<uint8_t>(b, n)); sa_same("any-message", b, e, 100); uint64_t w = q + 1; sa_same("counter-advances", &c.message_counter, &w, 8); } } };
  go(CTR<Spy>({bytes(in.key, 16), bytes(in.iv, 16)})); }
// many messages on one object
ENTRY prop_ctr_many() { Ic in; for (int i = 0; i < 4; i++) in.iv[12 + i] = 0; auto enc = [&](const uint8_t* i, uint8_t* o) { Spy::raw(in.key, i, o); }; CTR<Spy> c({bytes(in.key, 16), bytes(in.iv, 16)}); for (uint64_t m = 0; m < 300; m++) { uint8_t b[5], e[5]; memcpy(b, in.p, 5); memcpy(e, in.p, 5); refctr(enc, in.iv, m, e, 5); c.Encrypt(std::span<uint8_t>(b, 5)); if (m > 250 && m < 262 || m > 297) { sa_ctx("message", m); sa_same("ctr-keystream", b, e, 5); } } }
ENTRY prop_ctr_lengths() { for (size_t n = 0; n <= 66; n++) ctrCase(0, n); }
ENTRY prop_ctr_wrap() { for (uint32_t l : {0xfffffffeu, 0xfffffffdu, 0xffffffffu, 0x00fffffeu, 0x0000fffeu, 0x000000feu, 0x01fffffeu}) ctrCase(l, 60); }
ENTRY prop_ctr_aes() { Ic in; sa_ctx("aes", 0); CTR<AES<128>> c({bytes(in.key, 16), bytes(in.iv, 16)}); ref::Aes<128> r(in.key); for (int i = 12; i < 16; i++) in.iv[i] = 0; CTR<AES<128>> d({bytes(in.key, 16), bytes(in.iv, 16)}); uint8_t b[40], e[40]; memcpy(b, in.p, 40); memcpy(e, in.p, 40); refctr([&](const uint8_t* i, uint8_t* o) { r.enc(i, o); }, in.iv, 0, e, 40); d.Encrypt(std::span<uint8_t>(b, 40)); sa_same("ctr-aes", b, e, 40); }
// long requests, across the 256th block and in uneven pieces; contents known, so that nothing but positions and counters is in question
ENTRY prop_long_chacha() { static uint8_t p[20011], e[20011], b[20011]; uint8_t key[32], nonce[12], ks[64]; uint32_t s = 7; auto r = [&] { s = s * 1664525 + 1013904223; return uint8_t(s >> 24); }; for (auto& x : key) x = r(); for (auto& x : nonce) x = r(); for (auto& x : p) x = r();
  for (size_t i = 0; i < sizeof p; i++) { if (i % 64 == 0) chachaBlock(key, nonce, 1 + i / 64, ks); e[i] = p[i] ^ ks[i % 64]; }
  { sa_ctx("pieces", 1); ChaCha20 c(bytes(key, 32), bytes(nonce, 12)); memcpy(b, p, sizeof p); c.Encrypt(std::span<uint8_t>(b, sizeof p)); sa_same("long-ciphertext", b, e, sizeof p); }
  { sa_ctx("pieces", 2); ChaCha20 c(bytes(key, 32), bytes(nonce, 12)); memcpy(b, p, sizeof p); for (size_t i = 0, k = 1; i < sizeof p; i += k, k = k * 5 % 2003) { size_t l = sizeof p - i < k ? sizeof p - i : k; c.Encrypt(std::span<uint8_t>(b + i, l)); } sa_same("long-split", b, e, sizeof p); }
  { sa_ctx("pieces", 3); ChaCha20 c(bytes(key, 32), bytes(nonce, 12)); memcpy(b, e, sizeof p); c.Decrypt(std::span<uint8_t>(b, 16384)); c.Decrypt(std::span<uint8_t>(b + 16384, sizeof p - 16384)); sa_same("long-round-trip", b, p, sizeof p); } }
ENTRY prop_long_ctr() { static uint8_t p[5003], e[5003], b[5003]; uint8_t key[32], iv[16]; uint32_t s = 9; auto r = [&] { s = s * 1664525 + 1013904223; return uint8_t(s >> 24); }; for (auto& x : key) x = r(); for (auto& x : iv) x = r(); for (auto& x : p) x = r(); for (int i = 12; i < 16; i++) iv[i] = 0;
  ref::Aes<256> a(key); auto enc = [&](const uint8_t* i, uint8_t* o) { a.enc(i, o); }; CTR<AES<256>> c({bytes(key, 32), bytes(iv, 16)}), d({bytes(key, 32), bytes(iv, 16)}); for (uint64_t m = 0; m < 2; m++) for (size_t n : {size_t(sizeof p)}) { sa_ctx("message", m); memcpy(b, p, n); memcpy(e, p, n); refctr(enc, iv, m, e, n); c.Encrypt(std::span<uint8_t>(b, n)); sa_same("long-ciphertext", b, e, n); d.Decrypt(std::span<uint8_t>(b, n)); sa_same("long-round-trip", b, p, n); } }
