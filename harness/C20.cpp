// Keys and nonces of every other size than the algorithm's are refused with an error: nothing is read or written beyond them, and no keystream,
// ciphertext or tag ever comes from a partial, padded or overlong key. The right sizes are accepted.
// SA-MIN: 100
#include "priv.h"
#include "sa.h"
#include "caligo/aes.h"
#include "caligo/key_iv_pair.h"
#include "caligo/ctr.h"
#include "caligo/gcm.h"
#include "caligo/chacha20.h"
#include "caligo/hkdf.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
using namespace Caligo;
typedef std::vector<uint8_t> B;
static B any(size_t n, const char* nm) { B b(n); b.shrink_to_fit(); if (n) sa_sym(b.data(), n, nm, 0); return b; }
template <class A> static key_iv_pair<A> kv(const B& k, const B& v) { return key_iv_pair<A>{std::span<const uint8_t>(k), std::span<const uint8_t>(v)}; }
template <size_t BITS> static void aes() { for (size_t n = 0; n <= 72; n++) { sa_ctx("key-octets", n); B k = any(n, "key"); int o = outcome([&] { AesKeySchedule<BITS> s{std::span<const uint8_t>(k)}; }); sa_true(n == BITS / 8 ? "right-size-accepted" : "other-size-refused", o == (n != BITS / 8)); } }
ENTRY prop_aes_128() { aes<128>(); }
ENTRY prop_aes_256() { aes<256>(); }
template <size_t BITS> static void ctr() { for (size_t n = 0; n <= 72; n++) for (size_t v : {16, 0, 12}) { sa_ctx("key,iv", n * 100 + v); B k = any(n, "key"), iv = any(v, "iv"); B d = any(20, "data"), d0 = d; bool right = n == BITS / 8 && v == 16; int o = outcome([&] { CTR<AES<BITS>> c(kv<AES<BITS>>(k, iv)); c.Encrypt(d); }); sa_true(right ? "right-size-accepted" : "other-size-refused", o == !right); if (!right) sa_same("data-untouched", d.data(), d0.data(), 20); }
  for (size_t v = 0; v <= 40; v++) { sa_ctx("iv", v); B k = any(BITS / 8, "key"), iv = any(v, "iv"); int o = outcome([&] { CTR<AES<BITS>> c(kv<AES<BITS>>(k, iv)); c.GenerateKeystream(40); }); sa_true(v == 16 ? "right-size-accepted" : "other-size-refused", o == (v != 16)); } }
ENTRY prop_ctr_128() { ctr<128>(); }
ENTRY prop_ctr_256() { ctr<256>(); }
template <size_t BITS> static void gcm() { for (size_t n = 0; n <= 72; n++) { sa_ctx("key", n); B k = any(n, "key"), iv = any(12, "iv"); B d = any(20, "data"); int o = outcome([&] { GCM<AES<BITS>> c(kv<AES<BITS>>(k, iv)); auto r = c.Encrypt(d, d); sa_true("text-has-its-size", r.first.size() == 20); }); sa_true(n == BITS / 8 ? "right-size-accepted" : "other-size-refused", o == (n != BITS / 8)); } }
ENTRY prop_gcm_128() { gcm<128>(); }
ENTRY prop_gcm_256() { gcm<256>(); }
// nonces of every size: whatever is not refused gives a whole text, what is refused gives none and verifies nothing
ENTRY prop_gcm_nonce() { for (size_t v = 0; v <= 40; v++) { sa_ctx("iv", v); B k = any(16, "key"), iv = any(v, "iv"), d = any(20, "data"); std::array<uint8_t, 16> t; sa_sym(t.data(), 16, "tag", 0); size_t e = 99, dn = 99; bool ok = true, f = false; int o = outcome([&] { GCM<AES<128>> c(kv<AES<128>>(k, iv)); auto r = c.Encrypt(d, d); e = r.first.size(); GCM<AES<128>> c2(kv<AES<128>>(k, iv)); auto q = c2.Decrypt(d, d, t); dn = q.first.size(); ok = q.second; }); if (v == 12) sa_true("standard-nonce-accepted", o == 0 && e == 20 && dn == 20); sa_true("whole-text-or-none", o == 1 || (e == 20 && dn == 20) || (e == 0 && dn == 0)); if (o == 1 || e == 0) { bool g = o == 0 && ok; sa_same("refused-nonce-verifies-nothing", &g, &f, 1); } if (v == 0) sa_true("empty-nonce-refused", o == 1 || e == 0); } }
ENTRY prop_chacha20() { for (size_t n = 0; n <= 72; n++) for (size_t v : {12, 0, 8, 24}) { sa_ctx("key,nonce", n * 100 + v); B k = any(n, "key"), iv = any(v, "nonce"); bool right = n == 32 && v == 12; int o = outcome([&] { ChaCha20 c{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}; }); sa_true(right ? "right-size-accepted" : "other-size-refused", o == !right); } for (size_t v = 0; v <= 40; v++) { sa_ctx("nonce", v); B k = any(32, "key"), iv = any(v, "nonce"); int o = outcome([&] { ChaCha20 c{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}; }); sa_true(v == 12 ? "right-size-accepted" : "other-size-refused", o == (v != 12)); } }
// a pair keeps exactly the key and nonce it was given, and shares neither
ENTRY prop_pair() { for (size_t n : {0, 1, 16, 32, 33}) for (size_t v : {0, 1, 12, 16, 40}) { sa_ctx("key,iv", n * 100 + v); B k = any(n, "key"), iv = any(v, "iv"), k0 = k, iv0 = iv; key_iv_pair<AES<128>> p{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}; for (auto& x : k) x = 0; for (auto& x : iv) x = 0; sa_true("key-size", p.key.size() == n); sa_true("iv-size", p.iv.size() == v); if (p.key.size() == n && n) sa_same("key-kept", p.key.data(), k0.data(), n); if (p.iv.size() == v && v) sa_same("iv-kept", p.iv.data(), iv0.data(), v); } key_iv_pair<AES<128>> q({1, 2, 3}, {4, 5}); sa_true("lists", q.key == B({1, 2, 3}) && q.iv == B({4, 5})); }
