// Constant time, symmetric side: no branch, memory address, variable-time instruction or early-exit comparison depends on a key, a message or a
// MAC value. Lengths are public, contents are secret; the accept/reject verdict of a MAC check is public once it depends on every tag byte.
// SA-MIN: 10
#include "priv.h"
#include "hashes.h"
#include "sa.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "caligo/ctr.h"
#include "caligo/gcm.h"
#include "caligo/chacha20.h"
#ifdef THOROUGH
static constexpr bool DEEP = true;
#else
static constexpr bool DEEP = false;
#endif
template <class T> static void reached(T&& v) { sa_true("analysed", v.size() < 100000); }
template <class H> static void hash() { uint8_t m[400]; sa_sym(m, 400, "message", 1); constexpr size_t B = Ref<H>::B; for (size_t n : {size_t(0), size_t(1), size_t(7), B - 9, B - 1, B, B + 1, 2 * B + 5}) { sa_ctx("length", n); H h; h.add(bytes(m, n)); h.add(bytes(m, n / 2)); reached(h.data()); H g(std::string_view((char*)m, n)); reached(g.data()); H k = g; k.add(bytes(m, 3)); reached(k.data()); } }
#define X(n, H) ENTRY ct_hash_##n() { hash<H>(); }
ALL_HASHES(X)
#undef X
ENTRY ct_hash_by_name() { uint8_t m[300]; sa_sym(m, 300, "message", 1); for (const char* nm : {"sha2-256", "sha2-512", "sha3-256", "sha3-512", "sha1", "md5", "sha256", "sha384"}) outcome([&] { Hash h(nm); h.add(bytes(m, 200)); reached(h.data()); }); sa_true("analysed", true); }
template <class H> static void hmac() { uint8_t k[300], t[200]; sa_sym(k, 300, "key", 1); sa_sym(t, 200, "text", 1); constexpr size_t B = Ref<H>::B; for (size_t kn : {size_t(0), size_t(16), size_t(33), B - 1, B, B + 1, B + 60}) for (size_t tn : {0, 1, 100}) { sa_ctx("key,text", kn * 1000 + tn); reached(HMAC<H>(bytes(t, tn), bytes(k, kn))); } }
#define X(n, H) ENTRY ct_hmac_##n() { hmac<H>(); }
ALL_HASHES(X)
#undef X
struct C16 { static constexpr size_t keysize = 16, ivsize = 12; };
template <class H> static void hkdf() { constexpr size_t O = Ref<H>::OUT; uint8_t k[128], c[64]; sa_sym(k, 128, "secret", 1); sa_sym(c, 64, "transcript", 1); reached(HKDF_Extract<H>(bytes(k, 32), bytes(c, 32))); for (size_t n : {size_t(0), size_t(1), O, O + 1, 3 * O}) reached(HKDF_Expand<H>(bytes(k, O), bytes(c, 20), n)); reached(HKDF_Expand_Label<H>(bytes(k, O), "label", bytes(c, O), O));
  auto hs = HKDF_HandshakeSecret<H>(bytes(k, 32)); auto ms = HKDF_MasterSecret<H>(hs); for (int i = 0; i < 4; i++) { auto p = ms.template get_key_iv<C16>(bytes(c, O), i & 1, i >> 1); reached(p.key); reached(p.iv); } reached(hs.get_finished_key(bytes(c, O), true)); auto u = HKDF_UpdateSecret<H>(ms); reached(u.data); reached(exporter_master<H>(ms, bytes(c, O))); reached(resumption_master<H>(ms, bytes(c, O))); }
ENTRY ct_hkdf_sha256() { hkdf<SHA2<256>>(); }
ENTRY ct_hkdf_sha384() { hkdf<SHA2<384>>(); }
template <size_t K> static void aes() { uint8_t k[32], b[16]; sa_sym(k, 32, "key", 1); sa_sym(b, 16, "block", 1); typename AES<K>::KeySchedule s(bytes(k, K / 8)); __m128i x; memcpy(&x, b, 16); x = AES<K>::Encrypt(s, x); memcpy(b, &x, 16); sa_true("analysed", true); }
ENTRY ct_aes128() { aes<128>(); }
ENTRY ct_aes256() { aes<256>(); }
ENTRY ct_chacha() { uint8_t k[32], n[12], d[300]; sa_sym(k, 32, "key", 1); sa_sym(n, 12, "nonce", 1); sa_sym(d, 300, "data", 1); ChaCha20 c(bytes(k, 32), bytes(n, 12)); for (size_t i = 0; i < 70; i++) { c.Encrypt(std::span<uint8_t>(d, i)); c.Decrypt(std::span<uint8_t>(d + 3, i)); } sa_true("analysed", true); }
template <size_t K> static void ctr() { uint8_t k[32], d[100], iv[16]; sa_sym(k, 32, "key", 1); sa_sym(iv, 16, "iv", 0); sa_sym(d, 100, "data", 1); CTR<AES<K>> c({bytes(k, K / 8), bytes(iv, 16)}); for (size_t n : {0, 1, 15, 16, 17, 64, 100}) { c.Encrypt(std::span<uint8_t>(d, n)); c.Decrypt(std::span<uint8_t>(d, n)); } sa_true("analysed", true); }
ENTRY ct_ctr128() { ctr<128>(); }
ENTRY ct_ctr256() { ctr<256>(); }
template <size_t K> static void gcm(size_t ivn) { uint8_t k[32], d[100], iv[64], a[40]; sa_sym(k, 32, "key", 1); sa_sym(iv, 64, "iv", 0); sa_sym(d, 100, "data", 1); sa_sym(a, 40, "aad", 1); std::array<uint8_t, 16> tag; for (int i = 0; i < 16; i++) sa_sym(&tag[i], 1, "tag", 20 + i); sa_verdict(20, 35);
  GCM<AES<K>> e({bytes(k, K / 8), bytes(iv, ivn)}), g({bytes(k, K / 8), bytes(iv, ivn)}); for (size_t n : {0, 1, 15, 16, 17, 33, 64, 100}) for (size_t an : {0, 1, 16, 40}) { sa_ctx("text,aad", n * 100 + an); auto r = e.Encrypt(bytes(d, n), bytes(a, an)); reached(r.first); auto q = g.Decrypt(bytes(d, n), bytes(a, an), tag); reached(q.first); } }
ENTRY ct_gcm128() { gcm<128>(12); }
ENTRY ct_gcm256() { gcm<256>(12); }
ENTRY ct_gcm_iv16() { gcm<128>(16); }
ENTRY ct_gcm_iv8() { gcm<128>(8); }
ENTRY ct_gcm_iv60() { gcm<256>(60); }
