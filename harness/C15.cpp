// HMAC (RFC 2104), HKDF (RFC 5869) and the TLS 1.3 key schedule (RFC 8446 7.1), for every content of keys, salts, messages and transcripts.
// SA-MIN: 600
#include "c15.h"
template <class H> static void hmac(const char* nm) { init(); constexpr size_t B = Ref<H>::B, O = Ref<H>::OUT; for (size_t kn : {size_t(0), size_t(1), O - 1, O, O + 1, 2 * O, 2 * O + 1, B - 1, B, B + 1, 2 * B + 3}) for (size_t tn : {size_t(0), size_t(1), O, B - 9, B - 1, B, B + 1}) { sa_ctx(nm, kn * 1000 + tn); auto h = HMAC<H>(bytes(T, tn), bytes(K, kn)); uint8_t e[O]; rhmac<H>(K, kn, T, tn, e); sa_same("hmac", h.data(), e, O); } }
#define X(n, H) ENTRY prop_hmac_##n() { hmac<H>(#n); }
ALL_HASHES(X)
#undef X
template <class H> static void hkdf(const char* nm) { init(); constexpr size_t B = Ref<H>::B, O = Ref<H>::OUT;
  for (size_t sn : {size_t(0), size_t(5), O, B + 1}) { sa_ctx(nm, sn); auto p = HKDF_Extract<H>(bytes(K, sn), bytes(T, size_t(22))); uint8_t e[O]; rhmac<H>(K, sn, T, 22, e); sa_same("extract", p.data(), e, O); }
  for (size_t in : {size_t(0), size_t(1), size_t(10), size_t(80)}) for (size_t len : {size_t(0), size_t(1), O - 1, O, O + 1, 2 * O, 3 * O + 5}) { sa_ctx(nm, in * 1000 + len); auto v = HKDF_Expand<H>(bytes(K, O), bytes(T, in), len); sa_true("expand-length", v.size() == len); uint8_t e[4 * O]; rexpand<H>(K, O, T, in, e, len); if (v.size() == len) sa_same("expand", v.data(), e, len); } }
ENTRY prop_hkdf_sha1() { hkdf<SHA1>("sha1"); }
ENTRY prop_hkdf_sha256() { hkdf<SHA2<256>>("sha256"); }
ENTRY prop_hkdf_sha384() { hkdf<SHA2<384>>("sha384"); }
ENTRY prop_hkdf_sha512() { hkdf<SHA2<512>>("sha512"); }
ENTRY prop_hkdf_sha3() { hkdf<SHA3<256>>("sha3"); }
// every block of the longest output that is analysed uses its own counter value; longer requests than RFC 5869 allows are refused
ENTRY prop_hkdf_long() { init(); typedef SHA2<256> H; { sa_ctx("blocks", 8); auto v = HKDF_Expand<H>(bytes(K, size_t(32)), bytes(T, size_t(3)), 256); uint8_t e[256]; rexpand<H>(K, 32, T, 3, e, 256); sa_true("expand-length", v.size() == 256); sa_same("expand-long", v.data(), e, 256); }
  for (size_t len : {size_t(255 * 32 + 1), size_t(255 * 32 + 32), size_t(1) << 20}) { sa_ctx("len", len); bool t = outcome([&] { HKDF_Expand<H>(bytes(K, size_t(32)), bytes(T, size_t(3)), len); }); sa_true("too-long-refused", t); } }
// the longest outputs: all 255 blocks, and label lengths that need both octets of the length field
ENTRY prop_hkdf_max() { init(); typedef MD5 H; for (size_t len : {255 * 16}) { sa_ctx("len", len); std::vector<uint8_t> v; bool t = outcome([&] { v = HKDF_Expand<H>(bytes(K, size_t(16)), bytes(T, size_t(3)), len); }); sa_true("longest-length", !t && v.size() == len); uint8_t e[255 * 16]; rexpand<H>(K, 16, T, 3, e, len); if (v.size() == len) sa_same("expand-longest", v.data(), e, len); } }
template <class H> static void longlabel(std::initializer_list<size_t> lens) { init(); constexpr size_t O = Ref<H>::OUT; for (size_t len : lens) { sa_ctx("len", len); auto v = HKDF_Expand_Label<H>(bytes(K, O), "key", bytes(T, O), len); uint8_t e[2048]; rlabel<H>(K, O, "key", T, O, e, len); sa_true("label-length", v.size() == len); if (v.size() == len) sa_same("label-long", v.data(), e, len); } }
ENTRY prop_label_long_sha256() { longlabel<SHA2<256>>({31, 256}); }
ENTRY prop_label_long_sha384() { longlabel<SHA2<384>>({47, 256}); }
ENTRY prop_label_long_md5() { longlabel<MD5>({17, 256, 257, 1024}); }
ENTRY prop_label_limits() { init(); typedef SHA2<256> H; for (size_t n : {249, 250, 300}) { sa_ctx("label", n); std::string l(n, 'x'); std::vector<uint8_t> v; bool t = outcome([&] { v = HKDF_Expand_Label<H>(bytes(K, size_t(32)), l, bytes(T, size_t(0)), 32); }); if (n > 249) sa_true("long-label-refused", t); else { uint8_t e[32]; rlabel<H>(K, 32, l.c_str(), T, 0, e, 32); sa_true("ok", !t && v.size() == 32); sa_same("label", v.data(), e, 32); } }
  for (size_t n : {255, 256, 300}) { sa_ctx("context", n); std::vector<uint8_t> v; bool t = outcome([&] { v = HKDF_Expand_Label<H>(bytes(K, size_t(32)), "l", bytes(T, n), 32); }); if (n > 255) sa_true("long-context-refused", t); else { uint8_t e[32]; rlabel<H>(K, 32, "l", T, n, e, 32); sa_true("ok", !t && v.size() == 32); sa_same("label", v.data(), e, 32); } } }
ENTRY prop_tls_sha256() { tls<SHA2<256>>("sha256"); }
ENTRY prop_tls_sha384() { tls<SHA2<384>>("sha384"); }
// long keys and messages
template <class H> static void longHmac(const char* nm) { static uint8_t k[1100], t[3000]; uint32_t s = 3; for (auto& x : k) { s = s * 1664525 + 1013904223; x = s >> 24; } for (auto& x : t) { s = s * 1664525 + 1013904223; x = s >> 24; } constexpr size_t B = Ref<H>::B, O = Ref<H>::OUT; struct { size_t k, t; } cases[] = {{255, 10}, {256, 300}, {257, 256}, {1100, 1}, {32, 3000}, {B, 1024}}; for (auto& c : cases) { sa_ctx(nm, c.k * 10000 + c.t); auto d = HMAC<H>(bytes(t, c.t), bytes(k, c.k)); static uint8_t buf[3300]; uint8_t key[B] = {}, in[O], e[O]; if (c.k > B) Ref<H>::go(k, c.k, key); else memcpy(key, k, c.k); for (size_t i = 0; i < B; i++) buf[i] = key[i] ^ 0x36; memcpy(buf + B, t, c.t); Ref<H>::go(buf, B + c.t, in); for (size_t i = 0; i < B; i++) buf[i] = key[i] ^ 0x5c; memcpy(buf + B, in, O); Ref<H>::go(buf, B + O, e); sa_same("long-hmac", d.data(), e, O); } }
ENTRY prop_long_hmac() { longHmac<MD5>("md5"); longHmac<SHA1>("sha1"); longHmac<SHA2<256>>("sha256"); longHmac<SHA2<384>>("sha384"); longHmac<SHA3<256>>("sha3"); }
