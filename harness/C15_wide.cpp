#include "c15.h"
// the same over an abstract hash of 64 octets, so that the longest outputs of the widest hashes (16320 octets) are reached
struct UH { static constexpr size_t hashsize = 64, blocksize = 128; std::vector<uint8_t> buf; UH() {} template <typename... A> UH(A... a) { (add(a), ...); } void add(std::string_view s) { add(bytes((const uint8_t*)s.data(), s.size())); } void add(std::span<const uint8_t> d) { buf.insert(buf.end(), d.begin(), d.end()); } operator std::array<uint8_t, 64>() const { std::array<uint8_t, 64> a; sa_uf("H", buf.data(), buf.size(), a.data(), 64); return a; } operator std::string() const { return {}; } static std::vector<uint8_t> getAsn1Id() { return {}; } std::array<uint8_t, 64> data() const { return *this; } static size_t MaxLength() { return ~size_t(0); } };
template <> struct Ref<UH> { static constexpr size_t B = 128, OUT = 64; static void go(const uint8_t* p, size_t n, uint8_t* o) { sa_uf("H", p, n, o, 64); } };
ENTRY prop_wide_expand() { init(); static uint8_t e[16320]; for (size_t len : {63, 64, 65, 255, 256, 4095, 4096, 4097, 8160, 8192, 12345, 16319, 16320}) { sa_ctx("len", len); auto v = HKDF_Expand<UH>(bytes(K, size_t(64)), bytes(T, len % 300), len); rexpand<UH>(K, 64, T, len % 300, e, len); sa_true("expand-length", v.size() == len); if (v.size() == len) sa_same("expand-wide", v.data(), e, len); auto l = HKDF_Expand_Label<UH>(bytes(K, size_t(64)), "exporter", bytes(T, len % 250), len); rlabel<UH>(K, 64, "exporter", T, len % 250, e, len); sa_true("label-length", l.size() == len); if (l.size() == len) sa_same("label-wide", l.data(), e, len); }
  for (size_t len : {16321, 20000, 65535, 65536, 65600}) { sa_ctx("beyond", len); bool t = outcome([&] { HKDF_Expand<UH>(bytes(K, size_t(64)), bytes(T, size_t(3)), len); }), u = outcome([&] { HKDF_Expand_Label<UH>(bytes(K, size_t(64)), "l", bytes(T, size_t(3)), len); }); sa_true("beyond-the-limit-refused", t && u); } }
ENTRY prop_wide_hmac() { init(); for (size_t kn : {0, 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 384, 400}) for (size_t tn : {0, 1, 127, 128, 129, 255, 256, 257, 400}) { sa_ctx("key,text", kn * 1000 + tn); auto h = HMAC<UH>(bytes(T, tn), bytes(K, kn)); uint8_t e[64]; rhmac<UH>(K, kn, T, tn, e); sa_same("hmac-wide", h.data(), e, 64); auto x = HKDF_Extract<UH>(bytes(K, kn), bytes(T, tn)); sa_same("extract-wide", x.data(), e, 64); } }
// the TLS key schedule at any size of the shared secret and of the transcript hash, and chains of updates
ENTRY prop_wide_tls() { for (size_t tn : {0, 1, 16, 20, 28, 32, 48, 63, 64, 65, 100, 255}) tls<UH>("transcript", {32}, tn); tls<UH>("shared", {0, 1, 31, 33, 48, 56, 64, 66, 97, 127, 128, 129, 133, 256, 300}); }
ENTRY prop_wide_updates() { init(); uint8_t x[64], y[64]; secret<UH> s; memcpy(s.data.data(), K, 64); memcpy(x, K, 64); for (int n = 0; n < 300; n++) { sa_ctx("update", n); s = HKDF_UpdateSecret<UH>(s); rlabel<UH>(x, 64, "traffic upd", T, 0, y, 64); memcpy(x, y, 64); sa_same("update", s.data.data(), x, 64); } }
