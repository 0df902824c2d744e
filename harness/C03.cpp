// No state is shared: no operation writes memory that another object, copy or thread could reach, and independent or copied objects never affect each other.
// SA-MIN: 150
// SA-ENGINE: --effects
// SA-STUB: Caligo::MontgomeryState<4096ul>::MontgomeryState(=stub_mont
// SA-STUB: Caligo::Truststore::Truststore()=stub_store
#include "hashes.h"
#include "priv.h"
#include "sa.h"
#include "caligo/aes.h"
#include "caligo/base64.h"
#include "caligo/chacha20.h"
#include "caligo/crc.h"
#include "caligo/ctr.h"
#include "caligo/gcm.h"
#include "caligo/hkdf.h"
#include "caligo/key_iv_pair.h"
#include "caligo/mont.h"
#include "caligo/random.h"
#include "caligo/random_prime.h"
#include "caligo/rsa.h"
#include "caligo/Truststore.h"
#include "caligo/x25519.h"
#include "cert.h"
#include <cstdlib>
struct Yes : PublicKey { bool validateSignature(Tls13SignatureScheme, std::span<const uint8_t>, std::span<const uint8_t>) const override { return true; } };
static x509certificate make_(int id, const char* subject, const char* issuer) { x509certificate c; Parts p; p.subject = rdn(CN, txt(subject)); p.issuer = rdn(CN, txt(issuer)); p.serial = B{uint8_t(id)}; c.derCert = cert(p); c.subject = subject; c.issuer = issuer; c.validity_start = 0; c.validity_end = ~0ull; c.pubkey = std::make_unique<Yes>(); return c; }
extern "C" void stub_mont(void*, const void*) {}
extern "C" void stub_store(Truststore* t) { memset((void*)t, 0, sizeof *t); typedef std::map<std::string, x509certificate> map_t; if constexpr (requires (Truststore& x) { x.trusted_certs; }) new (&t->trusted_certs) map_t(); else new ((void*)t) map_t(); t->addCertificate(make_(10, "R1", "R1")); }
static void eq(const char* id, const B& a, const B& b) { sa_true("same-size", a.size() == b.size()); if (a.size() == b.size() && a.size()) sa_same(id, a.data(), b.data(), a.size()); }
// Two objects of one kind, and copies of them. step(object, round, octets) performs an operation and returns what a caller sees.
template <class Make, class Step> static void separate(Make mk, Step step, int rounds) {
  // alone
  auto a = mk(0); std::vector<B> ra, rb; for (int r = 0; r < rounds; r++) ra.push_back(step(a, r, 0)); auto b = mk(1); for (int r = 0; r < rounds; r++) rb.push_back(step(b, r, 1));
  // interleaved
  { auto x = mk(0); auto y = mk(1); for (int r = 0; r < rounds; r++) { sa_ctx("interleaved", r); eq("first", step(x, r, 0), ra[r]); eq("second", step(y, r, 1), rb[r]); } }
  // copies: using one leaves the other's memory and results alone
  typedef decltype(a) A; if constexpr (std::is_copy_constructible_v<A>) for (int at = 0; at < rounds; at++) { sa_ctx("copied-after", at); auto x = mk(0); for (int r = 0; r < at; r++) step(x, r, 0); A y = x; sa_freezedeep(&x); std::vector<B> ry; for (int r = at; r < rounds; r++) ry.push_back(step(y, r, 0)); sa_unfreezedeep(&x); for (int r = at; r < rounds; r++) eq("copy", ry[r - at], ra[r]); { A z = x; sa_freezedeep(&z); for (int r = at; r < rounds; r++) eq("original", step(x, r, 0), ra[r]); sa_unfreezedeep(&z); for (int r = at; r < rounds; r++) eq("later-copy", step(z, r, 0), ra[r]); }
    if constexpr (std::is_copy_assignable_v<A>) { auto p = mk(1); step(p, 0, 1); auto q = mk(0); for (int r = 0; r < at; r++) step(q, r, 0); p = q; sa_freezedeep(&q); for (int r = at; r < rounds; r++) eq("assigned", step(p, r, 0), ra[r]); sa_unfreezedeep(&q); } }
  // a dead copy takes nothing with it
  if constexpr (std::is_copy_constructible_v<A>) { auto x = mk(0); { A y = x; step(y, 0, 0); } for (int r = 0; r < rounds; r++) eq("after-a-copy-died", step(x, r, 0), ra[r]); }
}
template <class H> static void hash() { const B d[2] = {any(70, "data"), any(130, "other")}; separate([](int) { return H(); }, [&](H& h, int r, int w) { h.add(std::span<const uint8_t>(d[w]).subspan(0, r * 23 + w)); auto x = h.data(); return B(x.begin(), x.end()); }, 4); }
#define HASH(n, T) ENTRY prop_hash_##n() { hash<T>(); H_more<T>(); }
template <class H> static void H_more() { B d = any(9, "data"), k = any(7, "key"); auto a = HMAC<H>(std::span<const uint8_t>(d), std::span<const uint8_t>(k)); auto b = HMAC<H>(std::span<const uint8_t>(k), std::span<const uint8_t>(d)); auto c = HMAC<H>(std::span<const uint8_t>(d), std::span<const uint8_t>(k)); sa_same("hmac-repeated", &a, &c, sizeof a); H h; h.add(std::span<const uint8_t>(d)); std::string s = h, s2 = h; sa_true("text-again", s == s2); }
ALL_HASHES(HASH)
ENTRY prop_crc() { hash<CRC32>(); }
ENTRY prop_hkdf() { B d = any(20, "ikm"), s = any(8, "salt"), i = any(5, "info"); auto one = [&](auto& x, auto& y) { auto p = HKDF_Extract<SHA2<256>>(std::span<const uint8_t>(x), std::span<const uint8_t>(y)); return HKDF_Expand<SHA2<256>>(p, i, 70); }; auto a = one(d, s), b = one(s, d), c = one(d, s); eq("hkdf-repeated", B(a.begin(), a.end()), B(c.begin(), c.end())); }
template <size_t BITS> static void ctr() { B k[2] = {any(BITS / 8, "key"), any(BITS / 8, "key2")}, v[2] = {any(16, "iv"), any(16, "iv2")}; separate([&](int w) { return CTR<AES<BITS>>(key_iv_pair<AES<BITS>>{std::span<const uint8_t>(k[w]), std::span<const uint8_t>(v[w])}); }, [](CTR<AES<BITS>>& c, int r, int) { B d(r * 7 + 3); if (r & 1) c.Encrypt(d); else c.Decrypt(d); return d; }, 3); }
ENTRY prop_ctr_128() { ctr<128>(); }
ENTRY prop_ctr_256() { ctr<256>(); }
template <size_t BITS, size_t IV> static void gcm() { B k[2] = {any(BITS / 8, "key"), any(BITS / 8, "key2")}, v[2] = {any(IV, "iv"), any(IV, "iv2")}, p = any(19, "text"), ad = any(5, "aad"); separate([&](int w) { return GCM<AES<BITS>>(key_iv_pair<AES<BITS>>{std::span<const uint8_t>(k[w]), std::span<const uint8_t>(v[w])}); }, [&](GCM<AES<BITS>>& c, int r, int) { if (r == 2) { std::array<uint8_t, 16> t{}; auto q = c.Decrypt(p, ad, t); return q.first; } auto q = c.Encrypt(p, ad); q.first.insert(q.first.end(), q.second.begin(), q.second.end()); return q.first; }, 3); }
ENTRY prop_gcm_128() { gcm<128, 12>(); }
ENTRY prop_gcm_256() { gcm<256, 12>(); }
ENTRY prop_gcm_128_16() { gcm<128, 16>(); }
ENTRY prop_gcm_128_8() { gcm<128, 8>(); }
ENTRY prop_chacha20() { B k[2] = {any(32, "key"), any(32, "key2")}, v[2] = {any(12, "iv"), any(12, "iv2")}; separate([&](int w) { return ChaCha20{std::span<const uint8_t>(k[w]), std::span<const uint8_t>(v[w])}; }, [](ChaCha20& c, int r, int) { B d(r * 40 + 30); if (r & 1) c.Encrypt(d); else c.Decrypt(d); return d; }, 3); }
template <size_t BITS> static void aes() { B k[2] = {any(BITS / 8, "key"), any(BITS / 8, "key2")}; separate([&](int w) { return AesKeySchedule<BITS>{std::span<const uint8_t>(k[w])}; }, [](AesKeySchedule<BITS>& s, int, int) { __m128i b = AES<BITS>::Encrypt(s, __m128i{0, 0}); B o(16); memcpy(o.data(), &b, 16); return o; }, 2); }
ENTRY prop_aes() { aes<128>(); aes<256>(); }
template <size_t K> static B oct(const bignum<K>& b) { B o(K / 8); memcpy(o.data(), &b.v[0], K / 8); return o; }
template <size_t K> static bignum<K> symbig(const char* n) { bignum<K> b; for (size_t i = 0; i < K / 32; i++) { uint32_t w; sa_symw(&w, 4, n, 0); b.v[i] = w; } return b; }
ENTRY prop_bignum() { bignum<128> x[2] = {symbig<128>("a"), symbig<128>("b")}; separate([&](int w) { return x[w]; }, [&](bignum<128>& b, int r, int) { switch (r) { case 0: b = (b + bignum<128>(7)).second; break; case 1: b.shr1(); b.set_bit(3); break; case 2: { auto p = b * b; b = p.slice<128>(0); break; } case 3: b.neg(); break; default: { B o = b.as_bytes(); return o; } } return oct(b); }, 5); }
ENTRY prop_montgomery() { bignum<64> n[2]; n[0] = bignum<64>(0xfffffffb); n[1] = bignum<64>(1000003); bignum<64> a = symbig<64>("a"); separate([&](int w) { return MontgomeryState<64>(n[w]); }, [&](MontgomeryState<64>& s, int r, int) { MontgomeryValue<64> x(s, a); switch (r) { case 0: x = x * x + x; break; case 1: x = x.exp(17u); break; default: x = x.square(); } return oct(bignum<64>(x)); }, 3);
  MontgomeryState<64> s(n[0]); separate([&](int w) { return MontgomeryValue<64>(s, bignum<64>(w + 3)); }, [&](MontgomeryValue<64>& v, int r, int) { switch (r) { case 0: v = v * v; break; case 1: v = v + v; break; case 2: v = v.exp(5u); break; default: v = v.square(); } return oct(bignum<64>(v)); }, 4); }
ENTRY prop_rsa() { bignum<384> n[2]; for (int i = 0; i < 12; i++) n[0].v[i] = 0x9e3779b9u * (i + 1) | 1, n[1].v[i] = 0x85ebca6bu * (i + 3) | 1; B m = any(20, "message"); bignum<384> e(65537); separate([&](int w) { return rsa_public_key<384>(n[w], e); }, [&](rsa_public_key<384>& k, int r, int w) { B sig(48, uint8_t(r + 1)); bool v = r ? k.validatePssSignature<SHA1, MGF1<SHA1>>(m, sig) : k.validatePkcs1_5Signature<SHA1>(m, sig); if constexpr (requires { k.rsaep(e); }) return oct(k.rsaep(bignum<384>(r * 100 + 2))); else return B{v}; }, 2);
  separate([&](int w) { return rsa_private_key<384>(n[w], bignum<384>(77)); }, [&](rsa_private_key<384>& k, int r, int) { return k.signPkcs1_5Signature<SHA1>(std::span<const uint8_t>((const uint8_t*)"abcdefgh", r + 1)); }, 1); }
ENTRY prop_rsa_pss() { bignum<384> n; for (int i = 0; i < 12; i++) n.v[i] = 0x9e3779b9u * (i + 1) | 1; bignum<384> e(17); B m = any(20, "message"); rsa_private_key<384> k(n, e); std::array<uint8_t, 20> h{}; B salt(20, 3); (void)h; auto s = k.signPssSignature<SHA1, MGF1<SHA1>>(m, salt); auto t = k.signPssSignature<SHA1, MGF1<SHA1>>(salt, salt); auto u = k.signPssSignature<SHA1, MGF1<SHA1>>(m, salt); eq("signed-again", s, u); }
ENTRY prop_x25519() { typedef decltype(ec_value::random_private_key()) E; ec_value k = E::random_private_key(); bignum<256> u = symbig<256>("u"); separate([&](int w) { return w ? ec_value{u} : ec_value{bignum<256>(9)}; }, [&](ec_value& v, int r, int) { switch (r) { case 0: v = v * v + v; break; case 1: v = v - v.square(); break; default: v.normalize(); } return oct(v.v); }, 3); ec_value r = X25519(k, ec_value{bignum<256>(9)}); (void)r; }
ENTRY prop_pair() { B k = any(16, "key"), v = any(12, "iv"); separate([&](int w) { return w ? key_iv_pair<AES<128>>{std::span<const uint8_t>(v), std::span<const uint8_t>(k)} : key_iv_pair<AES<128>>{std::span<const uint8_t>(k), std::span<const uint8_t>(v)}; }, [](key_iv_pair<AES<128>>& p, int r, int) { if (r == 1) p.key[0] ^= 1, p.iv[1] ^= 5; B o = p.key; o.insert(o.end(), p.iv.begin(), p.iv.end()); return o; }, 3); }
ENTRY prop_base64() { for (size_t n = 0; n < 62; n += 7) { B d = any(n, "data"); std::string a = base64(d), b = base64(d, false, true, MinusUnderscore), c = base64(d); sa_true("size", a.size() == c.size()); if (a.size() == c.size() && a.size()) sa_same("repeated", a.data(), c.data(), a.size()); } B x = base64d("aGVsbG8gd29ybGQ="), y = base64d("AAAA"), z = base64d("aGVsbG8gd29ybGQ="); eq("decoded-again", x, z); }
ENTRY prop_random() { uint64_t a[5]; uint32_t b[5]; uint16_t c[5]; uint8_t d[5]; generate_random(std::span<uint64_t>(a)); generate_random(std::span<uint32_t>(b)); generate_random(std::span<uint16_t>(c)); generate_random(std::span<uint8_t>(d)); auto n = bignum<64>::random(); (void)n; sa_true("prime", miller_rabin_is_probably_prime<64>(bignum<64>(7919))); sa_true("composite", !miller_rabin_is_probably_prime<64>(bignum<64>(7921))); }
// certificates: parsing, verifying and deciding trust changes neither the store nor anything else that is shared
ENTRY prop_trust() { Truststore& t = Truststore::Instance(); for (int k = 0; k < 4; k++) { sa_ctx("list", k); std::vector<x509certificate> v; v.push_back(make_(1, "A", k == 1 ? "X" : "B")); if (k != 2) v.push_back(make_(2, "B", "R1")); v.push_back(make_(3, "C", "R1")); v.push_back(make_(4, "R1", "R1")); uint64_t now; sa_symw(&now, 8, "now", 0); if (k == 3) v[1].pubkey.reset(); bool r = t.trust(v, 5); sa_true("as-expected", r == (k == 0)); } std::vector<x509certificate> w; w.push_back(make_(2, "B", "R1")); uint64_t now; sa_symw(&now, 8, "now", 0); t.trust(w, now); w.clear(); t.trust(w, 5); t.get("R1"); t.get("A"); sa_true("store-kept", t.get("R1") && (*t.get("R1"))->subject == "R1" && !t.get("A") && !t.get("B") && !t.get("C") && !t.get("")); }
static bool sameCert(const x509certificate& a, const x509certificate& b) { return a.derCert == b.derCert && a.subject == b.subject && a.issuer == b.issuer && a.validity_start == b.validity_start && a.validity_end == b.validity_end; }
ENTRY prop_parse() { Parts p, q; p.subject = rdn(CN, txt("one")); p.issuer = rdn(CN, txt("root")); q.subject = rdn(CN, txt("second")); q.start = tlv(23, txt("210203040506Z")); B n = pat(64, 3), m = pat(64, 5); n[0] |= 0x80; m[0] |= 0x80; p.spki = rsakey(B{0} + n, B{1, 0, 1}); B c1 = cert(p), c2 = cert(q); x509certificate a = parseCertificate(c1), b = parseCertificate(c2), c = parseCertificate(c1); sa_true("parsed-again", sameCert(a, c) && !sameCert(a, b)); sa_freezedeep(&a); x509certificate d = parseCertificate(c2); d.verify(b); b = parseCertificate(c1); b.subject += "x"; b.derCert[5] ^= 1; sa_unfreezedeep(&a); sa_true("kept", sameCert(a, c));
  B t = armour(c1, "CERTIFICATE", "\n") + armour(c2, "CERTIFICATE", "\n"); auto l = parseCertificatesPem(t); auto l2 = parseCertificatesPem(t); sa_true("list", l.size() == 2 && l2.size() == 2); if (l.size() == 2 && l2.size() == 2) { sa_true("list-again", sameCert(l[0], l2[0]) && sameCert(l[1], l2[1])); l.clear(); sa_true("other-list-kept", l2[1].subject == "CN=second" && l2[0].subject == "CN=one"); } }
ENTRY prop_verify() { B n = pat(64, 3); n[0] |= 0x80; n[63] |= 1; bignum<4096> N, e(17); for (int i = 0; i < 64; i++) N.v[i / 4] |= uint32_t(n[63 - i]) << (8 * (i % 4)); Parts p; p.subject = rdn(CN, txt("one")); p.issuer = rdn(CN, txt("root")); p.spki = rsakey(B{0} + n, B{17}); Parts q = p; q.subject = rdn(CN, txt("root")); x509certificate c = parseCertificate(cert(p)), i = parseCertificate(cert(q)); sa_freezedeep(&i); bool r = c.verify(i); sa_unfreezedeep(&i); sa_freezedeep(&c); bool s = c.verify(i); sa_unfreezedeep(&c); sa_true("verified-again", r == s); }
ENTRY prop_private_key() { B a = pat(64, 3), d = pat(64, 5); a[0] |= 0x80; auto k = parsePrivateKey(priv(B{0} + a, B{1, 0, 1}, B{0} + d)), l = parsePrivateKey(priv(B{0} + a, B{1, 0, 1}, B{0} + a)); sa_true("keys", k && l && k != l); l.reset(); auto m = parsePrivateKey(priv(B{0} + a, B{1, 0, 1}, B{0} + d)); sa_true("other-key-kept", !!k); }
#include "caligo/hash.h"
ENTRY prop_any_hash() { B d = any(30, "data"); for (const char* n : {"sha1", "sha256", "sha384", "sha512", "md5", "sha224", "sha3-256"}) { Caligo::Hash h(n), g(n), u(n); h.add(std::span<const uint8_t>(d)); auto x = h.data(); g.add("other"); u.add(std::span<const uint8_t>(d)); eq("apart", u.data(), x); eq("kept", h.data(), x); } }
