// Hash(name): every published name selects its algorithm and nothing else is accepted; all operations forward to it.
// SA-MIN: 500
#include "hashes.h"
#include "caligo/hash.h"
static uint8_t m[300];
template <class H> static void check(const char* name, const uint8_t* oid, size_t on) {
  sa_ctx(name, 0); sa_sym(m, sizeof m, "m", 0); std::string_view sv(name);
  for (size_t n : {size_t(0), size_t(3), Ref<H>::B - 1, Ref<H>::B, Ref<H>::B + 9}) { sa_ctx(name, n); uint8_t want[Ref<H>::OUT]; Ref<H>::go(m, n, want);
    Hash h(sv); h.add(bytes(m, n / 2)); h.add(std::string_view((const char*)m + n / 2, n - n / 2)); auto d = h.data(); sa_true("digest-size", d.size() == Ref<H>::OUT); if (d.size() == Ref<H>::OUT) sa_same("digest", d.data(), want, Ref<H>::OUT);
    std::vector<uint8_t> v = h; sa_true("vector-size", v.size() == Ref<H>::OUT); if (v.size() == Ref<H>::OUT) sa_same("vector", v.data(), want, Ref<H>::OUT);
    std::string s = h; uint8_t hex[2 * Ref<H>::OUT]; for (size_t i = 0; i < 2 * Ref<H>::OUT; i++) hex[i] = "0123456789abcdef"[i % 2 ? want[i / 2] & 15 : want[i / 2] >> 4]; sa_true("hex-size", s.size() == sizeof hex); if (s.size() == sizeof hex) sa_same("hex", s.data(), hex, sizeof hex);
    Hash c(sv, bytes(m, n)); auto e = c.data(); if (e.size() == Ref<H>::OUT) sa_same("constructor-with-data", e.data(), want, Ref<H>::OUT); else sa_fail("constructor-with-data");
    sa_true("hashsize", h.hashsize() == Ref<H>::OUT); sa_true("forwarded-limits", h.MaxLength() == H::MaxLength()); 
    // DigestInfo prefix: SEQUENCE { SEQUENCE { OID, NULL }, OCTET STRING of the digest length }
    uint8_t p[40]; size_t k = 0; p[k++] = 0x30; p[k++] = 8 + on + Ref<H>::OUT; p[k++] = 0x30; p[k++] = 4 + on; p[k++] = 6; p[k++] = on; for (size_t i = 0; i < on; i++) p[k++] = oid[i]; p[k++] = 5; p[k++] = 0; p[k++] = 4; p[k++] = Ref<H>::OUT;
    auto id = h.getAsn1Id(), id2 = H::getAsn1Id(); sa_true("digestinfo-size", id.size() == k && id2.size() == k); if (id.size() == k && id2.size() == k) { sa_same("digestinfo", id.data(), p, k); sa_same("digestinfo-direct", id2.data(), p, k); } } }
static const uint8_t MD5o[] = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5}, SHA1o[] = {0x2b, 0x0e, 3, 2, 0x1a};
static uint8_t N[] = {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 0};
static const uint8_t* nist(uint8_t k) { N[8] = k; return N; }
ENTRY prop_md5() { check<MD5>("md5", MD5o, 8); }
ENTRY prop_sha1() { check<SHA1>("sha1", SHA1o, 5); check<SHA1>("sha", SHA1o, 5); }
ENTRY prop_sha224() { check<SHA2<224>>("sha224", nist(4), 9); check<SHA2<224>>("sha2-224", nist(4), 9); }
ENTRY prop_sha256() { check<SHA2<256>>("sha256", nist(1), 9); check<SHA2<256>>("sha2-256", nist(1), 9); }
ENTRY prop_sha384() { check<SHA2<384>>("sha384", nist(2), 9); check<SHA2<384>>("sha2-384", nist(2), 9); }
ENTRY prop_sha512() { check<SHA2<512>>("sha512", nist(3), 9); check<SHA2<512>>("sha2-512", nist(3), 9); }
ENTRY prop_sha3_224() { check<SHA3<224>>("sha3-224", nist(7), 9); }
ENTRY prop_sha3_256() { check<SHA3<256>>("sha3-256", nist(8), 9); }
ENTRY prop_sha3_384() { check<SHA3<384>>("sha3-384", nist(9), 9); }
ENTRY prop_sha3_512() { check<SHA3<512>>("sha3-512", nist(10), 9); }
static const char* const NAMES[] = {"md5", "sha", "sha1", "sha224", "sha2-224", "sha256", "sha2-256", "sha384", "sha2-384", "sha512", "sha2-512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"};
// any other byte string is refused: every string of 0..10 bytes whose last byte (or any one byte) differs from a published name, and unknown strings
ENTRY prop_unknown() { for (const char* s : NAMES) { std::string_view v(s); for (size_t i = 0; i < v.size(); i++) { sa_ctx(s, i); char b[16]; memcpy(b, s, v.size()); uint8_t d = sa_any("delta"); sa_assume(d != 0); b[i] ^= d; bool other = false; for (const char* t : NAMES) other |= std::string_view(b, v.size()) == std::string_view(t); sa_assume(!other);
      bool threw = outcome([&] { Hash h(std::string_view(b, v.size())); }); sa_true("near-miss-refused", threw); }
    if (v.size() > 3) { bool pre = false; for (const char* t : NAMES) pre |= v.substr(0, v.size() - 1) == t; if (!pre) { sa_ctx(s, 100); bool t = outcome([&] { Hash h(v.substr(0, v.size() - 1)); }); sa_true("prefix-refused", t); } }
    std::string x = std::string(s) + "x"; sa_ctx(s, 101); bool t = outcome([&] { Hash h(x); }); sa_true("longer-refused", t); }
  for (const char* s : {"", "sha3", "SHA256", "MD5", "sha2", "sha-256", "sha3-255", "crc32", "sha512/256", " sha1"}) { sa_ctx(s, 102); bool t = outcome([&] { Hash h{std::string_view(s)}; }); sa_true("unknown-refused", t); } }
ENTRY prop_symbolic_name() { for (size_t n = 0; n <= 10; n++) { char b[12]; sa_sym(b, 12, "name", 0); sa_ctx("len", n); std::string_view v(b, n); bool listed = false; for (const char* t : NAMES) listed |= v == std::string_view(t); sa_assume(!listed); bool threw = outcome([&] { Hash h(v); }); sa_true("unpublished-name-refused", threw); } }
