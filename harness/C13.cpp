// Reading certificates, keys and PEM: every field has exactly the value the DER bytes give it, and damaged data is refused without leaving its bounds.
// SA-MIN: 100
// SA-STUB: Caligo::MontgomeryState<4096ul>::MontgomeryState(=stub_mont
#include "priv.h"
#include "sa.h"
#include "cert.h"
#include "caligo/X509Certificate.h"
using namespace Caligo;
extern "C" void stub_mont(void*, const void*) {}
static void same(const char* id, const std::string& s, const B& b) { sa_true(id, s.size() == b.size()); if (s.size() == b.size() && b.size()) sa_same(id, s.data(), b.data(), b.size()); }
static void same(const char* id, const B& s, const B& b) { sa_true(id, s.size() == b.size()); if (s.size() == b.size() && b.size()) sa_same(id, s.data(), b.data(), b.size()); }
// ---- dates
// days since 1970 of a civil date (reference: count, not formula)
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const int MD[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static uint64_t yearDays[11000];
static void years() { uint64_t d = 0; for (int y = 1970; y < 10000; y++) { yearDays[y] = d; d += leap(y) ? 366 : 365; } }
static uint64_t monthDays(int y, int m) { uint64_t d = 0; for (int k = 1; k < m; k++) d += MD[k - 1] + (k == 2 && leap(y)); return d; }
static void put2(B& b, int v) { b.push_back(uint8_t('0' + v / 10)); b.push_back(uint8_t('0' + v % 10)); }
static void date(bool utc, int y, int m, int parts) { sa_ctx("month", y * 100 + m); Parts p; B s; if (!utc) put2(s, y / 100); put2(s, y % 100); put2(s, m);
  // the units digit of day, hour, minute and second is abstract: base[t] + 0..7; the tens digits are given
  uint64_t v[4]; const int tens[4][4] = {{0, 0, 3, 5}, {1, 1, 0, 0}, {2, 0, 5, 2}, {1, 1, 2, 4}}, base[4][4] = {{1, 0, 0, 1}, {0, 1, 2, 0}, {1, 2, 1, 2}, {2, 0, 2, 1}}; for (int t = 0; t < 4; t++) { B x = s; for (int k = 0; k < parts; k++) { uint8_t u = sa_any("digit") & 7; x.push_back(uint8_t('0' + tens[t][k])); x.push_back(uint8_t(u + ('0' + base[t][k]))); v[k] = u + uint64_t(tens[t][k] * 10 + base[t][k]); } for (int k = parts; k < 4; k++) v[k] = 0; x.push_back('Z');
    uint64_t want = (yearDays[y] + monthDays(y, m) + v[0] - 1) * 86400 + v[1] * 3600 + v[2] * 60 + v[3];
    if (t & 1) p.start = tlv(utc ? 23 : 24, x); else p.end = tlv(utc ? 23 : 24, x); x509certificate c = parseCertificate(cert(p)); uint64_t got = t & 1 ? c.validity_start : c.validity_end; sa_same("exact-time", &got, &want, 8); } }
ENTRY prop_utctime_a() { years(); for (int y = 1970; y < 2050; y++) for (int m = 1 + y % 2; m <= 12; m += 2) date(true, y, m, 4); }
ENTRY prop_utctime_b() { years(); for (int y = 1970; y < 2050; y++) for (int m = 2 - y % 2; m <= 12; m += 2) date(true, y, m, 4); }
ENTRY prop_generalized() { years(); for (int y : {1970, 1999, 2000, 2001, 2049, 2050, 2099, 2100, 2101, 2199, 2200, 2300, 2400, 2401, 3000, 4000, 9999}) for (int m = 1; m <= 12; m++) date(false, y, m, 4); }
ENTRY prop_short_times() { years(); for (int y : {1970, 1996, 2038, 2049}) for (int m : {1, 2, 3, 12}) { date(true, y, m, 2); date(true, y, m, 3); date(false, y, m, 2); date(false, y, m, 3); } }
// the last day of every month
ENTRY prop_month_ends() { years(); for (int y : {1970, 1972, 1999, 2000, 2024, 2025, 2100, 2104}) for (int m = 1; m <= 12; m++) { sa_ctx("month", y * 100 + m); int d = MD[m - 1] + (m == 2 && leap(y)); Parts p; B s; put2(s, y / 100); put2(s, y % 100); put2(s, m); put2(s, d); p.end = tlv(24, s + txt("235959Z")); p.start = tlv(24, s + txt("000000Z")); x509certificate c = parseCertificate(cert(p)); uint64_t w = (yearDays[y] + monthDays(y, m) + d - 1) * 86400; sa_true("start-of-last-day", c.validity_start == w); sa_true("end-of-last-day", c.validity_end == w + 86399); } }
// an end of validity that cannot be read is never later than any time
static void badEnd(const B& e, long code) { sa_ctx("bad", code); Parts p; p.end = e; x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); sa_true("unreadable-end-is-no-validity", r == 1 || c.validity_end == 0 || c.derCert.empty()); }
ENTRY prop_bad_dates() { badEnd(tlv(23, txt("")), 0); badEnd(tlv(23, txt("Z")), 1); badEnd(tlv(23, txt("3001010000000")), 2); badEnd(tlv(23, txt("30a101000000Z")), 3); badEnd(tlv(23, txt("301301000000Z")), 4); badEnd(tlv(23, txt("300001000000Z")), 5); badEnd(tlv(23, txt("300100000000Z")), 6); badEnd(tlv(23, txt("300132000000Z")), 7); badEnd(tlv(23, txt("300101240000Z")), 8); badEnd(tlv(23, txt("300101006000Z")), 9); badEnd(tlv(22, txt("300101000000Z")), 10); badEnd(tlv(24, txt("19691231235959Z")), 11); badEnd(tlv(23, txt("500101000000Z")), 12); badEnd(tlv(23, txt("690101000000Z")), 14); badEnd(tlv(24, txt("00010101000000Z")), 15); badEnd(tlv(4, txt("300101000000Z")), 16); badEnd({}, 17); for (int n = 0; n < 10; n++) badEnd(tlv(24, B(n, '3') + txt("Z")), 100 + n);
  for (int k = 0; k < 12; k++) { B d = txt("300101000000Z"); uint8_t u; sa_symw(&u, 1, "char", 0); sa_assume(u < '0' || u > '9'); d[k] = u; sa_ctx("not-a-digit", k); Parts p; p.end = tlv(23, d); x509certificate c = parseCertificate(cert(p)); sa_true("unreadable-end-is-no-validity", c.validity_end == 0); } }
// ---- names
struct At { B oid; std::string x509name::*f; };
static const At AT[13] = {{{0x55, 4, 3}, &x509name::common_name}, {{0x55, 4, 4}, &x509name::surname}, {{0x55, 4, 5}, &x509name::serialnumber}, {{0x55, 4, 6}, &x509name::country}, {{0x55, 4, 7}, &x509name::locality}, {{0x55, 4, 8}, &x509name::state}, {{0x55, 4, 9}, &x509name::streetaddress}, {{0x55, 4, 10}, &x509name::organization}, {{0x55, 4, 0x61}, &x509name::organizationIdentifier}, {{0x55, 4, 11}, &x509name::organizationalunit}, {{0x55, 4, 12}, &x509name::title}, {{0x55, 4, 42}, &x509name::givenname}, {{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1}, &x509name::emailaddress}};
static void names(const B& der, const x509name& want, const B& cn, bool asIssuer) { Parts p; (asIssuer ? p.issuer : p.subject) = der; x509certificate c = parseCertificate(cert(p)); std::string w = to_string(want); same("name-text", asIssuer ? c.issuer : c.subject, B(w.begin(), w.end())); sa_true("other-name-empty", (asIssuer ? c.subject : c.issuer).empty()); if (!asIssuer) { sa_true("one-name", c.fqdns.size() == 1); if (c.fqdns.size() == 1) same("common-name-is-the-host", *c.fqdns.begin(), cn); } }
ENTRY prop_names_single() { for (int a = 0; a < 13; a++) for (int type : {19, 12}) for (size_t n : {0u, 1u, 7u, 15u, 16u, 40u}) for (bool i : {false, true}) { sa_ctx("attribute", a * 1000 + long(n)); B v = any(n, "value"); x509name w; w.*(AT[a].f) = std::string(v.begin(), v.end()); names(rdn(AT[a].oid, v, type), w, a == 0 ? v : B{}, i); } }
ENTRY prop_names_multi() { for (int r = 0; r < 13; r++) { sa_ctx("rotation", r); x509name w; B der, cn; for (int k = 0; k < 13; k++) { int a = (k * 5 + r) % 13; B v = any(1 + a, "value"); w.*(AT[a].f) = std::string(v.begin(), v.end()); if (!a) cn = v; der = der + rdn(AT[a].oid, v, k & 1 ? 12 : 19); } names(der, w, cn, false); names(der, w, cn, true); } }
ENTRY prop_names_differ() { // names that differ in one attribute never read as the same name
  for (int a = 0; a < 13; a++) for (int b = 0; b < a; b++) { sa_ctx("pair", a * 100 + b); Parts p; p.subject = rdn(AT[a].oid, txt("x")); p.issuer = rdn(AT[b].oid, txt("x")); x509certificate c = parseCertificate(cert(p)); sa_true("attributes-told-apart", c.subject != c.issuer && !c.subject.empty() && !c.issuer.empty()); } }
ENTRY prop_applies() { Parts p; B v = any(6, "host"); p.subject = rdn(CN, v); x509certificate c = parseCertificate(cert(p)); std::string q(6, 'x'); sa_sym(&q[0], 6, "query", 0); bool r = c.appliesTo(q), e = !memcmp(q.data(), v.data(), 6); sa_same("applies-to-its-name-only", &r, &e, 1); sa_true("no-prefix", !c.appliesTo(std::string(q, 0, 5)) && !c.appliesTo("") && !c.appliesTo(q + "x")); }
// ---- serial number, version, key, whole certificate
template <size_t N> static B bytesOf(const bignum<N>& b, size_t n) { B o = b.as_bytes(); o.resize(n); return o; }
static B rev(B b) { std::reverse(b.begin(), b.end()); return b; }
ENTRY prop_serial() { for (size_t n : {0u, 1u, 2u, 3u, 4u, 5u, 8u, 9u, 15u, 16u}) for (bool zero : {false, true}) { sa_ctx("serial", long(n)); Parts p; B v = any(n, "serial"); if (!zero && n) sa_assume(v[0] != 0); p.serial = zero ? B{0} + v : v; x509certificate c = parseCertificate(cert(p)); B want = rev(v); want.resize(16); same("serial-number", bytesOf(c.serialNumber, 16), want); same("der-kept", c.derCert, cert(p)); } }
ENTRY prop_long_serial() { for (size_t n : {17u, 20u, 21u}) { sa_ctx("serial", long(n)); Parts p; p.serial = pat(n, 3); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); B want = rev(p.serial); want.resize(16); sa_true("long-serial-readable", r == 0 && c.derCert == cert(p)); same("serial-number-low-octets", bytesOf(c.serialNumber, 16), want); } }
ENTRY prop_version() { for (int v = 0; v < 256; v++) { sa_ctx("version", v); Parts p; p.version = tlv(0xa0, tlv(2, B{uint8_t(v)})); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); if (v == 2) sa_true("v3-read", r == 0 && c.derCert == cert(p)); else sa_true("other-versions-refused", r == 1 || (c.derCert.empty() && !c.pubkey)); } }
template <class K> static void keyIs(K& k, const B& n, const B& e) { B wn = rev(n), we = rev(e); wn.resize(512); we.resize(512); if constexpr (requires { k.pubkey.n; k.pubkey.e; }) { B a = bytesOf(k.pubkey.n, 512), b = bytesOf(k.pubkey.e, 512); same("modulus", a, wn); same("exponent", b, we); } }
static void rsa(size_t nn, size_t ne, bool zero) { sa_ctx("key", long(nn * 1000 + ne)); Parts p; B n = any(nn, "n"), e = any(ne, "e"); if (nn) { sa_assume(n[0] != 0); } if (ne) { sa_assume(e[0] != 0); if (ne == 1) sa_assume(e[0] >= 17); } p.spki = rsakey(zero ? B{0} + n : n, e); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); sa_true("key-read", r == 0 && c.pubkey != nullptr); if (r == 0 && c.pubkey) keyIs(static_cast<RsaPubkey&>(*c.pubkey), n, e); }
ENTRY prop_rsa_key() { for (size_t n : {1u, 4u, 63u, 64u, 127u, 128u, 255u, 256u, 384u, 511u, 512u}) for (bool z : {false, true}) rsa(n, n % 2 ? 3 : 1, z); for (size_t e : {1u, 2u, 3u, 4u, 5u, 8u, 64u, 512u}) rsa(512, e, true); }
ENTRY prop_rsa_refused() { for (size_t n : {513u, 514u, 1024u}) for (bool z : {false, true}) for (int w : {0, 1}) { sa_ctx("too-long", long(n)); Parts p; B big = pat(n, 3), k = pat(64, 3); p.spki = w ? rsakey(k, z ? B{0} + big : big) : rsakey(z ? B{0} + big : big, B{1, 0, 1}); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); sa_true("too-large-refused", r == 1 || !c.pubkey); } for (int e = 0; e < 17; e++) { sa_ctx("exponent", e); Parts p; p.spki = rsakey(pat(64, 3), B{uint8_t(e)}); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); sa_true("tiny-exponent-refused", r == 1 || !c.pubkey); } }
ENTRY prop_other_keys() { for (B o : {B{0x2b, 0x65, 0x6e}, B{0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1}, B{0x2b, 0x65, 0x70}, B{}, B{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1}, B{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 10}, B{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 1}}) { Parts p; p.spki = tlv(0x30, tlv(0x30, tlv(6, o) + tlv(5, {})) + tlv(3, B{0} + tlv(0x30, tlv(2, pat(64, 3)) + tlv(2, B{1, 0, 1})))); x509certificate c; int r = outcome([&] { c = parseCertificate(cert(p)); }); sa_true("no-key-of-other-algorithms", r == 1 || !c.pubkey); }
  Parts p; uint8_t a[9]; sa_sym(a, 9, "oid", 0); bool same = !memcmp(a, OID_RSA.data(), 9); sa_assume(!same); p.spki = tlv(0x30, tlv(0x30, tlv(6, B(a, a + 9)) + tlv(5, {})) + tlv(3, B{0} + tlv(0x30, tlv(2, pat(64, 3)) + tlv(2, B{1, 0, 1})))); x509certificate c = parseCertificate(cert(p)); sa_true("no-key-of-any-other-algorithm", !c.pubkey); }
ENTRY prop_trailer() { for (int t : {0xa1, 0xa2, 0xa3}) { Parts p; p.rest = tlv(t, pat(9, 5)); x509certificate c = parseCertificate(cert(p)); sa_true("known-trailers-read", c.derCert == cert(p)); } Parts p; p.rest = tlv(0xa1, {}) + tlv(0xa2, pat(3, 3)) + tlv(0xa3, pat(300, 3)); x509certificate c = parseCertificate(cert(p)); sa_true("known-trailers-read", c.derCert == cert(p)); }
// ---- damage
static Parts sample() { Parts p; p.subject = rdn(CN, txt("host")) + rdn(AT[3].oid, txt("NL"), 12); p.issuer = rdn(CN, txt("ca")); p.spki = rsakey(B{0} + pat(64, 3), B{1, 0, 1}); p.rest = tlv(0xa3, pat(9, 5)); return p; }
ENTRY prop_cut() { B o = cert(sample()); { x509certificate c = parseCertificate(o); sa_true("sample-reads", c.derCert == o && c.subject == "C=NL CN=host" && c.issuer == "CN=ca" && c.pubkey); } for (size_t n = 0; n < o.size(); n++) { sa_ctx("cut", long(n)); B d(o.begin(), o.begin() + n); x509certificate c; int r = outcome([&] { c = parseCertificate(d); }); sa_true("truncated-refused", r == 1 || (c.derCert.empty() && !c.pubkey && c.validity_end == 0)); } }
static void flip(int part) { B o = cert(sample()); for (size_t k = 0; k < o.size(); k++) for (int v = part; v < 256; v += 32) { if (k % 4 != size_t(part) % 4) continue; sa_ctx("damage", long(k * 256 + v)); B d = o; d[k] = uint8_t(v); int r = outcome([&] { x509certificate c = parseCertificate(d); }); sa_true("damaged-returns-or-throws", r == 0 || r == 1); } }
#define FL(i) ENTRY prop_damage_##i() { flip(i); }
FL(0) FL(1) FL(2) FL(3)
static void lens(int part) { B o = cert(sample()); for (size_t k = part; k + 1 < o.size(); k += 4) for (int l : {0x80, 0x81, 0x84, 0x88, 0x89, 0xff}) for (int v : {0, 0x7f, 0xff}) { sa_ctx("lengths", long(k * 256 + l)); B d = o; d[k] = uint8_t(l); for (size_t j = k + 1; j < o.size() && j < k + 9; j++) d[j] = uint8_t(v); int r = outcome([&] { x509certificate c = parseCertificate(d); }); sa_true("damaged-returns-or-throws", r == 0 || r == 1); } }
ENTRY prop_lengths_0() { lens(0); }
ENTRY prop_lengths_1() { lens(1); }
ENTRY prop_lengths_2() { lens(2); }
ENTRY prop_lengths_3() { lens(3); }
// ---- PEM
static Parts small(int k, bool abstract) { Parts p; p.subject = rdn(CN, txt("host") + B{uint8_t('0' + k)}); p.issuer = rdn(CN, txt("ca")); p.serial = abstract ? B{0} + any(8, "serial") : B{uint8_t(k + 1)}; p.rest = tlv(0xa3, pat(k, 5)); return p; }
static void is(const char* id, const x509certificate& c, const Parts& p, int k) { same(id, c.derCert, cert(p)); sa_true(id, c.subject == std::string("CN=host") + char('0' + k) && c.issuer == "CN=ca"); B w = rev(p.serial); w.resize(16); same(id, bytesOf(c.serialNumber, 16), w); }
ENTRY prop_pem_one() { for (int k = 0; k < 6; k++) for (const char* eol : {"\n", "\r\n"}) { sa_ctx("pem", k); Parts p = small(k, true); B t = armour(cert(p), "CERTIFICATE", eol); is("pem-reads-as-der", parseCertificate(t, DataFormat::Pem), p, k); is("text-around-ignored", parseCertificate(txt("subject: CN=x\nissuer: -----\n") + t + txt("\ntail AAAA\n"), DataFormat::Pem), p, k); } }
ENTRY prop_pem_list() { for (int n = 0; n <= 4; n++) { sa_ctx("list", n); B t = txt("# certificates\n"); std::vector<Parts> ps; for (int k = 0; k < n; k++) { ps.push_back(small((k * 3 + 1) % 8, false)); t = t + txt("# one\n") + armour(cert(ps[k]), "CERTIFICATE", "\n"); } std::vector<x509certificate> v = parseCertificatesPem(t); sa_true("all-of-them", v.size() == size_t(n)); for (int k = 0; k < n && k < int(v.size()); k++) is("each-in-order", v[k], ps[k], (k * 3 + 1) % 8); } }
static void refused(const B& t, long code) { sa_ctx("pem", code); x509certificate c; int r = outcome([&] { c = parseCertificate(t, DataFormat::Pem); }); sa_true("pem-without-markers-refused", r == 1 || (c.derCert.empty() && !c.pubkey)); int q = outcome([&] { auto v = parseCertificatesPem(t); }); sa_true("list-survives", q == 0 || q == 1); }
ENTRY prop_pem_damage() { Parts p = small(2, false); B t = armour(cert(p), "CERTIFICATE", "\n"); size_t head = strlen("-----BEGIN CERTIFICATE-----\n"), tail = strlen("-----END CERTIFICATE-----\n"); refused({}, 0); refused(B(t.begin() + head, t.end()), 1); refused(B(t.begin(), t.end() - tail), 2); refused(B(t.begin() + head, t.end() - tail), 3); refused(B(t.end() - tail, t.end()) + B(t.begin(), t.end() - tail), 4); refused(armour(cert(p), "RSA PRIVATE KEY", "\n"), 5); refused(armour({}, "CERTIFICATE", "\n"), 6); refused(txt("-----BEGIN CERTIFICATE----------END CERTIFICATE-----"), 7); refused(txt("-----BEGIN CERTIFICATE-----END CERTIFICATE-----"), 8); for (size_t n = 0; n + 2 < t.size(); n += 3) refused(B(t.begin(), t.begin() + n), 1000 + long(n)); }
// ---- private keys
template <class K> static void privIs(K& k, const B& n, const B& d) { B wn = rev(n), wd = rev(d); wn.resize(512); wd.resize(512); if constexpr (requires { k.privkey.n; k.privkey.d; }) { B a = bytesOf(k.privkey.n, 512), b = bytesOf(k.privkey.d, 512); same("private-modulus", a, wn); same("private-exponent", b, wd); } }
static B oddn(size_t n, const char* name) { B b = any(n, name); b[0] |= 0x80; return b; }
ENTRY prop_private() { for (size_t n : {64u, 128u, 256u, 511u, 512u}) for (size_t d : {n, n - 1, size_t(3)}) { sa_ctx("private", long(n * 1000 + d)); B a = oddn(n, "n"), x = any(d, "d"); sa_assume(x[0] != 0); B der = priv(B{0} + a, B{1, 0, 1}, x[0] & 0x80 ? B{0} + x : x); std::unique_ptr<PrivateKey> k; int r = outcome([&] { k = parsePrivateKey(der); }); sa_true("private-key-read", r == 0 && k); if (k) privIs(static_cast<RsaPrivateKey&>(*k), a, x); } }
ENTRY prop_private_pem() { B a = pat(64, 3), d = pat(64, 5); a[0] |= 0x80; for (const char* eol : {"\n", "\r\n"}) { B t = armour(priv(B{0} + a, B{1, 0, 1}, B{0} + d), "RSA PRIVATE KEY", eol); auto k = parsePrivateKey(txt("Bag Attributes\n") + t, DataFormat::Pem); sa_true("private-pem-read", bool(k)); if (k) privIs(static_cast<RsaPrivateKey&>(*k), a, d); } B t = armour(priv(B{0} + a, B{1, 0, 1}, B{0} + d), "CERTIFICATE", "\n"); std::unique_ptr<PrivateKey> k; int r = outcome([&] { k = parsePrivateKey(t, DataFormat::Pem); }); sa_true("other-pem-refused", r == 1 || !k); }
ENTRY prop_private_cut() { B a = pat(64, 3), d = pat(64, 5); a[0] |= 0x80; B o = priv(B{0} + a, B{1, 0, 1}, B{0} + d); for (size_t n = 0; n < o.size(); n++) { sa_ctx("cut", long(n)); B c(o.begin(), o.begin() + n); std::unique_ptr<PrivateKey> k; int r = outcome([&] { k = parsePrivateKey(c); }); sa_true("truncated-private-key-refused", r == 1 || !k); } }
// ---- long and many
ENTRY prop_names_long() { for (int a : {0, 7, 12}) for (size_t n : {100u, 115u, 117u, 119u, 121u, 123u, 126u, 127u, 128u, 129u, 200u, 240u, 244u, 246u, 250u, 255u, 256u, 257u, 300u, 5000u}) for (bool i : {false, true}) { sa_ctx("attribute", a * 10000 + long(n)); B v = any(n, "value"); x509name w; w.*(AT[a].f) = std::string(v.begin(), v.end()); names(rdn(AT[a].oid, v, n & 1 ? 12 : 19), w, a == 0 ? v : B{}, i); }
  for (size_t n : {15u, 16u, 17u, 40u, 128u, 300u}) { sa_ctx("applies", long(n)); Parts p; B v = any(n, "host"); p.subject = rdn(CN, v); x509certificate c = parseCertificate(cert(p)); std::string q(v.begin(), v.end()); bool r = c.appliesTo(q), t = true; sa_same("applies-to-its-name", &r, &t, 1); q[n - 1] ^= 1; bool u = c.appliesTo(q), f = false; sa_same("applies-to-its-name-only", &u, &f, 1); sa_true("no-prefix", !c.appliesTo(std::string(q, 0, n - 1)) && !c.appliesTo(q + "x")); } }
ENTRY prop_large() { for (size_t n : {0u, 1u, 100u, 127u, 128u, 255u, 256u, 1000u, 4096u, 65000u, 65535u, 65536u, 70000u}) { sa_ctx("extensions", long(n)); Parts p = sample(); p.serial = B{0} + any(7, "serial"); p.rest = tlv(0xa3, pat(n, 7)); B o = cert(p); x509certificate c = parseCertificate(o); same("der-kept", c.derCert, o); sa_true("fields-read", c.subject == "C=NL CN=host" && c.issuer == "CN=ca" && c.pubkey); B w = rev(p.serial); w.resize(16); same("serial-number", bytesOf(c.serialNumber, 16), w); if (n == 1000 || n == 4096) for (const char* eol : {"\n", "\r\n"}) { x509certificate d = parseCertificate(armour(o, "CERTIFICATE", eol), DataFormat::Pem); same("pem-reads-as-der", d.derCert, o); } } }
ENTRY prop_pem_many() { for (int n : {5, 9, 20}) for (const char* eol : {n == 9 ? "\r\n" : "\n"}) { sa_ctx("list", n); B t; for (int k = 0; k < n; k++) { Parts p = small(k % 8, false); p.serial = B{1, uint8_t(k), 7}; t = t + armour(cert(p), "CERTIFICATE", eol); } std::vector<x509certificate> v = parseCertificatesPem(t); sa_true("all-of-them", v.size() == size_t(n)); for (int k = 0; k < n && k < int(v.size()); k++) { Parts p = small(k % 8, false); p.serial = B{1, uint8_t(k), 7}; is("each-in-order", v[k], p, k % 8); } } }
