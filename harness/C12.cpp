// Certificate verification: a certificate verifies against an issuer exactly when its validity lies within the issuer's and the issuer's key accepts
// the signature over exactly the signed part, under the algorithm the certificate names. The key is a recording one with an abstract verdict (C09 decides RSA).
// SA-MIN: 100
#include "priv.h"
#include "sa.h"
#include "caligo/X509Certificate.h"
using namespace Caligo;
typedef std::vector<uint8_t> B;
static const uint8_t RSA_PREFIX[8] = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01};
static int calls; static int gtype; static B gdata, gsig; static bool verdict;
static bool known(int t) { return t == 0x0401 || t == 0x0501 || t == 0x0601 || (t >= 0x0804 && t <= 0x0806) || (t >= 0x0809 && t <= 0x080b); }
struct Rec : PublicKey { bool validateSignature(Tls13SignatureScheme t, std::span<const uint8_t> d, std::span<const uint8_t> s) const override { calls++; gtype = int(t); gdata.assign(d.begin(), d.end()); gsig.assign(s.begin(), s.end()); return known(int(t)) ? verdict : false; } };
static void head(B& o, int tag, size_t n, int form) { o.push_back(uint8_t(tag)); if (form == 0) o.push_back(uint8_t(n)); else { o.push_back(uint8_t(0x80 | form)); for (int i = form - 1; i >= 0; i--) o.push_back(i < 8 ? uint8_t(n >> 8 * i) : 0); } }
static size_t headlen(int form) { return form == 0 ? 2 : 2 + form; }
struct Lay { size_t tbs, ntbs, algtag, oid, noid, unused, sig, nsig, sigtag, tbstag; };
// one certificate: outer { signed part } { OID, NULL } bit string
static B build(size_t ntbs, size_t noid, bool null, size_t nsig, int fo, int ft, int fs, Lay& l) { size_t nalg = 2 + noid + (null ? 2 : 0), nbits = 1 + nsig; B o; head(o, 0x30, headlen(ft) + ntbs + 2 + nalg + headlen(fs) + nbits, fo); l.tbstag = o.size(); head(o, 0x30, ntbs, ft); l.tbs = o.size(); l.ntbs = ntbs; o.resize(o.size() + ntbs); l.algtag = o.size(); head(o, 0x30, nalg, 0); head(o, 6, noid, 0); l.oid = o.size(); l.noid = noid; o.resize(o.size() + noid); if (null) { o.push_back(5); o.push_back(0); } l.sigtag = o.size(); head(o, 3, nbits, fs); l.unused = o.size(); o.push_back(0); l.sig = o.size(); l.nsig = nsig; o.resize(o.size() + nsig); return o; }
static void fill(B& o, const Lay& l) { if (l.ntbs) sa_sym(&o[l.tbs], l.ntbs, "signed", 0); if (l.nsig) sa_sym(&o[l.sig], l.nsig, "signature", 0); }
static void rsaoid(B& o, const Lay& l, uint8_t last) { if (l.noid == 9) { memcpy(&o[l.oid], RSA_PREFIX, 8); o[l.oid + 8] = last; } }
static void key(x509certificate& i) { i.pubkey = std::make_unique<Rec>(); i.validity_start = 0; i.validity_end = ~0ull; }
static void begin() { calls = 0; gtype = -1; gdata.clear(); gsig.clear(); sa_symw(&verdict, 1, "verdict", 0); uint8_t v; memcpy(&v, &verdict, 1); v &= 1; memcpy(&verdict, &v, 1); }
static int wantType(uint8_t last) { return last == 11 ? 0x0401 : last == 12 ? 0x0501 : last == 13 ? 0x0601 : -1; }
static void whole(size_t ntbs, size_t nsig, int fo, int ft, int fs, uint8_t last, bool null) { sa_ctx("case", long(ntbs * 1000000 + nsig * 1000 + fo * 100 + ft * 10 + fs)); Lay l; x509certificate c, i; c.derCert = build(ntbs, 9, null, nsig, fo, ft, fs, l); fill(c.derCert, l); rsaoid(c.derCert, l, last); c.validity_start = 10; c.validity_end = 20; key(i); begin(); B keep = c.derCert; bool r = c.verify(i); int w = wantType(last);
  if (w > 0) { sa_same("verdict", &r, &verdict, 1); sa_true("key-asked-once", calls == 1); sa_true("scheme", gtype == w); sa_true("signed-part-length", gdata.size() == ntbs); sa_true("signature-length", gsig.size() == nsig); if (gdata.size() == ntbs && ntbs) sa_same("signed-part", gdata.data(), &keep[l.tbs], ntbs); if (gsig.size() == nsig && nsig) sa_same("signature", gsig.data(), &keep[l.sig], nsig); } else sa_true("other-algorithms-fail", !r);
  sa_same("certificate-unchanged", c.derCert.data(), keep.data(), keep.size()); }
ENTRY prop_shapes() { for (size_t t : {0u, 1u, 5u, 127u, 128u, 255u, 256u, 300u}) for (size_t s : {1u, 64u, 127u, 128u, 256u}) { int ft = t < 128 ? 0 : t < 256 ? 1 : 2, fs = s + 1 < 128 ? 0 : s + 1 < 256 ? 1 : 2; for (uint8_t a : {11, 12, 13}) whole(t, s, 2, ft, fs, a, true); } }
ENTRY prop_long_forms() { for (int fo : {2, 3, 4, 8}) for (int ft : {0, 1, 2, 3, 8}) for (int fs : {0, 1, 4, 8}) whole(40, 32, fo, ft, fs, 11, true); whole(40, 32, 1, 0, 0, 12, false); whole(10, 16, 0, 0, 0, 13, false); whole(10, 0, 0, 0, 0, 13, false); }
#ifdef THOROUGH
ENTRY prop_big() { whole(65535, 512, 3, 2, 2, 11, true); whole(65536, 512, 3, 3, 2, 13, true); whole(2000, 512, 2, 2, 2, 12, true); }
#endif
// every byte of the algorithm identifier unknown: only the three known ones are asked for, each by its own scheme
ENTRY prop_any_oid() { for (size_t n : {9u, 8u, 10u, 3u, 0u}) { sa_ctx("oid", long(n)); Lay l; x509certificate c, i; c.derCert = build(6, n, true, 8, 1, 0, 0, l); fill(c.derCert, l); if (n) sa_sym(&c.derCert[l.oid], n, "oid", 0); c.validity_start = 10; c.validity_end = 20; key(i); begin(); bool r = c.verify(i); bool e = false; int w = -1; if (n == 9) { uint8_t d = 0; for (int k = 0; k < 8; k++) d |= c.derCert[l.oid + k] ^ RSA_PREFIX[k]; uint8_t a = c.derCert[l.oid + 8]; bool k = (d == 0) & (a >= 11) & (a <= 13); e = k & verdict; w = 0x401 + 0x100 * (a - 11); bool ok = !k | (gtype == w); sa_true("scheme-of-the-algorithm", ok); } sa_same("only-known-algorithms", &r, &e, 1); } }
static void last(int a) { sa_ctx("algorithm", a); whole(6, 8, 1, 0, 0, uint8_t(a), true); }
ENTRY prop_each_oid() { for (int a = 0; a < 128; a++) last(a); }
// the four tags and the unused-bits octet unknown
ENTRY prop_tags() { Lay l; x509certificate c, i; c.derCert = build(6, 9, true, 8, 1, 0, 0, l); fill(c.derCert, l); rsaoid(c.derCert, l, 11); size_t pos[5] = {0, l.tbstag, l.algtag, l.sigtag, l.unused}; const uint8_t want[5] = {0x30, 0x30, 0x30, 3, 0}; for (int k = 0; k < 5; k++) sa_sym(&c.derCert[pos[k]], 1, "tag", 0); c.validity_start = 10; c.validity_end = 20; key(i); begin(); bool r = c.verify(i); bool e = verdict; for (int k = 0; k < 5; k++) e &= c.derCert[pos[k]] == want[k]; sa_same("wrong-structure-fails", &r, &e, 1); }
// validity: any four times
ENTRY prop_validity() { Lay l; x509certificate c, i; c.derCert = build(6, 9, true, 8, 1, 0, 0, l); fill(c.derCert, l); rsaoid(c.derCert, l, 12); key(i); uint64_t t[4]; for (auto& x : t) sa_symw(&x, 8, "time", 0); c.validity_start = t[0]; c.validity_end = t[1]; i.validity_start = t[2]; i.validity_end = t[3]; begin(); bool r = c.verify(i); bool e = verdict & (t[0] >= t[2]) & (t[1] <= t[3]); sa_same("validity-within-issuer", &r, &e, 1); uint64_t u[4] = {c.validity_start, c.validity_end, i.validity_start, i.validity_end}; sa_same("times-unchanged", u, t, 32); }
ENTRY prop_no_key() { Lay l; x509certificate c, i; c.derCert = build(6, 9, true, 8, 1, 0, 0, l); fill(c.derCert, l); rsaoid(c.derCert, l, 11); c.validity_start = 10; c.validity_end = 20; i.validity_start = 0; i.validity_end = 30; begin(); sa_true("no-key-no-trust", !c.verify(i)); c.pubkey = std::make_unique<Rec>(); sa_true("own-key-is-not-the-issuers", !c.verify(i)); key(i); bool r = c.verify(i); sa_same("issuers-key", &r, &verdict, 1); }
ENTRY prop_self_signed() { Lay l; x509certificate c; c.derCert = build(6, 9, true, 8, 1, 0, 0, l); fill(c.derCert, l); rsaoid(c.derCert, l, 11); c.pubkey = std::make_unique<Rec>(); c.validity_start = 10; c.validity_end = 20; begin(); bool r = c.verify(c); sa_same("self-signed", &r, &verdict, 1); }
// damaged: cut anywhere, or any header octet replaced. Fails, or follows a definition of how such data reads; never leaves its bounds.
struct Rd { const B& d; size_t o, e; bool read(int& id, size_t& s, size_t& n) { if (e - o < 2) return bad(); id = d[o++]; n = d[o++]; if (n & 0x80) { size_t b = n & 0x7f; if (b > e - o) return bad(); n = 0; while (b--) { if (n >> 56) return bad(); n = n << 8 | d[o++]; } } if (n > e - o) return bad(); s = o; o += n; return true; } bool bad() { o = e; return false; } };
static bool expect(const B& d) { Rd a{d, 0, d.size()}; int id; size_t s, n; if (!a.read(id, s, n) || id != 0x30) return false; Rd b{d, s, s + n}; size_t ts, tn, as, an, ss, sn; int ai, si; if (!b.read(id, ts, tn) || id != 0x30 || !b.read(ai, as, an) || !b.read(si, ss, sn) || ai != 0x30 || si != 3) return false; if (!sn || d[ss]) return false; Rd c{d, as, as + an}; size_t os, on; int oi; if (!c.read(oi, os, on) || on != 9 || memcmp(&d[os], RSA_PREFIX, 8) || d[os + 8] < 11 || d[os + 8] > 13) return false; return gtype == wantType(d[os + 8]) && gdata.size() == tn && (!tn || !memcmp(gdata.data(), &d[ts], tn)) && gsig.size() == sn - 1 && (sn == 1 || !memcmp(gsig.data(), &d[ss + 1], sn - 1)); }
static void damaged(const B& d, long code) { sa_ctx("damage", code); x509certificate c, i; c.derCert = d; c.validity_start = 10; c.validity_end = 20; key(i); begin(); verdict = true; bool r = c.verify(i); sa_true("damaged-fails-or-reads-as-defined", !r || expect(d)); }
static B sample(Lay& l, int form) { B o = build(20, 9, true, 17, form, form, form, l); for (size_t k = 0; k < l.ntbs; k++) o[l.tbs + k] = uint8_t(7 * k + 0x30); for (size_t k = 0; k < l.nsig; k++) o[l.sig + k] = uint8_t(11 * k + 3); rsaoid(o, l, 11); return o; }
ENTRY prop_cut() { for (int f : {0, 1, 2, 8}) { Lay l; B o = sample(l, f); for (size_t n = 0; n < o.size(); n++) { sa_ctx("cut", long(n)); x509certificate c, i; c.derCert.assign(o.begin(), o.begin() + n); c.validity_start = 10; c.validity_end = 20; key(i); begin(); verdict = true; sa_true("truncated-fails", !c.verify(i)); } } }
static void headers(int f, int half) { Lay l; B o = sample(l, f); std::vector<size_t> pos; for (size_t k = 0; k < l.tbs; k++) pos.push_back(k); for (size_t k = l.algtag; k < l.oid; k++) pos.push_back(k); for (size_t k = l.oid + 9; k < l.sig; k++) pos.push_back(k); for (size_t p : pos) for (int v = half; v < 256; v += 4) { B d = o; d[p] = uint8_t(v); damaged(d, long(p * 256 + v)); } }
ENTRY prop_header_0() { headers(0, 0); headers(1, 0); headers(2, 0); }
ENTRY prop_header_1() { headers(0, 1); headers(1, 1); headers(2, 1); }
ENTRY prop_header_2() { headers(0, 2); headers(1, 2); headers(2, 2); }
ENTRY prop_header_3() { headers(0, 3); headers(1, 3); headers(2, 3); }
// a length of up to eight octets, any value
ENTRY prop_huge_lengths() { for (int f : {3, 4, 7, 8, 9, 12}) { Lay l; B o = sample(l, f); for (size_t at : {size_t(2), l.tbstag + 2, l.sigtag + 2}) for (uint64_t n : {0ull, 1ull, 19ull, 20ull, 21ull, 0x7full, 0x100ull, 0xffffffull, 0x100000000ull - 1, 0x100000000ull, 0x100000014ull, ~0ull, ~0ull - 8, 1ull << 63}) { B d = o; for (int k = 0; k < f; k++) d[at + k] = f - 1 - k < 8 ? uint8_t(n >> 8 * (f - 1 - k)) : 0; damaged(d, long(n)); if (f > 8) { d[at] = 1; damaged(d, long(n) + 1); } } } }
