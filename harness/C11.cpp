// Trust decisions: the first certificate is trusted exactly when it is valid now and a chain of verified links leads from it to the store; the store
// itself is never changed by a decision. Signature checking is abstracted to "who signed this" (C12 decides x509certificate::verify itself).
// SA-MIN: 500
// SA-STUB[!load]: Caligo::Truststore::Truststore()=stub_store
// SA-STUB: Caligo::x509certificate::verify(=stub_verify
// the "load" entries read the system's file through these stand-ins for the file API
// SA-STUB[load]: std::basic_ifstream<char, std::char_traits<char>>::basic_ifstream(char const*=stub_open
// SA-STUB[load]: std::basic_ifstream<char, std::char_traits<char>>::~basic_ifstream(=stub_nothing
// SA-STUB[load]: std::ios_base::~ios_base(=stub_nothing
// SA-STUB[load]: std::istream::read(=stub_read
// SA-STUB[load]: std::filesystem::file_size(=stub_size
// SA-STUB[load]: std::filesystem::__cxx11::path::_M_split_cmpts(=stub_nothing
// SA-STUB[load]: std::filesystem::__cxx11::path::_List::_List(=stub_zero
// SA-STUB[load]: std::filesystem::__cxx11::path::_List::_Impl_deleter::operator()(=stub_nothing
#include "priv.h"
#include "sa.h"
#include <fstream>
#include "cert.h"
#include "caligo/Truststore.h"
using namespace Caligo;
typedef std::vector<x509certificate> certs_t;
static int signer[16]; static int verified_unknown;
static x509certificate make(int id, const char* subject, const char* issuer) { x509certificate c; c.derCert = {uint8_t(id)}; c.subject = subject; c.issuer = issuer; c.validity_start = 0; c.validity_end = ~0ull; c.fqdns.insert(subject); return c; }
template <class T> static void store_map(T& t) { typedef std::map<std::string, x509certificate> map_t; if constexpr (requires { t.trusted_certs; }) { using M = std::remove_reference_t<decltype(t.trusted_certs)>; new (&t.trusted_certs) M(); } else new ((void*)&t) map_t(); }
static int strcmp_(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a - *b; }
extern "C" {
// the store starts with two certificates, whatever file it is read from
void stub_store(Truststore* t) { memset((void*)t, 0, sizeof *t); store_map(*t); t->addCertificate(make(10, "R1", "R1")); t->addCertificate(make(11, "R2", "R2")); }
// 10, 11, ... are the trusted certificates, 0.. the untrusted ones
static B file; static size_t fileAt;
// a good stream whose buffer holds the whole file (libstdc++ layout), for code that iterates over the buffer instead of calling read()
static long bufEnd(void*) { return -1; }
static long bufGet(void* b, char* to, long n) { char** q = (char**)b; long k = 0; for (; k < n && q[2] != q[3]; k++) to[k] = *q[2]++; return k; }
static void* bufTable[16]; static void* streamTable[8];
void stub_open(void* self, const char*, int) { fileAt = 0; memset(self, 0, sizeof(std::ifstream)); for (auto& f : bufTable) f = (void*)bufEnd; bufTable[10] = (void*)bufGet; streamTable[0] = (void*)(sizeof(std::ifstream) - sizeof(std::ios)); char* s = (char*)self; *(void**)s = &streamTable[3]; char* b = s + 16; *(void**)b = &bufTable[2]; ((char**)b)[1] = ((char**)b)[2] = (char*)file.data(); ((char**)b)[3] = (char*)file.data() + file.size(); *(void**)(s + (sizeof(std::ifstream) - sizeof(std::ios)) + 232) = b; }
void stub_nothing(void*) {}
void stub_zero(void* p) { *(void**)p = nullptr; }
void* stub_read(void* self, char* to, long n) { for (long i = 0; i < n && fileAt < file.size(); i++) to[i] = char(file[fileAt++]); return self; }
uint64_t stub_size(const void*) { return file.size(); }
bool stub_verify(x509certificate* self, x509certificate* issuer) { if (self->derCert.size() == 1 && issuer->derCert.size() > 1) return self->derCert[0] < 16 && signer[self->derCert[0]] == int(issuer->serialNumber[0]); if (self->derCert.size() != 1 || issuer->derCert.size() != 1) { verified_unknown++; return false; } int i = self->derCert[0]; return i < 16 && signer[i] == issuer->derCert[0]; }
}
struct Case { int n; const char* subj[9]; const char* iss[9]; };
static const char* rootname(int id) { return id == 10 ? "R1" : id == 11 ? "R2" : "R3"; }
static bool reach(const Case& c, int roots) { bool ok[9] = {}; auto stored = [&](const char* s) { for (int r = 0; r < roots; r++) if (!strcmp_(s, rootname(10 + r))) return true; return false; };
  for (int it = 0; it < c.n; it++) for (int i = 0; i < c.n; i++) { if (stored(c.subj[i])) continue; int s = signer[i]; if (s >= 10 && s - 10 < roots && !strcmp_(rootname(s), c.iss[i])) ok[i] = true; if (s < c.n && s != i && ok[s] && !strcmp_(c.subj[s], c.iss[i])) ok[i] = true; } return ok[0]; }
static bool distinct(const Case& c, int roots) { for (int i = 0; i < c.n; i++) { for (int j = 0; j < i; j++) if (!strcmp_(c.subj[i], c.subj[j])) return false; for (int r = 0; r < roots; r++) if (!strcmp_(c.subj[i], rootname(10 + r))) return false; } return true; }
static void decide(const Case& c, int roots, bool symbolic, int code) { sa_ctx("case", code); Truststore& t = Truststore::Instance(); certs_t v; for (int i = 0; i < c.n; i++) v.push_back(make(i, c.subj[i], c.iss[i])); uint64_t now = 5, a = 0, b = ~0ull; if (symbolic) { sa_symw(&now, 8, "now", 0); sa_symw(&a, 8, "start", 0); sa_symw(&b, 8, "end", 0); v[0].validity_start = a; v[0].validity_end = b; }
  bool r = t.trust(v, now); bool want = reach(c, roots), exact = distinct(c, roots); if (symbolic) { bool in = (a <= now) & (now <= b); bool e = in & want; if (exact) sa_same("trusted-iff-valid-now-and-chained", &r, &e, 1); else sa_true("trusted-only-if-valid-now-and-chained", !r | e); } else { if (exact) sa_true("trusted-iff-chained", r == want); else sa_true("trusted-only-if-chained", !r || want); } }
// all chains of one and two certificates, every issuer name and signer
static const char* NAMES[6] = {"A", "B", "C", "R1", "R2", "X"};
static void one(bool symbolic) { for (int s : {0, 3}) for (int i = 0; i < 6; i++) for (int g : {0, 10, 11, 15}) { signer[0] = g; decide({1, {NAMES[s]}, {NAMES[i]}}, 2, symbolic, s * 1000 + i * 100 + g); } }
ENTRY prop_one() { one(false); }
ENTRY prop_one_times() { one(true); }
static void two(int s0, int s1, bool symbolic) { for (int i0 : {0, 1, 3, 5}) for (int i1 : {0, 1, 3, 4, 5}) for (int g0 : {1, 10, 15}) for (int g1 : {0, 10, 11, 15}) { signer[0] = g0; signer[1] = g1; decide({2, {NAMES[s0], NAMES[s1]}, {NAMES[i0], NAMES[i1]}}, 2, symbolic, s0 * 100000 + s1 * 10000 + i0 * 1000 + i1 * 100 + g0 * 16 + g1); } }
ENTRY prop_two_ab() { two(0, 1, false); }
ENTRY prop_two_ab_times() { two(0, 1, true); }
ENTRY prop_two_aa() { two(0, 0, false); }
ENTRY prop_two_ar() { two(0, 3, false); }
ENTRY prop_two_ra() { two(3, 0, false); }
// three certificates in every order of a chain, links right or wrong
static void three(int s1, int s2) { for (int i0 : {0, 1, 2, 3, 5}) for (int i1 : {0, 1, 2, 3}) for (int i2 : {0, 1, 2, 3}) for (int w = 0; w < 8; w++) { Case c{3, {"A", NAMES[s1], NAMES[s2]}, {NAMES[i0], NAMES[i1], NAMES[i2]}}; for (int i = 0; i < 3; i++) { signer[i] = 15; if (!(w >> i & 1)) { if (!strcmp_(c.iss[i], "R1")) signer[i] = 10; for (int j = 0; j < 3; j++) if (j != i && !strcmp_(c.subj[j], c.iss[i])) signer[i] = j; } } decide(c, 2, false, (s1 * 10 + s2) * 10000 + i0 * 1000 + i1 * 100 + i2 * 10 + w); } }
ENTRY prop_three_bc() { three(1, 2); }
ENTRY prop_three_bb() { three(1, 1); }
ENTRY prop_three_br() { three(1, 3); }
ENTRY prop_three_ab() { three(0, 1); }
// long chains in many orders: all links right, or one link with the wrong signer or the wrong issuer name, or one certificate under a trusted name
static void chain(int n, uint32_t seed) { static const char* const nm[9] = {"A", "B", "C", "D", "E", "F", "G", "H", "I"}; int at[9]; for (int i = 0; i < n; i++) at[i] = i; // link i sits at place at[i]; seed 0: in order, 1: backwards
  if (seed == 1) for (int i = 1; i < n; i++) at[i] = n - i; else if (seed) for (int i = n - 1; i > 1; i--) { seed = seed * 1664525 + 1013904223; int j = 1 + (seed >> 16) % i; int t = at[i]; at[i] = at[j]; at[j] = t; }
  for (int w = 0; w <= 3 * n; w++) { Case c{n, {}, {}}; for (int i = 0; i < n; i++) { c.subj[at[i]] = nm[i]; c.iss[at[i]] = i + 1 < n ? nm[i + 1] : "R2"; signer[at[i]] = i + 1 < n ? at[i + 1] : 11; } if (w) { int k = (w - 1) / 3; if (w % 3 == 0) signer[at[k]] = 15; else if (w % 3 == 1) c.iss[at[k]] = "X"; else c.subj[at[k]] = "R1"; } decide(c, 2, false, int(seed % 1000) * 1000 + n * 100 + w); } }
ENTRY prop_chain_4() { for (uint32_t s = 0; s < 8; s++) chain(4, s < 2 ? s : 7 * s); }
ENTRY prop_chain_5() { for (uint32_t s = 0; s < 8; s++) chain(5, s < 2 ? s : 7 * s); }
ENTRY prop_chain_6() { for (uint32_t s : {0, 1, 5, 9, 13, 17}) chain(6, s); }
ENTRY prop_chain_9() { for (uint32_t s : {0, 1, 5, 9}) chain(9, s); }
#ifdef THOROUGH
ENTRY prop_four() { for (int p = 0; p < 256; p++) for (int w = 0; w < 16; w++) { int i[4] = {p & 3, p >> 2 & 3, p >> 4 & 3, p >> 6}; const char* nm[4] = {"A", "B", "C", "D"}; Case c{4, {"A", "B", "C", "D"}, {}}; for (int k = 0; k < 4; k++) { c.iss[k] = i[k] == k ? "R1" : nm[i[k]]; signer[k] = w >> k & 1 ? 15 : i[k] == k ? 10 : i[k]; } decide(c, 2, false, p * 100 + w); } }
#endif
// the store: what was added is trusted from then on, decisions leave it alone
ENTRY prop_store() { Truststore& t = Truststore::Instance(); sa_true("same-instance", &t == &Truststore::Instance()); sa_true("loaded", t.get("R1") && (*t.get("R1"))->derCert.at(0) == 10 && t.get("R2")); sa_true("unknown-name", !t.get("A") && !t.get("") && !t.get("R"));
  signer[0] = 1; signer[1] = 10; signer[2] = 12; { certs_t v; v.push_back(make(0, "A", "B")); v.push_back(make(1, "B", "R1")); sa_true("chain", t.trust(v, 5)); sa_true("decision-adds-nothing", !t.get("A") && !t.get("B") && t.get("R1") && (*t.get("R1"))->derCert.at(0) == 10 && (*t.get("R1"))->subject == "R1"); }
  { certs_t v; v.push_back(make(0, "A", "B")); sa_true("intermediate-forgotten", !t.trust(v, 5)); }
  { certs_t v; sa_true("empty-list", !t.trust(v, 5)); }
  { certs_t v; v.push_back(make(2, "C", "R3")); sa_true("before-adding", !t.trust(v, 5)); t.addCertificate(make(12, "R3", "R3")); sa_true("added", t.get("R3") && (*t.get("R3"))->derCert.at(0) == 12); certs_t w; w.push_back(make(2, "C", "R3")); sa_true("after-adding", t.trust(w, 5)); sa_true("others-kept", t.get("R1") && t.get("R2")); }
  { t.addCertificate(make(13, "R3", "R3")); certs_t w; w.push_back(make(2, "C", "R3")); sa_true("replaced-key-no-longer-trusted", !t.trust(w, 5)); } }
// the store read from a file holds every certificate of it, each under its own name and with its own content, and they are what chains end at
static Parts entryOf(int k) { Parts p; p.subject = rdn(CN, txt("root") + B{uint8_t('a' + k)}); p.issuer = k == 1 ? rdn(CN, txt("elsewhere")) : p.subject; p.serial = B{uint8_t(40 + k)}; p.rest = tlv(0xa3, B(size_t(k * 7 + 1), uint8_t(k))); return p; }
static void load(int n) { file = txt("# roots\n"); for (int k = 0; k < n; k++) file = file + txt("# one\n") + armour(cert(entryOf(k)), "CERTIFICATE", "\n"); if (n > 1) file.pop_back(); sa_ctx("file", n); Truststore& t = Truststore::Instance();
  for (int k = 0; k < n; k++) { sa_ctx("file,entry", n * 100 + k); std::string name = std::string("CN=root") + char('a' + k); auto g = t.get(name); sa_true("stored-under-its-name", bool(g)); if (!g) continue; B d = cert(entryOf(k)); const auto& got = (*g)->derCert; sa_true("whole-certificate-stored", got.size() == d.size()); if (got.size() == d.size()) sa_same("whole-certificate-stored", got.data(), d.data(), d.size()); sa_true("name-kept", (*g)->subject == name);
    signer[0] = 40 + k; certs_t v; v.push_back(make(0, "A", name.c_str())); sa_true("chain-to-loaded-root-trusted", t.trust(v, 5)); signer[0] = 99; certs_t w; w.push_back(make(0, "A", name.c_str())); sa_true("forged-link-refused", !t.trust(w, 5)); }
  sa_true("nothing-else-stored", !t.get("CN=root" + std::string(1, char('a' + n))) && !t.get("")); }
ENTRY prop_load_none() { load(0); }
ENTRY prop_load_one() { load(1); }
ENTRY prop_load_two() { load(2); }
ENTRY prop_load_five() { load(5); }
ENTRY prop_times() { Truststore& t = Truststore::Instance(); signer[0] = 10; uint64_t now, a, b; sa_symw(&now, 8, "now", 0); sa_symw(&a, 8, "start", 0); sa_symw(&b, 8, "end", 0); certs_t v; v.push_back(make(0, "A", "R1")); v[0].validity_start = a; v[0].validity_end = b; bool r = t.trust(v, now), e = (a <= now) & (now <= b); sa_same("validity-period", &r, &e, 1); }
