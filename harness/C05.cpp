// History independence: the digest is a function of the concatenated bytes alone - not of how they were split over add() calls, of the
// SA-MIN: 10000
// overload or constructor used, of digests requested in between, of copies taken, or of when the object was created.
#include "hashes.h"
#ifdef THOROUGH
static constexpr size_t STEP = 1;
#else
static constexpr size_t STEP = 3;
#endif
// every split of every analysed length into two parts
template <class H> static void split2(const char* nm) {
  constexpr size_t B = Ref<H>::B, MAX = 2 * B + 20;
  uint8_t m[MAX]; sa_sym(m, MAX, "m", 0);
  for (size_t n = 0; n <= MAX; n += (n > B + 16 && n % B > 16 && n % B < B - 16) ? 3 * STEP + 2 : STEP) {
    H a; a.add(bytes(m, n)); auto d = a.data();
    for (size_t k = 0; k <= n; k += (k % B > 2 && k % B < B - 2 * STEP) ? STEP : 1) {
      sa_ctx(nm, n * 1000 + k); H b; b.add(bytes(m, k)); b.add(bytes(m + k, n - k)); auto e = b.data(); sa_same("two-parts", e.data(), d.data(), d.size());
    }
  }
}
// three parts, byte by byte, with empty additions and queries in between
template <class H> static void history(const char* nm) {
  constexpr size_t B = Ref<H>::B, MAX = 3 * B + 3;
  uint8_t m[MAX]; sa_sym(m, MAX, "m", 0);
  for (size_t n : {size_t(0), size_t(1), B / 2, B - 17, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, MAX}) {
    H a; a.add(bytes(m, n)); auto d = a.data();
    { sa_ctx(nm, n); H b; for (size_t i = 0; i < n; i++) { b.add(bytes(m + i, 1)); } auto e = b.data(); sa_same("byte-by-byte", e.data(), d.data(), d.size()); }
    { sa_ctx(nm, n); H b; for (size_t i = 0; i < n; i += 5) { b.add(bytes(m + i, n - i < 5 ? n - i : 5)); b.add(bytes(m + i, size_t(0))); if (i % 4 == 0) { auto q = b.data(); (void)q; } if (i % 7 == 0) { std::string q = b; } } auto e = b.data(); sa_same("queries-between", e.data(), d.data(), d.size()); }
    for (size_t k : {size_t(1), B / 3, B - 1, B, B + 2}) if (k <= n) { sa_ctx(nm, n * 1000 + k);
      H b; b.add(bytes(m, k)); auto q1 = b.data(); std::string s1 = b; auto q2 = b.data(); sa_same("query-is-repeatable", q2.data(), q1.data(), q1.size());
      H c = b; H o; o.add(bytes(m + 1, k < MAX ? k : k - 1)); b.add(bytes(m + k, n - k)); auto e = b.data(); sa_same("query-then-add", e.data(), d.data(), d.size());
      auto q3 = c.data(); sa_same("copy-unaffected", q3.data(), q1.data(), q1.size());
      c.add(bytes(m + k, n - k)); auto f = c.data(); sa_same("copy-continues", f.data(), d.data(), d.size());
      H g; g.add(bytes(m, k)); H h2; h2.add(bytes(m + 2, k - 1)); h2 = g; h2.add(bytes(m + k, n - k)); auto x = h2.data(); sa_same("assignment-continues", x.data(), d.data(), d.size()); }
    for (size_t k = 0; k <= n; k += B / 2 + 3) for (size_t l = k; l <= n; l += B / 2 + 1) { sa_ctx(nm, n * 1000 + k * 7 + l); H b; b.add(bytes(m, k)); b.add(bytes(m + k, l - k)); b.add(bytes(m + l, n - l)); auto e = b.data(); sa_same("three-parts", e.data(), d.data(), d.size()); }
  }
}
// the overloads
template <class H> static void overloads(const char* nm) {
  constexpr size_t B = Ref<H>::B, MAX = 2 * B + 3;
  uint8_t m[MAX]; sa_sym(m, MAX, "m", 0); const char* c = (const char*)m;
  for (size_t n : {size_t(0), size_t(1), size_t(13), B - 1, B, B + 1, MAX}) { sa_ctx(nm, n);
    H a; a.add(bytes(m, n)); auto d = a.data();
    H b; b.add(std::string_view(c, n)); auto e = b.data(); sa_same("string_view", e.data(), d.data(), d.size());
    H f{bytes(m, n)}; auto x = f.data(); sa_same("constructor", x.data(), d.data(), d.size());
    H g{std::string_view(c, n / 2), bytes(m + n / 2, n - n / 2)}; auto y = g.data(); sa_same("constructor-list", y.data(), d.data(), d.size());
    std::array<uint8_t, Ref<H>::OUT> z = a; sa_same("array-conversion", z.data(), d.data(), d.size());
    std::string s = a; sa_true("hex-length", s.size() == 2 * d.size());
    if (s.size() == 2 * d.size()) { uint8_t want[2 * Ref<H>::OUT]; for (size_t i = 0; i < d.size(); i++) for (int k = 0; k < 2; k++) { uint8_t v = k ? d[i] & 15 : d[i] >> 4; want[2 * i + k] = "0123456789abcdef"[v]; } sa_same("hex", s.data(), want, sizeof want); }
  }
}
// long updates: pieces longer than several blocks, beginning anywhere in a block, in one object
template <class H> static void longer(const char* nm) {
  static uint8_t t[65601]; uint32_t s = 1; for (auto& c : t) { s = s * 1664525 + 1013904223; c = s >> 24; }
  constexpr size_t MAX = 2100; uint8_t m[MAX]; memcpy(m, t, MAX); sa_sym(m + MAX - 5, 5, "tail", 0); H a; a.add(bytes(m, MAX)); auto d = a.data();
  for (size_t k : {size_t(1), size_t(63), size_t(64), size_t(1023)}) for (size_t l : {k, k + 129, k + 1024}) { sa_ctx(nm, k * 10000 + l); H b; b.add(bytes(m, k)); b.add(bytes(m + k, l - k)); b.add(std::string_view((char*)m + l, MAX - l)); auto e = b.data(); sa_same("long-parts", e.data(), d.data(), d.size()); }
  constexpr size_t N = Ref<H>::B > 64 && Ref<H>::B != 128 ? 6007 : sizeof t; H x; x.add(bytes(t, N)); H y; for (size_t i = 0, k = 1; i < N; i += k, k = k * 3 % 20011) { size_t l = N - i < k ? N - i : k; y.add(bytes(t + i, l)); if (k % 2) { auto q = y.data(); (void)q; } } auto e = x.data(), f = y.data(); sa_ctx(nm, N); sa_same("long-parts", f.data(), e.data(), e.size());
}
#define X(n, H) ENTRY prop_split_##n() { split2<H>(#n); } ENTRY prop_history_##n() { history<H>(#n); } ENTRY prop_overload_##n() { overloads<H>(#n); } ENTRY prop_longer_##n() { longer<H>(#n); }
ALL_HASHES(X)
