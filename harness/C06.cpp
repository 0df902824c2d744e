// Digest = the published standard, for every message of each analysed length (contents unknown), and the length field for every total length.
// SA-MIN: 1000
#include "priv.h"
#include "hashes.h"
template <class H> static void setLength(H& h, uint64_t n) requires requires { h.msglength = n; } { h.msglength = n; }
// the field is only used where it counts the octets fed
template <class H> static bool countsOctets() { if constexpr (requires(H h) { h.msglength = 0; }) { H h; uint8_t z[8] = {}; if (h.msglength != 0) return false; h.add(bytes(z, 3)); if (h.msglength != 3) return false; h.add(bytes(z, 5)); return h.msglength == 8; } else return false; }
#ifdef THOROUGH
static constexpr size_t SPAN = 3;
#else
static constexpr size_t SPAN = 1;
#endif
template <class H> static void standard(const char* nm) {
  constexpr size_t B = Ref<H>::B, MAX = SPAN * B + B / 2 + 8;
  uint8_t m[MAX]; sa_sym(m, MAX, "m", 0);
  for (size_t n = 0; n <= MAX; n++) {
    sa_ctx(nm, n);
    H h; h.add(bytes(m, n)); auto d = h.data(); uint8_t e[Ref<H>::OUT];
    static_assert(sizeof d == Ref<H>::OUT);
    Ref<H>::go(m, n, e); sa_same("digest", d.data(), e, Ref<H>::OUT);
  }
}
// two blocks and more, around each block boundary
template <class H> static void far(const char* nm) {
  constexpr size_t B = Ref<H>::B, MAX = 4 * B + 2;
  uint8_t m[MAX]; sa_sym(m, MAX, "m", 0);
  for (size_t b = 2; b <= 4; b++) for (size_t n = b * B - 18; n <= b * B + 1; n++) {
    sa_ctx(nm, n); H h; h.add(bytes(m, n)); auto d = h.data(); uint8_t e[Ref<H>::OUT]; Ref<H>::go(m, n, e); sa_same("digest-multiblock", d.data(), e, Ref<H>::OUT); }
}
// the length field, for an arbitrary total length: the running length is replaced by an unknown multiple of the block size
template <class H> static void lengthField(const char* nm) {
  constexpr size_t B = Ref<H>::B;
  if constexpr (requires(H h) { Ref<H>::big(nullptr, 0, nullptr, 0); }) {
    uint8_t m[B]; sa_sym(m, B, "m", 0);
    if (!countsOctets<H>()) return;
    uint64_t q = 0; sa_symw(&q, 7, "blocks", 0); // unknown 56-bit block count, below the 2^61 byte limit of every one of these hashes
    q &= 0x3ffffffffffffull; uint64_t prior = q * B;
    for (size_t k : {size_t(0), size_t(1), B - 9, B - 8, B - 1}) {
      sa_ctx(nm, k); H h;
      if constexpr (requires { setLength(h, prior); }) { setLength(h, prior); } else return;
      h.add(bytes(m, k)); auto d = h.data(); uint8_t e[Ref<H>::OUT]; Ref<H>::big(m, k, e, prior); sa_same("length-field", d.data(), e, Ref<H>::OUT);
    }
  }
}
// long messages in one piece: the last octets unknown, the others known (a confused position or length shows in them), up to more than 2^16 octets
static constexpr size_t LONGEST = 65601; static uint8_t text[LONGEST];
template <class H> static void lengthy(const char* nm) {
  uint32_t s = 1; for (auto& c : text) { s = s * 1664525 + 1013904223; c = s >> 24; }
  for (size_t n : {size_t(255), size_t(256), size_t(257), size_t(1000), size_t(2051), size_t(4097), Ref<H>::B > 64 && Ref<H>::B != 128 ? size_t(5003) : LONGEST}) { sa_ctx(nm, n); uint8_t keep[5]; memcpy(keep, text + n - 5, 5); sa_sym(text + n - 5, 5, "tail", 0); H h; h.add(bytes(text, n)); auto d = h.data(); uint8_t e[Ref<H>::OUT]; Ref<H>::go(text, n, e); sa_same("digest-long", d.data(), e, Ref<H>::OUT); memcpy(text + n - 5, keep, 5); }
}
#define X(n, H) ENTRY prop_std_##n() { standard<H>(#n); } ENTRY prop_far_##n() { far<H>(#n); } ENTRY prop_len_##n() { lengthField<H>(#n); } ENTRY prop_long_##n() { lengthy<H>(#n); }
ALL_HASHES(X)
