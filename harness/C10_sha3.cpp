// The header's own SHA3<N>::getAsn1Id: src/sha3.cpp defines it a second time, and which of the two a program gets depends on
// inlining.  The header is read under another namespace name here, so that its definition is the one analysed.
#define Caligo CaligoHeader
#include "caligo/sha3.h"
#undef Caligo
#include "sa.h"
template <class H> static void one(uint8_t alg, size_t out) { sa_ctx("header", long(out * 8)); static_assert(H::hashsize); uint8_t p[] = {0x30, uint8_t(17 + out), 0x30, 13, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, alg, 5, 0, 4, uint8_t(out)}; auto id = H::getAsn1Id(); sa_true("digestinfo-size", id.size() == sizeof p); if (id.size() == sizeof p) sa_same("digestinfo", id.data(), p, sizeof p); }
ENTRY prop_header_sha3() { one<CaligoHeader::SHA3<224>>(7, 28); one<CaligoHeader::SHA3<256>>(8, 32); one<CaligoHeader::SHA3<384>>(9, 48); one<CaligoHeader::SHA3<512>>(10, 64); }
