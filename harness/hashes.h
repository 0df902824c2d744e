#pragma once
#include "ref_hash.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
using namespace Caligo;
typedef std::span<const uint8_t> bytes;
template <class H> struct Ref;
template <> struct Ref<MD5> { static constexpr size_t B = 64, OUT = 16; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::MD5c>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::MD5c>(m, n, o, p); } };
template <> struct Ref<SHA1> { static constexpr size_t B = 64, OUT = 20; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::SHA1c>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::SHA1c>(m, n, o, p); } };
template <> struct Ref<SHA2<224>> { static constexpr size_t B = 64, OUT = 28; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::SHA256c<224>>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::SHA256c<224>>(m, n, o, p); } };
template <> struct Ref<SHA2<256>> { static constexpr size_t B = 64, OUT = 32; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::SHA256c<256>>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::SHA256c<256>>(m, n, o, p); } };
template <> struct Ref<SHA2<384>> { static constexpr size_t B = 128, OUT = 48; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::SHA512c<384>>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::SHA512c<384>>(m, n, o, p); } };
template <> struct Ref<SHA2<512>> { static constexpr size_t B = 128, OUT = 64; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::md<ref::SHA512c<512>>(m, n, o); } static void big(const uint8_t* m, size_t n, uint8_t* o, uint64_t p) { ref::md<ref::SHA512c<512>>(m, n, o, p); } };
template <size_t S> struct Ref<SHA3<S>> { static constexpr size_t B = (1600 - 2 * S) / 8, OUT = S / 8; static void go(const uint8_t* m, size_t n, uint8_t* o) { ref::sha3<S>(m, n, o); } };
#define ALL_HASHES(X) X(md5, MD5) X(sha1, SHA1) X(sha224, SHA2<224>) X(sha256, SHA2<256>) X(sha384, SHA2<384>) X(sha512, SHA2<512>) X(sha3_224, SHA3<224>) X(sha3_256, SHA3<256>) X(sha3_384, SHA3<384>) X(sha3_512, SHA3<512>)
