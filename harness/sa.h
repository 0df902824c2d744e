// Primitives understood by the analysis engine (never executed).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <array>
#include <span>
#include <string>
#include <vector>
extern "C" {
void sa_ctx(const char* what, long n);
void sa_sym(void* p, size_t n, const char* name, int group);   // n unknown bytes, labelled `group` (0 = none)
void sa_symw(void* p, size_t n, const char* name, int group);  // one unknown n-byte word
unsigned char sa_any(const char* name);
void sa_same(const char* id, const void* got, const void* expected, size_t n);
void sa_true(const char* id, bool b);
void sa_assume(bool b);
int  sa_known(const char* id, const void* p, size_t n);
void sa_depends(const char* id, const void* out, size_t n, const void* in, size_t m);
void sa_indep(const char* id, const void* out, size_t n, int group);
void sa_uf(const char* fn, const void* in, size_t n, void* out, size_t m);
void sa_inv(const char* fn, const char* inverse, const void* in, size_t n, void* out, size_t m);
void sa_public(void* p, size_t n);
void sa_verdict(int lo, int hi);   // ct mode: groups lo..hi are secret too, but one branch on a condition that depends on all of them is the public verdict
void sa_freeze(const void* p);
void sa_unfreeze(const void* p);
void sa_freezedeep(const void* p);  // freezes everything reachable from *p
void sa_unfreezedeep(const void* p);
void sa_defined(const char* id, const void* p, size_t n);
void sa_log(const char* tag, const void* p, size_t n);
void sa_logreset(const char* tag);
size_t sa_logcount(const char* tag);
size_t sa_logget(const char* tag, size_t i, void* out);
void sa_distinct(const char* id, const char* tag);
int  sa_outcome(void (*fn)(void*), void* ctx);                 // 0 = returned, 1 = threw
void sa_fail(const char* id);
void sa_fresh(const char* id, const void* out, size_t n, const void* mask); // the masked bits (all if null) are independent entropy bits
void sa_show(const char* what, const void* p, size_t n);
}
template <class F> static inline int outcome(F&& f) { return sa_outcome([](void* c) { (*static_cast<std::remove_reference_t<F>*>(c))(); }, (void*)&f); }
#define ENTRY extern "C" __attribute__((noinline)) void
