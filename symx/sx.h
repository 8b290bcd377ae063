// Harness API. The same harness source is (a) lowered to LLVM IR and executed symbolically by symx and
// (b) compiled natively against sxnative.cpp to replay a counterexample on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
    void sx_symbolic(void* p, size_t n, const char* name);        // n fresh symbolic bytes
    int64_t sx_range(int64_t lo, int64_t hi, const char* name);   // every value lo..hi, one path each
    void sx_assume(bool c);
    void sx_assert(bool c, const char* msg);
    void sx_known(bool c, const char* kf, const char* msg);       // !c is the recorded finding kf; path goes on either way
    void sx_reach(const char* label);                             // vacuity witness: must be reached on some path
    void sx_out(const char* label, int64_t v);                    // observable, compared with the native run of the same input
    int64_t sx_bound(int64_t quick, int64_t thorough);
    void sx_allow(int what);                                      // SX_THROW...
    uint64_t sx_concrete(uint64_t v);                             // fork until v is a single value
    void sx_noleak(void);                                         // from here on: at the end of the path no heap object allocated after this call is left
    bool sx_engine(void);                                         // true under symx, false natively
}
enum { SX_ALLOW_THROW = 1, SX_ALLOW_HUGE = 2 };
#define SX_ENTRY(name) extern "C" void sx_entry_##name()
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_CHECK(c) sx_assert((c), #c)
template <typename T> inline T sx_any(const char* name) { T t; sx_symbolic(&t, sizeof t, name); return t; }
