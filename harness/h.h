// shared helpers of the harnesses
#pragma once
#include "sx.h"
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <limits>
#include <type_traits>
#include <utility>
using u8 = unsigned char; using u64 = uint64_t; using i64 = int64_t;

// exact-size symbolic input: one byte past the end is a detectable access
template <typename C = u8>
struct Buf {
    C* p; int n;
    Buf(int len, const char* name = "in") : n(len) { p=(C*)malloc(len*sizeof(C)); sx_symbolic(p,len*sizeof(C),name); }
    struct Raw {}; Buf(int len, Raw) : n(len) { p=(C*)malloc(len*sizeof(C)); memset((void*)p,0,len*sizeof(C)); } // zero
    static Buf any(int lo, int hi) { return Buf((int)sx_range(lo,hi,"len")); }
    Buf(const Buf&)=delete; Buf(Buf&& b) : p(b.p), n(b.n) { b.p=nullptr; }
    ~Buf() { free(p); }
    const C* begin() const { return p; } const C* end() const { return p+n; } C operator[](int i) const { return p[i]; }
};

// forward / single-pass iterators over a buffer
template <typename C, typename Tag>
struct It {
    using iterator_category = Tag; using value_type = C; using difference_type = ptrdiff_t; using pointer = const C*; using reference = const C&;
    const C* p = nullptr;
    It() = default; explicit It(const C* q) : p(q) {}
    const C& operator *() const { return *p; } const C* operator ->() const { return p; }
    It& operator ++() { ++p; return *this; } It operator ++(int) { It r=*this; ++p; return r; }
    It& operator --() { --p; return *this; } It operator --(int) { It r=*this; --p; return r; }
    bool operator ==(const It& o) const { return p==o.p; } bool operator !=(const It& o) const { return p!=o.p; }
};
template <typename C=char> using Fwd = It<C,std::forward_iterator_tag>;
template <typename C=char> using Bid = It<C,std::bidirectional_iterator_tag>;
// single pass: copies share one position, like std::istreambuf_iterator
template <typename C=char>
struct Inp {
    using iterator_category = std::input_iterator_tag; using value_type = C; using difference_type = ptrdiff_t; using pointer = const C*; using reference = const C&;
    const C** s; const C* e;
    Inp(const C** s_, const C* e_) : s(s_), e(e_) {}
    const C& operator *() const { return **s; } Inp& operator ++() { ++*s; return *this; }
    struct P { C c; C operator *() const { return c; } };
    P operator ++(int) { P r{**s}; ++*s; return r; }
    bool at_end() const { return *s==e; }
    bool operator ==(const Inp& o) const { return (s ? at_end() : true) == (o.s ? o.at_end() : true); } bool operator !=(const Inp& o) const { return !(*this==o); }
    static Inp end_of(const C* e) { return Inp(nullptr,e); }
};

// sizes around the limits of 8 and 16 bit counters
inline int size8() { static const int z[]={24,255,256,257,300}; return z[sx_range(0,4,"size")]; }
inline int depth8() { static const int z[]={63,64,65,127,128,129,255,256,257,300}; return z[sx_range(0,9,"depth")]; }
