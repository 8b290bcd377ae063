//@std 20 11
//@flags -UNDEBUG
//@bounds every kind of target type (see C02), with the library's assertions enabled: (it_*) inputs of 0..N bytes through forward and single-pass iterators, every byte symbolic, N per type 3..9 (quick), 4..11 (thorough); (big_*) heads with an argument of 8, 4 or 2 bytes, any value, alone or behind a tag, a list, map or indefinite head, a chunk head or a class key, followed by 0..2 symbolic bytes, cut anywhere; (cap_*) sinks; pointer ranges are exact-size heap blocks
//@assume a read out of bounds, a read of uninitialised or freed memory, a leak, signed overflow, a bad shift, a failed assertion, an exception, an allocation of more than 256 KiB or more than 4 million instructions on a path is an error of the run itself
//@reach it_*: ok bad
//@reach big_*: bad
#include "h_types_cbor.h"
template <typename R> static void verdict(const R& r) { sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (r) sx_reach("ok"); else sx_reach("bad"); }
template <typename T> static void iter(int lo, int hi) { auto b=Buf<>::any(0,(int)sx_bound(lo,hi)); Tg<T> t;
    if (sx_range(0,1,"single-pass")) { const u8* p=b.p; auto r=cxon::from_bytes<B>(t.get(),Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); verdict(r); sx_assert(p<=b.p+b.n,"not read past the end"); }
    else { auto r=cxon::from_bytes<B>(t.get(),Fwd<u8>(b.p),Fwd<u8>(b.p+b.n)); verdict(r); sx_assert(r.end.p>=b.p && r.end.p<=b.p+b.n,"end inside the input"); } }
static const struct { int n; const char* s; } pre[]={{0,""},{1,"\xC1"},{1,"\x82"},{1,"\x9F"},{1,"\xA1"},{1,"\xBF"},{1,"\x5F"},{1,"\x7F"},{3,"\xA1\x61\x61"},{3,"\xA1\x61\x73"},{2,"\x82\x02"},{3,"\x83\x01\x60"}};
template <typename T> static void big() { int q=(int)sx_range(0,sizeof(pre)/sizeof(*pre)-1,"in"), w=1<<(int)sx_range(1,3,"width"), x=(int)sx_range(0,2,"more"), n=pre[q].n+1+w+x; Buf<> b(n); memcpy(b.p,pre[q].s,pre[q].n); u8 h=b[pre[q].n]; sx_assume((h&31)==(w==8 ? 27 : w==4 ? 26 : 25));
    Tg<T> t; auto r=cxon::from_bytes<B>(t.get(),b.begin(),b.end()); verdict(r); sx_assert(r.end>=b.begin() && r.end<=b.end(),"end inside the input"); }
#define X(N,L,H,...) SX_ENTRY(i##N) { iter<__VA_ARGS__>((L)<6 ? (L) : (L)-1,H); } SX_ENTRY(big_##N) { big<__VA_ARGS__>(); }
CBOR_TYPES(X)
#if __cplusplus>=201703L
CBOR_TYPES_17(X)
#endif
