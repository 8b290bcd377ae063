//@std 20 11
//@bounds every kind of target type (booleans, null, characters, integers, floating-point, enumerations, strings, sequences, sets, maps, pairs, tuples, arrays, bit sets, complex, durations, smart pointers, value arrays, container adaptors, classes with and without skipped fields, optionals, variants): inputs of 0..N bytes, every byte symbolic, N per type 3..10 (quick), 4..11 (thorough); every prefix of the item that was read
//@assume bytes behind the item do not influence the result: shown as "the item alone, in a buffer of exactly its size, reads to an equal value"
//@reach *: ok bad cut whole
#include "h_types_cbor.h"
template <typename T> static void agr(int lo, int hi) {
    auto b=Buf<>::any(0,(int)sx_bound(lo,hi)); Tg<T> t; auto r=cxon::from_bytes<B>(t.get(),b.begin(),b.end());
    sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.begin() && r.end<=b.end(),"end inside the input");
    if (!r) { sx_reach("bad"); return; } sx_reach("ok"); int k=int(r.end-b.p); sx_assert(k>0,"a value has at least one byte");
    int j=(int)sx_range(0,k,"cut"); u8* p=(u8*)malloc(j); memcpy(p,b.p,j); Tg<T> u; auto s=cxon::from_bytes<B>(u.get(),p,p+j);
    sx_assert(bool(s)==!s.ec,"result agrees with its error code"); sx_assert(s.end>=p && s.end<=p+j,"end inside the input");
    if (j<k) { sx_reach("cut"); sx_assert(!s,"a truncated item is rejected"); } else { sx_reach("whole"); sx_assert(bool(s),"bytes behind the item do not decide its acceptance"); sx_assert(s.end==p+j,"the end is that of the item"); sx_assert(same(t.v,u.v),"bytes behind the item do not influence the value"); }
    free(p); }
#define X(N,L,H,...) SX_ENTRY(N) { agr<__VA_ARGS__>(L,H); }
CBOR_TYPES(X)
#if __cplusplus>=201703L
CBOR_TYPES_17(X)
#endif
