//@std 20 11
//@bounds every kind of target type (booleans, null, characters, integers, floating-point, enumerations, strings, character pointers and arrays, sequences, sets, maps, pairs, tuples, arrays, bit sets, complex, durations, smart pointers, value arrays, container adaptors, classes with and without skipped fields, optionals, variants): inputs of 0..N bytes, every byte symbolic, N per type 6..8 (quick), 8..11 (thorough), numbers lenient and strict
//@assume bytes behind the value do not influence the result: shown as "the value alone, in a buffer of exactly its size, reads to an equal value"; conversions of floating-point text are modelled (see J15)
//@reach *: ok bad
#include "h_types_json.h"
template <typename X, typename T> static void agr(int lo, int hi) {
    auto b=Buf<char>::any(0,(int)sx_bound(lo,hi)); Tg<T> t; auto r=cxon::from_bytes<X>(t.get(),b.begin(),b.end());
    sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.begin() && r.end<=b.end(),"end inside the input");
    if (!r) { sx_reach("bad"); return; } sx_reach("ok"); int k=int(r.end-b.p); sx_assert(k>0,"a value has at least one byte");
    char* p=(char*)malloc(k); memcpy(p,b.p,k); Tg<T> u; auto s=cxon::from_bytes<X>(u.get(),(const char*)p,(const char*)p+k);
    sx_assert(bool(s)==!s.ec,"result agrees with its error code"); sx_assert(bool(s),"bytes behind the value do not decide its acceptance"); sx_assert(s.end==p+k,"the end is that of the value"); sx_assert(same(t.v,u.v),"bytes behind the value do not influence it"); free(p); }
#define X(N,L,H,...) SX_ENTRY(N) { agr<J,__VA_ARGS__>(L,H); }
JSON_TYPES(X)
#if __cplusplus>=201703L
JSON_TYPES_17(X)
#endif
SX_ENTRY(s_i8) { agr<JS,signed char>(6,8); } SX_ENTRY(s_u32) { agr<JS,unsigned>(6,8); } SX_ENTRY(s_d) { agr<JS,double>(6,8); } SX_ENTRY(s_vec) { agr<JS,std::vector<short>>(6,8); }
