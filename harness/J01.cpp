//@std 20 11
//@flags -UNDEBUG
//@bounds every kind of target type (see J02), with the library's assertions enabled: (it_*) through forward and single-pass iterators, (cx_*) in the CXCF format (comments, unquoted keys, bare special values) through pointers and single-pass iterators, (kv_*) in the default format with strict numbers behind the heads of nested values; inputs of 0..N bytes, every byte symbolic, N per type 5..7 (quick), 7..9 (thorough); (esc_*) strings of up to 14 characters made of escape sequences cut anywhere; pointer ranges are exact-size heap blocks
//@assume a read out of bounds, a read of uninitialised or freed memory, a leak, signed overflow, a bad shift, a failed assertion, an exception, an allocation of more than 256 KiB or more than 4 million instructions on a path is an error of the run itself; conversions of floating-point text are modelled (see J15)
//@reach it_*: ok bad
//@reach cx_*: bad
//@reach esc_*: ok bad
#include "h_types_json.h"
#include "cxon/cxcf.hxx"
using CX=cxon::JSON<cxon::cxcf::format_traits>;
template <typename R> static void verdict(const R& r) { sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (r) sx_reach("ok"); else sx_reach("bad"); }
template <typename X, int K, typename T> static void run(const Buf<char>& b) { Tg<T> t;
    if (K==0) { auto r=cxon::from_bytes<X>(t.get(),b.begin(),b.end()); verdict(r); sx_assert(r.end>=b.begin() && r.end<=b.end(),"end inside the input"); }
    if (K==1) { auto r=cxon::from_bytes<X>(t.get(),Fwd<>(b.p),Fwd<>(b.p+b.n)); verdict(r); sx_assert(r.end.p>=b.p && r.end.p<=b.p+b.n,"end inside the input"); }
    if (K==2) { const char* p=b.p; auto r=cxon::from_bytes<X>(t.get(),Inp<>(&p,b.p+b.n),Inp<>::end_of(b.p+b.n)); verdict(r); sx_assert(p<=b.p+b.n,"not read past the end"); } }
template <typename T> static void iter(int lo, int hi) { auto b=Buf<char>::any(0,(int)sx_bound(lo,hi)); if (sx_range(0,1,"single-pass")) run<J,2,T>(b); else run<J,1,T>(b); }
template <typename T> static void cxcf(int lo, int hi) { auto b=Buf<char>::any(0,(int)sx_bound(lo,hi)); if (sx_range(0,1,"single-pass")) run<CX,2,T>(b); else run<CX,0,T>(b); }
#define X(N,L,H,...) SX_ENTRY(i##N) { iter<__VA_ARGS__>((L)-1,(H)-1); } SX_ENTRY(cx_##N) { cxcf<__VA_ARGS__>(4,6); }
JSON_TYPES(X)
#if __cplusplus>=201703L
JSON_TYPES_17(X)
#endif
// heads of nested values, then anything
template <typename T> static void kv(const char* h) { int l=(int)strlen(h), x=(int)sx_range(0,(int)sx_bound(3,5),"more"); Buf<char> b(l+x); memcpy(b.p,h,l); switch (sx_range(0,2,"it")) { case 0: run<JS,0,T>(b); break; case 1: run<JS,1,T>(b); break; case 2: run<JS,2,T>(b); break; } }
SX_ENTRY(kv_cls) { kv<Cl>("{\"a\":1,"); } SX_ENTRY(kv_skp) { kv<Sk>("{\"s\":"); } SX_ENTRY(kv_skp2) { kv<Sk>("{\"s\":[{\"x\":"); } SX_ENTRY(kv_vcls) { kv<std::vector<Cl>>("[{\"b\":"); } SX_ENTRY(kv_map) { kv<std::map<std::string,std::vector<u8>>>("{\"k\":["); } SX_ENTRY(kv_umap) { kv<std::unordered_map<std::string,std::string>>("{\"k\":\""); } SX_ENTRY(kv_tup) { kv<std::tuple<u8,std::vector<u8>>>("[1,["); } SX_ENTRY(kv_enm) { kv<std::vector<En>>("[\"a\",\""); } SX_ENTRY(kv_emap) { kv<std::map<En,std::vector<u8>>>("{\"a\":["); }
#if __cplusplus>=201703L
SX_ENTRY(kv_var) { kv<std::vector<std::variant<u8,std::string,std::vector<u8>>>>("[[1],"); } SX_ENTRY(kv_opt) { kv<std::map<u8,std::optional<u8>>>("{\"1\":"); } SX_ENTRY(kv_avar) { kv<std::variant<u8,short>>("{\"1\":"); }
#endif
// escape sequences cut anywhere: \n, a BMP and two halves of a pair, with symbolic hexadecimal digits
template <typename T, int K> static void esc() { static const char* s[]={"\"\\uD8xx\\uDCxx\"","\"\\u00xx\\n\"","\"a\\uDCxx\"","\"\\uDBx\\uxx\"","\"\\uD8xx\\nxxxx\"","\"\\uD8xxxxxxxx\""}; const char* q=s[sx_range(0,5,"text")]; int l=(int)strlen(q), n=(int)sx_range(0,l,"cut"); Buf<char> b(n); for (int i=0;i<n;++i) if (q[i]!='x') b.p[i]=q[i]; run<J,K,T>(b); }
#define ESC(N,...) SX_ENTRY(esc_##N##_p) { esc<__VA_ARGS__,0>(); } SX_ENTRY(esc_##N##_f) { esc<__VA_ARGS__,1>(); } SX_ENTRY(esc_##N##_i) { esc<__VA_ARGS__,2>(); }
ESC(str,std::string) ESC(u16,std::u16string) ESC(u32,std::u32string) ESC(cp,Ptr<char>) ESC(ca,C3)
