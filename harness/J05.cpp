//@std 20 11
//@bounds any_*: every byte string of 0..N bytes (N=4 quick, 6 thorough) into int8_t, uint16_t, int and uint64_t; dig_*: all eight 8..64-bit types (and long), every number of 1..M+1 (thorough M+3) digits without leading zeros, all digits symbolic, followed by an arbitrary non-digit; zero_*: leading zeros; long_*: 30..34 digits. Pointers with default and strict numbers, forward and single-pass iterators
//@assume char is signed 8 bit; the integer conversion of the C++ library is executed, not modelled
//@reach any_*: ok bad
//@reach dig_*: ok range
#include "h_num.h"
#include "cxon/json.hxx"
struct strict_traits : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
enum { PTR, STRICT, FWD, INP };
template <int M, typename T> static void go(const Buf<char>& b) {
    T t=T(42); bool ok; int used; bool bad_ec;
    if (M==PTR) { auto r=cxon::from_bytes(t,(const char*)b.begin(),(const char*)b.end()); ok=bool(r); used=int(r.end-b.p); bad_ec= r.ec && r.ec!=cxon::json::read_error::integral_invalid; sx_assert(ok==!r.ec,"result agrees with its error code"); }
    else if (M==STRICT) { auto r=cxon::from_bytes<cxon::JSON<strict_traits>>(t,(const char*)b.begin(),(const char*)b.end()); ok=bool(r); used=int(r.end-b.p); bad_ec= r.ec && r.ec!=cxon::json::read_error::integral_invalid; sx_assert(ok==!r.ec,"result agrees with its error code"); }
    else if (M==FWD) { auto r=cxon::from_bytes(t,Fwd<>(b.begin()),Fwd<>(b.end())); ok=bool(r); used=int(r.end.p-b.p); bad_ec= r.ec && r.ec!=cxon::json::read_error::integral_invalid && r.ec!=cxon::json::read_error::overflow; sx_assert(ok==!r.ec,"result agrees with its error code"); }
    else { const char* q=b.p; auto r=cxon::from_bytes(t,Inp<>(&q,b.end()),Inp<>::end_of(b.end())); ok=bool(r); used=int(q-b.p); bad_ec= r.ec && r.ec!=cxon::json::read_error::integral_invalid && r.ec!=cxon::json::read_error::overflow; sx_assert(ok==!r.ec,"result agrees with its error code"); }
    sx_assert(!bad_ec,"the error is the integer error"); sx_assert(used>=0 && used<=b.n,"end is inside the input");
    IntTok k=ref_int<T>(b.p,b.n);
    if (ok) sx_reach("ok");
    if (!k.digits) { sx_reach("bad"); sx_assert(!ok,"input without digits is rejected"); if (M!=INP) sx_assert(used<=(k.b>k.d?k.b:k.d),"the end is not behind the offending input"); return; }
    if (!k.zeros) {
        bool out= k.neg ? ref_dec_gt(b.p+k.d,k.e-k.d,ref_min_lit<T>()) : ref_dec_gt(b.p+k.d,k.e-k.d,ref_max_lit<T>());
        if (out) { sx_reach("range"); sx_assert(!ok,"a number outside the range of the type is rejected"); return; }
        sx_assert(ok,"a representable number is read"); sx_assert(used==k.e,"end is directly behind the digits");
        u64 v=ref_dec_val(b.p+k.d,k.e-k.d); sx_assert(t==(T)(k.neg ? 0-v : v),"the value is the number written");
    } else if (ok) { sx_assert(used>k.d && used<=k.e,"only digits are consumed"); u64 v=ref_dec_val(b.p+k.d,used-k.d); sx_assert(t==(T)(k.neg ? 0-v : v),"the value is that of the digits consumed"); }
    sx_out("ok",ok); if (ok) { sx_out("v",(i64)t); sx_out("used",used); }
}
#define ALLM(n,...) SX_ENTRY(n##_ptr) { go<PTR,__VA_ARGS__; } SX_ENTRY(n##_strict) { go<STRICT,__VA_ARGS__; } SX_ENTRY(n##_fwd) { go<FWD,__VA_ARGS__; } SX_ENTRY(n##_inp) { go<INP,__VA_ARGS__; }
static Buf<char> any() { return Buf<char>::any(0,(int)sx_bound(4,6)); }
ALLM(any_i8,signed char>(any())) ALLM(any_u16,unsigned short>(any())) ALLM(any_i32,int>(any())) ALLM(any_u64,unsigned long long>(any()))
// every decimal number of 1..M+1 digits (M digits of the limit) without leading zeros: from M digits on one path per length q of the prefix shared with the limit, below and above it
template <typename T> static Buf<char> dig() {
    int m=std::numeric_limits<T>::digits10+1, neg= std::is_signed<T>::value ? (int)sx_range(0,1,"neg") : 0; const char* lim= neg ? ref_min_lit<T>() : ref_max_lit<T>(); m=(int)strlen(lim); int k=(int)sx_range(1,m+(int)sx_bound(1,3),"digits"); if (k>m && std::is_signed<T>::value && sizeof(T)==8) { lim=ref_max_lit<unsigned long long>(); m=(int)strlen(lim); } // the conversion works on the unsigned type
    Buf<char> b(neg+k+1); char* d=b.p+neg; if (neg) b.p[0]='-';
    if (k<m) for (int i=0;i<k;++i) d[i]= i==0 && k>1 ? char(49+((u8)d[i]&15u)%9u) : ref_dig(d[i]);
    else { int q=(int)sx_range(0,m,"prefix"), up=q<m ? (int)sx_range(0,1,"above") : 0;
        for (int i=0;i<k;++i) if (i<q && i<m) d[i]=lim[i]; else if (i>q || i>=m) d[i]=ref_dig(d[i]); else { int lo= up ? lim[i]+1 : i==0 ? '1' : '0', n= up ? '9'+1-lo : lim[i]-lo; sx_assume(n>0); d[i]=char((unsigned)lo+((u8)d[i]&15u)%(unsigned)n); } }
    sx_assume(!(d[k]>='0' && d[k]<='9')); return b; }
#define DIG(n,...) SX_ENTRY(dig_##n##_ptr) { go<PTR,__VA_ARGS__>(dig<__VA_ARGS__>()); } SX_ENTRY(dig_##n##_strict) { go<STRICT,__VA_ARGS__>(dig<__VA_ARGS__>()); } SX_ENTRY(dig_##n##_fwd) { go<FWD,__VA_ARGS__>(dig<__VA_ARGS__>()); } SX_ENTRY(dig_##n##_inp) { go<INP,__VA_ARGS__>(dig<__VA_ARGS__>()); }
DIG(i8,signed char) DIG(u8,unsigned char) DIG(i16,short) DIG(u16,unsigned short) DIG(i32,int) DIG(u32,unsigned) DIG(i64,long long) DIG(u64,unsigned long long)
SX_ENTRY(dig_long_ptr) { go<PTR,long>(dig<long>()); }
static Buf<char> zero(int neg) { int k=(int)sx_range(2,(int)sx_bound(4,6),"digits"); Buf<char> b(neg+k); if (neg) sx_assume(b[0]=='-'); for (int i=0;i<k;++i) b.p[neg+i]=ref_dig(b.p[neg+i]); b.p[neg]='0'; return b; }
ALLM(zero_i8,signed char>(zero((int)sx_range(0,1,"neg")))) ALLM(zero_u32,unsigned>(zero(0)))
static Buf<char> lng() { int k=(int)sx_range(30,34,"digits"); Buf<char> b(k); for (int i=0;i<k;++i) b.p[i]=ref_dig(b.p[i]); sx_assume(b[0]!='0'); return b; }
ALLM(long_u64,unsigned long long>(lng()))
