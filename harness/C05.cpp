//@std 20 11
//@bounds iterators: pointers (all), forward and single-pass (any_*); every half, single and double bit pattern into float and double; every integer head of major types 0 and 1 into float and double; every float and double written and read back
//@assume IEEE-754 binary32/binary64 hardware semantics, round to nearest (SMT-LIB FloatingPoint); NaN payloads are compared only as NaN where a conversion of width is involved
//@reach half_*: zero sub normal inf nan
//@reach rt_*: done
//@reach int_*: pos neg
#include "h_cbor.h"
#include "cxon/cbor.hxx"
static u64 bits(double d) { u64 u; memcpy(&u,&d,8); return u; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u,&f,4); return u; }
static bool isnan_(uint32_t u) { return (u&0x7FFFFFFF)>0x7F800000; } static bool isnan_(u64 u) { return (u&0x7FFFFFFFFFFFFFFFull)>0x7FF0000000000000ull; }
// half to double / float bits, from the IEEE definition (integer arithmetic only)
static u64 ref_half(unsigned h) {
    u64 s=(u64)(h>>15)<<63; unsigned e=(h>>10)&31, m=h&1023; if (e==31) return s|(m ? 0x7FF8000000000000ull : 0x7FF0000000000000ull); if (e) return s|((u64)(e+1008)<<52)|((u64)m<<42); if (!m) return s;
    int k=0; while (!(m&1024)) { m<<=1; ++k; } return s|((u64)(1009-k)<<52)|((u64)(m&1023)<<42); }
static uint32_t ref_half_f(unsigned h) {
    uint32_t s=(uint32_t)(h>>15)<<31; unsigned e=(h>>10)&31, m=h&1023; if (e==31) return s|(m ? 0x7FC00000u : 0x7F800000u); if (e) return s|((e+112u)<<23)|(m<<13); if (!m) return s;
    int k=0; while (!(m&1024)) { m<<=1; ++k; } return s|((113u-k)<<23)|((m&1023u)<<13); }
static void cls(unsigned h) { unsigned e=(h>>10)&31, m=h&1023; if (e==31) { if (m) sx_reach("nan"); else sx_reach("inf"); } else if (e) sx_reach("normal"); else if (m) sx_reach("sub"); else sx_reach("zero"); }
template <typename T> static bool rd(T& t, const u8* p, int n) { auto r=cxon::from_bytes(t,p,p+n); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (r) sx_assert(r.end==p+n,"end is directly behind the item"); return bool(r); }
static void half(unsigned& h, u8* p) { h=sx_any<u8>("hi")*256u; h|=sx_any<u8>("lo"); sx_concrete(h>>10); p[0]=0xF9; p[1]=u8(h>>8); p[2]=u8(h); cls(h); }
SX_ENTRY(half_d) { u8 p[3]; unsigned h; half(h,p); double t=1; sx_assert(rd(t,p,3),"a half precision item is read"); u64 u=ref_half(h); if (isnan_(u)) sx_assert(isnan_(bits(t)),"NaN reads as NaN"); else sx_assert(bits(t)==u,"the half precision value is exact"); }
SX_ENTRY(half_f) { u8 p[3]; unsigned h; half(h,p); float t=1; sx_assert(rd(t,p,3),"a half precision item is read"); uint32_t u=ref_half_f(h); if (isnan_(u)) sx_assert(isnan_(bits(t)),"NaN reads as NaN"); else sx_assert(bits(t)==u,"the half precision value is exact"); }
SX_ENTRY(fp_ff) { u8 p[5]; sx_symbolic(p,5,"p"); p[0]=0xFA; float t=1; sx_assert(rd(t,p,5),"a single precision item is read"); uint32_t u=(uint32_t)p[1]<<24|p[2]<<16|p[3]<<8|p[4]; sx_assert(bits(t)==u || (isnan_(u) && isnan_(bits(t))),"single precision reads bit-exactly"); }
SX_ENTRY(fp_dd) { u8 p[9]; sx_symbolic(p,9,"p"); p[0]=0xFB; double t=1; sx_assert(rd(t,p,9),"a double precision item is read"); u64 u=0; for (int i=1;i<9;++i) u=u<<8|p[i]; sx_assert(bits(t)==u || (isnan_(u) && isnan_(bits(t))),"double precision reads bit-exactly"); }
SX_ENTRY(fp_fd) { u8 p[5]; sx_symbolic(p,5,"p"); p[0]=0xFA; double t=1; sx_assert(rd(t,p,5),"a single precision item is read into a double"); uint32_t u=(uint32_t)p[1]<<24|p[2]<<16|p[3]<<8|p[4]; float f; memcpy(&f,&u,4); if (isnan_(u)) sx_assert(isnan_(bits(t)),"NaN reads as NaN"); else sx_assert(bits(t)==bits((double)f),"the widened value is exact"); }
SX_ENTRY(fp_df) { u8 p[9]; sx_symbolic(p,9,"p"); p[0]=0xFB; float t=1; bool ok=rd(t,p,9); u64 u=0; for (int i=1;i<9;++i) u=u<<8|p[i]; double d; memcpy(&d,&u,8); sx_assert(ok,"a double precision item is read into a float"); if (isnan_(u)) sx_assert(isnan_(bits(t)),"NaN reads as NaN"); else sx_assert(bits(t)==bits((float)d),"the nearest single precision value is stored"); }
// truncated items, reserved and unassigned simple values are rejected
struct Res { bool ok; std::error_condition ec; const u8* end; explicit operator bool() const { return ok; } };
enum { PTR, FWD, INP };
template <int K, typename T> static Res from(T& t, const Buf<>& b) { if constexpr (K==PTR) { auto r=cxon::from_bytes(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } else if constexpr (K==FWD) { auto r=cxon::from_bytes<cxon::CBOR<>>(t,Fwd<u8>(b.p),Fwd<u8>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } else { const u8* p=b.p; auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; } }
template <typename T, int K=PTR> static void bad() { auto b=Buf<>::any(0,10); T t=7; auto r=from<K>(t,b); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input");
    int o=0; Head h=ref_head(b.p,b.n); bool tag=b.n && b[0]>>5==6; if (tag) { if (!h.ok||h.indef) { sx_assert(!r,"a malformed tag is rejected"); return; } o=h.len; h=ref_head(b.p+o,b.n-o); }
    bool num= h.ok && !h.indef && (h.major<2 || (h.major==7 && h.ai>=25)); if (!num) { sx_assert(!r,"anything that is not a number is rejected"); if (!tag && K!=INP) sx_assert(r.end==b.p,"end stays at the offending input"); }
    else if (h.major==7 || h.arg<=0x7FFFFFFFFFFFFFFFull) { sx_assert(bool(r),"a number is read"); sx_assert(r.end==b.p+o+h.len,"end directly behind the item"); if (h.major==7 && h.ai==24+sizeof(T)/4+1) { u64 u=h.arg; sx_assert(bits(t)==decltype(bits(t))(u) || isnan_(decltype(bits(t))(u)),"the bits are assembled big endian"); } else if (!h.major) sx_assert(bits(t)==bits((T)h.arg),"nearest value"); } }
SX_ENTRY(any_f) { bad<float>(); } SX_ENTRY(any_d) { bad<double>(); } SX_ENTRY(fwd_f) { bad<float,FWD>(); } SX_ENTRY(fwd_d) { bad<double,FWD>(); } SX_ENTRY(in_f) { bad<float,INP>(); } SX_ENTRY(in_d) { bad<double,INP>(); }
// integers convert to the nearest value
template <typename T> static void fromint() { u8 p[9]; sx_symbolic(p,9,"p"); int w=(int)sx_range(0,4,"w"), neg=(int)sx_range(0,1,"neg"), n= w ? 1+(1<<(w-1)) : 1; if (!w) { sx_assume(p[0]<24); p[0]|=neg<<5; } else p[0]=u8(neg<<5|(23+w));
    u64 v=0; if (!w) v=p[0]&31; else for (int i=1;i<n;++i) v=v<<8|p[i]; T t=1; bool ok=rd(t,p,n); if (neg) sx_reach("neg"); else sx_reach("pos");
    if (!neg) { sx_assert(ok,"an unsigned integer is read"); sx_assert(bits(t)==bits((T)v),"nearest value"); } else if (v<=0x7FFFFFFFFFFFFFFFull) { sx_assert(ok,"a negative integer is read"); sx_assert(bits(t)==bits((T)(-1-(i64)v)),"nearest value"); } else if (ok) sx_assert(t<=(T)-9.223372036854775807e18,"a negative integer beyond 63 bits is not wrapped"); }
SX_ENTRY(int_f) { fromint<float>(); } SX_ENTRY(int_d) { fromint<double>(); }
template <typename T, typename B> static void rt() { B u=sx_any<B>("bits"); T v; memcpy(&v,&u,sizeof u); u8 o[10]; auto w=cxon::to_bytes(o,o+10,v); sx_assert(bool(w) && w.end==o+1+sizeof(T),"writing succeeds"); sx_assert(o[0]==(sizeof(T)==4?0xFA:0xFB),"head"); for (unsigned i=0;i<sizeof(T);++i) sx_assert(o[1+i]==u8(u>>(8*(sizeof(T)-1-i))) || isnan_(u),"the bits are written big endian");
    T t=1; sx_assert(rd(t,(const u8*)o,1+sizeof(T)),"reads back"); sx_assert(bits(t)==bits(v) || (isnan_(bits(v)) && isnan_(bits(t))),"the value read back is the value written"); sx_reach("done"); }
SX_ENTRY(rt_f) { rt<float,uint32_t>(); } SX_ENTRY(rt_d) { rt<double,u64>(); }
