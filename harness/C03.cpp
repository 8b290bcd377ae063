//@bounds input of 0..N bytes (quick N=11, thorough N=14), every byte symbolic, every length; at most one leading tag; through pointers, forward and single-pass iterators; targets: all 8..64 bit signed/unsigned types, char16_t, char32_t, short/long/long long
//@reach *: pos tagged truncated unrepresentable reserved other
//@reach i8 i16 i32 i64 ll: neg pos tagged truncated unrepresentable reserved other
//@std 20 11
#include "h_cbor.h"
#include "cxon/cbor.hxx"
// the same item through every iterator category
struct Res { bool ok; std::error_condition ec; const u8* end; explicit operator bool() const { return ok; } };
enum { PTR, FWD, INP };
template <int K, typename T> static Res from(T& t, const Buf<>& b) { if constexpr (K==PTR) { auto r=cxon::from_bytes(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } else if constexpr (K==FWD) { auto r=cxon::from_bytes<cxon::CBOR<>>(t,Fwd<u8>(b.p),Fwd<u8>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } else { const u8* p=b.p; auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; } }
template <typename T, int K=PTR> static void rd() {
    auto b=Buf<>::any(0,(int)sx_bound(11,19));
    T t=T(1);
    auto r=from<K>(t,b);
    // reference
    int o=0; Head h=ref_head(b.p,b.n); bool bad=false;
    if (b.n && (b[0]>>5)==6) { if (!h.ok || h.indef) bad=true; else { o=h.len; h=ref_head(b.p+o,b.n-o); sx_reach("tagged"); } }
    if (!bad && h.ok && !h.indef && h.major<2) {
        bool neg=h.major==1; int w= h.ai<24? 1 : 1<<(h.ai-24);
        // 8-bit targets take the byte as it is (the project's tests pin this for arrays of signed char)
        bool fits= neg ? (std::is_signed<T>::value && h.arg<=(u64)std::numeric_limits<T>::max()) : h.arg<=(u64)(sizeof(T)==1 ? 0xFF : std::numeric_limits<T>::max());
        T v= neg ? T(-1-(i64)h.arg) : T(h.arg);
        if (fits && w<=(int)sizeof(T)) {
            if (neg) sx_reach("neg"); else sx_reach("pos");
            sx_assert(bool(r),"a representable integer is read");
            sx_assert(t==v,"the value read is the encoded value");
            sx_assert(r.end==b.p+o+h.len,"end is directly behind the item");
        }
        else { sx_reach("unrepresentable"); if (r) { sx_assert(fits,"an integer the target cannot hold is rejected"); sx_assert(t==v,"the value read is the encoded value"); } }
    }
    else {
        if (b.n>o && (b[o]&31)>27) sx_reach("reserved"); else if (b.n>o && (b[o]>>5)<2) sx_reach("truncated"); else sx_reach("other");
        sx_assert(!r,"anything else is rejected");
    }
    sx_assert(bool(r)==!r.ec,"result agrees with its error code");
    sx_out("ok",bool(r)); if (r) sx_out("v",(i64)t);
}
SX_ENTRY(fwd_u16) { rd<unsigned short,FWD>(); } SX_ENTRY(fwd_i64) { rd<long,FWD>(); } SX_ENTRY(in_i16) { rd<short,INP>(); } SX_ENTRY(in_u32) { rd<unsigned,INP>(); } SX_ENTRY(in_u64) { rd<unsigned long,INP>(); } SX_ENTRY(fwd_i8) { rd<signed char,FWD>(); }
#define TY(n,T) SX_ENTRY(n) { rd<T>(); }
TY(u8,uint8_t) TY(i8,signed char) TY(u16,unsigned short) TY(i16,short) TY(u32,unsigned) TY(i32,int) TY(u64,unsigned long) TY(i64,long) TY(ull,unsigned long long) TY(ll,long long) TY(c16,char16_t) TY(c32,char32_t)
