//@std 20 11
//@bounds every value of every integral type (char, signed/unsigned char, wchar_t, char16_t, char32_t, short, int, long, long long and unsigned), bool, null; range, vector and iterator output; read back into the same type
//@reach i_*: small byte
//@reach bool_null: done
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include <vector>
template <typename T> static void one() {
    T v=sx_any<T>("v"); u8 e[10]; int k;
    constexpr bool quantum=std::is_same<T,char>::value || std::is_same<T,wchar_t>::value; using U=typename std::make_unsigned<T>::type;
    // character types are code units: written as their unsigned value
    if (std::is_signed<T>::value && !quantum && v<0) k=ref_put_head(e,1,(u64)(-1-(i64)v)); else k=ref_put_head(e,0,(u64)(U)v);
    if (k==1) sx_reach("small"); else sx_reach("byte");
    u8 o[10]; for (int i=0;i<10;++i) o[i]=0xA5;
    auto w=cxon::to_bytes(o,o+sizeof o,v);
    sx_assert(bool(w) && !w.ec,"writing an integer succeeds"); sx_assert(w.end-o==k,"the encoding has the shortest length");
    for (int i=0;i<k;++i) sx_assert(o[i]==e[i],"the encoding is the shortest RFC 7049 encoding of the value");
    T b=T(1); auto r=cxon::from_bytes(b,(const u8*)o,(const u8*)o+k); sx_assert(bool(r),"the encoding reads back"); sx_assert(r.end==o+k,"the encoding is consumed in full"); sx_assert(b==v,"the value read back is the value written");
    sx_out("v",(i64)b); }
#define TY(n,T) SX_ENTRY(i_##n) { one<T>(); }
TY(c,char) TY(u8,unsigned char) TY(i8,signed char) TY(u16,unsigned short) TY(i16,short) TY(u32,unsigned) TY(i32,int) TY(u64,unsigned long) TY(i64,long) TY(ull,unsigned long long) TY(ll,long long) TY(c16,char16_t) TY(c32,char32_t) TY(w,wchar_t)
SX_ENTRY(bool_null) {
    bool b=sx_any<u8>("b")&1, c=!b; u8 o[2]={0,0}; auto w=cxon::to_bytes(o,o+2,b); sx_assert(bool(w) && w.end==o+1,"one byte"); sx_assert(o[0]==(b?0xF5:0xF4),"the simple value of the boolean");
    auto r=cxon::from_bytes(c,(const u8*)o,(const u8*)o+1); sx_assert(bool(r) && r.end==o+1 && c==b,"the boolean reads back");
    std::nullptr_t z=nullptr; auto x=cxon::to_bytes(o,o+2,z); sx_assert(bool(x) && x.end==o+1 && o[0]==0xF6,"null"); auto q=cxon::from_bytes(z,(const u8*)o,(const u8*)o+1); sx_assert(bool(q) && q.end==o+1,"null reads back"); sx_reach("done"); }
// anything else is not a boolean / null
SX_ENTRY(bool_in) { auto b=Buf<>::any(0,2); bool t=false; auto r=cxon::from_bytes(t,b.begin(),b.end()); bool ok=b.n && (b[0]==0xF4||b[0]==0xF5); sx_assert(bool(r)==ok && bool(r)==!r.ec,"exactly the two simple values are booleans"); if (ok) sx_assert(t==(b[0]==0xF5) && r.end==b.p+1,"value"); else sx_assert(r.end==b.p,"end stays at the offending input");
    std::nullptr_t z; auto q=cxon::from_bytes(z,b.begin(),b.end()); sx_assert(bool(q)==(b.n && b[0]==0xF6),"exactly one simple value is null"); sx_assert(q.end==b.p+(q?1:0),"end"); }
SX_ENTRY(i_out) { i64 v=sx_any<i64>("v"); u8 e[10]; int k=v<0 ? ref_put_head(e,1,(u64)(-1-v)) : ref_put_head(e,0,(u64)v); if (k==1) sx_reach("small"); else sx_reach("byte");
    std::vector<u8> s; sx_assert(bool(cxon::to_bytes(s,v)),"vector output succeeds"); sx_assert((int)s.size()==k,"same length"); std::vector<u8> t(1,0x77); auto w=cxon::to_bytes(std::back_inserter(t),v); sx_assert(bool(w) && (int)t.size()==k+1,"iterator output"); for (int i=0;i<k;++i) sx_assert(s[i]==e[i] && t[i+1]==e[i],"same bytes");
    i64 b=0; auto r=cxon::from_bytes(b,Fwd<u8>(s.data()),Fwd<u8>(s.data()+k)); sx_assert(bool(r) && b==v && r.end.p==s.data()+k,"reads back through forward iterators"); const u8* p=s.data(); auto q=cxon::from_bytes(b,Inp<u8>(&p,s.data()+k),Inp<u8>::end_of(s.data()+k)); sx_assert(bool(q) && b==v && p==s.data()+k,"reads back through single-pass iterators"); }
