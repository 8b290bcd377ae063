//@std 20
//@bounds one tag head in every encoding (direct, 1, 2, 4 or 8 byte numbers) with any number, in front of any payload of 0..N bytes (quick N=3, thorough N=4), against the same payload without the tag, for each readable kind; reserved and truncated tag heads with any number; the tag interface with any tag number of 8, 32 and 64 bits, read and written
//@assume the payload does not begin with a tag itself (readers take one tag); booleans and null take no tag (either outcome)
//@reach tr_*: ok rejected
//@reach bad_*: reserved truncated
//@reach tg_*: tagged untagged
#include "h_cbor.h"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/node.hxx"
struct Cl { unsigned a=1, b=2; bool operator==(const Cl& o) const { return a==o.a && b==o.b; } };
CXON_CBOR_CLS_READ(Cl, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))
enum class En { a=1, b=40 };
CXON_CBOR_ENM(En, CXON_CBOR_ENM_VALUE_NAME(1,a), CXON_CBOR_ENM_VALUE_NAME(40,b))
template <typename T> static bool eq(const T& a, const T& b) { return a==b; }
static bool eq(double a, double b) { u64 x,y; memcpy(&x,&a,8); memcpy(&y,&b,8); return x==y; } static bool eq(float a, float b) { unsigned x,y; memcpy(&x,&a,4); memcpy(&y,&b,4); return x==y; }
static bool eq(const std::complex<float>& a, const std::complex<float>& b) { return eq(a.real(),b.real()) && eq(a.imag(),b.imag()); }
template <typename T> static void tr(int maxn) {
    int k=(int)sx_range(0,4,"form"), h= k ? 1+(1<<(k-1)) : 1; int n=(int)sx_range(0,maxn,"n"); Buf<> b(h+n); sx_assume(k ? b.p[0]==(u8)(0xC0+23+k) : (b.p[0]>=0xC0 && b.p[0]<0xC0+24)); if (n) sx_assume((b[h]>>5)!=6);
    T t{}, u{}; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); auto q=cxon::from_bytes<cxon::CBOR<>>(u,b.p+h,b.p+h+n);
    sx_assert(bool(r)==bool(q),"accepted exactly when the untagged item is"); sx_assert(bool(r)==!r.ec,"result agrees with its error code");
    if (r && q) { sx_reach("ok"); sx_assert(r.end==q.end,"the same end"); sx_assert(eq(t,u),"the same value"); } else sx_reach("rejected"); }
#define TR(name,n,...) SX_ENTRY(tr_##name) { tr<__VA_ARGS__>((int)sx_bound(n,n+1)); }
TR(u8,3,unsigned char) TR(int,3,int) TR(ull,3,unsigned long long) TR(dbl,9,double) TR(flt,5,float) TR(str,3,std::string) TR(vec,3,std::vector<unsigned short>) TR(arr,3,std::array<u8,2>) TR(map,3,std::map<u8,u8>) TR(set,3,std::set<u8>) TR(tup,3,std::tuple<u8,int>) TR(pair,3,std::pair<u8,u8>) TR(cplx,4,std::complex<float>) TR(var,3,std::variant<u8,std::string>) TR(opt,3,std::optional<unsigned>) TR(bits,4,std::bitset<9>) TR(enm,3,En) TR(ch,3,char) TR(tup0,3,std::tuple<>)
SX_ENTRY(tr_cls) { int k=(int)sx_range(0,4,"form"), h= k ? 1+(1<<(k-1)) : 1; Buf<> b(h+5); sx_assume(k ? b.p[0]==(u8)(0xC0+23+k) : (b.p[0]>=0xC0 && b.p[0]<0xC0+24)); sx_assume(b[h]==0xA1 && b[h+1]==0x62 && b[h+3]==0); Cl t, u; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); auto q=cxon::from_bytes<cxon::CBOR<>>(u,b.begin()+h,b.end()); sx_assert(bool(r)==bool(q),"accepted exactly when the untagged item is"); if (r && q) { sx_reach("ok"); sx_assert(r.end==q.end && t==u,"the same value and end"); } else sx_reach("rejected"); }
SX_ENTRY(tr_ptr) { int k=(int)sx_range(0,4,"form"), h= k ? 1+(1<<(k-1)) : 1; int n=(int)sx_range(0,3,"n"); Buf<> b(h+n); sx_assume(k ? b.p[0]==(u8)(0xC0+23+k) : (b.p[0]>=0xC0 && b.p[0]<0xC0+24)); if (n) sx_assume((b[h]>>5)!=6); std::unique_ptr<unsigned> t, u; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); auto q=cxon::from_bytes<cxon::CBOR<>>(u,b.begin()+h,b.end()); if (n && b[h]==0xF6) { sx_assume(bool(r) && bool(q)); return; } sx_assert(bool(r)==bool(q),"accepted exactly when the untagged item is"); if (r && q) { sx_reach("ok"); sx_assert(r.end==q.end && t && u && *t==*u,"the same value and end"); } else sx_reach("rejected"); }
SX_ENTRY(tr_jnode) { int k=(int)sx_range(0,4,"form"), h= k ? 1+(1<<(k-1)) : 1; int n=(int)sx_range(0,2,"n"); Buf<> b(h+n); sx_assume(k ? b.p[0]==(u8)(0xC0+23+k) : (b.p[0]>=0xC0 && b.p[0]<0xC0+24)); if (n) sx_assume((b[h]>>5)!=6); cxon::json::node t, u; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); auto q=cxon::from_bytes<cxon::CBOR<>>(u,b.begin()+h,b.end()); sx_assert(bool(r)==bool(q),"accepted exactly when the untagged item is"); if (r && q) { sx_reach("ok"); sx_assert(r.end==q.end && t==u,"the same value and end"); } else sx_reach("rejected"); }
// reserved and truncated heads
template <typename T> static void bad() { bool res=sx_range(0,1,"reserved"); if (res) { int n=(int)sx_range(1,3,"n"); Buf<> b(n); sx_assume(b.p[0]>=0xDC && b.p[0]<=0xDF); T t{}; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); sx_reach("reserved"); sx_assert(!r && r.ec,"a malformed tag is rejected"); return; }
    int k=(int)sx_range(0,3,"width"), n=(int)sx_range(0,1<<k,"n"); Buf<> b(1+n); sx_assume(b.p[0]==(u8)(0xC0+24+k)); T t{}; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); sx_reach("truncated"); sx_assert(!r && r.ec,"a truncated tag is rejected"); }
SX_ENTRY(bad_int) { bad<int>(); } SX_ENTRY(bad_flt) { bad<double>(); } SX_ENTRY(bad_str) { bad<std::string>(); } SX_ENTRY(bad_vec) { bad<std::vector<int>>(); } SX_ENTRY(bad_map) { bad<std::map<int,int>>(); } SX_ENTRY(bad_tup) { bad<std::tuple<int,int>>(); } SX_ENTRY(bad_cls) { bad<Cl>(); } SX_ENTRY(bad_tg) { bad<cxon::cbor::taggle<unsigned,int>>(); } SX_ENTRY(bad_node) { bad<cxon::cbor::node>(); } SX_ENTRY(bad_jnode) { bad<cxon::json::node>(); } SX_ENTRY(bad_opt) { bad<std::optional<int>>(); } SX_ENTRY(bad_bits) { bad<std::bitset<9>>(); }
// the tag interface
template <typename N> static void tg() { int k=(int)sx_range(0,5,"form"), h= k==5 ? 0 : k ? 1+(1<<(k-1)) : 1; Buf<> b(h+2); if (k!=5) sx_assume(k ? b.p[0]==(u8)(0xC0+23+k) : (b.p[0]>=0xC0 && b.p[0]<0xC0+24)); sx_assume(b[h]==0x18); u64 a= k ? 0 : b[0]&31; if (k<5) for (int i=1;i<h;++i) a=(a<<8)|b[i];
    cxon::cbor::taggle<N,unsigned> t; auto r=cxon::from_bytes<cxon::CBOR<>>(t,b.begin(),b.end()); if (k==5) { sx_reach("untagged"); sx_assert(bool(r) && t.tag==N(-1) && t.value==b[1],"no tag: the value"); return; }
    sx_reach("tagged"); if (h-1<=(int)sizeof(N)) sx_assert(bool(r),"any number that fits is read"); if (r) { sx_assert((u64)t.tag==a,"the tag number"); sx_assert(t.value==b[h+1] && r.end==b.p+h+2,"the value and the end"); } }
SX_ENTRY(tg_8) { tg<unsigned char>(); } SX_ENTRY(tg_32) { tg<unsigned>(); } SX_ENTRY(tg_64) { tg<unsigned long long>(); }
template <typename N> static void tgw() { N n=sx_any<N>("tag"); sx_assume(n!=N(-1)); unsigned v=sx_any<unsigned char>("v"); cxon::cbor::taggle<N,unsigned> t(n,v), u; std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); sx_reach("tagged"); sx_reach("untagged"); u8 e[16]; int k=ref_put_head(e,6,n); k+=ref_put_head(e+k,0,v); sx_assert((int)o.size()==k,"tag head and value (size)"); bool same=true; for (int i=0;i<k && i<(int)o.size();++i) same&= (u8)o[i]==e[i]; sx_assert(same,"tag head and value"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && u==t,"reads back with the same number"); }
SX_ENTRY(tg_w8) { tgw<unsigned char>(); } SX_ENTRY(tg_w32) { tgw<unsigned>(); } SX_ENTRY(tg_w64) { tgw<unsigned long long>(); }
SX_ENTRY(tg_node) { u64 n=sx_any<u64>("tag"); unsigned v=sx_any<unsigned char>("v"); sx_reach("tagged"); sx_reach("untagged"); u8 e[16]; int k=ref_put_head(e,6,n); k+=ref_put_head(e+k,0,v); sx_assume(n!=~0ull); cxon::cbor::node t; u8* p=(u8*)malloc(k); for (int i=0;i<k;++i) p[i]=e[i]; auto r=cxon::from_bytes<cxon::CBOR<>>(t,p,p+k); sx_assert(bool(r) && t.is<cxon::cbor::node::tag>(),"a tag node"); auto& g=t.get<cxon::cbor::node::tag>(); sx_assert(g.tag==n && g.value.is<cxon::cbor::node::uint>() && g.value.get<cxon::cbor::node::uint>()==v,"number and value"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); bool same= (int)o.size()==k; for (int i=0;same && i<k;++i) same&= (u8)o[i]==e[i]; sx_assert(same,"written back to the same bytes"); free(p); }
