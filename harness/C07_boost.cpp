//@std 20 11
//@bounds boost dynamic bit sets and variants: inputs of 0..N bytes (quick N=5, thorough N=7), every byte symbolic, targets with previous bits; written bit sets of 0..10 and 63..66 bits with symbolic bits, all alternatives
//@reach db* var v2: ok rejected
//@reach w_*: done
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/variant.hxx"
#if __cplusplus>=201402L
#include "cxon/lib/boost/variant2.hxx"
#endif
using B=cxon::CBOR<>;
using DB=boost::dynamic_bitset<>; using D8=boost::dynamic_bitset<unsigned char>;
template <typename T> static T some(int n) { T t; for (int i=0;i<n;++i) t.push_back((i*5%3&1)!=0); for (int i=0;i<3 && i<n;++i) t[i*(n-1)/2]=sx_any<bool>("bit"); return t; }
template <typename T> static T old_bits(int n) { T t; for (int i=0;i<n;++i) t.push_back(i!=1); return t; }
template <typename T, typename I, typename F> static void db_(T t, const Buf<>& b, I f, I l, F at) {
    int o=0; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } if (h.ok && h.indef && h.major==2) return;
    if (h.ok && h.major==2) for (int i=o+h.len+1;i<b.n;++i) sx_assume((b[i]&0xB6)==0x24); // three symbolic bits a byte
    bool ok= h.ok && !h.indef && h.major==2 && h.arg>0 && h.arg<=u64(b.n-o-h.len); int m=0, s=0; if (ok) { o+=h.len; s=b[o]; m=(int)h.arg-1; ok= s<8 && (m || !s); ++o; }
    T old(t); int c=(int)t.size(); auto r=cxon::from_bytes<B>(t,f,l); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(at(r.end)>=0 && at(r.end)<=b.n,"end inside the input"); sx_assert(bool(r)==ok,"accepted exactly if it is a bit set");
    if (ok) { sx_reach("ok"); sx_assert(at(r.end)==o+m,"end directly behind the item"); sx_assert((int)t.size()==m*8-s+c,"as many bits"); bool eq=true; for (int i=0;i<m*8-s;++i) eq&= t[i]==((b[o+m-1-i/8]>>(i%8)&1)!=0); for (int i=0;i<c;++i) eq&= t[m*8-s+i]==old[i]; sx_assert(eq,"exactly the encoded bits"); } else sx_reach("rejected"); }
static int N() { return (int)sx_bound(5,7); }
SX_ENTRY(db) { auto b=Buf<>::any(0,N()); db_(old_bits<DB>((int)sx_range(0,1,"old")*3),b,b.begin(),b.end(),[&](const u8* p) { return int(p-b.p); }); } SX_ENTRY(db8) { auto b=Buf<>::any(0,N()-1); db_(old_bits<D8>((int)sx_range(0,1,"old")*3),b,b.begin(),b.end(),[&](const u8* p) { return int(p-b.p); }); } SX_ENTRY(db_fwd) { auto b=Buf<>::any(0,N()-2); db_(DB(),b,Fwd<u8>(b.p),Fwd<u8>(b.p+b.n),[&](Fwd<u8> p) { return int(p.p-b.p); }); } SX_ENTRY(db_inp) { auto b=Buf<>::any(0,N()-2); const u8* p=b.p; db_(DB(),b,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n),[&](const Inp<u8>&) { return int(p-b.p); }); }
SX_ENTRY(db_long) { int m=(int)sx_range(7,18,"m"); Buf<> b(m+2); b.p[0]=0x40+m+1; b.p[1]=u8(sx_range(0,8,"pad")); for (int i=0;i<m;++i) if (i!=m/2) b.p[2+i]=u8(0x24|((i*37)&0x49)); db_(DB(),b,b.begin(),b.end(),[&](const u8* p) { return int(p-b.p); }); }
template <typename T> static void w_db(T v) { int n=(int)v.size(), m=(n+7)/8; std::string o; sx_assert(bool(cxon::to_bytes<B>(o,v)),"written"); sx_assert((int)o.size()==m+2 && (u8)o[0]==0x40+1+m && (u8)o[1]==m*8-n,"head and padding"); T u; auto r=cxon::from_bytes<B>(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); sx_reach("done"); }
SX_ENTRY(w_db) { w_db(some<DB>((int)sx_range(0,10,"n"))); } SX_ENTRY(w_db8) { w_db(some<D8>((int)sx_range(0,10,"n"))); } SX_ENTRY(w_db64) { w_db(some<DB>((int)sx_range(63,66,"n"))); }
// variants: [ index, value ]
using V1=boost::variant<bool,unsigned char,std::string>; struct W1 { template <typename V> int operator ()(const V& v) const { return v.which(); } template <int I, typename V> static auto get(const V& v) -> decltype(boost::get<I>(v)) { return boost::get<I>(v); } };
template <typename V, typename W> static void var_(V v, W which, bool two) { auto b=Buf<>::any(0,N()); const u8* p=b.p; int n=b.n; auto r=cxon::from_bytes<B>(v,b.begin(),b.end()); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end>=p && r.end<=p+n,"end inside the input"); if (n==0 || (p[0]>>5)==6) return; if (r) sx_reach("ok"); else sx_reach("rejected");
    if (p[0]!=0x82) { if (r) { Head h=ref_head(p,n); sx_assert(h.ok && !h.indef && h.major==4 && h.arg==2,"a list of two"); } return; } if (n<3 || (p[1]>>5)!=0 || (p[1]&31)>=24) return; int k=p[1]&31; sx_assert(k<3 || !r,"the index of an alternative"); if (!r) return; sx_assert(which(v)==k,"the alternative of the index"); if (k==0) sx_assert((p[2]&~1)==0xF4 && r.end==p+3,"a boolean"); if (k==1 && p[2]<24) sx_assert(r.end==p+3,"a number"); (void)two; }
SX_ENTRY(var) { V1 v=(unsigned char)200; var_(v,W1(),false); }
template <typename V, typename W> static void w_var(const V& v, W which) { std::string o; sx_assert(bool(cxon::to_bytes<B>(o,v)),"written"); sx_assert((u8)o[0]==0x82 && (u8)o[1]==which(v),"a list of the index and the value"); V u; auto r=cxon::from_bytes<B>(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(which(u)==which(v) && u==v,"to the same alternative and value"); sx_reach("done"); }
template <typename V> static V alt() { V v; switch (sx_range(0,2,"k")) { case 0: v=sx_range(0,1,"b")!=0; break; case 1: v=sx_any<unsigned char>("n"); break; case 2: { std::string s((size_t)sx_range(0,2,"l"),'x'); for (auto& c : s) c=sx_any<char>("c"); v=s; break; } } return v; }
SX_ENTRY(w_var) { w_var(alt<V1>(),W1()); }
SX_ENTRY(w_rec) { boost::recursive_wrapper<int> v(sx_any<int>("v")), u; std::string o; sx_assert(bool(cxon::to_bytes<B>(o,v)),"written"); auto r=cxon::from_bytes<B>(u,o); sx_assert(bool(r) && r.end==o.end() && u.get()==v.get(),"reads back"); sx_reach("done"); }
#if __cplusplus>=201402L
using V2=boost::variant2::variant<bool,unsigned char,std::string>; struct W2 { template <typename V> int operator ()(const V& v) const { return (int)v.index(); } };
SX_ENTRY(v2) { V2 v=(unsigned char)200; var_(v,W2(),true); } SX_ENTRY(w_v2) { w_var(alt<V2>(),W2()); }
using A2=boost::variant2::variant<short,boost::variant2::monostate,short>; SX_ENTRY(w_amb2) { A2 v; switch (sx_range(0,2,"k")) { case 0: v.emplace<0>(sx_any<short>("n")); break; case 1: v.emplace<1>(); break; case 2: v.emplace<2>(sx_any<short>("n")); break; } w_var(v,W2()); }
#endif
