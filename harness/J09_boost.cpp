//@std 20 11
//@bounds boost: variant, variant2 and dynamic bit sets; inputs of 0..N bytes (quick N=5, thorough N=7), every byte symbolic; bit sets of 0..5 and around 64 and 128 bits with symbolic bits (the others fixed)
//@reach db*: ok bad
//@reach var v2: ok bad
//@reach w_*: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/variant.hxx"
#if __cplusplus>=201402L
#include "cxon/lib/boost/variant2.hxx"
#endif
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; } bool operator !=(const E& o) const { return v!=o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='A' && *i<='Z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
static char ltr(const char* n) { char c=sx_any<char>(n); sx_assume(c>='A' && c<='Z'); return c; }
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <int K, typename X=cxon::JSON<>, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes<X>(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes<X>(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes<X>(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
static int N() { return (int)sx_bound(5,7); }
static void agree(const Buf<char>& b, const Res& r) { sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); }
using DB=boost::dynamic_bitset<>; using D8=boost::dynamic_bitset<unsigned char>;
// a string of binary digits, the first is the highest bit
template <int K, typename T> static void db_(const Buf<char>& b, T v=T()) { size_t m=v.size(); T o(v); Res r=from<K>(v,b); agree(b,r); int i=ref_ws(b.p,b.n), f=i+1, e=f; bool ok= i<b.n && b.p[i]=='"'; if (ok) { while (e<b.n && (b.p[e]&~1)=='0') ++e; ok= e<b.n && b.p[e]=='"'; } sx_assert(r.ok==ok,"accepted exactly if it is a string of bits"); if (ok) { sx_reach("ok"); sx_assert(v.size()==size_t(e-f)+m,"as many bits"); bool eq=true; for (int j=f;j<e;++j) eq&= v[e-1-j]==(b.p[j]=='1'); for (size_t j=0;j<m;++j) eq&= v[e-f+j]==o[j]; sx_assert(eq,"each bit at its place"); sx_assert(r.end==b.p+e+1,"end directly behind the string"); } else sx_reach("bad"); }
SX_ENTRY(db) { db_<PTR>(Buf<char>::any(0,N()),DB()); } SX_ENTRY(db8) { db_<FWD>(Buf<char>::any(0,N()),D8()); } SX_ENTRY(db_inp) { db_<INP>(Buf<char>::any(0,N()-1),DB()); }
static Buf<char> bitstr(int n, int at) { Buf<char> b(n+2); for (int i=0;i<b.n;++i) b.p[i]= i==0 || i==n+1 ? '"' : '0'+(i*5%3&1); for (int i=0;i<3;++i) if (at+i>0 && at+i<=n) b.p[at+i]=sx_any<char>("bit"); return b; }
SX_ENTRY(db8_long) { int n=(int)sx_range(6,26,"n"); db_<PTR>(bitstr(n,(int)sx_range(0,2,"at")*(n-3)/2+1),D8()); }
SX_ENTRY(db_64) { int n=(int)sx_range(63,66,"n"); db_<PTR>(bitstr(n,(int)sx_range(0,2,"at")*(n-3)/2+1),DB()); } SX_ENTRY(db_128) { int n=(int)sx_range(127,130,"n"); db_<PTR>(bitstr(n,(int)sx_range(0,2,"at")*(n-3)/2+1),DB()); } SX_ENTRY(db_192) { int n=(int)sx_range(190,194,"n"); db_<PTR>(bitstr(n,(int)sx_range(0,2,"at")*(n-3)/2+1),DB()); }
template <typename T> static void w_db(int lo, int hi) { T v; int n=(int)sx_range(lo,hi,"n"); for (int i=0;i<n;++i) v.push_back((i*5%3&1)!=0); for (int i=0;i<3 && i<n;++i) v[i*(n-1)/2]=sx_any<bool>("bit"); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); sx_assert((int)o.size()==n+2 && o[0]=='"' && o[n+1]=='"',"a string"); bool eq=true; for (int i=0;i<n;++i) eq&= o[1+i]==(v[n-1-i] ? '1' : '0'); sx_assert(eq,"of its bits, the highest first"); T u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); sx_reach("done"); }
SX_ENTRY(w_db) { w_db<DB>(0,5); } SX_ENTRY(w_db64) { w_db<DB>(63,66); } SX_ENTRY(w_db128) { w_db<DB>(127,130); } SX_ENTRY(w_db8) { w_db<D8>(0,18); }
// variants
static int lit(const char* p, int n, int i, const char* s) { int k=0; for (;s[k];++k) if (i+k>=n || p[i+k]!=s[k]) return -1; return i+k; }
static int list(const char* p, int n, int i) { i=ref_ws(p,n,i+1); if (i<n && p[i]==']') return i+1; for (;;) { i=ref_ws(p,n,i); if (i>=n || p[i]<'A' || p[i]>'Z') return -1; i=ref_ws(p,n,i+1); if (i>=n) return -1; if (p[i]==']') return i+1; if (p[i]!=',') return -1; ++i; } }
template <typename V, int K, typename W> static void var_(const Buf<char>& b, V v, W which) { Res r=from<K>(v,b); agree(b,r); const char* p=b.p; int n=b.n, f=ref_ws(p,n), l=-1, k=-1; if (f<n) switch (p[f]) { case 't': l=lit(p,n,f,"true"); k=0; break; case 'f': l=lit(p,n,f,"false"); k=0; break; case '"': l=ref_string(p,n,f); k=2; break; case '[': l=list(p,n,f); k=3; break; case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': k=1; break; }
    if (k==1) { if (r.ok) { sx_assert(which(v)==1 && r.end>p+f,"a number"); for (const char* q=p+f;q<r.end;++q) sx_assert(*q>='0' && *q<='9',"only its digits"); } return; }
    sx_assert(r.ok==(l>=0),"accepted exactly if it is a value of an alternative"); if (r.ok) { sx_reach("ok"); sx_assert(which(v)==k,"the alternative of its kind"); sx_assert(r.end==p+l,"end directly behind the value"); } else { sx_reach("bad"); sx_assert(which(v)==1,"the target is untouched"); } }
template <typename V> static V some() { V v; switch (sx_range(0,3,"k")) { case 0: v=sx_range(0,1,"b")!=0; break; case 1: v=sx_any<unsigned char>("n"); break; case 2: { std::string s((size_t)sx_range(0,1,"l"),'x'); for (auto& c : s) { c=sx_any<char>("c"); sx_assume(c>=0); } v=s; break; } case 3: v=std::vector<E>((size_t)sx_range(0,2,"l"),E(ltr("v"))); break; } return v; }
template <typename V, typename W> static void w_var(const V& v, W which) { std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); V u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(which(u)==which(v) && u==v,"to the same alternative and value"); sx_reach("done"); }
using V1=boost::variant<bool,unsigned char,std::string,std::vector<E>>; struct W1 { template <typename V> int operator ()(const V& v) const { return v.which(); } };
SX_ENTRY(var) { V1 v=(unsigned char)200; var_<V1,PTR>(Buf<char>::any(0,N()),v,W1()); } SX_ENTRY(w_var) { w_var(some<V1>(),W1()); }
using A1=boost::variant<short,long,E>;
SX_ENTRY(w_amb) { A1 v; switch (sx_range(0,2,"k")) { case 0: v=short(sx_any<signed char>("n")); break; case 1: v=long(sx_any<signed char>("n")); break; case 2: v=E(ltr("v")); break; } w_var(v,W1()); }
SX_ENTRY(amb_idx) { const char* in[]={"{\"","\":7}"}; std::string s(in[0]); char k=sx_any<char>("k"); s+=k; s+=in[1]; A1 v=E('z'); auto r=cxon::from_bytes(v,s); sx_assert(bool(r)==(k=='0' || k=='1'),"only the index of an alternative that takes the value"); if (r) sx_assert(v.which()==k-'0',"the alternative of the index"); else sx_assert(r.ec && v.which()==2,"the target is untouched"); }
SX_ENTRY(w_rec) { boost::recursive_wrapper<E> v(E(ltr("v"))), u; std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u.get()==v.get(),"reads back"); sx_reach("done"); }
#if __cplusplus>=201402L
using V2=boost::variant2::variant<bool,unsigned char,std::string,std::vector<E>>; struct W2 { template <typename V> int operator ()(const V& v) const { return (int)v.index(); } };
SX_ENTRY(v2) { V2 v=(unsigned char)200; var_<V2,PTR>(Buf<char>::any(0,N()),v,W2()); } SX_ENTRY(w_v2) { w_var(some<V2>(),W2()); }
using A2=boost::variant2::variant<short,boost::variant2::monostate,long>;
SX_ENTRY(w_amb2) { A2 v; switch (sx_range(0,2,"k")) { case 0: v=short(sx_any<signed char>("n")); break; case 1: v=boost::variant2::monostate(); break; case 2: v=long(sx_any<signed char>("n")); break; } w_var(v,W2()); }
SX_ENTRY(amb2_idx) { std::string s("{\""); char k=sx_any<char>("k"); s+=k; s+= sx_range(0,1,"nul") ? "\":null}" : "\":7}"; A2 v=long(9); auto r=cxon::from_bytes(v,s); bool nul=s[4]=='n' || s[5]=='n'; bool ok= nul ? k=='1' : k=='0' || k=='2'; sx_assert(bool(r)==ok,"only the index of an alternative that takes the value"); if (r) sx_assert((int)v.index()==k-'0',"the alternative of the index"); }
#endif
