//@std 20
//@bounds output range of 0..N bytes (N=14 quick, 24 thorough) for integers (all values of 16/32/64 bit types), bool, null, float, double, text/byte strings of 0..4 symbolic elements, vector of ints, bool vector, map, tuple, pair, optional, bitset, class with a default-omitted member, enum, nullptr, byte containers list/forward_list/deque/set/valarray of 0..3 elements; containers of 24..300 elements with rooms around the head and the end; ranges over unsigned char and char
//@reach *: fit full
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/valarray.hxx"
// unbounded output as the reference; then every range size 0..size+1
template <typename T> static void one(const T& v) {
    std::vector<u8> o; sx_assert(bool(cxon::to_bytes(o,v)),"unbounded output succeeds"); int n=(int)o.size();
    int k=(int)sx_range(0,n+1,"room"); u8* p=(u8*)malloc(k+2); p[k]=p[k+1]=0x5A; for (int i=0;i<k;++i) p[i]=0x5A;
    auto w=cxon::to_bytes(p,p+k,v); int m=int(w.end-p);
    sx_assert(bool(w)==!w.ec,"result agrees with its error code"); sx_assert(bool(w)==(k>=n),"succeeds exactly when the output fits"); sx_assert(m>=0 && m<=k,"end stays inside the range"); sx_assert(p[k]==0x5A && p[k+1]==0x5A,"nothing is written behind the range");
    if (w) { sx_reach("fit"); sx_assert(m==n,"end is one past the last byte written"); } else { sx_reach("full"); sx_assert(w.ec==cxon::cbor::write_error::output_failure,"the error is the output failure"); }
    bool eq=true; for (int i=0;i<m;++i) eq&= p[i]==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(p);
    // a range of exactly k bytes: any access behind it is an error of its own
    // (of plain characters)
    char* q=(char*)malloc(k); auto x=cxon::to_bytes<cxon::CBOR<>>(q,q+k,v); sx_assert(bool(x)==(k>=n) && bool(x)==!x.ec,"exact range"); int l=int(x.end-q); sx_assert(l>=0 && l<=k && (!x || l==n),"end stays inside the range"); for (int i=0;i<l;++i) eq&= u8(q[i])==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(q); sx_out("n",n); }
template <typename T> static void num() { one(sx_any<T>("v")); }
SX_ENTRY(i64) { num<long long>(); } SX_ENTRY(u32) { num<unsigned>(); } SX_ENTRY(i16) { num<short>(); } SX_ENTRY(u8_) { num<unsigned char>(); } SX_ENTRY(c) { num<char>(); } SX_ENTRY(d) { num<double>(); } SX_ENTRY(f) { num<float>(); } SX_ENTRY(b) { one(bool(sx_any<u8>("b")&1)); } SX_ENTRY(nul) { one(nullptr); }
SX_ENTRY(str) { auto b=Buf<char>::any(0,4); one(std::string(b.p,b.n)); }
SX_ENTRY(str24) { int n=(int)sx_range(23,25,"n"); Buf<char> b(n); one(std::string(b.p,b.n)); }
SX_ENTRY(bytes) { auto b=Buf<u8>::any(0,4); one(std::vector<u8>(b.begin(),b.end())); }
SX_ENTRY(cstr) { auto b=Buf<char>::any(0,3); char s[4]; int n=b.n; for (int i=0;i<n;++i) { s[i]=b[i]; sx_assume(s[i]!=0); } s[n]=0; one((const char*)s); }
SX_ENTRY(vec) { int n=(int)sx_range(0,2,"n"); std::vector<unsigned short> v; for (int i=0;i<n;++i) v.push_back(sx_any<unsigned short>("e")); one(v); }
SX_ENTRY(vstr) { std::vector<std::string> v(2); v[0]="ab"; v[1].assign(1,sx_any<char>("c")); one(v); }
SX_ENTRY(map_) { std::map<u8,short> m; m[sx_any<u8>("k")]=sx_any<short>("v"); m[sx_any<u8>("k2")]=1; one(m); }
SX_ENTRY(tup) { one(std::make_tuple(sx_any<u8>("a"),true,std::string("x"))); } SX_ENTRY(par) { one(std::make_pair(sx_any<short>("a"),sx_any<float>("b"))); }
SX_ENTRY(opt) { std::optional<short> o; if (sx_range(0,1,"has")) o=sx_any<short>("v"); one(o); } SX_ENTRY(bits) { one(std::bitset<11>(sx_any<unsigned short>("v"))); }
SX_ENTRY(var) { std::variant<short,bool> v; if (sx_range(0,1,"alt")) v=true; else v=sx_any<short>("v"); one(v); }
SX_ENTRY(arr) { std::array<short,2> a{{sx_any<short>("a"),sx_any<short>("b")}}; one(a); }
struct S { int a; short b; }; 
CXON_CBOR_CLS(S, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS_DFLT(b, self.b==0))
SX_ENTRY(cls) { S s{sx_any<int>("a"),sx_any<short>("b")}; one(s); }
enum class En { x=3, y=400 };
CXON_CBOR_ENM(En, CXON_CBOR_ENM_VALUE_NAME(3,x), CXON_CBOR_ENM_VALUE_NAME(400,y))
SX_ENTRY(enm) { one(sx_range(0,1,"e") ? En::x : En::y); }
// byte and element blocks from non-contiguous containers
template <typename C> static void cont() { using T=typename C::value_type; C c; int n=(int)sx_range(0,3,"n"); for (int i=0;i<n;++i) c.insert(c.end(),sx_any<T>("e")); one(c); }
SX_ENTRY(lst) { cont<std::list<u8>>(); } SX_ENTRY(lstc) { cont<std::list<char>>(); } SX_ENTRY(dq) { cont<std::deque<u8>>(); } SX_ENTRY(lsti) { std::list<u8> l; l.push_back(sx_any<u8>("e")); std::list<short> c(1,sx_any<short>("s")); one(c); }
SX_ENTRY(fl) { std::forward_list<u8> c; int n=(int)sx_range(0,3,"n"); for (int i=0;i<n;++i) c.push_front(sx_any<u8>("e")); one(c); }
SX_ENTRY(sets) { std::set<u8> c; c.insert(1); c.insert(200); if (sx_range(0,1,"m")) c.insert(7); one(c); }
SX_ENTRY(vala) { int n=(int)sx_range(0,2,"n"); std::valarray<u8> c(n); for (int i=0;i<n;++i) c[i]=sx_any<u8>("e"); one(c); } SX_ENTRY(vals) { int n=(int)sx_range(0,2,"n"); std::valarray<short> c(n); for (int i=0;i<n;++i) c[i]=sx_any<short>("e"); one(c); }
// sizes around the limits of 8 bit counters: the rooms around the head and around the end
template <typename T> static void szr(const T& v) { std::vector<u8> o; sx_assert(bool(cxon::to_bytes(o,v)),"unbounded output succeeds"); int n=(int)o.size(); static const int ds[]={0,1,2,3,4,5}; int w=(int)sx_range(0,7,"room"), k= w<4 ? w : n-2+(w-4); (void)ds; u8* p=(u8*)malloc(k); auto r=cxon::to_bytes(p,p+k,v); int m=int(r.end-p); sx_assert(bool(r)==(k>=n) && bool(r)==!r.ec,"succeeds exactly when the output fits"); sx_assert(m>=0 && m<=k && (!r || m==n),"end stays inside the range"); if (r) sx_reach("fit"); else sx_reach("full"); bool eq=true; for (int i=0;i<m;++i) eq&= p[i]==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(p); }
SX_ENTRY(sz_str) { Buf<char> b(size8()); szr(std::string(b.p,b.n)); } SX_ENTRY(sz_list) { Buf<> b(size8()); szr(std::list<u8>(b.begin(),b.end())); } SX_ENTRY(sz_vec) { int n=size8(); std::vector<short> v; for (int i=0;i<n;++i) v.push_back(short(i*11-700)); v[n-1]=sx_any<short>("e"); szr(v); }
