//@std 20
//@bounds output range of 0..n+1 bytes for every output of n bytes: integers (all values of 8/16 bit types, 256 values at the low end of 64 bit), special floating-point values, bool, null, narrow strings of 0..2 (thorough 3) and UTF-16 strings of 0..1 (thorough 2) arbitrary code units, single char32_t, vectors, map, tuple, pair, optional, bitset, variant, array, class with a default-omitted member, enum with a name that needs escaping; strings, lists and bitsets of 24..300 elements with rooms at the start, at the end, 255 and 256; ranges over char and unsigned char
//@reach *: fit full
#include "h_num.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/array.hxx"
// unbounded output as the reference; then every range size 0..size+1
template <typename T> static void one(const T& v) {
    std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"unbounded output succeeds"); int n=(int)o.size();
    int k=(int)sx_range(0,n+1,"room"); char* p=(char*)malloc(k+2); p[k]=p[k+1]=0x5A; for (int i=0;i<k;++i) p[i]=0x5A;
    auto w=cxon::to_bytes(p,p+k,v); int m=int(w.end-p);
    sx_assert(bool(w)==!w.ec,"result agrees with its error code"); sx_assert(bool(w)==(k>=n),"succeeds exactly when the output fits"); sx_assert(m>=0 && m<=k,"end stays inside the range"); sx_assert(p[k]==0x5A && p[k+1]==0x5A,"nothing is written behind the range");
    if (w) { sx_reach("fit"); sx_assert(m==n,"end is one past the last byte written"); } else { sx_reach("full"); sx_assert(w.ec==cxon::json::write_error::output_failure,"the error is the output failure"); }
    bool eq=true; for (int i=0;i<m;++i) eq&= p[i]==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(p);
    // a range of exactly k bytes: any access behind it is an error of its own
    // (of unsigned characters)
    u8* q=(u8*)malloc(k); auto x=cxon::to_bytes<cxon::JSON<>>(q,q+k,v); sx_assert(bool(x)==(k>=n) && bool(x)==!x.ec,"exact range"); int l=int(x.end-q); sx_assert(l>=0 && l<=k && (!x || l==n),"end stays inside the range"); for (int i=0;i<l;++i) eq&= char(q[i])==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(q); sx_out("n",n); }
template <typename T> static void num() { one(sx_any<T>("v")); }
SX_ENTRY(i64) { one<long long>(-9223372036854775807ll+sx_any<u8>("v")); } SX_ENTRY(fspec) { int k=(int)sx_range(0,2,"k"); one(k==2 ? std::numeric_limits<double>::quiet_NaN() : k ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity()); } SX_ENTRY(i16) { num<short>(); } SX_ENTRY(u8_) { num<unsigned char>(); } SX_ENTRY(c) { num<char>(); }  SX_ENTRY(b) { one(bool(sx_any<u8>("b")&1)); } SX_ENTRY(nul) { one(nullptr); }
SX_ENTRY(str) { auto b=Buf<char>::any(0,(int)sx_bound(2,3)); one(std::string(b.p,b.n)); }
SX_ENTRY(ustr) { auto b=Buf<char16_t>::any(0,(int)sx_bound(1,2)); one(std::u16string(b.p,b.n)); }
SX_ENTRY(chr) { one(sx_any<char32_t>("c")); }
SX_ENTRY(bytes) { auto b=Buf<u8>::any(0,3); one(std::vector<u8>(b.begin(),b.end())); }
SX_ENTRY(cstr) { auto b=Buf<char>::any(0,(int)sx_bound(2,3)); char s[4]; int n=b.n; for (int i=0;i<n;++i) { s[i]=b[i]; sx_assume(s[i]!=0); } s[n]=0; one((const char*)s); }
SX_ENTRY(vec) { int n=(int)sx_range(0,2,"n"); std::vector<unsigned short> v; for (int i=0;i<n;++i) v.push_back(i ? 7 : sx_any<unsigned short>("e")); one(v); }
SX_ENTRY(vstr) { std::vector<std::string> v(2); v[0]="ab"; v[1].assign(1,sx_any<char>("c")); one(v); }
SX_ENTRY(map_) { std::map<u8,short> m; m[sx_any<u8>("k")]=sx_any<signed char>("v"); one(m); }
SX_ENTRY(tup) { one(std::make_tuple(sx_any<u8>("a"),true,std::string("x"))); } SX_ENTRY(par) { one(std::make_pair(sx_any<short>("a"),sx_any<signed char>("b"))); }
SX_ENTRY(opt) { std::optional<short> o; if (sx_range(0,1,"has")) o=sx_any<short>("v"); one(o); } SX_ENTRY(bits) { one(std::bitset<11>(sx_any<unsigned short>("v"))); }
SX_ENTRY(var) { std::variant<short,bool> v; if (sx_range(0,1,"alt")) v=true; else v=sx_any<short>("v"); one(v); }
SX_ENTRY(arr) { std::array<signed char,2> a{{sx_any<signed char>("a"),-1}}; one(a); }
struct S { int a; short b; }; 
CXON_JSON_CLS(S, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS_DFLT(b, self.b==0))
SX_ENTRY(cls) { S s{sx_any<signed char>("a"),(short)sx_any<u8>("b")}; one(s); }
enum class En { x=3, y=400 };
CXON_JSON_ENM(En, CXON_JSON_ENM_VALUE_NAME("th\"ree",x), CXON_JSON_ENM_VALUE_NAME("y",y))
SX_ENTRY(enm) { one(sx_range(0,1,"e") ? En::x : En::y); }
// sizes around the limits of 8 bit counters: the rooms around the start and around the end
template <typename T> static void szr(const T& v) { std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"unbounded output succeeds"); int n=(int)o.size(), w=(int)sx_range(0,7,"room"), k= w<3 ? w : w<6 ? n-1+(w-4) : w==6 ? 255 : 256; if (k>n+1) k=n+1; char* p=(char*)malloc(k); auto r=cxon::to_bytes(p,p+k,v); int m=int(r.end-p); sx_assert(bool(r)==(k>=n) && bool(r)==!r.ec,"succeeds exactly when the output fits"); sx_assert(m>=0 && m<=k && (!r || m==n),"end stays inside the range"); if (r) sx_reach("fit"); else sx_reach("full"); bool eq=true; for (int i=0;i<m;++i) eq&= p[i]==o[i]; sx_assert(eq,"the range holds the same bytes as unbounded output"); free(p); }
SX_ENTRY(sz_str) { std::string s((size_t)size8(),'a'); s[s.size()-1]=sx_any<char>("c"); szr(s); } SX_ENTRY(sz_ustr) { std::u16string s((size_t)size8(),u'a'); s[s.size()-1]=sx_any<u8>("c"); szr(s); } SX_ENTRY(sz_vec) { int n=size8(); std::vector<short> v; for (int i=0;i<n;++i) v.push_back(short(i*11-700)); v[n-1]=sx_any<signed char>("e"); szr(v); }
SX_ENTRY(sz_bits) { std::bitset<300> b; b[299]=sx_range(0,1,"b")!=0; b[255]=1; szr(b); }
