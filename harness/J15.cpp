//@std 20 11
//@bounds any_*: every byte string of 0..N bytes (N=4 quick, 6 thorough) into double and float, with the default and the bare form of the special values, through pointers (default and strict numbers), forward and single-pass iterators; near_*: eight started numbers and 3 (4) symbolic characters of numbers behind; tok_*: -d.ddde+-ddd with symbolic digits and an arbitrary character behind; range_*: exponents of 1..3 symbolic digits; spec_*: every special value cut anywhere and one character changed; long_*: tokens of 60..66 characters around the buffer of the iterator readers and with num_len_max 4; w_*: every special value and, for finite ones, every bit pattern (C++20)
//@assume the conversions of the C++ library (std::from_chars, strtod, std::to_chars) are modelled by stubs that honour their contract: extent of the token, special values, out of range, a value that is a function of the token, the longest text of the precision, reading back what was written with full precision; exponents within 3 of the limits of the type are left out; numbers with superfluous leading zeros are not judged
//@reach any_*: ok bad
//@reach tok_*: ok
//@reach range_*: ok out
//@reach spec_*: ok bad
//@reach long_*: ok over
//@reach w_*: fin inf nan
#include "h_num.h"
#if __cplusplus>=201703L
#include <charconv>
#endif
#include <cerrno>
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
struct strict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
struct bare : cxon::json::format_traits { static constexpr bool allow_javascript_nans = true; };
struct bare_strict : strict { static constexpr bool allow_javascript_nans = true; };
enum { PTR, STRICT, FWD, INP };
template <typename T> struct Res { bool ok; std::error_condition ec; int end; T t; };
template <int M, bool JS, typename T> static Res<T> rd(const char* p, int n) { Res<T> s; s.t=T(-77);
    using X=cxon::JSON<typename std::conditional<M==STRICT,typename std::conditional<JS,bare_strict,strict>::type,typename std::conditional<JS,bare,cxon::json::format_traits>::type>::type>;
    if (M==PTR || M==STRICT) { auto r=cxon::from_bytes<X>(s.t,p,p+n); s.ok=bool(r); s.ec=r.ec; s.end=int(r.end-p); } else if (M==FWD) { auto r=cxon::from_bytes<X>(s.t,Fwd<>(p),Fwd<>(p+n)); s.ok=bool(r); s.ec=r.ec; s.end=int(r.end.p-p); } else { const char* q=p; auto r=cxon::from_bytes<X>(s.t,Inp<>(&q,p+n),Inp<>::end_of(p+n)); s.ok=bool(r); s.ec=r.ec; s.end=int(q-p); }
    sx_assert(s.ok==!s.ec,"result agrees with its error code"); sx_assert(s.end>=0 && s.end<=n,"end inside the input"); sx_assert(!s.ec || s.ec==cxon::json::read_error::floating_point_invalid || s.ec==cxon::json::read_error::overflow,"the error is the floating-point error"); return s; }
// the converter of the C++ library, applied to exactly [f,l)
template <typename T> struct Conv { bool all, range; T v; };
#if __cplusplus>=201703L
template <typename T> static Conv<T> conv(const char* f, const char* l) { Conv<T> c; c.v=T(0); auto r=std::from_chars(f,l,c.v); c.range= r.ec==std::errc::result_out_of_range; c.all= r.ec==std::errc() && r.ptr==l; return c; }
#else
static double cv_(const char* s, double) { return strtod(s,nullptr); } static float cv_(const char* s, float) { return strtof(s,nullptr); }
template <typename T> static Conv<T> conv(const char* f, const char* l) { Conv<T> c; char s[80]; int n=int(l-f); memcpy(s,f,n); s[n]=0; int e=errno; errno=0; c.v=cv_(s,T(0)); c.range= errno==ERANGE && (c.v==0 || c.v>std::numeric_limits<T>::max() || c.v<std::numeric_limits<T>::lowest()); errno=e; c.all=!c.range; return c; }
#endif
template <typename T> static bool same(T a, T b) { return a!=a ? b!=b : !memcmp(&a,&b,sizeof a); }
// special values: end of one at i or -1
static int word(const char* p, int n, int i, const char* s) { for (;*s;++s,++i) if (i>=n || p[i]!=*s) return -1; return i; }
template <bool JS> static int spec(const char* p, int n, int i, bool& neg, bool& nan) { neg=nan=false; int k;
    if (JS) { if (i<n && p[i]=='-') neg=true, ++i; if ((k=word(p,n,i,"Infinity"))>=0) return k; nan=true; return word(p,n,i,"NaN"); }
    if (i>=n || p[i]!='"') return -1; ++i; if (i<n && p[i]=='-') neg=true, ++i; if ((k=word(p,n,i,"inf\""))>=0) return k; nan=true; return word(p,n,i,"nan\""); }
template <typename T> static bool is_spec(T t, bool neg, bool nan) { return nan ? t!=t : t==(neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity()); }
static bool numch(char c) { return (c>='0' && c<='9') || c=='.' || c=='e' || c=='E' || c=='+' || c=='-'; }
// maximal prefix in the RFC grammar; -1: none; dead: the text goes on as a number but is none (1.x)
static int rfc(const char* p, int n, int i, bool& dead) { dead=false; if (i<n && p[i]=='-') ++i; if (i>=n) return -1; if (p[i]=='0') ++i; else { int e=ref_digits(p,n,i); if (e==i) return -1; i=e; }
    if (i<n && p[i]=='.') { int e=ref_digits(p,n,i+1); if (e==i+1) { dead=true; return i; } i=e; }
    if (i<n && (p[i]=='e' || p[i]=='E')) { int k=i+1; if (k<n && (p[k]=='+' || p[k]=='-')) ++k; int e=ref_digits(p,n,k); if (e==k) { dead=true; return i; } i=e; }
    return i; }
template <int M, bool JS, typename T> static Res<T> go(const Buf<char>& b, int room=63) { auto r=rd<M,JS,T>(b.p,b.n); const char* p=b.p; int n=b.n, f=ref_ws(p,n); bool neg, nan; int s=spec<JS>(p,n,f,neg,nan);
    if (r.ok) sx_reach("ok"); else sx_reach("bad"); if (s>=0) { if (s-f>room && M>=FWD) return r; sx_assert(r.ok,"a special value is read"); sx_assert(r.end==s,"the end is behind it"); sx_assert(is_spec(r.t,neg,nan),"as its kind of value"); return r; }
    bool dead; int e=rfc(p,n,f,dead);
    if (M==PTR) { // the converter decides the extent: the token is what it takes, and a clearly delimited number is taken whole
        if (r.ok) { auto c=conv<T>(p+f,p+r.end); sx_assert(c.all,"exactly a number is taken"); sx_assert(same(r.t,c.v),"the value is the converted value"); }
        if (e>=0 && !dead && (e==n || !numch(p[e]))) { auto c=conv<T>(p+f,p+e); if (c.range) { sx_reach("out"); sx_assert(!r.ok,"a number out of range is rejected"); } else { sx_assert(r.ok,"a number is read"); sx_assert(r.end==e,"the end is behind it"); } }
        if (f<n && p[f]=='"') sx_assert(!r.ok,"another string is rejected"); return r; }
    if (e<0 || dead) { if (M==STRICT || f>=n || e-f<=room) sx_assert(!r.ok,"what is not a number is rejected"); return r; }
    int d=f+(p[f]=='-'); if (p[d]=='0' && d+1<n && p[d+1]>='0' && p[d+1]<='9') return r; // superfluous zeros
    if (M!=STRICT && e-f>room) { sx_reach("over"); sx_assert(!r.ok && r.ec==cxon::json::read_error::overflow,"a number longer than the buffer is rejected as overflow"); return r; }
    auto c=conv<T>(p+f,p+e); if (c.range) { sx_reach("out"); sx_assert(!r.ok,"a number out of range is rejected"); if (M!=INP) sx_assert(r.end==f,"the end is at the number"); return r; }
    sx_assert(r.ok,"a number is read"); sx_assert(r.end==e,"the end is behind it"); sx_assert(same(r.t,c.v),"the value is the converted value"); return r; }
#define ALLM(n,...) SX_ENTRY(n##_ptr) { go<PTR,false,double>(__VA_ARGS__); } SX_ENTRY(n##_strict) { go<STRICT,false,double>(__VA_ARGS__); } SX_ENTRY(n##_fwd) { go<FWD,false,double>(__VA_ARGS__); } SX_ENTRY(n##_inp) { go<INP,false,double>(__VA_ARGS__); } SX_ENTRY(n##_js_ptr) { go<PTR,true,double>(__VA_ARGS__); } SX_ENTRY(n##_js_strict) { go<STRICT,true,double>(__VA_ARGS__); } SX_ENTRY(n##_js_inp) { go<INP,true,double>(__VA_ARGS__); } SX_ENTRY(n##_f_ptr) { go<PTR,false,float>(__VA_ARGS__); } SX_ENTRY(n##_f_fwd) { go<FWD,false,float>(__VA_ARGS__); }
static Buf<char> any() { return Buf<char>::any(0,(int)sx_bound(4,6)); }
ALLM(any,any())
// [-]d.dde[+-]ddd and an arbitrary character
static Buf<char> tok() { char s[16]; int n=0; if (sx_range(0,1,"neg")) s[n++]='-'; int w=(int)sx_range(1,2,"whole"), f=(int)sx_range(0,2,"frac"), x=(int)sx_range(0,2,"exp"), g= x ? (int)sx_range(0,2,"sign") : 0; for (int i=0;i<w;++i) s[n++]='d'; if (f) s[n++]='.'; for (int i=0;i<f;++i) s[n++]='d'; if (x) { s[n++]='e'; if (g) s[n++]= g==1 ? '+' : '-'; } for (int i=0;i<x;++i) s[n++]='d'; s[n++]='?';
    Buf<char> b(n); for (int i=0;i<n-1;++i) if (s[i]=='d') b.p[i]=ref_dig(b.p[i]); else b.p[i]=s[i]; sx_assume(b[n-1]>=' '); int d=b[0]=='-'; if (w>1) sx_assume(b[d]!='0'); return b; }
SX_ENTRY(tok_ptr) { go<PTR,false,double>(tok()); } SX_ENTRY(tok_strict) { go<STRICT,false,double>(tok()); } SX_ENTRY(tok_fwd) { go<FWD,false,double>(tok()); } SX_ENTRY(tok_inp) { go<INP,false,float>(tok()); } SX_ENTRY(tok_js) { go<PTR,true,double>(tok()); } SX_ENTRY(tok_f) { go<STRICT,true,float>(tok()); }
static Buf<char> exps() { int g=(int)sx_range(0,1,"sign"), x=(int)sx_range(1,3,"exp"), z=(int)sx_range(0,1,"frac"); int n=2*z+2+g+x; Buf<char> b(n); int k=0; b.p[k++]= '0'+(u8)sx_range(0,1,"d"); if (z) { b.p[k++]='.'; b.p[k++]='7'; } b.p[k++]='E'; if (g) b.p[k++]='-'; while (k<n) { b.p[k]=ref_dig(b.p[k]); ++k; } return b; }
#define RNG(n,M,T) SX_ENTRY(range_##n) { go<M,false,T>(exps()); }
RNG(ptr,PTR,double) RNG(strict,STRICT,double) RNG(fwd,FWD,double) RNG(inp,INP,double) RNG(ptr_f,PTR,float) RNG(fwd_f,FWD,float)
template <bool JS> static Buf<char> special() { static const char* w[2][4]={{"\"inf\"","\"-inf\"","\"nan\"","\"-nan\""},{"Infinity","-Infinity","NaN","-NaN"}}; const char* s=w[JS][sx_range(0,3,"w")]; int l=(int)strlen(s), n=(int)sx_range(0,l+1,"len"), at=(int)sx_range(0,n,"at"); Buf<char> b(n); for (int i=0;i<n;++i) if (i!=at) b.p[i]= i<l ? s[i] : ']'; return b; }
SX_ENTRY(spec_ptr) { go<PTR,false,double>(special<false>()); } SX_ENTRY(spec_strict) { go<STRICT,false,float>(special<false>()); } SX_ENTRY(spec_fwd) { go<FWD,false,double>(special<false>()); } SX_ENTRY(spec_inp) { go<INP,false,float>(special<false>()); }
SX_ENTRY(spec_js_ptr) { go<PTR,true,double>(special<true>()); } SX_ENTRY(spec_js_strict) { go<STRICT,true,float>(special<true>()); } SX_ENTRY(spec_js_fwd) { go<FWD,true,double>(special<true>()); } SX_ENTRY(spec_js_inp) { go<INP,true,double>(special<true>()); }
// a started number, then characters of numbers in any order
static Buf<char> near() { static const char* const w[]={"1e","1.","0E","-0","10","1.2e","-3.0e","0.5"}; const char* s=w[sx_range(0,7,"w")]; int l=(int)strlen(s), k=(int)sx_bound(3,4); Buf<char> b(l+k); for (int i=0;i<l;++i) b.p[i]=s[i]; for (int i=l;i<l+k;++i) sx_assume(numch(b[i]) || b[i]==']'); return b; }
SX_ENTRY(near_ptr) { go<PTR,false,double>(near()); } SX_ENTRY(near_strict) { go<STRICT,false,double>(near()); } SX_ENTRY(near_fwd) { go<FWD,false,double>(near()); } SX_ENTRY(near_inp) { go<INP,false,double>(near()); } SX_ENTRY(near_js) { go<FWD,true,float>(near()); } SX_ENTRY(near_js_strict) { go<STRICT,true,float>(near()); }
// the buffer of the iterator readers
static Buf<char> lng() { int n=(int)sx_range(60,66,"n"), dot=(int)sx_range(0,1,"dot"); Buf<char> b(n); for (int i=0;i<n;++i) if (i!=0 && i!=n-1) b.p[i]='0'+i%10; b.p[0]='1'+((u8)b[0]&7); b.p[n-1]=ref_dig(b[n-1]); if (dot) b.p[1]='.'; return b; }
SX_ENTRY(long_fwd) { go<FWD,false,double>(lng()); } SX_ENTRY(long_inp) { go<INP,false,double>(lng()); }
template <unsigned L> static void lim() { int n=(int)sx_range(1,6,"n"); Buf<char> b(n); for (int i=0;i<n;++i) b.p[i]=ref_dig(b.p[i]); sx_assume(b[0]!='0'); double t=-1; auto r=cxon::from_bytes<cxon::JSON<>>(t,Fwd<>(b.p),Fwd<>(b.p+n),cxon::json::num_len_max::set<L>()); sx_assert(bool(r)==(n<(int)L),"a number shorter than the limit is read"); if (r) { sx_reach("ok"); sx_assert(r.end.p==b.p+n && same(t,conv<double>(b.p,b.p+n).v),"with its value"); } else { sx_reach("over"); sx_assert(r.ec==cxon::json::read_error::overflow,"a longer one is an overflow"); } }
SX_ENTRY(long_lim) { lim<4>(); }
// inside a container
SX_ENTRY(any_vec) { char c=sx_any<char>("c"), d=sx_any<char>("d"); sx_assume((c>='0' && c<='9') || c=='.' || c=='e' || c=='-' || c==',' || c==']'); const char s[]={'[','1',c,d,',','2','.','5',']'}; std::vector<double> v; auto r=cxon::from_bytes<cxon::JSON<strict>>(v,s,s+9); bool dead; int e=rfc(s,9,1,dead); if (r) sx_reach("ok"); else sx_reach("bad"); if (dead) sx_assert(!r,"what is not a number is rejected"); if (r) { sx_assert(v.size()>=1 && same(v[0],conv<double>(s+1,s+e).v),"the first element is the first number"); } }
// writing
#if __cplusplus>=201703L
template <typename T, bool JS> static void wr() { using X=cxon::JSON<typename std::conditional<JS,bare,cxon::json::format_traits>::type>; T v=sx_any<T>("v"); std::string o; auto w=cxon::to_bytes<X>(o,v); sx_assert(bool(w),"written");
    typename std::conditional<sizeof(T)==8,u64,uint32_t>::type u; memcpy(&u,&v,sizeof u); bool neg=u>>(8*sizeof(T)-1); const T mx=std::numeric_limits<T>::max();
    const char* want=nullptr; if (v!=v) { sx_reach("nan"); want= JS ? (neg ? "-NaN" : "NaN") : (neg ? "\"-nan\"" : "\"nan\""); } else if (v>mx || v<-mx) { sx_reach("inf"); want= JS ? (neg ? "-Infinity" : "Infinity") : (neg ? "\"-inf\"" : "\"inf\""); } else sx_reach("fin");
    if (want) sx_assert(o==want,"special values in their documented form"); else sx_assert(ref_number(o.data(),(int)o.size(),0)==(int)o.size(),"a number of the RFC");
    T t=T(3); auto r=cxon::from_bytes<X>(t,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(same(t,v),"to the same value");
    T q=T(3); auto s=cxon::from_bytes<X>(q,Fwd<>(o.data()),Fwd<>(o.data()+o.size())); sx_assert(bool(s) && s.end.p==o.data()+o.size() && same(q,v),"also through a buffer"); }
SX_ENTRY(w_d) { wr<double,false>(); } SX_ENTRY(w_f) { wr<float,false>(); } SX_ENTRY(w_js_d) { wr<double,true>(); } SX_ENTRY(w_js_f) { wr<float,true>(); }
#endif
