//@std 20 11
//@bounds one-member inputs of 0..N bytes (quick N=6, thorough N=8) with every byte symbolic; two- and three-member objects with key texts of 0..2 (thorough 0..3) symbolic bytes and symbolic one-letter values (read_value extension point); escaped keys with symbolic hex digits; keys of 62..66 bytes at the identifier buffer limit; skipped values of up to 5 (thorough 7) symbolic bytes; written classes with every combination of suppressed members; maps with up to 2 members and of 24..300 members; a class of 20 members with every pair of keys and all keys in every rotated order, with and without a repeated one; names of 8 and 42 characters with one of them symbolic, cut anywhere or one longer; pointers, forward and single-pass iterators
//@reach one one_fwd one_inp nt one_map: ok empty bad
//@reach two: ok dup unknown bad
//@reach w_*: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_map.hxx"
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; } bool operator !=(const E& o) const { return v!=o.v; } bool operator <(const E& o) const { return v<o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='a' && *i<='z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
struct A1 { E a; }; CXON_JSON_CLS(A1, CXON_JSON_CLS_FIELD_ASIS(a))
struct A3 { E a, ab, b; }; CXON_JSON_CLS(A3, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(ab), CXON_JSON_CLS_FIELD_ASIS(b))
struct P3 { E x, y, z; CXON_JSON_CLS_MEMBER(P3, CXON_JSON_CLS_FIELD_NAME("",x), CXON_JSON_CLS_FIELD_NAME("k",y), CXON_JSON_CLS_FIELD_NAME("kk",z)) };
struct NT { E x, y; }; CXON_JSON_CLS_NONTRIVIAL_KEY(NT) CXON_JSON_CLS(NT, CXON_JSON_CLS_FIELD_NAME("\"",x), CXON_JSON_CLS_FIELD_NAME("\xC3\xA9",y))
struct SK { E a, b; }; CXON_JSON_CLS(SK, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("s"), CXON_JSON_CLS_FIELD_ASIS(b))
struct DF { E a, b, c; }; CXON_JSON_CLS(DF, CXON_JSON_CLS_FIELD_ASIS_DFLT(a, self.a.v=='d'), CXON_JSON_CLS_FIELD_ASIS_DFLT(b, self.b.v=='d'), CXON_JSON_CLS_FIELD_ASIS_DFLT(c, self.c.v=='d'))
struct NE { A1 p; E q; }; CXON_JSON_CLS(NE, CXON_JSON_CLS_FIELD_ASIS(p), CXON_JSON_CLS_FIELD_ASIS(q))
struct MU : cxon::json::format_traits { static constexpr bool assume_unique_object_keys=false; };
struct QK : cxon::json::format_traits { static constexpr bool quote_unquoted_keys=true; };
struct TS : cxon::json::format_traits { static constexpr bool allow_trailing_separators=true; };
#define K64 "0123456789012345678901234567890123456789012345678901234567890123"
struct LK { E a, b; }; CXON_JSON_CLS(LK, CXON_JSON_CLS_FIELD_NAME("012345678901234567890123456789012345678901234567890123456789ab",a), CXON_JSON_CLS_FIELD_NAME("012345678901234567890123456789012345678901234567890123456789abc",b))
struct LX { E a, b; }; CXON_JSON_CLS(LX, CXON_JSON_CLS_FIELD_NAME(K64,a), CXON_JSON_CLS_FIELD_NAME("b",b))
struct XR { E a; char nm[72]; int n=-1;
    template <typename X, typename II, typename Cx> static bool read_field(XR& t, const char* name, size_t nale, II& i, II e, Cx& cx) { t.n=(int)nale; for (size_t k=0;k<=nale;++k) t.nm[k]=name[k]; return cxon::read_value<X>(t.a,i,e,cx); } };
CXON_JSON_CLS(XR, CXON_JSON_CLS_FIELD_ASIS(a))
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <int K, typename X=cxon::JSON<>, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes<X>(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes<X>(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes<X>(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
// reference: { "key" : letter , ... }; kp/kn = the key texts, vs = the values
struct Doc { bool ok; int n, pos, kp[4]; Txt k[4]; char v[4]; };
static void ref_doc(const char* p, int n, Doc& d, bool trail=false) { d.ok=false; d.n=0; int i=ref_ws(p,n,0); d.pos=i; if (i==n || p[i]!='{') return; i=ref_ws(p,n,i+1); d.pos=i; if (i<n && p[i]=='}') { d.pos=i+1; d.ok=true; return; }
    for (;;) { i=ref_ws(p,n,i); d.pos=i; if (i==n) return; if (trail && d.n && p[i]=='}') { d.pos=i+1; d.ok=true; return; } int j=ref_string(p,n,i,&d.k[d.n]); if (j<0) return; d.kp[d.n]=i; i=ref_ws(p,n,j); d.pos=i; if (i==n || p[i]!=':') return; i=ref_ws(p,n,i+1); d.pos=i; if (i==n || p[i]<'a' || p[i]>'z') return; d.v[d.n++]=p[i]; i=ref_ws(p,n,i+1); d.pos=i; if (i==n) return; if (p[i]=='}') { d.pos=i+1; d.ok=true; return; } if (p[i]!=',') return; ++i; } }
static bool is(const Txt& t, const char* s) { int n=0; while (s[n]) ++n; if (t.n!=n) return false; bool e=true; for (int i=0;i<n;++i) e&= t.c[i]==(unsigned char)s[i]; return e; }
static int fld(const Txt& t, const char* const* fs, int m) { for (int f=0;f<m;++f) if (is(t,fs[f])) return f; return -1; }
// applies the document to the fields: value per field (0 = untouched); the position of the first bad key or -1
static bool bind(const Doc& d, const char* const* fs, int m, char* v, int& bad, bool& unk, bool multi=false) { bad=-1; unk=false; for (int f=0;f<m;++f) v[f]=0; for (int k=0;k<d.n;++k) { int f=fld(d.k[k],fs,m); if (f<0) { bad=d.kp[k]; unk=true; return false; } if (v[f] && !multi) { bad=d.kp[k]; return false; } v[f]=d.v[k]; } return true; }
template <typename T, int K, typename X=cxon::JSON<>> static void doc(const Buf<char>& b, E T::* const* ms, const char* const* fs, int m, bool multi=false, bool trail=false) { T t; for (int f=0;f<m;++f) t.*ms[f]=E('0'+f); Res r=from<K,X>(t,b); Doc d; ref_doc(b.p,b.n,d,trail); char v[4]; int bad; bool unk; sx_assert(r.ok==!r.ec,"result agrees with its error code");
    bool bd=bind(d,fs,m,v,bad,unk,multi);
    sx_assert(r.ok==(d.ok && bd),"accepted exactly if it is an object of known, different keys"); sx_out("ok",r.ok);
    if (r.ok) { sx_reach(d.n ? "ok" : "empty"); sx_assert(r.end==b.p+d.pos,"end directly behind the object"); bool eq=true; for (int f=0;f<m;++f) eq&= t.*ms[f]==E(v[f] ? v[f] : '0'+f); sx_assert(eq,"each member has the value of its key, the others are untouched"); }
    else { if (!bd) sx_reach(unk ? "unknown" : "dup"); sx_reach("bad"); if (!bd && K!=INP) sx_assert(r.end==b.p+bad && r.ec==cxon::json::read_error::unexpected,"end at the unknown or repeated key"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); } }
static E A1::* const m1[]={&A1::a}; static const char* const f1[]={"a"};
static E A3::* const m3[]={&A3::a,&A3::ab,&A3::b}; static const char* const f3[]={"a","ab","b"};
static E P3::* const mp[]={&P3::x,&P3::y,&P3::z}; static const char* const fp[]={"","k","kk"};
static int N() { return (int)sx_bound(6,8); }
SX_ENTRY(one) { doc<P3,PTR>(Buf<char>::any(0,N()),mp,fp,3); } SX_ENTRY(one_fwd) { doc<P3,FWD>(Buf<char>::any(0,N()),mp,fp,3); } SX_ENTRY(one_inp) { doc<P3,INP>(Buf<char>::any(0,N()),mp,fp,3); }
static std::string txt(const Txt& t) { std::string s; char b[4]; for (int i=0;i<t.n;++i) { int k=ref_put_utf8(b,t.c[i]); s.append(b,k); } return s; }
struct Mk { Buf<char> b; int n; Mk() : b(96), n(0) {} void s(const char* x) { while (*x) b.p[n++]=*x++; } void c(char x) { b.p[n++]=x; } void letter() { char x=sx_any<char>("v"); sx_assume(x>='a' && x<='z'); c(x); } void any(int k) { for (int i=0;i<k;++i) c(sx_any<char>("k")); } Buf<char> done() { Buf<char> r(n); for (int i=0;i<n;++i) r.p[i]=b.p[i]; return r; } };
static int KL() { return (int)sx_bound(2,3); }
SX_ENTRY(two) { Mk m; m.s("{\""); m.any((int)sx_range(0,KL(),"k1")); m.s("\":"); m.letter(); m.s(",\""); m.any((int)sx_range(0,KL(),"k2")); m.s("\":"); m.letter(); m.s("}"); doc<A3,PTR>(m.done(),m3,f3,3); }
SX_ENTRY(two_p) { Mk m; m.s("{\""); m.any((int)sx_range(0,2,"k1")); m.s("\":"); m.letter(); m.s(",\""); m.any((int)sx_range(0,2,"k2")); m.s("\":"); m.letter(); m.s("}"); doc<P3,FWD>(m.done(),mp,fp,3); }
// keys of the fields, in any order and number, three members
template <typename T, int K> static void three(E T::* const* ms, const char* const* fs) { Mk m; m.s("{"); for (int k=0;k<3;++k) { if (k) m.s(","); m.s("\""); m.s(fs[sx_range(0,2,"f")]); m.s("\":"); m.letter(); } m.s("}"); doc<T,K>(m.done(),ms,fs,3); }
SX_ENTRY(three_a) { three<A3,PTR>(m3,f3); } SX_ENTRY(three_p) { three<P3,INP>(mp,fp); }
SX_ENTRY(multi) { Mk m; m.s("{"); for (int k=0;k<3;++k) { if (k) m.s(","); m.s("\""); m.s(f3[sx_range(0,2,"f")]); m.s("\":"); m.letter(); } m.s("}"); doc<A3,PTR,cxon::JSON<MU>>(m.done(),m3,f3,3,true); }
SX_ENTRY(trail) { Mk m; m.s("{\"a\":"); m.letter(); m.any((int)sx_range(0,3,"n")); m.s("}"); doc<A1,PTR,cxon::JSON<TS>>(m.done(),m1,f1,1,false,true); }
SX_ENTRY(tail) { Mk m; m.s("{\"a\":"); m.letter(); m.any((int)sx_range(0,4,"n")); doc<A1,PTR>(m.done(),m1,f1,1); }
SX_ENTRY(tail2) { Mk m; m.s("{\"a\":"); m.letter(); m.s(",\"b\""); m.any((int)sx_range(0,4,"n")); doc<A3,FWD>(m.done(),m3,f3,3); }
// escaped spellings of keys
template <int K> static void esc() { Mk m; m.s("{\""); if (sx_range(0,1,"pre")) m.s("a"); m.s("\\u"); m.any(4); m.s("\":"); m.letter(); m.s("}"); doc<A3,K>(m.done(),m3,f3,3); }
SX_ENTRY(esc_ptr) { esc<PTR>(); } SX_ENTRY(esc_inp) { esc<INP>(); }
SX_ENTRY(esc_two) { Mk m; m.s("{\"\\u0061"); m.any((int)sx_range(0,1,"k")); m.s("\":"); m.letter(); m.s(",\"a"); m.any((int)sx_range(0,1,"l")); m.s("\\u006"); m.any(1); m.s("\":"); m.letter(); m.s("}"); doc<A3,PTR>(m.done(),m3,f3,3); }
SX_ENTRY(esc_none) { Mk m; m.s("{\"\\"); m.any(1); m.s("\":"); m.letter(); m.s("}"); doc<P3,PTR>(m.done(),mp,fp,3); }
static E NT::* const mn[]={&NT::x,&NT::y};
SX_ENTRY(nt) { auto b= sx_range(0,1,"form") ? Buf<char>::any(0,N()) : [] { Mk m; m.s("{\""); m.any((int)sx_range(1,2,"k")); m.s("\":"); m.letter(); m.s("}"); return m.done(); }(); NT t; t.x=E('0'); t.y=E('1'); Res r=from<PTR>(t,b); Doc d; ref_doc(b.p,b.n,d); int q=-1; if (d.n==1) { q= d.k[0].n!=1 ? -1 : d.k[0].c[0]=='"' ? 0 : d.k[0].c[0]==0xE9 ? 1 : -1; }
    bool ok= d.ok && (d.n==0 || q>=0); sx_assert(r.ok==ok,"accepted exactly if it is an object of known keys"); if (ok) { sx_reach(d.n ? "ok" : "empty"); sx_assert(r.end==b.p+d.pos,"end directly behind the object"); sx_assert(t.x==E(q==0 ? d.v[0] : '0') && t.y==E(q==1 ? d.v[0] : '1'),"each member has the value of its key"); } else sx_reach("bad"); }
SX_ENTRY(nt_esc) { Mk m; m.s("{\"\\"); if (sx_range(0,1,"u")) { m.s("u"); m.any(4); } else m.any(1); m.s("\":"); m.letter(); m.s("}"); auto b=m.done(); NT t; t.x=E('0'); t.y=E('1'); Res r=from<FWD>(t,b); Doc d; ref_doc(b.p,b.n,d); int q= d.n==1 && d.k[0].n==1 ? d.k[0].c[0]=='"' ? 0 : d.k[0].c[0]==0xE9 ? 1 : -1 : -1; sx_assert(r.ok==(d.ok && q>=0),"keys are compared after unescaping"); if (r.ok) sx_assert(t.x==E(q==0 ? d.v[0] : '0') && t.y==E(q==1 ? d.v[0] : '1'),"each member has the value of its key"); }
// the identifier buffer limit
template <typename T> static void lim(const char* pfx, int full, const char* k1, const char* k2, bool atlimit) { Mk m; m.s("{\""); m.s(pfx); m.any((int)sx_range(0,3,"n")); m.s("\":"); m.letter(); m.s("}"); auto b=m.done(); T t; t.a=E('0'); t.b=E('1'); Res r=from<PTR>(t,b); Doc d; ref_doc(b.p,b.n,d); if (!d.ok || d.n!=1) return; int q= is(d.k[0],k1) ? 0 : is(d.k[0],k2) ? 1 : -1; sx_assert(r.ok==!r.ec,"result agrees with its error code"); if (!atlimit) sx_assert(r.ok==(q>=0),"keys are compared in full length"); else sx_assert(!r.ok || q>=0,"keys are compared in full length"); if (r.ok) sx_assert(t.a==E(q==0 ? d.v[0] : '0') && t.b==E(q==1 ? d.v[0] : '1'),"each member has the value of its key"); (void)full; }
SX_ENTRY(lim1) { lim<LK>("012345678901234567890123456789012345678901234567890123456789a",0,"012345678901234567890123456789012345678901234567890123456789ab","012345678901234567890123456789012345678901234567890123456789abc",false); }
SX_ENTRY(lim2) { lim<LX>("01234567890123456789012345678901234567890123456789012345678901",0,K64,"b",true); }
SX_ENTRY(lim_set) { Mk m; m.s("{\""); m.any((int)sx_range(0,3,"n")); m.s("\":"); m.letter(); m.s("}"); auto b=m.done(); A3 t; auto r=cxon::from_bytes(t,b.begin(),b.end(),cxon::json::ids_len_max::set<3>()); Doc d; ref_doc(b.p,b.n,d); char v[4]; int bad; bool unk; if (!d.ok) return; sx_assert(bool(r)==bind(d,f3,3,v,bad,unk),"keys are compared in full length"); }
SX_ENTRY(ext) { Mk m; m.s("{\""); m.s("01234567890123456789012345678901234567890123456789012345678901"); m.any((int)sx_range(0,3,"n")); m.s("\":"); m.letter(); m.s("}"); auto b=m.done(); XR t; auto r=cxon::from_bytes<cxon::JSON<MU>>(t,b.begin(),b.end()); Doc d; ref_doc(b.p,b.n,d); if (!d.ok || d.n!=1) return; if (r) { std::string w=txt(d.k[0]); bool eq= t.n==(int)w.size(); if (eq) for (int k=0;k<(int)w.size();++k) eq&= w[k]==t.nm[k]; sx_assert(eq,"the whole key is handed to the extension"); sx_assert(t.a==E(d.v[0]),"and its value is read"); } }
// skipped members (the skipped value itself is J14's subject)
static bool sval(const char* p, int n, int& i);
static bool sval(const char* p, int n, int& i) { i=ref_ws(p,n,i); if (i==n) return false; if (p[i]=='"') { int j=ref_string(p,n,i); if (j<0) return false; i=j; return true; } if (p[i]>='a' && p[i]<='z') { ++i; return true; } if (p[i]=='[') { i=ref_ws(p,n,i+1); if (i<n && p[i]==']') { ++i; return true; } for (;;) { if (!sval(p,n,i)) return false; i=ref_ws(p,n,i); if (i==n) return false; if (p[i]==']') { ++i; return true; } if (p[i]!=',') return false; ++i; } } if (p[i]=='{') { i=ref_ws(p,n,i+1); if (i<n && p[i]=='}') { ++i; return true; } } return false; }
SX_ENTRY(skip) { Mk m; m.s("{\"s\":"); m.any((int)sx_range(0,(int)sx_bound(4,6),"n")); m.s(",\"a\":"); m.letter(); m.s("}"); auto b=m.done(); int i=5; bool sv=sval(b.p,b.n,i); if (sv) i=ref_ws(b.p,b.n,i); sx_assume(sv && i==b.n-7); SK t; t.a=E('0'); t.b=E('1'); Res r=from<PTR>(t,b); sx_assert(r.ok && r.end==b.p+b.n,"a skipped member is accepted"); sx_assert(t.a==E(b.p[b.n-2]) && t.b==E('1'),"and the members behind it are read"); sx_reach("-"); }
SX_ENTRY(skip2) { Mk m; static const char* const ks[]={"a","s","b"}; m.s("{"); for (int k=0;k<3;++k) { if (k) m.s(","); m.s("\""); m.s(ks[sx_range(0,2,"f")]); m.s("\":"); m.letter(); } m.s("}"); auto b=m.done(); Doc d; ref_doc(b.p,b.n,d); char v[4]; int bad; bool unk; bool ok=bind(d,ks,3,v,bad,unk); SK t; t.a=E('0'); t.b=E('1'); Res r=from<PTR>(t,b); sx_assert(r.ok==ok,"accepted exactly if no key repeats"); if (ok) sx_assert(t.a==E(v[0] ? v[0] : '0') && t.b==E(v[2] ? v[2] : '1'),"each member has the value of its key"); }
SX_ENTRY(skip_end) { Mk m; m.s("{\"s\":"); m.any((int)sx_range(0,(int)sx_bound(4,5),"n")); auto b=m.done(); SK t; Res r=from<PTR>(t,b); sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); int i=5; bool sv=sval(b.p,b.n,i); if (sv) { i=ref_ws(b.p,b.n,i); if (i==b.n) sx_assert(!r.ok,"truncated"); else if (b.p[i]=='}') sx_assert(r.ok && r.end==b.p+i+1,"one skipped member"); } }
// nested classes, lists of classes
SX_ENTRY(nest) { Mk m; m.s("{\"p\":{\""); m.any((int)sx_range(0,2,"k")); m.s("\":"); m.letter(); m.s("},\""); m.any(1); m.s("\":"); m.letter(); m.s("}"); auto b=m.done(); NE t; t.p.a=E('0'); t.q=E('1'); Res r=from<PTR>(t,b); Buf<char> in(b.n-6); const char* p=b.p+5; Buf<char> sub((int)(b.n-5)); for (int k=0;k<sub.n;++k) sub.p[k]=p[k]; Doc d; ref_doc(sub.p,sub.n,d); bool ok=false; if (d.ok && d.n==1 && is(d.k[0],"a")) { int i=d.pos; if (i<sub.n && sub.p[i]==',') { Txt k; int j=ref_string(sub.p,sub.n,i+1,&k); if (j>0 && is(k,"q") && j+2<sub.n && sub.p[j]==':' && sub.p[j+2]=='}') ok= j+3==sub.n; } } sx_assert(r.ok==ok,"accepted exactly with the known keys"); if (ok) sx_assert(t.p.a==E(d.v[0]) && t.q==E(b.p[b.n-2]),"members of both levels"); }
SX_ENTRY(list) { std::vector<A1> v; Mk m; m.s("["); int n=(int)sx_range(0,2,"n"); char l[2]; for (int i=0;i<n;++i) { if (i) m.s(","); m.s("{\"a\":"); m.letter(); l[i]=m.b.p[m.n-1]; m.s("}"); } m.s("]"); auto b=m.done(); Res r=from<PTR>(v,b); sx_assert(r.ok && (int)v.size()==n && r.end==b.p+b.n,"list of objects"); for (int i=0;i<n;++i) sx_assert(v[i].a==E(l[i]),"each its own"); }
// long names: one byte anywhere differs, any length
#define P40 "abcdefghijklmnopqrstuvwxyz01234567890123"
struct LN { E a, b, c; }; CXON_JSON_CLS(LN, CXON_JSON_CLS_FIELD_NAME(P40 "ax",a), CXON_JSON_CLS_FIELD_NAME(P40 "ay",b), CXON_JSON_CLS_FIELD_NAME("abcdefgh",c))
static E LN::* const ml[]={&LN::a,&LN::b,&LN::c}; static const char* const fl[]={P40 "ax",P40 "ay","abcdefgh"};
template <int K, typename X> static void lname() { Mk m; m.s("{\""); int f=(int)sx_range(0,2,"f"), l=(int)strlen(fl[f]), at=(int)sx_range(0,l-1,"at"), n=(int)sx_range(0,2,"len"); if (n==0) n=at+1; else n= n==1 ? l : l+1; for (int k=0;k<n;++k) { if (k==at || k==l) { char c=sx_any<char>("k"); sx_assume(c>' ' && c!='"' && c!='\\' && c<127); m.c(c); } else m.c(fl[f][k]); } m.s("\":"); m.letter(); if (sx_range(0,1,"two")) { m.s(",\""); m.s(fl[sx_range(0,2,"g")]); m.s("\":"); m.letter(); } m.s("}"); doc<LN,K,X>(m.done(),ml,fl,3,!X::assume_unique_object_keys); }
SX_ENTRY(name_long) { lname<PTR,cxon::JSON<>>(); } SX_ENTRY(name_long_mu) { lname<INP,cxon::JSON<MU>>(); }
// writing
static char ltr(const char* n) { char c=sx_any<char>(n); sx_assume(c>='a' && c<='z'); return c; }
SX_ENTRY(w_cls) { A3 t; t.a=ltr("a"); t.ab=ltr("b"); t.b=ltr("c"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{\"a\":?,\"ab\":?,\"b\":?}"; x[5]=t.a.v; x[12]=t.ab.v; x[18]=t.b.v; sx_assert(o==x,"every member once, under its key"); A3 u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u.a==t.a && u.ab==t.ab && u.b==t.b,"reads back"); sx_reach("done"); }
SX_ENTRY(w_dflt) { DF t; t.a=ltr("a"); t.b=ltr("b"); t.c=ltr("c"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{"; const E* es[]={&t.a,&t.b,&t.c}; bool first=true; for (int i=0;i<3;++i) if (es[i]->v!='d') { if (!first) x+=','; first=false; x+='"'; x+=char('a'+i); x+="\":"; x+=es[i]->v; } x+='}'; sx_assert(o==x,"exactly the members that are not suppressed"); DF u; u.a=u.b=u.c=E('d'); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u.a==t.a && u.b==t.b && u.c==t.c,"reads back over the defaults"); sx_reach("done"); }
SX_ENTRY(w_skip) { SK t; t.a=ltr("a"); t.b=ltr("b"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{\"a\":?,\"b\":?}"; x[5]=t.a.v; x[11]=t.b.v; sx_assert(o==x,"skipped members are not written"); sx_reach("done"); }
SX_ENTRY(w_nt) { NT t; t.x=ltr("a"); t.y=ltr("b"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{\"\\\"\":?,\"\xC3\xA9\":?}"; x[6]=t.x.v; x[13]=t.y.v; sx_assert(o==x,"keys are escaped"); NT u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && u.x==t.x && u.y==t.y,"reads back"); sx_reach("done"); }
SX_ENTRY(w_nest) { NE t; t.p.a=ltr("a"); t.q=ltr("b"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{\"p\":{\"a\":?},\"q\":?}"; x[10]=t.p.a.v; x[17]=t.q.v; sx_assert(o==x,"nested object"); NE u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && u.p.a==t.p.a && u.q==t.q,"reads back"); sx_reach("done"); }
// maps
template <typename M> static void map_(const Buf<char>& b) { M m; Res r=from<PTR>(m,b); Doc d; ref_doc(b.p,b.n,d); sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.ok==d.ok,"accepted exactly if it is an object"); if (!r.ok) { sx_reach("bad"); return; } sx_reach(d.n ? "ok" : "empty"); sx_assert(r.end==b.p+d.pos,"end directly behind the object"); int u=0; for (int k=0;k<d.n;++k) { bool later=false; std::string s=txt(d.k[k]); for (int j=k+1;j<d.n;++j) later|= txt(d.k[j])==s; u+=!later; auto f=m.find(s); sx_assert(f!=m.end(),"every key is there"); if (!later) { bool hit=f->second==E(d.v[k]); for (int j=0;j<k;++j) if (txt(d.k[j])==s) hit|= f->second==E(d.v[j]); sx_assert(hit,"with a value of its own"); } } sx_assert((int)m.size()==u,"and nothing else"); }
SX_ENTRY(one_map) { map_<std::map<std::string,E>>(Buf<char>::any(0,N())); }
SX_ENTRY(two_map) { Mk m; m.s("{\""); m.any((int)sx_range(0,1,"k1")); m.s("\":"); m.letter(); m.s(",\""); m.any((int)sx_range(0,1,"k2")); m.s("\":"); m.letter(); m.s("}"); map_<std::map<std::string,E>>(m.done()); }
SX_ENTRY(two_umap) { Mk m; m.s("{\""); m.any(1); m.s("\":"); m.letter(); m.s(",\""); m.any((int)sx_range(0,1,"k2")); m.s("\":"); m.letter(); m.s("}"); map_<std::unordered_map<std::string,E>>(m.done()); }
SX_ENTRY(multimap) { Mk m; m.s("{\"a\":"); m.letter(); m.s(",\"a\":"); m.letter(); m.s("}"); auto b=m.done(); std::multimap<std::string,E> mm; Res r=from<PTR>(mm,b); sx_assert(r.ok && mm.size()==2,"both members"); auto f=mm.begin(), g=f; ++g; sx_assert((f->second==E(b.p[5]) && g->second==E(b.p[11])) || (f->second==E(b.p[11]) && g->second==E(b.p[5])),"each with its value"); }
template <typename X, typename M> static void wmap(const M& m) { std::string o; sx_assert(bool(cxon::to_bytes<X>(o,m)),"written"); M u; auto r=cxon::from_bytes<X>(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==m,"to the same content"); sx_reach("done"); }
SX_ENTRY(w_map) { std::map<std::string,E> m; int n=(int)sx_range(0,2,"n"); for (int i=0;i<n;++i) { std::string k(sx_range(0,1,"l"),'?'); for (auto& c : k) { c=sx_any<char>("k"); sx_assume(c>=0); } m[k]=ltr("v"); } wmap<cxon::JSON<>>(m); }
SX_ENTRY(w_umap) { std::unordered_map<std::string,E> m; std::string k(1,sx_any<char>("k")); sx_assume(k[0]>=0); m[k]=ltr("v"); wmap<cxon::JSON<>>(m); }
SX_ENTRY(w_imap) { std::map<signed char,E> m; m[sx_any<signed char>("k")]=ltr("v"); m[5]=ltr("w"); wmap<cxon::JSON<>>(m); wmap<cxon::JSON<QK>>(m); }
SX_ENTRY(w_bmap) { std::map<bool,E> m; m[sx_range(0,1,"k")!=0]=ltr("v"); wmap<cxon::JSON<QK>>(m); }
SX_ENTRY(w_mmap) { std::multimap<char,E> m; char k=sx_any<char>("k"); sx_assume(k>=0); m.emplace(k,E('a')); m.emplace('b',E('c')); wmap<cxon::JSON<>>(m); }
SX_ENTRY(w_mm) { std::map<std::string,std::map<std::string,E>> m; int n=(int)sx_range(0,2,"n"); for (int i=0;i<n;++i) { auto& k=m[i ? "b" : "a"]; if (sx_range(0,1,"e")) k["x"]=ltr("v"); } wmap<cxon::JSON<>>(m); }
// sizes around the limits of 8 bit counters
SX_ENTRY(sz_map) { int n=size8(); std::map<std::string,E> m; std::string x="{"; for (int i=0;i<n;++i) { char k[6]={'k',char('0'+i/100),char('0'+i/10%10),char('0'+i%10),0}; char v= i==0 || i==n-1 ? ltr("v") : char('a'+i%26); if (i) x+=','; x+='"'; x+=k; x+="\":"; x+=v; m[k]=E(v); } x+='}'; std::map<std::string,E> u; auto r=cxon::from_bytes(u,x); sx_assert(bool(r) && r.end==x.end(),"an object of any size is read"); sx_assert(u==m,"every member once, with its value"); std::string o; sx_assert(bool(cxon::to_bytes(o,m)) && o==x,"and written"); sx_reach("done"); }
struct C20 { E f0,f1,f2,f3,f4,f5,f6,f7,f8,f9,g0,g1,g2,g3,g4,g5,g6,g7,g8,g9; };
CXON_JSON_CLS(C20, CXON_JSON_CLS_FIELD_ASIS(f0),CXON_JSON_CLS_FIELD_ASIS(f1),CXON_JSON_CLS_FIELD_ASIS(f2),CXON_JSON_CLS_FIELD_ASIS(f3),CXON_JSON_CLS_FIELD_ASIS(f4),CXON_JSON_CLS_FIELD_ASIS(f5),CXON_JSON_CLS_FIELD_ASIS(f6),CXON_JSON_CLS_FIELD_ASIS(f7),CXON_JSON_CLS_FIELD_ASIS(f8),CXON_JSON_CLS_FIELD_ASIS(f9),CXON_JSON_CLS_FIELD_ASIS(g0),CXON_JSON_CLS_FIELD_ASIS(g1),CXON_JSON_CLS_FIELD_ASIS(g2),CXON_JSON_CLS_FIELD_ASIS(g3),CXON_JSON_CLS_FIELD_ASIS(g4),CXON_JSON_CLS_FIELD_ASIS(g5),CXON_JSON_CLS_FIELD_ASIS(g6),CXON_JSON_CLS_FIELD_ASIS(g7),CXON_JSON_CLS_FIELD_ASIS(g8),CXON_JSON_CLS_FIELD_ASIS(g9))
static E C20::* const m20[]={&C20::f0,&C20::f1,&C20::f2,&C20::f3,&C20::f4,&C20::f5,&C20::f6,&C20::f7,&C20::f8,&C20::f9,&C20::g0,&C20::g1,&C20::g2,&C20::g3,&C20::g4,&C20::g5,&C20::g6,&C20::g7,&C20::g8,&C20::g9};
static void k20(std::string& x, int f) { x+='"'; x+= f<10 ? 'f' : 'g'; x+=char('0'+f%10); x+="\":"; }
// many members: each alone, any two (the same one twice is refused), all of them in a rotated order
SX_ENTRY(many_two) { int f=(int)sx_range(0,19,"f"), g=(int)sx_range(0,19,"g"); char a=ltr("a"), b=ltr("b"); std::string x="{"; k20(x,f); x+=a; x+=','; k20(x,g); x+=b; x+='}'; C20 t; auto r=cxon::from_bytes(t,x); sx_assert(bool(r)==(f!=g),"a repeated key is refused, others are not"); if (r) { bool eq=true; for (int i=0;i<20;++i) eq&= t.*m20[i]==E(i==f ? a : i==g ? b : '?'); sx_assert(eq,"each member has the value of its key, the others are untouched"); } else sx_assert(r.ec==cxon::json::read_error::unexpected && r.end-x.begin()==8,"end at the repeated key"); }
SX_ENTRY(many_all) { int s=(int)sx_range(0,19,"start"), d=(int)sx_range(0,20,"dup"); char v=ltr("v"); std::string x="{"; for (int i=0;i<20;++i) { if (i) x+=','; k20(x,(i+s)%20); x+= i==19 ? v : char('a'+i); } size_t at=x.size()+1; if (d<20) { x+=','; k20(x,d); x+='q'; } x+='}'; C20 t; auto r=cxon::from_bytes(t,x); sx_assert(bool(r)==(d==20),"a repeated key is refused"); if (r) { bool eq=true; for (int i=0;i<20;++i) eq&= t.*m20[(i+s)%20]==E(i==19 ? v : 'a'+i); sx_assert(eq,"each member has the value of its key"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); C20 u; auto q=cxon::from_bytes(u,o); eq=bool(q) && o.size()==x.size(); for (int i=0;i<20;++i) eq&= u.*m20[i]==t.*m20[i]; sx_assert(eq,"and reads back"); } else sx_assert(size_t(r.end-x.begin())==at,"end at the repeated key"); }
