//@std 20 11
//@bounds inputs of 0..N bytes (quick N=5, thorough N=7) with every byte symbolic and longer structured inputs with up to 5 symbolic bytes at the places the options concern, for lists, maps, classes (bare ones too), strings and scalars, with each option on and with all off; written maps, lists and classes with symbolic keys of 0..1 characters (thorough 2)
//@assume lists and objects whose separator is whitespace are not judged when no whitespace stands between two elements; the text of a key that is neither quoted nor a string is that of its type
//@reach cmt cmt_fwd cmt_inp cmt_s* cmt_m off*: ok bad
//@reach tr tr_m tr_cls: ok trailing bad
//@reach uq uq_s nq bare_*: ok bad
//@reach w_*: done
#include "h_json.h"
#include "cxon/cxcf.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; } bool operator !=(const E& o) const { return v!=o.v; } bool operator <(const E& o) const { return v<o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='A' && *i<='Z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
static char ltr(const char* n) { char c=sx_any<char>(n); sx_assume(c>='A' && c<='Z'); return c; }
using FT=cxon::json::format_traits;
struct Tc : FT { static constexpr bool allow_comments=true; };
struct Tt : FT { static constexpr bool allow_trailing_separators=true; };
struct Tu : FT { static constexpr bool unquote_quoted_keys=true; };
struct Tuc : Tu { static constexpr bool allow_comments=true; };
struct Tn : FT { static constexpr bool quote_unquoted_keys=false; };
struct Tq : FT { struct string : FT::string { static constexpr char del='\''; }; };
struct Ts : FT { struct map : FT::map { static constexpr char sep=';', div='='; }; struct list : FT::list { static constexpr char sep=';'; }; };
struct Tst : Ts { static constexpr bool allow_trailing_separators=true; };
struct Tw : FT { struct map : FT::map { static constexpr char sep=' '; }; struct list : FT::list { static constexpr char sep=' '; }; };
struct Tve : FT { static constexpr bool validate_string_escapes=false; };
struct Tvu : FT { static constexpr bool validate_string_encoding=false; };
struct Tne : FT { static constexpr bool assume_no_escapes=true; };
using D=cxon::JSON<>; 
// reference grammar with the options spelled out
struct G { bool cmt, trail, uq; char div, sep, del; };
static const G g0={false,false,false,':',',','"'}, gc={true,false,false,':',',','"'}, gt={false,true,false,':',',','"'}, gu={false,false,true,':',',','"'}, guc={true,false,true,':',',','"'}, gs={false,false,false,'=',';','"'}, gst={false,true,false,'=',';','"'}, gw={false,false,false,':',' ','"'}, gcf={true,false,true,'=',' ','"'}, gq={false,false,false,':',',','\''};
// skips whitespace and comments; -1: something that only starts like a comment
static int ws(const G& g, const char* p, int n, int i) { for (;;) { i=ref_ws(p,n,i); if (!g.cmt || i>=n || p[i]!='/') return i; if (i+1>=n) return -1; if (p[i+1]=='/') { i+=2; while (i<n && p[i]!='\n') ++i; } else if (p[i+1]=='*') { i+=2; for (;;) { if (i>=n) return n; if (p[i]=='*' && i+1<n && p[i+1]=='/') { i+=2; break; } ++i; } } else return -1; } }
static int elem(const G& g, const char* p, int n, int i, char& v) { i=ws(g,p,n,i); if (i<0 || i>=n || p[i]<'A' || p[i]>'Z') return -1; v=p[i]; return i+1; }
struct Rs { bool ok, odd, trail; int pos, n; char v[40]; Txt k[6]; };
static void open(const G& g, const char* p, int n, Rs& r, char b) { r.ok=r.odd=r.trail=false; r.n=0; r.pos=-1; int i=ws(g,p,n,0); if (i<0 || i>=n || p[i]!=b) return; r.pos=ws(g,p,n,i+1); if (r.pos>=n) r.pos=-1; }
// behind an element: 0 = the end of the list, 1 = another element, -1 = malformed
static int more(const G& g, const char* p, int n, Rs& r, char e) { int a=r.pos, i=ws(g,p,n,a); r.pos=-1; if (i<0 || i>=n) return -1; if (p[i]==e) { r.pos=i+1; r.ok=true; return 0; } if (g.sep==' ') { r.odd|= i==a; r.pos=i; return 1; } if (p[i]!=g.sep) return -1; i=ws(g,p,n,i+1); if (i<0 || i>=n) return -1; if (g.trail && p[i]==e) { r.pos=i+1; r.ok=r.trail=true; return 0; } r.pos=i; return 1; }
static Rs list(const G& g, const char* p, int n) { Rs r; open(g,p,n,r,'['); if (r.pos<0) return r; if (p[r.pos]==']') { ++r.pos; r.ok=true; return r; } do { if ((r.pos=elem(g,p,n,r.pos,r.v[r.n]))<0) return r; ++r.n; } while (more(g,p,n,r,']')>0); return r; }
static int key(const G& g, const char* p, int n, int i, Txt& t) {
    if (!g.uq) { if (i>=n || p[i]!=g.del) return -1; ++i; for (;;) { if (i>=n) return -1; if (p[i]==g.del) return i+1; char32_t c; int k; if (p[i]=='\\' && i+1<n && p[i+1]==g.del) c=g.del, k=2; else k=ref_char(p,n,i,c); if (!k) return -1; t.add(c); i+=k; } }
    for (;;) { if (i>=n) return -1; if (p[i]==g.div || ref_ws(p+i,1)) return i; char32_t c; int k; if (p[i]=='\\' && i+1<n && (p[i+1]==' ' || p[i+1]==g.div)) c=p[i+1], k=2; else k=ref_char(p,n,i,c); if (!k) return -1; t.add(c); i+=k; } }
static Rs map(const G& g, const char* p, int n) { Rs r; open(g,p,n,r,'{'); if (r.pos<0) return r; if (p[r.pos]=='}') { ++r.pos; r.ok=true; return r; } do { int i=ws(g,p,n,r.pos); if (i<0 || (i=key(g,p,n,i,r.k[r.n]))<0 || (i=ws(g,p,n,i))<0 || i>=n || p[i]!=g.div || (r.pos=elem(g,p,n,i+1,r.v[r.n]))<0) return r; ++r.n; } while (more(g,p,n,r,'}')>0); return r; }
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <typename X, int K=PTR, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes<X>(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes<X>(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes<X>(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
static void verdict(const Buf<char>& b, const Res& r, const Rs& l) { sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); sx_assert(r.ok==l.ok,"accepted exactly if the options allow it"); if (l.ok) { sx_reach("ok"); if (l.trail) sx_reach("trailing"); sx_assert(r.end==b.p+l.pos,"end directly behind the value"); } else sx_reach("bad"); }
template <typename X, int K=PTR> static void lst(const G& g, const Buf<char>& b) { std::vector<E> v; Rs l=list(g,b.p,b.n); if (l.odd) return; Res r=from<X,K>(v,b); verdict(b,r,l); if (r.ok) { sx_assert((int)v.size()==l.n,"every element"); bool eq=true; for (int i=0;i<l.n;++i) eq&= v[i]==E(l.v[i]); sx_assert(eq,"elements in order"); } }
static std::string text(const Txt& t) { std::string s; for (int i=0;i<t.n;++i) { char b[4]; s.append(b,ref_put_utf8(b,t.c[i])); } return s; }
template <typename X, int K=PTR> static void mp(const G& g, const Buf<char>& b) { std::map<std::string,E> v; Rs l=map(g,b.p,b.n); if (l.odd) return; Res r=from<X,K>(v,b); verdict(b,r,l); if (r.ok && l.n==1) { sx_assert(v.size()==1 && v.begin()->first==text(l.k[0]) && v.begin()->second==E(l.v[0]),"the value under its key"); } else if (r.ok) sx_assert((int)v.size()<=l.n && v.empty()==!l.n,"no other keys"); }
static int N() { return (int)sx_bound(5,7); }
struct Mk { Buf<char> b; int n; Mk() : b(96), n(0) {} void s(const char* x) { while (*x) b.p[n++]=*x++; } void c(char x) { b.p[n++]=x; } void any(int k) { for (int i=0;i<k;++i) c(sx_any<char>("k")); } Buf<char> done() { Buf<char> r(n); for (int i=0;i<n;++i) r.p[i]=b.p[i]; return r; } };
// comments
using C=cxon::JSON<Tc>;
SX_ENTRY(cmt) { lst<C>(gc,Buf<char>::any(0,N())); } SX_ENTRY(cmt_fwd) { lst<C,FWD>(gc,Buf<char>::any(0,N()-1)); } SX_ENTRY(cmt_inp) { lst<C,INP>(gc,Buf<char>::any(0,N()-1)); }
SX_ENTRY(cmt_s1) { Mk m; m.s("[/"); m.any((int)sx_range(2,4,"n")); m.s("A]"); lst<C>(gc,m.done()); } SX_ENTRY(cmt_s2) { Mk m; m.s("[A/*"); m.any((int)sx_range(0,3,"n")); m.s("/]"); lst<C,FWD>(gc,m.done()); } SX_ENTRY(cmt_s3) { Mk m; m.s("[/**/"); m.any((int)sx_range(1,3,"n")); m.s("A,"); m.any(2); m.s("A]"); lst<C>(gc,m.done()); } SX_ENTRY(cmt_s4) { Mk m; m.s("[/**/"); m.any((int)sx_range(1,3,"n")); m.s("A]"); lst<C,INP>(gc,m.done()); } SX_ENTRY(cmt_s5) { Mk m; m.s("//"); m.any(2); m.s("[A]"); lst<C>(gc,m.done()); }
SX_ENTRY(cmt_m) { Mk m; int at=(int)sx_range(0,4,"at"); const char* part[]={"{","\"k\"",":","A","}"}; for (int i=0;i<5;++i) { m.s(part[i]); if (i==at && i<4) m.c('/'), m.any(4); } mp<C>(gc,m.done()); }
template <typename X, typename T> static void scalar(const char* tx, const T& val, bool strict) { Mk m; m.s("/"); m.any(5); m.s(tx); auto b=m.done(); int f=ws(gc,b.p,b.n,0); T v{}; Res r=from<X>(v,b); sx_assert(r.ok==!r.ec,"result agrees with its error code"); int k=0; if (f>=0) while (tx[k] && f+k<b.n && b.p[f+k]==tx[k]) ++k; if (f>=0 && !tx[k] && f+k==b.n) { sx_assert(r.ok && v==val,"read behind the comments"); } else if (strict || f<0) sx_assert(!r.ok,"rejected"); }
SX_ENTRY(cmt_v_bool) { scalar<C,bool>("true",true,false); } SX_ENTRY(cmt_v_str) { scalar<C,std::string>("\"a\"","a",false); } SX_ENTRY(cmt_v_int) { scalar<C,int>("7",7,false); } SX_ENTRY(cmt_v_e) { scalar<C,E>("A",'A',false); } SX_ENTRY(cmt_v_vec) { scalar<C,std::vector<E>>("[]",std::vector<E>(),false); }
// with the options off the same is rejected
SX_ENTRY(off_c) { Mk m; int at=(int)sx_range(0,3,"at"); const char* part[]={"{","\"k\"",":","A","}"}; for (int i=0;i<5;++i) { m.s(part[i]); if (i==at) m.any(3); } mp<D>(g0,m.done()); }
SX_ENTRY(off_t) { Mk m; m.s("[A"); m.any(3); m.s("]"); lst<D>(g0,m.done()); } SX_ENTRY(off_u) { Mk m; m.s("{"); m.any(3); m.s(":A}"); mp<D>(g0,m.done()); }
SX_ENTRY(off_n) { Mk m; m.s("{"); m.any((int)sx_range(1,3,"n")); m.s(":A}"); auto b=m.done(); std::map<E,E> v; Res r=from<D>(v,b); char f=b.p[ref_ws(b.p,b.n,1)]; if (f=='}') return; if (f!='"') sx_assert(!r.ok,"keys must be quoted"), sx_reach("bad"); else if (r.ok) sx_reach("ok"); }
// trailing separators
using T=cxon::JSON<Tt>;
SX_ENTRY(tr) { lst<T>(gt,Buf<char>::any(0,N()+1)); } SX_ENTRY(tr_fwd) { lst<T,FWD>(gt,Buf<char>::any(0,N())); } SX_ENTRY(tr_inp) { lst<T,INP>(gt,Buf<char>::any(0,N())); }
SX_ENTRY(tr_m) { Mk m; m.s("{"); if (sx_range(0,1,"first")) m.s("\"k\":A"); m.any((int)sx_range(0,2,"n")); if (sx_range(0,1,"second")) m.s("\"l\":B"), m.any((int)sx_range(0,2,"n")); m.s("}"); mp<T>(gt,m.done()); }
SX_ENTRY(tr_sep) { lst<cxon::JSON<Tst>>(gst,Buf<char>::any(0,N())); }
struct S { E a, b; S() : a('-'), b('-') {} bool operator ==(const S& o) const { return a==o.a && b==o.b; } };
CXON_JSON_CLS(S, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
template <typename X, int K=PTR> static void cls(const G& g, const Buf<char>& b) { S v; Rs l=map(g,b.p,b.n); if (l.odd) return; bool known=true; int na=0, nb=0; for (int i=0;i<l.n;++i) { bool a= l.k[i].n==1 && l.k[i].c[0]=='a', c= l.k[i].n==1 && l.k[i].c[0]=='b'; known&= a | c; na+=a; nb+=c; } Rs m=l; m.ok= l.ok && known && na<2 && nb<2; Res r=from<X,K>(v,b); verdict(b,r,m); if (r.ok) { S w; for (int i=0;i<l.n;++i) (l.k[i].c[0]=='a' ? w.a : w.b)=E(l.v[i]); sx_assert(v==w,"the values under their keys"); } }
SX_ENTRY(tr_cls) { Mk m; m.s("{\"a\":A"); m.any((int)sx_range(0,3,"n")); if (sx_range(0,1,"second")) m.s("\"b\":B"), m.any((int)sx_range(0,2,"n")); m.s("}"); cls<T>(gt,m.done()); }
SX_ENTRY(cmt_cls) { Mk m; int at=(int)sx_range(0,7,"at"); const char* part[]={"{","\"a\"",":","A",",","\"b\"",":","B","}"}; for (int i=0;i<9;++i) { m.s(part[i]); if (i==at) m.c('/'), m.any(4); } cls<C>(gc,m.done()); }
SX_ENTRY(off_cls) { Mk m; int at=(int)sx_range(0,7,"at"); const char* part[]={"{","\"a\"",":","A",",","\"b\"",":","B","}"}; for (int i=0;i<9;++i) { m.s(part[i]); if (i==at) m.any(2); } cls<D>(g0,m.done()); }
// unquoted keys
using U=cxon::JSON<Tu>; using UC=cxon::JSON<Tuc>; using CF=cxon::CXCF<>;
SX_ENTRY(uq) { mp<U>(gu,Buf<char>::any(0,N())); } SX_ENTRY(uq_s) { Mk m; m.s("{"); m.any((int)sx_range(0,4,"n")); m.s(":A"); m.any((int)sx_range(0,1,"t")); m.s("}"); mp<U>(gu,m.done()); } SX_ENTRY(uq_fwd) { Mk m; m.s("{"); m.any((int)sx_range(0,3,"n")); m.s(":A}"); mp<U,FWD>(gu,m.done()); } SX_ENTRY(uq_inp) { Mk m; m.s("{"); m.any((int)sx_range(0,3,"n")); m.s(":A}"); mp<U,INP>(gu,m.done()); } SX_ENTRY(uq_2) { Mk m; m.s("{a:A,"); m.any((int)sx_range(0,3,"n")); m.s(":A}"); mp<U>(gu,m.done()); }
SX_ENTRY(uq_cmt) { Mk m; m.s("{"); m.any((int)sx_range(0,2,"n")); m.s("/*"); m.any(1); m.s("*/k"); m.any(2); m.s(":A}"); mp<UC>(guc,m.done()); }
SX_ENTRY(uq_u) { Mk m; m.s("{\\u"); m.any(4); m.any((int)sx_range(0,1,"n")); m.s(":A}"); mp<U>(gu,m.done()); }
SX_ENTRY(uq_cls) { Mk m; m.s("{"); m.any((int)sx_range(0,2,"n")); m.s(":A,"); m.any(1); m.s(":B}"); cls<U>(gu,m.done()); }
SX_ENTRY(cf_cls) { Mk m; m.s("{"); m.any((int)sx_range(0,3,"n")); m.s("=A "); m.any(1); m.s("=B"); m.any(1); m.s("}"); cls<CF>(gcf,m.done()); }
SX_ENTRY(cf_m) { Mk m; m.s("{"); m.any((int)sx_range(0,3,"n")); m.s("=A"); m.any((int)sx_range(0,2,"n")); m.s("}"); mp<CF>(gcf,m.done()); } SX_ENTRY(cf_l) { lst<CF>(gcf,Buf<char>::any(0,N())); }
SX_ENTRY(nq) { auto b=Buf<char>::any(0,N()); std::map<E,E> v; Res r=from<cxon::JSON<Tn>>(v,b); const char* p=b.p; int n=b.n, i; Rs l; open(g0,p,n,l,'{'); if (l.pos>=0) { if (p[l.pos]=='}') { ++l.pos; l.ok=true; } else do { char k; if ((i=elem(g0,p,n,l.pos,k))<0 || (i=ref_ws(p,n,i))>=n || p[i]!=':' || (i=elem(g0,p,n,i+1,l.v[l.n]))<0) { l.pos=-1; break; } l.k[l.n].n=0; l.k[l.n].add(k); ++l.n; l.pos=i; } while (more(g0,p,n,l,'}')>0); } verdict(b,r,l); if (r.ok) { sx_assert(v.empty()==!l.n,"its keys"); if (l.n==1) sx_assert(v.size()==1 && v.begin()->first==E(char(l.k[0].c[0])) && v.begin()->second==E(l.v[0]),"the value under its key"); } }
// separators, dividers, delimiters
SX_ENTRY(sep) { lst<cxon::JSON<Ts>>(gs,Buf<char>::any(0,N())); } SX_ENTRY(sep_m) { Mk m; m.s("{\"k\""); m.any((int)sx_range(1,2,"n")); m.s("A"); m.any((int)sx_range(0,2,"n")); m.s("\"l\"=B}"); mp<cxon::JSON<Ts>>(gs,m.done()); } SX_ENTRY(sep_w) { lst<cxon::JSON<Tw>>(gw,Buf<char>::any(0,N())); }
SX_ENTRY(del) { Mk m; m.s("{"); m.any((int)sx_range(0,4,"n")); m.s(":A}"); mp<cxon::JSON<Tq>>(gq,m.done()); }
// validation switched off: valid input reads the same, and only what the option names is accepted in addition
static bool str_(const char* p, int n, Txt& t, bool ctl, int& l) { int i=ref_ws(p,n); if (i>=n || p[i]!='"') return false; ++i; for (;;) { if (i>=n) return false; if (p[i]=='"') { l=i+1; return true; } char32_t c; int k; if (ctl && (u8)p[i]<0x20) c=(u8)p[i], k=1; else k=ref_char(p,n,i,c); if (!k) return false; t.add(c); i+=k; } }
SX_ENTRY(v_esc) { auto b=Buf<char>::any(0,N()-1); std::string v; Res r=from<cxon::JSON<Tve>>(v,b); Txt t; int l=0; bool ok=str_(b.p,b.n,t,true,l); sx_assert(r.ok==ok,"exactly the strings that may hold control characters"); if (ok) sx_assert(v==text(t) && r.end==b.p+l,"their text"); }
SX_ENTRY(v_esc_inp) { auto b=Buf<char>::any(0,N()); std::u16string v; Res r=from<cxon::JSON<Tve>,INP>(v,b); Txt t; int l=0; bool ok=str_(b.p,b.n,t,true,l); sx_assert(r.ok==ok,"exactly the strings that may hold control characters"); if (ok) { std::u16string w; for (int i=0;i<t.n;++i) if (t.c[i]>0xFFFF) w+=char16_t(0xD7C0+(t.c[i]>>10)), w+=char16_t(0xDC00|(t.c[i]&0x3FF)); else w+=char16_t(t.c[i]); sx_assert(v==w,"their text"); } }
SX_ENTRY(v_utf) { auto b=Buf<char>::any(0,N()-1); std::string v; Res r=from<cxon::JSON<Tvu>>(v,b); Txt t; int l=0; bool ok=str_(b.p,b.n,t,false,l); sx_assert(r.ok==!r.ec && r.end>=b.p && r.end<=b.p+b.n,"a proper result"); if (ok) sx_assert(r.ok && v==text(t) && r.end==b.p+l,"valid strings as always"); else if (r.ok) { bool hi=false; for (int i=0;i<b.n;++i) hi|= (u8)b.p[i]>0x7F; sx_assert(hi,"only the encoding is not checked"); } }
template <typename S, int K> static void vutf() { auto b=Buf<char>::any(0,N()-1); S v; Res r=from<cxon::JSON<Tvu>,K>(v,b); Txt t; int l=0; bool ok=str_(b.p,b.n,t,false,l); sx_assert(r.ok==!r.ec && r.end>=b.p && r.end<=b.p+b.n,"a proper result"); if (ok) { S w; for (int i=0;i<t.n;++i) { using U=typename S::value_type; if (sizeof(U)==1) { char c[4]; int k=ref_put_utf8(c,t.c[i]); for (int j=0;j<k;++j) w+=U(c[j]); } else if (sizeof(U)==2 && t.c[i]>0xFFFF) w+=U(0xD7C0+(t.c[i]>>10)), w+=U(0xDC00|(t.c[i]&0x3FF)); else w+=U(t.c[i]); } sx_assert(r.ok && v==w && r.end==b.p+l,"valid strings as always"); } else if (r.ok) { bool hi=false; for (int i=0;i<b.n;++i) hi|= (u8)b.p[i]>0x7F; sx_assert(hi,"only the encoding is not checked"); } }
SX_ENTRY(v_utf_inp) { vutf<std::string,INP>(); } SX_ENTRY(v_utf_fwd) { vutf<std::string,FWD>(); } SX_ENTRY(v_utf16) { vutf<std::u16string,PTR>(); } SX_ENTRY(v_utf32) { vutf<std::u32string,INP>(); }
SX_ENTRY(v_nesc) { auto b=Buf<char>::any(0,N()-1); for (int i=0;i<b.n;++i) sx_assume(b.p[i]!='\\'); std::string v; Res r=from<cxon::JSON<Tne>>(v,b); Txt t; int l=0; bool ok=str_(b.p,b.n,t,false,l); sx_assert(r.ok==ok,"without escapes the same strings"); if (ok) sx_assert(v==text(t) && r.end==b.p+l,"their text"); }
// what is written reads back
static std::string wkey(int n) { std::string s((size_t)sx_range(0,n,"len"),'x'); for (auto& c : s) { c=sx_any<char>("c"); sx_assume(c>=0); } return s; }
template <typename X, typename T> static void rt(const T& v) { std::string o; sx_assert(bool(cxon::to_bytes<X>(o,v)),"written"); T u; auto r=cxon::from_bytes<X>(u,o); sx_assert(bool(r),"reads back"); sx_assert(r.end==o.end(),"completely"); sx_assert(u==v,"to the same value"); sx_reach("done"); }
template <typename X> static void rt_m() { std::map<std::string,E> v; v[wkey((int)sx_bound(1,2))]=E(ltr("v")); if (sx_range(0,1,"two")) v["zz z"]=E(ltr("v")); rt<X>(v); }
SX_ENTRY(w_c) { rt_m<C>(); } SX_ENTRY(w_t) { rt_m<T>(); } SX_ENTRY(w_u) { rt_m<U>(); } SX_ENTRY(w_uc) { rt_m<UC>(); } SX_ENTRY(w_cf) { rt_m<CF>(); } SX_ENTRY(w_q) { rt_m<cxon::JSON<Tq>>(); } SX_ENTRY(w_s) { rt_m<cxon::JSON<Ts>>(); } SX_ENTRY(w_w) { rt_m<cxon::JSON<Tw>>(); }
SX_ENTRY(w_n) { std::map<E,E> v; v[E(ltr("k"))]=E(ltr("v")); rt<cxon::JSON<Tn>>(v); std::map<int,int> w; w[sx_any<signed char>("k")]=sx_any<signed char>("v"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::JSON<Tn>>(o,w)) && o[1]!='"',"keys of numbers are not quoted"); rt<cxon::JSON<Tn>>(w); rt<CF>(w); rt<D>(w); rt<U>(w); }
SX_ENTRY(w_lst) { std::vector<std::vector<E>> v((size_t)sx_range(0,2,"n")); for (auto& l : v) for (int i=(int)sx_range(0,2,"m");i>0;--i) l.push_back(E(ltr("v"))); rt<CF>(v); rt<T>(v); rt<cxon::JSON<Ts>>(v); rt<cxon::JSON<Tw>>(v); }
SX_ENTRY(w_u16) { std::map<std::u16string,E> v; std::u16string k((size_t)sx_range(0,sx_bound(1,2),"len"),u'x'); for (auto& c : k) { c=sx_any<char16_t>("c"); sx_assume(c<0xD800 || c>0xDFFF); } v[k]=E(ltr("v")); rt<CF>(v); }
SX_ENTRY(w_chr) { std::map<char,E> v; char k=sx_any<char>("k"); sx_assume(k>=0); v[k]=E(ltr("v")); rt<CF>(v); rt<U>(v); rt<D>(v); }
struct P { std::map<std::string,E> m; std::vector<E> l; bool f; std::string s; P() : f(false) {} bool operator ==(const P& o) const { return m==o.m && l==o.l && f==o.f && s==o.s; } };
CXON_JSON_CLS_NONTRIVIAL_KEY(P)
CXON_JSON_CLS(P, CXON_JSON_CLS_FIELD_NAME("m m",m), CXON_JSON_CLS_FIELD_NAME("l=:",l), CXON_JSON_CLS_FIELD_ASIS(f), CXON_JSON_CLS_FIELD_ASIS(s))
struct B : P {}; CXON_JSON_CLS(B, CXON_JSON_CLS_FIELD_ASIS(m), CXON_JSON_CLS_FIELD_NAME("l.x",l), CXON_JSON_CLS_FIELD_ASIS(f), CXON_JSON_CLS_FIELD_ASIS(s)) CXON_JSON_CLS_BARE(B)
template <typename Q> static Q some() { Q v; if (sx_range(0,1,"m")) v.m[std::string(1,'a')]=E(ltr("v")); for (int i=(int)sx_range(0,2,"l");i>0;--i) v.l.push_back(E(ltr("v"))); v.f=sx_range(0,1,"f")!=0; if (sx_range(0,1,"s")) { char c=sx_any<char>("s"); sx_assume(c>=0); v.s=std::string(1,c); } return v; }
SX_ENTRY(w_cls) { P v=some<P>(); rt<CF>(v); rt<U>(v); rt<UC>(v); rt<T>(v); rt<C>(v); rt<cxon::JSON<Ts>>(v); rt<cxon::JSON<Tq>>(v); } SX_ENTRY(w_bare) { B v=some<B>(); rt<CF>(v); }
// a class without braces: fields up to the end of the input or a zero
struct Sb : S {}; CXON_JSON_CLS_READ(Sb, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b)) CXON_JSON_CLS_BARE(Sb)
template <int K> static void bare(const Buf<char>& b) { const char* p=b.p; int n=b.n; G g=gcf; Sb w; bool ok=false, odd=false; int i=ws(g,p,n,0), at=0; for (int c=0; i>=0; ++c) { if (i>=n || !p[i]) { ok=true; at=i; break; } if (c && i==at) odd=true; Txt t; if ((i=key(g,p,n,i,t))<0 || (i=ws(g,p,n,i))<0 || i>=n || p[i]!='=') break; char v; if (t.n!=1 || (t.c[0]!='a' && t.c[0]!='b') || (i=elem(g,p,n,i+1,v))<0) break; (t.c[0]=='a' ? w.a : w.b)=E(v); at=i; i=ws(g,p,n,i); }
    if (odd) return; Sb v; Res r=from<CF,K>(v,b); sx_assert(r.ok==!r.ec && r.end>=p && r.end<=p+n,"a proper result"); sx_assert(r.ok==ok,"accepted exactly if every field is well-formed and known"); if (ok) { sx_reach("ok"); sx_assert(v==w,"the values under their keys"); if (K!=INP) sx_assert(r.end==p+at,"end directly behind the last field"); } else sx_reach("bad"); }
SX_ENTRY(bare_any) { bare<PTR>(Buf<char>::any(0,N())); } SX_ENTRY(bare_inp) { bare<INP>(Buf<char>::any(0,N())); } SX_ENTRY(bare_2) { Mk m; m.any((int)sx_range(0,2,"n")); m.s("b=A"); m.any((int)sx_range(1,2,"m")); m.s("a="); m.any((int)sx_range(0,2,"k")); bare<FWD>(m.done()); } SX_ENTRY(bare_cmt) { Mk m; m.s("a=A/"); m.any((int)sx_range(1,4,"m")); m.s("b=B"); bare<PTR>(m.done()); }
