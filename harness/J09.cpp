//@std 20 11
//@bounds inputs of 0..N bytes (quick N=6, thorough N=8), every byte symbolic; enumeration names of 0..3 symbolic characters in plain and escaped form and of up to 66 characters; variants with and without ambiguous alternatives; bit sets of 1, 2, 9, 255..257 and 300 bits; all values of the written types
//@assume the index of an ambiguous alternative and a complex number's parts follow the number reader (leading zeros, whitespace inside the quotes of an index are not judged); null pointers inside optional values cannot be told from empty ones
//@reach enm enm_fwd enm_inp: ok unknown bad
//@reach opt ptr uptr sptr: null value bad
//@reach var* amb: ok bad
//@reach bits*: ok bad
//@reach w_*: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/chrono.hxx"
#if __cplusplus>=201703L
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/variant.hxx"
#endif
// element: one upper case letter
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; } bool operator !=(const E& o) const { return v!=o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='A' && *i<='Z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
static char ltr(const char* n) { char c=sx_any<char>(n); sx_assume(c>='A' && c<='Z'); return c; }
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <int K, typename X=cxon::JSON<>, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes<X>(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes<X>(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes<X>(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
static int N() { return (int)sx_bound(6,8); }
static void agree(const Buf<char>& b, const Res& r) { sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); }
// enumerations
enum class En { a, ab, none, quote, acute };
CXON_JSON_ENM(En, CXON_JSON_ENM_VALUE_ASIS(a), CXON_JSON_ENM_VALUE_ASIS(ab), CXON_JSON_ENM_VALUE_NAME("",none), CXON_JSON_ENM_VALUE_NAME("\"\\",quote), CXON_JSON_ENM_VALUE_NAME("\xC3\xA9",acute))
static bool is(const Txt& t, const char32_t* s) { int n=0; while (s[n]) ++n; if (t.n!=n) return false; bool e=true; for (int i=0;i<n;++i) e&= t.c[i]==s[i]; return e; }
static int name(const Txt& t) { static const char32_t* const ns[]={U"a",U"ab",U"",U"\"\\",U"\u00E9"}; int r=-1; for (int i=0;i<5;++i) if (is(t,ns[i])) r=i; return r; }
template <int K> static void enm_(const Buf<char>& b) { En v=En(77); Res r=from<K>(v,b); agree(b,r); int f=ref_ws(b.p,b.n); Txt t; int l=ref_string(b.p,b.n,f,&t); int k= l<0 ? -1 : name(t); sx_assert(r.ok==(k>=0),"accepted exactly if it is a declared name"); if (r.ok) { sx_reach("ok"); sx_assert((int)v==k,"the enumerator of that name"); sx_assert(r.end==b.p+l,"end directly behind the name"); } else { sx_reach("bad"); sx_assert((int)v==77,"the target is untouched"); if (l>=0) { sx_reach("unknown"); sx_assert(r.ec==cxon::json::read_error::unexpected,"unexpected name"); if (K!=INP) sx_assert(r.end==b.p+f,"end at the unknown name"); } } }
SX_ENTRY(enm) { enm_<PTR>(Buf<char>::any(0,N())); } SX_ENTRY(enm_fwd) { enm_<FWD>(Buf<char>::any(0,N()-1)); } SX_ENTRY(enm_inp) { enm_<INP>(Buf<char>::any(0,N()-1)); }
struct Mk { Buf<char> b; int n; Mk() : b(96), n(0) {} void s(const char* x) { while (*x) b.p[n++]=*x++; } void c(char x) { b.p[n++]=x; } void any(int k) { for (int i=0;i<k;++i) c(sx_any<char>("k")); } Buf<char> done() { Buf<char> r(n); for (int i=0;i<n;++i) r.p[i]=b.p[i]; return r; } };
SX_ENTRY(enm_esc) { Mk m; m.s("\""); if (sx_range(0,1,"p")) m.s("a"); m.s("\\u"); m.any(4); if (sx_range(0,1,"p")) m.any(1); m.s("\""); enm_<PTR>(m.done()); }
SX_ENTRY(enm_lim) { Mk m; int k=(int)sx_range(60,66,"n"); m.s("\"a"); m.any(1); sx_assume(m.b.p[2]!='"'); for (int i=2;i<k;++i) m.c('b'); m.s("\""); auto b=m.done(); En v=En(77); Res r=from<PTR>(v,b); agree(b,r); sx_assert(!r.ok && (int)v==77,"no long name is declared"); }
enum class Fl { two=2, three=3, alias=2 };
CXON_JSON_ENM(Fl, CXON_JSON_ENM_VALUE_ASIS(two), CXON_JSON_ENM_VALUE_ASIS(three), CXON_JSON_ENM_VALUE_ASIS(alias))
SX_ENTRY(enm_lim3) { Mk m; m.s("\""); m.any((int)sx_range(0,4,"n")); m.s("\""); auto b=m.done(); Fl v=Fl(7); auto r=cxon::from_bytes(v,b.begin(),b.end(),cxon::json::ids_len_max::set<3>()); Txt t; int l=ref_string(b.p,b.n,0,&t); bool two= l>0 && is(t,U"two"); sx_assert(bool(r)==two,"only a name that fits and is declared"); if (two) sx_assert(v==Fl::two,"the enumerator of that name"); }
SX_ENTRY(w_enm) { int k=(int)sx_range(0,5,"k"); std::string o; auto r=cxon::to_bytes(o,En(k)); if (k==5) { sx_assert(!r && r.ec==cxon::json::write_error::argument_invalid,"no name for an undeclared value"); } else { static const char* const x[]={"\"a\"","\"ab\"","\"\"","\"\\\"\\\\\"","\"\xC3\xA9\""}; sx_assert(bool(r) && o==x[k],"its declared name"); En v=En(77); auto q=cxon::from_bytes(v,o); sx_assert(bool(q) && v==En(k),"reads back"); } sx_reach("done"); }
SX_ENTRY(w_enm_any) { int k=sx_any<int>("k"); std::string o; auto r=cxon::to_bytes(o,Fl(k)); sx_assert(bool(r)==(k==2 || k==3),"only declared values are written"); if (r) { Fl v=Fl(7); auto q=cxon::from_bytes(v,o); sx_assert(bool(q) && v==Fl(k),"reads back"); } sx_reach("done"); }
// null or a value
static int nul(const Buf<char>& b, int f) { return b.n-f>=4 && b.p[f]=='n' && b.p[f+1]=='u' && b.p[f+2]=='l' && b.p[f+3]=='l'; }
template <typename P, int K, typename G> static void null_(P& v, bool& has, G get) { auto b=Buf<char>::any(0,N()); Res r=from<K>(v,b); agree(b,r); int f=ref_ws(b.p,b.n); bool z=nul(b,f), l= f<b.n && b.p[f]>='A' && b.p[f]<='Z'; sx_assert(r.ok==(z || l),"accepted exactly if null or a value"); if (z) { sx_reach("null"); sx_assert(!get(has).v && !has,"null: empty"); sx_assert(r.end==b.p+f+4,"end directly behind null"); } else if (l) { sx_reach("value"); E e=get(has); sx_assert(has && e==E(b.p[f]),"otherwise exactly the value"); sx_assert(r.end==b.p+f+1,"end directly behind the value"); } else { sx_reach("bad"); if (K!=INP) sx_assert(r.end==b.p+f,"end at the offending input"); } }
SX_ENTRY(ptr) { E* v=nullptr; bool h; null_<E*,PTR>(v,h,[&](bool& h) { h= v!=nullptr; return h ? *v : E('\0'); }); delete v; }
SX_ENTRY(ptr_inp) { E* v=nullptr; bool h; null_<E*,INP>(v,h,[&](bool& h) { h= v!=nullptr; return h ? *v : E('\0'); }); delete v; }
SX_ENTRY(uptr) { std::unique_ptr<E> v; if (sx_range(0,1,"pre")) v.reset(new E('z')); bool h; null_<std::unique_ptr<E>,FWD>(v,h,[&](bool& h) { h= bool(v); return h ? *v : E('\0'); }); }
SX_ENTRY(sptr) { std::shared_ptr<E> v; if (sx_range(0,1,"pre")) v.reset(new E('z')); bool h; null_<std::shared_ptr<E>,PTR>(v,h,[&](bool& h) { h= bool(v); return h ? *v : E('\0'); }); }
#if __cplusplus>=201703L
SX_ENTRY(opt) { std::optional<E> v; if (sx_range(0,1,"pre")) v=E('z'); bool h; null_<std::optional<E>,PTR>(v,h,[&](bool& h) { h= v.has_value(); return h ? *v : E('\0'); }); }
SX_ENTRY(opt_inp) { std::optional<E> v; if (sx_range(0,1,"pre")) v=E('z'); bool h; null_<std::optional<E>,INP>(v,h,[&](bool& h) { h= v.has_value(); return h ? *v : E('\0'); }); }
SX_ENTRY(w_opt) { std::optional<E> v; if (sx_range(0,1,"has")) v=E(ltr("v")); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); sx_assert(v ? o.size()==1 && o[0]==v->v : o=="null","null or the value"); std::optional<E> u=E('z'); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); sx_reach("done"); }
SX_ENTRY(w_optv) { std::vector<std::optional<E>> v((size_t)sx_range(0,2,"n")); for (auto& x : v) if (sx_range(0,1,"has")) x=E(ltr("v")); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); std::vector<std::optional<E>> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); sx_reach("done"); }
#endif
SX_ENTRY(w_ptr) { E* v= sx_range(0,1,"has") ? new E(ltr("v")) : nullptr; std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); E* u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && !u==!v && (!v || *u==*v),"reads back"); delete v; delete u; sx_reach("done"); }
SX_ENTRY(w_uptr) { std::unique_ptr<E> v(sx_range(0,1,"has") ? new E(ltr("v")) : nullptr), u(new E('z')); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && !u==!v && (!v || *u==*v),"reads back"); sx_reach("done"); }
SX_ENTRY(w_sptr) { std::shared_ptr<E> v(sx_range(0,1,"has") ? new E(ltr("v")) : nullptr), u(new E('z')); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && !u==!v && (!v || *u==*v),"reads back"); sx_reach("done"); }
SX_ENTRY(strptr) { auto b=Buf<char>::any(0,N()); char z0='z', *v=&z0; Res r=from<PTR>(v,b); agree(b,r); int f=ref_ws(b.p,b.n); bool z=nul(b,f); Txt t; int l=ref_string(b.p,b.n,f,&t); sx_assert(r.ok==(z || l>=0),"accepted exactly if null or a string"); if (z) sx_assert(!v && r.end==b.p+f+4,"null: no string"); else if (l>=0) { sx_assert(v!=nullptr && r.end==b.p+l,"otherwise the string"); char s[16]; int n=0; for (int i=0;i<t.n;++i) n+=ref_put_utf8(s+n,t.c[i]); s[n]=0; bool eq=true; for (int i=0;i<=n;++i) eq&= v[i]==s[i]; sx_assert(eq,"its characters, zero terminated"); } else sx_assert(v==&z0,"the target is untouched"); if (v && v!=&z0) ::operator delete((void*)v); }
// bit sets
template <size_t B, int K> static void bits(const Buf<char>& b) { std::bitset<B> v; v.set(); Res r=from<K>(v,b); agree(b,r); int f=ref_ws(b.p,b.n); bool ok= b.n-f>=(int)B+2 && b.p[f]=='"' && b.p[f+B+1]=='"'; if (ok) for (size_t i=0;i<B;++i) ok&= (b.p[f+1+i]&~1)=='0'; sx_assert(r.ok==ok,"accepted exactly if it is a string of that many bits"); if (ok) { sx_reach("ok"); bool eq=true; for (size_t i=0;i<B;++i) eq&= v[B-1-i]==(b.p[f+1+i]=='1'); sx_assert(eq,"each bit at its place"); sx_assert(r.end==b.p+f+B+2,"end directly behind the string"); } else sx_reach("bad"); }
SX_ENTRY(bits1) { bits<1,PTR>(Buf<char>::any(0,5)); } SX_ENTRY(bits2) { bits<2,INP>(Buf<char>::any(0,6)); } SX_ENTRY(bits9) { Mk m; m.s("\""); m.any(10); m.any((int)sx_range(0,1,"n")); bits<9,FWD>(m.done()); }
SX_ENTRY(w_bits) { std::bitset<9> v((unsigned long)sx_any<unsigned short>("v")&511); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); std::bitset<9> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); std::bitset<0> z; o.clear(); sx_assert(bool(cxon::to_bytes(o,z)) && o=="\"\"","no bits"); auto q=cxon::from_bytes(z,o); sx_assert(bool(q) && q.end==o.end(),"reads back"); sx_reach("done"); }
// complex numbers, durations
SX_ENTRY(w_cplx) { std::complex<int> v(sx_any<signed char>("r"),sx_any<signed char>("i")); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); std::complex<int> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); sx_reach("done"); }
SX_ENTRY(cplx) { auto b=Buf<char>::any(0,N()); std::complex<int> v(7,8); Res r=from<PTR>(v,b); agree(b,r); const char* p=b.p; int n=b.n, i=ref_ws(p,n); if (r.ok) { sx_assert(i<n && p[i]=='[',"a list"); sx_assert(r.end[-1]==']',"closed"); int c=0, k=0; for (const char* q=p+i;q<r.end;++q) { c+= *q==','; k+= *q=='[' || *q==']'; } sx_assert(c==1 && k==2,"of two numbers"); } if (n-i==5 && p[i]=='[' && p[i+2]==',' && p[i+4]==']' && p[i+1]>='0' && p[i+1]<='9' && p[i+3]>='0' && p[i+3]<='9') sx_assert(r.ok && v.real()==p[i+1]-'0' && v.imag()==p[i+3]-'0',"real, then imaginary"); }
SX_ENTRY(w_dur) { std::chrono::seconds v(sx_any<short>("v")), u; std::string o, p; sx_assert(bool(cxon::to_bytes(o,v)),"written"); sx_assert(bool(cxon::to_bytes(p,v.count())) && o==p,"as its count"); auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==v,"reads back"); std::chrono::time_point<std::chrono::system_clock,std::chrono::milliseconds> t(std::chrono::milliseconds(v.count())), s; o.clear(); sx_assert(bool(cxon::to_bytes(o,t)) && o==p,"as its count"); auto q=cxon::from_bytes(s,o); sx_assert(bool(q) && s==t,"reads back"); sx_reach("done"); }
#if __cplusplus>=201703L
// variants: the alternative is chosen by the kind of the value
using V=std::variant<std::monostate,bool,unsigned char,std::string,std::vector<E>,std::map<std::string,E>>;
static int lit(const char* p, int n, int i, const char* s) { int k=0; for (;s[k];++k) if (i+k>=n || p[i+k]!=s[k]) return -1; return i+k; }
static int list(const char* p, int n, int i) { i=ref_ws(p,n,i+1); if (i<n && p[i]==']') return i+1; for (;;) { i=ref_ws(p,n,i); if (i>=n || p[i]<'A' || p[i]>'Z') return -1; i=ref_ws(p,n,i+1); if (i>=n) return -1; if (p[i]==']') return i+1; if (p[i]!=',') return -1; ++i; } }
static int map(const char* p, int n, int i) { i=ref_ws(p,n,i+1); if (i<n && p[i]=='}') return i+1; for (;;) { i=ref_string(p,n,ref_ws(p,n,i)); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n || p[i]!=':') return -1; i=ref_ws(p,n,i+1); if (i>=n || p[i]<'A' || p[i]>'Z') return -1; i=ref_ws(p,n,i+1); if (i>=n) return -1; if (p[i]=='}') return i+1; if (p[i]!=',') return -1; ++i; } }
template <int K> static void var_(const Buf<char>& b) { V v; v=(unsigned char)200; Res r=from<K>(v,b); agree(b,r); const char* p=b.p; int n=b.n, f=ref_ws(p,n), l=-1, k=-1; if (f<n) switch (p[f]) { case 'n': l=lit(p,n,f,"null"); k=0; break; case 't': l=lit(p,n,f,"true"); k=1; break; case 'f': l=lit(p,n,f,"false"); k=1; break; case '"': l=ref_string(p,n,f); k=3; break; case '[': l=list(p,n,f); k=4; break; case '{': l=map(p,n,f); k=5; break; case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': k=2; break; }
    if (k==2) { if (r.ok) { sx_assert(v.index()==2 && r.end>p+f,"a number"); for (const char* q=p+f;q<r.end;++q) sx_assert(*q>='0' && *q<='9',"only its digits"); } return; }
    sx_assert(r.ok==(l>=0),"accepted exactly if it is a value of an alternative"); if (r.ok) { sx_reach("ok"); sx_assert((int)v.index()==k,"the alternative of its kind"); sx_assert(r.end==p+l,"end directly behind the value"); if (k==1) sx_assert(std::get<1>(v)==(p[f]=='t'),"its value"); } else { sx_reach("bad"); sx_assert(v.index()==2,"the target is untouched"); } }
SX_ENTRY(var) { var_<PTR>(Buf<char>::any(0,N()-1)); } SX_ENTRY(var_inp) { var_<INP>(Buf<char>::any(0,N()-1)); }
SX_ENTRY(var_map) { Mk m; m.s("{\""); m.any((int)sx_range(0,1,"n")); m.s("\":"); m.any((int)sx_range(1,3,"n")); var_<FWD>(m.done()); }
// ambiguous alternatives: { index : value }
using A=std::variant<E,std::monostate,E>;
static void amb_(const Buf<char>& b) { A v{std::in_place_index<2>,E('z')}; Res r=from<PTR>(v,b); agree(b,r); const char* p=b.p; int n=b.n, i=ref_ws(p,n); bool ok=false; int k=-1, vp=0; do { if (i>=n || p[i]!='{') break; i=ref_ws(p,n,i+1); if (i>=n || p[i]!='"') break; ++i; if (i>=n || p[i]<'0' || p[i]>'9') break; k=p[i]-'0'; ++i; while (i<n && p[i]>='0' && p[i]<='9' ) k= k>9 ? 99 : k*10+(p[i]-'0'), ++i; if (k>2) break; if (i>=n || p[i]!='"') break; i=ref_ws(p,n,i+1); if (i>=n || p[i]!=':') break; i=ref_ws(p,n,i+1); vp=i; if (k==1) { i=lit(p,n,i,"null"); if (i<0) break; } else { if (i>=n || p[i]<'A' || p[i]>'Z') break; ++i; } i=ref_ws(p,n,i); if (i>=n || p[i]!='}') break; ok=true; ++i; } while (0);
    bool odd=false; for (int q=1;q<n;++q) odd|= (p[q-1]=='0' && p[q]>='0' && p[q]<='9') || (ref_ws(p+q,1)==1 && (p[q-1]=='"' || (q+1<n && p[q+1]=='"') || (q+2<n && ref_ws(p+q+1,1)==1) || (q>1 && ref_ws(p+q-1,1)==1))); if (odd) return;
    sx_assert(r.ok==ok,"accepted exactly with the index of an alternative and its value"); if (ok) { sx_reach("ok"); sx_assert((int)v.index()==k && r.end==p+i,"the alternative of the index"); if (k==0) sx_assert(std::get<0>(v)==E(p[vp]),"its value"); if (k==2) sx_assert(std::get<2>(v)==E(p[vp]),"its value"); } else { sx_reach("bad"); } }
SX_ENTRY(amb) { amb_(Buf<char>::any(0,N()+1)); } SX_ENTRY(amb2) { Mk m; m.s("{\""); m.any((int)sx_range(1,3,"n")); m.s("\":"); m.any((int)sx_range(1,2,"n")); m.s("}"); amb_(m.done()); } SX_ENTRY(amb3) { Mk m; m.s("{\"1\":nul"); m.any((int)sx_range(1,3,"n")); amb_(m.done()); }
SX_ENTRY(w_var) { V v; switch (sx_range(0,5,"k")) { case 1: v=sx_range(0,1,"b")!=0; break; case 2: v=sx_any<unsigned char>("n"); break; case 3: { std::string s((size_t)sx_range(0,1,"l"),'x'); for (auto& c : s) { c=sx_any<char>("c"); sx_assume(c>=0); } v=s; break; } case 4: v=std::vector<E>((size_t)sx_range(0,2,"l"),E(ltr("v"))); break; case 5: { std::map<std::string,E> m; if (sx_range(0,1,"l")) m["k"]=E(ltr("v")); v=m; break; } } std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); V u=(unsigned char)9; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==v,"to the same alternative and value"); sx_reach("done"); }
SX_ENTRY(w_amb) { A v; switch (sx_range(0,2,"k")) { case 0: v.emplace<0>(E(ltr("v"))); break; case 1: v.emplace<1>(); break; case 2: v.emplace<2>(E(ltr("v"))); break; } std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); A u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==v,"to the same alternative and value"); sx_reach("done"); }
// alternatives of like kinds are told apart by index, also nested
using M=std::variant<int,short,std::variant<bool,std::monostate>>;
SX_ENTRY(w_amb_n) { M v; switch (sx_range(0,3,"k")) { case 0: v=int(sx_any<signed char>("n")); break; case 1: v=short(sx_any<signed char>("n")); break; case 2: v=std::variant<bool,std::monostate>(sx_range(0,1,"b")!=0); break; case 3: v=std::variant<bool,std::monostate>(std::monostate()); break; } std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); M u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==v,"to the same alternative and value"); sx_reach("done"); }
SX_ENTRY(w_var_nan) { using F=std::variant<bool,double,std::string>; F v=__builtin_inf(); if (sx_range(0,1,"s")) v=-__builtin_inf(); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); F u; auto r=cxon::from_bytes(u,o); sx_known(bool(r) && u==v,"J09-inf","an infinity in a variant reads back"); sx_reach("done"); }
#endif
// sizes around the limits of 8 bit counters
template <int N> static void szbits() { std::bitset<N> b; for (int i=0;i<N;++i) b[i]= i%3==1; bool x=sx_range(0,1,"x"), y=sx_range(0,1,"y"); b[N-1]=x; b[0]=y; std::string o; sx_assert(bool(cxon::to_bytes(o,b)),"written"); std::string w="\""; for (int i=N;i-->0;) w+= b[i] ? '1' : '0'; w+='"'; sx_assert(o==w,"the bits, the highest first"); std::bitset<N> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end() && u==b,"reads back"); std::string s=o; s.erase(1,1); std::bitset<N> v; sx_assert(!cxon::from_bytes(v,s),"one bit less is refused"); s=o; s.insert(1,"0"); sx_assert(!cxon::from_bytes(v,s),"one bit more is refused"); sx_reach("done"); }
SX_ENTRY(w_sz_bits) { switch (sx_range(0,3,"n")) { case 0: szbits<255>(); break; case 1: szbits<256>(); break; case 2: szbits<257>(); break; default: szbits<300>(); } }
