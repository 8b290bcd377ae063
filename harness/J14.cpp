//@std 20 11
//@bounds values of 0..N bytes (quick N=7, thorough N=9), every byte symbolic, that are one well-formed JSON value (RFC 8259) with whitespace around it, inside an object, a list or alone; structured values up to 14 bytes with symbolic string contents; every proper prefix of such inputs; nesting of 63..300 levels, strings and lists of 24..300 elements; pointers, forward and single-pass iterators; skipping and capturing
//@assume what is skipped for malformed values is not judged (brackets are counted, not validated), only that it stays inside the input; a captured scalar may include the whitespace behind it; a scalar that is a whole document of its own is not judged
//@reach in_obj in_obj_fwd in_obj_inp in_list doc doc_inp: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
namespace cv = cxon::cio::val;
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='a' && *i<='z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
struct SK { E a; CXON_JSON_CLS_MEMBER(SK, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("s")) };
struct CS { E a; cv::sink<std::string> s; CXON_JSON_CLS_MEMBER(CS, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(s)) };
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <int K, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
// reference: one JSON value at i (no whitespace in front): the end or -1
static int lit(const char* p, int n, int i, const char* s) { int k=0; for (;s[k];++k) if (i+k>=n || p[i+k]!=s[k]) return -1; return i+k; }
static int dig(const char* p, int n, int i) { while (i<n && p[i]>='0' && p[i]<='9') ++i; return i; }
static int num(const char* p, int n, int i) { if (i<n && p[i]=='-') ++i; int j=dig(p,n,i); if (j==i || (p[i]=='0' && j>i+1)) return -1; i=j; if (i<n && p[i]=='.') { j=dig(p,n,i+1); if (j==i+1) return -1; i=j; } if (i<n && (p[i]=='e' || p[i]=='E')) { ++i; if (i<n && (p[i]=='+' || p[i]=='-')) ++i; j=dig(p,n,i); if (j==i) return -1; i=j; } return i; }
static int val(const char* p, int n, int i, int depth=0) { if (i>=n || depth>8) return -1; switch (p[i]) { case '"': return ref_string(p,n,i); case 't': return lit(p,n,i,"true"); case 'f': return lit(p,n,i,"false"); case 'n': return lit(p,n,i,"null");
    case '[': i=ref_ws(p,n,i+1); if (i<n && p[i]==']') return i+1; for (;;) { i=val(p,n,ref_ws(p,n,i),depth+1); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n) return -1; if (p[i]==']') return i+1; if (p[i]!=',') return -1; ++i; }
    case '{': i=ref_ws(p,n,i+1); if (i<n && p[i]=='}') return i+1; for (;;) { i=ref_string(p,n,ref_ws(p,n,i)); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n || p[i]!=':') return -1; i=val(p,n,ref_ws(p,n,i+1),depth+1); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n) return -1; if (p[i]=='}') return i+1; if (p[i]!=',') return -1; ++i; }
    default: return num(p,n,i); } }
struct Mk { Buf<char> b; int n; Mk() : b(96), n(0) {} void s(const char* x) { while (*x) b.p[n++]=*x++; } void c(char x) { b.p[n++]=x; } void letter() { char x=sx_any<char>("v"); sx_assume(x>='a' && x<='z'); c(x); } void any(int k) { for (int i=0;i<k;++i) c(sx_any<char>("k")); } Buf<char> done() { Buf<char> r(n); for (int i=0;i<n;++i) r.p[i]=b.p[i]; return r; } };
static int N() { return (int)sx_bound(7,9); }
// the captured text: the value, possibly with the whitespace behind it for scalars
static void same(const std::string& s, const char* f, const char* v, const char* l) { (void)f; size_t k=v-f; bool scl= *f!='[' && *f!='{' && *f!='"'; sx_assert(s.size()==k || (scl && s.size()==size_t(l-f)),"exactly the bytes of the value are captured"); bool eq=true; for (size_t i=0;i<s.size() && i<k;++i) eq&= s[i]==f[i]; sx_assert(eq,"exactly the bytes of the value are captured"); }
// V is placed at v..v+k: well-formed with whitespace around; positions of the value
static bool well(const Buf<char>& b, int v, int k, int& f, int& l) { f=ref_ws(b.p,v+k,v); l=val(b.p,v+k,f); if (l<0) return false; return ref_ws(b.p,v+k,l)==v+k; }
template <typename T> struct cap { static void chk(const T&, const Buf<char>&, int, int, int) {} };
template <> struct cap<CS> { static void chk(const CS& t, const Buf<char>& b, int f, int l, int e) { same(t.s.value,b.p+f,b.p+l,b.p+e); } };
template <typename T, int K> static void obj(Mk& m, int v) { int k=m.n-v; m.s(",\"a\":"); m.letter(); m.s("}"); auto b=m.done(); int f,l; sx_assume(well(b,v,k,f,l)); T t; Res r=from<K>(t,b); sx_assert(r.ok && !r.ec,"an unknown value is skipped"); sx_assert(r.end==b.p+b.n && t.a==E(b.p[b.n-2]),"reading continues behind it"); cap<T>::chk(t,b,f,l,v+k); sx_reach("done"); }
template <typename T, int K> static void in_obj_() { Mk m; m.s("{\"s\":"); m.any((int)sx_range(1,N(),"n")); obj<T,K>(m,5); }
SX_ENTRY(in_obj) { in_obj_<CS,PTR>(); } SX_ENTRY(in_obj_fwd) { in_obj_<SK,FWD>(); } SX_ENTRY(in_obj_inp) { in_obj_<CS,INP>(); }
// last member: the object ends behind the value
SX_ENTRY(last) { Mk m; m.s("{\"a\":"); m.letter(); m.s(",\"s\":"); int v=m.n; m.any((int)sx_range(1,N()-1,"n")); int k=m.n-v; m.s("}"); auto b=m.done(); int f,l; sx_assume(well(b,v,k,f,l)); CS t; Res r=from<PTR>(t,b); sx_assert(r.ok && r.end==b.p+b.n && t.a==E(b.p[5]),"the object ends behind it"); same(t.s.value,b.p+f,b.p+l,b.p+v+k); }
// strings: escapes, quotes and brackets inside
SX_ENTRY(str) { Mk m; m.s("{\"s\":\""); m.any((int)sx_range(0,(int)sx_bound(4,6),"n")); m.s("\""); obj<CS,PTR>(m,5); }
SX_ENTRY(str_list) { Mk m; m.s("{\"s\":[\""); m.any((int)sx_range(0,(int)sx_bound(3,5),"n")); m.s("\",\""); m.any((int)sx_range(0,2,"n")); m.s("\"]"); obj<SK,FWD>(m,5); }
SX_ENTRY(str_obj) { Mk m; m.s("{\"s\":{\""); m.any((int)sx_range(0,2,"n")); m.s("\":\""); m.any((int)sx_range(0,2,"n")); m.s("\"}"); obj<CS,INP>(m,5); }
SX_ENTRY(nested) { Mk m; m.s("{\"s\":[{\"k\":["); m.any((int)sx_range(0,3,"n")); m.s("]},"); m.any((int)sx_range(1,3,"n")); m.s("]"); obj<CS,PTR>(m,5); }
SX_ENTRY(deep) { Mk m; m.s("{\"s\":"); int k=(int)sx_range(1,7,"d"); int o[8]; for (int i=0;i<k;++i) { o[i]=(int)sx_range(0,1,"o"); m.s(o[i] ? "{\"\":" : "["); } m.any(1); for (int i=k;i-->0;) m.s(o[i] ? "}" : "]"); obj<SK,PTR>(m,5); }
// lists of captured values
SX_ENTRY(in_list) { Mk m; m.s("["); m.any((int)sx_range(1,(int)sx_bound(4,5),"n")); int c=m.n; m.s(","); m.any((int)sx_range(1,(int)sx_bound(3,4),"n")); int e=m.n; m.s("]"); auto b=m.done(); int f,l,g,h; sx_assume(well(b,1,c-1,f,l) && well(b,c+1,e-c-1,g,h)); std::vector<cv::sink<std::string>> v; Res r=from<PTR>(v,b); sx_assert(r.ok && r.end==b.p+b.n && v.size()==2,"two values"); same(v[0].value,b.p+f,b.p+l,b.p+c); same(v[1].value,b.p+g,b.p+h,b.p+e); sx_reach("done"); }
// a document: containers and strings
template <int K> static void doc_() { Mk m; int ws=(int)sx_range(0,1,"w"); if (ws) m.any(1); static const char* const os[]={"[","{","\""}; m.s(os[sx_range(0,2,"o")]); m.any((int)sx_range(1,N()-1,"n")); auto b=m.done(); int f=ref_ws(b.p,b.n,0); sx_assume(f==ws); int l=val(b.p,b.n,f); sx_assume(l>0); cv::sink<std::string> s; Res r=from<K>(s,b); sx_assert(r.ok && r.end==b.p+l,"exactly the value is consumed"); same(s.value,b.p+f,b.p+l,b.p+l); sx_reach("done"); }
SX_ENTRY(doc) { doc_<PTR>(); } SX_ENTRY(doc_inp) { doc_<INP>(); }
// anything at all: inside the input, and no value is taken for complete that is not
template <typename T, int K> static void any_() { Mk m; m.s("{\"s\":"); m.any((int)sx_range(0,(int)sx_bound(4,6),"n")); auto b=m.done(); T t; Res r=from<K>(t,b); sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.p && r.end<=b.p+b.n,"end inside the input"); if (r.ok) sx_assert(r.end>b.p+5 && r.end[-1]=='}',"ends with the object"); }
SX_ENTRY(any) { any_<CS,PTR>(); } SX_ENTRY(any_inp) { any_<SK,INP>(); }
// truncation: no proper prefix of a well-formed document is accepted
static const char* const docs[]={"{\"s\":[\"]\",{}],\"a\":x}","{\"s\":{\"}\":[[]]},\"a\":x}","{\"s\":\"\\\"\\\\\",\"a\":x}","{\"s\":-1.5e+3,\"a\":x}","{\"s\":[{\"a\":[\"\\\\\"]},\"[\"],\"a\":x}"};
SX_ENTRY(trunc) { const char* d=docs[sx_range(0,4,"d")]; int n=0; while (d[n]) ++n; int k=(int)sx_range(0,n,"k"); Buf<char> b(k); for (int i=0;i<k;++i) b.p[i]=d[i]; CS t; Res r=from<PTR>(t,b); sx_assert(r.ok==(k==n),"accepted exactly if complete"); if (!r.ok) sx_assert(bool(r.ec),"with an error"); SK u; Res q=from<INP>(u,b); sx_assert(q.ok==(k==n),"accepted exactly if complete"); }
// writing a captured value
SX_ENTRY(wr) { int k=(int)sx_range(0,3,"k"); CS t; t.a=E('q'); for (int i=0;i<k;++i) t.s.value+=sx_any<char>("c"); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="{\"a\":q,\"s\":"; x+=t.s.value; x+="}"; sx_assert(o==x,"exactly the captured bytes"); }
// nesting and sizes around the limits of 8 bit counters
template <typename T, int K> static void sz_(int form, int n) { std::string x="{\"s\":"; if (form<4) { for (int i=0;i<n;++i) x+= (form==3 ? i%2 : form)==0 ? "[" : form==2 ? "[{}," : "{\"k\":"; x+=char('0'+n%10); for (int i=n;i-->0;) x+= (form==3 ? i%2 : form)==1 ? '}' : ']'; } else if (form==4) { x+='"'; for (int i=0;i<n;++i) x+= i%3 ? "[" : "\\\""; x+='"'; } else { x+='['; for (int i=0;i<n;++i) x+="{},"; x+="0]"; }
    size_t e=x.size(); x+=",\"a\":"; char v=sx_any<char>("v"); sx_assume(v>='a' && v<='z'); x+=v; x+='}'; Buf<char> b((int)x.size(),Buf<char>::Raw()); memcpy(b.p,x.data(),x.size()); T t; Res r=from<K>(t,b); sx_assert(r.ok && !r.ec,"an unknown value is skipped"); sx_assert(r.end==b.p+b.n && t.a==E(v),"reading continues behind it"); cap<T>::chk(t,b,5,(int)e,(int)e); Buf<char> c((int)e-1,Buf<char>::Raw()); memcpy(c.p,b.p,e-1); T u; sx_assert(!from<K>(u,c).ok,"a truncated one is rejected"); }
SX_ENTRY(sz_deep) { int n=depth8(); sz_<CS,PTR>((int)sx_range(0,3,"form"),n); } SX_ENTRY(sz_deep_inp) { int n=depth8(); sz_<SK,INP>(3,n); } SX_ENTRY(sz_str) { int n=size8(); sz_<CS,PTR>((int)sx_range(4,5,"form"),n); }
