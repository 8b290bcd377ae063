//@std 20
//@bounds JSON text into JSON and CBOR nodes (strict number traits): any text of 0..N bytes (quick 3, thorough 5) and documents with a symbolic part of up to N bytes in an array, an object, or both, through pointers, forward and single-pass iterators; integers of 1, 2 and 18 to 21 digits with either sign; number tokens of up to 5 (thorough 7) characters in the default format, exponents of up to two digits; CBOR bytes into CBOR and JSON nodes: any item of 0..N bytes (quick 4, thorough 5), alone or inside a container or a tag; nesting of every depth up to 70 (limit 64) and around limits of 1, 4, 255, 256, 257 and 300, reading and writing, every container kind and pair of format and node; 24..300 siblings
//@assume conversions of floating-point text are a model; member names of the symbolic objects are distinct; no NaN where nodes are compared; JSON -0 is the signed integer 0, written as 0
//@reach j*_any: ok bad
//@reach j*_in*: ok bad
//@reach j*_int: sint uint real
//@reach b*_any: ok bad
//@reach b*_in*: ok bad
//@reach d*: within beyond
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "h_num.h"
#include "h_cbor.h"
#include "h_node.h"
struct strict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
using J=cxon::JSON<>; using JS=cxon::JSON<strict>; using B=cxon::CBOR<>; using jnd=cxon::json::node; using cnd=cxon::cbor::node; using jod=cxon::json::ordered_node; using cod=cxon::cbor::ordered_node;
// ---- JSON: the end of the value at i (RFC 8259), or -1; f: 1 a real, 2 a minus zero
static int jref(const char* p, int n, int i, int& f);
static bool jlit(const char* p, int n, int i, const char* s) { int l=(int)strlen(s); if (n-i<l) return false; for (int k=0;k<l;++k) if (p[i+k]!=s[k]) return false; return true; }
static int jref(const char* p, int n, int i, int& f) { i=ref_ws(p,n,i); if (i>=n) return -1; switch (p[i]) {
    case '{': i=ref_ws(p,n,i+1); if (i<n && p[i]=='}') return i+1; for (;;) { i=ref_string(p,n,ref_ws(p,n,i)); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n || p[i]!=':') return -1; i=jref(p,n,i+1,f); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n) return -1; if (p[i]=='}') return i+1; if (p[i]!=',') return -1; ++i; }
    case '[': i=ref_ws(p,n,i+1); if (i<n && p[i]==']') return i+1; for (;;) { i=jref(p,n,i,f); if (i<0) return -1; i=ref_ws(p,n,i); if (i>=n) return -1; if (p[i]==']') return i+1; if (p[i]!=',') return -1; ++i; }
    case '"': return ref_string(p,n,i); case 't': return jlit(p,n,i,"true") ? i+4 : -1; case 'f': return jlit(p,n,i,"false") ? i+5 : -1; case 'n': return jlit(p,n,i,"null") ? i+4 : -1;
    default: { int e=ref_number(p,n,i); if (e>=0) { bool r=false; for (int k=i;k<e;++k) r|= p[k]=='.' || p[k]=='e' || p[k]=='E'; if (r) f|=1; else if (e-i==2 && p[i]=='-' && p[i+1]=='0') f|=2; } return e; } } }
static bool fits(const char* p, int b, int e) { bool neg= p[b]=='-'; if (neg) ++b; return !ref_dec_gt(p+b,e-b,neg ? "9223372036854775808" : "18446744073709551615"); }
// the node against the text it was read from
template <typename N> static int walk(const N& t, const char* p, int n, int i) { int f=0; i=ref_ws(p,n,i); switch (p[i]) {
    case '{': { sx_assert(t.template is<typename nt<N>::obj>(),"an object is an object node"); auto& o=t.template get<typename nt<N>::obj>(); int c=0; i=ref_ws(p,n,i+1); if (p[i]=='}') { sx_assert(o.empty(),"no members"); return i+1; }
        for (;;) { Txt k; i=ref_ws(p,n,i); i=ref_string(p,n,i,&k); char u[64]; int l=0; for (int j=0;j<k.n;++j) l+=ref_put_utf8(u+l,k.c[j]); i=ref_ws(p,n,i)+1; ++c; const N* m=nullptr; for (auto& kv : o) { auto* s=kv.first.template get_if<typename nt<N>::str>(); if (s && (int)s->size()==l && !memcmp(s->data(),u,l)) { m=&kv.second; break; } } sx_assert(m,"every member is there"); i=walk(*m,p,n,i); i=ref_ws(p,n,i); if (p[i]=='}') { sx_assert((int)o.size()==c,"no other members"); return i+1; } ++i; } }
    case '[': { sx_assert(t.template is<typename N::array>(),"an array is an array node"); auto& a=t.template get<typename N::array>(); int c=0; i=ref_ws(p,n,i+1); if (p[i]==']') { sx_assert(a.empty(),"no elements"); return i+1; } for (;;) { sx_assert(c<(int)a.size(),"every element is there"); i=walk(a[c++],p,n,i); i=ref_ws(p,n,i); if (p[i]==']') { sx_assert((int)a.size()==c,"no other elements"); return i+1; } ++i; } }
    case '"': { Txt k; int e=ref_string(p,n,i,&k); char u[64]; int l=0; for (int j=0;j<k.n;++j) l+=ref_put_utf8(u+l,k.c[j]); auto* s=t.template get_if<typename nt<N>::str>(); sx_assert(s,"a string is a string node"); bool same= (int)s->size()==l; for (int j=0;same && j<l;++j) same&= (*s)[j]==u[j]; sx_assert(same,"with its text"); return e; }
    case 't': sx_assert(t.template is<bool>() && t.template get<bool>(),"true"); return i+4; case 'f': sx_assert(t.template is<bool>() && !t.template get<bool>(),"false"); return i+5; case 'n': sx_assert(t.template is<std::nullptr_t>(),"null"); return i+4;
    default: { int e=jref(p,n,i,f); if ((f&1) || !fits(p,i,e)) sx_assert(t.template is<double>(),"a number with a fraction, an exponent or more than 64 bits is a real node");
        else if (p[i]=='-') sx_assert(t.template is<long long>() && (u64)t.template get<long long>()==0-ref_dec_val(p+i+1,e-i-1),"a negative integer is exact"); else sx_assert(t.template is<unsigned long long>() && t.template get<unsigned long long>()==ref_dec_val(p+i,e-i),"a positive integer is exact"); return e; } } }
template <typename X, typename N> static bool rd(N& t, const Buf<char>& b, int it, int& e) { if (it==1) { auto r=cxon::from_bytes<X>(t,Fwd<>(b.p),Fwd<>(b.p+b.n)); e=int(r.end.p-b.p); return bool(r); } if (it==2) { const char* p=b.p; auto r=cxon::from_bytes<X>(t,Inp<>(&p,b.p+b.n),Inp<>::end_of(b.p+b.n)); e=int(p-b.p); return bool(r); } auto r=cxon::from_bytes<X>(t,b.begin(),b.end()); e=int(r.end-b.p); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); return bool(r); }
template <typename N> static void doc(const Buf<char>& b, int its) { N t; int e=0, f=0; bool r=rd<JS>(t,b,(int)sx_range(0,its,"it"),e); int x=jref(b.p,b.n,0,f); sx_assert(r==(x>=0),"accepted exactly when it is a JSON value"); if (!r) { sx_reach("bad"); return; } sx_reach("ok"); sx_assert(e==x,"end is one past the value"); walk(t,b.p,b.n,0);
    if (f) return; std::string s; sx_assert(bool(cxon::to_bytes<JS>(s,t)),"the node is written"); N u; auto q=cxon::from_bytes<JS>(u,s); sx_assert(bool(q) && q.end==s.end(),"what was written is read"); sx_assert(u==t,"and gives an equal node"); }
template <typename N> static void jany() { doc<N>(Buf<char>::any(0,(int)sx_bound(3,5)),2); }
template <typename N> static void jin(const char* h, const char* t, int lo, int hi) { int a=(int)strlen(h), z=(int)strlen(t), k=(int)sx_range(0,(int)sx_bound(lo,hi),"n"); Buf<char> b(a+k+z); memcpy(b.p,h,a); memcpy(b.p+a+k,t,z); doc<N>(b,0); }
#define JN(nm,N) SX_ENTRY(j##nm##_any) { jany<N>(); } SX_ENTRY(j##nm##_in_a) { jin<N>("[1,","]",3,4); } SX_ENTRY(j##nm##_in_o) { jin<N>("{\"k\":","}",3,4); } SX_ENTRY(j##nm##_in_oa) { jin<N>("{\"a\":[","],\"b\":{}}",2,4); } SX_ENTRY(j##nm##_in_ao) { jin<N>("[{\"a\":1","},null]",2,4); } SX_ENTRY(j##nm##_in_s) { jin<N>("\"a","\"",2,3); } SX_ENTRY(j##nm##_in_l) { jin<N>("[tr","]",3,4); }
JN(j,jnd) JN(c,cnd) JN(k,jod) JN(d,cod)
// integers: every digit string
template <typename X, typename N> static void jint() { int neg=(int)sx_range(0,1,"neg"); const char* lim= neg ? "9223372036854775808" : "18446744073709551615"; int m=(int)strlen(lim), n=(int[]){1,2,m-1,m,m+1}[sx_range(0,4,"digits")]; Buf<char> b(neg+n+1); char* d=b.p+neg; if (neg) b.p[0]='-';
    if (n<m) for (int i=0;i<n;++i) d[i]= i==0 && n>1 ? char(49+((u8)d[i]&15u)%9u) : ref_dig(d[i]); // from m digits on one path per length q of the prefix shared with the limit, below and above it
    else { int q=(int)sx_range(0,m,"prefix"), up=q<m ? (int)sx_range(0,1,"above") : 0; for (int i=0;i<n;++i) if (i<q && i<m) d[i]=lim[i]; else if (i>q || i>=m) d[i]=ref_dig(d[i]); else { int lo= up ? lim[i]+1 : i==0 ? '1' : '0', w= up ? '9'+1-lo : lim[i]-lo; sx_assume(w>0); d[i]=char((unsigned)lo+((u8)d[i]&15u)%(unsigned)w); } }
    b.p[neg+n]=' '; N t; int e; bool r=rd<X>(t,b,(int)sx_range(0,2,"it"),e); sx_assert(r && e==neg+n,"an integer is read"); bool f=fits(b.p,0,neg+n); sx_assert(t.template is<double>()==!f,"a real node exactly when the value needs more than 64 bits"); if (!f) { sx_reach("real"); return; }
    u64 v=ref_dec_val(b.p+neg,n); if (neg) { sx_reach("sint"); sx_assert(t.template is<long long>() && t.template get<long long>()==(long long)(0-v),"a negative integer is exact"); } else { sx_reach("uint"); sx_assert(t.template is<unsigned long long>() && t.template get<unsigned long long>()==v,"a positive integer is exact"); } }
SX_ENTRY(jj_int) { jint<J,jnd>(); } SX_ENTRY(jc_int) { jint<J,cnd>(); } SX_ENTRY(jjs_int) { jint<JS,jnd>(); }
// default format: whatever number is accepted is a number (the conversion functions also take "1." and ".5"-less forms)
template <typename N> static void jtok() { int n=(int)sx_range(1,(int)sx_bound(5,7),"n"), it=(int)sx_range(0,2,"it"); Buf<char> b(n+2); b.p[0]='['; b.p[n+1]=']'; for (int i=1;i<=n;++i) { static const char al[16]={'-','+','0','1','2','3','4','5','6','7','8','9','.','e','E','0'}; b.p[i]=al[b.p[i]&15]; } N t; int e; bool r=rd<J>(t,b,it,e); int x=ref_number(b.p,n+1,1); 
    int xd=0; for (int i=1,q=0;i<=n;++i) { if (q && b.p[i]>='0' && b.p[i]<='9') ++xd; if (b.p[i]=='e' || b.p[i]=='E') q=1; } if (xd>2) return; // may be out of range
    if (x==n+1) { sx_assert(r && e==n+2,"every JSON number is accepted"); sx_reach("number"); return; }
    // not a JSON number: with "0"s or nothing put after the point it has to become one
    if (r) { char c[32]; int l=0, i=1; while (i<n+1) { c[l++]=b.p[i]; if (b.p[i]=='.' && !(i+1<n+1 && b.p[i+1]>='0' && b.p[i+1]<='9')) c[l++]='0'; ++i; } sx_assert(ref_number(c,l,0)==l,"nothing else than a number is accepted as one"); } sx_reach("other"); }
SX_ENTRY(t_json) { jtok<jnd>(); } SX_ENTRY(t_cbor) { jtok<cnd>(); }
// ---- CBOR: the end of the item at i, or -1; f: 1 a NaN, 2 a byte string, 4 undefined, 8 simple
static int cref(const u8* p, int n, int i, int& f, int d=0) { if (i>=n || d>6) return -1; Head h=ref_head(p+i,n-i); if (!h.ok) return -1; int b=i; i+=h.len; switch (h.major) {
    case 0: return h.indef ? -1 : i; case 1: return h.indef || h.arg>0x7FFFFFFFFFFFFFFFull ? -1 : i;
    case 2: if (d<6) f|=2; case 3: if (!h.indef) return h.arg>(u64)(n-i) ? -1 : i+(int)h.arg; for (;;) { if (i>=n) return -1; if (p[i]==0xFF) return i+1; Head g=ref_head(p+i,n-i); if (!g.ok || g.indef || g.major!=h.major || g.arg>(u64)(n-i-g.len)) return -1; i+=g.len+(int)g.arg; }
    case 4: case 5: { int w= h.major==5 ? 2 : 1; if (!h.indef) { if (h.arg>(u64)(n-i)) return -1; for (u64 k=0;k<h.arg*w;++k) { i=cref(p,n,i,f,d+1); if (i<0) return -1; } return i; } for (;;) { if (i>=n) return -1; if (p[i]==0xFF) return i+1; for (int k=0;k<w;++k) { i=cref(p,n,i,f,d+1); if (i<0) return -1; } } }
    case 6: return h.indef ? -1 : cref(p,n,i,f,d+1);
    default: if (h.indef) return -1; if (h.ai==23) f|=4; if (h.ai<20 || h.ai==24) f|=8; if (h.ai==24) return (h.arg>=20 && h.arg<24) || (h.arg>24 && h.arg<32) ? -1 : i; if (h.ai==25 && (h.arg&0x7C00)==0x7C00 && (h.arg&0x3FF)) f|=1; if (h.ai==26 && (h.arg&0x7F800000)==0x7F800000 && (h.arg&0x7FFFFF)) f|=1; if (h.ai==27 && (h.arg&0x7FF0000000000000)==0x7FF0000000000000 && (h.arg&0xFFFFFFFFFFFFF)) f|=1; return i; } (void)b; }
template <typename N> static bool kind_of(const N& t, const u8* p) { int m=p[0]>>5, a=p[0]&31; switch (m) { case 0: return t.template is<unsigned long long>(); case 1: return t.template is<long long>(); case 3: return t.template is<typename nt<N>::str>(); case 4: return t.template is<typename N::array>(); case 5: return t.template is<typename nt<N>::obj>(); case 7: if (a==20 || a==21) return t.template is<bool>() && t.template get<bool>()==(a==21); if (a==22) return t.template is<std::nullptr_t>(); if (a>=25 && a<=27) return t.template is<double>(); break; }
    if constexpr (is_cbor<N>::value) { if (m==2) return t.template is<typename N::bytes>(); if (m==6) return t.template is<typename N::tag>(); if (a==23) return t.template is<typename N::undefined>(); return t.template is<typename N::simple>() && (a==24 ? t.template get<typename N::simple>().value==p[1] : t.template get<typename N::simple>().value==a); }
    else { if (m==2) return t.template is<typename N::array>(); if (m==6) { Head h=ref_head(p,9); return kind_of(t,p+h.len); } if (a==23) return t.template is<std::nullptr_t>(); return t.template is<unsigned long long>() && t.template get<unsigned long long>()==(a==24 ? p[1] : a); } }
template <typename N> static void item(const Buf<>& b) { N t; auto r=cxon::from_bytes<B>(t,b.begin(),b.end()); int f=0, x=cref(b.p,b.n,0,f); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (!is_cbor<N>::value && (f&2)) { return; } sx_assert(bool(r)==(x>=0),"accepted exactly when it is a CBOR item in range"); if (!r) { sx_reach("bad"); return; } sx_reach("ok"); sx_assert(r.end==b.p+x,"end is one past the item"); sx_assert(kind_of(t,b.p),"the kind denoted by the item");
    Head h=ref_head(b.p,b.n); if (h.major==0) sx_assert(t.template get<unsigned long long>()==h.arg,"a positive integer is exact"); if (h.major==1) sx_assert(t.template get<long long>()==-1-(long long)h.arg,"a negative integer is exact");
    if (is_cbor<N>::value) { if (f&1) return; std::string s; sx_assert(bool(cxon::to_bytes<B>(s,t)),"the node is written"); N u; auto q=cxon::from_bytes<B>(u,s); sx_assert(bool(q) && q.end==s.end(),"what was written is read"); sx_assert(u==t,"and gives an equal node"); } }
template <typename N> static constexpr bool ORD = std::is_same<N,jod>::value || std::is_same<N,cod>::value;
template <typename N> static void bany() { item<N>(Buf<>::any(0,ORD<N> ? (int)sx_bound(3,4) : (int)sx_bound(4,5))); }
template <typename N> static void bin(const char* h, int hl, const char* t, int tl, int lo, int hi) { int k=(int)sx_range(0,(int)sx_bound(lo-ORD<N>,hi-ORD<N>),"n"); Buf<> b(hl+k+tl); memcpy(b.p,h,hl); memcpy(b.p+hl+k,t,tl); item<N>(b); }
template <typename N> static void bwide() { Buf<> b(9); sx_assume((b[0]&31)>=26 && (b[0]&31)<=27 && (b[0]>>5)!=2 && (b[0]>>5)!=6 && ((b[0]&31)==27 || (b[0]>>5)<2 || (b[0]>>5)==7)); item<N>(b); }
#define BN(nm,N) SX_ENTRY(b##nm##_any) { bany<N>(); } SX_ENTRY(b##nm##_in_a) { bin<N>("\x82",1,"\x01",1,3,4); } SX_ENTRY(b##nm##_in_ai) { bin<N>("\x9F",1,"\xFF",1,3,4); } SX_ENTRY(b##nm##_in_m) { bin<N>("\xA1\x61k",3,"",0,3,4); } SX_ENTRY(b##nm##_in_mi) { bin<N>("\xBF\x61k",3,"\xFF",1,3,4); } SX_ENTRY(b##nm##_in_t) { bin<N>("\xC1",1,"",0,3,4); } SX_ENTRY(b##nm##_in_w) { bwide<N>(); }
BN(c,cnd) BN(j,jnd) BN(d,cod) BN(k,jod)
// ---- depth
static void dres(bool ok, std::error_condition ec, bool within) { if (within) { sx_reach("within"); sx_assert(ok,"nesting within the limit is accepted"); } else { sx_reach("beyond"); sx_assert(!ok && ec==cxon::node::error::recursion_depth_exceeded,"nesting beyond the limit is rejected with the recursion error"); } }
template <typename X, typename N, typename ...P> static void dread(const char* h, int hl, const char* m, int ml, const char* t, int tl, int lim, int hi, P&&... p) { int d=(int)sx_range(0,hi,"depth"), n=d*(hl+tl)+ml; Buf<char> b(n); int k=0; for (int i=0;i<d;++i) { memcpy(b.p+k,h,hl); k+=hl; } memcpy(b.p+k,m,ml); k+=ml; for (int i=0;i<d;++i) { memcpy(b.p+k,t,tl); k+=tl; } N o; auto r=cxon::from_bytes<X>(o,b.begin(),b.end(),std::forward<P>(p)...); dres(bool(r),r.ec,d<lim); if (r) sx_assert(r.end==b.end(),"whole input"); }
template <typename X, typename N, typename ...P> static void dwrite(int k, int lim, int hi, P&&... p) { int d=(int)sx_range(0,hi,"depth"); N n(7u); for (int i=0;i<d;++i) { N o; if (k==0) o.template imbue<typename N::array>().push_back(std::move(n)); else if (k==1) cxon::cnt::append(o.template imbue<typename nt<N>::obj>(),{N("k"),std::move(n)}); else if constexpr (is_cbor<N>::value) { auto& t=o.template imbue<typename N::tag>(); t.tag=1; t.value=std::move(n); } n=std::move(o); } std::string s; auto r=cxon::to_bytes<X>(s,n,std::forward<P>(p)...); dres(bool(r),r.ec,d<lim); }
#define RD cxon::node::recursion_depth
#define DJ(nm,N) SX_ENTRY(dj##nm##_a) { dread<J,N>("[",1,"1",1,"]",1,64,70); } SX_ENTRY(dj##nm##_o) { dread<J,N>("{\"\":",4,"1",1,"}",1,64,70); } SX_ENTRY(dj##nm##_4) { dread<J,N>("[{\"\":",5,"1",1,"}]",2,3,6,RD::set<6>()); } SX_ENTRY(dj##nm##_1) { dread<J,N>("[",1,"1",1,"]",1,1,3,RD::set<1>()); } SX_ENTRY(djw##nm##_a) { dwrite<J,N>(0,64,70); } SX_ENTRY(djw##nm##_o) { dwrite<J,N>(1,64,70); } SX_ENTRY(djw##nm##_4) { dwrite<J,N>(0,4,7,RD::set<4>()); }
#define DB(nm,N) SX_ENTRY(db##nm##_a) { dread<B,N>("\x81",1,"\x01",1,"",0,64,70); } SX_ENTRY(db##nm##_ai) { dread<B,N>("\x9F",1,"\x01",1,"\xFF",1,64,70); } SX_ENTRY(db##nm##_m) { dread<B,N>("\xA1\x01",2,"\x01",1,"",0,64,70); } SX_ENTRY(db##nm##_mk) { dread<B,N>("\xA1",1,"\x01",1,"\x01",1,64,70); } SX_ENTRY(db##nm##_t) { dread<B,N>("\xC1",1,"\x01",1,"",0,64,70); } SX_ENTRY(db##nm##_4) { dread<B,N>("\x81",1,"\x01",1,"",0,4,7,RD::set<4>()); } SX_ENTRY(dbw##nm##_a) { dwrite<B,N>(0,64,70); } SX_ENTRY(dbw##nm##_m) { dwrite<B,N>(1,64,70); }
DJ(j,jnd) DJ(c,cnd) DB(j,jnd) DB(c,cnd)
SX_ENTRY(dbwc_t) { dwrite<B,cnd>(2,64,70); } SX_ENTRY(djwc_t) { dwrite<J,cnd>(2,64,70); }
// limits around those of 8 bit counters: every depth next to the limit
template <typename X, typename N> static void szr_(const char* h, int hl, const char* m, int ml, const char* t, int tl, int dd, int lim, std::error_condition& ec, bool& ok, int f) { int d=lim+dd, n=d*(hl+tl)+ml; Buf<char> b(n,Buf<char>::Raw()); int k=0; for (int i=0;i<d;++i) { memcpy(b.p+k,h,hl); k+=hl; } memcpy(b.p+k,m,ml); k+=ml; for (int i=0;i<d;++i) { memcpy(b.p+k,t,tl); k+=tl; } N o; cxon::from_bytes_result<const char*> r; switch (f) { case 0: r=cxon::from_bytes<X>(o,b.begin(),b.end(),RD::set<255>()); break; case 1: r=cxon::from_bytes<X>(o,b.begin(),b.end(),RD::set<256>()); break; case 2: r=cxon::from_bytes<X>(o,b.begin(),b.end(),RD::set<257>()); break; default: r=cxon::from_bytes<X>(o,b.begin(),b.end(),RD::set<300>()); } ok=bool(r); ec=r.ec;
    if (ok && d<lim) { std::string s; auto w= f==0 ? cxon::to_bytes<X>(s,o,RD::set<255>()) : f==1 ? cxon::to_bytes<X>(s,o,RD::set<256>()) : f==2 ? cxon::to_bytes<X>(s,o,RD::set<257>()) : cxon::to_bytes<X>(s,o,RD::set<300>()); sx_assert(bool(w),"and written within the same limit"); std::string s2; sx_assert(!cxon::to_bytes<X>(s2,o),"but not within the default one"); } }
template <typename X, typename N> static void szd(const char* h, int hl, const char* m, int ml, const char* t, int tl) { static const int lims[]={255,256,257,300}; int f=(int)sx_range(0,3,"lim"), dd=(int)sx_range(-2,1,"d"); std::error_condition ec; bool ok; szr_<X,N>(h,hl,m,ml,t,tl,dd,lims[f],ec,ok,f); dres(ok,ec,dd<0); }
SX_ENTRY(dsz_j_a) { szd<J,jnd>("[",1,"1",1,"]",1); } SX_ENTRY(dsz_j_o) { szd<J,jnd>("{\"\":",4,"1",1,"}",1); } SX_ENTRY(dsz_b_a) { szd<B,cnd>("\x81",1,"\x01",1,"",0); } SX_ENTRY(dsz_b_m) { szd<B,cnd>("\xA1\x01",2,"\x01",1,"",0); } SX_ENTRY(dsz_b_t) { szd<B,cnd>("\xC1",1,"\x01",1,"",0); } SX_ENTRY(dsz_bj) { szd<B,jnd>("\x9F",1,"\x01",1,"\xFF",1); }
// a closed sibling does not count: breadth is not limited
SX_ENTRY(dw_json) { int n=size8(), w=(int)sx_range(0,2,"what"); std::string x="["; for (int i=0;i<n;++i) { if (i) x+=','; x+= w==0 ? "[]" : w==1 ? "{}" : "[{\"\":[]}]"; } x+=']'; jnd t; auto r=cxon::from_bytes<J>(t,x); sx_assert(bool(r) && r.end==x.end(),"any number of siblings"); sx_assert((int)t.get<jnd::array>().size()==n,"each of them"); std::string o; sx_assert(bool(cxon::to_bytes<J>(o,t)) && o==x,"and written"); sx_reach("within"); sx_reach("beyond"); }
SX_ENTRY(dw_cbor) { int n=size8(), w=(int)sx_range(0,3,"what"); std::string x; x+='\x9F'; for (int i=0;i<n;++i) x+= w==0 ? "\x80" : w==1 ? "\xA0" : w==2 ? "\xC1\x07" : "\x81\xA1\x01\x80"; x+='\xFF'; cnd t; auto r=cxon::from_bytes<B>(t,x); sx_assert(bool(r) && r.end==x.end(),"any number of siblings"); sx_assert((int)t.get<cnd::array>().size()==n,"each of them"); std::string o; sx_assert(bool(cxon::to_bytes<B>(o,t)),"and written"); cnd u; sx_assert(bool(cxon::from_bytes<B>(u,o)) && u==t,"and reads back"); sx_reach("within"); sx_reach("beyond"); }
