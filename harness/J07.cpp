//@std 20 11
//@bounds input of 0..N bytes (quick N=6, thorough N=8; nested lists 7 and 9), every byte symbolic, one-letter elements through the documented read_value extension point; nested lists, lists of numbers and of strings; pointers, forward and single-pass iterators; targets vector, list, forward_list, deque, set, multiset, unordered_set, array, std::array, pair, tuple, valarray, span, queue, priority_queue, vector<bool>; written containers of 0..3 symbolic elements; lists of 24..300 elements (first and last symbolic), fixed targets of 255..257 elements with one element less, as many and one more
//@reach vec lst deq vec_fwd vec_inp arr carr fl mset que vala: ok empty bad
//@reach arr carr spn tup3 par: ok bad
//@reach w_*: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/stack.hxx"
#if __cplusplus>=202002L
#include "cxon/lib/std/span.hxx"
#endif
// element: one lower case letter
struct E { char v; E(char c='?') : v(c) {} bool operator ==(const E& o) const { return v==o.v; } bool operator !=(const E& o) const { return v!=o.v; } bool operator <(const E& o) const { return v<o.v; }
    template <typename X, typename II, typename Cx> static auto read_value(E& t, II& i, II e, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { if (!cxon::cio::consume<X>(i,e,cx)) return false; if (i!=e && *i>='a' && *i<='z') return t.v=*i, ++i, true; return cx/cxon::json::read_error::unexpected; }
    template <typename X, typename O, typename Cx> static auto write_value(O& o, const E& t, Cx& cx) -> cxon::enable_for_t<X,cxon::JSON> { return cxon::cio::poke<X>(o,t.v,cx); } };
namespace std { template <> struct hash<E> { size_t operator ()(const E& e) const { return e.v==0; } }; }
// reference: [ letter , letter ... ] with whitespace; pos = end of the list or the offending position
struct Lst { bool ok; int n, pos, ovf; char e[16]; };
static Lst ref_list(const char* p, int n, int i, int max) { Lst r; r.ok=false; r.n=0; r.ovf=0; i=ref_ws(p,n,i); r.pos=i; if (i==n || p[i]!='[') return r; i=ref_ws(p,n,i+1); r.pos=i; if (i<n && p[i]==']') { r.pos=i+1; r.ok=true; return r; }
    for (;;) { if (r.n==max) { r.ovf=1; return r; } i=ref_ws(p,n,i); r.pos=i; if (i==n || p[i]<'a' || p[i]>'z') return r; r.e[r.n++]=p[i]; i=ref_ws(p,n,i+1); r.pos=i; if (i==n) return r; if (p[i]==']') { r.pos=i+1; r.ok=true; return r; } if (p[i]!=',') return r; ++i; } }
struct Res { bool ok; std::error_condition ec; const char* end; };
enum { PTR, FWD, INP };
template <int K, typename T> static Res from(T& t, const Buf<char>& b) { if (K==PTR) { auto r=cxon::from_bytes(t,b.begin(),b.end()); return {bool(r),r.ec,r.end}; } if (K==FWD) { auto r=cxon::from_bytes(t,Fwd<char>(b.p),Fwd<char>(b.p+b.n)); return {bool(r),r.ec,r.end.p}; } const char* p=b.p; auto r=cxon::from_bytes(t,Inp<char>(&p,b.p+b.n),Inp<char>::end_of(b.p+b.n)); return {bool(r),r.ec,p}; }
static int N() { return (int)sx_bound(6,8); }
static void verdict(const Buf<char>& b, const Res& r, const Lst& l, bool inp=false) { sx_assert(r.ok==!r.ec,"result agrees with its error code"); sx_assert(r.ok==l.ok,"accepted exactly if it is a list"); if (l.ok) { sx_reach(l.n ? "ok" : "empty"); sx_assert(r.end==b.p+l.pos,"end directly behind the list"); } else { sx_reach("bad"); if (l.ovf) { sx_assert(r.ec==cxon::json::read_error::overflow,"too many elements: overflow"); if (!inp) sx_assert(r.end==b.p,"end at the start of a list with too many elements"); } else { sx_assert(r.ec==cxon::json::read_error::unexpected,"unexpected input"); sx_assert(r.end==b.p+l.pos,"end at the offending input"); } } }
template <typename C> static void elems(const C& c, const Lst& l) { int i=0; bool eq=true; for (auto it=std::begin(c); it!=std::end(c); ++it) { if (i<l.n) eq&= *it==E(l.e[i]); ++i; } sx_assert(i==l.n,"every element, once"); sx_assert(eq,"elements in order"); sx_out("n",i); }
template <typename C, int K=PTR> static void seq() { auto b=Buf<char>::any(0,N()); C c; Res r=from<K>(c,b); Lst l=ref_list(b.p,b.n,0,16); verdict(b,r,l,K==INP); if (r.ok) elems(c,l); }
SX_ENTRY(vec) { seq<std::vector<E>>(); } SX_ENTRY(vec_fwd) { seq<std::vector<E>,FWD>(); } SX_ENTRY(vec_inp) { seq<std::vector<E>,INP>(); } SX_ENTRY(lst) { seq<std::list<E>>(); } SX_ENTRY(deq) { seq<std::deque<E>>(); } SX_ENTRY(fl) { seq<std::forward_list<E>>(); }
SX_ENTRY(vala) { auto b=Buf<char>::any(0,N()); std::valarray<E> c(E('x'),(size_t)sx_range(0,1,"pre")); Res r=from<PTR>(c,b); Lst l=ref_list(b.p,b.n,0,16); verdict(b,r,l); if (r.ok) { bool eq=true; sx_assert((int)c.size()==l.n,"every element, once"); for (int i=0;i<l.n;++i) eq&= c[i]==E(l.e[i]); sx_assert(eq,"elements in order"); } }
SX_ENTRY(vala_long) { char s[32]="["; int k=(int)sx_range(3,10,"k"); E e[10]; for (int i=0;i<k;++i) { char c=sx_any<char>("c"); sx_assume(c>='a' && c<='z'); e[i]=c; s[1+2*i]=c; s[2+2*i]= i+1<k ? ',' : ']'; } std::valarray<E> c; auto r=cxon::from_bytes(c,(const char*)s,(const char*)s+1+2*k); sx_assert(bool(r),"read"); sx_assert((int)c.size()==k,"every element"); bool eq=true; for (int i=0;i<k;++i) eq&= c[i]==e[i]; sx_assert(eq,"elements in order"); std::vector<E> v; auto q=cxon::from_bytes(v,(const char*)s,(const char*)s+1+2*k); sx_assert(bool(q) && (int)v.size()==k,"read"); for (int i=0;i<k;++i) eq&= v[i]==e[i]; sx_assert(eq,"elements in order"); }
// targets of fixed size: the rest keeps its value
template <typename C, int M> static void fixed(C& c, E* d) { auto b=Buf<char>::any(0,N()+1); for (int i=0;i<M;++i) d[i]='0'+i; Res r=from<PTR>(c,b); Lst l=ref_list(b.p,b.n,0,M); verdict(b,r,l); if (r.ok) { bool eq=true; for (int i=0;i<M;++i) eq&= d[i]== (i<l.n ? E(l.e[i]) : E('0'+i)); sx_assert(eq,"elements in order, the rest untouched"); } }
SX_ENTRY(arr) { std::array<E,2> a; fixed<std::array<E,2>,2>(a,a.data()); } SX_ENTRY(carr) { E a[2]; fixed<E[2],2>(a,a); } SX_ENTRY(arr1) { std::array<E,1> a; fixed<std::array<E,1>,1>(a,a.data()); }
#if __cplusplus>=202002L
SX_ENTRY(spn) { E a[2]; std::span<E> s(a,2); fixed<std::span<E>,2>(s,a); } SX_ENTRY(spn2) { E a[2]; std::span<E,2> s(a,2); fixed<std::span<E,2>,2>(s,a); }
#endif
static void fixed0(bool ok, const std::error_condition& ec, const char* end, const Buf<char>& b) { Lst l=ref_list(b.p,b.n,0,0); sx_assert(ok==!ec,"result agrees with its error code"); sx_assert(ok==l.ok,"an empty target takes exactly the empty list"); if (ok) sx_assert(end==b.p+l.pos,"end directly behind the list"); }
SX_ENTRY(arr0) { auto b=Buf<char>::any(0,4); std::array<E,0> a; Res r=from<PTR>(a,b); fixed0(r.ok,r.ec,r.end,b); }
// sets
template <typename C> static void set_(bool multi) { auto b=Buf<char>::any(0,N()); C c; Res r=from<PTR>(c,b); Lst l=ref_list(b.p,b.n,0,16); verdict(b,r,l); if (r.ok) { int d=0; for (int i=0;i<l.n;++i) { int k=0, f=1; for (int j=0;j<l.n;++j) { k+= l.e[j]==l.e[i]; if (j<i && l.e[j]==l.e[i]) f=0; } d+=f; sx_assert((int)c.count(E(l.e[i]))==(multi ? k : 1),"every element is there"); } sx_assert((int)c.size()==(multi ? l.n : d),"and nothing else"); } }
SX_ENTRY(set1) { set_<std::set<E>>(false); } SX_ENTRY(mset) { set_<std::multiset<E>>(true); } SX_ENTRY(uset) { set_<std::unordered_set<E>>(false); }
// adaptors
SX_ENTRY(que) { auto b=Buf<char>::any(0,N()); std::queue<E> c; Res r=from<PTR>(c,b); Lst l=ref_list(b.p,b.n,0,16); verdict(b,r,l); if (r.ok) { sx_assert((int)c.size()==l.n,"every element"); for (int i=0;i<l.n;++i) { sx_assert(c.front()==E(l.e[i]),"elements in order"); c.pop(); } } }
SX_ENTRY(pque) { auto b=Buf<char>::any(0,N()); std::priority_queue<E> c; Res r=from<PTR>(c,b); Lst l=ref_list(b.p,b.n,0,16); verdict(b,r,l); if (r.ok) { sx_assert((int)c.size()==l.n,"every element"); char m=127; while (!c.empty()) { sx_assert(c.top().v<=m,"largest first"); m=c.top().v; int k=0; for (int i=0;i<l.n;++i) k+= l.e[i]==m; sx_assert(k>0,"an element of the list"); c.pop(); } } }
// pairs and tuples: exactly their number of elements
template <int M> static Lst exact(const Buf<char>& b) { const char* p=b.p; int n=b.n; Lst r; r.ok=false; r.n=0; r.ovf=0; int i=ref_ws(p,n,0); r.pos=i; if (i==n || p[i]!='[') return r; ++i; for (int k=0;k<M;++k) { i=ref_ws(p,n,i); r.pos=i; if (i==n || p[i]<'a' || p[i]>'z') return r; r.e[r.n++]=p[i]; i=ref_ws(p,n,i+1); r.pos=i; if (k+1<M) { if (i==n || p[i]!=',') return r; ++i; } } if (i==n || p[i]!=']') return r; r.pos=i+1; r.ok=true; return r; }
SX_ENTRY(par) { auto b=Buf<char>::any(0,N()); std::pair<E,E> c; Res r=from<PTR>(c,b); Lst l=exact<2>(b); verdict(b,r,l); if (r.ok) sx_assert(c.first==E(l.e[0]) && c.second==E(l.e[1]),"elements in order"); }
SX_ENTRY(tup3) { auto b=Buf<char>::any(0,8); std::tuple<E,E,E> c; Res r=from<PTR>(c,b); Lst l=exact<3>(b); verdict(b,r,l); if (r.ok) sx_assert(std::get<0>(c)==E(l.e[0]) && std::get<1>(c)==E(l.e[1]) && std::get<2>(c)==E(l.e[2]),"elements in order"); }
SX_ENTRY(tup1) { auto b=Buf<char>::any(0,5); std::tuple<E> c; Res r=from<INP>(c,b); Lst l=exact<1>(b); verdict(b,r,l,true); if (r.ok) sx_assert(std::get<0>(c)==E(l.e[0]),"elements in order"); }
// nested lists
SX_ENTRY(nest) { auto b=Buf<char>::any(0,(int)sx_bound(7,9)); std::vector<std::vector<E>> c; Res r=from<PTR>(c,b); const char* p=b.p; int n=b.n, i=ref_ws(p,n,0), k=0; bool ok=false, eq=true; int pos=i; sx_assert(r.ok==!r.ec,"result agrees with its error code");
    do { if (i==n || p[i]!='[') break; i=ref_ws(p,n,i+1); pos=i; if (i<n && p[i]==']') { pos=i+1; ok=true; break; } for (;;) { Lst l=ref_list(p,n,i,16); pos=l.pos; if (!l.ok) break; if (r.ok) { if (k<(int)c.size()) { eq&= (int)c[k].size()==l.n; for (int j=0;j<l.n && j<(int)c[k].size();++j) eq&= c[k][j]==E(l.e[j]); } else eq=false; } ++k; i=ref_ws(p,n,l.pos); pos=i; if (i==n) break; if (p[i]==']') { pos=i+1; ok=true; break; } if (p[i]!=',') break; ++i; } } while (0);
    sx_assert(r.ok==ok,"accepted exactly if it is a list of lists"); sx_assert(r.end==b.p+pos,"end behind the list or at the offending input"); if (ok) sx_assert(eq && k==(int)c.size(),"lists and their elements in order"); }
// writing, and reading back
template <typename C> static void wr(const C& c, const E* e, int n, bool back=true) { std::string o; sx_assert(bool(cxon::to_bytes(o,c)),"written"); std::string x="["; for (int i=0;i<n;++i) { if (i) x+=','; x+=e[i].v; } x+=']'; sx_assert(o==x,"exactly the list of the elements"); if (back) { C d; auto r=cxon::from_bytes(d,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); bool eq=true; auto f=std::begin(c); auto g=std::begin(d); for (int i=0;i<n;++i,++f,++g) { sx_assert(g!=std::end(d),"the same elements"); eq&= *f==*g; } sx_assert(eq && g==std::end(d),"to the same content"); } sx_reach("done"); }
static int es(E* e, int m) { int n=(int)sx_range(0,m,"n"); for (int i=0;i<n;++i) { char c=sx_any<char>("c"); sx_assume(c>='a' && c<='z'); e[i]=c; } return n; }
SX_ENTRY(w_vec) { E e[3]; int n=es(e,3); wr(std::vector<E>(e,e+n),e,n); } SX_ENTRY(w_list) { E e[3]; int n=es(e,3); wr(std::list<E>(e,e+n),e,n); } SX_ENTRY(w_deq) { E e[3]; int n=es(e,3); wr(std::deque<E>(e,e+n),e,n); } SX_ENTRY(w_fl) { E e[3]; int n=es(e,3); wr(std::forward_list<E>(e,e+n),e,n); }
SX_ENTRY(w_set) { E e[2]; int n=es(e,2); if (n==2) sx_assume(e[0]<e[1]); wr(std::set<E>(e,e+n),e,n); } SX_ENTRY(w_mset) { E e[2]; int n=es(e,2); if (n==2) sx_assume(!(e[1]<e[0])); wr(std::multiset<E>(e,e+n),e,n); }
SX_ENTRY(w_arr) { E e[3]; int n=es(e,0); e[0]=sx_any<char>("a"); sx_assume(e[0].v>='a' && e[0].v<='z'); e[1]='q'; std::array<E,2> a{{e[0],e[1]}}; wr(a,e,2); std::array<E,0> z; wr(z,e,n); }
SX_ENTRY(w_carr) { E a[2]={'a','b'}; a[0]=sx_any<char>("a"); sx_assume(a[0].v>='a' && a[0].v<='z'); std::string o; sx_assert(bool(cxon::to_bytes(o,a)),"written"); std::string x="[a,b]"; x[1]=a[0].v; sx_assert(o==x,"exactly the list of the elements"); sx_reach("done"); }
SX_ENTRY(w_vala) { E e[3]; int n=es(e,3); std::valarray<E> v(e,n); wr(v,e,n); }
SX_ENTRY(w_que) { E e[3]; int n=es(e,3); std::queue<E> q; for (int i=0;i<n;++i) q.push(e[i]); std::string o; sx_assert(bool(cxon::to_bytes(o,q)),"written"); std::queue<E> p; sx_assert(bool(cxon::from_bytes(p,o)),"reads back"); sx_assert(p==q,"to the same content"); sx_reach("done"); }
SX_ENTRY(w_pque) { E e[3]; int n=es(e,3); std::priority_queue<E> q; for (int i=0;i<n;++i) q.push(e[i]); std::string o; sx_assert(bool(cxon::to_bytes(o,q)),"written"); std::priority_queue<E> p; sx_assert(bool(cxon::from_bytes(p,o)),"reads back"); sx_assert(p.size()==q.size(),"to the same size"); while (!q.empty()) { sx_assert(p.top()==q.top(),"to the same content"); p.pop(); q.pop(); } sx_reach("done"); }
SX_ENTRY(w_stack) { E e[2]; int n=es(e,2); std::stack<E> q; for (int i=0;i<n;++i) q.push(e[i]); std::string o; sx_assert(bool(cxon::to_bytes(o,q)),"written"); std::stack<E> p; sx_assert(bool(cxon::from_bytes(p,o)),"reads back"); sx_assert(p.size()==q.size(),"to the same size"); sx_known(p==q,"J07-stack","a std::stack reads back to the same content"); sx_reach("done"); }
SX_ENTRY(w_tup) { E e[3]={sx_any<char>("a"),sx_any<char>("b"),'c'}; for (int i=0;i<2;++i) sx_assume(e[i].v>='a' && e[i].v<='z'); auto t=std::make_tuple(e[0],e[1],e[2]); std::string o; sx_assert(bool(cxon::to_bytes(o,t)),"written"); std::string x="[?,?,c]"; x[1]=e[0].v; x[3]=e[1].v; sx_assert(o==x,"exactly the list of the elements"); auto p=std::make_pair(e[0],e[1]); o.clear(); sx_assert(bool(cxon::to_bytes(o,p)),"written"); x.resize(4); x+=']'; sx_assert(o==x,"exactly the list of the elements"); sx_reach("done"); }
SX_ENTRY(w_vv) { std::vector<std::vector<E>> v(sx_range(0,2,"n")); std::string x="["; for (auto& w : v) { w.assign(sx_range(0,2,"m"),E('a')); if (&w!=&v[0]) x+=','; x+='['; for (size_t i=0;i<w.size();++i) x+= i ? ",a" : "a"; x+=']'; } x+=']'; std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); sx_assert(o==x,"exactly the nested lists"); std::vector<std::vector<E>> u; sx_assert(bool(cxon::from_bytes(u,o)),"reads back"); sx_assert(u==v,"to the same content"); sx_reach("done"); }
SX_ENTRY(w_int) { std::vector<signed char> v(sx_range(0,2,"n")); for (auto& x : v) x=sx_any<signed char>("e"); std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); std::vector<signed char> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==v,"to the same content"); sx_reach("done"); }
SX_ENTRY(w_vbool) { std::vector<bool> v(sx_range(0,2,"n")); std::string x="["; for (size_t i=0;i<v.size();++i) { v[i]=sx_range(0,1,"b")!=0; if (i) x+=','; x+= v[i] ? "true" : "false"; } x+=']'; std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); sx_assert(o==x,"exactly the list"); std::vector<bool> u; sx_assert(bool(cxon::from_bytes(u,o)),"reads back"); sx_assert(u==v,"to the same content"); sx_reach("done"); }
SX_ENTRY(w_str) { std::vector<std::string> v(sx_range(0,2,"n")); for (auto& s : v) { char c=sx_any<char>("c"); sx_assume(c>=0); if (&s==&v[0]) s.assign(sx_range(0,1,"l"),c); else s="]"; } std::string o; sx_assert(bool(cxon::to_bytes(o,v)),"written"); std::vector<std::string> u; auto r=cxon::from_bytes(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u==v,"to the same content"); sx_reach("done"); }
// sizes around the limits of 8 bit counters
struct Long { int n; E* e; Buf<char> b; Long(int n_) : n(n_), e((E*)malloc(n_*sizeof(E))), b(2*n_+1,Buf<char>::Raw()) { b.p[0]='['; for (int i=0;i<n;++i) { char c=char('a'+i%26); if (i==0 || i==n-1) { c=sx_any<char>("c"); sx_assume(c>='a' && c<='z'); } e[i]=E(c); b.p[1+2*i]=c; b.p[2+2*i]= i+1<n ? ',' : ']'; } } ~Long() { free(e); } };
template <typename C, int K=PTR> static void szl() { Long l(size8()); C c; Res r=from<K>(c,l.b); sx_assert(r.ok && r.end==l.b.p+l.b.n,"a list of any length is read"); int i=0; bool eq=true; for (auto it=std::begin(c); it!=std::end(c); ++it) { if (i<l.n) eq&= *it==l.e[i]; ++i; } sx_assert(i==l.n && eq,"every element, in order"); std::string o; sx_assert(bool(cxon::to_bytes(o,c)),"written"); sx_assert((int)o.size()==l.b.n && memcmp(o.data(),l.b.p,o.size())==0,"exactly the list of the elements"); }
SX_ENTRY(sz_vec) { szl<std::vector<E>>(); } SX_ENTRY(sz_vec_inp) { szl<std::vector<E>,INP>(); } SX_ENTRY(sz_lst) { szl<std::list<E>>(); } SX_ENTRY(sz_deq) { szl<std::deque<E>>(); } SX_ENTRY(sz_fl) { szl<std::forward_list<E>>(); } SX_ENTRY(sz_vala) { szl<std::valarray<E>>(); }
template <int M, typename C> static void szf(C& c, E* d) { Long l(M-1+(int)sx_range(0,2,"n")); for (int i=0;i<M;++i) d[i]=E('0'); Res r=from<PTR>(c,l.b); sx_assert(r.ok==(l.n<=M),"read exactly if it fits"); if (r.ok) { bool eq=true; for (int i=0;i<M;++i) eq&= d[i]==(i<l.n ? l.e[i] : E('0')); sx_assert(eq && r.end==l.b.p+l.b.n,"elements in order, the rest untouched"); } else sx_assert(r.ec==cxon::json::read_error::overflow && r.end==l.b.p,"too many elements: overflow"); }
template <int M> static void szm() { E* d=(E*)malloc(M*sizeof(E)); switch (sx_range(0,1,"kind")) { case 0: szf<M>(*reinterpret_cast<E(*)[M]>(d),d); break; default: { auto* a=reinterpret_cast<std::array<E,M>*>(d); szf<M>(*a,d); } } free(d); }
SX_ENTRY(sz_f255) { szm<255>(); } SX_ENTRY(sz_f256) { szm<256>(); } SX_ENTRY(sz_f257) { szm<257>(); }
SX_ENTRY(sz_mset) { Long l(size8()); l.b.p[1]='a'; l.b.p[2*l.n-1]='b'; std::multiset<E> c; Res r=from<PTR>(c,l.b); sx_assert(r.ok && (int)c.size()==l.n,"every element"); int m[26]={0}, g[26]={0}; for (int i=0;i<l.n;++i) m[l.b.p[1+2*i]-'a']++; for (auto& e : c) g[e.v-'a']++; bool eq=true; for (int k=0;k<26;++k) eq&= g[k]==m[k]; sx_assert(eq,"each as often as listed"); }
