//@std 20
//@bounds pairs of nodes of any kind (scalars of every value, texts and byte strings of 0, 1 and 20 characters, objects and arrays of up to one element, thorough two, that are numbers, long strings or arrays, tags); triples of nodes with texts of 0 and 1 characters and up to one element; JSON, CBOR and ordered nodes; (ordered nodes, quick: triples of containers only); comparison with plain values of every kind; hashes through cxon::hash and std::hash
//@assume no NaN among the values for the ordering and for reflexivity
//@reach *: done
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "h_node.h"
static double dbl(u64 x) { double d; memcpy(&d,&x,8); return d; }
// the same value, by the model (0.0 and -0.0 are the same, NaN is no value's equal)
static bool meq(const V& a, const V& b) { if (a.k!=b.k) return false; switch (a.k) {
    case K_OBJ: if (a.n!=b.n || (a.n && a.key!=b.key)) return false; for (int i=0;i<a.n;++i) if (!meq(*a.e[i],*b.e[i])) return false; return true;
    case K_ARR: if (a.n!=b.n) return false; for (int i=0;i<a.n;++i) if (!meq(*a.e[i],*b.e[i])) return false; return true;
    case K_STR: case K_BYTES: return a.n==b.n && (!a.n || a.c==b.c); case K_REAL: return dbl(a.x)==dbl(b.x); case K_TAG: return a.x==b.x && meq(*a.e[0],*b.e[0]); case K_NULL: case K_UNDEF: return true; default: return a.x==b.x; } }
static bool nan(const V& a) { return a.k==K_REAL && dbl(a.x)!=dbl(a.x); }
template <typename N> static V* small(const char* nm, bool cnt) { V* v=new V; v->k=(int)sx_range(0,cnt ? 1 : kinds<N>()-1,nm); switch (v->k) {
    case K_OBJ: case K_ARR: v->n=(int)sx_range(0,1,"size"); v->key=sx_any<char>("key"); if (v->key=='y') v->key='x'; if (v->n) { v->e[0]=new V; v->e[0]->k=K_UINT; v->e[0]->x=sx_any<u64>("number"); } break;
    case K_TAG: v->x=sx_any<u64>("tag"); v->n=1; v->e[0]=new V; v->e[0]->k=K_UINT; v->e[0]->x=sx_any<u64>("number"); break; case K_STR: case K_BYTES: v->n=(int)sx_range(0,1,"length"); v->c=sx_any<char>("char"); break;
    case K_BOOL: v->x=sx_any<u8>("bool")&1; break; case K_SIMPLE: v->x=sx_any<u8>("simple"); break; case K_REAL: case K_SINT: case K_UINT: v->x=sx_any<u64>("number"); break; } return v; }
template <typename N> static void pair_() { V *va=gen<N>((int)sx_bound(1,2),"left"), *vb=gen<N>((int)sx_bound(1,2),"right"); N a=make<N>(*va), b=make<N>(*vb); bool e=meq(*va,*vb), r= a==b;
    sx_assert(r==e,"equality is equality of the values"); sx_assert((a!=b)==!r,"inequality is its negation"); sx_assert((b==a)==r,"equality is symmetric");
    if (!nan(*va) && !nan(*vb)) { bool l= a<b, g= b<a; sx_assert(!(l && g),"less-than is asymmetric"); sx_assert((!l && !g)==r,"exactly the equal values are incomparable"); sx_assert(!(a<a) && a==a && !(a!=a),"irreflexive order, reflexive equality"); N c(a); sx_assert(c==a && !(c<a) && !(a<c),"a copy is equal"); }
    sx_reach("done"); delete va; delete vb; }
template <typename N> static void hash_() { V *va=gen<N>((int)sx_bound(1,2),"left"), *vb=gen<N>((int)sx_bound(1,2),"right"); sx_assume(va->k==vb->k && va->n==vb->n); N a=make<N>(*va), b=make<N>(*vb); cxon::hash<N> h; std::hash<N> s;
    sx_reach("done"); if (meq(*va,*vb)) { sx_assert(h(a)==h(b),"equal values have equal hashes (cxon)"); sx_assert(s(a)==s(b),"equal values have equal hashes (std)"); } delete va; delete vb; }
template <typename N> static void triple(bool cnt) { V *va=small<N>("a",cnt), *vb=small<N>("b",cnt), *vc=small<N>("c",cnt); sx_assume(!nan(*va) && !nan(*vb) && !nan(*vc)); N a=make<N>(*va), b=make<N>(*vb), c=make<N>(*vc);
    if (a<b && b<c) sx_assert(a<c,"less-than is transitive"); if (a==b && b==c) sx_assert(a==c,"equality is transitive"); if (a==b) { sx_assert((a<c)==(b<c) && (c<a)==(c<b),"equal values compare alike"); } sx_reach("done"); delete va; delete vb; delete vc; }
// against plain values
template <typename N, typename T> static void vs(const N& n, const T& t, bool e) { sx_assert((n==t)==e && (t==n)==e && (n!=t)==!e && (t!=n)==!e,"comparison with a plain value agrees"); }
template <typename N> static void plain() { V* v=gen<N>((int)sx_bound(1,2),"kind"); N n=make<N>(*v); u64 x=sx_any<u64>("x"); 
    vs(n,dbl(x),v->k==K_REAL && dbl(v->x)==dbl(x)); vs(n,(float)1.5f,v->k==K_REAL && dbl(v->x)==1.5); vs(n,(long long)x,v->k==K_SINT && v->x==x); vs(n,(int)x,v->k==K_SINT && v->x==(u64)(long long)(int)x); vs(n,(unsigned long long)x,v->k==K_UINT && v->x==x); vs(n,(unsigned)x,v->k==K_UINT && v->x==(u64)(unsigned)x);
    vs(n,(bool)(x&1),v->k==K_BOOL && v->x==(x&1)); sx_assert((n==nullptr)==(v->k==K_NULL) && (nullptr==n)==(v->k==K_NULL),"comparison with null agrees");
    { char c=(char)x, s[2]={c,0}; vs(n,(const char*)s,v->k==K_STR && (c ? v->n==1 && v->c==c : v->n==0)); typename nt<N>::str t; t.push_back(c); vs(n,t,v->k==K_STR && v->n==1 && v->c==c); }
    { typename N::array t; t.push_back(N((unsigned long long)x)); vs(n,t,v->k==K_ARR && v->n==1 && v->e[0]->k==K_UINT && v->e[0]->x==x); typename nt<N>::obj o; vs(n,o,v->k==K_OBJ && v->n==0); }
    if constexpr (is_cbor<N>::value) { typename N::bytes t; t.push_back((u8)x); vs(n,t,v->k==K_BYTES && v->n==1 && v->c==(char)x); sx_assert((n==typename N::undefined())==(v->k==K_UNDEF),"comparison with undefined agrees"); sx_assert((n==typename N::simple((u8)x))==(v->k==K_SIMPLE && v->x==(u8)x) && (n!=typename N::simple((u8)x))==!(v->k==K_SIMPLE && v->x==(u8)x),"comparison with a simple value agrees");
        typename N::tag g(x,N(3u)); vs(n,g,v->k==K_TAG && v->x==x && v->e[0]->k==K_UINT && v->e[0]->x==3); }
    sx_reach("done"); delete v; }
#define NODE(nm,...) SX_ENTRY(nm##_pair) { pair_<__VA_ARGS__>(); } SX_ENTRY(nm##_hash) { hash_<__VA_ARGS__>(); } SX_ENTRY(nm##_triple) { triple<__VA_ARGS__>(ORD && sx_bound(1,0)); } SX_ENTRY(nm##_plain) { plain<__VA_ARGS__>(); }
#define ORD 0
NODE(json,cxon::json::node) NODE(cbor,cxon::cbor::node)
#undef ORD
#define ORD 1
NODE(ojson,cxon::json::ordered_node) NODE(ocbor,cxon::cbor::ordered_node)
