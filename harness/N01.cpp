//@std 20
//@bounds nodes of any kind with arbitrary scalar contents; texts and byte strings of 0, 1 and 20 characters (inside and outside the small buffer); objects and arrays of up to one (thorough two) elements that are numbers, long strings or arrays; JSON, CBOR and ordered nodes, with the standard allocator and with unequal stateful allocators (propagating and not); every pair of values for the assignments and swap, followed by a second assignment and a reuse of the moved-from node
//@assume allocations succeed; the moved-from node is only required to be reusable
//@reach *: done
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "h_node.h"
template <typename N> struct P { V* v; N n; explicit P(const char* nm, int id=0) : v(gen<N>((int)sx_bound(1,2),nm)), n(mk(*v,id)) {} ~P() { delete v; }
    static N mk(const V& v, int id) { if constexpr (std::is_constructible<typename N::allocator_type,int>::value) return make<N>(v,typename N::allocator_type(id)); else return make<N>(v); } };
template <typename N> static void ctor() { sx_noleak(); { P<N> a("kind"); bool al=sx_range(0,1,"alloc"); sx_assert(match(a.n,*a.v),"construction from a value");
    { auto c= al ? N(a.n,P<N>::mk(V(),7).get_allocator()) : N(a.n); sx_assert(match(c,*a.v),"a copy holds the value"); sx_assert(match(a.n,*a.v),"the source is unchanged"); c.reset(); sx_assert(match(a.n,*a.v),"the source is independent"); }
    { N b= al ? N(std::move(a.n),P<N>::mk(V(),7).get_allocator()) : N(std::move(a.n)); sx_assert(match(b,*a.v),"a move transfers the value"); a.n=42u; sx_assert(match(b,*a.v),"and is independent of the source"); }
    V u; u.k=K_UINT; u.x=42; sx_assert(match(a.n,u),"a moved-from node can be reused"); sx_reach("done"); } }
template <typename N> static void assign() { sx_noleak(); { int op=(int)sx_range(0,2,"op"); P<N> a("left",1), b("right",2); V u; u.k=K_UINT; u.x=42;
    switch (op) {
        case 0: a.n=b.n; sx_assert(match(a.n,*b.v),"a copy assignment gives the value"); sx_assert(match(b.n,*b.v),"and leaves the source"); b.n=a.n; sx_assert(match(a.n,*b.v) && match(b.n,*b.v),"and back"); b.n.reset(); sx_assert(match(a.n,*b.v),"independent of the source"); break;
        case 1: a.n=std::move(b.n); sx_assert(match(a.n,*b.v),"a move assignment transfers the value"); b.n=42u; sx_assert(match(b.n,u) && match(a.n,*b.v),"a moved-from node can be reused"); b.n=std::move(a.n); sx_assert(match(b.n,*b.v),"and back"); break;
        default: a.n.swap(b.n); sx_assert(match(a.n,*b.v) && match(b.n,*a.v),"swap exchanges the values"); a.n.swap(b.n); sx_assert(match(a.n,*a.v) && match(b.n,*b.v),"and back"); }
    sx_reach("done"); } }
template <typename N> static void swp() { sx_noleak(); { P<N> a("left"), b("right"); a.n.swap(b.n); sx_assert(match(a.n,*b.v) && match(b.n,*a.v),"swap exchanges the values"); b.n.swap(a.n); sx_assert(match(a.n,*a.v) && match(b.n,*b.v),"and back"); sx_reach("done"); } }
template <typename N> static N* child(N& n) { if (auto* a=n.template get_if<typename N::array>()) return a->empty() ? nullptr : &a->front(); if (auto* o=n.template get_if<typename nt<N>::obj>()) return o->empty() ? nullptr : const_cast<N*>(&o->begin()->second); if constexpr (is_cbor<N>::value) if (auto* t=n.template get_if<typename N::tag>()) return &t->value; return nullptr; }
template <typename N> static void self() { sx_noleak(); { P<N> a("kind",1); N& r=a.n; 
    switch ((int)sx_range(0,5,"op")) {
        case 0: a.n=r; sx_assert(match(a.n,*a.v),"self-assignment changes nothing"); break;
        case 1: a.n=std::move(r); sx_assert(match(a.n,*a.v),"self-move-assignment changes nothing"); break;
        case 2: a.n.swap(r); sx_assert(match(a.n,*a.v),"self-swap changes nothing"); break;
        case 3: { N* c=child(a.n); if (!c) break; V* m= a.v->k==K_OBJ && a.v->n==2 && a.v->key>'y' ? nullptr : a.v->e[0]; if (!m) break; a.n=*c; sx_assert(match(a.n,*m),"assigning from a child gives the child"); break; }
        case 4: { N* c=child(a.n); if (!c) break; V* m= a.v->k==K_OBJ && a.v->n==2 && a.v->key>'y' ? nullptr : a.v->e[0]; if (!m) break; a.n=std::move(*c); sx_assert(match(a.n,*m),"move-assigning from a child gives the child"); break; }
        case 5: { N* c=child(a.n); if (!c || a.v->n!=1) break; *c=a.n; sx_assert(child(a.n) && match(*child(a.n),*a.v),"a child assigned from its parent holds a copy of it"); break; } }
    sx_reach("done"); } }
// a new value of every kind over any old one
template <typename N> static void set() { sx_noleak(); { P<N> a("old",1); switch ((int)sx_range(0,kinds<N>()-1,"new")) {
        case K_OBJ: a.n=typename nt<N>::obj(); sx_assert(a.n.template is<typename nt<N>::obj>() && a.n.template get<typename nt<N>::obj>().empty(),"an object"); break;
        case K_ARR: { typename N::array x; x.push_back(N(7u)); a.n=x; sx_assert(a.n.template is<typename N::array>() && a.n.template get<typename N::array>().size()==1 && x.size()==1,"an array"); break; }
        case K_STR: a.n="abcdefghijklmnopqrstuvwxyz"; sx_assert(a.n.template is<typename nt<N>::str>() && a.n.template get<typename nt<N>::str>().size()==26 && a.n.template get<typename nt<N>::str>()[25]=='z',"a string"); break;
        case K_REAL: { double d=sx_any<double>("real"); sx_assume(d==d); a.n=d; sx_assert(a.n.template is<double>() && a.n.template get<double>()==d,"a real"); break; }
        case K_SINT: { int d=sx_any<int>("int"); a.n=d; sx_assert(a.n.template is<long long>() && a.n.template get<long long>()==d,"a signed integer"); break; }
        case K_UINT: { unsigned d=sx_any<unsigned>("unsigned"); a.n=d; sx_assert(a.n.template is<unsigned long long>() && a.n.template get<unsigned long long>()==d,"an unsigned integer"); break; }
        case K_BOOL: a.n=true; sx_assert(a.n.template is<bool>() && a.n.template get<bool>(),"a boolean"); break;
        case K_NULL: a.n=nullptr; sx_assert(a.n.template is<std::nullptr_t>(),"null"); break;
        default: if constexpr (is_cbor<N>::value) { a.n=typename N::undefined(); sx_assert(a.n.template is<typename N::undefined>(),"undefined"); a.n.template imbue<typename N::bytes>().push_back(1); a.n.template imbue<typename N::tag>().value=3; sx_assert(a.n.template is<typename N::tag>() && a.n.template get<typename N::tag>().value==3,"a tag"); } }
    sx_assert(!a.n.template is<double>() || a.n.kind()==N(1.0).kind(),"kind"); sx_reach("done"); } }
// imbue keeps the value of the same kind and default-constructs another
template <typename N> static void imb() { sx_noleak(); { P<N> a("old",1); int k=(int)sx_range(0,7,"new"); bool same= a.v->k==k; switch (k) {
        case K_OBJ: { auto& x=a.n.template imbue<typename nt<N>::obj>(); sx_assert(same || x.empty(),"empty"); break; } case K_ARR: { auto& x=a.n.template imbue<typename N::array>(); sx_assert(same || x.empty(),"empty"); break; } case K_STR: { auto& x=a.n.template imbue<typename nt<N>::str>(); sx_assert(same || x.empty(),"empty"); break; }
        case K_REAL: a.n.template imbue<double>(); break; case K_SINT: a.n.template imbue<long long>(); break; case K_UINT: a.n.template imbue<unsigned long long>(); break; case K_BOOL: a.n.template imbue<bool>(); break; case K_NULL: a.n.template imbue<std::nullptr_t>(); break; }
    if (same) sx_assert(match(a.n,*a.v),"imbue of the held kind keeps the value"); sx_reach("done"); } }
#define NODE(nm,...) SX_ENTRY(nm##_ctor) { ctor<__VA_ARGS__>(); } SX_ENTRY(nm##_assign) { assign<__VA_ARGS__>(); } SX_ENTRY(nm##_self) { self<__VA_ARGS__>(); } SX_ENTRY(nm##_set) { set<__VA_ARGS__>(); } SX_ENTRY(nm##_imb) { imb<__VA_ARGS__>(); }
NODE(json,cxon::json::node) NODE(cbor,cxon::cbor::node) NODE(ojson,cxon::json::ordered_node) NODE(ocbor,cxon::cbor::ordered_node)
template <bool P> using jal=cxon::json::basic_node<cxon::json::node_traits<Al<char,P>>>; template <bool P> using cal=cxon::cbor::basic_node<cxon::cbor::node_traits<Al<char,P>>>;
// with unequal allocators: no swap (as for the standard containers)
template <typename N> static void assign2() { sx_noleak(); { int op=(int)sx_range(0,1,"op"); P<N> a("left",1), b("right",(int)sx_range(1,2,"allocator"));
    if (op==0) { a.n=b.n; sx_assert(match(a.n,*b.v) && match(b.n,*b.v),"copy assignment"); b.n=a.n; sx_assert(match(b.n,*b.v),"and back"); } else { a.n=std::move(b.n); sx_assert(match(a.n,*b.v),"move assignment"); b.n=42u; b.n=std::move(a.n); sx_assert(match(b.n,*b.v),"and back"); } sx_reach("done"); } }
#define NODEA(nm,...) SX_ENTRY(nm##_ctor) { ctor<__VA_ARGS__>(); } SX_ENTRY(nm##_assign) { assign2<__VA_ARGS__>(); } SX_ENTRY(nm##_self) { self<__VA_ARGS__>(); }
NODEA(jal,jal<false>) NODEA(jalp,jal<true>) NODEA(cal,cal<false>) NODEA(calp,cal<true>)
