// node values and an independent model of them
#pragma once
#include "h.h"
#include <new>
enum { K_OBJ, K_ARR, K_STR, K_REAL, K_SINT, K_UINT, K_BOOL, K_NULL, K_TAG, K_BYTES, K_SIMPLE, K_UNDEF, K_N };
struct V { int k=K_NULL; u64 x=0; char c=0; int n=0; V* e[2]={nullptr,nullptr}; char key=0; // n: elements, or length of text/bytes (c, 'y', 'y', ...)
    V()=default; V(const V&)=delete; ~V() { delete e[0]; delete e[1]; } };
template <typename N> struct is_cbor : std::false_type {};
template <typename Tr> struct is_cbor<cxon::cbor::basic_node<Tr>> : std::true_type {};
template <typename N, bool C = is_cbor<N>::value> struct nt;
template <typename N> struct nt<N,false> { using obj=typename N::object; using str=typename N::string; };
template <typename N> struct nt<N,true> { using obj=typename N::map; using str=typename N::text; };
template <typename N> static constexpr int kinds() { return is_cbor<N>::value ? K_N : K_TAG; }
// depth 0: a leaf only (a number, a long string); more: any kind
template <typename N> static V* gen(int depth, const char* nm, int kmax=-1) {
    V* v=new V; static const int leaf[3]={K_UINT,K_STR,K_ARR};
    v->k= depth ? (int)sx_range(0,(kmax<0 ? kinds<N>() : kmax)-1,nm) : leaf[sx_range(0,2,nm)];
    switch (v->k) {
        case K_OBJ: case K_ARR: v->n= depth ? (int)sx_range(0,depth,"size") : 0; v->key=sx_any<char>("key"); if (v->key=='y') v->key='x'; for (int i=0;i<v->n;++i) v->e[i]=gen<N>(0,"child"); break;
        case K_TAG: v->x=sx_any<u64>("tag"); v->n=1; v->e[0]=gen<N>(0,"tagged"); break;
        case K_STR: case K_BYTES: v->n= depth ? (int[]){0,1,20}[sx_range(0,2,"length")] : 20; v->c=sx_any<char>("char"); break;
        case K_BOOL: v->x=sx_any<u8>("bool")&1; break; case K_SIMPLE: v->x=sx_any<u8>("simple"); break;
        case K_REAL: case K_SINT: case K_UINT: v->x=sx_any<u64>("number"); break; }
    return v; }
template <typename S> static S text(const V& v) { S s; for (int i=0;i<v.n;++i) s.push_back(i ? 'y' : v.c); return s; }
template <typename N> static N make(const V& v, const typename N::allocator_type& al = typename N::allocator_type()) {
    N r(al);
    switch (v.k) {
        case K_OBJ: { auto& o=r.template imbue<typename nt<N>::obj>(); for (int i=0;i<v.n;++i) { char k[2]={i ? 'y' : v.key,0}; N kn(al); kn.template imbue<typename nt<N>::str>().assign(k,k+1); cxon::cnt::append(o,{std::move(kn),make<N>(*v.e[i],al)}); } break; }
        case K_ARR: { auto& o=r.template imbue<typename N::array>(); for (int i=0;i<v.n;++i) o.push_back(make<N>(*v.e[i],al)); break; }
        case K_STR: { auto& s=r.template imbue<typename nt<N>::str>(); for (int i=0;i<v.n;++i) s.push_back(i ? 'y' : v.c); break; }
        case K_REAL: { double d; memcpy(&d,&v.x,8); r=d; break; } case K_SINT: r=(long long)v.x; break; case K_UINT: r=(unsigned long long)v.x; break;
        case K_BOOL: r=(bool)v.x; break; case K_NULL: r=nullptr; break; default:
        if constexpr (is_cbor<N>::value) switch (v.k) {
            case K_TAG: { auto& t=r.template imbue<typename N::tag>(); t.tag=v.x; t.value=make<N>(*v.e[0],al); break; }
            case K_BYTES: { auto& s=r.template imbue<typename N::bytes>(); for (int i=0;i<v.n;++i) s.push_back(i ? 'y' : v.c); break; }
            case K_SIMPLE: r=typename N::simple((u8)v.x); break; case K_UNDEF: r=typename N::undefined(); break; } }
    return r; }
template <typename S> static bool text_is(const S& s, const V& v) { if ((int)s.size()!=v.n) return false; bool r=true; for (int i=0;i<v.n;++i) r&= (char)s[i]==(i ? 'y' : v.c); return r; }
// does the node hold exactly the modelled value
template <typename N> static bool match(const N& r, const V& v) {
    switch (v.k) {
        case K_OBJ: { if (!r.template is<typename nt<N>::obj>()) return false; auto& o=r.template get<typename nt<N>::obj>(); if ((int)o.size()!=v.n) return false;
            for (int i=0;i<v.n;++i) { bool f=false; for (auto& kv : o) { V key; key.k=K_STR; key.n=1; key.c= i ? 'y' : v.key; if (match(kv.first,key)) f=match(kv.second,*v.e[i]); } if (!f) return false; } return true; }
        case K_ARR: { if (!r.template is<typename N::array>()) return false; auto& o=r.template get<typename N::array>(); if ((int)o.size()!=v.n) return false; for (int i=0;i<v.n;++i) if (!match(o[i],*v.e[i])) return false; return true; }
        case K_STR: return r.template is<typename nt<N>::str>() && text_is(r.template get<typename nt<N>::str>(),v);
        case K_REAL: { if (!r.template is<double>()) return false; u64 x; double d=r.template get<double>(); memcpy(&x,&d,8); return x==v.x; }
        case K_SINT: return r.template is<long long>() && r.template get<long long>()==(long long)v.x; case K_UINT: return r.template is<unsigned long long>() && r.template get<unsigned long long>()==v.x;
        case K_BOOL: return r.template is<bool>() && r.template get<bool>()==(bool)v.x; case K_NULL: return r.template is<std::nullptr_t>();
        default: if constexpr (is_cbor<N>::value) switch (v.k) {
            case K_TAG: return r.template is<typename N::tag>() && r.template get<typename N::tag>().tag==v.x && match(r.template get<typename N::tag>().value,*v.e[0]);
            case K_BYTES: return r.template is<typename N::bytes>() && text_is(r.template get<typename N::bytes>(),v);
            case K_SIMPLE: return r.template is<typename N::simple>() && r.template get<typename N::simple>()==typename N::simple((u8)v.x);
            case K_UNDEF: return r.template is<typename N::undefined>(); } }
    return false; }
// an allocator whose memory goes back to an equal allocator only
template <typename T, bool P> struct Al { using value_type=T; using propagate_on_container_copy_assignment=std::integral_constant<bool,P>; using propagate_on_container_move_assignment=std::integral_constant<bool,P>; using propagate_on_container_swap=std::false_type; using is_always_equal=std::false_type;
    template <typename U> struct rebind { using other=Al<U,P>; };
    int id=0; Al()=default; explicit Al(int i) : id(i) {} template <typename U> Al(const Al<U,P>& o) : id(o.id) {}
    T* allocate(size_t n) { char* p=(char*)malloc(16+n*sizeof(T)); *(int*)p=id; return (T*)(p+16); }
    void deallocate(T* t, size_t) { char* p=(char*)t-16; sx_assert(*(int*)p==id,"memory is returned to the allocator it came from"); free(p); }
    template <typename U> bool operator==(const Al<U,P>& o) const { return id==o.id; } template <typename U> bool operator!=(const Al<U,P>& o) const { return id!=o.id; } };
