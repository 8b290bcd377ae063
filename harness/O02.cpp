//@std 20 11
//@bounds pointers to numbers, classes, lists, zero-terminated texts and arrays, unique and shared pointers: inputs of 0..N bytes (quick N=5, thorough 7), all bytes symbolic, the standard allocator given as a parameter (every block must be deleted, once, with the size it was made with); texts of 7..300 characters, complete and cut. Containers (vectors, lists, double-ended queues, sets, maps, multimaps, hashed ones) of allocator-aware lists and texts, one to three levels, and nodes: structured inputs of up to three elements with 2 (thorough 3) symbolic bytes in any place, for nodes 1 (thorough 2)
//@assume allocations succeed; the allocator is stateful, its copies are equal, it does not propagate and has no default state in common with the given one; element nodes that hold an integer are not asked for their allocator (the bytes of a CBOR byte string read into a JSON array hold a default one)
//@reach p_* s_*: ok bad
//@reach c_* n_*: ok bad
//@reach l_*: ok
#include "h_json.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/memory.hxx"
#if __cplusplus>=201703L
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#endif
using J=cxon::JSON<>; using C=cxon::CBOR<>;
// blocks and bytes held per allocator, and calls; allocator 0 is the default-constructed one
static size_t blocks[3], bytes[3], calls[3]; static int objects;
static void zero() { for (int i=0;i<3;++i) blocks[i]=bytes[i]=calls[i]=0; objects=0; }
template <typename T> struct A { using value_type=T; int id; A() : id(0) {} explicit A(int i) : id(i) {} template <typename U> A(const A<U>& o) : id(o.id) {}
    T* allocate(size_t n) { size_t* p=(size_t*)malloc(16+n*sizeof(T)); p[0]=n*sizeof(T); p[1]=id; ++calls[id]; ++blocks[id]; bytes[id]+=p[0]; return (T*)(p+2); }
    void deallocate(T* t, size_t n) { size_t* p=(size_t*)t-2; sx_assert(p[1]==(size_t)id,"memory goes back to the allocator it came from"); sx_assert(p[0]==n*sizeof(T),"with the size it was requested with"); --blocks[id]; bytes[id]-=p[0]; free(p); }
    template <typename U> bool operator==(const A<U>& o) const { return id==o.id; } template <typename U> bool operator!=(const A<U>& o) const { return id!=o.id; } };
// objects that count themselves
struct Ob { u8 a, b; Ob() : a(0), b(0) { ++objects; } Ob(const Ob& o) : a(o.a), b(o.b) { ++objects; } Ob& operator=(const Ob&)=default; ~Ob() { --objects; } CXON_JSON_CLS_READ_MEMBER(Ob, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b)) CXON_CBOR_CLS_READ_MEMBER(Ob, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b)) };
template <typename X> struct by; template <typename T> struct by<cxon::JSON<T>> { using type=char; }; template <typename T> struct by<cxon::CBOR<T>> { using type=u8; };
template <typename X> static Buf<typename by<X>::type> in() { return Buf<typename by<X>::type>::any(0,(int)sx_bound(5,7)); }
// behind a pointer: n elements on success (0: not known)
template <typename X, typename T, bool SP=false> static void ptr(const Buf<typename by<X>::type>& b, size_t n) { using B=typename by<X>::type; objects=0; std::allocator<T> al; T* t=nullptr; bool ok; const B* q=b.begin();
    if (SP) ok=bool(cxon::from_bytes<X>(t,Inp<B>(&q,b.end()),Inp<B>::end_of(b.end()),cxon::json::allocator::set(al))); else ok=bool(cxon::from_bytes<X>(t,b.begin(),b.end(),cxon::json::allocator::set(al)));
    if (!ok) { sx_reach("bad"); sx_assert(!objects,"a failed reading leaves no object"); return; } sx_reach("ok"); if (!t) { sx_assert(!objects,"null holds nothing"); return; }
    if (n) { if (std::is_same<T,Ob>::value) sx_assert(objects==(int)n,"as many objects as elements"); for (size_t i=0;i<n;++i) t[i].~T(); al.deallocate(t,n); sx_assert(!objects,"and no more"); } else ::operator delete((void*)t); }
SX_ENTRY(p_int) { sx_noleak(); ptr<J,int>(in<J>(),1); } SX_ENTRY(p_obj) { sx_noleak(); Buf<char> b((int)sx_range(0,9,"n")); static const char w[]="{\"a\":1,\"b"; int at=(int)sx_range(0,8,"at"); for (int i=0;i<b.n;++i) if (i<at || i>at+1) b.p[i]= i==b.n-1 && b.n>6 ? '}' : w[i]; ptr<J,Ob>(b,1); }
SX_ENTRY(p_vec) { sx_noleak(); ptr<J,std::vector<u8>>(in<J>(),1); } SX_ENTRY(p_vec_in) { sx_noleak(); ptr<J,std::vector<u8>,true>(in<J>(),1); } SX_ENTRY(p_int_in) { sx_noleak(); ptr<J,int,true>(in<J>(),1); }
SX_ENTRY(p_cint) { sx_noleak(); ptr<C,int>(in<C>(),0); } SX_ENTRY(p_cint_in) { sx_noleak(); ptr<C,int,true>(in<C>(),0); } SX_ENTRY(p_cu8) { sx_noleak(); ptr<C,u8>(in<C>(),0); } SX_ENTRY(p_c16) { sx_noleak(); ptr<C,unsigned short,true>(in<C>(),0); }
static Buf<u8> nota() { auto b=in<C>(); if (b.n) sx_assume((b[0]>>5)!=4 && (b[0]>>5)!=6); return b; }
SX_ENTRY(p_cobj) { sx_noleak(); ptr<C,Ob>(nota(),1); } SX_ENTRY(p_cvec) { sx_noleak(); ptr<C,std::vector<u8>>([]{ auto b=in<C>(); if (b.n) sx_assume((b[0]>>5)!=4 && (b[0]>>5)!=6); return b; }(),1); }
// texts
SX_ENTRY(p_chr) { sx_noleak(); ptr<J,char>(in<J>(),0); } SX_ENTRY(p_chr_in) { sx_noleak(); ptr<J,char,true>(in<J>(),0); } SX_ENTRY(p_chr16) { sx_noleak(); ptr<J,char16_t>(in<J>(),0); } SX_ENTRY(p_chr32) { sx_noleak(); ptr<J,char32_t,true>(in<J>(),0); } SX_ENTRY(p_cchr) { sx_noleak(); ptr<C,char>(in<C>(),0); }
static int size_() { static const int z[]={0,1,6,7,8,9,15,16,17,31,32,33,64,65,128,256,300}; return z[sx_range(0,16,"size")]; }
template <typename T, bool SP> static void ltxt() { int n=size_(), cut=(int)sx_range(0,1,"cut"); Buf<char> b(n+2-cut,Buf<char>::Raw()); for (int i=0;i<b.n;++i) b.p[i]= i==0 || i==n+1 ? '"' : 'a'; if (n) { char c=sx_any<char>("c"); sx_assume(c!='"' && c!='\\'); b.p[n]=c; } ptr<J,T,SP>(b,n+1); }
SX_ENTRY(l_chr) { sx_noleak(); ltxt<char,false>(); } SX_ENTRY(l_chr_in) { sx_noleak(); ltxt<char,true>(); } SX_ENTRY(l_chr16) { sx_noleak(); ltxt<char16_t,false>(); } SX_ENTRY(l_chr32) { sx_noleak(); ltxt<char32_t,true>(); }
// arrays: any one element is arbitrary
template <typename T, bool SP> static void larr(u8 el) { int n=size_(), cut=(int)sx_range(0,1,"cut"), def=(int)sx_range(0,1,"definite"), h= def ? 3 : 1; Buf<> b(h+n+1-def-cut,Buf<>::Raw()); if (b.n<h) return; b.p[0]= def ? 0x99 : 0x9F; if (def) b.p[1]=u8(n>>8), b.p[2]=u8(n); for (int i=0;i<n && h+i<b.n;++i) b.p[h+i]=el; if (!def && !cut) b.p[n+1]=0xFF; int at=(int)sx_range(0,2,"at"); if (n && h+(at*(n-1))/2<b.n) { u8 c=sx_any<u8>("c"); sx_assume((c&31)<24 && (c>>5)!=6); b.p[h+(at*(n-1))/2]=c; } ptr<C,T,SP>(b,n+1); }
SX_ENTRY(l_cint) { sx_noleak(); larr<int,false>(7); } SX_ENTRY(l_cu8) { sx_noleak(); larr<u8,true>(7); } SX_ENTRY(l_cobj) { sx_noleak(); larr<Ob,false>(0xA0); } SX_ENTRY(l_cobj_in) { sx_noleak(); larr<Ob,true>(0xA0); }
// shared pointers give back what they hold
template <typename X, typename T> static void shp(Buf<typename by<X>::type> b) { objects=0; { std::shared_ptr<T> t; std::allocator<T> al; bool ok=bool(cxon::from_bytes<X>(t,b.begin(),b.end(),cxon::json::allocator::set(al))); if (ok) sx_reach("ok"); else { sx_reach("bad"); sx_assert(!objects,"a failed reading leaves no object"); } auto u=std::move(t); } sx_assert(!objects,"every object is destroyed"); }
SX_ENTRY(s_int) { sx_noleak(); shp<J,int>(in<J>()); } SX_ENTRY(s_vec) { sx_noleak(); shp<J,std::vector<u8>>(in<J>()); } SX_ENTRY(s_cint) { sx_noleak(); shp<C,int>(in<C>()); } SX_ENTRY(s_cobj) { sx_noleak(); shp<C,Ob>(in<C>()); } SX_ENTRY(s_cvec) { sx_noleak(); shp<C,std::vector<u8>>(in<C>()); }
template <typename X, typename T> static void unq(Buf<typename by<X>::type> b) { objects=0; { std::unique_ptr<T> t; bool ok=bool(cxon::from_bytes<X>(t,b.begin(),b.end())); if (ok) sx_reach("ok"); else { sx_reach("bad"); sx_assert(!objects,"a failed reading leaves no object"); } } sx_assert(!objects,"every object is destroyed"); }
SX_ENTRY(s_uint) { sx_noleak(); unq<J,int>(in<J>()); } SX_ENTRY(s_uvec) { sx_noleak(); unq<J,std::vector<u8>>(in<J>()); } SX_ENTRY(s_cuint) { sx_noleak(); unq<C,int>(in<C>()); } SX_ENTRY(s_cuobj) { sx_noleak(); unq<C,Ob>(in<C>()); } SX_ENTRY(s_cuvec) { sx_noleak(); unq<C,std::vector<u8>>(in<C>()); }
// containers pass their allocator on
template <typename T> using V=std::vector<T,A<T>>; template <typename T> using L=std::list<T,A<T>>; template <typename T> using D=std::deque<T,A<T>>; template <typename T> using F=std::forward_list<T,A<T>>;
using S=std::basic_string<char,std::char_traits<char>,A<char>>; template <typename T> using St=std::set<T,std::less<T>,A<T>>; template <typename T> using Ms=std::multiset<T,std::less<T>,A<T>>;
template <typename K, typename T> using M=std::map<K,T,std::less<K>,A<std::pair<const K,T>>>; template <typename K, typename T> using Mm=std::multimap<K,T,std::less<K>,A<std::pair<const K,T>>>;
template <typename T> static auto ids(const T& t, int) -> decltype(t.get_allocator(),true); template <typename T> static bool ids(const T&, long) { return true; }
template <typename K, typename T> static bool ids(const std::pair<K,T>& p, int) { return ids(p.first,0) & ids(p.second,0); }
static bool ids(const S& s, int) { return s.get_allocator().id==1; }
template <typename T> static auto ids(const T& t, int) -> decltype(t.get_allocator(),true) { bool r= t.get_allocator().id==1; for (auto& e : t) r&= ids(e,0); return r; }
template <typename T> static T mk() { return T(typename T::allocator_type(1)); }
template <typename X, typename T, int K=0> static void cont(const Buf<typename by<X>::type>& b) { using B=typename by<X>::type; zero(); { T t=mk<T>(); bool ok; const B* q=b.begin(); if (K==0) ok=bool(cxon::from_bytes<X>(t,b.begin(),b.end())); else ok=bool(cxon::from_bytes<X>(t,Inp<B>(&q,b.end()),Inp<B>::end_of(b.end())));
    sx_reach(ok ? "ok" : "bad"); sx_assert(!calls[0],"nothing is taken from a default-constructed allocator"); sx_assert(ids(t,0),"every element has the allocator of the container"); } sx_assert(!blocks[1],"all of it is returned in the end"); }
// a document with a hole of up to 4 bytes anywhere
static Buf<char> hole(const char* w, int k=(int)sx_bound(2,3)) { int l=(int)strlen(w), at=(int)sx_range(0,l-k,"at"); Buf<char> b(l); for (int i=0;i<l;++i) if (i<at || i>=at+k) b.p[i]=w[i]; return b; }
static Buf<u8> hole(const u8* w, int l, int k=(int)sx_bound(2,3)) { int at=(int)sx_range(0,l-k,"at"); Buf<u8> b(l); for (int i=0;i<l;++i) if (i<at || i>=at+k) b.p[i]=w[i]; return b; }
#define LONG "abcdefghijklmnopqrst"
static const char jv[]="[[1,2],[],[3]]", js[]="[\"" LONG "\",\"b\",\"" LONG "\"]", jm[]="{\"" LONG "\":\"" LONG "\",\"b\":\"\"}", jvm[]="[{\"" LONG "\":[1]},{}]", jmv[]="{\"a\":[[1],[2]],\"" LONG "\":[[]]}";
#define E(N,X,T,...) SX_ENTRY(c_##N) { cont<X,T>(hole(__VA_ARGS__)); } SX_ENTRY(c_##N##_in) { cont<X,T,1>(hole(__VA_ARGS__)); }
using VV=V<V<u8>>; using VS=V<S>; using LV=L<V<u8>>; using LS=L<S>; using DV=D<V<u8>>; using DS=D<S>; using FV=F<V<u8>>; using FS=F<S>; using SS=St<S>; using SV=Ms<V<u8>>; using MS=M<S,S>; using MmS=Mm<S,S>; using VM=V<M<S,V<u8>>>; using MV=M<S,V<V<u8>>>;
E(vv,J,VV,jv) E(vs,J,VS,js) E(lv,J,LV,jv) E(ls,J,LS,js) E(dv,J,DV,jv) E(fs,J,FS,js) E(ss,J,SS,js) E(sv,J,SV,jv) E(ms,J,MS,jm) E(mms,J,MmS,jm) E(vm,J,VM,jvm) E(mv,J,MV,jmv)
struct H { size_t operator()(const S& s) const { return s.size(); } }; using US=std::unordered_set<S,H,std::equal_to<S>,A<S>>; using UM=std::unordered_map<S,S,H,std::equal_to<S>,A<std::pair<const S,S>>>;
E(us,J,US,js) E(um,J,UM,jm)
#define T20 97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116
static const u8 cv[]={0x83,0x82,1,2,0x80,0x9F,3,0xFF}, cs[]={0x83,0x74,T20,0x60,0x7F,0x6A,97,98,99,100,101,102,103,104,105,106,0x6A,97,98,99,100,101,102,103,104,105,106,0xFF}, cm[]={0xA2,0x74,T20,0x74,T20,0x61,98,0x60}, cvm[]={0x82,0xBF,0x74,T20,0x81,1,0xFF,0xA0}, cmv[]={0xA2,0x61,97,0x82,0x81,1,0x81,2,0x74,T20,0x81,0x80};
E(cvv,C,VV,cv,sizeof cv) E(clv,C,LV,cv,sizeof cv) E(cdv,C,DV,cv,sizeof cv) E(cfv,C,FV,cv,sizeof cv) E(csv,C,SV,cv,sizeof cv) E(cms,C,MS,cm,sizeof cm) E(cvm,C,VM,cvm,sizeof cvm) E(cmv,C,MV,cmv,sizeof cmv) E(cus,C,US,cs,sizeof cs) E(cum,C,UM,cm,sizeof cm) E(css,C,SS,cs,sizeof cs)
// nodes
#if __cplusplus>=201703L
template <typename Tr> static bool ids(const cxon::json::basic_node<Tr>& n, int) { using N=cxon::json::basic_node<Tr>; bool r= n.get_allocator().id==1 || n.template is<typename N::sint>() || n.template is<typename N::uint>(); if (auto* p=n.template get_if<typename N::string>()) r&= p->get_allocator().id==1; else if (auto* p=n.template get_if<typename N::array>()) { r&= p->get_allocator().id==1; for (auto& e : *p) r&= ids(e,0); } else if (auto* p=n.template get_if<typename N::object>()) { r&= p->get_allocator().id==1; for (auto& e : *p) r&= ids(e.first,0) & ids(e.second,0); } return r; }
template <typename Tr> static bool ids(const cxon::cbor::basic_node<Tr>& n, int) { using N=cxon::cbor::basic_node<Tr>; bool r= n.get_allocator().id==1; if (auto* p=n.template get_if<typename N::text>()) r&= p->get_allocator().id==1; else if (auto* p=n.template get_if<typename N::bytes>()) r&= p->get_allocator().id==1; else if (auto* p=n.template get_if<typename N::tag>()) r&= ids(p->value,0); else if (auto* p=n.template get_if<typename N::array>()) { r&= p->get_allocator().id==1; for (auto& e : *p) r&= ids(e,0); } else if (auto* p=n.template get_if<typename N::map>()) { r&= p->get_allocator().id==1; for (auto& e : *p) r&= ids(e.first,0) & ids(e.second,0); } return r; }
using JN=cxon::json::basic_node<cxon::json::node_traits<A<char>>>; using CN=cxon::cbor::basic_node<cxon::cbor::node_traits<A<char>>>; using JO=cxon::json::basic_node<cxon::json::ordered_node_traits<A<char>>>; using CO=cxon::cbor::basic_node<cxon::cbor::ordered_node_traits<A<char>>>;
static const char jd[]="{\"" LONG "\":[\"" LONG "\",1],\"b\":{}}", ja[]="[[1,\"" LONG "\"],{\"" LONG "\":[]}]"; static const u8 cd[]={0xA2,0x74,T20,0x82,0xC1,0x74,T20,1,0x61,98,0xA0}, ca[]={0x9F,0x81,0x74,T20,0xBF,0x74,T20,0xC1,0x80,0xFF,0xFF}, cad[]={0x9F,0x81,0x74,T20,0xBF,0x54,T20,0xC1,0x80,0xFF,0xFF}, cdd[]={0xA2,0x74,T20,0x82,0xC1,0x54,T20,1,0x61,98,0xA0};
#define NE(N,T) SX_ENTRY(n_##N##_jd) { cont<J,T>(hole(jd,(int)sx_bound(1,2))); } SX_ENTRY(n_##N##_ja) { cont<J,T,1>(hole(ja,(int)sx_bound(1,2))); } SX_ENTRY(n_##N##_cd) { cont<C,T>(hole(cd,sizeof cd,(int)sx_bound(1,2))); } SX_ENTRY(n_##N##_ca) { cont<C,T,1>(hole(ca,sizeof ca,(int)sx_bound(1,2))); }
NE(j,JN) NE(c,CN) NE(jo,JO) NE(co,CO) SX_ENTRY(n_c_cad) { cont<C,CN>(hole(cad,sizeof cad,(int)sx_bound(1,2))); } SX_ENTRY(n_c_cdd) { cont<C,CN,1>(hole(cdd,sizeof cdd,(int)sx_bound(1,2))); }
#endif
