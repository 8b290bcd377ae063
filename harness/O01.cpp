//@std 20 11
//@bounds histories of K writes (quick 3, thorough 4): single character, repeated character, block by pointers, block by length, zero-terminated string; block and repeat lengths 0..4 (capacity+1 for the buffering adaptor), every character symbolic; through the buffering adaptor with capacities 1..3, bounded ranges of 0..9 elements over pointers and other random access iterators, containers with push_back only, strings, plain output iterators; byte blocks from non-contiguous containers; whole values written through the buffering adaptor; one write of 24..300 characters into every kind of sink, ranges with rooms around it, buffers of 16 and 255..257; thirteen kinds of output (containers of char, signed and unsigned char, ranges over pointers and iterators, containers that report their state, plain output iterators) against std::string for JSON and CBOR values
//@reach buf1 buf2 buf3 bbuf3: single repeat block cstr
//@reach range frange brange: fit full
#include "h.h"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/deque.hxx"
#include <array>
namespace cio=cxon::cio; namespace bio=cxon::bio;
enum { M=32 };
struct Log { char s[M]; int n=0; void add(char c) { sx_assert(n<M,"harness log"); s[n++]=c; } };
// one write operation on o; what it must produce goes to the log
struct Op { int k, n; char c[5]; };
static Op any_op(int mx=4) { Op x; x.k=(int)sx_range(0,4,"op"); x.n= x.k==0 ? 1 : (int)sx_range(0,mx,"n"); sx_symbolic(x.c,4,"c"); x.c[4]=0; if (x.k==4) { for (int i=0;i<x.n;++i) sx_assume(x.c[i]!=0); x.c[x.n]=0; } sx_reach(x.k==0 ? "single" : x.k==1 ? "repeat" : x.k==4 ? "cstr" : "block"); return x; }
static void log_op(Log& l, const Op& x) { if (x.k<2) for (int i=0;i<x.n;++i) l.add(x.c[0]); else for (int i=0;i<x.n;++i) l.add(x.c[i]); }
template <typename O> static bool do_op(O& o, const Op& x) { switch (x.k) { case 0: return cio::poke(o,x.c[0]); case 1: return cio::poke(o,(unsigned)x.n,x.c[0]); case 2: return cio::poke(o,x.c,x.c+x.n); case 3: return cio::poke(o,x.c,(std::size_t)x.n); default: return cio::poke(o,x.c); } }
template <typename C> static void same(const C& c, const Log& l) { int i=0; bool eq=true; for (auto x : c) { if (i<l.n) eq&= char(x)==l.s[i]; ++i; } sx_assert(i==l.n,"exactly the bytes written arrive"); sx_assert(eq,"the bytes arrive unchanged and in order"); sx_out("n",i); }
static int K() { return (int)sx_bound(3,4); }
// ---- buffering adaptor
template <std::size_t N> static void buf() { std::string c("x"); std::array<char,N> b; Log l; l.add('x'); { auto o=cio::buffered_back_inserter(c,b); for (int i=0;i<K();++i) { Op x=any_op(N+1); log_op(l,x); sx_assert(do_op(o,x),"writing into a growing container succeeds"); } } same(c,l); }
SX_ENTRY(buf1) { buf<1>(); } SX_ENTRY(buf2) { buf<2>(); } SX_ENTRY(buf3) { buf<3>(); }
// explicit flushes, the output iterator notation and copies in between
SX_ENTRY(bufmix) { std::string c; std::array<char,3> b; Log l; { auto o=cio::buffered_back_inserter(c,b); for (int i=0;i<K();++i) switch (sx_range(0,4,"what")) {
    case 0: o.flush(); break; case 1: { char x=sx_any<char>("x"); *o=x; ++o; l.add(x); break; } case 2: { char x=sx_any<char>("x"); *o++=x; l.add(x); break; } case 3: { Op x=any_op(2); log_op(l,x); do_op(o,x); break; } default: { auto p=o; char x=sx_any<char>("x"); p.append(x); l.add(x); } } } same(c,l); }
// whole values through the adaptor
SX_ENTRY(val_str) { std::string s(sx_range(0,4,"n"),0); sx_symbolic(&s[0],s.size(),"s"); for (unsigned i=0;i<s.size();++i) if (i==1) sx_assume(s[i]>=0); else sx_assume(s[i]>="a"[0] && s[i]<="z"[0]); std::string d,c; std::array<char,3> b; sx_assert(bool(cxon::to_bytes(d,s)),"written"); { auto r=cxon::to_bytes(cio::buffered_back_inserter(c,b),s); sx_assert(bool(r),"written"); } sx_assert(c==d,"buffered and direct output are the same"); }
SX_ENTRY(val_vec) { std::vector<short> v(sx_range(0,2,"n")); for (auto& x : v) x=sx_any<short>("e"); std::string d,c; std::array<char,4> b; sx_assert(bool(cxon::to_bytes(d,v)),"written"); { auto r=cxon::to_bytes(cio::buffered_back_inserter(c,b),v); sx_assert(bool(r),"written"); } sx_assert(c==d,"buffered and direct output are the same"); }
SX_ENTRY(val_cbor) { std::vector<short> v(sx_range(0,2,"n")); for (auto& x : v) x=sx_any<short>("e"); std::string d,c; std::array<char,3> b; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(d,v)),"written"); { auto r=cxon::to_bytes<cxon::CBOR<>>(cio::buffered_back_inserter(c,b),v); sx_assert(bool(r),"written"); } sx_assert(c==d,"buffered and direct output are the same"); }
// ---- bytes
struct BOp { int k, n; u8 c[4]; };
static BOp any_bop() { BOp x; x.k=(int)sx_range(0,2,"op"); x.n= x.k==0 ? 1 : (int)sx_range(0,4,"n"); sx_symbolic(x.c,4,"c"); return x; }
template <typename O> static bool do_bop(O& o, const BOp& x) { switch (x.k) { case 0: return bio::poke(o,x.c[0]); case 1: return bio::poke(o,(const u8*)x.c,(const u8*)x.c+x.n); default: return bio::poke(o,(const u8*)x.c,(std::size_t)x.n); } }
SX_ENTRY(bbuf3) { std::string c; std::array<char,3> b; Log l; { auto o=cio::buffered_back_inserter(c,b); for (int i=0;i<K();++i) { BOp x=any_bop(); for (int j=0;j<x.n;++j) l.add(x.c[j]); sx_assert(do_bop(o,x),"writing into a growing container succeeds"); sx_reach("single"); sx_reach("block"); sx_reach("repeat"); sx_reach("cstr"); } } same(c,l); }
// ---- bounded ranges: a write succeeds exactly when it fits as a whole (blocks) and never touches anything behind the range
template <typename It, typename F> static void range(F mk) { int room=(int)sx_range(0,6,"room"); char* p=(char*)malloc(room); Log l; auto o=cxon::cnt::make_range_container(mk(p),mk(p+room));
    for (int i=0;i<2;++i) { Op x=any_op(); Log m=l; log_op(m,x); bool ok=do_op(o,x); if (m.n<=room) { sx_assert(ok,"a write that fits succeeds"); sx_reach("fit"); l=m; } else { sx_assert(!ok,"a write that does not fit fails"); sx_reach("full"); break; } sx_assert((int)o.size()==l.n,"size follows"); sx_assert((int)o.max_size()==room,"capacity stays"); }
    bool eq=true; for (int i=0;i<l.n;++i) eq&= p[i]==l.s[i]; sx_assert(eq,"the bytes arrive unchanged and in order"); free(p); }
SX_ENTRY(range) { range<char*>([](char* p) { return p; }); }
struct RA { using iterator_category=std::random_access_iterator_tag; using value_type=char; using difference_type=ptrdiff_t; using pointer=char*; using reference=char&; char* p; char& operator *() const { return *p; } char& operator [](ptrdiff_t i) const { return p[i]; } RA& operator ++() { ++p; return *this; } RA operator ++(int) { RA r=*this; ++p; return r; } RA& operator --() { --p; return *this; } RA& operator +=(ptrdiff_t n) { p+=n; return *this; } RA operator +(ptrdiff_t n) const { return RA{p+n}; } ptrdiff_t operator -(RA o) const { return p-o.p; } bool operator ==(const RA& o) const { return p==o.p; } bool operator !=(const RA& o) const { return p!=o.p; } bool operator <(const RA& o) const { return p<o.p; } };
SX_ENTRY(frange) { range<RA>([](char* p) { return RA{p}; }); }
SX_ENTRY(brange) { int room=(int)sx_range(0,6,"room"); u8* p=(u8*)malloc(room); Log l; auto o=cxon::cnt::make_range_container(p,p+room);
    for (int i=0;i<2;++i) { BOp x=any_bop(); bool ok=do_bop(o,x); if (l.n+x.n<=room) { sx_assert(ok,"a write that fits succeeds"); sx_reach("fit"); for (int j=0;j<x.n;++j) l.add(x.c[j]); } else { sx_assert(!ok,"a write that does not fit fails"); sx_reach("full"); break; } sx_assert((int)o.size()==l.n,"size follows"); }
    bool eq=true; for (int i=0;i<l.n;++i) eq&= char(p[i])==l.s[i]; sx_assert(eq,"the bytes arrive unchanged and in order"); free(p); }
// blocks of non-contiguous sources into every kind of output
template <typename C> static void noncont(int lim) { u8 e[3]; sx_symbolic(e,3,"e"); int n=(int)sx_range(0,lim,"n"); C c; Log l; for (int i=0;i<n;++i) { c.insert(c.end(),e[i]); l.add(e[i]); }
    int room=(int)sx_range(0,4,"room"); u8* p=(u8*)malloc(room); auto o=cxon::cnt::make_range_container(p,p+room); bool ok=bio::poke(o,c.begin(),c.end()); sx_assert(ok==(n<=room),"succeeds exactly when it fits"); if (ok) { bool eq=true; for (int i=0;i<n;++i) eq&= p[i]==u8(l.s[i]); sx_assert(eq && (int)o.size()==n,"the bytes arrive unchanged"); } free(p);
    std::vector<u8> v; sx_assert(bio::poke(v,c.begin(),c.end()),"written"); same(v,l); std::string w; std::array<char,2> b; { auto q=cio::buffered_back_inserter(w,b); sx_assert(bio::poke(q,c.begin(),c.end()),"written"); } same(w,l); std::deque<u8> d; sx_assert(bio::poke(d,c.begin(),c.end()),"written"); same(d,l); }
SX_ENTRY(nc_list) { noncont<std::list<u8>>(3); } SX_ENTRY(nc_deque) { noncont<std::deque<u8>>(3); }
// ---- growing containers and plain output iterators
struct PushOnly { using value_type=char; Log l; void push_back(char c) { l.add(c); } const char* begin() const { return l.s; } const char* end() const { return l.s+l.n; } };
template <typename C> static void grow() { C c; Log l; for (int i=0;i<K()-1;++i) { Op x=any_op(); log_op(l,x); sx_assert(do_op(c,x),"writing into a growing container succeeds"); } same(c,l); }
SX_ENTRY(push_only) { grow<PushOnly>(); } SX_ENTRY(str_) { grow<std::string>(); } SX_ENTRY(vec_) { grow<std::vector<char>>(); }
SX_ENTRY(out_it) { std::string c; Log l; auto o=std::back_inserter(c); for (int i=0;i<K()-1;++i) { Op x=any_op(); log_op(l,x); sx_assert(do_op(o,x),"written"); } same(c,l); }
struct StIt { using iterator_category=std::output_iterator_tag; using value_type=void; using difference_type=void; using pointer=void; using reference=void; char* p; char& operator *() { return *p; } StIt& operator ++() { ++p; return *this; } StIt operator ++(int) { StIt r=*this; ++p; return r; } };
SX_ENTRY(ptr_it) { PushOnly c; Log l; StIt o{c.l.s}; for (int i=0;i<K()-1;++i) { Op x=any_op(); log_op(l,x); sx_assert(do_op(o,x),"written"); } c.l.n=int(o.p-c.l.s); same(c,l); }
// sizes around the limits of 8 bit counters: one long write between two single characters
template <typename F> static void szo(int k, int n, F f) { std::string s((size_t)n,'x'); char c=sx_any<char>("c"); sx_assume(c!=0); s[n-1]=c; if (k==0) for (auto& x : s) x=c; std::string l="<"+s+">"; f(k,n,s,c,l); }
template <typename O> static bool long_op(O& o, int k, int n, const std::string& s, char c) { switch (k) { case 0: return cio::poke(o,(unsigned)n,c); case 1: return cio::poke(o,s.data(),s.data()+n); case 2: return cio::poke(o,s.data(),(std::size_t)n); case 3: return cio::poke(o,s.c_str()); default: return bio::poke(o,(const u8*)s.data(),(std::size_t)n); } }
template <typename C> static bool eqs(const C& c, const std::string& l) { std::size_t i=0; bool eq=true; for (auto x : c) { if (i<l.size()) eq&= char(x)==l[i]; ++i; } return eq && i==l.size(); }
template <std::size_t N> static void szbuf(int n) { szo((int)sx_range(0,4,"op"),n,[](int k, int n, const std::string& s, char c, const std::string& l) { std::string d; std::array<char,N> b; { auto o=cio::buffered_back_inserter(d,b); sx_assert(cio::poke(o,'<') && long_op(o,k,n,s,c) && cio::poke(o,'>'),"writing into a growing container succeeds"); } sx_assert(eqs(d,l),"the bytes arrive unchanged and in order"); }); }
SX_ENTRY(sz_buf) { int n=size8(); switch (sx_range(0,3,"cap")) { case 0: szbuf<16>(n); break; case 1: szbuf<255>(n); break; case 2: szbuf<256>(n); break; default: szbuf<257>(n); } }
SX_ENTRY(sz_str) { int n=size8(); szo((int)sx_range(0,4,"op"),n,[](int k, int n, const std::string& s, char c, const std::string& l) { std::string d; sx_assert(cio::poke(d,'<') && long_op(d,k,n,s,c) && cio::poke(d,'>'),"writing into a growing container succeeds"); sx_assert(eqs(d,l),"the bytes arrive unchanged and in order"); std::deque<char> q; sx_assert(cio::poke(q,'<') && long_op(q,k,n,s,c) && cio::poke(q,'>'),"writing into a growing container succeeds"); sx_assert(eqs(q,l),"the bytes arrive unchanged and in order"); std::string e; auto it=std::back_inserter(e); sx_assert(cio::poke(it,'<') && long_op(it,k,n,s,c) && cio::poke(it,'>'),"written"); sx_assert(eqs(e,l),"the bytes arrive unchanged and in order"); }); }
template <typename It, typename F> static void szrange(F mk) { int n=size8(); szo((int)sx_range(0,4,"op"),n,[&](int k, int n, const std::string& s, char c, const std::string& l) { int room=n+(int)sx_range(0,3,"room"); char* p=(char*)malloc(room); auto o=cxon::cnt::make_range_container(mk(p),mk(p+room)); sx_assert(cio::poke(o,'<')==(room>0),"one character"); bool ok=long_op(o,k,n,s,c); sx_assert(ok==(n+1<=room),"a write succeeds exactly when it fits"); if (ok) { bool z=cio::poke(o,'>'); sx_assert(z==(n+2<=room),"a write succeeds exactly when it fits"); sx_assert((int)o.size()==n+1+z,"size follows"); bool eq=true; for (int i=0;i<n+1+z;++i) eq&= p[i]==l[i]; sx_assert(eq,"the bytes arrive unchanged and in order"); } free(p); }); }
SX_ENTRY(sz_range) { szrange<char*>([](char* p) { return p; }); } SX_ENTRY(sz_frange) { szrange<RA>([](char* p) { return RA{p}; }); }
// ---- whole values through every kind of output: the same bytes as into a std::string
struct Good { using value_type=char; Log l; int lim; bool ok=true; void push_back(char c) { if (l.n<lim) l.add(c); else ok=false; } bool good() const { return ok; } const char* begin() const { return l.s; } const char* end() const { return l.s+l.n; } };
struct GoodApp { using value_type=char; std::string s; int lim; bool ok=true; void push_back(char c) { if ((int)s.size()<lim) s.push_back(c); else ok=false; } template <typename II> void append(II f, II l) { for (;f!=l;++f) push_back(*f); } void append(const char* p, std::size_t n) { for (std::size_t i=0;i<n;++i) push_back(p[i]); } void append(unsigned n, char c) { while (n--) push_back(c); } bool good() const { return ok; } const char* begin() const { return s.data(); } const char* end() const { return s.data()+s.size(); } };
template <typename C> static bool same_s(const C& c, const std::string& d) { std::size_t i=0; bool eq=true; for (auto x : c) { if (i<d.size()) eq&= char(x)==d[i]; ++i; } return eq && i==d.size(); }
template <typename X, typename T> static void kinds(const T& v) { std::string d; sx_assert(bool(cxon::to_bytes<X>(d,v)),"written"); int n=(int)d.size();
    switch (sx_range(0,12,"kind")) {
    case 0: { std::vector<char> c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"vector<char>"); break; }
    case 1: { std::vector<u8> c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"vector<unsigned char>"); break; }
    case 2: { std::deque<char> c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"deque<char>"); break; }
    case 3: { std::list<u8> c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"list<unsigned char>"); break; }
    case 4: { std::vector<signed char> c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"vector<signed char>"); break; }
    case 5: { std::vector<u8> c; sx_assert(bool(cxon::to_bytes<X>(std::back_inserter(c),v)) && same_s(c,d),"back_inserter"); break; }
    case 6: { PushOnly c; StIt o{c.l.s}; auto r=cxon::to_bytes<X>(o,v); sx_assert(bool(r),"output iterator"); bool eq=true; for (int i=0;i<n;++i) eq&= c.l.s[i]==d[i]; sx_assert(eq,"output iterator"); break; }
    case 7: { PushOnly c; sx_assert(bool(cxon::to_bytes<X>(c,v)) && same_s(c,d),"push_back only"); break; }
    case 8: { std::string e; std::array<char,2> b; { auto r=cxon::to_bytes<X>(cio::buffered_back_inserter(e,b),v); sx_assert(bool(r),"buffered"); } sx_assert(same_s(e,d),"buffered"); break; }
    case 9: { Good g; g.lim=(int)sx_range(0,n,"lim"); auto r=cxon::to_bytes<X>(g,v); sx_assert(bool(r)==(g.lim>=n) && bool(r)==!r.ec,"a container that reports its state"); bool eq=true; for (int i=0;i<g.l.n;++i) eq&= g.l.s[i]==d[i]; sx_assert(eq && (!r || g.l.n==n),"a container that reports its state"); break; }
    case 10: { GoodApp g; g.lim=(int)sx_range(0,n,"lim"); auto r=cxon::to_bytes<X>(g,v); sx_assert(bool(r)==(g.lim>=n) && bool(r)==!r.ec,"a container that reports its state"); bool eq=true; for (std::size_t i=0;i<g.s.size();++i) eq&= g.s[i]==d[i]; sx_assert(eq && (!r || (int)g.s.size()==n),"a container that reports its state"); break; }
    case 11: { int k=(int)sx_range(0,n,"room"); signed char* p=(signed char*)malloc(k); auto r=cxon::to_bytes<X>(p,p+k,v); int m=int(r.end-p); sx_assert(bool(r)==(k>=n) && bool(r)==!r.ec && m>=0 && m<=k,"a range of signed char"); bool eq=true; for (int i=0;i<m;++i) eq&= char(p[i])==d[i]; sx_assert(eq && (!r || m==n),"a range of signed char"); free(p); break; }
    default: { int k=(int)sx_range(0,n,"room"); char* p=(char*)malloc(k); auto r=cxon::to_bytes<X>(RA{p},RA{p+k},v); int m=int(r.end.p-p); sx_assert(bool(r)==(k>=n) && bool(r)==!r.ec && m>=0 && m<=k,"a range of other iterators"); bool eq=true; for (int i=0;i<m;++i) eq&= p[i]==d[i]; sx_assert(eq && (!r || m==n),"a range of other iterators"); free(p); } } }
template <typename X> static void kvals() { switch (sx_range(0,6,"val")) {
    case 0: kinds<X>(sx_any<signed char>("v")); break; case 1: kinds<X>(100000+int(sx_any<u8>("v")&15)); break; case 2: kinds<X>(sx_range(0,1,"b")!=0); break; case 3: kinds<X>(nullptr); break;
    case 4: { std::string s((size_t)sx_range(0,2,"n"),'a'); if (s.size()) { s[0]=sx_any<char>("c"); sx_assume(s[0]>=0); } kinds<X>(s); break; }
    case 5: { std::vector<short> w((size_t)sx_range(0,2,"n"),short(-3)); kinds<X>(w); break; } default: { std::vector<std::string> w(2); w[0]="\"x"; kinds<X>(w); } } }
SX_ENTRY(k_json) { kvals<cxon::JSON<>>(); } SX_ENTRY(k_cbor) { kvals<cxon::CBOR<>>(); }
SX_ENTRY(k_dbl) { kinds<cxon::CBOR<>>(sx_range(0,1,"d") ? 1.5 : 0.1); } SX_ENTRY(k_bytes) { u8 e[3]; sx_symbolic(e,3,"e"); int n=(int)sx_range(0,3,"n"); if (sx_range(0,1,"c")) kinds<cxon::CBOR<>>(std::list<u8>(e,e+n)); else kinds<cxon::CBOR<>>(std::vector<u8>(e,e+n)); }
