//@std 20
//@bounds reading: inputs of 0..N bytes, all bytes symbolic (quick N=4, thorough N=6) through pointers, forward and single-pass iterators; one element type of 8 bits (strings, byte vectors, C arrays of 3, lists, sets, zero-terminated pointers), 16 bits, booleans and nested vectors; longer heads: definite byte strings with any head width up to 9 bytes and any announced length, 0..4 bytes of content; at most one tag in front of an item. Writing: containers of 0..3 elements with any value; heads for any length up to 2^40; sizes of 24, 255, 256, 257, 300 (all forms) and 65535..65537 (strings) with symbolic content; pointers of 7..300 elements around every power of two
//@assume an element encoded with a wider argument than its type, or a tagged boolean, may be accepted or rejected (C03 decides values); the target container is empty before the read (reading appends)
//@reach r_*: bstr arr indef empty rejected trunc tagged
//@reach r_str r_u8 r_arr3 r_u16 r_in_str r_fwd_str: chunks
//@reach long_*: ok short
//@reach chunk_*: bstr indef chunks empty trunc rejected
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/span.hxx"
// reference: the elements of a string or array of integers of type T; -1: not one; amb: an element is encoded wider than T
struct Seq { u64 v[16]; int n=0; bool amb=false, chunks=false; };
template <typename T> static int ref_elem(const u8* p, int n, Seq& s) {
    int o=0; Head h=ref_head(p,n); if (h.ok && !h.indef && h.major==6) { o=h.len; h=ref_head(p+o,n-o); if (std::is_same<T,bool>::value) s.amb=true; }
    if (std::is_same<T,bool>::value) { if (n<=o || (p[o]!=0xF4 && p[o]!=0xF5)) return -1; if (s.n<16) s.v[s.n]=p[o]==0xF5; s.n++; return o+1; }
    if (!h.ok || h.indef || h.major>1) return -1;
    bool neg=h.major==1; u64 mx= sizeof(T)==1 && !neg ? 0xFF : (u64)std::numeric_limits<T>::max(); if (neg && !std::is_signed<T>::value) return -1; if (h.arg>mx) return -1;
    if (h.len-1>(int)sizeof(T)) s.amb=true;
    if (s.n<16) s.v[s.n]= neg ? (u64)(T)(-1-(i64)h.arg) : (u64)(T)h.arg; s.n++; return o+h.len; }
template <typename T> static int ref_seq(const u8* p, int n, Seq& s, u64 max=16, bool bytes=true) {
    int o=0; Head h=ref_head(p,n); if (h.ok && !h.indef && h.major==6) { sx_reach("tagged"); o=h.len; h=ref_head(p+o,n-o); }
    if (!h.ok) return -1;
    if ((h.major==2 || h.major==3) && bytes) {
        unsigned m=h.major; sx_reach("bstr");
        if (!h.indef) { if (h.arg>(u64)(n-o-h.len)) { sx_reach("trunc"); return -1; } if (h.arg>max) return -1; o+=h.len; for (u64 i=0;i<h.arg;++i) s.v[s.n++]=(u64)(T)p[o++]; return o; }
        sx_reach("indef"); ++o; for (;;) { if (o>=n) { sx_reach("trunc"); return -1; } if (p[o]==0xFF) return o+1; Head c=ref_head(p+o,n-o); if (!c.ok || c.indef || c.major!=m) return -1; o+=c.len; if (c.arg>(u64)(n-o) || s.n+c.arg>max) return -1; sx_reach("chunks"); for (u64 i=0;i<c.arg;++i) s.v[s.n++]=(u64)(T)p[o++]; }
    }
    if (h.major!=4) return -1;
    sx_reach("arr"); o+=h.len;
    if (!h.indef) { if (h.arg>max) return -1; if (h.arg>(u64)(n-o)) { sx_reach("trunc"); return -1; } for (u64 i=0;i<h.arg;++i) { int k=ref_elem<T>(p+o,n-o,s); if (k<0) return -1; o+=k; } return o; }
    sx_reach("indef"); for (;;) { if (o>=n) { sx_reach("trunc"); return -1; } if (p[o]==0xFF) return o+1; if ((u64)s.n>=max) return -1; int k=ref_elem<T>(p+o,n-o,s); if (k<0) return -1; o+=k; } }
template <typename T, typename V> static bool same(const V& t, const Seq& s) { bool eq=true; int i=0; for (auto v: t) { if (i>=s.n) return false; eq&= (u64)(T)v==s.v[i]; ++i; } return i==s.n && eq; }
template <typename R> static bool verdict(const R& r, int want, const Seq& s) {
    sx_assert(bool(r)==!r.ec,"result agrees with its error code");
    if (want<0) { sx_reach("rejected"); sx_assert(!r,"input that is not one is rejected"); return false; }
    if (s.n==0) sx_reach("empty"); if (!s.amb) sx_assert(bool(r),"a legal item is read"); return bool(r); }
template <typename T, typename V> static void rd(int lo=0, u64 max=16, bool bytes=true) {
    auto b=Buf<>::any(lo,(int)sx_bound(4,6)); V t; Seq s; int w=ref_seq<T>(b.p,b.n,s,max,bytes); auto r=cxon::from_bytes(t,b.begin(),b.end());
    if (verdict(r,w,s)) { sx_assert(r.end==b.p+w,"end is directly behind the item"); sx_assert(same<T>(t,s),"the elements in order"); } sx_out("ok",bool(r)); }
SX_ENTRY(r_str) { rd<char,std::string>(); } SX_ENTRY(r_u8) { rd<u8,std::vector<u8>>(); } SX_ENTRY(r_u16) { rd<unsigned short,std::vector<unsigned short>>(); } SX_ENTRY(r_i16) { rd<short,std::deque<short>>(); } SX_ENTRY(r_list) { rd<u8,std::list<u8>>(); } SX_ENTRY(r_w) { rd<char16_t,std::u16string>(); }
SX_ENTRY(r_bool) { auto b=Buf<>::any(0,(int)sx_bound(4,5)); std::vector<bool> t; Seq s; Head h=ref_head(b.p,b.n); sx_assume(!(b.n && (b[0]>>5)>=2 && (b[0]>>5)<=3) ); int w=ref_seq<bool>(b.p,b.n,s); auto r=cxon::from_bytes(t,b.begin(),b.end()); sx_reach("bstr"); if (verdict(r,w,s)) { sx_assert(r.end==b.p+w,"end is directly behind the item"); sx_assert((int)t.size()==s.n,"count"); bool eq=true; for (int i=0;i<s.n && i<(int)t.size();++i) eq&= t[i]==(s.v[i]!=0); sx_assert(eq,"the elements in order"); } }
// fixed-size targets: fewer elements leave the rest as it was
template <typename T, typename A> static void arr3() { auto b=Buf<>::any(0,(int)sx_bound(4,6)); A t{}; T o[3]; for (int i=0;i<3;++i) t[i]=o[i]=T(0x5A+i); Seq s; int w=ref_seq<T>(b.p,b.n,s,3); auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,w,s)) { sx_assert(r.end==b.p+w,"end is directly behind the item"); bool eq=true; for (int i=0;i<3;++i) eq&= (u64)t[i]==(i<s.n ? s.v[i] : (u64)o[i]); sx_assert(eq,"the elements in order, the rest untouched"); } }
template <typename T> struct A3 { T a[3]; };
SX_ENTRY(r_arr3) { arr3<u8,u8[3]>(); } SX_ENTRY(r_stdarr) { arr3<unsigned short,std::array<unsigned short,3>>(); }
SX_ENTRY(r_span) { auto b=Buf<>::any(0,(int)sx_bound(4,6)); u8* m=(u8*)malloc(3); for (int i=0;i<3;++i) m[i]=(u8)i; { std::span<u8> t(m,3); Seq s; int w=ref_seq<u8>(b.p,b.n,s,3); auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,w,s)) { bool eq=true; for (int i=0;i<3;++i) eq&= (u64)m[i]==(i<s.n ? s.v[i] : (u64)i); sx_assert(eq,"the elements in order, the rest untouched"); } } free(m); }
// zero-terminated pointers
SX_ENTRY(r_ptr) { auto b=Buf<>::any(0,(int)sx_bound(4,6)); const char* t=nullptr; Seq s; int w=ref_seq<char>(b.p,b.n,s); sx_assume(w>=0 || (b.n && (b[0]>>5)>=2 && (b[0]>>5)<=4 )); sx_reach("tagged"); auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,w,s)) { sx_assert(r.end==b.p+w,"end is directly behind the item"); bool eq=true; for (int i=0;i<s.n;++i) eq&= (u64)t[i]==s.v[i]; sx_assert(eq && t[s.n]==0,"the elements in order and a terminator"); } delete[] t; }
// sets keep the distinct elements
SX_ENTRY(r_set) { auto b=Buf<>::any(0,(int)sx_bound(4,5)); std::set<u8> t; Seq s; int w=ref_seq<u8>(b.p,b.n,s); Head h=ref_head(b.p,b.n); if (h.ok && h.major==6) h=ref_head(b.p+h.len,b.n-h.len); sx_assume(!h.ok || (h.major!=2 && h.major!=3 && h.major!=5)); sx_reach("bstr"); auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,w,s)) { bool eq=true; for (int i=0;i<s.n;++i) eq&= t.count((u8)s.v[i])==1; sx_assert(eq,"every element is there"); bool sub=true; for (u8 v: t) { bool in=false; for (int i=0;i<s.n;++i) in|= s.v[i]==v; sub&=in; } sx_assert(sub,"nothing else is there"); } }
// other iterator categories
SX_ENTRY(r_fwd_str) { auto b=Buf<>::any(0,(int)sx_bound(4,6)); std::string t; Seq s; int w=ref_seq<char>(b.p,b.n,s); auto r=cxon::from_bytes<cxon::CBOR<>>(t,Fwd<u8>(b.p),Fwd<u8>(b.p+b.n)); if (verdict(r,w,s)) { sx_assert(r.end.p==b.p+w,"end is directly behind the item"); sx_assert(same<char>(t,s),"the elements in order"); } }
SX_ENTRY(r_in_str) { auto b=Buf<>::any(0,(int)sx_bound(4,6)); std::string t; Seq s; int w=ref_seq<char>(b.p,b.n,s); const u8* p=b.p; auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); if (verdict(r,w,s)) { sx_assert(p==b.p+w,"exactly the item is consumed"); sx_assert(same<char>(t,s),"the elements in order"); } }
SX_ENTRY(r_in_arr3) { auto b=Buf<>::any(0,(int)sx_bound(4,6)); u8 t[3]={9,9,9}; Seq s; int w=ref_seq<u8>(b.p,b.n,s,3); const u8* p=b.p; auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); if (verdict(r,w,s)) { bool eq=true; for (int i=0;i<3;++i) eq&= (u64)t[i]==(i<s.n ? s.v[i] : 9u); sx_assert(eq,"the elements in order"); } }
// longer chunked strings
template <typename T, typename V> static void chnk() { auto b=Buf<>::any(1,(int)sx_bound(7,9)); sx_assume(b[0]==0x5F || b[0]==0x7F); V t; Seq s; int w=ref_seq<T>(b.p,b.n,s); auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,w,s)) { sx_assert(r.end==b.p+w,"end is directly behind the item"); sx_assert(same<T>(t,s),"the elements in order"); } }
SX_ENTRY(chunk_str) { chnk<char,std::string>(); } SX_ENTRY(chunk_u8) { chnk<u8,std::vector<u8>>(); }
// nested
SX_ENTRY(nest) { auto b=Buf<>::any(0,(int)sx_bound(4,5)); std::vector<std::vector<u8>> t; int o=0, cnt=0; bool ok=true; Seq e[6]; Head h=ref_head(b.p,b.n); if (h.ok && !h.indef && h.major==6) { o=h.len; h=ref_head(b.p+o,b.n-o); }
    if (!h.ok || h.major!=4) { sx_assume(h.ok && h.major==5 ? 0 : 1); ok=false; } else { o+=h.len; if (!h.indef) { if (h.arg>(u64)(b.n-o)) ok=false; for (u64 i=0; ok && i<h.arg; ++i) { int k=ref_seq<u8>(b.p+o,b.n-o,e[cnt]); if (k<0) ok=false; else o+=k, ++cnt; } } else for (;;) { if (o>=b.n) { ok=false; break; } if (b[o]==0xFF) { ++o; break; } int k=ref_seq<u8>(b.p+o,b.n-o,e[cnt]); if (k<0) { ok=false; break; } o+=k; ++cnt; } }
    auto r=cxon::from_bytes(t,b.begin(),b.end()); bool amb=false; for (int i=0;i<cnt;++i) amb|=e[i].amb; if (!ok) sx_assert(!r,"input that is not one is rejected"); else { if (!amb) sx_assert(bool(r),"a legal item is read"); if (r) { sx_assert(r.end==b.p+o && (int)t.size()==cnt,"end and count"); bool eq=true; for (int i=0;i<cnt && i<(int)t.size();++i) eq&= same<u8>(t[i],e[i]); sx_assert(eq,"the elements in order"); } } }
// any announced length
template <typename V> static void lng(unsigned major, unsigned unit, u64 max) { int k=(int)sx_range(0,3,"width"); int w=1<<k, c=(int)sx_range(0,4,"content"); Buf<> b(1+w+c); sx_assume(b.p[0]==(u8)((major<<5)|(24+k))); u64 a=0; for (int i=0;i<w;++i) a=(a<<8)|b[1+i]; if (unit) for (int i=0;i<c;++i) sx_assume(b[1+w+i]<24);
    V t{}; auto r=cxon::from_bytes(t,b.begin(),b.end()); bool ok= a<=(u64)c && a<=max; sx_assert(bool(r)==ok,"read exactly when the announced content is there"); if (ok) { sx_reach("ok"); sx_assert(r.end==b.p+1+w+a,"end is directly behind the item"); bool eq=true; int i=0; for (auto v: t) { if (i<(int)a) eq&= (u8)v==b[1+w+i]; ++i; } sx_assert(eq && (max==2 || i==(int)a),"the elements in order"); } else sx_reach("short"); }
SX_ENTRY(long_bstr) { lng<std::vector<u8>>(2,0,~0ull); } SX_ENTRY(long_tstr) { lng<std::string>(3,0,~0ull); } SX_ENTRY(long_arr) { lng<std::vector<u8>>(4,1,~0ull); } SX_ENTRY(long_fix) { lng<std::array<u8,2>>(2,0,2); } SX_ENTRY(long_list) { lng<std::list<unsigned>>(4,1,~0ull); }
// writing
template <typename T, typename V> static void wr(unsigned major, bool raw) { int n=(int)sx_range(0,3,"n"); V t; T v[3]; for (int i=0;i<n;++i) { v[i]=sx_any<T>("v"); t.insert(t.end(),v[i]); } std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); u8 e[64]; int k=ref_put_head(e,major,n); for (int i=0;i<n;++i) if (raw) e[k++]=(u8)v[i]; else if (std::is_signed<T>::value && v[i]<T(0)) k+=ref_put_head(e+k,1,(u64)(-1-(i64)v[i])); else k+=ref_put_head(e+k,0,(u64)v[i]);
    sx_assert((int)o.size()==k,"definite-length item with shortest heads (size)"); bool eq=true; for (int i=0;i<k && i<(int)o.size();++i) eq&= (u8)o[i]==e[i]; sx_assert(eq,"definite-length item with shortest heads"); V u; auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && u==t,"reads back to the same content"); }
SX_ENTRY(w_str) { wr<char,std::string>(3,true); } SX_ENTRY(w_u8) { wr<u8,std::vector<u8>>(2,true); } SX_ENTRY(w_u16) { wr<unsigned short,std::vector<unsigned short>>(4,false); } SX_ENTRY(w_i32) { wr<int,std::list<int>>(4,false); } SX_ENTRY(w_u16s) { wr<char16_t,std::u16string>(4,false); } SX_ENTRY(w_lu8) { wr<u8,std::list<u8>>(2,true); }
SX_ENTRY(w_arr) { u8 a[3]; for (auto& x: a) x=sx_any<u8>("v"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,a)),"writing succeeds"); sx_assert(o.size()==4 && (u8)o[0]==0x43 && (u8)o[1]==a[0] && (u8)o[2]==a[1] && (u8)o[3]==a[2],"byte string of the elements"); u8 b[3]; sx_assert(bool(cxon::from_bytes<cxon::CBOR<>>(b,o)) && b[0]==a[0] && b[1]==a[1] && b[2]==a[2],"reads back"); }
SX_ENTRY(w_ptr) { char* s=(char*)malloc(4); int n=(int)sx_range(0,3,"n"); for (int i=0;i<n;++i) { s[i]=sx_any<char>("c"); sx_assume(s[i]!=0); } s[n]=0; std::string o; const char* p=s; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,p)),"writing succeeds"); bool eq= (int)o.size()==n+2 && (u8)o[0]==0x60+n+1 && o[n+1]==0; for (int i=0;eq && i<n;++i) eq&= o[1+i]==s[i]; sx_assert(eq,"text string with its terminator"); const char* q=nullptr; sx_assert(bool(cxon::from_bytes<cxon::CBOR<>>(q,o)),"reads back"); eq=true; for (int i=0;i<=n;++i) eq&= q[i]==s[i]; sx_assert(eq,"the same text"); delete[] q; free(s); }
// heads for any length: the range is too small for the content
SX_ENTRY(w_head) { u64 n=sx_any<u64>("n"); sx_assume(n>=16 && n<(1ull<<40)); u8 one=0; std::span<const u8> t(&one,n); u8 o[12]={}; auto r=cxon::to_bytes<cxon::CBOR<>>(std::begin(o),std::end(o),t); sx_assert(!r,"does not fit"); u8 e[12]={}; int k=ref_put_head(e,2,n); bool eq=true; for (int i=0;i<12;++i) eq&= o[i]==e[i]; sx_assert(eq,"the head is the shortest one for the length"); sx_assert(r.end==o+k,"end of the output"); }
// sizes around the limits of 8 and 16 bit counters
static int put_head(u8* p, unsigned major, u64 n, int k) { p[0]=u8((major<<5)|(24+k)); int w=1<<k; for (int i=0;i<w;++i) p[1+i]=u8(n>>(8*(w-1-i))); return 1+w; }
template <typename V, typename F> static void got(const V& t, int n, F at) { bool eq=true; int i=0; for (auto v: t) { if (i<n) eq&= (u64)(typename std::make_unsigned<decltype(v)>::type)v==(u64)at(i); ++i; } sx_assert(i==n,"as many elements as announced"); sx_assert(eq,"the elements in order"); }
template <typename V, bool IN> static void read_sz(Buf<>& b, int len, int n, const u8* c, bool ok=true) { V t{}; if (IN) { const u8* p=b.p; auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&p,b.p+len),Inp<u8>::end_of(b.p+len)); sx_assert(bool(r)==ok,"read exactly when complete"); if (ok) { sx_assert(p==b.p+len,"exactly the item is consumed"); got(t,n,[&](int i) { return c[i]; }); } }
    else { auto r=cxon::from_bytes(t,b.p,b.p+len); sx_assert(bool(r)==ok,"read exactly when complete"); if (ok) { sx_assert(r.end==b.p+len,"end is directly behind the item"); got(t,n,[&](int i) { return c[i]; }); } } }
template <typename V, bool IN=false> static void szb(unsigned major) { int n=size8(), k=(int)sx_range(n>255,3,"width"), cut=(int)sx_range(0,1,"cut"); Buf<> b(9+n); int h=put_head(b.p,major,n,k); read_sz<V,IN>(b,h+n-cut,n,b.p+h,!cut); }
SX_ENTRY(sz_str) { szb<std::string>(3); } SX_ENTRY(sz_u8) { szb<std::vector<u8>>(2); } SX_ENTRY(sz_list) { szb<std::list<u8>>(2); } SX_ENTRY(sz_in) { szb<std::string,true>(3); } SX_ENTRY(sz_u16) { szb<std::vector<unsigned short>>(2); }
SX_ENTRY(sz_fix) { int n=(int)sx_range(255,258,"n"); Buf<> b(3+n); int h=put_head(b.p,2,n,1); std::array<u8,257> t; t.fill(9); auto r=cxon::from_bytes(t,b.begin(),b.end()); sx_assert(bool(r)==(n<=257),"read exactly when it fits"); if (r) { bool eq=true; for (int i=0;i<257;++i) eq&= t[i]==(i<n ? b[h+i] : 9); sx_assert(eq,"the elements in order, the rest untouched"); } }
template <typename V, bool IN=false> static void szc(unsigned major) { int n=size8(), m=(int)sx_range(0,2,"m"); Buf<> b(1+3+n+1+m+1); u8* p=b.p; p[0]=u8((major<<5)|31); int o=1; o+=put_head(p+o,major,n,1); Buf<> c(n+m,Buf<>::Raw()); memcpy(c.p,p+o,n); o+=n; p[o++]=u8((major<<5)|m); memcpy(c.p+n,p+o,m); o+=m; p[o++]=0xFF; read_sz<V,IN>(b,o,n+m,c.p); }
SX_ENTRY(sz_cstr) { szc<std::string>(3); } SX_ENTRY(sz_cu8) { szc<std::vector<u8>,true>(2); }
SX_ENTRY(sz_chunks) { int n=size8(); Buf<> b(2+2*n,Buf<>::Raw()); Buf<> c(n); u8* p=b.p; p[0]=0x5F; for (int i=0;i<n;++i) { p[1+2*i]=0x41; p[2+2*i]=c.p[i]; } p[1+2*n]=0xFF; read_sz<std::vector<u8>,false>(b,2+2*n,n,c.p); }
template <typename V, bool IN=false> static void sza() { int n=size8(), ind=(int)sx_range(0,1,"indef"), cut=(int)sx_range(0,1,"cut"); Buf<> b(4+n); int o=0; if (ind) b.p[o++]=0x9F; else o+=put_head(b.p,4,n,1); const u8* c=b.p+o; for (int i=0;i<n;++i) b.p[o++]=u8((i*7)%24); if (ind) b.p[o++]=0xFF; read_sz<V,IN>(b,o-cut,n,c,!cut); }
SX_ENTRY(sz_au16) { sza<std::vector<unsigned short>>(); } SX_ENTRY(sz_ai) { sza<std::list<unsigned>,true>(); } SX_ENTRY(sz_au8) { sza<std::vector<u8>>(); } SX_ENTRY(sz_aw) { sza<std::u16string>(); }
SX_ENTRY(sz_wide) { sx_allow(SX_ALLOW_HUGE); static const int z[]={65535,65536,65537}; int n=z[sx_range(0,2,"size")], k=(int)sx_range(n>65535 ? 2 : 1,3,"width"); u8* p=(u8*)malloc(9+n); int h=put_head(p,2,n,k); memset(p+h,7,n); p[h]=sx_any<u8>("f"); p[h+n-1]=sx_any<u8>("l"); std::string t; auto r=cxon::from_bytes(t,p,p+h+n); sx_assert(bool(r) && r.end==p+h+n && (int)t.size()==n,"read, as many elements as announced"); sx_assert((u8)t[0]==p[h] && (u8)t[n-1]==p[h+n-1] && t[n/2]==7 && t[n-2]==7,"the elements in order"); auto x=cxon::from_bytes(t,p,p+h+n-1); sx_assert(!x,"cut off"); free(p); }
// written: head and content, read back
template <typename V> static void szw(unsigned major) { int n=size8(); Buf<> b(n); V t(b.begin(),b.end()); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); u8 e[12]; int k=ref_put_head(e,major,n); sx_assert((int)o.size()==k+n,"definite-length item with the shortest head (size)"); bool eq=true; for (int i=0;i<k;++i) eq&= (u8)o[i]==e[i]; for (int i=0;i<n;++i) eq&= (u8)o[k+i]==b[i]; sx_assert(eq,"head and content"); V u; auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && u==t,"reads back to the same content"); }
SX_ENTRY(sz_wstr) { szw<std::string>(3); } SX_ENTRY(sz_wu8) { szw<std::vector<u8>>(2); } SX_ENTRY(sz_wlist) { szw<std::list<u8>>(2); }
SX_ENTRY(sz_wint) { int n=size8(); std::vector<int> t, u; for (int i=0;i<n;++i) t.push_back(i*37-1000); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); u8 e[12]; int k=ref_put_head(e,4,n); bool eq=true; for (int i=0;i<k;++i) eq&= (u8)o[i]==e[i]; for (int i=0;eq && i<n;++i) { u8 h[12]; int m= t[i]<0 ? ref_put_head(h,1,(u64)(-1-t[i])) : ref_put_head(h,0,(u64)t[i]); for (int j=0;j<m;++j) eq&= (u8)o[k+j]==h[j]; k+=m; } sx_assert(eq && (int)o.size()==k,"head and elements"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && u==t,"reads back to the same content"); }
SX_ENTRY(sz_wwide) { sx_allow(SX_ALLOW_HUGE); static const int z[]={65535,65536,65537}; int n=z[sx_range(0,2,"size")]; std::string t(n,'x'), u; t[n-1]=sx_any<char>("l"); std::string o; o.reserve(n+64); sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); u8 e[12]; int k=ref_put_head(e,3,n); bool eq=(int)o.size()==k+n; for (int i=0;i<k;++i) eq&= (u8)o[i]==e[i]; sx_assert(eq && o[k]=='x' && o[k+n-1]==t[n-1],"head and content"); }
// pointers: the storage grows with the text; sizes around every power of two
static int sizep() { static const int z[]={7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300}; return z[sx_range(0,18,"size")]; }
template <typename T, bool IN> static void szp() { int n=sizep(), form=(int)sx_range(0,sizeof(T)==1?2:1,"form"); Buf<> b(2*n+12,Buf<>::Raw()); u8* p=b.p; u8 x=sx_any<u8>("x"); sx_assume(x<24); int o=0; if (form==0) { o+=put_head(p,4,n,n<256?0:1); for (int i=0;i<n;++i) p[o++]=i==n-1?x:u8(i%24); } else if (form==1) { p[o++]=0x9F; for (int i=0;i<n;++i) p[o++]=i==n-1?x:u8(i%24); p[o++]=0xFF; } else { int m=n/2; p[o++]=0x7F; o+=put_head(p+o,3,m,1); for (int i=0;i<m;++i) p[o++]=u8(i%24); o+=put_head(p+o,3,n-m,1); for (int i=m;i<n;++i) p[o++]=i==n-1?x:u8(i%24); p[o++]=0xFF; }
    T* t=nullptr; bool ok; const u8* e=p; if (IN) { auto r=cxon::from_bytes<cxon::CBOR<>>(t,Inp<u8>(&e,p+o),Inp<u8>::end_of(p+o)); ok=bool(r); } else { auto r=cxon::from_bytes<cxon::CBOR<>>(t,(const u8*)p,(const u8*)p+o); ok=bool(r); e=r.end; } sx_assert(ok && e==p+o,"a legal item is read"); bool eq=true; for (int i=0;i<n;++i) eq&= t[i]==T(i==n-1?x:i%24); sx_assert(eq && t[n]==T(0),"the elements in order and a terminator"); delete[] t; }
SX_ENTRY(sz_pc) { szp<char,false>(); } SX_ENTRY(sz_pc_in) { szp<char,true>(); } SX_ENTRY(sz_pi) { szp<int,false>(); } SX_ENTRY(sz_pi_in) { szp<int,true>(); }
