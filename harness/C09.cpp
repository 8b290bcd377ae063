//@std 20
//@bounds inputs of 0..N bytes, all bytes symbolic (quick N=4, thorough N=5; 3 and 5 for other iterators) read with a discarding sink, with a capturing sink and through forward and single-pass iterators; longer items: definite strings with any head width and any announced length, arrays and maps with any announced count, chunked strings of up to 9 bytes with any content; a class of one known and one declared-skip field whose value is any item of up to 3 bytes (quick) or 5 (thorough); known values behind the skipped one; counts and lengths of 24, 255, 256, 257, 300 in every head width, nesting of 63..300 levels of arrays and maps, definite and indefinite
//@assume a two-byte simple value below 32 (not well-formed by RFC 8949, accepted by RFC 7049 readers) may be accepted or rejected
//@reach any_*: ok rejected
//@reach any_cap: tag indef nested string break
//@reach big_*: ok short
//@reach chunk_*: ok rejected
//@reach field: skipped known-after unknown
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/string.hxx"
// the length of the well-formed item at p, -1: there is none
// q: with the two recorded deviations (known_findings.txt: C09-tag, C09-indef), to tell them from any other
static bool amb; static int dev;
template <bool q> static int item(const u8* p, int n, int depth=0) {
    Head h=ref_head(p,n); if (!h.ok) return -1; int o=h.len;
    switch (h.major) {
        case 0: case 1: return h.indef ? -1 : o;
        case 7: if (h.indef) return -1; if (h.ai==24 && h.arg<32) amb=true; return o;
        case 6: if (q) { dev|=1; return h.indef ? -1 : o; } { if (h.indef) return -1; if (!depth) sx_reach("tag"); int k=item<q>(p+o,n-o,depth+1); return k<0 ? -1 : o+k; }
        case 2: case 3:
            if (!h.indef) { if (!depth) sx_reach("string"); return h.arg>(u64)(n-o) ? -1 : o+(int)h.arg; }
            if (!depth) sx_reach("indef");
            if (q) { dev|=2; for (;;) { if (o>=n) return -1; if (p[o++]==0xFF) return o; } }
            for (;;) { if (o>=n) return -1; if (p[o]==0xFF) return o+1; Head c=ref_head(p+o,n-o); if (!c.ok || c.indef || c.major!=h.major) return -1; o+=c.len; if (c.arg>(u64)(n-o)) return -1; o+=(int)c.arg; }
        default: {
            int m= h.major==5 ? 2 : 1; if (depth) sx_reach("nested");
            if (!h.indef) { if (h.arg>(u64)n) return -1; for (u64 j=0;j<m*h.arg;++j) { int k=item<q>(p+o,n-o,depth+1); if (k<0) return -1; o+=k; } return o; }
            for (;;) { if (o>=n) return -1; if (p[o]==0xFF) { sx_reach("break"); return o+1; } for (int j=0;j<m;++j) { int k=item<q>(p+o,n-o,depth+1); if (k<0) return -1; o+=k; } } } } }
static int ref_item(const u8* p, int n) { return item<false>(p,n); }
// the item is skipped as it should (or as recorded); the length of what was skipped
template <typename R> static int verdict(const R& r, const u8* p, int n, long e) { sx_assert(bool(r)==!r.ec,"result agrees with its error code"); dev=0; int w=item<false>(p,n), x=item<true>(p,n); int g= r ? (int)e : -1;
    if (w<0) sx_reach("rejected"); else sx_reach("ok"); if (amb && !r) return -1;
    sx_assert(g==w || g==x, "exactly one well-formed item is consumed, a truncated or malformed one rejected"); if (dev&1) sx_known(g==w,"C09-tag","a tag is skipped without the item it tags"); else sx_known(g==w,"C09-indef","an indefinite string is skipped up to the first FF byte, also inside a chunk"); return g; }
template <typename V> static bool bytes(const V& v, const u8* p, int n) { bool eq=(int)v.size()==n; for (int i=0;i<n && i<(int)v.size();++i) eq&= (u8)v[i]==p[i]; return eq; }
SX_ENTRY(any_void) { amb=false; auto b=Buf<>::any(0,(int)sx_bound(4,5)); cxon::cbor::sink<> s; auto r=cxon::from_bytes(s,b.begin(),b.end()); verdict(r,b.p,b.n,r.end-b.p); sx_out("ok",bool(r)); }
SX_ENTRY(any_cap) { amb=false; auto b=Buf<>::any(0,(int)sx_bound(4,5)); cxon::cbor::sink<std::vector<u8>> s; auto r=cxon::from_bytes(s,b.begin(),b.end()); int w=verdict(r,b.p,b.n,r.end-b.p); if (w>=0) { sx_assert(bytes(s.value,b.p,w),"the sink holds exactly the bytes of the item"); std::vector<u8> o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,s)) && bytes(o,b.p,w),"written back as it was"); } }
SX_ENTRY(any_fwd) { amb=false; auto b=Buf<>::any(0,(int)sx_bound(3,5)); cxon::cbor::sink<std::string> s; auto r=cxon::from_bytes<cxon::CBOR<>>(s,Fwd<u8>(b.p),Fwd<u8>(b.p+b.n)); int w=verdict(r,b.p,b.n,r.end.p-b.p); if (w>=0) { sx_assert(bytes(s.value,b.p,w),"the sink holds exactly the bytes of the item"); } }
SX_ENTRY(any_in) { amb=false; auto b=Buf<>::any(0,(int)sx_bound(3,5)); const u8* p=b.p; cxon::cbor::sink<std::vector<u8>> s; auto r=cxon::from_bytes<cxon::CBOR<>>(s,Inp<u8>(&p,b.p+b.n),Inp<u8>::end_of(b.p+b.n)); int w=verdict(r,b.p,b.n,p-b.p); if (w>=0) { sx_assert(bytes(s.value,b.p,w),"the sink holds exactly the bytes of the item"); } }
template <unsigned M> static void big() { amb=false; int k=(int)sx_range(0,3,"width"); int w=1<<k, c=(int)sx_range(0,4,"content"); Buf<> b(1+w+c); sx_assume(b.p[0]==(u8)((M<<5)|(24+k))); u64 a=0; for (int i=0;i<w;++i) a=(a<<8)|b[1+i]; if (M>3) for (int i=0;i<c;++i) sx_assume(b[1+w+i]<24); int m=M==5?2:1; bool ok=a<=(u64)(c/m); cxon::cbor::sink<std::vector<u8>> s; auto r=cxon::from_bytes(s,b.begin(),b.end()); sx_assert(bool(r)==ok,"skipped exactly when the announced content is there"); if (ok) { sx_reach("ok"); int n=1+w+(int)a*m; sx_assert(r.end==b.p+n,"exactly one item is consumed"); sx_assert(bytes(s.value,b.p,n),"the sink holds exactly the bytes of the item"); } else sx_reach("short"); }
SX_ENTRY(big_bstr) { big<2>(); } SX_ENTRY(big_tstr) { big<3>(); } SX_ENTRY(big_arr) { big<4>(); } SX_ENTRY(big_map) { big<5>(); }
SX_ENTRY(chunk_cap) { amb=false; auto b=Buf<>::any(2,(int)sx_bound(7,9)); sx_assume(b[0]==0x5F || b[0]==0x7F); cxon::cbor::sink<std::vector<u8>> s; auto r=cxon::from_bytes(s,b.begin(),b.end()); int w=verdict(r,b.p,b.n,r.end-b.p); if (w>=0) { sx_assert(bytes(s.value,b.p,w),"the sink holds exactly the bytes of the item"); } }
// a class that skips the field "s"
struct Sk { unsigned char a=7; };
CXON_CBOR_CLS_READ(Sk, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_SKIP("s"))
SX_ENTRY(field) { amb=false; int k=(int)sx_range(1,(int)sx_bound(3,5),"len"); Buf<> b(k+1+3+3+2); u8* p=b.p; sx_assume(p[0]==0xA2 && p[1]==0x62 && p[3]==0 ); bool s=p[2]=='s'; sx_assume(s || p[2]=='b'); int w=ref_item(p+4,k); sx_assume(w==k); dev=0; int x=item<true>(p+4,k+4); if (x!=k) { sx_reach("recorded"); return; } if (!amb) sx_assume(p[4+k]==0x62 && p[5+k]=='a' && p[6+k]==0); else return; sx_assume(p[7+k]<24);
    Sk t; auto r=cxon::from_bytes(t,b.begin(),b.end()); if (!s) { sx_reach("unknown"); sx_assert(!r,"an unknown key is rejected"); } else { sx_reach("skipped"); sx_reach("known-after"); sx_assert(bool(r),"the skipped value does not disturb the rest"); sx_assert(t.a==p[7+k],"the next field gets its value"); sx_assert(r.end==p+8+k,"end is directly behind the item"); } }
// sizes and nesting around the limits of 8 and 16 bit counters
static void szone(u8* p, int o, bool full=true) { amb=false; p[o]=sx_any<u8>("behind"); p[o+1]=sx_any<u8>("behind"); cxon::cbor::sink<std::vector<u8>> s; auto r=cxon::from_bytes(s,p,p+o+2); sx_assert(bool(r) && r.end==p+o,"exactly the item is consumed"); sx_assert(bytes(s.value,p,o),"the sink holds exactly the bytes of the item"); if (full) { cxon::cbor::sink<> v; const u8* q=p; auto x=cxon::from_bytes<cxon::CBOR<>>(v,Inp<u8>(&q,p+o),Inp<u8>::end_of(p+o)); sx_assert(bool(x) && q==p+o,"exactly the item is consumed"); cxon::cbor::sink<> u; sx_assert(!cxon::from_bytes(u,p,p+o-1),"a truncated item is rejected"); } free(p); }
static int sz_head(u8* p, unsigned major, u64 n, int k) { p[0]=u8((major<<5)|(24+k)); int w=1<<k; for (int i=0;i<w;++i) p[1+i]=u8(n>>(8*(w-1-i))); return 1+w; }
SX_ENTRY(sz_cnt) { int n=size8(), m=(int)sx_range(4,5,"major"), k=(int)sx_range(0,4,"width"), c= m==5 ? 2*n : n; if (k==0 && n>255) return; u8* p=(u8*)malloc(c+12); int o=0; if (k==4) p[o++]=u8((m<<5)|31); else o+=sz_head(p,m,n,k); for (int i=0;i<c;++i) p[o++]=u8(i%24); p[o-1]=sx_any<u8>("e"); sx_assume(p[o-1]<24); if (k==4) p[o++]=0xFF; szone(p,o); }
SX_ENTRY(sz_str) { int n=size8(), m=(int)sx_range(2,3,"major"), k=(int)sx_range(n>255,3,"width"); Buf<> b(n); u8* p=(u8*)malloc(n+12); int o=sz_head(p,m,n,k); for (int i=0;i<n;++i) p[o++]=b[i]; szone(p,o); }
SX_ENTRY(sz_deep) { int d=depth8(), f=(int)sx_range(0,4,"form"), o=0; u8* p=(u8*)malloc(5*d+12); for (int i=0;i<d;++i) switch (f==4 ? i%4 : f) { case 0: p[o++]=0x81; break; case 1: p[o++]=0xA1; p[o++]=0x18; p[o++]=u8(i); break; case 2: p[o++]=0x9F; break; case 3: p[o++]=0xBF; p[o++]=0x61; p[o++]='k'; break; } p[o]=sx_any<u8>("leaf"); sx_assume(p[o]<24); ++o; for (int i=d;i-->0;) if ((f==4 ? i%4 : f)>=2) p[o++]=0xFF; szone(p,o); }
SX_ENTRY(sz_field) { int n=size8(); u8* p=(u8*)malloc(n+24); int o=0; p[o++]=0xA2; p[o++]=0x62; p[o++]='s'; p[o++]=0; int f=(int)sx_range(0,2,"form"); if (f==0) { o+=sz_head(p+o,2,n,1); for (int i=0;i<n;++i) p[o++]=u8(i); } else if (f==1) { o+=sz_head(p+o,4,n,1); for (int i=0;i<n;++i) p[o++]=u8(i%24); } else { for (int i=0;i<n;++i) p[o++]=0x81; p[o++]=0; } p[o++]=0x62; p[o++]='a'; p[o++]=0; p[o]=sx_any<u8>("v"); sx_assume(p[o]<24); ++o; Sk t; auto r=cxon::from_bytes(t,p,p+o); sx_assert(bool(r) && r.end==p+o && t.a==p[o-1],"the next field gets its value"); free(p); }
