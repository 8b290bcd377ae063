//@std 20
//@bounds maps of unsigned 8-bit keys and values: inputs of 0..N bytes (quick N=6, thorough N=7), definite and indefinite; tuples, pairs, complex numbers, variants, optionals, enumerations, bit sets of 5, 9 and 16 bits, class objects: inputs of 0..N bytes, all bytes symbolic, into targets with any previous content (bit sets); class maps of up to 3 entries with keys of up to 2 symbolic bytes in byte, text, chunked and array form; written and read back: all values, maps of up to 3 entries; maps of 24..300 entries, a class of 26 fields with any two keys, bit sets of 300 and 2041 bits and of every size from 1 to 64 (written)
//@assume a map or class may also be accepted from an array head (the library's leniency, not judged); an indefinite class map may be rejected; an element encoded wider than its type may be rejected
//@reach map: definite indef dup rejected ok
//@reach tup* pair: ok wrong-size wrong-kind rejected
//@reach var: ok bad-index
//@reach bits*: ok rejected
//@reach cls_keys: ok unknown repeated
//@reach cls_any: rejected
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/bitset.hxx"
// reference unsigned of 8 bits (at most one tag); amb: wider head
static bool amb;
static int ref_u8(const u8* p, int n, u8& v) { int o=0; Head h=ref_head(p,n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(p+o,n-o); } if (!h.ok || h.indef || h.major || h.arg>255) return -1; if (h.len>2) amb=true; v=(u8)h.arg; return o+h.len; }
struct M8 { int n=0; u8 k[8], v[8]; void put(u8 a, u8 b) { for (int i=0;i<n;++i) if (k[i]==a) { sx_reach("dup"); v[i]=b; return; } k[n]=a; v[n++]=b; } };
template <typename R> static bool verdict(const R& r, bool ok) { sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (!ok) { sx_reach("rejected"); sx_assert(!r,"input that is not one is rejected"); return false; } if (!amb) sx_assert(bool(r),"a legal item is read"); if (r) sx_reach("ok"); return bool(r); }
template <typename T> static bool has(const T& t, const M8& m) { bool eq=(int)t.size()==m.n; for (int i=0;i<m.n;++i) { auto it=t.find(m.k[i]); if (it==t.end()) return false; eq&= it->second==m.v[i]; } return eq; }
template <typename T> static void map() { amb=false; auto b=Buf<>::any(0,(int)sx_bound(6,7)); T t; M8 m; int o=0; bool ok=true; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } sx_assume(!h.ok || h.major!=4);
    if (!h.ok || h.major!=5) ok=false; else { o+=h.len; for (u64 i=0;;++i) { if (h.indef) { sx_reach("indef"); if (o>=b.n) { ok=false; break; } if (b[o]==0xFF) { ++o; break; } } else { sx_reach("definite"); if (i==h.arg) break; } u8 k=0,v=0; int l=ref_u8(b.p+o,b.n-o,k); if (l<0) { ok=false; break; } o+=l; l=ref_u8(b.p+o,b.n-o,v); if (l<0) { ok=false; break; } o+=l; m.put(k,v); } }
    auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,ok)) { sx_assert(r.end==b.p+o,"end is directly behind the item"); sx_assert(has(t,m),"every key has its own value"); } sx_out("ok",bool(r)); }
SX_ENTRY(map) { map<std::map<u8,u8>>(); } 
template <typename T> static void mapw() { int n=(int)sx_range(0,3,"n"); T t, u; for (int i=0;i<n;++i) { u8 k=sx_any<u8>("k"); t[k]=sx_any<u8>("v"); } std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); sx_assert(o.size()>0 && (u8)o[0]==0xA0+t.size(),"a definite map"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t==u,"reads back to the same map"); }
SX_ENTRY(map_w) { mapw<std::map<u8,u8>>(); } SX_ENTRY(umap_w) { int n=(int)sx_range(0,2,"n"); std::unordered_map<u8,u8> t, u; for (int i=0;i<n;++i) { u8 k=(u8)sx_range(0,3,"k"); t[k]=sx_any<u8>("v"); } std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); bool eq=t.size()==u.size(); for (auto& e: t) { auto i=u.find(e.first); eq&= i!=u.end() && i->second==e.second; } sx_assert(bool(r) && r.end==o.end() && eq,"reads back to the same map"); }
// multimaps keep every pair
SX_ENTRY(mmap) { u8 e[4]; for (auto& x: e) { x=sx_any<u8>("e"); sx_assume(x<24); } u8* p=(u8*)malloc(5); p[0]=0xA2; for (int i=0;i<4;++i) p[1+i]=e[i]; std::multimap<u8,u8> t; auto r=cxon::from_bytes(t,p,p+5); sx_assert(bool(r) && t.size()==2,"every pair is kept"); int seen=0; for (auto& x: t) seen+= (x.first==e[0] && x.second==e[1]) || (x.first==e[2] && x.second==e[3]); sx_assert(seen==2,"every key has its value"); free(p); }
// tuples
template <unsigned N, typename T, typename G> static void tup(G get) { amb=false; auto b=Buf<>::any(0,(int)sx_bound(5,6)); T t; u8 v[4]={}; int o=0; bool ok=true; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } if (!h.ok || h.indef) ok=false; else if (h.major!=4) { sx_reach("wrong-kind"); ok=false; } else if (h.arg!=N) { sx_reach("wrong-size"); ok=false; } else { o+=h.len; for (unsigned i=0; ok && i<N; ++i) { int l=ref_u8(b.p+o,b.n-o,v[i]); if (l<0) ok=false; else o+=l; } } if (h.ok && h.indef && h.major==4) return;
    auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,ok)) { sx_assert(r.end==b.p+o,"end is directly behind the item"); sx_assert(get(t,v),"the elements in order"); } }
SX_ENTRY(tup2) { tup<2,std::tuple<u8,u8>>([](auto& t, u8* v) { return std::get<0>(t)==v[0] && std::get<1>(t)==v[1]; }); } SX_ENTRY(tup3) { tup<3,std::tuple<u8,u8,u8>>([](auto& t, u8* v) { return std::get<0>(t)==v[0] && std::get<1>(t)==v[1] && std::get<2>(t)==v[2]; }); } SX_ENTRY(pair) { tup<2,std::pair<u8,u8>>([](auto& t, u8* v) { return t.first==v[0] && t.second==v[1]; }); } SX_ENTRY(tup0_) { sx_reach("wrong-size"); sx_reach("ok"); tup<0,std::tuple<>>([](auto&, u8*) { return true; }); }
SX_ENTRY(tup_w) { std::tuple<u8,int,bool> t(sx_any<u8>("a"),sx_any<int>("b"),sx_range(0,1,"c")), u; std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)) && (u8)o[0]==0x83,"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t==u,"reads back"); sx_reach("ok"); sx_reach("wrong-size"); sx_reach("wrong-kind"); sx_reach("rejected"); }
SX_ENTRY(cplx_w) { unsigned x=sx_any<unsigned>("re"), y=sx_any<unsigned>("im"); float re, im; memcpy(&re,&x,4); memcpy(&im,&y,4); sx_assume((x&0x7FFFFFFF)<=0x7F800000 && (y&0x7FFFFFFF)<=0x7F800000); std::complex<float> t(re,im), u; std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)) && (u8)o[0]==0x82,"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); float a=u.real(), c=u.imag(); unsigned p,q; memcpy(&p,&a,4); memcpy(&q,&c,4); sx_assert(bool(r) && r.end==o.end() && p==x && q==y,"reads back"); }
SX_ENTRY(cplx_head) { auto b=Buf<>::any(1,3); std::complex<float> t; auto r=cxon::from_bytes(t,b.begin(),b.end()); u8 m=b[0]>>5; if (m==6 && b.n>1) m=b[1]>>5; else if (m==6) m=0; if (m!=4) sx_assert(!r,"input that is not one is rejected"); }
// variants
SX_ENTRY(var) { amb=false; using V=std::variant<u8,bool,std::string>; auto b=Buf<>::any(0,(int)sx_bound(5,6)); V t; int o=0; bool ok=true; u8 ix=0, v=0; std::string s; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } if (h.ok && h.indef && h.major==4) return; if (!h.ok || h.indef || h.major!=4 || h.arg!=2) ok=false; else { o+=h.len; int l=ref_u8(b.p+o,b.n-o,ix); if (l<0) ok=false; else { o+=l; if (ix>2) { sx_reach("bad-index"); ok=false; } else if (ix==0) { l=ref_u8(b.p+o,b.n-o,v); if (l<0) ok=false; o+=l; } else if (ix==1) { if (o>=b.n) ok=false; else if (b[o]==0xF4 || b[o]==0xF5) v=b[o++]&1; else { if ((b[o]>>5)==6) return; ok=false; } } else { if (o>=b.n) ok=false; else { sx_assume((b[o]>>5)==3 || (b[o]>>5)<2 || (b[o]>>5)==7); Head c=ref_head(b.p+o,b.n-o); if (!c.ok || c.indef || c.major!=3 || c.arg>(u64)(b.n-o-c.len)) { if (c.ok && c.indef && c.major==3) return; ok=false; } else { o+=c.len; for (u64 i=0;i<c.arg;++i) s+=(char)b[o++]; } } } } }
    auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,ok)) { sx_assert(r.end==b.p+o,"end is directly behind the item"); sx_assert(t.index()==ix,"the announced alternative"); if (ix==0) sx_assert(*std::get_if<0>(&t)==v,"its value"); if (ix==1) sx_assert(*std::get_if<1>(&t)==bool(v),"its value"); if (ix==2) sx_assert(*std::get_if<2>(&t)==s,"its value"); } }
SX_ENTRY(var_w) { using V=std::variant<int,std::string,u8,std::monostate>; V t,u; int k=(int)sx_range(0,3,"alt"); if (k==0) t=V(std::in_place_index<0>,sx_any<int>("i")); if (k==1) t=V(std::in_place_index<1>,std::string(1,sx_any<char>("c"))); if (k==2) t=V(std::in_place_index<2>,sx_any<u8>("u")); if (k==3) t=V(std::in_place_index<3>); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t.index()==u.index(),"reads back to the same alternative"); if (k==0) sx_assert(*std::get_if<0>(&t)==*std::get_if<0>(&u),"value"); if (k==1) sx_assert(*std::get_if<1>(&t)==*std::get_if<1>(&u),"value"); if (k==2) sx_assert(*std::get_if<2>(&t)==*std::get_if<2>(&u),"value"); }
SX_ENTRY(opt_w) { std::optional<int> t, u=sx_any<int>("old"); if (sx_range(0,1,"has")) t=sx_any<int>("i"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t==u,"reads back"); }
// bit sets: into a target with any previous content
template <unsigned N> static void bits() { auto b=Buf<>::any(0,2+(N+7)/8+(int)sx_bound(1,2)); std::bitset<N> t(sx_any<unsigned>("old")); constexpr unsigned M=(N+7)/8; int o=0; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } if (h.ok && h.indef && h.major==2) return; bool ok=h.ok && !h.indef && h.major==2 && h.arg==M+1 && b.n-o-h.len>=(int)M+1 && b[o+h.len]==M*8-N; amb=false;
    auto r=cxon::from_bytes(t,b.begin(),b.end()); if (verdict(r,ok)) { o+=h.len+1; unsigned long v=0; for (unsigned i=0;i<M;++i) v=(v<<8)|b[o+i]; v&=(1ul<<N)-1; sx_assert(r.end==b.p+o+M,"end is directly behind the item"); sx_assert(t.to_ulong()==v,"exactly the encoded bits"); } }
SX_ENTRY(bits5) { bits<5>(); } SX_ENTRY(bits9) { bits<9>(); } SX_ENTRY(bits15) { bits<15>(); } SX_ENTRY(bits16) { bits<16>(); }
template <unsigned N> static void bitsw() { std::bitset<N> t(sx_any<u64>("v")), u(sx_any<u64>("old")); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); sx_assert((u8)o[0]==0x40+1+(N+7)/8 && (u8)o[1]==(N+7)/8*8-N,"head and padding"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t==u,"reads back"); sx_reach("ok"); sx_reach("rejected"); }
SX_ENTRY(bits_w1) { bitsw<1>(); } SX_ENTRY(bits_w7) { bitsw<7>(); } SX_ENTRY(bits_w12) { bitsw<12>(); } SX_ENTRY(bits_w24) { bitsw<24>(); } SX_ENTRY(bits_w33) { bitsw<33>(); }
// every size up to 64
template <size_t... I> static void bitsn(std::index_sequence<I...>) { static void (*const f[])()={&bitsw<(unsigned)I+1>...}; f[sx_range(0,sizeof...(I)-1,"size")](); }
SX_ENTRY(bits_w_n) { bitsn(std::make_index_sequence<64>()); }
// classes
struct Cl { u8 a=200, ab=201, b=202; };
CXON_CBOR_CLS(Cl, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(ab), CXON_CBOR_CLS_FIELD_NAME("b",b))
// entries with keys of up to 2 bytes (and the terminator the library writes) in any form
SX_ENTRY(cls_keys) { int n=(int)sx_range(0,(int)sx_bound(2,3),"n"); u8 in[64]; int k=0; in[k++]=(u8)(0xA0+n); bool unk=false, rep=false; u8 val[3]={200,201,202}; bool got[3]={};
    for (int i=0;i<n;++i) { int l=(int)sx_range(1,2,"len"), f=(int)sx_range(0,3,"form"), z=(int)sx_range(0,1,"nul"); u8 c[3]={}; for (int j=0;j<l;++j) { c[j]=sx_any<u8>("c"); sx_assume(c[j]!=0); if (f==3) sx_assume(c[j]<128 && c[j]>=24); } int t=l+z;
        if (f==0) { in[k++]=(u8)(0x60+t); for (int j=0;j<t;++j) in[k++]=c[j]; } if (f==1) { in[k++]=0x58; in[k++]=(u8)t; for (int j=0;j<t;++j) in[k++]=c[j]; } if (f==2) { in[k++]=0x7F; for (int j=0;j<t;++j) { in[k++]=0x61; in[k++]=c[j]; } in[k++]=0xFF; } if (f==3) { in[k++]=(u8)(0x80+t); for (int j=0;j<t;++j) { if (c[j]) in[k++]=0x18; in[k++]=c[j]; } }
        u8 v=sx_any<u8>("v"); sx_assume(v<24); in[k++]=v; if (unk||rep) continue; int w= l==1 && c[0]=='a' ? 0 : l==2 && c[0]=='a' && c[1]=='b' ? 1 : l==1 && c[0]=='b' ? 2 : -1; if (w<0) unk=true; else if (got[w]) rep=true; else { got[w]=true; val[w]=v; } }
    u8* p=(u8*)malloc(k); for (int i=0;i<k;++i) p[i]=in[i]; Cl t; auto r=cxon::from_bytes(t,p,p+k); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (unk) { sx_reach("unknown"); sx_assert(!r,"an unknown key is rejected"); } else if (rep) { sx_reach("repeated"); sx_assert(!r,"a repeated key is rejected"); } else { sx_reach("ok"); sx_assert(bool(r) && r.end==p+k,"known keys are read"); sx_assert(t.a==val[0] && t.ab==val[1] && t.b==val[2],"every field has the value of its key, the others are untouched"); } free(p); }
SX_ENTRY(cls_any) { auto b=Buf<>::any(0,(int)sx_bound(4,5)); Cl t; auto r=cxon::from_bytes(t,b.begin(),b.end()); int o=0; Head h=ref_head(b.p,b.n); if (h.ok && h.major==6 && !h.indef) { o=h.len; h=ref_head(b.p+o,b.n-o); } sx_assert(bool(r)==!r.ec,"result agrees with its error code"); if (!h.ok || h.major!=5 || (!h.indef && h.arg>3)) { sx_reach("rejected"); sx_assert(!r,"input that is not one is rejected"); } }
SX_ENTRY(cls_w) { Cl t, u; t.a=sx_any<u8>("a"); t.ab=sx_any<u8>("ab"); t.b=sx_any<u8>("b"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); sx_assert((u8)o[0]==0xA3,"a map of the fields"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t.a==u.a && t.ab==u.ab && t.b==u.b,"reads back"); }
struct Df { u8 a=1, b=2; };
CXON_CBOR_CLS(Df, CXON_CBOR_CLS_FIELD_ASIS_DFLT(a, self.a==1), CXON_CBOR_CLS_FIELD_ASIS(b))
SX_ENTRY(cls_dflt) { Df t, u; t.a=sx_any<u8>("a"); t.b=sx_any<u8>("b"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); sx_assert((u8)o[0]==(t.a==1 ? 0xA1 : 0xA2),"the count of the fields written"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end() && t.a==u.a && t.b==u.b,"reads back"); }
// enumerations
enum class En : unsigned short { a=1, b=400, c=65535 };
CXON_CBOR_ENM(En, CXON_CBOR_ENM_VALUE_NAME(7,a), CXON_CBOR_ENM_VALUE_NAME(300,b), CXON_CBOR_ENM_VALUE_NAME(65535,c))
SX_ENTRY(enm) { u64 a=sx_any<u64>("alias"); u8 e[12]; int k=ref_put_head(e,0,a); u8* p=(u8*)malloc(k); for (int i=0;i<k;++i) p[i]=e[i]; En t=En::c; auto r=cxon::from_bytes(t,p,p+k); bool ok= a==7 || a==300 || a==65535; sx_assert(bool(r)==ok,"exactly the listed values are read"); if (ok) sx_assert(t==(a==7?En::a:a==300?En::b:En::c),"each to its own enumerator"); free(p); }
SX_ENTRY(enm_w) { En t=(En)sx_any<unsigned short>("e"); u8 o[8]; auto r=cxon::to_bytes<cxon::CBOR<>>(std::begin(o),std::end(o),t); bool ok= t==En::a || t==En::b || t==En::c; sx_assert(bool(r)==ok,"exactly the listed enumerators are written"); if (ok) { En u{}; sx_assert(bool(cxon::from_bytes<cxon::CBOR<>>(u,o,r.end)) && u==t,"reads back"); } }
#define K64 "0123456789012345678901234567890123456789012345678901234567890123"
struct LX { unsigned char a, b; }; CXON_CBOR_CLS(LX, CXON_CBOR_CLS_FIELD_NAME(K64,a), CXON_CBOR_CLS_FIELD_NAME("012345678901234567890123456789012345678901234567890123456789ab",b))
// keys at the limit of the identifier buffer
SX_ENTRY(cls_long) { char s[72]; int k=(int)sx_range(61,66,"k"); s[0]=(char)0xA1; s[1]=0x78; s[2]=(char)k; for (int i=0;i<k;++i) s[3+i]= i<60 ? '0'+i%10 : 'a'+(i-60); if (k>61) { s[3+61]=sx_any<char>("c"); } s[3+k]=7; LX t; t.a=1; t.b=2; auto r=cxon::from_bytes<cxon::CBOR<>>(t,(const char*)s,(const char*)s+4+k); bool b= k==62 && s[3+61]=='b'; sx_assert(bool(r)==b,"accepted exactly with the key of a field"); sx_assert(t.a==1 && t.b==(b ? 7 : 2),"only the field of the key is set"); }
// sizes around the limits of 8 and 16 bit counters; a class of more than 23 fields
SX_ENTRY(sz_map) { int n=size8(), ind=(int)sx_range(0,1,"indef"); u8* p=(u8*)malloc(5*n+8); int o=0; if (ind) p[o++]=0xBF; else { p[o++]=0xB9; p[o++]=u8(n>>8); p[o++]=u8(n); } for (int i=0;i<n;++i) { p[o++]=0x19; p[o++]=u8((i*7)>>8); p[o++]=u8(i*7); p[o++]=u8(i%24); } p[o-1]=sx_any<u8>("last"); sx_assume(p[o-1]<24); u8 last=p[o-1]; if (ind) p[o++]=0xFF; std::map<unsigned short,u8> t, u; auto r=cxon::from_bytes(t,p,p+o); sx_assert(bool(r) && r.end==p+o && (int)t.size()==n,"every pair is read"); bool eq=true; int i=0; for (auto& e: t) { eq&= e.first==i*7 && e.second==(i==n-1 ? last : i%24); ++i; } sx_assert(eq,"every key has its own value"); sx_assert(!cxon::from_bytes(u,p,p+o-1),"a truncated map is rejected"); free(p);
    std::string s; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(s,t)),"writing succeeds"); u8 e[12]; int k=ref_put_head(e,5,n); eq=true; for (int j=0;j<k;++j) eq&= (u8)s[j]==e[j]; sx_assert(eq,"a definite map of the right size"); u.clear(); auto x=cxon::from_bytes<cxon::CBOR<>>(u,s); sx_assert(bool(x) && x.end==s.end() && u==t,"reads back to the same map"); }
struct C26 { u8 a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z; };
CXON_CBOR_CLS(C26, CXON_CBOR_CLS_FIELD_ASIS(a),CXON_CBOR_CLS_FIELD_ASIS(b),CXON_CBOR_CLS_FIELD_ASIS(c),CXON_CBOR_CLS_FIELD_ASIS(d),CXON_CBOR_CLS_FIELD_ASIS(e),CXON_CBOR_CLS_FIELD_ASIS(f),CXON_CBOR_CLS_FIELD_ASIS(g),CXON_CBOR_CLS_FIELD_ASIS(h),CXON_CBOR_CLS_FIELD_ASIS(i),CXON_CBOR_CLS_FIELD_ASIS(j),CXON_CBOR_CLS_FIELD_ASIS(k),CXON_CBOR_CLS_FIELD_ASIS(l),CXON_CBOR_CLS_FIELD_ASIS(m),CXON_CBOR_CLS_FIELD_ASIS(n),CXON_CBOR_CLS_FIELD_ASIS(o),CXON_CBOR_CLS_FIELD_ASIS(p),CXON_CBOR_CLS_FIELD_ASIS(q),CXON_CBOR_CLS_FIELD_ASIS(r),CXON_CBOR_CLS_FIELD_ASIS(s),CXON_CBOR_CLS_FIELD_ASIS(t),CXON_CBOR_CLS_FIELD_ASIS(u),CXON_CBOR_CLS_FIELD_ASIS(v),CXON_CBOR_CLS_FIELD_ASIS(w),CXON_CBOR_CLS_FIELD_ASIS(x),CXON_CBOR_CLS_FIELD_ASIS(y),CXON_CBOR_CLS_FIELD_ASIS(z))
SX_ENTRY(sz_cls) { Buf<> v(26); C26 t, u{}; memcpy(&t,v.p,26); for (int i=0;i<26;++i) sx_assume(v[i]<24); std::string s; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(s,t)) && s.size()==2+26*4 && (u8)s[0]==0xB8 && (u8)s[1]==26,"a map of the fields"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,s); sx_assert(bool(r) && r.end==s.end() && !memcmp(&t,&u,26),"reads back"); }
// any two fields in any order
SX_ENTRY(sz_key) { u8* p=(u8*)malloc(7); p[0]=0xA2; p[1]=0x61; p[2]=sx_any<u8>("k"); p[3]=sx_any<u8>("v"); p[4]=0x61; p[5]=sx_any<u8>("k"); p[6]=sx_any<u8>("v"); sx_assume(p[3]<24 && p[6]<24 && p[2] && p[5]); C26 t; memset(&t,99,26); auto r=cxon::from_bytes(t,p,p+7); bool ok=p[2]>='a' && p[2]<='z' && p[5]>='a' && p[5]<='z' && p[2]!=p[5]; sx_assert(bool(r)==ok,"accepted exactly if the keys are known and different"); if (ok) { bool eq=true; for (int i=0;i<26;++i) eq&= ((u8*)&t)[i]==(i==p[2]-'a' ? p[3] : i==p[5]-'a' ? p[6] : 99); sx_assert(eq,"each field has the value of its key, the others are untouched"); } free(p); }
template <unsigned N> static void szbits() { std::bitset<N> t, u; u.set(); for (unsigned i=0;i<N;i+=37) t[i]=1; t[N-1]=sx_range(0,1,"bit"); t[0]=sx_range(0,1,"bit"); t[N-8]=sx_range(0,1,"bit"); t[N/2]=1; std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,t)),"writing succeeds"); auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); bool eq=true; for (unsigned i=0;i<N;++i) eq&= t[i]==u[i]; sx_assert(eq,"exactly the bits"); constexpr unsigned M=(N+7)/8; int h=(int)o.size()-(int)M; eq=true; for (unsigned i=0;i<N;++i) eq&= bool(((u8)o[h+M-1-i/8]>>(i%8))&1)==bool(t[i]); sx_assert(eq && (u8)o[h-1]==M*8-N,"the bits in order behind the padding"); }
SX_ENTRY(sz_bits300) { szbits<300>(); } SX_ENTRY(sz_bits2048) { szbits<2041>(); }
// fields that are only skipped are not written, defaulted ones neither, and the head counts what is written
struct Cs { u8 a, b, c; Cs() : a(0), b(0), c(0) {} }; CXON_CBOR_CLS(Cs, CXON_CBOR_CLS_FIELD_ASIS_DFLT(a, self.a==7), CXON_CBOR_CLS_FIELD_SKIP("s"), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_ASIS_DFLT(c, self.c==9), CXON_CBOR_CLS_FIELD_SKIP("t"))
SX_ENTRY(cls_skip_w) { Cs v; v.a=sx_any<u8>("a"); v.b=sx_any<u8>("b"); v.c=sx_any<u8>("c"); std::string o; sx_assert(bool(cxon::to_bytes<cxon::CBOR<>>(o,v)),"writing succeeds"); int n=(v.a!=7)+1+(v.c!=9); sx_assert(o.size()>0 && (u8)o[0]==0xA0+n,"the head counts the fields that are written"); Cs u; u.a=7; u.c=9; auto r=cxon::from_bytes<cxon::CBOR<>>(u,o); sx_assert(bool(r) && r.end==o.end(),"reads back"); sx_assert(u.a==v.a && u.b==v.b && u.c==v.c,"every field has its value"); }
