//@std 20 11
//@bounds every kind of target type (44 types, see J02): any text of 0..N bytes (N per type one below that of J02: quick 5 to 7, thorough 5 to 10) and texts with a fixed head and up to 3 (thorough 5) symbolic bytes inside containers, strings and escapes, read through pointers, forward iterators and single-pass iterators, with strict numbers; the default format for types without numbers on any text, and for numbers on number tokens of up to 6 (thorough 8) characters; the CXCF format with strict numbers; classes, maps and nodes included
//@assume numbers of the default format are JSON numbers (the pointer reader takes whatever the conversion functions of the standard library take); conversions of floating-point text are a model; texts of numbers shorter than 32 characters
//@reach s_*: ok bad
//@reach d_*: ok bad
//@reach in_*: ok bad
//@reach n_*: ok
//@reach cx_*: bad
#include "h_types_json.h"
#include "h_num.h"
#include "cxon/cxcf.hxx"
#if __cplusplus>=201703L
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#endif
#if __cplusplus>=201703L
static bool nan(const cxon::json::node& n) { return n.is<double>() && n.get<double>()!=n.get<double>(); }
static bool same(const cxon::json::node& a, const cxon::json::node& b) { return a==b || (nan(a) && nan(b)); } // NaN nodes occur at the top only
#endif
struct cxs : cxon::cxcf::format_traits { struct number : cxon::cxcf::format_traits::number { static constexpr bool strict = true; }; };
using CX=cxon::JSON<cxs>;
template <typename X, typename T> static void cmp(const Buf<char>& b) {
    Tg<T> p, f, i; auto rp=cxon::from_bytes<X>(p.get(),b.begin(),b.end()); auto rf=cxon::from_bytes<X>(f.get(),Fwd<>(b.p),Fwd<>(b.p+b.n)); const char* q=b.p; auto ri=cxon::from_bytes<X>(i.get(),Inp<>(&q,b.p+b.n),Inp<>::end_of(b.p+b.n));
    sx_assert(bool(rp)==bool(rf),"pointers and forward iterators agree on success"); sx_assert(bool(rp)==bool(ri),"pointers and single-pass iterators agree on success"); if (!rp) { sx_reach("bad"); return; } sx_reach("ok");
    sx_assert(rf.end.p==rp.end,"pointers and forward iterators consume the same"); sx_assert(q==rp.end,"pointers and single-pass iterators consume the same"); sx_assert(same(p.v,f.v),"pointers and forward iterators read the same value"); sx_assert(same(p.v,i.v),"pointers and single-pass iterators read the same value"); }
template <typename X, typename T> static void any(int lo, int hi) { cmp<X,T>(Buf<char>::any(0,(int)sx_bound(lo,hi))); }
#define X(N,L,H,...) SX_ENTRY(s_##N) { any<JS,__VA_ARGS__>((L)-1,(H)-1); } SX_ENTRY(cx_##N) { any<CX,__VA_ARGS__>(3,5); }
JSON_TYPES(X)
#if __cplusplus>=201703L
JSON_TYPES_17(X)
#endif
#undef X
// default format, types without numbers
#define X(N,...) SX_ENTRY(d_##N) { any<J,__VA_ARGS__>(5,7); }
X(bool,bool) X(nul,std::nullptr_t) X(chr,char) X(c16,char16_t) X(c32,char32_t) X(enm,En) X(str,std::string) X(u16s,std::u16string) X(cp,Ptr<char>) X(ca,C3) X(vs,std::vector<std::string>) X(vb,std::vector<bool>) X(mcb,std::map<char,bool>) X(bit,std::bitset<2>) X(upb,std::unique_ptr<bool>)
#undef X
// a fixed head and tail around symbolic bytes
template <typename T> static void in(const char* h, const char* t, int lo=3, int hi=5) { int a=(int)strlen(h), z=(int)strlen(t), k=(int)sx_range(0,(int)sx_bound(lo,hi),"n"); Buf<char> b(a+k+z); memcpy(b.p,h,a); memcpy(b.p+a+k,t,z); cmp<JS,T>(b); }
SX_ENTRY(in_cls_k) { in<Cl>("{\"a","\":1}"); } SX_ENTRY(in_cls_v) { in<Cl>("{\"b\":true,\"a\":","}"); } SX_ENTRY(in_cls_n) { in<Cl>("{\"a\":1",",\"b\":true}"); } SX_ENTRY(in_skp) { in<Sk>("{\"s\":","}"); } SX_ENTRY(in_skp_a) { in<Sk>("{\"s\":[","],\"a\":7}"); } SX_ENTRY(in_skp_s) { in<Sk>("{\"s\":\"","\",\"a\":7}"); } SX_ENTRY(in_vcls) { in<std::vector<Cl>>("[{\"a\":1}","]"); }
SX_ENTRY(in_map) { in<std::map<std::string,u8>>("{\"a\":1,\"","\":2}"); } SX_ENTRY(in_imap) { in<std::map<u8,u8>>("{\"1\":1,\"","\":2}"); } SX_ENTRY(in_bmap) { in<std::map<bool,u8>>("{\"true\":1,\"","\":2}"); } SX_ENTRY(in_emap) { in<std::map<En,u8>>("{\"","\":2}"); } SX_ENTRY(in_tup) { in<std::tuple<u8,std::string,short>>("[1,\"","\",3]"); } SX_ENTRY(in_vv) { in<std::vector<std::vector<u8>>>("[[1],","]"); } SX_ENTRY(in_f) { in<double>("-1","]"); } SX_ENTRY(in_fe) { in<float>("2e","]"); } SX_ENTRY(in_fp) { in<double>("0.","e1"); } SX_ENTRY(in_neg) { in<short>("-",","); } SX_ENTRY(in_neg0) { in<std::vector<int>>("[-","]"); } SX_ENTRY(in_u) { in<unsigned>("429496",","); } SX_ENTRY(in_i64) { in<long long>("-922337203685477","",4,4); } SX_ENTRY(in_nan) { in<double>("\"n","\""); } SX_ENTRY(in_inf) { in<float>("\"-i","\""); }
template <typename T> static void esc() { static const char* s[]={"\"\\uD8xx\\uDCxx\"","\"\\u00xx\\n\"","\"a\\uDCxx\"","\"\\uDBx\\uxx\"","\"\\uD8xx\\nxxxx\""}; const char* q=s[sx_range(0,4,"text")]; int l=(int)strlen(q), n=(int)sx_range(3,l,"len"); Buf<char> b(n); for (int k=0;k<n;++k) if (q[k]!='x') b.p[k]=q[k]; cmp<JS,T>(b); }
#define ESC(N,...) SX_ENTRY(in_e_##N) { esc<__VA_ARGS__>(); } SX_ENTRY(in_t_##N) { in<__VA_ARGS__>("\"a\xC3","\"",3,4); } SX_ENTRY(in_w_##N) { in<__VA_ARGS__>("\"\xF0\x90",".\"",3,4); }
ESC(str,std::string) ESC(u16,std::u16string) ESC(u32,std::u32string) ESC(cp,Ptr<char>)
SX_ENTRY(in_e_chr) { esc<char>(); } SX_ENTRY(in_e_c16) { esc<char16_t>(); } SX_ENTRY(in_e_c32) { esc<char32_t>(); } SX_ENTRY(in_ca) { in<C3>("\"a\\","\""); } SX_ENTRY(in_enm) { in<En>("\"a\\","\""); }
#if __cplusplus>=201703L
SX_ENTRY(in_opt) { in<std::vector<std::optional<u8>>>("[null,","]"); } SX_ENTRY(in_var) { in<std::vector<std::variant<u8,std::string,std::monostate>>>("[",",1]"); } SX_ENTRY(in_avar) { in<std::variant<u8,short>>("{\"1\":","}"); } SX_ENTRY(in_avar_k) { in<std::variant<u8,short>>("{\"",":300}"); }
// nodes
using jnd=cxon::json::node;
SX_ENTRY(s_node) { any<JS,jnd>(3,5); } SX_ENTRY(in_node_a) { in<jnd>("[1,","]"); } SX_ENTRY(in_node_o) { in<jnd>("{\"k\":","}"); } SX_ENTRY(in_node_k) { in<jnd>("{\"","\":1}"); } SX_ENTRY(cx_node) { any<CX,jnd>(3,4); }
#endif
// numbers of the default format: a JSON number behind optional whitespace, then anything that cannot continue it
template <typename T> static void num() { int n=(int)sx_range(1,(int)sx_bound(6,8),"n"); Buf<char> b(n+1); for (int i=0;i<n;++i) { static const char al[16]={'-','+','0','1','2','3','4','5','6','7','8','9','.','e','E','0'}; b.p[i]=al[b.p[i]&15]; } sx_assume(ref_number(b.p,n,0)==n); char c=b.p[n]; sx_assume(!(c>='0' && c<='9') && c!='.' && c!='e' && c!='E'); cmp<J,T>(b); }
template <typename T> static void lst() { int n=(int)sx_range(1,(int)sx_bound(5,6),"n"); Buf<char> b(n+2); b.p[0]='['; b.p[n+1]=']'; bool d=false; for (int i=1;i<=n;++i) { static const char al[16]={'-',',','0','1','2','3','4','5','6','7','8','9',' ',',','9',' '}; b.p[i]=al[b.p[i]&15]; } for (int i=1;i<=n;++i) { bool dg=b.p[i]>='0' && b.p[i]<='9'; if (!d && b.p[i]=='0' && b.p[i+1]>='0' && b.p[i+1]<='9') return; d=dg; } cmp<J,T>(b); }
SX_ENTRY(n_i8) { num<signed char>(); } SX_ENTRY(n_u8) { num<u8>(); } SX_ENTRY(n_i16) { num<short>(); } SX_ENTRY(n_u32) { num<unsigned>(); } SX_ENTRY(n_i64) { num<long long>(); } SX_ENTRY(n_f) { num<float>(); } SX_ENTRY(n_d) { num<double>(); } SX_ENTRY(n_vu8) { lst<std::vector<u8>>(); } SX_ENTRY(n_li16) { lst<std::list<short>>(); } SX_ENTRY(n_arr) { lst<std::array<int,2>>(); } SX_ENTRY(n_tup) { lst<std::tuple<u8,short>>(); }
