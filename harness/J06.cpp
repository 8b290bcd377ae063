//@std 20 11
//@bounds every value of char-sized to 64-bit integral types (all digit counts, digits symbolic, no window), bool, null; direct, string and bounded output
//@assume the decimal conversion of the C++ library is executed, not modelled
//@reach int_*: lead edge
#include "h_num.h"
#include "cxon/json.hxx"
#include <string>
// every value of T exactly once: sign, digit count, and the length q of the prefix shared with the limit
template <typename T> struct Val { char txt[24]; int n; T v; };
template <typename T> static void gen(Val<T>& r) {
    bool neg= std::is_signed<T>::value && sx_range(0,1,"neg"); const char* lim= neg ? ref_min_lit<T>() : ref_max_lit<T>(); int m=(int)strlen(lim);
    int k=(int)sx_range(1,m,"digits"); char d[24]; sx_symbolic(d,(size_t)k,"d");
    if (k<m) { for (int i=0;i<k;++i) d[i]= i==0 && (k>1||neg) ? char(49+((u8)d[i]&15u)%9u) : ref_dig(d[i]); sx_reach("lead"); }
    else { int q=(int)sx_range(0,m,"prefix"); for (int i=0;i<k;++i) d[i]= i<q ? lim[i] : i>q ? ref_dig(d[i]) : i==0 && m>1 ? char(49+((u8)d[i]&15u)%(unsigned)(lim[0]>49?lim[0]-49:1)) : char(48+((u8)d[i]&15u)%(unsigned)(lim[i]>48?lim[i]-48:1));
        if (q<m) sx_assume(q==0 ? lim[0]>'1' : lim[q]>'0'); sx_reach("edge"); }
    r.n=0; if (neg) r.txt[r.n++]='-'; for (int i=0;i<k;++i) r.txt[r.n++]=d[i]; u64 v=ref_dec_val(d,k); r.v=(T)(neg ? 0-v : v); }
template <typename T> static void one() {
    Val<T> x; gen(x); char o[32]; auto w=cxon::to_bytes(o,o+sizeof o,x.v);
    sx_assert(bool(w) && !w.ec,"writing an integer succeeds"); int n=int(w.end-o); sx_assert(n==x.n,"the literal has minimal length"); bool eq=true; for (int i=0;i<n;++i) eq&= o[i]==x.txt[i]; sx_assert(eq,"the literal is the canonical decimal of the value");
    T b=T(1); auto r=cxon::from_bytes(b,(const char*)o,(const char*)o+n); sx_assert(bool(r) && r.end==o+n,"the literal is read back in full"); sx_assert(b==x.v,"the value read back is the value written"); sx_out("v",(i64)b);
}
SX_ENTRY(int_i8) { one<signed char>(); } SX_ENTRY(int_u8) { one<unsigned char>(); } SX_ENTRY(int_i16) { one<short>(); } SX_ENTRY(int_u16) { one<unsigned short>(); } SX_ENTRY(int_i32) { one<int>(); } SX_ENTRY(int_u32) { one<unsigned>(); } SX_ENTRY(int_long) { one<long>(); } SX_ENTRY(int_ulong) { one<unsigned long>(); } SX_ENTRY(int_i64) { one<long long>(); } SX_ENTRY(int_u64) { one<unsigned long long>(); }
template <typename T, int N> static bool same(const std::string& s, const char (&l)[N]) { if ((int)s.size()!=N-1) return false; for (int i=0;i<N-1;++i) if (s[i]!=l[i]) return false; return true; }
SX_ENTRY(bool_null) {
    bool b=sx_any<u8>("b")&1; std::string s; auto w=cxon::to_bytes(s,b); sx_assert(bool(w),"writing a boolean succeeds"); sx_assert(b ? same<bool>(s,"true") : same<bool>(s,"false"),"booleans are written as their literals");
    bool c=!b; auto r=cxon::from_bytes(c,s); sx_assert(bool(r) && r.end==s.end() && c==b,"the boolean reads back");
    std::string n; std::nullptr_t z=nullptr; sx_assert(bool(cxon::to_bytes(n,z)) && same<bool>(n,"null"),"null is written as its literal"); auto q=cxon::from_bytes(z,n); sx_assert(bool(q) && q.end==n.end(),"null reads back"); sx_reach("lead"); sx_reach("edge");
}
// the same value through the other output kinds
SX_ENTRY(int_out) { Val<short> x; gen(x); std::string s; sx_assert(bool(cxon::to_bytes(s,x.v)),"string output succeeds"); sx_assert((int)s.size()==x.n,"minimal length"); bool eq=true; for (int i=0;i<x.n;++i) eq&= s[(size_t)i]==x.txt[i]; sx_assert(eq,"canonical decimal");
    std::string t="#"; auto w=cxon::to_bytes(std::back_inserter(t),x.v); sx_assert(bool(w) && t.size()==s.size()+1,"iterator output"); for (int i=0;i<x.n;++i) eq&= t[(size_t)i+1]==x.txt[i]; sx_assert(eq,"canonical decimal");
    short v=0; auto r=cxon::from_bytes(v,Fwd<>(s.data()),Fwd<>(s.data()+s.size())); sx_assert(bool(r) && v==x.v && r.end.p==s.data()+s.size(),"reads back through forward iterators"); }
