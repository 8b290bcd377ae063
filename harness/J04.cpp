//@std 20
//@bounds text of 0..2 (thorough 3) Unicode scalar values, each any scalar value (quick: an ASCII second character is a letter or a quote), written from std::string, u16string, u32string, wstring, char arrays and zero-terminated pointers, and read back; texts of 23..300 characters with an arbitrary ASCII character at the end; single characters of all character types; block writer: ASCII text of 14..34 characters with one arbitrary ASCII character at any position and a quote, control character or letter at the end; strict JavaScript option: the same texts; text that is not valid Unicode: 0..2 arbitrary UTF-16 units (memory safety only)
//@reach s_* arr_* ptr_*: plain escaped
//@reach js_*: plain escaped sep
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
struct js : cxon::json::format_traits { static constexpr bool produce_strict_javascript = true; };
static void scalar(Txt& t, bool light=false) { int k=(int)sx_range(1,4,"size"); char32_t c=sx_any<uint32_t>("c"); if (k==1) { c&=0x7F; if (light) sx_assume((c=='"')|((c>='a')&(c<='z'))); } else if (k==2) { c&=0x7FF; sx_assume(c>=0x80); } else if (k==3) { c&=0xFFFF; sx_assume(c>=0x800 && (c<0xD800||c>0xDFFF)); } else { c&=0x1FFFFF; sx_assume(c>=0x10000 && c<=0x10FFFF); } t.add(c); }
static int text(Txt& t, int lo=0) { int n=(int)sx_range(0,(int)sx_bound(2,3),"n"); for (int i=0;i<n;++i) scalar(t,i>0 && !sx_bound(0,1)); return n; }
template <typename C> static int units(const Txt& t, C* o) { int n=0;
    for (int i=0;i<t.n;++i) { char32_t c=t.c[i];
        if (sizeof(C)==1) { char b[4]; int k=ref_put_utf8(b,c); for (int j=0;j<k;++j) o[n++]=C(b[j]); }
        else if (sizeof(C)==2 && c>0xFFFF) { c-=0x10000; o[n++]=C(0xD800+(c>>10)); o[n++]=C(0xDC00+(c&0x3FF)); }
        else o[n++]=C(c); }
    return n; }
// the output is one RFC 8259 string (valid UTF-8, nothing raw that must be escaped) denoting exactly t
static void judge(const std::string& o, const Txt& t, bool js=false) {
    Txt d; int n=(int)o.size(); sx_assert(n>=2,"the output is quoted"); int e=ref_string(o.data(),n,0,&d); sx_assert(e==n,"the output is exactly one valid JSON string"); sx_assert(d.n==t.n,"the string denotes the text written (length)"); bool eq=true; for (int i=0;i<t.n && i<d.n;++i) eq&= d.c[i]==t.c[i]; sx_assert(eq,"the string denotes the text written");
    bool esc=false; for (int i=0;i<n;++i) esc|= o[i]=='\\'; if (esc) sx_reach("escaped"); else sx_reach("plain");
    // only what has to be escaped is escaped
    int m=2; for (int i=0;i<t.n;++i) { char b[4]; char32_t c=t.c[i]; bool must= c<0x20 || c=='"' || c=='\\'; bool sep= js && (c==0x2028||c==0x2029); if (sep) sx_reach("sep"); m+= sep ? 6 : !must ? ref_put_utf8(b,c) : (c=='"'||c=='\\'||c==8||c==9||c==10||c==12||c==13) ? 2 : 6; }
    sx_assert(n==m,"exactly the characters that need escaping are escaped"); }
template <typename S> static void str() { Txt t; text(t); typename S::value_type u[16]; int n=units(t,u); S s(u,u+n); std::string o; auto w=cxon::to_bytes(o,s); sx_assert(bool(w) && !w.ec,"writing succeeds"); judge(o,t);
    S b; auto r=cxon::from_bytes(b,o); sx_assert(bool(r) && r.end==o.end(),"the output is read back in full"); sx_assert(b==s,"the text read back is the text written"); sx_out("n",(i64)o.size()); }
SX_ENTRY(s_c) { str<std::string>(); } SX_ENTRY(s_c16) { str<std::u16string>(); } SX_ENTRY(s_c32) { str<std::u32string>(); } SX_ENTRY(s_w) { str<std::wstring>(); } SX_ENTRY(s_c8) { str<std::u8string>(); }
template <typename S> static void jstr() { Txt t; text(t); typename S::value_type u[16]; int n=units(t,u); S s(u,u+n); std::string o; auto w=cxon::to_bytes<cxon::JSON<js>>(o,s); sx_assert(bool(w),"writing succeeds"); judge(o,t,true); bool raw=false; for (size_t i=0;i+2<o.size();++i) raw|= (u8)o[i]==0xE2 && (u8)o[i+1]==0x80 && ((u8)o[i+2]==0xA8||(u8)o[i+2]==0xA9); sx_assert(!raw,"no raw line or paragraph separator");
    S b; auto r=cxon::from_bytes<cxon::JSON<js>>(b,o); sx_assert(bool(r) && b==s,"reads back"); }
SX_ENTRY(js_c) { jstr<std::string>(); } SX_ENTRY(js_c16) { jstr<std::u16string>(); } SX_ENTRY(js_c32) { jstr<std::u32string>(); }
template <typename C> static void ptr() { Txt t; text(t); for (int i=0;i<t.n;++i) sx_assume(t.c[i]!=0); C* u=(C*)malloc(16*sizeof(C)); int n=units(t,u); u[n]=0; std::string o; const C* p=u; sx_assert(bool(cxon::to_bytes(o,p)),"writing succeeds"); judge(o,t); free(u); }
SX_ENTRY(ptr_c) { ptr<char>(); } SX_ENTRY(ptr_c16) { ptr<char16_t>(); } SX_ENTRY(ptr_w) { ptr<wchar_t>(); }
// arrays: one trailing zero (if any) is the terminator
template <typename C, int N> static void arrn(const C* u, Txt x) { C a[N]; for (int i=0;i<N;++i) a[i]=u[i]; if (x.n && x.c[x.n-1]==0) x.n--; std::string o; sx_assert(bool(cxon::to_bytes(o,a)),"writing succeeds"); judge(o,x); }
template <typename C> static void arr() { Txt t; scalar(t); C u[16]; bool two=sx_range(0,1,"two"); if (two) scalar(t,!sx_bound(0,1)); if (sx_range(0,1,"zero")) t.add(0); int n=units(t,u); if (n==1) arrn<C,1>(u,t); else if (n==2) arrn<C,2>(u,t); else if (n==3) arrn<C,3>(u,t); else if (n==4) arrn<C,4>(u,t); else if (n==5) arrn<C,5>(u,t); else arrn<C,6>(u,(sx_assume(n==6),t)); }
SX_ENTRY(arr_c) { arr<char>(); } SX_ENTRY(arr_c16) { arr<char16_t>(); } SX_ENTRY(arr_c32) { arr<char32_t>(); }
// single characters
template <typename C> static void chr() { Txt t; scalar(t); if (sizeof(C)==1) sx_assume(t.c[0]<0x80); if (sizeof(C)==2) sx_assume(t.c[0]<0x10000); C c=C(t.c[0]); std::string o; sx_assert(bool(cxon::to_bytes(o,c)),"writing succeeds"); judge(o,t); C b=C(~c); auto r=cxon::from_bytes(b,o); sx_assert(bool(r) && r.end==o.end() && b==c,"the character reads back"); }
SX_ENTRY(s_chr_c) { chr<char>(); } SX_ENTRY(s_chr_c16) { chr<char16_t>(); } SX_ENTRY(s_chr_c32) { chr<char32_t>(); } SX_ENTRY(s_chr_w) { chr<wchar_t>(); } SX_ENTRY(s_chr_c8) { chr<char8_t>(); }
// the 16-byte block writer
SX_ENTRY(s_block) { int n=(int)sx_range(0,(int)sx_bound(2,7),"n"); static const int N[]={16,17,33,14,31,32,34,47}; n=N[n]; int q=(int)sx_range(0,(int)sx_bound(3,n-1),"pos"); if (!sx_bound(0,1)) q= q==0?0:q==1?15:q==2?n-2:n-1; u8 c=sx_any<u8>("c"); sx_assume(c<0x80); int last=(int)sx_range(0,2,"last"); char* s=(char*)malloc(n); for (int i=0;i<n;++i) s[i]='a'; s[n-1]= last==0?'a':last==1?'"':'\1'; s[q]=(char)c; Txt t; for (int i=0;i<n;++i) t.add((char32_t)(u8)s[i]);
    std::string o; sx_assert(bool(cxon::to_bytes(o,std::string(s,n))),"writing succeeds"); judge(o,t); free(s); }
SX_ENTRY(s_block8) { int n=33; int q=(int)sx_range(0,(int)sx_bound(3,n-2),"pos"); if (!sx_bound(0,1)) q= q==0?0:q==1?14:q==2?15:31; char* s=(char*)malloc(n); for (int i=0;i<n;++i) s[i]='a'; Txt t; char32_t c=sx_any<uint32_t>("c"); sx_assume(c>=0x80 && c<0x800); for (int i=0;i<q;++i) t.add('a'); ref_put_utf8(s+q,c); t.add(c); for (int i=q+2;i<n;++i) { s[i]= i==n-1?'"':'a'; t.add(s[i]); } sx_reach("plain");
    std::string o; sx_assert(bool(cxon::to_bytes(o,std::string(s,n))),"writing succeeds"); judge(o,t); free(s); }
// text that is not valid Unicode
SX_ENTRY(raw_c16) { auto b=Buf<char16_t>::any(0,(int)sx_bound(2,3)); std::string o; cxon::to_bytes(o,std::u16string(b.begin(),b.end())); sx_assert(o.size()>=2 && o.front()=='"' && o.back()=='"',"the output is quoted"); char16_t* a=(char16_t*)malloc(2*(b.n+1)); for (int i=0;i<b.n;++i) a[i]=b.p[i]?b.p[i]:1; a[b.n]=0; const char16_t* p=a; std::string o2; cxon::to_bytes(o2,p); free(a); }
SX_ENTRY(raw_c) { auto b=Buf<char>::any(0,(int)sx_bound(2,3)); std::string o; cxon::to_bytes(o,std::string(b.begin(),b.end())); sx_assert(o.size()>=2 && o.front()=='"' && o.back()=='"',"the output is quoted"); std::string j; cxon::to_bytes<cxon::JSON<js>>(j,std::string(b.begin(),b.end())); sx_assert(j.size()>=2 && j.front()=='"' && j.back()=='"',"the output is quoted"); }
// long texts: one arbitrary ASCII character near the end (behind sizes around the limits of 8 bit counters)
template <typename S> static void szw() { using C=typename S::value_type; int n=size8()-(int)sx_range(0,1,"less"); S s((size_t)n,C('a')); u8 c=sx_any<u8>("c"); sx_assume(c<0x80); int at=(int)sx_range(0,1,"at"); s[n-1-at]=C(c); std::string o; sx_assert(bool(cxon::to_bytes(o,s)),"writing succeeds"); std::string x(1,char(c)), y; S z(1,C(c)); sx_assert(bool(cxon::to_bytes(y,z)),"writing succeeds"); int k=(int)y.size()-2; sx_reach(k>1 ? "escaped" : "plain");
    sx_assert((int)o.size()==n-1+k+2 && o.front()=='"' && o.back()=='"',"the string has the right length"); bool eq=true; for (int i=0;i<n-1-at;++i) eq&= o[1+i]=='a'; for (int i=0;i<k;++i) eq&= o[n-at+i]==y[1+i]; if (at) eq&= o[n+k-1]=='a'; sx_assert(eq,"every character in its place"); S b; auto r=cxon::from_bytes(b,o); sx_assert(bool(r) && r.end==o.end() && b==s,"the text read back is the text written"); }
SX_ENTRY(s_sz_c) { szw<std::string>(); } SX_ENTRY(s_sz_c16) { szw<std::u16string>(); } SX_ENTRY(s_sz_c32) { szw<std::u32string>(); }
