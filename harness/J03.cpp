//@bounds general entries: every byte string of 0..N bytes (N=5 quick, 7 thorough); escape entries: an opening quote, one \u escape with its 4 digits symbolic and up to 4 arbitrary bytes behind it, or two \u escapes with all 8 digits symbolic, complete or cut at any byte; utf-8 entries: an opening quote followed by up to 5 (7) arbitrary bytes, the first one >= 0x80; read through pointers, forward and single-pass iterators into std::string, u16string, u32string, wstring; strings of 22..300 characters with two arbitrary bytes or one \u escape at the end; char arrays of 255..257 elements; pointers of 7..300 characters around every power of two
//@reach *: valid invalid
//@reach arr_c arr_c16 arr_c32: valid invalid toolong
//@reach arr_c16_esc: invalid toolong
//@reach chr_c_esc chr_c16_esc: invalid
//@std 20
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
template <typename C> static int units(const Txt& t, C* o) { int n=0;
    for (int i=0;i<t.n;++i) { char32_t c=t.c[i];
        if (sizeof(C)==1) { char b[4]; int k=ref_put_utf8(b,c); for (int j=0;j<k;++j) o[n++]=C(b[j]); }
        else if (sizeof(C)==2 && c>0xFFFF) { c-=0x10000; o[n++]=C(0xD800+(c>>10)); o[n++]=C(0xDC00+(c&0x3FF)); }
        else o[n++]=C(c); }
    return n; }
template <typename S> static void judge(const char* p, int n, bool ok, int used, const S& s) {
    using C=typename S::value_type;
    Txt t; int e=ref_string(p,n,ref_ws(p,n),&t);
    if (e>=0) { sx_reach("valid"); C w[64]; int k=units(t,w);
        sx_assert(ok,"a valid string is read"); sx_assert(used==e,"end is directly behind the closing quote");
        sx_assert((int)s.size()==k,"the text has the right length"); bool eq=true; for (int i=0;i<k && i<(int)s.size();++i) eq&=s[i]==w[i]; sx_assert(eq,"the text is the text the string denotes"); }
    else { sx_reach("invalid"); sx_assert(!ok,"an invalid string is rejected"); }
    sx_out("ok",ok); if (ok) { sx_out("len",(i64)s.size()); if (s.size()) sx_out("c0",(i64)s[0]); }
}
template <typename S> static void str_ptr(const Buf<char>& b) { S s; auto r=cxon::from_bytes(s,(const char*)b.begin(),(const char*)b.end()); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end>=b.begin()&&r.end<=b.end(),"end is inside the input"); judge(b.p,b.n,bool(r),int(r.end-b.p),s); }
template <typename S> static void str_fwd(const Buf<char>& b) { S s; auto r=cxon::from_bytes(s,Fwd<>(b.begin()),Fwd<>(b.end())); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(r.end.p>=b.begin()&&r.end.p<=b.end(),"end is inside the input"); judge(b.p,b.n,bool(r),int(r.end.p-b.p),s); }
template <typename S> static void str_inp(const Buf<char>& b) { S s; const char* q=b.p; auto r=cxon::from_bytes(s,Inp<>(&q,b.end()),Inp<>::end_of(b.end())); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(q>=b.begin()&&q<=b.end(),"end is inside the input"); judge(b.p,b.n,bool(r),int(q-b.p),s); }
static Buf<char> gen() { return Buf<char>::any(0,(int)sx_bound(5,7)); }
#define ALL(n,T,G) SX_ENTRY(n##_ptr_##G) { str_ptr<T>(G()); } SX_ENTRY(n##_fwd_##G) { str_fwd<T>(G()); } SX_ENTRY(n##_inp_##G) { str_inp<T>(G()); }
ALL(s,std::string,gen) ALL(u16,std::u16string,gen) ALL(u32,std::u32string,gen) ALL(w,std::wstring,gen)
// "\uXXXX..." : the four digits are symbolic
static Buf<char> esc1() { Buf<char> b(7+(int)sx_range(0,2,"tail")); sx_assume(b[0]=='"' && b[1]=='\\' && b[2]=='u'); return b; }
static Buf<char> esc2() { Buf<char> b(7+(int)sx_range(0,(int)sx_bound(3,4),"tail")); sx_assume(b[0]=='"' && b[1]=='\\' && b[2]=='u' && ref_hex4(b.p,b.n,3)>=0xD700); return b; }
// two \u escapes, complete or cut anywhere
static Buf<char> esc3() { Buf<char> b((int)sx_range(8,15,"len")); sx_assume(b[0]=='"' && b[1]=='\\' && b[2]=='u' && b[7]=='\\' && (b.n<9 || b[8]=='u') && (b.n<15 || b[14]=='"')); return b; }
static Buf<char> utf() { Buf<char> b(1+(int)sx_range(1,(int)sx_bound(5,7),"len")); sx_assume(b[0]=='"'); sx_assume((u8)b[1]>=0x80); return b; }
ALL(s,std::string,esc1) ALL(u16,std::u16string,esc1) ALL(u32,std::u32string,esc1)
ALL(s,std::string,esc2) ALL(u16,std::u16string,esc2)
ALL(s,std::string,esc3) ALL(u16,std::u16string,esc3) ALL(u32,std::u32string,esc3) ALL(w,std::wstring,esc3)
ALL(s,std::string,utf) ALL(u16,std::u16string,utf) ALL(u32,std::u32string,utf)

// single characters: one JSON string holding exactly one character that fits the target
template <typename C> static void one_char(const Buf<char>& b) {
    C c=C(1); auto r=cxon::from_bytes(c,(const char*)b.begin(),(const char*)b.end()); sx_assert(bool(r)==!r.ec,"result agrees with its error code");
    Txt t; int e=ref_string(b.p,b.n,ref_ws(b.p,b.n),&t); bool fits= e>=0 && t.n==1 && (sizeof(C)==4 || t.c[0]<=(sizeof(C)==1?0xFFu:0xFFFFu));
    if (fits) { sx_reach("valid"); sx_assert(bool(r),"one character is read"); sx_assert((char32_t)(typename std::make_unsigned<C>::type)c==t.c[0],"the character is the one denoted"); sx_assert(r.end==b.p+e,"end is behind the quote"); }
    else { sx_reach("invalid"); sx_assert(!r,"an invalid character is rejected"); }
    sx_out("ok",bool(r)); if (r) sx_out("c",(i64)c);
}
static Buf<char> chr() { return Buf<char>::any(0,(int)sx_bound(5,7)); }
#define CHR(n,T) SX_ENTRY(chr_##n) { one_char<T>(chr()); } SX_ENTRY(chr_##n##_esc) { one_char<T>(esc3()); } SX_ENTRY(chr_##n##_esc1) { one_char<T>(esc1()); }
CHR(c,char) CHR(c16,char16_t) CHR(c32,char32_t) CHR(w,wchar_t)
// character arrays: the text, a terminating zero if there is room, overflow otherwise
template <typename C, int N> static void arr(const Buf<char>& b) {
    C a[N]; for (auto& x: a) x=C('~'); auto r=cxon::from_bytes(a,(const char*)b.begin(),(const char*)b.end());
    Txt t; int e=ref_string(b.p,b.n,ref_ws(b.p,b.n),&t); C w[64]; int k= e>=0 ? units(t,w) : 0;
    if (e>=0 && k<=N) { sx_reach("valid"); sx_assert(bool(r),"a string that fits is read"); sx_assert(r.end==b.p+e,"end is behind the quote"); bool eq=true; for (int i=0;i<k;++i) eq&=a[i]==w[i]; sx_assert(eq,"the text is the text the string denotes"); if (k<N) sx_assert(a[k]==C(0),"terminated"); }
    else { sx_reach("invalid"); sx_assert(!r,"an invalid or too long string is rejected"); if (e>=0) { sx_reach("toolong"); sx_assert(r.ec==cxon::json::read_error::overflow,"overflow is reported"); } }
}
static Buf<char> arrg() { Buf<char> b=Buf<char>::any(0,(int)sx_bound(6,8)); if (b.n) sx_assume(b[0]=='"'); return b; }
SX_ENTRY(arr_c) { arr<char,2>(arrg()); } SX_ENTRY(arr_c16) { arr<char16_t,2>(arrg()); } SX_ENTRY(arr_c32) { arr<char32_t,2>(arrg()); } SX_ENTRY(arr_c16_esc) { arr<char16_t,1>(esc3()); }
// sizes around the limits of 8 bit counters: long plain text, then up to two arbitrary bytes or one \u escape
template <typename S, int K> static void szs() { using C=typename S::value_type; int n=size8()-(int)sx_range(0,2,"less"); bool u=sx_range(0,1,"form")!=0; int tl= u ? 6 : 2; Buf<char> t(tl+2); sx_assume(t[0]=='"' && t[tl+1]=='"'); if (u) sx_assume(t[1]=='\\' && t[2]=='u'); Buf<char> b(n+tl+2,Buf<char>::Raw()); b.p[0]='"'; for (int i=0;i<n;++i) b.p[1+i]='a'; for (int i=0;i<=tl;++i) b.p[1+n+i]=t[1+i];
    Txt x; int e=ref_string(t.p,t.n,0,&x); S s; bool ok; const char* end; const char* q=b.p; if (K==0) { auto r=cxon::from_bytes(s,(const char*)b.begin(),(const char*)b.end()); ok=bool(r); end=r.end; } else { auto r=cxon::from_bytes(s,Inp<>(&q,b.end()),Inp<>::end_of(b.end())); ok=bool(r); end=q; }
    if (e<0) { sx_reach("invalid"); sx_assert(!ok,"an invalid string is rejected"); return; } sx_reach("valid"); C w[64]; int k=units(x,w); sx_assert(ok && end==b.p+n+e,"a valid string is read to its closing quote"); sx_assert((int)s.size()==n+k,"the text has the right length"); bool eq=true; for (int i=0;i<n;++i) eq&= s[i]==C('a'); for (int i=0;i<k && n+i<(int)s.size();++i) eq&= s[n+i]==w[i]; sx_assert(eq,"the text is the text the string denotes"); }
SX_ENTRY(sz_c) { szs<std::string,0>(); } SX_ENTRY(sz_c_inp) { szs<std::string,1>(); } SX_ENTRY(sz_c16) { szs<std::u16string,0>(); } SX_ENTRY(sz_c32) { szs<std::u32string,1>(); }
// long arrays: exactly the length, one more, one less
template <int N> static void sza() { int n=N-1+(int)sx_range(0,2,"n"); Buf<char> b(n+2,Buf<char>::Raw()); b.p[0]=b.p[n+1]='"'; for (int i=0;i<n;++i) b.p[1+i]=char('a'+i%7); char c=sx_any<char>("c"); sx_assume(c>=0x20 && c!='"' && c!='\\' && c!=0x7F); b.p[n]=c; char* a=(char*)malloc(N); memset(a,'~',N); auto r=cxon::from_bytes(*reinterpret_cast<char(*)[N]>(a),(const char*)b.begin(),(const char*)b.end()); sx_assert(bool(r)==(n<=N),"read exactly if it fits"); if (r) { sx_reach("valid"); sx_assert(memcmp(a,b.p+1,n-1)==0 && a[n-1]==c && (n==N || a[n]==0),"the text and a terminator if there is room"); } else { sx_reach("invalid"); sx_assert(r.ec==cxon::json::read_error::overflow,"overflow is reported"); } free(a); }
SX_ENTRY(sz_a255) { sza<255>(); } SX_ENTRY(sz_a256) { sza<256>(); } SX_ENTRY(sz_a257) { sza<257>(); }
// pointers: the storage grows with the text; sizes around every power of two
template <typename C, int K> static void szp() { static const int z[]={7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300}; int n=z[sx_range(0,18,"size")]; Buf<char> b(n+2,Buf<char>::Raw()); b.p[0]=b.p[n+1]='"'; for (int i=0;i<n;++i) b.p[1+i]=char('a'+i%7); char c=sx_any<char>("c"); sx_assume(c>=0x20 && c!='"' && c!='\\' && c!=0x7F); b.p[n]=c; C* t=nullptr; bool ok; const char* e=b.p; if (K==0) { auto r=cxon::from_bytes(t,(const char*)b.begin(),(const char*)b.end()); ok=bool(r); e=r.end; } else { auto r=cxon::from_bytes(t,Inp<>(&e,b.end()),Inp<>::end_of(b.end())); ok=bool(r); } sx_reach("valid"); sx_reach("invalid"); sx_assert(ok && e==b.end(),"a valid string is read to its closing quote"); bool eq=true; for (int i=0;i<n;++i) eq&= t[i]==C(b.p[1+i]); sx_assert(eq && t[n]==C(0),"the text and a terminator"); delete[] t; }
SX_ENTRY(sz_pc) { szp<char,0>(); } SX_ENTRY(sz_pc_inp) { szp<char,1>(); } SX_ENTRY(sz_p16) { szp<char16_t,0>(); } SX_ENTRY(sz_p32_inp) { szp<char32_t,1>(); }
