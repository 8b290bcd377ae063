// Run-time support linked into the bitcode: plain C/C++ library functions that are only in shared libraries.
// Each follows its documented contract; the FP text conversions are stubs (see stub_fp).
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <string.h>
#include <limits.h>
#include "sx.h"
extern "C" {
static int sx_errno_;
int* __errno_location() { return &sx_errno_; }
size_t strlen(const char* s) { size_t n=0; while (s[n]) ++n; return n; }
void* sx_memchr_(const void*, int, size_t) __asm__("memchr");
void* sx_memchr_(const void* p, int c, size_t n) { auto b=(const unsigned char*)p; for (size_t i=0;i<n;++i) if (b[i]==(unsigned char)c) return (void*)(b+i); return nullptr; }
char* sx_strchr_(const char*, int) __asm__("strchr");
char* sx_strchr_(const char* s, int c) { for (;;++s) { if (*s==(char)c) return (char*)s; if (!*s) return nullptr; } }
int strcmp(const char* a, const char* b) { for (;;++a,++b) { if (*a!=*b) return (unsigned char)*a<(unsigned char)*b?-1:1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (;n;--n,++a,++b) { if (*a!=*b) return (unsigned char)*a<(unsigned char)*b?-1:1; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r=d; while ((*d++=*s++)) {} return r; }
size_t sx_wcslen_(const wchar_t* s) __asm__("wcslen");
size_t sx_wcslen_(const wchar_t* s) { size_t n=0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { for (size_t i=0;i<n;++i) d[i]=s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { if (d<s) for (size_t i=0;i<n;++i) d[i]=s[i]; else while (n) { --n; d[n]=s[n]; } return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i=0;i<n;++i) d[i]=c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i=0;i<n;++i) if (a[i]!=b[i]) return a[i]<b[i]?-1:1; return 0; }
// 2^n as bits; exact for the uses in the code under test (|n| small, finite nonzero mantissas of few bits)
double ldexp(double x, int n) {
    while (n>1000) { x*=0x1p1000; n-=1000; } while (n<-1000) { x*=0x1p-1000; n+=1000; }
    uint64_t b=(uint64_t)(n+1023)<<52; if (n<=-1023) { double h; uint64_t hb=(uint64_t)(n+1023+200)<<52; memcpy(&h,&hb,8); return x*h*0x1p-200; }
    double p; memcpy(&p,&b,8); return x*p;
}
float ldexpf(float x, int n) { return (float)ldexp(x,n); }
}
// red-black tree (libstdc++ <bits/stl_tree.h> ABI), transcribed from the published algorithm
#include <map>
#include <list>
#include <unordered_map>
namespace std {
    static _Rb_tree_node_base* inc_(_Rb_tree_node_base* x) noexcept {
        if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; }
        else { auto y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; }
        return x;
    }
    static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) noexcept {
        if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right;
        else if (x->_M_left) { auto y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; }
        else { auto y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; }
        return x;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc_(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc_(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
    static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
        auto y=x->_M_right; x->_M_right=y->_M_left; if (y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent;
        if (x==root) root=y; else if (x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y;
    }
    static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
        auto y=x->_M_left; x->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent;
        if (x==root) root=y; else if (x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y;
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
        _Rb_tree_node_base*& root=header._M_parent;
        x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
        if (left) { p->_M_left=x; if (p==&header) { header._M_parent=x; header._M_right=x; } else if (p==header._M_left) header._M_left=x; }
        else { p->_M_right=x; if (p==header._M_right) header._M_right=x; }
        while (x!=root && x->_M_parent->_M_color==_S_red) {
            auto xpp=x->_M_parent->_M_parent;
            if (x->_M_parent==xpp->_M_left) { auto y=xpp->_M_right;
                if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; }
                else { if (x==x->_M_parent->_M_right) { x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotr(xpp,root); } }
            else { auto y=xpp->_M_left;
                if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; }
                else { if (x==x->_M_parent->_M_left) { x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotl(xpp,root); } }
        }
        root->_M_color=_S_black;
    }
    // erase: unlink keeping the search-tree order; colours are not rebalanced (balance is not observable)
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
        _Rb_tree_node_base*& root=header._M_parent; _Rb_tree_node_base*& lm=header._M_left; _Rb_tree_node_base*& rm=header._M_right;
        auto repl=[&](_Rb_tree_node_base* a,_Rb_tree_node_base* b){ if (root==a) root=b; else if (a->_M_parent->_M_left==a) a->_M_parent->_M_left=b; else a->_M_parent->_M_right=b; if (b) b->_M_parent=a->_M_parent; };
        auto nlm= lm==z ? (z->_M_right? ({ auto m=z->_M_right; while (m->_M_left) m=m->_M_left; m; }) : z->_M_parent) : lm;
        auto nrm= rm==z ? (z->_M_left? ({ auto m=z->_M_left; while (m->_M_right) m=m->_M_right; m; }) : z->_M_parent) : rm;
        if (!z->_M_left) repl(z,z->_M_right); else if (!z->_M_right) repl(z,z->_M_left);
        else { auto y=z->_M_right; while (y->_M_left) y=y->_M_left;
            if (y->_M_parent!=z) { repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; }
            repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; y->_M_color=z->_M_color; }
        lm=nlm; rm=nrm; return z;
    }
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
        void _List_node_base::_M_unhook() noexcept { auto n=_M_next, p=_M_prev; p->_M_next=n; n->_M_prev=p; }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
            if (this==l) return; l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; auto t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
            if (x._M_next!=&x) { if (y._M_next!=&y) { auto n=x._M_next; x._M_next=y._M_next; y._M_next=n; auto p=x._M_prev; x._M_prev=y._M_prev; y._M_prev=p; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
                else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
            else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
        void _List_node_base::_M_reverse() noexcept { auto t=this; do { auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
            static const size_t P[]={1,2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,199,257,337,439,1031,2081,4153,8209,16411,32771,65537,1000003,16000057};
            for (auto p: P) if (p>=n && p>1) { _M_next_resize=(size_t)((float)p*_M_max_load_factor); return p; } _M_next_resize=~(size_t)0; return 16000057; }
        std::pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
            if (ne+ni>_M_next_resize) { size_t m=ne+(_M_next_resize?0:11); if (m<ne+ni) m=ne+ni; if (m>=nb) { size_t g=nb*2; return {true,_M_next_bkt(m+1>g?m+1:g)}; } _M_next_resize=nb; return {false,0}; } return {false,0}; }
    }
    // any deterministic function of the bytes satisfies the contract of std::hash
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto b=(const unsigned char*)p; size_t h=seed^n; for (size_t i=0;i<n;++i) h=((h<<5)|(h>>59))^b[i]; return h; }
}
#include <system_error>
namespace {
    struct Cat final : std::error_category { const char* name() const noexcept override { return "generic"; } std::string message(int) const override { return "error"; }
        std::error_condition default_error_condition(int i) const noexcept override { return std::error_condition(i,*this); }
        bool equivalent(int i, const std::error_condition& c) const noexcept override { return c.category()==*this && c.value()==i; } bool equivalent(const std::error_code& c, int i) const noexcept override { return c.category()==*this && c.value()==i; } };
}
namespace std { inline namespace _V2 { const error_category& generic_category() noexcept { static Cat c; return c; } const error_category& system_category() noexcept { static Cat c; return c; } } }
// ---- floating-point text conversions: stubs honouring the contract of <charconv> and strtod, deterministic functions of the token.
// The extent of the token, inf/nan, single digits and clear overflow/underflow are as documented; any other token gives a finite value
// made of its characters (equal tokens give equal values, different short tokens different ones). Decimal exponents within 3 of the limits of the type are not explored.
#include <charconv>
#include <limits>
static bool fp_dig(char c) { return c>='0' && c<='9'; }
static const char* fp_word(const char* i, const char* e, const char* w) { for (;*w;++i,++w) if (i==e || (*i|0x20)!=*w) return nullptr; return i; }
template <typename T> struct fp_bits; template <> struct fp_bits<double> { using U=uint64_t; static constexpr U one=0x3FF0000000000000ull; static constexpr int m=52; }; template <> struct fp_bits<float> { using U=uint32_t; static constexpr U one=0x3F800000u; static constexpr int m=23; };
template <typename T> static T fp_of(typename fp_bits<T>::U u) { T t; __builtin_memcpy(&t,&u,sizeof t); return t; }
// tokens written by to_chars with full precision, and their values
struct FpMemo { char s[28]; int n; uint64_t bits; int size; }; static FpMemo fp_memo[8]; static int fp_memos=0;
template <typename T> static std::from_chars_result fp_read(const char* f, const char* l, T& v) {
    using B=fp_bits<T>; using U=typename B::U; const char* i=f; bool neg=false; if (i!=l && *i=='-') neg=true, ++i;
    if (i!=l && !fp_dig(*i) && *i!='.') { const char* p; T x;
        if ((p=fp_word(i,l,"inf"))) { if (const char* q=fp_word(i,l,"infinity")) p=q; x=std::numeric_limits<T>::infinity(); }
        else if ((p=fp_word(i,l,"nan"))) { if (p!=l && *p=='(') { const char* q=p+1; while (q!=l && (fp_dig(*q) || ((*q|0x20)>='a' && (*q|0x20)<='z') || *q=='_')) ++q; if (q!=l && *q==')') p=q+1; } x=std::numeric_limits<T>::quiet_NaN(); }
        else return {f,std::errc::invalid_argument};
        v= neg ? -x : x; return {p,std::errc()}; }
    const char* b=i; U h=0; auto mix=[&](unsigned c) { h=((h<<4)|(h>>(B::m-4)))&((U(1)<<B::m)-1); h^=c; };
    int dig=0, lead=0, fz=0; bool nz=false; // digits before the point from the first non-zero one; zeros directly behind the point
    while (i!=l && fp_dig(*i)) { ++dig; if (!nz && *i!='0') nz=true; if (nz) ++lead; mix((unsigned)(*i-'0')); ++i; }
    if (i!=l && *i=='.') { const char* q=i+1; bool any=q!=l && fp_dig(*q); if (!dig && !any) return {f,std::errc::invalid_argument}; mix(10); i=q; while (i!=l && fp_dig(*i)) { ++dig; if (!nz) { if (*i!='0') nz=true; else ++fz; } mix((unsigned)(*i-'0')); ++i; } }
    if (!dig) return {f,std::errc::invalid_argument};
    int x=0; bool plain=i-b==1;
    if (i!=l && (*i=='e' || *i=='E')) { const char* q=i+1; bool xn=false; if (q!=l && (*q=='+' || *q=='-')) { xn=*q=='-'; ++q; } if (q!=l && fp_dig(*q)) { mix(11); if (xn) mix(13); plain=false; while (q!=l && fp_dig(*q)) { if (x<100000) x=x*10+(*q-'0'); mix((unsigned)(*q-'0')); ++q; } if (xn) x=-x; i=q; } }
    for (int k=0;k<fp_memos;++k) if (fp_memo[k].size==sizeof(T) && fp_memo[k].n==i-f) { bool eq=true; for (int j=0;j<fp_memo[k].n;++j) eq&= fp_memo[k].s[j]==f[j]; if (eq) { v=fp_of<T>((U)fp_memo[k].bits); return {i,std::errc()}; } }
    if (plain) { static const T d[]={0,1,2,3,4,5,6,7,8,9}; T t=d[*b-'0']; v= neg ? -t : t; return {i,std::errc()}; }
    if (!nz) { v= neg ? -T(0) : T(0); return {i,std::errc()}; }
    int e10= lead ? x+lead-1 : x-fz-1, hi=std::numeric_limits<T>::max_exponent10, lo=std::numeric_limits<T>::min_exponent10-std::numeric_limits<T>::digits10-1;
    if (e10>hi+3 || e10<lo-3) return {i,std::errc::result_out_of_range};
    sx_assume(e10<hi-3 && e10>lo+3);
    T t=fp_of<T>(U(B::one+(U(1)<<(B::m+1)))|h); v= neg ? -t : t; return {i,std::errc()};
}
template <typename T> static std::to_chars_result fp_write(char* f, char* l, T v, int p) {
    sx_assert(p>=0 && p<=std::numeric_limits<T>::max_digits10+8,"precision of a floating-point conversion"); if (p==0) p=1;
    typename fp_bits<T>::U u; __builtin_memcpy(&u,&v,sizeof u); bool neg=u>>(sizeof(T)*8-1); char s[48]; int n=0; // the longest text of that precision
    if (neg) s[n++]='-'; s[n++]=char('1'+fp_memos); if (p>1) { s[n++]='.'; for (int k=1;k<p;++k) s[n++]=char('0'+(k+fp_memos)%10); } s[n++]='e'; s[n++]='-'; if (sizeof(T)==8) s[n++]='2'; s[n++]='3'; s[n++]='7';
    if (l-f<n) return {l,std::errc::value_too_large};
    for (int k=0;k<n;++k) f[k]=s[k];
    if (p>=std::numeric_limits<T>::max_digits10 && n<=(int)sizeof(fp_memo[0].s) && fp_memos<8) { FpMemo& m=fp_memo[fp_memos++]; for (int k=0;k<n;++k) m.s[k]=s[k]; m.n=n; m.bits=u; m.size=sizeof(T); }
    return {f+n,std::errc()};
}
namespace std {
    from_chars_result from_chars(const char* f, const char* l, float& v, chars_format) noexcept { return fp_read(f,l,v); }
    from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept { return fp_read(f,l,v); }
    to_chars_result to_chars(char* f, char* l, float v, chars_format, int p) noexcept { return fp_write(f,l,v,p); }
    to_chars_result to_chars(char* f, char* l, double v, chars_format, int p) noexcept { return fp_write(f,l,v,p); }
}
template <typename T> static T fp_strto(const char* s, char** end) {
    const char* i=s; while (*i==' ' || (*i>=9 && *i<=13)) ++i; const char* b= *i=='+' ? i+1 : i; const char* e=b; while (*e) ++e; T v=0; auto r=fp_read(b,e,v); if (r.ptr==b || (b!=i && *b=='-')) { if (end) *end=const_cast<char*>(s); return 0; }
    if (end) *end=const_cast<char*>(r.ptr); if (r.ec!=std::errc()) { sx_errno_=ERANGE; bool big=true; for (const char* p=b;p!=r.ptr;++p) if ((*p|0x20)=='e') { big=p[1]!='-'; break; } v= big ? std::numeric_limits<T>::infinity() : T(0); if (*b=='-') v=-v; } return v; }
extern "C" { double strtod(const char* s, char** e) noexcept { return fp_strto<double>(s,e); } float strtof(const char* s, char** e) noexcept { return fp_strto<float>(s,e); } }
