// JSON number reference, written from RFC 8259 (digits compared as text, no arithmetic on wrapped values)
#pragma once
#include "h_json.h"
// turns a symbolic byte into a decimal digit (every digit is reached, no path condition needed)
inline char ref_dig(char c) { return char(48+((unsigned char)c&15u)%10u); }
// exactly n digits (n concrete): is the decimal number at p greater than lim (a decimal literal without leading zeros)?  p must not start with '0' unless n==1
inline bool ref_dec_gt(const char* p, int n, const char* lim) {
    int l=(int)strlen(lim); if (n!=l) return n>l;
    bool gt=false, eq=true; for (int i=0;i<n;++i) { gt|= eq & (p[i]>lim[i]); eq&= p[i]==lim[i]; } return gt; }
inline u64 ref_dec_val(const char* p, int n) { u64 v=0; for (int i=0;i<n;++i) v=v*10+(u64)(p[i]-'0'); return v; }
inline int ref_digits(const char* p, int n, int i) { while (i<n && p[i]>='0' && p[i]<='9') ++i; return i; }
template <typename T> inline const char* ref_max_lit() { bool s=std::is_signed<T>::value; switch (sizeof(T)) { case 1: return s?"127":"255"; case 2: return s?"32767":"65535"; case 4: return s?"2147483647":"4294967295"; default: return s?"9223372036854775807":"18446744073709551615"; } }
template <typename T> inline const char* ref_min_lit() { switch (sizeof(T)) { case 1: return "128"; case 2: return "32768"; case 4: return "2147483648"; default: return "9223372036854775808"; } }
// [i,...) integer token: sign and digit run; range check for tokens without superfluous zeros
struct IntTok { int b, d, e; bool neg, digits, zeros; };
template <typename T> inline IntTok ref_int(const char* p, int n) {
    IntTok t; t.b=ref_ws(p,n); t.d=t.b; t.neg=false; if (std::is_signed<T>::value && t.d<n && p[t.d]=='-') { t.neg=true; ++t.d; }
    t.e=ref_digits(p,n,t.d); t.digits=t.e>t.d; t.zeros= t.e-t.d>1 && p[t.d]=='0'; return t; }
// the RFC 8259 number at i: its end or -1
inline int ref_number(const char* p, int n, int i) {
    if (i<n && p[i]=='-') ++i; if (i>=n) return -1;
    if (p[i]=='0') ++i; else { int e=ref_digits(p,n,i); if (e==i) return -1; i=e; }
    if (i<n && p[i]=='.') { int e=ref_digits(p,n,i+1); if (e==i+1) return -1; i=e; }
    if (i<n && (p[i]=='e'||p[i]=='E')) { int k=i+1; if (k<n && (p[k]=='+'||p[k]=='-')) ++k; int e=ref_digits(p,n,k); if (e==k) return -1; i=e; }
    return i; }
