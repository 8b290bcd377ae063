// JSON reference pieces, written from RFC 8259 / RFC 3629
#pragma once
#include "h.h"
struct Txt { char32_t c[80]; int n=0; void add(char32_t x) { c[n++]=x; } };
inline int ref_ws(const char* p, int n, int i=0) { while (i<n && (p[i]==' '||p[i]=='\t'||p[i]=='\n'||p[i]=='\r')) ++i; return i; }
static const signed char ref_hex_[256] = {-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1};
inline int ref_hex(char c) { return ref_hex_[(u8)c]; }
// 4 hex digits or -1; branch free so that it costs no paths
inline int ref_hex4(const char* p, int n, int i) { if (n-i<4) return -1; int a=ref_hex(p[i]), b=ref_hex(p[i+1]), c=ref_hex(p[i+2]), d=ref_hex(p[i+3]), bad=a|b|c|d; return (a<<12|b<<8|c<<4|d)|(bad>>31); }
// one well-formed UTF-8 sequence at i (RFC 3629); returns its length or 0
inline int ref_utf8(const char* p, int n, int i, char32_t& c) {
    u8 a=u8(p[i]); if (a<0x80) { c=a; return 1; }
    int k= a<0xC2?0 : a<0xE0?2 : a<0xF0?3 : a<0xF5?4 : 0; if (!k || n-i<k) return 0;
    c= k==2? a&0x1F : k==3? a&0x0F : a&7;
    for (int j=1;j<k;++j) { u8 b=u8(p[i+j]); if ((b&0xC0)!=0x80) return 0; c=(c<<6)|(b&0x3F); }
    if (k==3 && (c<0x800 || (c>=0xD800&&c<=0xDFFF))) return 0; if (k==4 && (c<0x10000||c>0x10FFFF)) return 0;
    return k;
}
inline int ref_put_utf8(char* o, char32_t c) {
    if (c<0x80) { o[0]=(char)c; return 1; } if (c<0x800) { o[0]=char(0xC0|(c>>6)); o[1]=char(0x80|(c&63)); return 2; }
    if (c<0x10000) { o[0]=char(0xE0|(c>>12)); o[1]=char(0x80|((c>>6)&63)); o[2]=char(0x80|(c&63)); return 3; }
    o[0]=char(0xF0|(c>>18)); o[1]=char(0x80|((c>>12)&63)); o[2]=char(0x80|((c>>6)&63)); o[3]=char(0x80|(c&63)); return 4;
}
// one character of a string body at i: 0 = malformed/truncated, otherwise the number of bytes used
inline int ref_char(const char* p, int n, int i, char32_t& c) {
    if (i>=n) return 0;
    if ((u8)p[i]<0x20) return 0;
    if (p[i]!='\\') return ref_utf8(p,n,i,c);
    if (i+1>=n) return 0;
    switch (p[i+1]) {
        case '"': c='"'; return 2; case '\\': c='\\'; return 2; case '/': c='/'; return 2; case 'b': c=8; return 2; case 'f': c=12; return 2; case 'n': c=10; return 2; case 'r': c=13; return 2; case 't': c=9; return 2;
        case 'u': { int h=ref_hex4(p,n,i+2); if (h<0) return 0; if (h<0xD800||h>0xDFFF) { c=h; return 6; } if (h>0xDBFF) return 0;
            if (n-i<12 || p[i+6]!='\\' || p[i+7]!='u') return 0; int l=ref_hex4(p,n,i+8); if (l<0xDC00||l>0xDFFF) return 0; c=0x10000+((h-0xD800)<<10)+(l-0xDC00); return 12; }
    }
    return 0;
}
// a JSON string at i (which must be at the opening quote): the end position or -1
inline int ref_string(const char* p, int n, int i, Txt* t=nullptr) {
    if (i>=n || p[i]!='"') return -1; ++i;
    for (;;) { if (i>=n) return -1; if (p[i]=='"') return i+1; char32_t c; int k=ref_char(p,n,i,c); if (!k) return -1; if (t) t->add(c); i+=k; }
}
