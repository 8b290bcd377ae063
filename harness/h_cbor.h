// RFC 7049 reference pieces, written from the RFC
#pragma once
#include "h.h"
struct Head { bool ok=false, indef=false; unsigned major=0, ai=0; u64 arg=0; int len=0; };
inline Head ref_head(const u8* p, int n) {
    Head h; if (n<1) return h; h.major=p[0]>>5; h.ai=p[0]&31;
    if (h.ai<24) { h.arg=h.ai; h.len=1; h.ok=true; return h; }
    if (h.ai==31) { h.indef=true; h.len=1; h.ok=true; return h; }
    if (h.ai>27) return h;
    int k=1<<(h.ai-24); if (n<1+k) return h; for (int i=0;i<k;++i) h.arg=(h.arg<<8)|p[1+i]; h.len=1+k; h.ok=true; return h;
}
// shortest head of major type m with argument v
inline int ref_put_head(u8* o, unsigned m, u64 v) {
    m<<=5; if (v<24) { o[0]=u8(m|v); return 1; } int k= v<=0xFF?0 : v<=0xFFFF?1 : v<=0xFFFFFFFFu?2:3; o[0]=u8(m|(24+k)); int b=1<<k; for (int i=0;i<b;++i) o[1+i]=u8(v>>(8*(b-1-i))); return 1+b;
}
