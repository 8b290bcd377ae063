#include "expr.h"
#include <unistd.h>
#include <cstdio>
namespace sx {

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<12) + (h>>4); return h*0xff51afd7ed558ccdull; }

Ctx::Ctx() {
    setpool_.emplace_back(); empty_=&setpool_.back(); sets_[0].push_back(empty_);
    f_=konst(0,1); t_=konst(1,1);
}
const SymSet* Ctx::internSet(const SymSet& s) {
    if (s.empty()) return empty_;
    uint64_t h=1; for (auto x: s.w) h=mix(h,x);
    auto& v=sets_[h]; for (auto p: v) if (*p==s) return p;
    setpool_.push_back(s); v.push_back(&setpool_.back()); return v.back();
}
E Ctx::intern(Expr& x) {
    uint64_t h=mix(mix(mix(x.op,x.width),x.aux),(uint64_t)x.cval); h=mix(h,(uint64_t)(x.cval>>64));
    for (unsigned i=0;i<x.nk;++i) h=mix(h,x.k[i]->id);
    auto& v=tab_[h];
    for (E e: v) if (e->op==x.op&&e->width==x.width&&e->aux==x.aux&&e->cval==x.cval&&e->nk==x.nk&&e->k[0]==x.k[0]&&e->k[1]==x.k[1]&&e->k[2]==x.k[2]) return e;
    x.isFP = x.op>=O_FADD && x.op<=O_FPTOUI; for (unsigned i=0;i<x.nk;++i) x.isFP |= x.k[i]->isFP;
    pool.push_back(x); E e=&pool.back(); e->id=nid_++; bounds(e);
    if (e->op==O_SYM) { SymSet s; s.set(e->aux); e->syms=internSet(s); }
    else if (e->nk==0) e->syms=empty_;
    else if (e->nk==1) e->syms=e->k[0]->syms;
    else {
        const SymSet* s=e->k[0]->syms; bool same=true;
        for (unsigned i=1;i<e->nk;++i) if (e->k[i]->syms!=s && e->k[i]->syms!=empty_) { if (s==empty_) s=e->k[i]->syms; else same=false; }
        if (same) e->syms=s; else { SymSet u; for (unsigned i=0;i<e->nk;++i) u.add(*e->k[i]->syms); e->syms=internSet(u); }
    }
    v.push_back(e); return e;
}
void Ctx::bounds(E e) {
    u128 M=maskw(e->width); e->lo=0; e->hi=M; E a=e->k[0], b=e->k[1]; if (e->width>64) { if (e->op==O_CONST) e->lo=e->hi=e->cval; return; } // all arithmetic below stays under 2^128
    switch (e->op) {
        case O_CONST: e->lo=e->hi=e->cval; break;
        case O_ADD: { u128 l=a->lo+b->lo,h=a->hi+b->hi; if (h<=M) e->lo=l,e->hi=h; else if (l>M) e->lo=l&M,e->hi=h&M; break; }
        case O_SUB: if (a->lo>=b->hi) e->lo=a->lo-b->hi,e->hi=a->hi-b->lo; break;
        case O_MUL: if (a->hi<=(u128)1<<63 && b->hi<=(u128)1<<63 && a->hi*b->hi<=M) e->lo=a->lo*b->lo,e->hi=a->hi*b->hi; break;
        case O_UDIV: if (b->lo) e->lo=a->lo/b->hi,e->hi=a->hi/b->lo; break;
        case O_UREM: if (b->lo) e->hi=std::min(a->hi,b->hi-1); break;
        case O_AND: e->hi=std::min(a->hi,b->hi); break;
        case O_OR: case O_XOR: if (e->op==O_XOR && b->isConst() && b->cval==M) { e->lo=M-a->hi; e->hi=M-a->lo; break; } { u128 m=a->hi|b->hi,k=1; while (k<=m) k<<=1; e->hi=k-1; if (e->op==O_OR) e->lo=std::max(a->lo,b->lo); break; }
        case O_ITE: e->lo=std::min(b->lo,e->k[2]->lo); e->hi=std::max(b->hi,e->k[2]->hi); break;
        case O_ZEXT: e->lo=a->lo; e->hi=a->hi; break;
        case O_SEXT: if (a->hi<(u128)1<<(a->width-1)) e->lo=a->lo,e->hi=a->hi; break;
        case O_EXTRACT: { u128 l=a->lo>>e->aux,h=a->hi>>e->aux; if (h<=M) e->lo=l,e->hi=h; break; }
        case O_CONCAT: e->lo=a->lo<<b->width|b->lo; e->hi=a->hi<<b->width|b->hi; break;
        default: break;
    }
}
E Ctx::konst(u128 v, unsigned w) {
    v&=maskw(w);
    if (w>8) {
        E& c=ccache_[((uint64_t)v*0x9e3779b97f4a7c15ull>>52 ^ w)&4095];
        if (c && c->cval==v && c->width==w) return c;
        Expr x; x.op=O_CONST; x.width=w; x.cval=v; return c=intern(x);
    }
    if (w==8) { if (byteConst_.empty()) { byteConst_.resize(256,nullptr); } if (byteConst_[(int)v]) return byteConst_[(int)v]; }
    Expr x; x.op=O_CONST; x.width=w; x.cval=v; E e=intern(x); if (w==8) byteConst_[(int)v]=e; return e;
}
E Ctx::sym(unsigned i) {
    if (i<symE_.size() && symE_[i]) return symE_[i];
    if (i>=MAXSYM) { fprintf(stderr,"symx: too many symbols\n"); _exit(3); }
    Expr x; x.op=O_SYM; x.width=8; x.aux=i; E e=intern(x); if (symE_.size()<=i) symE_.resize(i+1,nullptr); symE_[i]=e; return e;
}
template <typename T> static T asf(u128 v) { T r; uint64_t u=(uint64_t)v; if (sizeof(T)==4) { uint32_t x=(uint32_t)u; memcpy(&r,&x,4);} else memcpy(&r,&u,8); return r; }
template <typename T> static u128 fas(T v) { if (sizeof(T)==4) { uint32_t x; memcpy(&x,&v,4); return x; } uint64_t x; memcpy(&x,&v,8); return x; }
template <typename T> static u128 ffold(Op o, T a, T b) {
    switch (o) { case O_FADD: return fas<T>(a+b); case O_FSUB: return fas<T>(a-b); case O_FMUL: return fas<T>(a*b); case O_FDIV: return fas<T>(a/b);
        case O_FOEQ: return a==b; case O_FOLT: return a<b; case O_FOLE: return a<=b; case O_FUNO: return std::isnan(a)||std::isnan(b); default: return 0; }
}
// w: result width, aw: width of first operand
u128 Ctx::fold(Op o, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux) {
    u128 M=maskw(aw);
    switch (o) {
        case O_ADD: return (a+b)&M; case O_SUB: return (a-b)&M; case O_MUL: return (a*b)&M;
        case O_UDIV: return b? a/b : M; case O_UREM: return b? a%b : a;
        case O_SDIV: { i128 x=sx(a,aw),y=sx(b,aw); if (!y) return x<0?1:M; if (y==-1) return (0-(u128)x)&M; return (u128)(x/y)&M; }
        case O_SREM: { i128 x=sx(a,aw),y=sx(b,aw); if (!y) return a; if (y==-1) return 0; return (u128)(x%y)&M; }
        case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
        case O_SHL: return b>=aw?0:(a<<(unsigned)b)&M; case O_LSHR: return b>=aw?0:a>>(unsigned)b;
        case O_ASHR: { i128 x=sx(a,aw); unsigned s=b>=aw?aw-1:(unsigned)b; return (u128)(x>>s)&M; }
        case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
        case O_SLT: return sx(a,aw)<sx(b,aw); case O_SLE: return sx(a,aw)<=sx(b,aw);
        case O_ZEXT: return a; case O_SEXT: return (u128)sx(a,aw)&maskw(w);
        case O_EXTRACT: return (a>>aux)&maskw(w);
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO:
            return aw==32 ? ffold<float>(o,asf<float>(a),asf<float>(b)) : ffold<double>(o,asf<double>(a),asf<double>(b));
        case O_FPEXT: return fas<double>((double)asf<float>(a));
        case O_FPTRUNC: return fas<float>((float)asf<double>(a));
        case O_SITOFP: return w==32? fas<float>((float)(int64_t)sx(a,aw)) : fas<double>((double)(int64_t)sx(a,aw));
        case O_UITOFP: return w==32? fas<float>((float)(uint64_t)a) : fas<double>((double)(uint64_t)a);
        case O_FPTOSI: { double d=aw==32?asf<float>(a):asf<double>(a); if (!(d>-9.3e18&&d<9.2e18)) return (u128)1<<(w-1); return (u128)(i128)(int64_t)d & maskw(w); }
        case O_FPTOUI: { double d=aw==32?asf<float>(a):asf<double>(a); if (!(d>-1&&d<1.84e19)) return 0; return (u128)(uint64_t)d & maskw(w); }
        default: return 0;
    }
}
static bool commut(Op o) { return o==O_ADD||o==O_MUL||o==O_AND||o==O_OR||o==O_XOR||o==O_EQ; }

E Ctx::bin(Op o, E a, E b) {
    assert(a->width==b->width);
    unsigned w=a->width; bool cmp=o>=O_EQ&&o<=O_SLE; unsigned rw=cmp?1:w;
    if (a->isConst()&&b->isConst()) return konst(fold(o,rw,w,a->cval,b->cval,0),rw);
    if (commut(o) && (a->isConst() || (!b->isConst() && a->id>b->id))) std::swap(a,b);
    u128 M=maskw(w);
    if (cmp && w>1) {
        if (o==O_EQ && (a->hi<b->lo || b->hi<a->lo)) return f_;
        if (o==O_ULT) { if (a->hi<b->lo) return t_; if (a->lo>=b->hi) return f_; }
        if (o==O_SLT) { u128 h=(u128)1<<(w-1); if ((a->hi<h && b->hi<h) || (a->lo>=h && b->lo>=h)) return bin(O_ULT,a,b); if (a->hi<h && b->lo>=h) return f_; if (a->lo>=h && b->hi<h) return t_; }
    }
    switch (o) {
    case O_ADD:
        if (b->isConst()) { if (!b->cval) return a; if (w==1) return bin(O_XOR,a,b);
            if (a->op==O_ADD&&a->k[1]->isConst()) return bin(O_ADD,a->k[0],konst(a->k[1]->cval+b->cval,w)); 
            if (a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return ite(a->k[0],bin(o,a->k[1],b),bin(o,a->k[2],b)); }
        else { if (a->op==O_ADD&&a->k[1]->isConst()) return bin(O_ADD,bin(O_ADD,a->k[0],b),a->k[1]);
               if (b->op==O_ADD&&b->k[1]->isConst()) return bin(O_ADD,bin(O_ADD,a,b->k[0]),b->k[1]); }
        break;
    case O_SUB:
        if (a==b) return konst(0,w);
        if (b->isConst()) return bin(O_ADD,a,konst(0-b->cval,w));
        if (a->op==O_ADD&&a->k[1]->isConst()&&a->k[0]==b) return a->k[1];
        if (a->op==O_ADD&&a->k[0]==b) return a->k[1];
        if (a->op==O_ADD&&a->k[1]==b) return a->k[0];
        if (a->op==O_ADD&&b->op==O_ADD&&a->k[0]==b->k[0]) return bin(O_SUB,a->k[1],b->k[1]);
        break;
    case O_MUL:
        if (b->isConst()) { if (!b->cval) return b; if (b->cval==1) return a; 
            if (!(b->cval&(b->cval-1))) { unsigned s=0; while (!((b->cval>>s)&1)) ++s; return bin(O_SHL,a,konst(s,w)); } }
        break;
    case O_SDIV: case O_SREM: if (w>1 && a->hi<(u128)1<<(w-1) && b->hi<(u128)1<<(w-1) && b->lo) return bin(o==O_SDIV?O_UDIV:O_UREM,a,b); break;
    case O_UDIV: if (b->isConst()&&b->cval==1) return a;
        if (b->isConst()&&b->cval&&a->hi<b->cval) return konst(0,w);
        if (E r=divLinear(a,b,true)) return r;
        if (b->isConst()&&b->cval&&!(b->cval&(b->cval-1))) { unsigned s=0; while (!((b->cval>>s)&1)) ++s; return bin(O_LSHR,a,konst(s,w)); } break;
    case O_UREM: if (b->isConst()&&a->hi<b->cval) return a; if (E r=divLinear(a,b,false)) return r; if (b->isConst()&&b->cval&&!(b->cval&(b->cval-1))) return bin(O_AND,a,konst(b->cval-1,w)); break;
    case O_AND:
        if (a==b) return a;
        if (b->isConst()) { if (!b->cval) return b; if (b->cval==M) return a;
            if (a->op==O_AND&&a->k[1]->isConst()) return bin(O_AND,a->k[0],konst(a->k[1]->cval&b->cval,w));
            // low mask of n bits -> zext(extract)
            u128 c=b->cval; if (!(c&(c+1))) { unsigned n=0; while (n<w && ((c>>n)&1)) ++n; return zext(extract(a,0,n),w); } 
            if (a->op==O_ZEXT) { unsigned kw=a->k[0]->width; return zext(bin(O_AND,a->k[0],konst(c&maskw(kw),kw)),w); } }
        if (w==1 && a->op==O_XOR && a->k[0]==b && a->k[1]->isConst()) return f_;
        if (w==1 && b->op==O_XOR && b->k[0]==a && b->k[1]->isConst()) return f_;
        break;
    case O_OR:
        if (a==b) return a;
        if (b->isConst()) { if (!b->cval) return a; if (b->cval==M) return b; 
            if (a->op==O_OR&&a->k[1]->isConst()) return bin(O_OR,a->k[0],konst(a->k[1]->cval|b->cval,w)); }
        if (w==1 && a->op==O_XOR && a->k[0]==b && a->k[1]->isConst()) return t_;
        if (w==1 && b->op==O_XOR && b->k[0]==a && b->k[1]->isConst()) return t_;
        if (b->isConst() && a->op==O_CONCAT && a->k[1]->isConst() && !a->k[1]->cval && !(b->cval>>a->k[1]->width)) return concat(a->k[0],konst(b->cval,a->k[1]->width));
        if (b->isConst() && w>1) { u128 lb=b->cval&(0-b->cval); if (a->hi<lb) return bin(O_ADD,a,b); } // disjoint bits
        {   // disjoint zext | shl(zext) -> concat
            E lo=a,hi=b; if (hi->op!=O_SHL && hi->op!=O_CONCAT) std::swap(lo,hi);
            if (lo->op==O_ZEXT && hi->op==O_CONCAT && hi->k[1]->isConst() && !hi->k[1]->cval && hi->k[1]->width>=lo->k[0]->width)
                return concat(hi->k[0], zext(lo->k[0],hi->k[1]->width));
            if (lo->op==O_CONCAT && hi->op==O_CONCAT) {
                for (int t=0;t<2;++t,std::swap(lo,hi)) {
                    if (hi->k[1]->isConst() && !hi->k[1]->cval) { unsigned n=hi->k[1]->width; E up=extract(lo,n,w-n); if (up->isConst()&&!up->cval) return concat(hi->k[0],extract(lo,0,n)); }
                }
            }
        }
        break;
    case O_XOR:
        if (a==b) return konst(0,w);
        if (b->isConst()) { if (!b->cval) return a; if (a->op==O_XOR&&a->k[1]->isConst()) return bin(O_XOR,a->k[0],konst(a->k[1]->cval^b->cval,w)); }
        break;
    case O_SHL:
        if (b->isConst()) { if (!b->cval) return a; if (b->cval>=w) return konst(0,w); unsigned s=(unsigned)b->cval; return concat(extract(a,0,w-s),konst(0,s)); }
        break;
    case O_LSHR:
        if (b->isConst()) { if (!b->cval) return a; if (b->cval>=w) return konst(0,w); if ((a->op==O_ADD||a->op==O_MUL) && w>8 && w<=64 && b->cval<w) if (E r=divLinear(a,konst((u128)1<<(unsigned)b->cval,w),true)) return r; unsigned s=(unsigned)b->cval; return zext(extract(a,s,w-s),w); }
        break;
    case O_ASHR:
        if (b->isConst()) { if (!b->cval) return a; unsigned s=b->cval>=w?w-1:(unsigned)b->cval; return sext(extract(a,s,w-s),w); }
        break;
    case O_EQ:
        if (a==b) return t_;
        if (w>8 && w<=64 && (a->op==O_ADD||a->op==O_MUL||a->op==O_SUB) && (b->op==O_ADD||b->op==O_MUL||b->op==O_SUB)) { // equal up to a common linear part
            std::vector<std::pair<E,u128>> t; u128 k=0; if (linear(a,1,t,k) && linear(b,M,t,k)) { E d=fromLinear(t,k,w); if (d->lo>0) return f_; if (d->isConst()) return boolE(!d->cval); } }
        if (w==1 && b->isConst()) return b->cval? a : notE(a);
        if (b->isConst()) {
            u128 c=b->cval;
            if (a->op==O_ZEXT) { unsigned kw=a->k[0]->width; if (c>>kw) return f_; return bin(O_EQ,a->k[0],konst(c,kw)); }
            if (a->op==O_SEXT) { unsigned kw=a->k[0]->width; if ((u128)(sx(c,kw))!=(u128)sx(c,w)) return f_; return bin(O_EQ,a->k[0],konst(c,kw)); }
            if (a->op==O_ADD&&a->k[1]->isConst()) return bin(O_EQ,a->k[0],konst(c-a->k[1]->cval,w));
            if (a->op==O_XOR&&a->k[1]->isConst()) return bin(O_EQ,a->k[0],konst(c^a->k[1]->cval,w));
            if (a->op==O_CONCAT) { unsigned lw=a->k[1]->width; return bin(O_AND,bin(O_EQ,a->k[0],konst(c>>lw,a->k[0]->width)),bin(O_EQ,a->k[1],konst(c,lw))); }
            if (a->op==O_ITE) { bool c1=a->k[1]->isConst(),c2=a->k[2]->isConst();
                if (c1&&c2) { bool p=a->k[1]->cval==c,q=a->k[2]->cval==c; if (p&&q) return t_; if (p) return a->k[0]; if (q) return notE(a->k[0]); return f_; }
                if (c1) { E r=bin(O_EQ,a->k[2],b); return a->k[1]->cval==c ? bin(O_OR,a->k[0],r) : bin(O_AND,notE(a->k[0]),r); }
                if (c2) { E r=bin(O_EQ,a->k[1],b); return a->k[2]->cval==c ? bin(O_OR,notE(a->k[0]),r) : bin(O_AND,a->k[0],r); }
            }
            if (a->op==O_AND && a->k[1]->isConst() && (c & ~a->k[1]->cval)) return f_;
            if (a->op==O_OR && a->k[1]->isConst() && (a->k[1]->cval & ~c)) return f_;
        }
        else {
            if (a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->width==b->k[0]->width) return bin(O_EQ,a->k[0],b->k[0]);
            if (a->op==O_CONCAT&&b->op==O_CONCAT&&a->k[1]->width==b->k[1]->width) return bin(O_AND,bin(O_EQ,a->k[0],b->k[0]),bin(O_EQ,a->k[1],b->k[1]));
        }
        break;
    case O_ULT:
        if (a==b) return f_;
        if (w>8 && w<=64 && (a->op==O_ADD||a->op==O_MUL||a->op==O_SUB) && (b->op==O_ADD||b->op==O_MUL||b->op==O_SUB)) { // neither side wraps: decide on the difference of the linear forms
            std::vector<std::pair<E,u128>> ta,tb; u128 ka=0,kb=0; 
            auto urange=[&](std::vector<std::pair<E,u128>>& t, u128 k) { u128 hi=k; for (auto& p: t) { if (p.first->hi>>60) return false; hi+=p.first->hi*p.second; if (hi>M) return false; } return true; };
            if (linear(a,1,ta,ka) && linear(b,1,tb,kb) && urange(ta,ka) && urange(tb,kb)) {
                std::vector<std::pair<E,i128>> d; for (auto& p: ta) d.push_back({p.first,(i128)p.second}); for (auto& p: tb) { bool f=false; for (auto& q: d) if (q.first==p.first) { q.second-=(i128)p.second; f=true; break; } if (!f) d.push_back({p.first,-(i128)p.second}); }
                i128 lo=(i128)ka-(i128)kb, hi=lo; bool any=false; for (auto& q: d) if (q.second) { any=true; i128 x=(i128)q.first->lo*q.second,y=(i128)q.first->hi*q.second; lo+=std::min(x,y); hi+=std::max(x,y); }
                if (hi<0) return t_; if (lo>=0) return f_; (void)any; } }
        if (b->isConst()) { if (!b->cval) return f_; if (b->cval==1) return bin(O_EQ,a,konst(0,w));
            if (a->op==O_ZEXT) { unsigned kw=a->k[0]->width; if (b->cval>maskw(kw)) return t_; return bin(O_ULT,a->k[0],konst(b->cval,kw)); }
            if (a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return ite(a->k[0],bin(o,a->k[1],b),bin(o,a->k[2],b)); }
        if (a->isConst()) { if (a->cval==M) return f_;
            if (b->op==O_ZEXT) { unsigned kw=b->k[0]->width; if (a->cval>=maskw(kw)) return f_; return bin(O_ULT,konst(a->cval,kw),b->k[0]); }
            if (b->op==O_ITE&&b->k[1]->isConst()&&b->k[2]->isConst()) return ite(b->k[0],bin(o,a,b->k[1]),bin(o,a,b->k[2]));
            if (!a->cval) return notE(bin(O_EQ,b,a)); }
        if (a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->width==b->k[0]->width) return bin(O_ULT,a->k[0],b->k[0]);
        break;
    case O_ULE: return notE(bin(O_ULT,b,a));
    case O_SLT:
        if (a==b) return f_;
        if (a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->width==b->k[0]->width) return bin(O_ULT,a->k[0],b->k[0]);
        if (a->op==O_SEXT&&b->op==O_SEXT&&a->k[0]->width==b->k[0]->width) return bin(O_SLT,a->k[0],b->k[0]);
        if (b->isConst()) {
            i128 c=sx(b->cval,w);
            if (a->op==O_ZEXT) { unsigned kw=a->k[0]->width; if (c<=0) return f_; return bin(O_ULT,a,b); }
            if (a->op==O_SEXT) { unsigned kw=a->k[0]->width; i128 lo=-((i128)1<<(kw-1)),hi=((i128)1<<(kw-1))-1; if (c<=lo) return f_; if (c>hi) return t_; return bin(O_SLT,a->k[0],konst((u128)c,kw)); }
            if (a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return ite(a->k[0],bin(o,a->k[1],b),bin(o,a->k[2],b));
        }
        if (a->isConst()) {
            i128 c=sx(a->cval,w);
            if (b->op==O_ZEXT) { if (c<0) return t_; return bin(O_ULT,a,b); }
            if (b->op==O_SEXT) { unsigned kw=b->k[0]->width; i128 lo=-((i128)1<<(kw-1)),hi=((i128)1<<(kw-1))-1; if (c<lo) return t_; if (c>=hi) return f_; return bin(O_SLT,konst((u128)c,kw),b->k[0]); }
            if (b->op==O_ITE&&b->k[1]->isConst()&&b->k[2]->isConst()) return ite(b->k[0],bin(o,a,b->k[1]),bin(o,a,b->k[2]));
        }
        break;
    case O_SLE: return notE(bin(O_SLT,b,a));
    default: break;
    }
    if (w>=8 && w<=64 && o==O_SUB && (a->op==O_MUL||a->op==O_ADD||a->op==O_SUB||b->op==O_MUL||b->op==O_ADD||b->op==O_SUB)) {
        std::vector<std::pair<E,u128>> t; u128 k=0; if (linear(a,1,t,k) && linear(b,M,t,k)) return fromLinear(t,k,w);
    }
    if (w>=8 && w<=64 && (o==O_ADD ? (a->op==O_MUL||a->op==O_ADD||a->op==O_SUB||b->op==O_MUL||b->op==O_ADD||b->op==O_SUB) : o==O_MUL && b->isConst() && (a->op==O_MUL||a->op==O_ADD||a->op==O_SUB))) {
        std::vector<std::pair<E,u128>> t; u128 k=0; if (linear(a,o==O_MUL?b->cval:1,t,k) && (o==O_MUL || linear(b,1,t,k))) return fromLinear(t,k,w);
    }
    // bitwise ops on equal-shaped zexts
    if ((o==O_AND||o==O_OR||o==O_XOR) && a->op==O_ZEXT && w>1) {
        unsigned kw=a->k[0]->width;
        if (b->op==O_ZEXT && b->k[0]->width==kw) return zext(bin(o,a->k[0],b->k[0]),w);
        if (b->isConst() && !(b->cval>>kw)) return zext(bin(o,a->k[0],konst(b->cval,kw)),w);
    }
    Expr x; x.op=o; x.width=rw; x.nk=2; x.k[0]=a; x.k[1]=b; return intern(x);
}
// a linear term: sum of coefficient*atom; false when there are too many atoms
bool Ctx::linear(E e, u128 c, std::vector<std::pair<E,u128>>& t, u128& k) {
    u128 M=maskw(e->width);
    if (e->isConst()) { k=(k+c*e->cval)&M; return true; }
    if (e->op==O_ADD) return linear(e->k[0],c,t,k) && linear(e->k[1],c,t,k);
    if (e->op==O_SUB) return linear(e->k[0],c,t,k) && linear(e->k[1],(0-c)&M,t,k);
    if (e->op==O_MUL && e->k[1]->isConst()) return linear(e->k[0],(c*e->k[1]->cval)&M,t,k);
    if (e->op==O_CONCAT && e->k[1]->isConst() && !e->k[1]->cval && e->k[0]->op==O_EXTRACT && e->k[0]->aux==0 && e->k[0]->k[0]->width==e->width) return linear(e->k[0]->k[0],(c<<e->k[1]->width)&M,t,k); // x<<n
    if (e->op==O_ZEXT && e->k[0]->op==O_CONCAT && e->k[0]->k[1]->isConst() && e->width<=64) { E q=e->k[0], h=q->k[0]; if (h->op==O_ADD||h->op==O_MUL||h->op==O_ZEXT||h->op==O_UREM) { k=(k+c*q->k[1]->cval)&M; return linear(zext(h,e->width),(c<<q->k[1]->width)&M,t,k); } }
    if (e->op==O_CONCAT && e->k[1]->isConst() && e->width<=64 && (e->k[0]->op==O_ADD||e->k[0]->op==O_MUL||e->k[0]->op==O_ZEXT||e->k[0]->op==O_UREM)) { k=(k+c*e->k[1]->cval)&M; return linear(zext(e->k[0],e->width),(c<<e->k[1]->width)&M,t,k); }
    for (auto& p: t) if (p.first==e) { p.second=(p.second+c)&M; return true; }
    if (t.size()>=24) return false;
    t.push_back({e,c}); return true;
}
E Ctx::fromLinear(std::vector<std::pair<E,u128>>& t, u128 k, unsigned w) {
    auto mk=[&](Op o, E a, E b) { Expr x; x.op=o; x.width=w; x.nk=2; x.k[0]=a; x.k[1]=b; return intern(x); };
    std::sort(t.begin(),t.end(),[](auto& a,auto& b){ return a.first->id<b.first->id; });
    u128 M=maskw(w), half=(u128)1<<(w-1); i128 lo=sx(k,w), hi=lo; bool small=true;
    E r=nullptr; for (auto& p: t) if (p.second && p.second<half) { E m= p.second==1 ? p.first : mk(O_MUL,p.first,konst(p.second,w)); r= r ? mk(O_ADD,r,m) : m; }
    for (auto& p: t) if (p.second) { i128 c=sx(p.second,w), a=(i128)p.first->lo*c, b=(i128)p.first->hi*c; if (p.first->hi>>62 || c>((i128)1<<62) || c<-((i128)1<<62)) small=false; lo+=std::min(a,b); hi+=std::max(a,b); }
    bool any=r!=nullptr;
    for (auto& p: t) if (p.second>=half) { u128 c=(0-p.second)&M; E m= c==1 ? p.first : mk(O_MUL,p.first,konst(c,w)); r= mk(O_SUB,r?r:konst(0,w),m); any=true; }
    if (!any) return konst(k,w); r= k ? mk(O_ADD,r,konst(k,w)) : r;
    if (small) { if (lo>=0 && (u128)hi<=M) r->lo=std::max(r->lo,(u128)lo), r->hi=std::min(r->hi,(u128)hi); else if (hi<0 && lo>=-(i128)half*2) r->lo=std::max(r->lo,(u128)lo&M), r->hi=std::min(r->hi,(u128)hi&M);
        else if (lo>=(i128)M+1 && hi<=2*(i128)M+1) r->lo=std::max(r->lo,(u128)lo&M), r->hi=std::min(r->hi,(u128)hi&M); }
    return r;
}
// quotient or remainder of a linear term by a constant when it can be read off the coefficients (no wrap-around)
E Ctx::divLinear(E a, E b, bool quot) {
    unsigned w=a->width; if (w<=8 || w>64 || !b->isConst() || b->cval<2 || (a->op!=O_ADD && a->op!=O_MUL && a->op!=O_CONCAT && a->op!=O_SUB && !(a->op==O_ZEXT && a->k[0]->op==O_CONCAT))) return nullptr;
    std::vector<std::pair<E,u128>> t; u128 k=0, d=b->cval, sum, rs; if (!linear(a,1,t,k)) return nullptr;
    sum=k; rs=k%d; for (auto& p: t) { if (p.first->hi>>32 && p.second>>32) { if (p.first->hi>>60 || p.second>((u128)1<<62)) return nullptr; } sum+=p.first->hi*p.second; rs+=p.first->hi*(p.second%d); if (sum>maskw(w)) return nullptr; }
    if (rs>=d) return nullptr;
    for (auto& p: t) p.second= quot ? p.second/d : p.second%d;
    return fromLinear(t,quot?k/d:k%d,w);
}
E Ctx::ite(E c, E a, E b) {
    if (c->isConst()) return c->cval? a:b;
    if (a==b) return a;
    if (a->width==1) {
        if (a->isTrue()&&b->isFalse()) return c;
        if (a->isFalse()&&b->isTrue()) return notE(c);
        if (a->isTrue()) return bin(O_OR,c,b);
        if (a->isFalse()) return bin(O_AND,notE(c),b);
        if (b->isTrue()) return bin(O_OR,notE(c),a);
        if (b->isFalse()) return bin(O_AND,c,a);
    }
    if (c->op==O_XOR && c->k[1]->isConst()) return ite(c->k[0],b,a);
    if (a->op==O_ITE && a->k[0]==c) a=a->k[1];
    if (b->op==O_ITE && b->k[0]==c) b=b->k[2];
    if (a==b) return a;
    if (a->op==O_ZEXT&&b->op==O_ZEXT&&a->k[0]->width==b->k[0]->width) return zext(ite(c,a->k[0],b->k[0]),a->width);
    Expr x; x.op=O_ITE; x.width=a->width; x.nk=3; x.k[0]=c; x.k[1]=a; x.k[2]=b; return intern(x);
}
E Ctx::zext(E a, unsigned w) {
    if (a->width==w) return a; assert(w>a->width);
    if (a->isConst()) return konst(a->cval,w);
    if (a->op==O_ZEXT) return zext(a->k[0],w);
    if (a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return ite(a->k[0],konst(a->k[1]->cval,w),konst(a->k[2]->cval,w));
    if (w<=64 && a->width>=8 && (a->op==O_ADD ? a->k[0]->hi+a->k[1]->hi<=maskw(a->width) : a->op==O_MUL && (u128)a->k[0]->hi*a->k[1]->hi<=maskw(a->width) && a->k[0]->hi<=maskw(63) && a->k[1]->hi<=maskw(63))) return bin(a->op,zext(a->k[0],w),zext(a->k[1],w));
    Expr x; x.op=O_ZEXT; x.width=w; x.nk=1; x.k[0]=a; return intern(x);
}
E Ctx::sext(E a, unsigned w) {
    if (a->width==w) return a; assert(w>a->width);
    if (a->isConst()) return konst((u128)sx(a->cval,a->width),w);
    if (a->op==O_ZEXT) return zext(a->k[0],w);
    if (a->op==O_SEXT) return sext(a->k[0],w);
    if (a->width>1 && a->hi<(u128)1<<(a->width-1)) return zext(a,w);
    if (a->width==1) return ite(a,konst(~(u128)0,w),konst(0,w));
    if (a->width>=8 && w<=64 && (a->op==O_ADD||a->op==O_SUB||a->op==O_MUL)) { // a linear form whose signed value does not wrap
        std::vector<std::pair<E,u128>> t; u128 k=0; unsigned aw=a->width; i128 h=(i128)1<<(aw-1);
        if (linear(a,1,t,k)) { i128 lo=sx(k,aw), hi=lo; bool ok=true; for (auto& p: t) { if (p.first->hi>>60) { ok=false; break; } i128 c=sx(p.second,aw), x=(i128)p.first->lo*c, y=(i128)p.first->hi*c; lo+=std::min(x,y); hi+=std::max(x,y); }
            if (ok && lo>=-h && hi<h) { for (auto& p: t) { p.second=(u128)sx(p.second,aw)&maskw(w); p.first=zext(p.first,w); } return fromLinear(t,(u128)sx(k,aw)&maskw(w),w); } } }
    if (a->op==O_ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return ite(a->k[0],sext(a->k[1],w),sext(a->k[2],w));
    Expr x; x.op=O_SEXT; x.width=w; x.nk=1; x.k[0]=a; return intern(x);
}
E Ctx::extract(E a, unsigned off, unsigned w) {
    if (off==0&&w==a->width) return a;
    assert(off+w<=a->width);
    if (a->isConst()) return konst(a->cval>>off,w);
    switch (a->op) {
        case O_EXTRACT: return extract(a->k[0],a->aux+off,w);
        case O_ZEXT: { unsigned kw=a->k[0]->width; if (off>=kw) return konst(0,w); if (off+w<=kw) return extract(a->k[0],off,w); return zext(extract(a->k[0],off,kw-off),w); }
        case O_SEXT: { unsigned kw=a->k[0]->width; if (off+w<=kw) return extract(a->k[0],off,w); if (off<kw) return sext(extract(a->k[0],off,kw-off),w); return sext(extract(a->k[0],kw-1,1),w); }
        case O_CONCAT: { unsigned lw=a->k[1]->width; if (off+w<=lw) return extract(a->k[1],off,w); if (off>=lw) return extract(a->k[0],off-lw,w);
            return concat(extract(a->k[0],0,off+w-lw),extract(a->k[1],off,lw-off)); }
        case O_ITE: if ((a->k[1]->isConst()||a->k[1]->op==O_ITE)&&(a->k[2]->isConst()||a->k[2]->op==O_ITE)) return ite(a->k[0],extract(a->k[1],off,w),extract(a->k[2],off,w)); break;
        case O_AND: case O_OR: case O_XOR: if (a->k[1]->isConst() || a->k[0]->op==O_CONCAT||a->k[1]->op==O_CONCAT||a->k[0]->op==O_ZEXT||a->k[1]->op==O_ZEXT) return bin(a->op,extract(a->k[0],off,w),extract(a->k[1],off,w)); break;
        case O_ADD: case O_SUB: case O_MUL: if (off==0 && w>=8) return bin(a->op,extract(a->k[0],0,w),extract(a->k[1],0,w)); break;
        default: break;
    }
    Expr x; x.op=O_EXTRACT; x.width=w; x.aux=off; x.nk=1; x.k[0]=a; return intern(x);
}
E Ctx::concat(E hi, E lo) {
    unsigned w=hi->width+lo->width;
    if (hi->isConst()&&lo->isConst()) return konst((hi->cval<<lo->width)|lo->cval,w);
    if (hi->isConst()&&!hi->cval) return zext(lo,w);
    if (hi->op==O_EXTRACT&&lo->op==O_EXTRACT&&hi->k[0]==lo->k[0]&&hi->aux==lo->aux+lo->width) return extract(hi->k[0],lo->aux,w);
    if (hi->op==O_CONCAT && lo->op==O_EXTRACT && hi->k[1]->op==O_EXTRACT && hi->k[1]->k[0]==lo->k[0] && hi->k[1]->aux==lo->aux+lo->width) return concat(hi->k[0],extract(lo->k[0],lo->aux,hi->k[1]->width+lo->width));
    if (hi->op==O_EXTRACT&&hi->aux==lo->width&&lo->op!=O_EXTRACT&&extract(hi->k[0],0,lo->width)==lo) return extract(hi->k[0],0,w);
    if (hi->op==O_CONCAT&&hi->k[1]->op==O_EXTRACT&&hi->k[1]->aux==lo->width&&lo->op!=O_EXTRACT&&extract(hi->k[1]->k[0],0,lo->width)==lo) return concat(hi->k[0],extract(hi->k[1]->k[0],0,hi->k[1]->width+lo->width));
    if (hi->op==O_ZEXT) return zext(concat(hi->k[0],lo),w);
    if (hi->op==O_CONCAT && hi->k[1]->isConst() && lo->isConst()) return concat(hi->k[0],konst((hi->k[1]->cval<<lo->width)|lo->cval,hi->k[1]->width+lo->width));
    Expr x; x.op=O_CONCAT; x.width=w; x.nk=2; x.k[0]=hi; x.k[1]=lo; return intern(x);
}
E Ctx::fbin(Op o, E a, E b) {
    bool cmp=o>=O_FOEQ&&o<=O_FUNO; unsigned rw=cmp?1:a->width;
    if (a->isConst()&&b->isConst()) return konst(fold(o,rw,a->width,a->cval,b->cval,0),rw);
    Expr x; x.op=o; x.width=rw; x.nk=2; x.k[0]=a; x.k[1]=b; return intern(x);
}
E Ctx::fconv(Op o, E a, unsigned w) {
    if (a->isConst()) return konst(fold(o,w,a->width,a->cval,0,0),w);
    Expr x; x.op=o; x.width=w; x.nk=1; x.k[0]=a; return intern(x);
}
E Ctx::rename(E e, const std::map<unsigned,E>& r, std::unordered_map<E,E>& memo) {
    bool dep=false; for (auto& p: r) dep|=e->syms->has(p.first); if (!dep) return e;
    if (e->op==O_SYM) return r.at(e->aux);
    auto it=memo.find(e); if (it!=memo.end()) return it->second;
    Expr x=*e; x.zbv=x.zbo=nullptr; x.ep=0; for (unsigned i=0;i<x.nk;++i) x.k[i]=rename(e->k[i],r,memo); E n=intern(x); memo[e]=n; return n;
}
u128 Ctx::ev(E e, const Model& m) {
    if (e->op==O_CONST) return e->cval;
    if (e->ep==epoch_) return e->ev;
    u128 r;
    switch (e->op) {
        case O_SYM: r=m.get(e->aux); break;
        case O_ITE: r=ev(e->k[0],m)? ev(e->k[1],m):ev(e->k[2],m); break;
        case O_CONCAT: r=(ev(e->k[0],m)<<e->k[1]->width)|ev(e->k[1],m); break;
        default: r=fold(e->op,e->width,e->k[0]->width,ev(e->k[0],m),e->nk>1?ev(e->k[1],m):0,e->aux); break;
    }
    r&=maskw(e->width);
    e->ep=epoch_; e->ev=r; return r;
}
static z3::expr mkc(z3::context& z, u128 v, unsigned w) {
    if (w<=64) return z.bv_val((uint64_t)v,w);
    z3::expr lo=z.bv_val((uint64_t)v,64), hi=z.bv_val((uint64_t)(v>>64),w-64);
    return z3::concat(hi,lo);
}
// sorts and rounding modes are kept referenced: results of the C API live only until the next call
static Z3_sort fpsort(z3::context& z, unsigned w) { static z3::sort* s[2]; if (!s[0]) { s[0]=new z3::sort(z,Z3_mk_fpa_sort_32(z)); s[1]=new z3::sort(z,Z3_mk_fpa_sort_64(z)); } return *s[w==64]; }
static Z3_ast fprm(z3::context& z, bool rtz) { static z3::expr* m[2]; if (!m[0]) { m[0]=new z3::expr(z,Z3_mk_fpa_rne(z)); m[1]=new z3::expr(z,Z3_mk_fpa_rtz(z)); } return *m[rtz]; }
z3::expr Ctx::fp(E e) {
    z3::expr b=bv(e);
    Z3_sort s=fpsort(z,e->width);
    return z3::expr(z,Z3_mk_fpa_to_fp_bv(z,b,s));
}
z3::expr Ctx::bo(E e) {
    assert(e->width==1);
    if (e->zbo) return z3::expr(z,e->zbo);
    z3::expr r(z);
    switch (e->op) {
        case O_CONST: r=z.bool_val(e->cval!=0); break;
        case O_AND: r=bo(e->k[0])&&bo(e->k[1]); break;
        case O_OR: r=bo(e->k[0])||bo(e->k[1]); break;
        case O_XOR: if (e->k[1]->isConst()) r=e->k[1]->cval? !bo(e->k[0]):bo(e->k[0]); else r=z3::expr(z,Z3_mk_xor(z,bo(e->k[0]),bo(e->k[1]))); break;
        case O_ITE: r=z3::ite(bo(e->k[0]),bo(e->k[1]),bo(e->k[2])); break;
        case O_EQ: if (e->k[0]->width==1) r=bo(e->k[0])==bo(e->k[1]); else r=bv(e->k[0])==bv(e->k[1]); break;
        case O_ULT: r=z3::ult(bv(e->k[0]),bv(e->k[1])); break;
        case O_SLT: r=bv(e->k[0])<bv(e->k[1]); break;
        case O_FOEQ: r=z3::expr(z,Z3_mk_fpa_eq(z,fp(e->k[0]),fp(e->k[1]))); break;
        case O_FOLT: r=z3::expr(z,Z3_mk_fpa_lt(z,fp(e->k[0]),fp(e->k[1]))); break;
        case O_FOLE: r=z3::expr(z,Z3_mk_fpa_leq(z,fp(e->k[0]),fp(e->k[1]))); break;
        case O_FUNO: r=z3::expr(z,Z3_mk_fpa_is_nan(z,fp(e->k[0])))||z3::expr(z,Z3_mk_fpa_is_nan(z,fp(e->k[1]))); break;
        default: r=bv(e)==z.bv_val(1,1); break;
    }
    Z3_inc_ref(z,r); e->zbo=r; return r;
}
z3::expr Ctx::bv(E e) {
    if (e->zbv) return z3::expr(z,e->zbv);
    z3::expr r(z);
    auto RNE=[&]{ return fprm(z,false); };
    auto back=[&](Z3_ast a){ z3::expr f(z,a); return z3::expr(z,Z3_mk_fpa_to_ieee_bv(z,f)); };
    auto fsort=[&](unsigned w){ return fpsort(z,w); };
    if (e->width==1 && e->op!=O_SYM && e->op!=O_EXTRACT && e->op!=O_CONST) r=z3::ite(bo(e),z.bv_val(1,1),z.bv_val(0,1));
    else switch (e->op) {
        case O_CONST: r=mkc(z,e->cval,e->width); break;
        case O_SYM: r=z.bv_const(("s"+std::to_string(e->aux)).c_str(),8); break;
        case O_ADD: r=bv(e->k[0])+bv(e->k[1]); break;
        case O_SUB: r=bv(e->k[0])-bv(e->k[1]); break;
        case O_MUL: r=bv(e->k[0])*bv(e->k[1]); break;
        case O_UDIV: r=z3::udiv(bv(e->k[0]),bv(e->k[1])); break;
        case O_SDIV: r=bv(e->k[0])/bv(e->k[1]); break;
        case O_UREM: r=z3::urem(bv(e->k[0]),bv(e->k[1])); break;
        case O_SREM: r=z3::srem(bv(e->k[0]),bv(e->k[1])); break;
        case O_AND: r=bv(e->k[0])&bv(e->k[1]); break;
        case O_OR: r=bv(e->k[0])|bv(e->k[1]); break;
        case O_XOR: r=bv(e->k[0])^bv(e->k[1]); break;
        case O_SHL: r=z3::shl(bv(e->k[0]),bv(e->k[1])); break;
        case O_LSHR: r=z3::lshr(bv(e->k[0]),bv(e->k[1])); break;
        case O_ASHR: r=z3::ashr(bv(e->k[0]),bv(e->k[1])); break;
        case O_ITE: r=z3::ite(bo(e->k[0]),bv(e->k[1]),bv(e->k[2])); break;
        case O_ZEXT: r=z3::zext(bv(e->k[0]),e->width-e->k[0]->width); break;
        case O_SEXT: r=z3::sext(bv(e->k[0]),e->width-e->k[0]->width); break;
        case O_EXTRACT: r=bv(e->k[0]).extract(e->aux+e->width-1,e->aux); break;
        case O_CONCAT: r=z3::concat(bv(e->k[0]),bv(e->k[1])); break;
        case O_FADD: r=back(Z3_mk_fpa_add(z,z3::expr(z,RNE()),fp(e->k[0]),fp(e->k[1]))); break;
        case O_FSUB: r=back(Z3_mk_fpa_sub(z,z3::expr(z,RNE()),fp(e->k[0]),fp(e->k[1]))); break;
        case O_FMUL: r=back(Z3_mk_fpa_mul(z,z3::expr(z,RNE()),fp(e->k[0]),fp(e->k[1]))); break;
        case O_FDIV: r=back(Z3_mk_fpa_div(z,z3::expr(z,RNE()),fp(e->k[0]),fp(e->k[1]))); break;
        case O_FPEXT: case O_FPTRUNC: r=back(Z3_mk_fpa_to_fp_float(z,z3::expr(z,RNE()),fp(e->k[0]),fsort(e->width))); break;
        case O_SITOFP: r=back(Z3_mk_fpa_to_fp_signed(z,z3::expr(z,RNE()),bv(e->k[0]),fsort(e->width))); break;
        case O_UITOFP: r=back(Z3_mk_fpa_to_fp_unsigned(z,z3::expr(z,RNE()),bv(e->k[0]),fsort(e->width))); break;
        case O_FPTOSI: r=z3::expr(z,Z3_mk_fpa_to_sbv(z,z3::expr(z,fprm(z,true)),fp(e->k[0]),e->width)); break;
        case O_FPTOUI: r=z3::expr(z,Z3_mk_fpa_to_ubv(z,z3::expr(z,fprm(z,true)),fp(e->k[0]),e->width)); break;
        default: fprintf(stderr,"symx: bv lowering of op %d\n",e->op); _exit(3);
    }
    Z3_inc_ref(z,r); e->zbv=r; return r;
}
std::string Ctx::str(E e, int d) {
    static const char* N[]={"c","s","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","a>>","==","u<","u<=","s<","s<=","ite","zext","sext","ext","cat","f+","f-","f*","f/","f==","f<","f<=","uno","fpext","fptrunc","si2f","ui2f","f2si","f2ui","tuple"};
    char b[64];
    if (e->op==O_CONST) { snprintf(b,sizeof b,"%llx:%u",(unsigned long long)e->cval,e->width); return b; }
    if (e->op==O_SYM) { return "s"+std::to_string(e->aux); }
    if (!d) return "...";
    std::string r="("; r+=N[e->op]; if (e->op==O_EXTRACT) { snprintf(b,sizeof b,"[%u+%u]",e->aux,e->width); r+=b; } 
    for (unsigned i=0;i<e->nk;++i) r+=" "+str(e->k[i],d-1);
    return r+")";
}
}
