// symx expression DAG: hash-consed bit-vector terms with simplification, evaluation and z3 lowering.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <deque>
#include <cassert>
#include <memory>
#include <algorithm>

namespace sx {

using u128 = unsigned __int128;
using i128 = __int128;

enum Op : uint8_t {
    O_CONST, O_SYM,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
    O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
    O_TUPLE
};

constexpr unsigned MAXSYM = 512;
struct SymSet {
    uint64_t w[MAXSYM/64] = {};
    bool empty() const { for (auto x: w) if (x) return false; return true; }
    bool inter(const SymSet& o) const { for (unsigned i=0;i<MAXSYM/64;++i) if (w[i]&o.w[i]) return true; return false; }
    void add(const SymSet& o) { for (unsigned i=0;i<MAXSYM/64;++i) w[i]|=o.w[i]; }
    void set(unsigned i) { w[i/64] |= 1ull<<(i%64); }
    bool has(unsigned i) const { return w[i/64]>>(i%64)&1; }
    bool operator==(const SymSet& o) const { return !memcmp(w,o.w,sizeof w); }
};

struct Expr;
using E = Expr*;
struct Expr {
    Op op; bool isFP=false; uint16_t width; uint32_t id;
    uint32_t aux=0;          // extract offset / symbol index
    uint32_t nk=0;
    u128 cval=0;
    E k[3] = {nullptr,nullptr,nullptr};
    const SymSet* syms=nullptr;
    Z3_ast zbv=nullptr, zbo=nullptr;
    uint32_t ep=0; u128 ev=0;
    u128 lo=0, hi=0;         // unsigned bounds of the value, derived structurally
    std::vector<E>* tup=nullptr;
    bool isConst() const { return op==O_CONST; }
    uint64_t c64() const { return (uint64_t)cval; }
    bool isTrue() const { return op==O_CONST && cval!=0; }
    bool isFalse() const { return op==O_CONST && cval==0; }
};

struct SymInfo { std::string name; bool uninit=false; };

inline u128 maskw(unsigned w) { return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline i128 sx(u128 v, unsigned w) { if (w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

struct Model { // assignment of symbol bytes
    std::vector<uint8_t> v;
    uint8_t get(unsigned i) const { return i<v.size()? v[i]:0; }
    void set(unsigned i,uint8_t x) { if (i>=v.size()) v.resize(i+1,0); v[i]=x; }
};

class Ctx {
public:
    z3::context z;
    std::vector<SymInfo> syms;
    std::deque<Expr> pool;
    Ctx();
    E rename(E e, const std::map<unsigned,E>& r, std::unordered_map<E,E>& memo);
    E konst(u128 v, unsigned w);
    E tru() { return t_; } E fls() { return f_; }
    E boolE(bool b) { return b?t_:f_; }
    E sym(unsigned idx);
    unsigned newSym(const std::string& name, bool uninit) {
        // symbols are identified by index per path position; caller manages reuse
        syms.push_back({name,uninit}); return (unsigned)syms.size()-1; }
    E bin(Op o, E a, E b);
    E notE(E a) { return bin(O_XOR,a,konst(1,1)); }
    E ite(E c, E a, E b);
    E zext(E a, unsigned w); E sext(E a, unsigned w); E trunc(E a, unsigned w) { return extract(a,0,w); }
    E extract(E a, unsigned off, unsigned w);
    E concat(E hi, E lo);
    E fbin(Op o, E a, E b);
    E fconv(Op o, E a, unsigned w);
    E tuple(std::vector<E> v) { pool.emplace_back(); Expr& e=pool.back(); e.op=O_TUPLE; e.width=0; e.id=nid_++; e.tup=new std::vector<E>(std::move(v)); return &e; }
    u128 eval(E e, const Model& m) { ++epoch_; return ev(e,m); }
    z3::expr bv(E e); z3::expr bo(E e);
    static u128 fold(Op o, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux);
    std::string str(E e, int depth=6);
private:
    E intern(Expr& x);
    void bounds(E e);
    bool linear(E e, u128 c, std::vector<std::pair<E,u128>>& t, u128& k); E fromLinear(std::vector<std::pair<E,u128>>& t, u128 k, unsigned w); E divLinear(E a, E b, bool quot);
public: bool lin(E e, std::vector<std::pair<E,u128>>& t, u128& k) { return linear(e,1,t,k); } private:
    u128 ev(E e, const Model& m);
    E t_,f_; uint32_t nid_=1; uint32_t epoch_=0;
    std::vector<E> byteConst_; E ccache_[4096]={};
    std::unordered_map<uint64_t,std::vector<E>> tab_;
    std::unordered_map<uint64_t,std::vector<const SymSet*>> sets_;
    std::deque<SymSet> setpool_;
    const SymSet* empty_;
    const SymSet* internSet(const SymSet& s);
    std::vector<E> symE_;
    z3::expr fp(E e);
};

}
