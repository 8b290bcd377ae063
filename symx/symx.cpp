// symx: symbolic executor for LLVM IR. See ../DESIGN.md for what it does and does not model.
#include <cmath>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <functional>
#include <chrono>
using namespace sx;
namespace L = llvm;
using std::string; using std::vector; using std::shared_ptr;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Ctx* C;

// ---------------------------------------------------------------- program
struct Opnd { int32_t reg=-1; E c=nullptr; };
struct PFunc;
enum Kind : uint8_t { K_BIN, K_FBIN, K_ICMP, K_FCMP, K_SELECT, K_CAST, K_FCONV, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_CALL, K_RET, K_BR, K_CBR, K_SWITCH,
    K_UNREACH, K_EXTRACTV, K_INSERTV, K_FREEZE, K_FNEG, K_VEC, K_VBITCAST, K_EXTELT, K_INSELT, K_SHUF, K_UNSUP };
struct PInst {
    Kind kind, lane=K_UNSUP; uint8_t sub=0; Op op=O_ADD; bool neg=false, swp=false, voidp=false; uint16_t width=0; int32_t dst=-1;
    vector<Opnd> ops; L::Type* ty=nullptr; L::Type* ty2=nullptr; const L::Instruction* I=nullptr;
    int64_t gconst=0; vector<int64_t> scale;
    vector<int> tgt; vector<u128> cases; PFunc* callee=nullptr; int iid=0; uint32_t id=0; vector<unsigned> idx; vector<uint64_t> byval;
};
struct Phi { int32_t dst; vector<std::pair<int,Opnd>> in; };
struct PBlock { vector<Phi> phis; vector<PInst> insts; };
struct PFunc { string name; const L::Function* F=nullptr; int nregs=0, nargs=0; vector<PBlock> blocks; int builtin=0; uint64_t addr=0; };

struct Obj { uint64_t addr, size; vector<E> b; uint8_t kind; bool freed=false, ro=false; string* tag=nullptr; };
enum { G_GLOBAL, G_HEAP, G_STACK };
using ObjP = shared_ptr<Obj>;

struct Frame { PFunc* f; int blk=0, prev=-1, ip=0; vector<E> r; int retDst=-1; uint16_t retW=0; size_t smark=0; };
struct SymRec { bool choice; string name; unsigned first=0, n=0; int64_t val=0; bool uninit=false; };
struct State {
    vector<shared_ptr<Frame>> fr; vector<ObjP> heap, stack; std::map<uint64_t,ObjP> gl; // gl: only modified globals
    vector<E> pc; Model m; vector<SymRec> syms; vector<char> unin; unsigned nsym=0; uint64_t hnext=0x100000000ull, snext=0x7f0000000000ull;
    uint64_t steps=0; int entry=0, allow=0; size_t leakmark=SIZE_MAX; vector<std::pair<string,E>> outs; unsigned forks=0; bool initdone=false; unsigned conc=0;
};

static L::LLVMContext LC; static std::unique_ptr<L::Module> M; static const L::DataLayout* DL;
static std::map<const L::Function*,PFunc*> pf; static std::map<uint64_t,PFunc*> pfAddr; static std::map<const L::GlobalVariable*,uint64_t> gaddr;
static vector<ObjP> globals; // sorted by addr
static vector<const L::Instruction*> allInst; static uint8_t* executed;
static vector<string> entries; static vector<PFunc*> entryF; static PFunc* initF=nullptr;

static struct Opt { int jobs=8; double timeout=300, qto=20; uint64_t maxsteps=4000000; string out="out.json"; int tier=0; string srcroot="/repo/src"; int samples=6; bool verbose=false; double aftererr=20; uint64_t maxalloc=262144; bool stopfirst=false; } opt;

struct Shared { std::atomic<int> active; std::atomic<int> seq; std::atomic<int> stop; std::atomic<double> firstErr; std::atomic<long> paths; };
static Shared* sh; static double tstart; static string tmpdir;

// ---------------------------------------------------------------- results
struct ErrRec { int entry; string kind,msg,loc; vector<string> inputs; };
struct Stats { uint64_t instrs=0, queries=0, qhits=0, qsat=0, qunsat=0, qunk=0, paths=0, errpaths=0; double qtime=0; };
static Stats S; static vector<ErrRec> errs; static std::map<string,int> errCount; static std::map<string,std::map<string,uint64_t>> reach; static std::map<string,uint64_t> incon; 
static std::map<int,std::array<uint64_t,3>> epaths; // per entry: completed, error, inconclusive
static std::map<int,vector<string>> samples; static std::map<int,uint64_t> sampleSeen;
static uint64_t unexplored=0;

static string jstr(const string& s) { string r="\""; for (unsigned char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }

// ---------------------------------------------------------------- memory of constants
static unsigned szStore(L::Type* t) { return (unsigned)DL->getTypeStoreSize(t); }
static unsigned bitw(L::Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16;
    return 0;
}
static uint64_t addrOf(const L::GlobalValue* g);
static E constE(const L::Constant* c);
static E zeroOf(L::Type* t) {
    if (unsigned w=bitw(t)) return C->konst(0,w);
    vector<E> v;
    if (auto st=L::dyn_cast<L::StructType>(t)) for (auto e: st->elements()) v.push_back(zeroOf(e));
    else if (auto at=L::dyn_cast<L::ArrayType>(t)) v.assign(at->getNumElements(),zeroOf(at->getElementType()));
    else if (auto vt=L::dyn_cast<L::FixedVectorType>(t)) v.assign(vt->getNumElements(),zeroOf(vt->getElementType()));
    return C->tuple(v);
}
static uint64_t constInt(const L::Constant* c) { E e=constE(c); return e->c64(); }
static E constE(const L::Constant* c) {
    L::Type* t=c->getType();
    if (auto ci=L::dyn_cast<L::ConstantInt>(c)) { auto& v=ci->getValue(); u128 x=v.getRawData()[0]; if (v.getBitWidth()>64) x|=(u128)v.getRawData()[1]<<64; return C->konst(x,v.getBitWidth()); }
    if (auto cf=L::dyn_cast<L::ConstantFP>(c)) { auto v=cf->getValueAPF().bitcastToAPInt(); u128 x=v.getRawData()[0]; if (v.getBitWidth()>64) x|=(u128)v.getRawData()[1]<<64; return C->konst(x,v.getBitWidth()); }
    if (L::isa<L::UndefValue>(c) || c->isNullValue()) return zeroOf(t);
    if (auto g=L::dyn_cast<L::GlobalValue>(c)) return C->konst(addrOf(g),64);
    if (auto ce=L::dyn_cast<L::ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case L::Instruction::GetElementPtr: { L::APInt off(64,0); auto gep=L::cast<L::GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL,off)) break; return C->konst(constInt(L::cast<L::Constant>(gep->getPointerOperand()))+(uint64_t)off.getSExtValue(),64); }
            case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::Trunc: case L::Instruction::ZExt: return C->konst(constInt(ce->getOperand(0)),bitw(t));
            case L::Instruction::Sub: return C->konst(constInt(ce->getOperand(0))-constInt(ce->getOperand(1)),bitw(t));
            case L::Instruction::Add: return C->konst(constInt(ce->getOperand(0))+constInt(ce->getOperand(1)),bitw(t));
            default: break;
        }
        L::errs()<<"symx: constant expression "<<*ce<<"\n"; _exit(3);
    }
    if (auto ca=L::dyn_cast<L::ConstantAggregate>(c)) { vector<E> v; for (unsigned i=0;i<ca->getNumOperands();++i) v.push_back(constE(ca->getOperand(i))); return C->tuple(v); }
    if (auto cd=L::dyn_cast<L::ConstantDataSequential>(c)) { vector<E> v; for (unsigned i=0;i<cd->getNumElements();++i) v.push_back(constE(cd->getElementAsConstant(i))); return C->tuple(v); }
    L::errs()<<"symx: constant "<<*c<<"\n"; _exit(3);
}
static void putBytes(vector<E>& b, uint64_t off, L::Type* t, E e) {
    if (e->op!=O_TUPLE) { unsigned n=szStore(t), w=e->width; E x= w<n*8? C->zext(e,n*8):e; for (unsigned i=0;i<n;++i) b[off+i]=C->extract(x,i*8,8); return; }
    auto& v=*e->tup;
    if (auto st=L::dyn_cast<L::StructType>(t)) { auto sl=DL->getStructLayout(st); for (unsigned i=0;i<v.size();++i) putBytes(b,off+sl->getElementOffset(i),st->getElementType(i),v[i]); return; }
    L::Type* et= t->isArrayTy()? t->getArrayElementType() : L::cast<L::VectorType>(t)->getElementType();
    uint64_t sz=DL->getTypeAllocSize(et); for (unsigned i=0;i<v.size();++i) putBytes(b,off+i*sz,et,v[i]);
}
static uint64_t gnext=0x10000, fnext=0x400000000ull;
static uint64_t addrOf(const L::GlobalValue* g) {
    if (auto a=L::dyn_cast<L::GlobalAlias>(g)) return addrOf(L::cast<L::GlobalValue>(a->getAliasee()->stripPointerCasts()));
    if (auto f=L::dyn_cast<L::Function>(g)) { auto p=pf[f]; if (!p) { p=new PFunc; p->name=f->getName().str(); p->F=f; p->addr=fnext; fnext+=64; pf[f]=p; pfAddr[p->addr]=p; } return p->addr; }
    auto v=L::cast<L::GlobalVariable>(g); auto it=gaddr.find(v); if (it!=gaddr.end()) return it->second;
    uint64_t sz=DL->getTypeAllocSize(v->getValueType()); gnext=(gnext+63)&~63ull; uint64_t a=gnext; gnext+=sz+64; gaddr[v]=a; return a;
}
static void initGlobals() {
    for (auto& g: M->globals()) addrOf(&g);
    for (auto& g: M->globals()) {
        auto o=std::make_shared<Obj>(); o->addr=gaddr[&g]; o->size=DL->getTypeAllocSize(g.getValueType()); o->kind=G_GLOBAL; o->ro=g.isConstant(); o->b.assign(o->size,nullptr);
        if (g.hasInitializer()) { E z=C->konst(0,8); for (auto& x: o->b) x=z; if (!L::isa<L::ConstantAggregateZero>(g.getInitializer())) putBytes(o->b,0,g.getValueType(),constE(g.getInitializer())); }
        o->tag=new string(g.getName().str()); globals.push_back(o);
    }
    std::sort(globals.begin(),globals.end(),[](const ObjP& a,const ObjP& b){ return a->addr<b->addr; });
}

// ---------------------------------------------------------------- translation
static std::map<string,int> builtins;
enum { B_NONE, B_SYMBOLIC, B_RANGE, B_ASSUME, B_ASSERT, B_KNOWN, B_REACH, B_OUT, B_BOUND, B_ALLOW, B_CONCRETE, B_NOLEAK, B_ENGINE,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_DELETE, B_DELSIZE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_THROW, B_ABORT, B_NOP, B_PUREV, B_EXTERNAL };
static void initBuiltins() {
    auto& b=builtins;
    b["sx_symbolic"]=B_SYMBOLIC; b["sx_range"]=B_RANGE; b["sx_assume"]=B_ASSUME; b["sx_assert"]=B_ASSERT; b["sx_known"]=B_KNOWN; b["sx_reach"]=B_REACH; b["sx_out"]=B_OUT; b["sx_bound"]=B_BOUND; b["sx_allow"]=B_ALLOW; b["sx_concrete"]=B_CONCRETE; b["sx_noleak"]=B_NOLEAK; b["sx_engine"]=B_ENGINE;
    for (auto n: {"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"}) b[n]=B_MALLOC;
    b["_ZnwmSt11align_val_t"]=B_MALLOC; b["calloc"]=B_CALLOC; b["realloc"]=B_REALLOC; b["free"]=B_FREE;
    for (auto n: {"_ZdlPv","_ZdaPv","_ZdlPvSt11align_val_t"}) b[n]=B_DELETE; for (auto n: {"_ZdlPvm","_ZdaPvm","_ZdlPvmSt11align_val_t"}) b[n]=B_DELSIZE;
    b["memcpy"]=b["memmove"]=B_MEMCPY; b["memset"]=B_MEMSET; b["memcmp"]=b["bcmp"]=B_MEMCMP;
    b["abort"]=b["__assert_fail"]=b["_ZSt9terminatev"]=b["__cxa_throw"]=b["exit"]=b["__cxa_pure_virtual"]=b["_ZSt21__glibcxx_assert_failPKciS0_S0_"]=B_ABORT;
    b["__cxa_atexit"]=B_NOP;
}
struct Xlat {
    PFunc* p; std::map<const L::Value*,int> reg; std::map<const L::BasicBlock*,int> bb;
    Opnd op(const L::Value* v) {
        Opnd o; if (auto c=L::dyn_cast<L::Constant>(v)) { o.c=constE(c); return o; }
        if (L::isa<L::MetadataAsValue>(v)||L::isa<L::BasicBlock>(v)||L::isa<L::InlineAsm>(v)) { o.c=C->konst(0,1); return o; }
        o.reg=reg.at(v); return o;
    }
    void run() {
        const L::Function& F=*p->F; int n=0;
        for (auto& a: F.args()) reg[&a]=n++; p->nargs=n;
        int bi=0; for (auto& B: F) { bb[&B]=bi++; for (auto& I: B) if (!I.getType()->isVoidTy()) reg[&I]=n++; }
        p->nregs=n; p->blocks.resize(bi);
        for (auto& B: F) { auto& pb=p->blocks[bb[&B]];
            for (auto& I: B) {
                if (auto ph=L::dyn_cast<L::PHINode>(&I)) { Phi x; x.dst=reg[ph]; for (unsigned i=0;i<ph->getNumIncomingValues();++i) x.in.push_back({bb[ph->getIncomingBlock(i)],op(ph->getIncomingValue(i))}); pb.phis.push_back(x); continue; }
                if (L::isa<L::DbgInfoIntrinsic>(I)) continue;
                pb.insts.emplace_back(); inst(pb.insts.back(),I);
                pb.insts.back().id=allInst.size(); allInst.push_back(&I);
            } }
    }
    void inst(PInst& q, const L::Instruction& I) {
        q.I=&I; q.dst=I.getType()->isVoidTy()?-1:reg[&I]; q.width=bitw(I.getType()); q.kind=K_UNSUP; q.ty=I.getType();
        for (auto& u: I.operands()) q.ops.push_back(op(u));
        auto lw=[&](L::Type* t){ auto v=L::dyn_cast<L::FixedVectorType>(t); return v? bitw(v->getElementType()) : 0u; };
        bool vec=false; auto scal=[&](unsigned i){ L::Type* t=I.getOperand(i)->getType(); if (bitw(t)) return true; if (lw(t)) { vec=true; return true; } return false; };
        struct Fin { PInst& q; bool& v; unsigned w; ~Fin() { if (v && q.kind!=K_UNSUP) { q.lane=q.kind; q.kind=K_VEC; q.width=w; } } } fin{q,vec,lw(I.getType())};
        using T=L::Instruction;
        switch (I.getOpcode()) {
        case T::Add: q.op=O_ADD; goto bin; case T::Sub: q.op=O_SUB; goto bin; case T::Mul: q.op=O_MUL; goto bin; case T::UDiv: q.op=O_UDIV; goto bin; case T::SDiv: q.op=O_SDIV; goto bin;
        case T::URem: q.op=O_UREM; goto bin; case T::SRem: q.op=O_SREM; goto bin; case T::And: q.op=O_AND; goto bin; case T::Or: q.op=O_OR; goto bin; case T::Xor: q.op=O_XOR; goto bin;
        case T::Shl: q.op=O_SHL; goto bin; case T::LShr: q.op=O_LSHR; goto bin; case T::AShr: q.op=O_ASHR; goto bin;
        bin: if (scal(0)) q.kind=K_BIN; break;
        case T::FAdd: q.op=O_FADD; goto fb; case T::FSub: q.op=O_FSUB; goto fb; case T::FMul: q.op=O_FMUL; goto fb; case T::FDiv: q.op=O_FDIV; goto fb;
        fb: if (scal(0)&&(q.width||vec)&&q.width<=64) q.kind=K_FBIN; break;
        case T::FNeg: if (scal(0)) q.kind=K_FNEG; break;
        case T::ICmp: { if (!scal(0)) break; q.kind=K_ICMP; auto pr=L::cast<L::ICmpInst>(I).getPredicate();
            switch (pr) { case L::CmpInst::ICMP_EQ: q.op=O_EQ; break; case L::CmpInst::ICMP_NE: q.op=O_EQ; q.neg=true; break;
                case L::CmpInst::ICMP_ULT: q.op=O_ULT; break; case L::CmpInst::ICMP_ULE: q.op=O_ULE; break; case L::CmpInst::ICMP_UGT: q.op=O_ULT; q.swp=true; break; case L::CmpInst::ICMP_UGE: q.op=O_ULE; q.swp=true; break;
                case L::CmpInst::ICMP_SLT: q.op=O_SLT; break; case L::CmpInst::ICMP_SLE: q.op=O_SLE; break; case L::CmpInst::ICMP_SGT: q.op=O_SLT; q.swp=true; break; case L::CmpInst::ICMP_SGE: q.op=O_SLE; q.swp=true; break; default: q.kind=K_UNSUP; } break; }
        case T::FCmp: { if (!scal(0)||bitw(I.getOperand(0)->getType())>64) break; q.kind=K_FCMP; q.sub=L::cast<L::FCmpInst>(I).getPredicate(); break; }
        case T::Select: q.kind=K_SELECT; if (!scal(0)) q.kind=K_UNSUP; if (lw(I.getType())) vec=true; break;
        case T::ZExt: q.sub=1; q.kind=scal(0)?K_CAST:K_UNSUP; break; case T::SExt: q.sub=2; q.kind=scal(0)?K_CAST:K_UNSUP; break;
        case T::BitCast: if (lw(I.getType())||lw(I.getOperand(0)->getType())) { q.kind=K_VBITCAST; break; } [[fallthrough]];
        case T::Trunc: case T::PtrToInt: case T::IntToPtr: q.sub=3; q.kind=(scal(0)&&(q.width||vec))?K_CAST:K_UNSUP; break;
        case T::ExtractElement: q.kind=K_EXTELT; break; case T::InsertElement: q.kind=K_INSELT; break;
        case T::ShuffleVector: q.kind=K_SHUF; for (int i: L::cast<L::ShuffleVectorInst>(I).getShuffleMask()) q.scale.push_back(i); break;
        case T::FPExt: q.op=O_FPEXT; goto fc; case T::FPTrunc: q.op=O_FPTRUNC; goto fc; case T::SIToFP: q.op=O_SITOFP; goto fc; case T::UIToFP: q.op=O_UITOFP; goto fc; case T::FPToSI: q.op=O_FPTOSI; goto fc; case T::FPToUI: q.op=O_FPTOUI; goto fc;
        fc: if (scal(0)&&q.width<=64&&bitw(I.getOperand(0)->getType())<=64) q.kind=K_FCONV; break;
        case T::Load: q.kind=K_LOAD; break; case T::Store: q.kind=K_STORE; q.ty=I.getOperand(0)->getType(); break;
        case T::Alloca: { q.kind=K_ALLOCA; q.gconst=DL->getTypeAllocSize(L::cast<L::AllocaInst>(I).getAllocatedType()); break; }
        case T::GetElementPtr: {
            auto& G=L::cast<L::GetElementPtrInst>(I); if (!bitw(G.getType())) break; q.kind=K_GEP; Opnd base=op(G.getPointerOperand()); q.ops.clear(); q.ops.push_back(base); q.gconst=0;
            for (auto gi=L::gep_type_begin(G);gi!=L::gep_type_end(G);++gi) {
                if (auto st=gi.getStructTypeOrNull()) { q.gconst+=DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
                int64_t sz=DL->getTypeAllocSize(gi.getIndexedType());
                if (auto ci=L::dyn_cast<L::ConstantInt>(gi.getOperand())) q.gconst+=ci->getSExtValue()*sz; else { q.ops.push_back(op(gi.getOperand())); q.scale.push_back(sz); }
            } break; }
        case T::Br: { auto& b=L::cast<L::BranchInst>(I); if (b.isConditional()) { q.kind=K_CBR; Opnd c=op(b.getCondition()); q.ops={c}; q.tgt={bb[b.getSuccessor(0)],bb[b.getSuccessor(1)]}; } else { q.kind=K_BR; q.tgt={bb[b.getSuccessor(0)]}; } break; }
        case T::Switch: { auto& s=L::cast<L::SwitchInst>(I); q.kind=K_SWITCH; Opnd c=op(s.getCondition()); q.ops={c}; q.tgt={bb[s.getDefaultDest()]}; for (auto& cs: s.cases()) { q.cases.push_back(constE(cs.getCaseValue())->cval); q.tgt.push_back(bb[cs.getCaseSuccessor()]); } break; }
        case T::Ret: q.kind=K_RET; break; case T::Unreachable: q.kind=K_UNREACH; break;
        case T::ExtractValue: q.kind=K_EXTRACTV; for (auto i: L::cast<L::ExtractValueInst>(I).indices()) q.idx.push_back(i); break;
        case T::InsertValue: q.kind=K_INSERTV; for (auto i: L::cast<L::InsertValueInst>(I).indices()) q.idx.push_back(i); break;
        case T::Freeze: q.kind=K_FREEZE; break;
        case T::Call: {
            auto& c=L::cast<L::CallInst>(I); q.kind=K_CALL; q.ops.clear(); for (auto& a: c.args()) q.ops.push_back(op(a)); q.ops.push_back(op(c.getCalledOperand()));
            for (unsigned i=0;i<c.arg_size();++i) q.byval.push_back(c.isByValArgument(i)? DL->getTypeAllocSize(c.getParamByValType(i)):0);
            if (auto f=c.getCalledFunction()) { q.iid=f->getIntrinsicID(); addrOf(f); q.callee=pf[f]; }
            else if (auto f=L::dyn_cast<L::Function>(c.getCalledOperand()->stripPointerCastsAndAliases())) { addrOf(f); q.callee=pf[f]; }
            break; }
        default: break;
        }
    }
};
static void translate() {
    for (auto& F: *M) addrOf(&F);
    for (auto& F: *M) {
        PFunc* p=pf[&F]; auto it=builtins.find(p->name);
        if (it!=builtins.end()) { p->builtin=it->second; continue; }
        if (F.isDeclaration()) { p->builtin= p->name.find("__throw_")!=string::npos ? B_THROW : B_EXTERNAL; continue; }
        Xlat x; x.p=p; x.run();
        if (p->name.rfind("sx_entry_",0)==0) { }
    }
}

// ---------------------------------------------------------------- solver
struct CacheEnt { bool sat; vector<std::pair<unsigned,uint8_t>> mv; };
static std::unordered_map<u128,CacheEnt,std::function<size_t(const u128&)>> qcache(1<<16,[](const u128& k){ return (size_t)(k^(k>>64)); });
static vector<Model> recent; static size_t recentPos=0;
static Z3_solver zs=nullptr; static unsigned zsUses=0;
enum Res { UNSAT, SAT, UNK };
static Res zcheck(const vector<E>& cs, const SymSet& ss, bool fp, vector<std::pair<unsigned,uint8_t>>& mv) {
    double t0=now(); S.queries++;
    z3::solver s= fp ? z3::tactic(C->z,"qffp").mk_solver() : z3::solver(C->z,z3::solver::simple());
    if (!fp) { static std::unique_ptr<z3::solver> inc; if (!inc || ++zsUses>3000) { inc.reset(new z3::solver(C->z,z3::solver::simple())); zsUses=0; } s=*inc; s.push(); }
    z3::params p(C->z); p.set("rlimit",(unsigned)(opt.qto*(fp?2e6:4e5))); s.set(p); /* not "timeout": z3 timer threads do not survive fork() */
    for (E e: cs) s.add(C->bo(e));
    z3::check_result r; Res res=UNK;
    try { r=s.check(); } catch (z3::exception& ex) { fprintf(stderr,"z3: %s\n",ex.msg()); r=z3::unknown; }
    if (r==z3::sat) {
        res=SAT; z3::model m=s.get_model();
        for (unsigned i=0;i<MAXSYM;++i) if (ss.has(i)) { z3::expr v=m.eval(C->bv(C->sym(i)),true); mv.push_back({i,(uint8_t)v.get_numeral_uint64()}); }
        S.qsat++;
    } else if (r==z3::unsat) { res=UNSAT; S.qunsat++; } else S.qunk++;
    if (!fp) s.pop();
    if (res==UNK && !fp) { // once more, with preprocessing and the SAT engine
        z3::solver q=z3::tactic(C->z,"qfbv").mk_solver(); z3::params p2(C->z); p2.set("rlimit",(unsigned)(opt.qto*1e7)); q.set(p2); for (E e: cs) q.add(C->bo(e));
        try { r=q.check(); } catch (z3::exception& ex) { fprintf(stderr,"z3: %s\n",ex.msg()); r=z3::unknown; }
        if (r==z3::sat) { res=SAT; z3::model m=q.get_model(); for (unsigned i=0;i<MAXSYM;++i) if (ss.has(i)) { z3::expr v=m.eval(C->bv(C->sym(i)),true); mv.push_back({i,(uint8_t)v.get_numeral_uint64()}); } S.qsat++; S.qunk--; }
        else if (r==z3::unsat) { res=UNSAT; S.qunsat++; S.qunk--; }
    }
    S.qtime+=now()-t0;
    if (opt.verbose && now()-t0>1) { fprintf(stderr,"slow query %.1fs res %d\n",now()-t0,(int)res); for (E e: cs) fprintf(stderr,"   %s\n",C->str(e,opt.verbose?60:30).substr(0,getenv("SYMX_LONG")?200000:1500).c_str()); }
    return res;
}
// is pc && c satisfiable?  On SAT *out is a model of the whole pc plus c.
static Res check(const State& st, E c, Model* out) {
    if (c->isFalse()) return UNSAT;
    if (c->isTrue()) { if (out) *out=st.m; return SAT; }
    SymSet ss=*c->syms; vector<E> cs{c}; vector<char> in(st.pc.size(),0); E nc=C->notE(c);
    for (E e: st.pc) { if (e==nc) return UNSAT; }
    for (bool ch=true; ch;) { ch=false; for (size_t i=0;i<st.pc.size();++i) if (!in[i] && st.pc[i]->syms->inter(ss)) { in[i]=1; ss.add(*st.pc[i]->syms); cs.push_back(st.pc[i]); ch=true; } }
    vector<uint32_t> ids; bool fp=false; for (E e: cs) { ids.push_back(e->id); fp|=e->isFP; } std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
    u128 h=0x12345; for (auto i: ids) { h^=i; h*=((u128)0x9e3779b97f4a7c15ull<<64)|0xf39cc0605cedc835ull; h^=h>>61; }
    auto it=qcache.find(h);
    auto fill=[&](const vector<std::pair<unsigned,uint8_t>>& mv){ if (out) { *out=st.m; for (auto& p: mv) out->set(p.first,p.second); } };
    if (it!=qcache.end()) { S.qhits++; if (it->second.sat) { fill(it->second.mv); return SAT; } return UNSAT; }
    vector<std::pair<unsigned,uint8_t>> mv;
    // a recent model may already satisfy the slice
    for (auto& m: recent) { bool ok=true; for (E e: cs) if (!C->eval(e,m)) { ok=false; break; } if (ok) { for (unsigned i=0;i<MAXSYM;++i) if (ss.has(i)) mv.push_back({i,m.get(i)}); S.qhits++; fill(mv); return SAT; } }
    Res r=zcheck(cs,ss,fp,mv);
    if (r==UNK) return UNK;
    if (r==SAT) { Model m=st.m; for (auto& p: mv) m.set(p.first,p.second); for (E e: cs) if (!C->eval(e,m)) { fprintf(stderr,"symx: model does not satisfy the query: %s\n",C->str(e).c_str()); _exit(3); }
        if (recent.size()<12) recent.push_back(m); else recent[recentPos++%12]=m; }
    qcache[h]={r==SAT,mv}; if (r==SAT) fill(mv);
    return r;
}

// ---------------------------------------------------------------- exploration
static vector<State*> pend;
static State* cur;
struct EndPath {};
static void addPC(State& st, E c) {
    if (c->isTrue()) return;
    if (c->op==O_AND && c->width==1) { addPC(st,c->k[0]); addPC(st,c->k[1]); return; }
    for (E e: st.pc) if (e==c) return; st.pc.push_back(c);
}
static Frame& top(State& st) { auto& p=st.fr.back(); if (p.use_count()>1) p=std::make_shared<Frame>(*p); return *p; }
static string locOf(const State& st) {
    // the innermost position inside the sources under test, then the chain
    string first, chain; int n=0;
    for (size_t i=st.fr.size();i-->0 && n<6;) {
        const Frame& f=*st.fr[i]; if (f.f->blocks.empty()) continue; auto& bl=f.f->blocks[f.blk]; const PInst& in=bl.insts[std::min<size_t>(f.ip,bl.insts.size()-1)];
        for (const L::DILocation* dl=in.I->getDebugLoc().get(); dl && n<6; dl=dl->getInlinedAt()) {
            string fn=dl->getFilename().str(); auto* sp=dl->getScope()->getSubprogram(); string s=fn.substr(fn.rfind('/')+1)+":"+std::to_string(dl->getLine())+(sp?"("+sp->getName().str()+")":"");
            if (first.empty() && fn.rfind(opt.srcroot,0)==0) first=s; chain+=(chain.empty()?"":" < ")+s; ++n; }
    }
    return (first.empty()?string("?"):first)+" | "+chain;
}
static string replayOf(const State& st, const Model& m) {
    string r="entry "+entries[st.entry]+"\ntier "+std::to_string(opt.tier)+"\n";
    for (auto& s: st.syms) { if (s.uninit) continue; if (s.choice) r+="choice "+s.name+" "+std::to_string(s.val)+"\n"; else { r+="sym "+s.name+" "; char b[4]; for (unsigned i=0;i<s.n;++i) { snprintf(b,4,"%02x",m.get(s.first+i)); r+=b; } r+="\n"; } }
    return r;
}
static void report(State& st, const Model& m, const string& kind, const string& msg) {
    string loc=locOf(st); string l1=loc.substr(0,loc.find(" | ")); string key=std::to_string(st.entry)+"|"+kind+"|"+msg+"|"+l1;
    int& n=errCount[key]; n++;
    double z=0; if (kind.compare(0,6,"known:")!=0) sh->firstErr.compare_exchange_strong(z,now());
    if (n<=3) errs.push_back({st.entry,kind,msg,loc,{replayOf(st,m)}});
    if (opt.verbose) fprintf(stderr,"ERR %s %s %s\n%s",kind.c_str(),msg.c_str(),loc.c_str(),replayOf(st,m).c_str());
}
static void incons(State& st, const string& why) { incon[why+" @ "+locOf(st).substr(0,200)]++; }
[[noreturn]] static void fail(State& st, const string& kind, const string& msg) { report(st,st.m,kind,msg); S.errpaths++; epaths[st.entry][1]++; throw EndPath(); }
[[noreturn]] static void giveup(State& st, const string& why) { incons(st,why); epaths[st.entry][2]++; throw EndPath(); }
static State* forkState(State& st, E c, const Model& m) { State* n=new State(st); addPC(*n,c); n->m=m; n->forks++; pend.push_back(n); return n; }
static bool uninitDep(State& st, E c) { for (unsigned i=0;i<st.nsym;++i) if (st.unin[i] && c->syms->has(i)) return true; return false; }
static E symByte(State& st, const string& name, bool uninit);
// does the value of e really depend on uninitialised bytes on this path? (x && false with an uninitialised x does not)
static void checkUninit(State& st, E e, const char* msg) {
    if (!uninitDep(st,e)) return;
    std::map<unsigned,E> r; for (unsigned i=0,n=st.nsym;i<n;++i) if (st.unin[i] && e->syms->has(i)) r[i]=symByte(st,"uninit",true);
    std::unordered_map<E,E> memo; E d=C->rename(e,r,memo), ne=C->notE(C->bin(O_EQ,e,d)); Model m; Res q=check(st,ne,&m);
    if (q==SAT) report(st,m,"uninit",msg); else if (q==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; }
}
// decides c on the current path; pushes the other side (the caller sets up the other state)
static bool decide(State& st, E c, State** other) {
    *other=nullptr; if (c->isConst()) return c->cval!=0;
    checkUninit(st,c,"branch on uninitialised memory");
    bool v=C->eval(c,st.m)!=0; E nc= v? C->notE(c):c; Model m2; Res r=check(st,nc,&m2);
    if (r==SAT) *other=forkState(st,nc,m2);
    else if (r==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; }
    if (r!=UNSAT) addPC(st,v?c:C->notE(c));
    return v;
}
// single value for e on this path; other values are explored by re-executing the current instruction
static uint64_t concretize(State& st, E e) {
    if (e->isConst()) return e->c64();
    checkUninit(st,e,"address or size from uninitialised memory");
    u128 v=C->eval(e,st.m); E k=C->konst(v,e->width); E eq=C->bin(O_EQ,e,k); Model m2; Res r=check(st,C->notE(eq),&m2);
    if (r==SAT) forkState(st,C->notE(eq),m2);
    else if (r==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; }
    if (r!=UNSAT) addPC(st,eq);
    for (auto& x: top(st).r) if (x==e) x=k;
    return (uint64_t)v;
}
static E val(State& st, const Opnd& o) { return o.c? o.c : st.fr.back()->r[o.reg]; }

// ---------------------------------------------------------------- memory
static ObjP* findIn(vector<ObjP>& v, uint64_t a) {
    size_t lo=0,hi=v.size(); while (lo<hi) { size_t m=(lo+hi)/2; if (v[m]->addr<=a) lo=m+1; else hi=m; }
    if (!lo) return nullptr; ObjP& p=v[lo-1]; return a<=p->addr+p->size+31 ? &p : nullptr;   // includes the red zone, the caller checks bounds
}
static ObjP* findObj(State& st, uint64_t a) {
    if (a>=0x7f0000000000ull) return findIn(st.stack,a);
    if (a>=0x100000000ull) return a<0x400000000ull? findIn(st.heap,a):nullptr;
    ObjP* p=findIn(globals,a); if (!p) return nullptr; auto it=st.gl.find((*p)->addr); return it!=st.gl.end()? &it->second : p;
}
static Obj& writable(State& st, ObjP& p) {
    if (p->kind==G_GLOBAL) { auto& q=st.gl[p->addr]; if (!q) q=std::make_shared<Obj>(*p); else if (q.use_count()>1) q=std::make_shared<Obj>(*q); return *q; }
    if (p.use_count()>1) p=std::make_shared<Obj>(*p); return *p;
}
static string hexs(uint64_t v) { char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
static const char* kindName(const Obj& o) { return o.kind==G_HEAP?"heap":o.kind==G_STACK?"stack":"global"; }
// concrete access check
static ObjP& access(State& st, uint64_t a, uint64_t n, bool wr) {
    ObjP* p=findObj(st,a);
    if (!p) fail(st,"bad-pointer",string(wr?"write":"read")+(a<4096?" through null pointer":" through invalid pointer"));
    Obj& o=**p;
    if (o.freed) fail(st,"use-after-free",string(wr?"write to":"read from")+" freed heap object");
    if (a-o.addr>o.size || n>o.size-(a-o.addr)) fail(st,"out-of-bounds",string(wr?"write past ":"read past ")+kindName(o)+" object");
    if (wr && o.ro) fail(st,"write-const","write to constant");
    return *p;
}
static E symByte(State& st, const string& name, bool uninit) {
    if (st.nsym>=MAXSYM) { if (uninit) return C->konst(0,8); giveup(st,"too many symbols"); }
    unsigned i=st.nsym++; st.unin.push_back(uninit); st.m.set(i,0); if (uninit) st.syms.push_back({false,name,i,1,0,true}); return C->sym(i);
}
static E getByte(State& st, ObjP& p, uint64_t off) {
    E b=p->b[off]; if (b) return b;
    b=symByte(st,"uninit",true); writable(st,p).b[off]=b; return b;
}
static E rdInt(State& st, ObjP& p, uint64_t off, unsigned nbytes) {
    // all concrete?
    u128 v=0; bool cc=true; const auto& b=p->b; for (unsigned i=0;i<nbytes;++i) { E x=b[off+i]; if (!x||!x->isConst()) { cc=false; break; } v|=(u128)x->c64()<<(8*i); }
    if (cc) return C->konst(v,nbytes*8);
    E r=nullptr; uint64_t base=p->addr; (void)base;
    for (unsigned i=0;i<nbytes;++i) { E x=getByte(st,*findObj(st,p->addr),off+i); r= r? C->concat(x,r) : x; }
    return r;
}
static E loadTy(State& st, ObjP& p, uint64_t off, L::Type* t) {
    if (unsigned w=bitw(t)) { unsigned n=szStore(t); E e=rdInt(st,p,off,n); return w<n*8? C->trunc(e,w):e; }
    vector<E> v; uint64_t a=p->addr;
    if (auto s=L::dyn_cast<L::StructType>(t)) { auto sl=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();++i) v.push_back(loadTy(st,*findObj(st,a),off+sl->getElementOffset(i),s->getElementType(i))); return C->tuple(v); }
    L::Type* et; uint64_t n; if (t->isArrayTy()) { et=t->getArrayElementType(); n=t->getArrayNumElements(); } else { auto vt=L::cast<L::FixedVectorType>(t); et=vt->getElementType(); n=vt->getNumElements(); }
    uint64_t sz=DL->getTypeAllocSize(et); for (uint64_t i=0;i<n;++i) v.push_back(loadTy(st,*findObj(st,a),off+i*sz,et)); return C->tuple(v);
}
static unsigned tzOf(E e) {
    switch (e->op) { case O_CONST: { if (!e->cval) return e->width; unsigned n=0; while (!((e->cval>>n)&1)) ++n; return n; }
        case O_CONCAT: { unsigned t=tzOf(e->k[1]); return t==e->k[1]->width? t+tzOf(e->k[0]) : t; }
        case O_ZEXT: case O_SEXT: { unsigned t=tzOf(e->k[0]); return t==e->k[0]->width? e->width:t; }
        case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tzOf(e->k[0]),tzOf(e->k[1]));
        case O_AND: return std::max(tzOf(e->k[0]),tzOf(e->k[1]));
        case O_MUL: return std::min<unsigned>(e->width,tzOf(e->k[0])+tzOf(e->k[1]));
        case O_ITE: return std::min(tzOf(e->k[1]),tzOf(e->k[2]));
        default: return 0; }
}
static E mux(const vector<E>& v, size_t lo, size_t n, E idx, int bit) { // n = 2^(bit+1)
    if (bit<0) return v[lo];
    E a=mux(v,lo,n/2,idx,bit-1); if (lo+n/2>=v.size()) return a; E b=mux(v,lo+n/2,n/2,idx,bit-1);
    if (a==b) return a; return C->ite(C->extract(idx,bit,1),b,a);
}
static E doLoad(State& st, E A, L::Type* t) {
    unsigned n=szStore(t);
    if (A->isConst()) { ObjP& p=access(st,A->c64(),n,false); return loadTy(st,p,A->c64()-p->addr,t); }
    uint64_t a0=(uint64_t)C->eval(A,st.m); ObjP* p=findObj(st,a0);
    if (!p || !(*p)->ro || (*p)->freed || a0-(*p)->addr+n>(*p)->size || !bitw(t)) { uint64_t a=concretize(st,A); ObjP& q=access(st,a,n,false); return loadTy(st,q,a-q->addr,t); }
    Obj& o=**p; E off=C->bin(O_SUB,A,C->konst(o.addr,64)); E inb=C->bin(O_ULE,off,C->konst(o.size-n,64)); Model m2;
    if (!inb->isTrue()) { Res r=check(st,C->notE(inb),&m2); if (r==SAT) forkState(st,C->notE(inb),m2); else if (r==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; } if (r!=UNSAT) addPC(st,inb); }
    unsigned tz=std::min(tzOf(off),12u); uint64_t stride=1ull<<tz; vector<E> v; for (uint64_t k=0;k+n<=o.size;k+=stride) v.push_back(loadTy(st,*p,k,t));
    if (v.size()>4096) { uint64_t a=concretize(st,A); ObjP& q=access(st,a,n,false); return loadTy(st,q,a-q->addr,t); }
    int bits=0; while ((1ull<<bits)<v.size()) ++bits; E idx=C->extract(off,tz,64-tz);
    {   // a table that is affine over the possible indices
        uint64_t lo=(uint64_t)idx->lo, hi=(uint64_t)std::min<u128>(idx->hi,v.size()-1); unsigned w=v[0]->width; bool af= hi>lo && v[lo]->isConst();
        for (uint64_t k=lo+1; af && k<=hi; ++k) af= v[k]->isConst() && v[k]->cval==((v[lo]->cval+(k-lo))&maskw(w));
        if (hi>lo && v[lo]->isConst()) { bool same=true; for (uint64_t k=lo+1; same && k<=hi; ++k) same= v[k]==v[lo]; if (same) return v[lo]; }
        if (af) { E i=idx->width>=w ? C->trunc(idx,w) : C->zext(idx,w); return C->bin(O_ADD,i,C->konst(v[lo]->cval-lo,w)); }
    }
    {   // over a linear index i=c*x+g*y+k: affine in i/c or in (i%c)/g
        vector<std::pair<E,u128>> t; u128 k=0; uint64_t lo=(uint64_t)idx->lo, hi=(uint64_t)std::min<u128>(idx->hi,v.size()-1); unsigned w=v[0]->width;
        if (hi>lo && C->lin(idx,t,k) && !t.empty()) {
            uint64_t g=0; bool ok=true; std::set<uint64_t> cs; for (auto& p: t) { if (p.second>4096) ok=false; cs.insert((uint64_t)p.second); g=std::__gcd<uint64_t>(g,(uint64_t)p.second); } cs.insert(g);
            auto test=[&](auto f) { bool first=true; u128 base=0; for (uint64_t i=lo;i<=hi;++i) if ((i-(uint64_t)k)%g==0) { if (!v[i]->isConst()) return false; u128 x=(v[i]->cval-f(i))&maskw(w); if (first) base=x,first=false; else if (x!=base) return false; } return !first; };
            auto mkr=[&](E i, auto f) { E j= i->width>=w ? C->trunc(i,w) : C->zext(i,w); uint64_t i0=lo; while ((i0-(uint64_t)k)%g) ++i0; return C->bin(O_ADD,j,C->konst(v[i0]->cval-f(i0),w)); };
            if (ok && g) for (auto it=cs.rbegin();it!=cs.rend();++it) { uint64_t c=*it;
                auto q=[&](uint64_t i){ return i/c; }; auto r=[&](uint64_t i){ return (i%c)/g; };
                if (c>1 && test(q)) return mkr(C->bin(O_UDIV,idx,C->konst(c,64-tz)),q);
                if (c>g && test(r)) return mkr(C->bin(O_UDIV,C->bin(O_UREM,idx,C->konst(c,64-tz)),C->konst(g,64-tz)),r);
            } } }
    if (getenv("SYMX_DBGMUX")) { fprintf(stderr,"mux %zu %s [%llx..%llx]",v.size(),C->str(idx,8).c_str(),(unsigned long long)idx->lo,(unsigned long long)idx->hi); for (u128 q=idx->lo;q<=idx->hi && q<v.size() && q<idx->lo+12;++q) fprintf(stderr," %s",C->str(v[(size_t)q]).c_str()); fprintf(stderr,"\n"); }
    return mux(v,0,1ull<<bits,idx,bits-1);
}
static void doStore(State& st, E A, L::Type* t, E v) {
    uint64_t a=concretize(st,A); ObjP& p=access(st,a,szStore(t),true); Obj& o=writable(st,p); putBytes(o.b,a-o.addr,t,v);
}
static uint64_t allocObj(State& st, uint64_t size, int kind) {
    auto o=std::make_shared<Obj>(); uint64_t& nx= kind==G_STACK? st.snext : st.hnext; o->addr=nx; o->size=size; o->kind=kind; o->b.assign(size,nullptr); nx=(nx+size+64+15)&~15ull;
    (kind==G_STACK? st.stack:st.heap).push_back(o); return o->addr;
}
static void doFree(State& st, E P, const char* what, E size=nullptr) {
    uint64_t a=concretize(st,P); if (!a) return; ObjP* p=findObj(st,a);
    if (!p || (*p)->kind!=G_HEAP || (*p)->addr!=a) fail(st,"bad-free",string(what)+" of a pointer that is not a heap object");
    if ((*p)->freed) fail(st,"double-free",what); if (size && concretize(st,size)!=(*p)->size) fail(st,"bad-free","delete with a size other than that of the block"); Obj& o=writable(st,*p); o.freed=true; o.b.clear();
}
static string cstr(State& st, E P) { uint64_t a=concretize(st,P); string s; for (;;) { ObjP& p=access(st,a,1,false); E b=p->b[a-p->addr]; if (!b||!b->isConst()||!b->cval) break; s+=(char)b->cval; ++a; } return s; }

// ---------------------------------------------------------------- step
static void setR(State& st, int dst, E v) { if (dst>=0) top(st).r[dst]=v; }
static void gotoBlk(State& st, int b) {
    Frame& f=top(st); f.prev=f.blk; f.blk=b; f.ip=0; auto& pb=f.f->blocks[b];
    if (!pb.phis.empty()) { E tmp[64]; vector<E> big; E* t=tmp; if (pb.phis.size()>64) { big.resize(pb.phis.size()); t=big.data(); }
        for (size_t i=0;i<pb.phis.size();++i) { for (auto& pr: pb.phis[i].in) if (pr.first==f.prev) { t[i]=pr.second.c? pr.second.c : f.r[pr.second.reg]; break; } }
        for (size_t i=0;i<pb.phis.size();++i) f.r[pb.phis[i].dst]=t[i]; }
}
static void pushFrame(State& st, PFunc* p, const vector<E>& args, int retDst) {
    auto f=std::make_shared<Frame>(); f->f=p; f->r.assign(p->nregs,nullptr); for (size_t i=0;i<args.size()&&(int)i<p->nargs;++i) f->r[i]=args[i]; f->retDst=retDst; f->smark=st.stack.size(); st.fr.push_back(f);
    if (st.fr.size()>4000) fail(st,"stack-overflow","call depth over 4000");
}
static void copyMem(State& st, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return; vector<E> tmp(n); { ObjP& p=access(st,s,n,false); for (uint64_t i=0;i<n;++i) tmp[i]=p->b[s-p->addr+i]; }
    ObjP& q=access(st,d,n,true); Obj& o=writable(st,q); for (uint64_t i=0;i<n;++i) o.b[d-o.addr+i]=tmp[i];
}
static E popcnt(E e) { E r=C->konst(0,e->width); for (unsigned i=0;i<e->width;++i) r=C->bin(O_ADD,r,C->zext(C->extract(e,i,1),e->width)); return r; }
static E clz(E e) { unsigned w=e->width; E r=C->konst(w,w); for (unsigned i=0;i<w;++i) r=C->ite(C->extract(e,i,1),C->konst(w-1-i,w),r); return r; }
static E ctz(E e) { unsigned w=e->width; E r=C->konst(w,w); for (unsigned i=w;i-->0;) r=C->ite(C->extract(e,i,1),C->konst(i,w),r); return r; }
static E bswap(E e) { E r=nullptr; for (unsigned i=0;i<e->width/8;++i) { E b=C->extract(e,i*8,8); r= r? C->concat(r,b):b; } return r; }
static void endPath(State& st) {
    if (st.leakmark!=SIZE_MAX) for (size_t i=st.leakmark;i<st.heap.size();++i) if (!st.heap[i]->freed) { report(st,st.m,"leak","heap object not freed"); break; }
    S.paths++; sh->paths++; epaths[st.entry][0]++;
    uint64_t& seen=sampleSeen[st.entry]; seen++; auto& v=samples[st.entry];
    bool take=(int)v.size()<opt.samples; size_t pos=v.size(); if (!take && opt.samples) { uint64_t h=seen*0x9e3779b97f4a7c15ull; h^=h>>29; if (h%seen<(uint64_t)opt.samples) { take=true; pos=h%opt.samples; } }
    if (take) { bool un=false; for (auto& s: st.syms) un|=s.uninit; string r=replayOf(st,st.m); for (auto& o: st.outs) { if (un && uninitDep(st,o.second)) continue; r+="out "+o.first+" "+std::to_string((long long)(int64_t)C->eval(o.second,st.m))+"\n"; } if (pos<v.size()) v[pos]=r; else v.push_back(r); }
    throw EndPath();
}
// returns true when the instruction pointer was already set
static E flatten(E e);
static bool doCall(State& st, const PInst& in) {
    size_t na=in.ops.size()-1; auto A=[&](size_t i){ return val(st,in.ops[i]); };
    if (in.iid) {
        if (na && A(0)->op==O_TUPLE) {
            auto& v=*A(0)->tup; vector<E> o; const string& nm=in.callee->name; Op op=O_ADD; bool ok=true;
            if (nm.find("pmovmskb")!=string::npos) { for (E x: v) o.push_back(C->extract(x,x->width-1,1)); setR(st,in.dst,C->zext(flatten(C->tuple(o)),in.width)); return false; }
            switch (in.iid) { case L::Intrinsic::umin: case L::Intrinsic::umax: op=O_ULT; break; case L::Intrinsic::smin: case L::Intrinsic::smax: op=O_SLT; break; default: ok=false; }
            if (ok) { auto& u=*A(1)->tup; bool mx=in.iid==L::Intrinsic::umax||in.iid==L::Intrinsic::smax; for (size_t i=0;i<v.size();++i) { E c=C->bin(op,v[i],u[i]); E a=mx?u[i]:v[i], b=mx?v[i]:u[i]; o.push_back(c->isConst()? (c->cval?a:b) : C->ite(c,a,b)); } setR(st,in.dst,C->tuple(o)); return false; }
        }
        using N=L::Intrinsic::ID; unsigned w=in.width;
        switch ((N)in.iid) {
        case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: { uint64_t n=concretize(st,A(2)); uint64_t d=concretize(st,A(0)), s=concretize(st,A(1)); copyMem(st,d,s,n); return false; }
        case L::Intrinsic::memset: case L::Intrinsic::memset_inline: { uint64_t n=concretize(st,A(2)), d=concretize(st,A(0)); E v=A(1); if (n) { ObjP& q=access(st,d,n,true); Obj& o=writable(st,q); for (uint64_t i=0;i<n;++i) o.b[d-o.addr+i]=v; } return false; }
        case L::Intrinsic::lifetime_start: { uint64_t a=concretize(st,A(1)); ObjP* p=findObj(st,a); if (p) { Obj& o=writable(st,*p); std::fill(o.b.begin(),o.b.end(),nullptr); } return false; }
        case L::Intrinsic::lifetime_end: case L::Intrinsic::assume: case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::donothing: case L::Intrinsic::prefetch: return false;
        case L::Intrinsic::invariant_start: case L::Intrinsic::stacksave: setR(st,in.dst,C->konst(0,64)); return false; case L::Intrinsic::invariant_end: case L::Intrinsic::stackrestore: return false;
        case L::Intrinsic::expect: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: setR(st,in.dst,A(0)); return false;
        case L::Intrinsic::is_constant: setR(st,in.dst,C->fls()); return false;
        case L::Intrinsic::objectsize: setR(st,in.dst,C->konst(~(u128)0,w)); return false;
        case L::Intrinsic::umax: setR(st,in.dst,C->ite(C->bin(O_ULT,A(0),A(1)),A(1),A(0))); return false;
        case L::Intrinsic::umin: setR(st,in.dst,C->ite(C->bin(O_ULT,A(0),A(1)),A(0),A(1))); return false;
        case L::Intrinsic::smax: setR(st,in.dst,C->ite(C->bin(O_SLT,A(0),A(1)),A(1),A(0))); return false;
        case L::Intrinsic::smin: setR(st,in.dst,C->ite(C->bin(O_SLT,A(0),A(1)),A(0),A(1))); return false;
        case L::Intrinsic::abs: { E a=A(0); setR(st,in.dst,C->ite(C->bin(O_SLT,a,C->konst(0,w)),C->bin(O_SUB,C->konst(0,w),a),a)); return false; }
        case L::Intrinsic::ctpop: setR(st,in.dst,popcnt(A(0))); return false; case L::Intrinsic::ctlz: setR(st,in.dst,clz(A(0))); return false; case L::Intrinsic::cttz: setR(st,in.dst,ctz(A(0))); return false;
        case L::Intrinsic::bswap: setR(st,in.dst,bswap(A(0))); return false;
        case L::Intrinsic::fshl: case L::Intrinsic::fshr: { E k=A(2); if (!k->isConst()) { k=C->konst(concretize(st,k),w); } unsigned s=(unsigned)(k->cval%w); E a=A(0),b=A(1);
            if (in.iid==(int)L::Intrinsic::fshl) setR(st,in.dst, s? C->concat(C->extract(a,0,w-s),C->extract(b,w-s,s)) : a); else setR(st,in.dst, s? C->concat(C->extract(a,0,s),C->extract(b,s,w-s)) : b); return false; }
        case L::Intrinsic::usub_sat: setR(st,in.dst,C->ite(C->bin(O_ULT,A(0),A(1)),C->konst(0,w),C->bin(O_SUB,A(0),A(1)))); return false;
        case L::Intrinsic::uadd_sat: { E s=C->bin(O_ADD,A(0),A(1)); setR(st,in.dst,C->ite(C->bin(O_ULT,s,A(0)),C->konst(~(u128)0,w),s)); return false; }
        case L::Intrinsic::uadd_with_overflow: { E s=C->bin(O_ADD,A(0),A(1)); setR(st,in.dst,C->tuple({s,C->bin(O_ULT,s,A(0))})); return false; }
        case L::Intrinsic::usub_with_overflow: setR(st,in.dst,C->tuple({C->bin(O_SUB,A(0),A(1)),C->bin(O_ULT,A(0),A(1))})); return false;
        case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: { unsigned k=A(0)->width; Op o= in.iid==(int)L::Intrinsic::sadd_with_overflow? O_ADD:O_SUB; E x=C->bin(o,C->sext(A(0),k+1),C->sext(A(1),k+1)); E r=C->trunc(x,k); setR(st,in.dst,C->tuple({r,C->notE(C->bin(O_EQ,C->sext(r,k+1),x))})); return false; }
        case L::Intrinsic::umul_with_overflow: case L::Intrinsic::smul_with_overflow: { unsigned k=A(0)->width; if (k>64) break; bool sg=in.iid==(int)L::Intrinsic::smul_with_overflow; E a=sg?C->sext(A(0),2*k):C->zext(A(0),2*k), b=sg?C->sext(A(1),2*k):C->zext(A(1),2*k);
            E ca=A(0), cb=A(1); if (ca->op==O_CONST) std::swap(ca,cb); if (!sg && cb->op==O_CONST && cb->c64()) { setR(st,in.dst,C->tuple({C->bin(O_MUL,ca,cb),C->bin(O_ULT,C->konst((u128)maskw(k)/cb->c64(),k),ca)})); return false; }
            E x=C->bin(O_MUL,a,b), r=C->trunc(x,k); setR(st,in.dst,C->tuple({r,C->notE(C->bin(O_EQ,sg?C->sext(r,2*k):C->zext(r,2*k),x))})); return false; }
        case L::Intrinsic::fabs: if (w==32||w==64) { setR(st,in.dst,C->bin(O_AND,A(0),C->konst(maskw(w-1),w))); return false; } break;
        case L::Intrinsic::ceil: case L::Intrinsic::floor: case L::Intrinsic::trunc: if (w==32||w==64) { u128 v=A(0)->isConst()?A(0)->cval:concretize(st,A(0)); bool up=in.iid==(int)L::Intrinsic::ceil, dn=in.iid==(int)L::Intrinsic::floor; u128 r;
            if (w==64) { double d; uint64_t b=(uint64_t)v; memcpy(&d,&b,8); d=up?ceil(d):dn?floor(d):trunc(d); memcpy(&b,&d,8); r=b; } else { float d; uint32_t b=(uint32_t)v; memcpy(&d,&b,4); d=up?ceilf(d):dn?floorf(d):truncf(d); memcpy(&b,&d,4); r=b; } setR(st,in.dst,C->konst(r,w)); return false; } break;
        case L::Intrinsic::copysign: { unsigned k=w; setR(st,in.dst,C->bin(O_OR,C->bin(O_AND,A(0),C->konst(maskw(k-1),k)),C->bin(O_AND,A(1),C->konst((u128)1<<(k-1),k)))); return false; }
        case L::Intrinsic::is_fpclass: { unsigned k=A(0)->width; if (k!=32&&k!=64) break; unsigned eb=k==32?8:11, mb=k-1-eb; uint64_t mask=A(1)->c64(); E a=A(0), ex=C->extract(a,mb,eb), mn=C->extract(a,0,mb), sg=C->extract(a,k-1,1);
            E emax=C->bin(O_EQ,ex,C->konst(maskw(eb),eb)), e0=C->bin(O_EQ,ex,C->konst(0,eb)), m0=C->bin(O_EQ,mn,C->konst(0,mb)), q=C->extract(mn,mb-1,1); auto an=[&](E x,E y){ return C->bin(O_AND,x,y); }; auto no=[&](E x){ return C->notE(x); }; E r=C->fls(); E nrm=an(no(emax),no(e0));
            E cl[10]={ an(an(emax,no(m0)),no(q)), an(emax,q), an(an(emax,m0),sg), an(nrm,sg), an(an(e0,no(m0)),sg), an(an(e0,m0),sg), an(an(e0,m0),no(sg)), an(an(e0,no(m0)),no(sg)), an(nrm,no(sg)), an(an(emax,m0),no(sg)) };
            for (int i=0;i<10;++i) if (mask>>i&1) r=C->bin(O_OR,r,cl[i]); setR(st,in.dst,r); return false; }
        case L::Intrinsic::trap: case L::Intrinsic::ubsantrap: case L::Intrinsic::debugtrap: fail(st,"trap","trap reached");
        case L::Intrinsic::threadlocal_address: setR(st,in.dst,A(0)); return false;
        case L::Intrinsic::load_relative: break;
        default: break;
        }
        giveup(st,string("unsupported intrinsic ")+in.callee->name);
    }
    PFunc* p=in.callee;
    if (!p) { uint64_t a=concretize(st,A(na)); auto it=pfAddr.find(a); if (it==pfAddr.end()) fail(st,"bad-call","call through invalid function pointer"); p=it->second; }
    switch (p->builtin) {
    case B_NONE: {
        vector<E> args(na); for (size_t i=0;i<na;++i) { args[i]=A(i); if (in.byval[i]) { uint64_t s=concretize(st,args[i]); uint64_t d=allocObj(st,in.byval[i],G_STACK); copyMem(st,d,s,in.byval[i]); args[i]=C->konst(d,64); } }
        top(st).ip++; pushFrame(st,p,args,in.dst); gotoBlk(st,0); return true; }
    case B_SYMBOLIC: { uint64_t a=concretize(st,A(0)), n=concretize(st,A(1)); string nm=cstr(st,A(2)); if (!n) { st.syms.push_back({false,nm,st.nsym,0}); return false; } ObjP& q=access(st,a,n,true); Obj& o=writable(st,q); unsigned f=st.nsym; for (uint64_t i=0;i<n;++i) o.b[a-o.addr+i]=symByte(st,nm,false); st.syms.push_back({false,nm,f,(unsigned)n}); return false; }
    case B_RANGE: { int64_t lo=(int64_t)concretize(st,A(0)), hi=(int64_t)concretize(st,A(1)); string nm=cstr(st,A(2));
        if (lo>hi) throw EndPath();
        for (int64_t v=hi;v>lo;--v) { State* n=new State(st); n->syms.push_back({true,nm,0,0,v}); if (in.dst>=0) top(*n).r[in.dst]=C->konst((u128)(i128)v,64); top(*n).ip++; pend.push_back(n); }
        st.syms.push_back({true,nm,0,0,lo}); setR(st,in.dst,C->konst((u128)(i128)lo,64)); return false; }
    case B_ASSUME: { E c=A(0); if (c->width!=1) c=C->trunc(c,1); if (c->isTrue()) return false; if (c->isFalse()) throw EndPath(); if (!C->eval(c,st.m)) { Model m; Res r=check(st,c,&m); if (r==UNK) giveup(st,"solver gave no answer"); if (r==UNSAT) throw EndPath(); st.m=m; } addPC(st,c); return false; }
    case B_ASSERT: case B_KNOWN: { E c=A(0); if (c->width!=1) c=C->trunc(c,1); if (c->isTrue()) return false; string msg=cstr(st,A(1)); bool known=p->builtin==B_KNOWN; string kind="assert"; if (known) { kind="known:"+msg; msg=cstr(st,A(2)); }
        if (c->isFalse()) { if (known) { report(st,st.m,kind,msg); return false; } fail(st,kind,msg); }
        bool v=C->eval(c,st.m)!=0; Model m2; Res r=check(st,v?C->notE(c):c,&m2); if (r==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; }
        if (!v) report(st,st.m,kind,msg); else if (r==SAT) report(st,m2,kind,msg);
        if (known) return false;
        if (!v) { if (r!=SAT) { S.errpaths++; epaths[st.entry][1]++; throw EndPath(); } st.m=m2; } if (r!=UNSAT) addPC(st,c); return false; }
    case B_REACH: reach[entries[st.entry]][cstr(st,A(0))]++; return false;
    case B_OUT: st.outs.push_back({cstr(st,A(0)),A(1)}); return false;
    case B_BOUND: setR(st,in.dst,opt.tier?A(1):A(0)); return false;
    case B_ALLOW: st.allow|=(int)concretize(st,A(0)); return false;
    case B_CONCRETE: { E e=A(0); setR(st,in.dst,C->konst(concretize(st,e),64)); return false; }
    case B_NOLEAK: st.leakmark=st.heap.size(); return false;
    case B_ENGINE: setR(st,in.dst,C->tru()); return false;
    case B_MALLOC: case B_CALLOC: case B_REALLOC: {
        E sz= p->builtin==B_MALLOC? A(0) : p->builtin==B_CALLOC? C->bin(O_MUL,A(0),A(1)) : A(1);
        E big=C->bin(O_ULT,C->konst(opt.maxalloc,64),sz);
        if (!big->isFalse()) { bool v=C->eval(big,st.m)!=0; Model m2; Res r= v? check(st,C->notE(big),&m2) : check(st,big,&m2); if (r==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; }
            if (v || r==SAT) { if (!(st.allow&2)) report(st,v?st.m:m2,"alloc-huge","allocation of more than "+std::to_string(opt.maxalloc)+" bytes requested"); if (v) { if (r!=SAT) { S.errpaths++; epaths[st.entry][1]++; throw EndPath(); } st.m=m2; } if (r!=UNSAT) addPC(st,C->notE(big)); } }
        uint64_t n=concretize(st,sz); uint64_t a=allocObj(st,n,G_HEAP);
        if (p->builtin==B_CALLOC) { ObjP& q=access(st,a,n,true); for (auto& x: q->b) x=C->konst(0,8); }
        if (p->builtin==B_REALLOC) { uint64_t old=concretize(st,A(0)); if (old) { ObjP* q=findObj(st,old); if (!q||(*q)->addr!=old||(*q)->kind!=G_HEAP||(*q)->freed) fail(st,"bad-free","realloc of invalid pointer"); uint64_t k=std::min<uint64_t>(n,(*q)->size); copyMem(st,a,old,k); doFree(st,C->konst(old,64),"realloc"); } }
        setR(st,in.dst,C->konst(a,64)); return false; }
    case B_FREE: doFree(st,A(0),"free"); return false;
    case B_DELETE: doFree(st,A(0),"delete"); return false;
    case B_DELSIZE: doFree(st,A(0),"delete",A(1)); return false;
    case B_MEMCPY: { uint64_t n=concretize(st,A(2)), d=concretize(st,A(0)), s=concretize(st,A(1)); copyMem(st,d,s,n); setR(st,in.dst,A(0)); return false; }
    case B_MEMSET: { uint64_t n=concretize(st,A(2)), d=concretize(st,A(0)); E v=C->trunc(A(1),8); if (n) { ObjP& q=access(st,d,n,true); Obj& o=writable(st,q); for (uint64_t i=0;i<n;++i) o.b[d-o.addr+i]=v; } setR(st,in.dst,A(0)); return false; }
    case B_MEMCMP: { uint64_t n=concretize(st,A(2)), a=concretize(st,A(0)), b=concretize(st,A(1)); E r=C->konst(0,32);
        if (n) { access(st,a,n,false); access(st,b,n,false); for (uint64_t i=n;i-->0;) { ObjP& x=*findObj(st,a); uint64_t ao=a-x->addr+i; E p1=getByte(st,x,ao); ObjP& y=*findObj(st,b); E p2=getByte(st,y,b-y->addr+i); r=C->ite(C->bin(O_EQ,p1,p2),r,C->ite(C->bin(O_ULT,p1,p2),C->konst(~(u128)0,32),C->konst(1,32))); } }
        setR(st,in.dst,r); return false; }
    case B_THROW: if (st.allow&1) { reach[entries[st.entry]]["throw"]++; S.paths++; epaths[st.entry][0]++; throw EndPath(); } fail(st,"throw",p->name);
    case B_ABORT: fail(st,"abort",p->name);
    case B_NOP: setR(st,in.dst,C->konst(0,in.width?in.width:32)); return false;
    default: giveup(st,"external function "+p->name);
    }
}
static E laneOp(const PInst& in, Kind k, const vector<E>& a) {
    switch (k) {
    case K_BIN: if (in.op>=O_UDIV && in.op<=O_SREM) return nullptr; return C->bin(in.op,a[0],a[1]);
    case K_FBIN: return C->fbin(in.op,a[0],a[1]);
    case K_FNEG: return C->bin(O_XOR,a[0],C->konst((u128)1<<(a[0]->width-1),a[0]->width));
    case K_ICMP: { E x=a[0],y=a[1]; if (in.swp) std::swap(x,y); E r=C->bin(in.op,x,y); return in.neg? C->notE(r):r; }
    case K_SELECT: return a[0]->isConst()? (a[0]->cval?a[1]:a[2]) : C->ite(a[0],a[1],a[2]);
    case K_CAST: return in.sub==1? C->zext(a[0],in.width) : in.sub==2? C->sext(a[0],in.width) : a[0]->width==in.width? a[0] : a[0]->width>in.width? C->trunc(a[0],in.width) : C->zext(a[0],in.width);
    default: return nullptr; }
}
static E flatten(E e) { if (e->op!=O_TUPLE) return e; E r=nullptr; for (E x: *e->tup) r= r? C->concat(x,r) : x; return r; }
static void step(State& st) {
    Frame* f=st.fr.back().get(); const PInst& in=f->f->blocks[f->blk].insts[f->ip];
    executed[in.id]=1; S.instrs++; if (++st.steps>opt.maxsteps) fail(st,"step-limit","no end within the step limit");
    auto V=[&](size_t i){ auto& o=in.ops[i]; return o.c? o.c : f->r[o.reg]; };
    E r=nullptr;
    switch (in.kind) {
    case K_BIN: {
        E a=V(0), b=V(1);
        if (in.op>=O_UDIV && in.op<=O_SREM) { E z=C->bin(O_EQ,b,C->konst(0,b->width)); State* o; if (z->isTrue()) fail(st,"div-zero","division by zero"); if (!z->isFalse()) { bool v=decide(st,z,&o); if (v) fail(st,"div-zero","division by zero"); } }
        r=C->bin(in.op,a,b); break; }
    case K_FBIN: r=C->fbin(in.op,V(0),V(1)); break;
    case K_FNEG: r=C->bin(O_XOR,V(0),C->konst((u128)1<<(in.width-1),in.width)); break;
    case K_ICMP: { E a=V(0),b=V(1); if (in.swp) std::swap(a,b); r=C->bin(in.op,a,b); if (in.neg) r=C->notE(r); break; }
    case K_FCMP: { E a=V(0),b=V(1); E un=nullptr; auto U=[&]{ return un? un : un=C->fbin(O_FUNO,a,b); };
        using P=L::CmpInst; switch ((P::Predicate)in.sub) {
            case P::FCMP_FALSE: r=C->fls(); break; case P::FCMP_TRUE: r=C->tru(); break; case P::FCMP_OEQ: r=C->fbin(O_FOEQ,a,b); break; case P::FCMP_OGT: r=C->fbin(O_FOLT,b,a); break; case P::FCMP_OGE: r=C->fbin(O_FOLE,b,a); break; case P::FCMP_OLT: r=C->fbin(O_FOLT,a,b); break; case P::FCMP_OLE: r=C->fbin(O_FOLE,a,b); break;
            case P::FCMP_ONE: r=C->notE(C->bin(O_OR,U(),C->fbin(O_FOEQ,a,b))); break; case P::FCMP_ORD: r=C->notE(U()); break; case P::FCMP_UNO: r=U(); break; case P::FCMP_UEQ: r=C->bin(O_OR,U(),C->fbin(O_FOEQ,a,b)); break;
            case P::FCMP_UGT: r=C->notE(C->fbin(O_FOLE,a,b)); break; case P::FCMP_UGE: r=C->notE(C->fbin(O_FOLT,a,b)); break; case P::FCMP_ULT: r=C->notE(C->fbin(O_FOLE,b,a)); break; case P::FCMP_ULE: r=C->notE(C->fbin(O_FOLT,b,a)); break; case P::FCMP_UNE: r=C->notE(C->fbin(O_FOEQ,a,b)); break; default: giveup(st,"fcmp"); }
        break; }
    case K_SELECT: { E c=V(0); if (!c->isConst()) { if (in.ty->isPointerTy() || !in.width) { if (V(1)!=V(2)) { State* o; bool v=decide(st,c,&o); c=C->boolE(v); if (o) { E ov= v? (in.ops[2].c?in.ops[2].c:f->r[in.ops[2].reg]) : (in.ops[1].c?in.ops[1].c:f->r[in.ops[1].reg]); Frame& g=top(*o); g.r[in.dst]=ov; g.ip++; } f=st.fr.back().get(); } else c=C->tru(); } }
        E a=V(1), b=V(2); r= c->isConst()? (c->cval?a:b) : C->ite(c,a,b); break; }
    case K_CAST: { E a=V(0); r= in.sub==1? C->zext(a,in.width) : in.sub==2? C->sext(a,in.width) : a->width==in.width? a : a->width>in.width? C->trunc(a,in.width) : C->zext(a,in.width); break; }
    case K_FCONV: r=C->fconv(in.op,V(0),in.width); break;
    case K_VEC: { size_t n=0; for (size_t i=0;i<in.ops.size();++i) if (V(i)->op==O_TUPLE) n=V(i)->tup->size(); vector<E> o; for (size_t l=0;l<n;++l) { vector<E> a; for (size_t i=0;i<in.ops.size();++i) a.push_back(V(i)->op==O_TUPLE? (*V(i)->tup)[l] : V(i)); E x=laneOp(in,in.lane,a); if (!x) giveup(st,"unsupported vector instruction"); o.push_back(x); } r=C->tuple(o); break; }
    case K_VBITCAST: { E e=flatten(V(0)); if (auto vt=L::dyn_cast<L::FixedVectorType>(in.ty)) { unsigned w=bitw(vt->getElementType()); if (!w) giveup(st,"vector bitcast"); vector<E> o; for (unsigned i=0;i<vt->getNumElements();++i) o.push_back(C->extract(e,i*w,w)); e=C->tuple(o); } r=e; break; }
    case K_EXTELT: { E e=V(0); uint64_t i=concretize(st,V(1)); r=(*e->tup)[i<e->tup->size()?i:0]; break; }
    case K_INSELT: { vector<E> o=*V(0)->tup; uint64_t i=concretize(st,V(2)); if (i<o.size()) o[i]=V(1); r=C->tuple(o); break; }
    case K_SHUF: { vector<E> o; size_t n=V(0)->tup->size(); for (int64_t m: in.scale) o.push_back(m<0? (*V(0)->tup)[0] : (size_t)m<n? (*V(0)->tup)[m] : (*V(1)->tup)[m-n]); r=C->tuple(o); break; }
    case K_FREEZE: r=V(0); break;
    case K_LOAD: r=doLoad(st,V(0),in.ty); break;
    case K_STORE: doStore(st,V(1),in.ty,V(0)); break;
    case K_GEP: { E a=V(0); if (in.scale.empty()) { if (in.gconst) a=C->bin(O_ADD,a,C->konst((u128)(i128)in.gconst,64)); }
        else { i128 k=in.gconst; for (size_t i=0;i<in.scale.size();++i) { E x=V(i+1); if (x->isConst()) { k+=sx::sx(x->cval,x->width)*in.scale[i]; continue; } x= x->width<64? C->sext(x,64) : x->width>64? C->trunc(x,64):x; a=C->bin(O_ADD,a,C->bin(O_MUL,x,C->konst((u128)(i128)in.scale[i],64))); } if (k) a=C->bin(O_ADD,a,C->konst((u128)k,64)); }
        r=a; break; }
    case K_ALLOCA: { uint64_t n=in.gconst*concretize(st,V(0)); r=C->konst(allocObj(st,n,G_STACK),64); break; }
    case K_EXTRACTV: { E e=V(0); for (auto i: in.idx) e=(*e->tup)[i]; r=e; break; }
    case K_INSERTV: { std::function<E(E,size_t)> ins=[&](E e,size_t d)->E { if (d==in.idx.size()) return V(1); vector<E> v=*e->tup; v[in.idx[d]]=ins(v[in.idx[d]],d+1); return C->tuple(v); }; r=ins(V(0),0); break; }
    case K_CALL: if (doCall(st,in)) return; top(st).ip++; return;
    case K_BR: gotoBlk(st,in.tgt[0]); return;
    case K_CBR: { E c=V(0); State* o; bool v=decide(st,c,&o); if (o) gotoBlk(*o,in.tgt[v?1:0]); gotoBlk(st,in.tgt[v?0:1]); return; }
    case K_SWITCH: { E c=V(0);
        if (c->isConst()) { int t=in.tgt[0]; for (size_t i=0;i<in.cases.size();++i) if (in.cases[i]==c->cval) { t=in.tgt[i+1]; break; } gotoBlk(st,t); return; }
        checkUninit(st,c,"switch on uninitialised memory");
        std::map<int,E> cond; E any=C->fls(); for (size_t i=0;i<in.cases.size();++i) { E q=C->bin(O_EQ,c,C->konst(in.cases[i],c->width)); any=C->bin(O_OR,any,q); if (in.tgt[i+1]==in.tgt[0]) continue; auto& x=cond[in.tgt[i+1]]; x= x? C->bin(O_OR,x,q):q; }
        { E d=C->notE(any); for (size_t i=0;i<in.cases.size();++i) if (in.tgt[i+1]==in.tgt[0]) d=C->bin(O_OR,d,C->bin(O_EQ,c,C->konst(in.cases[i],c->width))); cond[in.tgt[0]]=d; }
        int mine=-1; E mc=nullptr;
        for (auto& k: cond) { if (mine<0 && C->eval(k.second,st.m)) { mine=k.first; mc=k.second; continue; } Model m2; Res x=check(st,k.second,&m2); if (x==SAT) gotoBlk(*forkState(st,k.second,m2),k.first); else if (x==UNK) { incons(st,"solver gave no answer"); epaths[st.entry][2]++; } }
        addPC(st,mc); gotoBlk(st,mine); return; }
    case K_RET: { E v= in.ops.empty()? nullptr : V(0); int d=f->retDst; size_t mk=f->smark; st.stack.resize(mk); st.fr.pop_back();
        if (st.fr.empty()) { if (!st.initdone) { st.initdone=true; pushFrame(st,entryF[st.entry],{},-1); gotoBlk(st,0); return; } endPath(st); }
        if (d>=0) setR(st,d,v); return; }
    case K_UNREACH: fail(st,"unreachable","undefined behaviour: unreachable code reached");
    default: { string s; L::raw_string_ostream os(s); os<<*in.I; giveup(st,"unsupported instruction "+os.str()); }
    }
    Frame& g=top(st); if (in.dst>=0) g.r[in.dst]=r; g.ip++;
}

// ---------------------------------------------------------------- driver
static void dump(int seq) {
    std::ofstream o(tmpdir+"/r"+std::to_string(seq)+".txt");
    // simple tagged lines, merged by the parent
    o<<"S "<<S.instrs<<' '<<S.queries<<' '<<S.qhits<<' '<<S.qsat<<' '<<S.qunsat<<' '<<S.qunk<<' '<<S.paths<<' '<<S.errpaths<<' '<<S.qtime<<' '<<unexplored<<'\n';
    for (auto& k: epaths) o<<"P "<<k.first<<' '<<k.second[0]<<' '<<k.second[1]<<' '<<k.second[2]<<'\n';
    for (auto& e: reach) for (auto& l: e.second) o<<"R "<<e.first<<' '<<l.second<<' '<<l.first<<'\n';
    for (auto& i: incon) { string s=i.first; for (auto& c: s) if (c=='\n') c=' '; o<<"I "<<i.second<<' '<<s<<'\n'; }
    for (auto& e: errs) { o<<"E "<<jstr(e.kind)<<'\t'<<jstr(e.msg)<<'\t'<<jstr(e.loc)<<'\t'<<e.entry<<'\t'<<jstr(e.inputs[0])<<'\n'; }
    for (auto& s: samples) for (auto& x: s.second) o<<"M "<<s.first<<'\t'<<jstr(x)<<'\n';
    o.close(); if (!o) { fprintf(stderr,"symx: cannot write results\n"); _exit(3); }
}
static bool overTime() { double n=now(); if (n-tstart>opt.timeout) return true; double fe=sh->firstErr; return fe!=0 && n-fe>opt.aftererr; }
static void work() {
    int tick=0;
    while (!pend.empty()) {
        if (overTime()||sh->stop) { unexplored+=pend.size(); for (auto p: pend) delete p; pend.clear(); sh->stop=1; break; }
        // share: fork off half of the oldest pending states when a slot is free
        if (pend.size()>=4 && sh->active<opt.jobs) {
            int a=sh->active.fetch_add(1);
            if (a>=opt.jobs) sh->active--;
            else {
                fflush(nullptr); vector<State*> mine, theirs; for (size_t i=0;i<pend.size();++i) (i%2? mine:theirs).push_back(pend[i]);
                pid_t p=fork();
                if (p<0) { sh->active--; }
                else if (p==0) { pend=theirs; S=Stats(); errs.clear(); reach.clear(); incon.clear(); epaths.clear(); samples.clear(); unexplored=0; /* leak mine */ }
                else { pend=mine; for (auto t: theirs) delete t; }
            }
        }
        State* st=pend.back(); pend.pop_back();
        try { for (;;) { step(*st); if (!(++tick&0xfff) && (overTime()||sh->stop)) { unexplored++; sh->stop=1; break; }
                if (!(tick&0xfff) && pend.size()>=2 && sh->active<opt.jobs) { pend.insert(pend.begin()+pend.size()/2,st); st=nullptr; break; } } }
        catch (EndPath&) {}
        delete st;
    }
}
static int realMain(int argc, char** argv) {
    string file; vector<string> want;
    for (int i=1;i<argc;++i) { string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
        if (a=="-j") opt.jobs=atoi(argv[++i]); else if (a=="-t") opt.timeout=atof(argv[++i]); else if (a=="-o") opt.out=nx(); else if (a=="-e") { std::stringstream ss(nx()); string x; while (std::getline(ss,x,',')) want.push_back(x); }
        else if (a=="-tier") opt.tier=atoi(argv[++i]); else if (a=="-src") opt.srcroot=nx(); else if (a=="-steps") opt.maxsteps=atoll(argv[++i]); else if (a=="-qto") opt.qto=atof(argv[++i]); else if (a=="-samples") opt.samples=atoi(argv[++i]); else if (a=="-v") opt.verbose=true; else if (a=="-aftererr") opt.aftererr=atof(argv[++i]); else if (a=="-maxalloc") opt.maxalloc=atoll(argv[++i]); else file=a; }
    L::SMDiagnostic d; M=L::parseIRFile(file,d,LC); if (!M) { d.print("symx",L::errs()); return 3; }
    DL=&M->getDataLayout(); C=new Ctx; initBuiltins(); initGlobals(); translate();
    for (auto& F: *M) if (!F.isDeclaration() && F.getName().starts_with("sx_entry_")) { string n=F.getName().substr(9).str(); if (want.empty()||std::find(want.begin(),want.end(),n)!=want.end()) { entries.push_back(n); entryF.push_back(pf[&F]); } }
    if (entries.empty()) { fprintf(stderr,"symx: no entry\n"); return 3; }
    size_t sz=allInst.size()+1; executed=(uint8_t*)mmap(nullptr,sz,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    new (sh) Shared(); sh->active=1; sh->seq=0; tstart=now(); prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0);
    char tmpl[]="/tmp/symxXXXXXX"; tmpdir=mkdtemp(tmpl); pid_t root=getpid();
    // global constructors run once, concretely, before every entry
    State base; vector<PFunc*> ctors;
    if (auto gc=M->getGlobalVariable("llvm.global_ctors")) if (auto ca=L::dyn_cast<L::ConstantArray>(gc->getInitializer())) for (auto& o: ca->operands()) { auto cs=L::cast<L::ConstantStruct>(o); if (auto f=L::dyn_cast<L::Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(pf[f]); }
    entries.push_back("(static init)"); entryF.push_back(nullptr); base.entry=(int)entries.size()-1; base.initdone=true;
    for (auto c: ctors) { State s=base; s.steps=0; pushFrame(s,c,{},-1); gotoBlk(s,0); bool done=false; try { for (;;) { if (s.fr.size()==1 && s.fr[0]->f->blocks[s.fr[0]->blk].insts[s.fr[0]->ip].kind==K_RET) { s.fr.clear(); s.stack.clear(); done=true; break; } step(s); } } catch (EndPath&) {} if (!done||!pend.empty()) { fprintf(stderr,"symx: static initialisation failed\n"); return 3; } base=s; }
    for (size_t i=0;i+1<entries.size();++i) { State* s=new State(base); s->entry=(int)i; s->steps=0; s->initdone=true; pushFrame(*s,entryF[i],{},-1); gotoBlk(*s,0); pend.push_back(s); }
    work();
    dump(sh->seq++); sh->active--;
    if (getpid()!=root) _exit(0);
    int bad=0; for (;;) { int stt; pid_t p=waitpid(-1,&stt,0); if (p<0) break; if (!WIFEXITED(stt)||WEXITSTATUS(stt)) { bad++; fprintf(stderr,"symx: worker ended with %x\n",stt); } }
    // merge
    Stats T; uint64_t unexp=0; std::map<int,std::array<uint64_t,3>> P; std::map<string,std::map<string,uint64_t>> R; std::map<string,uint64_t> I; vector<vector<string>> Es; std::map<int,vector<string>> Ms; 
    for (int k=0;k<sh->seq;++k) { std::ifstream f(tmpdir+"/r"+std::to_string(k)+".txt"); string l; if (!f) bad++;
        while (std::getline(f,l)) { std::stringstream ss(l.substr(2));
            if (l[0]=='S') { Stats x; uint64_t u; ss>>x.instrs>>x.queries>>x.qhits>>x.qsat>>x.qunsat>>x.qunk>>x.paths>>x.errpaths>>x.qtime>>u; T.instrs+=x.instrs; T.queries+=x.queries; T.qhits+=x.qhits; T.qsat+=x.qsat; T.qunsat+=x.qunsat; T.qunk+=x.qunk; T.paths+=x.paths; T.errpaths+=x.errpaths; T.qtime+=x.qtime; unexp+=u; }
            else if (l[0]=='P') { int e; uint64_t a,b,c; ss>>e>>a>>b>>c; P[e][0]+=a; P[e][1]+=b; P[e][2]+=c; }
            else if (l[0]=='R') { string e,lab; uint64_t n; ss>>e>>n; std::getline(ss,lab); R[e][lab.substr(1)]+=n; }
            else if (l[0]=='I') { uint64_t n; string w; ss>>n; std::getline(ss,w); I[w.substr(1)]+=n; }
            else if (l[0]=='E') { vector<string> v; string s=l.substr(2); size_t p; while ((p=s.find('\t'))!=string::npos) { v.push_back(s.substr(0,p)); s=s.substr(p+1); } v.push_back(s); Es.push_back(v); }
            else if (l[0]=='M') { string s=l.substr(2); size_t p=s.find('\t'); Ms[atoi(s.c_str())].push_back(s.substr(p+1)); } } 
        unlink((tmpdir+"/r"+std::to_string(k)+".txt").c_str()); }
    rmdir(tmpdir.c_str());
    std::map<string,std::set<string>> fns; uint64_t nex=0; for (size_t i=0;i<allInst.size();++i) if (executed[i]) { ++nex; const L::DebugLoc& dl=allInst[i]->getDebugLoc(); for (const L::DILocation* x=dl.get();x;x=x->getInlinedAt()) if (auto sp=x->getScope()->getSubprogram()) { string fn=sp->getFilename().str(); if (fn.rfind(opt.srcroot,0)==0) fns[fn.substr(opt.srcroot.size()+1)].insert(sp->getName().str()); } }
    std::ofstream o(opt.out); auto comma=[&](bool& f){ if (!f) o<<","; f=false; o<<"\n  "; }; bool f;
    o<<"{\"wall_s\":"<<now()-tstart<<",\"crashed\":"<<bad<<",\"procs\":"<<sh->seq<<",\"instrs\":"<<T.instrs<<",\"ir_instructions_covered\":"<<nex<<",\"ir_instructions\":"<<allInst.size()<<",\"queries\":"<<T.queries<<",\"cache_hits\":"<<T.qhits<<",\"sat\":"<<T.qsat<<",\"unsat\":"<<T.qunsat<<",\"unknown\":"<<T.qunk<<",\"solver_s\":"<<T.qtime<<",\"paths\":"<<T.paths<<",\"error_paths\":"<<T.errpaths<<",\"unexplored\":"<<unexp<<",\n\"entries\":{"; f=true;
    for (size_t i=0;i+1<entries.size();++i) { comma(f); auto& p=P[(int)i]; o<<jstr(entries[i])<<":{\"paths\":"<<p[0]<<",\"errors\":"<<p[1]<<",\"inconclusive\":"<<p[2]<<",\"reach\":{"; bool g=true; for (auto& r: R[entries[i]]) { if (!g) o<<","; g=false; o<<jstr(r.first)<<":"<<r.second; } o<<"}}"; }
    o<<"},\n\"inconclusive\":{"; f=true; for (auto& i: I) { comma(f); o<<jstr(i.first)<<":"<<i.second; }
    o<<"},\n\"errors\":["; f=true; std::map<string,int> cnt; for (auto& v: Es) { if (++cnt[v[0]+v[1]+v[2].substr(0,v[2].find(" | "))+v[3]]>3) continue; comma(f); o<<"{\"kind\":"<<v[0]<<",\"msg\":"<<v[1]<<",\"loc\":"<<v[2]<<",\"entry\":"<<jstr(entries[atoi(v[3].c_str())])<<",\"replay\":"<<v[4]<<"}"; }
    o<<"],\n\"samples\":["; f=true; for (auto& m: Ms) { size_t n=m.second.size(), stp=std::max<size_t>(1,n/std::max(1,opt.samples)); int k=0; for (size_t i=0;i<n&&k<opt.samples;i+=stp,++k) { comma(f); o<<m.second[i]; } }
    o<<"],\n\"functions\":{"; f=true; for (auto& k: fns) { comma(f); o<<jstr(k.first)<<":["; bool g=true; for (auto& n: k.second) { if (!g) o<<","; g=false; o<<jstr(n); } o<<"]"; }
    o<<"}}\n"; o.close();
    return bad?3:0;
}
int main(int argc, char** argv) {
    rlimit r; getrlimit(RLIMIT_STACK,&r); rlim_t wantS=1ull<<30; if (r.rlim_cur!=RLIM_INFINITY && r.rlim_cur<wantS && !getenv("SYMX_STK")) { r.rlim_cur= r.rlim_max==RLIM_INFINITY? wantS : std::min(wantS,r.rlim_max); setrlimit(RLIMIT_STACK,&r); setenv("SYMX_STK","1",1); execv("/proc/self/exe",argv); }
    return realMain(argc,argv);
}
