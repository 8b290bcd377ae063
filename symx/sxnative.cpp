// Native side of sx.h: feeds one recorded input to a harness entry compiled from the real sources (ASan), and says what happened.
// exit 0: ran to the end; 77: the recorded property failed (line SX-FAIL); 78: assumption not met; 90: the run left the recorded inputs
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <exception>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#   include <sanitizer/allocator_interface.h>
#   define CUR() __sanitizer_get_current_allocated_bytes()
#   define SIZE(p,n) __sanitizer_get_allocated_size(p)
#else
#   define CUR() 0
#   define SIZE(p,n) ((n)?(n):1)
#endif
namespace {
    struct Rec { std::string kind, name, val; };
    std::vector<Rec> recs; size_t pos=0; int tier=0, allow=0; bool noleak=false; size_t mark=0;
    void fail(const char* kind, const char* msg) { printf("SX-FAIL %s %s\n",kind,msg); fflush(stdout); _exit(77); }
    const Rec& next(const char* kind, const char* name) { if (pos>=recs.size()||recs[pos].kind!=kind||recs[pos].name!=name) { printf("SX-DIVERGE at %s %s\n",kind,name); fflush(stdout); _exit(90); } return recs[pos++]; }
}
void* operator new(size_t n) { if (n>262144 && !(allow&SX_ALLOW_HUGE)) fail("alloc-huge",std::to_string(n).c_str()); void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } static void sized(void* p, size_t n) { if (SIZE(p,n)!=(n?n:1)) fail("bad-free","delete with a size other than that of the block"); free(p); }
void operator delete(void* p, size_t n) noexcept { if (p) sized(p,n); } void operator delete[](void* p, size_t n) noexcept { if (p) sized(p,n); }
extern "C" {
    void sx_symbolic(void* p, size_t n, const char* name) { auto& r=next("sym",name); if (r.val.size()!=2*n) { printf("SX-DIVERGE size of %s\n",name); fflush(stdout); _exit(90); } for (size_t i=0;i<n;++i) ((unsigned char*)p)[i]=(unsigned char)strtoul(r.val.substr(2*i,2).c_str(),nullptr,16); }
    int64_t sx_range(int64_t lo, int64_t hi, const char* name) { auto& r=next("choice",name); int64_t v=strtoll(r.val.c_str(),nullptr,10); if (v<lo||v>hi) { printf("SX-DIVERGE range of %s\n",name); fflush(stdout); _exit(90); } return v; }
    void sx_assume(bool c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); _exit(78); } }
    void sx_assert(bool c, const char* msg) { if (!c) fail("assert",msg); }
    void sx_known(bool c, const char* kf, const char* msg) { if (!c) { printf("SX-KNOWN %s %s\n",kf,msg); fflush(stdout); } }
    void sx_reach(const char*) {}
    void sx_out(const char* l, int64_t v) { printf("out %s %lld\n",l,(long long)v); }
    int64_t sx_bound(int64_t q, int64_t t) { return tier? t:q; }
    void sx_allow(int w) { allow|=w; }
    uint64_t sx_concrete(uint64_t v) { return v; }
    void sx_noleak() { noleak=true; mark=CUR(); }
    bool sx_engine() { return false; }
}
int main(int argc, char** argv) {
    std::ifstream f(argv[1]); std::string l, entry;
    setvbuf(stdout,nullptr,_IOFBF,1<<16);
    while (std::getline(f,l)) { std::stringstream s(l); std::string k; s>>k; if (k=="entry") s>>entry; else if (k=="tier") s>>tier; else if (k=="sym"||k=="choice") { Rec r; r.kind=k; s>>r.name>>r.val; recs.push_back(r); } }
    auto e=(void(*)())dlsym(RTLD_DEFAULT,("sx_entry_"+entry).c_str()); if (!e) { printf("SX-NOENTRY %s\n",entry.c_str()); return 91; }
#ifdef __cpp_exceptions
    try { e(); } catch (const std::exception& x) { if (!(allow&SX_ALLOW_THROW)) fail("throw",x.what()); } catch (...) { if (!(allow&SX_ALLOW_THROW)) fail("throw","?"); }
#else
    e();
#endif
    if (noleak && CUR()!=mark) fail("leak","heap not released");
    fflush(stdout); _exit(0);
}
