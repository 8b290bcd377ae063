// every kind of target type of the CBOR readers, with an equality
#pragma once
#include "h_cbor.h"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/stack.hxx"
#if __cplusplus>=201703L
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/variant.hxx"
#endif
using B=cxon::CBOR<>;
enum class En : unsigned short { a=1, b=400, c=7 };
CXON_CBOR_ENM(En, CXON_CBOR_ENM_VALUE_NAME(7,a), CXON_CBOR_ENM_VALUE_NAME(300,b))
struct Cl { u8 a=200; std::string b; bool operator ==(const Cl& o) const { return a==o.a && b==o.b; } };
CXON_CBOR_CLS(Cl, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))
struct Sk { u8 a=200; bool operator ==(const Sk& o) const { return a==o.a; } };
CXON_CBOR_CLS(Sk, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_SKIP("s"))
struct A3 { u8 a[3]={1,2,3}; bool operator ==(const A3& o) const { return !memcmp(a,o.a,3); } };
template <typename T> static bool same(const T& a, const T& b) { return a==b; }
static bool same(float a, float b) { return !memcmp(&a,&b,4); } static bool same(double a, double b) { return !memcmp(&a,&b,8); }
static bool same(const std::complex<float>& a, const std::complex<float>& b) { return same(a.real(),b.real()) && same(a.imag(),b.imag()); }
template <typename T> static bool same(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return bool(a)==bool(b) && (!a || *a==*b); }
template <typename T> static bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return bool(a)==bool(b) && (!a || *a==*b); }
template <typename T> static bool same(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size()!=b.size()) return false; bool eq=true; for (size_t i=0;i<a.size();++i) eq&= a[i]==b[i]; return eq; }
template <typename T> static bool same(std::priority_queue<T> a, std::priority_queue<T> b) { if (a.size()!=b.size()) return false; for (;!a.empty();a.pop(),b.pop()) if (a.top()!=b.top()) return false; return true; }
// targets read through a reference to a member (arrays)
template <typename T> struct Tg { T v{}; T& get() { return v; } };
template <> struct Tg<A3> { A3 v; u8 (&get())[3] { return v.a; } };
// name, length of the input in the quick and in the thorough tier, type
#define CBOR_TYPES(X) \
 X(t_bool,4,5,bool) X(t_nul,4,5,std::nullptr_t) X(t_u8,4,6,u8) X(t_i8,4,6,signed char) X(t_chr,4,6,char) X(t_i16,5,6,short) X(t_u32,6,7,unsigned) X(t_i64,10,11,long long) X(t_u64,10,11,u64) X(t_c16,4,6,char16_t) X(t_c32,6,7,char32_t) X(t_wc,6,7,wchar_t) \
 X(t_f,6,7,float) X(t_d,10,11,double) X(t_enm,4,5,En) X(t_str,4,6,std::string) X(t_wstr,4,5,std::u16string) X(t_vu8,4,6,std::vector<u8>) X(t_vu16,4,5,std::vector<unsigned short>) X(t_vb,4,5,std::vector<bool>) X(t_vv,4,5,std::vector<std::vector<u8>>) \
 X(t_lst,4,5,std::list<short>) X(t_fwd,4,5,std::forward_list<u8>) X(t_deq,4,5,std::deque<u8>) X(t_set,4,5,std::set<u8>) X(t_mset,4,5,std::multiset<u8>) X(t_uset,3,4,std::unordered_set<u8>) X(t_map,5,6,std::map<u8,u8>) X(t_mmap,4,5,std::multimap<u8,bool>) X(t_umap,4,5,std::unordered_map<u8,u8>) \
 X(t_par,4,5,std::pair<u8,bool>) X(t_tup,5,6,std::tuple<u8,std::string,bool>) X(t_arr,5,6,std::array<short,2>) X(t_car,4,6,A3) X(t_bit,5,6,std::bitset<11>) X(t_cpx,6,7,std::complex<float>) X(t_dur,4,6,std::chrono::milliseconds) X(t_upt,4,5,std::unique_ptr<short>) X(t_spt,4,5,std::shared_ptr<u8>) X(t_val,4,5,std::valarray<u8>) X(t_que,4,5,std::queue<u8>) X(t_stk,4,5,std::stack<u8>) X(t_pqu,4,5,std::priority_queue<u8>) X(t_cls,6,7,Cl) X(t_skp,6,7,Sk)
#define CBOR_TYPES_17(X) X(t_opt,4,5,std::optional<u8>) X(t_var,5,6,std::variant<u8,std::string,std::monostate>)
