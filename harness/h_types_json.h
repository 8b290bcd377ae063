// every kind of target type of the JSON readers, with an equality
#pragma once
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/stack.hxx"
#if __cplusplus>=201703L
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/variant.hxx"
#endif
struct strict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
using J=cxon::JSON<>; using JS=cxon::JSON<strict>;
enum class En { a=1, b=400 };
CXON_JSON_ENM(En, CXON_JSON_ENM_VALUE_NAME("a",a), CXON_JSON_ENM_VALUE_NAME("a\"",b))
struct Cl { u8 a=200; bool b=false; bool operator ==(const Cl& o) const { return a==o.a && b==o.b; } };
CXON_JSON_CLS(Cl, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
struct Sk { u8 a=200; bool operator ==(const Sk& o) const { return a==o.a; } };
CXON_JSON_CLS(Sk, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("s"))
struct A3 { u8 a[3]={1,2,3}; bool operator ==(const A3& o) const { return !memcmp(a,o.a,3); } };
struct C3 { char a[3]={1,2,3}; bool operator ==(const C3& o) const { return !memcmp(a,o.a,3); } };
template <typename T> static bool same(const T& a, const T& b) { return a==b; }
static bool same(float a, float b) { return a!=a ? b!=b : !memcmp(&a,&b,4); } static bool same(double a, double b) { return a!=a ? b!=b : !memcmp(&a,&b,8); }
static bool same(const std::complex<float>& a, const std::complex<float>& b) { return same(a.real(),b.real()) && same(a.imag(),b.imag()); }
template <typename T> static bool same(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return bool(a)==bool(b) && (!a || *a==*b); }
template <typename T> static bool same(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return bool(a)==bool(b) && (!a || *a==*b); }
template <typename T> static bool same(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size()!=b.size()) return false; bool eq=true; for (size_t i=0;i<a.size();++i) eq&= a[i]==b[i]; return eq; }
template <typename T> static bool same(std::priority_queue<T> a, std::priority_queue<T> b) { if (a.size()!=b.size()) return false; for (;!a.empty();a.pop(),b.pop()) if (a.top()!=b.top()) return false; return true; }
template <typename T> struct Tg { T v{}; T& get() { return v; } };
template <> struct Tg<A3> { A3 v; u8 (&get())[3] { return v.a; } }; template <> struct Tg<C3> { C3 v; char (&get())[3] { return v.a; } };
template <typename C> struct Ptr { C* p=nullptr; Ptr()=default; ~Ptr() { delete[] p; } bool operator ==(const Ptr& o) const { if (!p || !o.p) return !p && !o.p; int i=0; for (;p[i] && o.p[i];++i) if (p[i]!=o.p[i]) return false; return p[i]==o.p[i]; } };
template <typename C> struct Tg<Ptr<C>> { Ptr<C> v; C*& get() { return v.p; } };
// name, length of the input in the quick and in the thorough tier, type
#define JSON_TYPES(X) \
 X(t_bool,7,9,bool) X(t_nul,7,9,std::nullptr_t) X(t_u8,6,8,u8) X(t_chr,7,9,char) X(t_i16,6,8,short) X(t_i64,6,8,long long) X(t_c16,6,8,char16_t) X(t_c32,6,8,char32_t) X(t_wc,6,8,wchar_t) X(t_f,6,8,float) X(t_d,6,8,double) \
 X(t_enm,7,9,En) X(t_str,7,9,std::string) X(t_u16s,6,8,std::u16string) X(t_u32s,6,8,std::u32string) X(t_cp,6,8,Ptr<char>) X(t_ca,7,9,C3) \
 X(t_vu8,6,9,std::vector<u8>) X(t_vb,6,10,std::vector<bool>) X(t_vv,6,8,std::vector<std::vector<u8>>) X(t_vs,6,8,std::vector<std::string>) X(t_lst,6,8,std::list<short>) X(t_fwd,6,8,std::forward_list<u8>) X(t_deq,6,8,std::deque<u8>) X(t_set,6,8,std::set<u8>) X(t_mset,6,8,std::multiset<u8>) X(t_uset,6,8,std::unordered_set<u8>) \
 X(t_map,7,10,std::map<std::string,u8>) X(t_imap,7,10,std::map<u8,u8>) X(t_mmap,7,10,std::multimap<char,u8>) X(t_umap,7,10,std::unordered_map<u8,u8>) X(t_par,7,9,std::pair<u8,u8>) X(t_tup,7,10,std::tuple<u8,short,u8>) X(t_arr,7,9,std::array<short,2>) X(t_car,7,10,A3) X(t_bit,6,8,std::bitset<2>) X(t_cpx,7,9,std::complex<float>) X(t_dur,6,8,std::chrono::milliseconds) X(t_upt,6,8,std::unique_ptr<short>) X(t_spt,6,8,std::shared_ptr<u8>) X(t_val,6,8,std::valarray<u8>) X(t_que,6,8,std::queue<u8>) X(t_stk,6,8,std::stack<u8>) X(t_pqu,6,8,std::priority_queue<u8>) X(t_cls,8,11,Cl) X(t_skp,8,11,Sk)
#define JSON_TYPES_17(X) X(t_opt,6,8,std::optional<u8>) X(t_var,6,8,std::variant<u8,std::string,std::monostate>)
