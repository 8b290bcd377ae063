//@std 20 11
//@bounds texts: every JSON value of nesting depth up to 2 with up to 2 (arrays, objects) children, strings and keys with one raw character (any byte allowed unescaped) or any two-character escape, one- or two-character numbers and literals, 0..2 whitespace characters at one gap anywhere (depth 1; thorough also depth 2); tab 0..2 with pad space or tab; written values: vectors, maps, nested and empty containers with symbolic strings (1 arbitrary ASCII character) and numbers, bounded ranges of any size, the buffering adaptor; nesting of 63..300 levels, strings and lists of 24..300 elements, the layout exact
//@reach txt*: obj arr str lit empty gap nogap
//@reach val*: done
//@reach room*: fit full
//@reach raw: done
#include "h_json.h"
#include "cxon/json.hxx"
#include "cxon/lang/json/tidy.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include <array>
namespace json=cxon::json;
// generator: text with whitespace at one gap (x) and compact text (y)
struct Gen { std::string x, y; int gap, at=0; int budget;
    void ws() { if (at++==gap) { int k=(int)sx_range(1,2,"k"); for (int i=0;i<k;++i) { char w=sx_any<char>("ws"); sx_assume((w==' ')|(w=='\t')|(w=='\n')|(w=='\r')); x+=w; } } }
    void put(const char* s) { x+=s; y+=s; } void put(char c) { x+=c; y+=c; }
    void str() { put('"'); if (budget>0 && sx_range(0,1,"esc")) { --budget; put('\\'); put("\"\\/bfnrt"[sx_range(0,1,"e")]); } else if (budget>0) { --budget; char c=sx_any<char>("c"); sx_assume(u8(c)>=0x20 && c!='"' && c!='\\'); put(c); } put('"'); sx_reach("str"); }
    void val(int d) { ws(); switch (sx_range(0,d ? 3 : 1,"kind")) { case 0: str(); break; case 1: { sx_reach("lit"); put(sx_range(0,1,"lit") ? "-1" : "null"); break; }
        case 2: { sx_reach("arr"); int n=(int)sx_range(0,2,"n"); if (!n) sx_reach("empty"); put('['); for (int i=0;i<n;++i) { if (i) put(','); val(d-1); } if (!n) ws(); put(']'); break; }
        default: { sx_reach("obj"); int n=(int)sx_range(0,2,"n"); put('{'); for (int i=0;i<n;++i) { if (i) put(','); ws(); str(); ws(); put(':'); val(d-1); } if (!n) ws(); put('}'); } }
        ws(); } };
// removes whitespace outside strings
static std::string strip(const std::string& s) { std::string r; bool q=false, e=false; for (char c : s) { if (q) { r+=c; if (e) e=false; else if (c=='\\') e=true; else if (c=='"') q=false; } else if (c=='"') { r+=c; q=true; } else if (c!=' ' && c!='\t' && c!='\n' && c!='\r') r+=c; } return r; }
static bool eq(const std::string& a, const std::string& b) { if (a.size()!=b.size()) return false; bool r=true; for (size_t i=0;i<a.size();++i) r&= a[i]==b[i]; return r; }
static void txt(int depth, int gaps, unsigned tab, char pad) { Gen g; g.budget=2; g.gap=(int)sx_range(0,gaps,"gap")-1; g.val(depth); if (g.gap<0) sx_reach("nogap"); else { sx_assume(g.at>g.gap); sx_reach("gap"); }
    std::string t=json::tidy(g.x,tab,pad); sx_assert(eq(strip(t),g.y),"indenting adds nothing but whitespace outside strings"); sx_assert(eq(json::tidy(t,tab,pad),t),"indented text is not changed by indenting it again"); sx_assert(eq(json::tidy(g.y,tab,pad),t),"whitespace of the input does not influence the result");
    std::string u; sx_assert(json::tidy(std::back_inserter(u),g.x,tab,pad),"indenting into an output iterator"); sx_assert(eq(u,t),"the same output for every kind of output"); }
SX_ENTRY(txt1) { txt(1,12,1,'\t'); } SX_ENTRY(txt1s) { txt(1,12,2,' '); } SX_ENTRY(txt2) { txt(2,(int)sx_bound(0,8),1,'\t'); }
SX_ENTRY(txt2s) { txt((int)sx_bound(1,2),4,0,' '); }
// every byte inside a string, at every position, as single characters and as blocks
SX_ENTRY(raw) { char c[4]; sx_symbolic(c,4,"c"); std::string x="[\""; bool e=false; for (int i=0;i<4;++i) { if (!e) { sx_assume(c[i]!='"'); e= c[i]=='\\'; } else e=false; x+=c[i]; } sx_assume(!e); x+="\",1]"; std::string t=json::tidy(x,1,'\t'); sx_assert(eq(t,"[\n\t\""+x.substr(2,4)+"\",\n\t1\n]"),"strings are untouched"); sx_reach("done"); }
// values: written through the indenter = compact text indented; reads back
template <typename T> static void val(const T& v) { unsigned tab=(unsigned)sx_range(0,2,"tab"); char pad= sx_range(0,1,"pad") ? ' ' : '\t'; std::string c,s,b; sx_assert(bool(cxon::to_bytes(c,v)),"written"); sx_assert(bool(cxon::to_bytes(json::make_indenter(s,tab,pad),v)),"written with indentation"); sx_assert(eq(strip(s),c),"indenting adds nothing but whitespace outside strings"); sx_assert(eq(json::tidy(c,tab,pad),s),"direct and subsequent indentation agree");
    { std::array<char,3> f; auto r=cxon::to_bytes(json::make_indenter(cxon::cio::buffered_back_inserter(b,f),tab,pad),v); sx_assert(bool(r),"written"); } sx_assert(eq(b,s),"buffered and direct output agree");
    T w; auto r=cxon::from_bytes(w,s); sx_assert(bool(r),"the indented text reads back"); sx_assert(r.end==s.end(),"as a whole"); sx_assert(w==v,"to the same value"); sx_reach("done"); }
static std::string ch(const char* n) { char c=sx_any<char>(n); sx_assume(c>=0); return std::string(1,c); }
static std::string brk(const char* n) { return std::string(1,"[]{},:\"\\ "[sx_range(0,8,n)]); }
SX_ENTRY(val_v) { std::vector<std::string> v(sx_range(0,2,"n")); for (auto& x : v) x=&x==&v[0] ? ch("c") : brk("b"); val(v); }
SX_ENTRY(val_m) { std::map<std::string,int> m; if (sx_range(0,1,"n")) m[ch("k")]=(int)sx_range(0,1,"v"); if (m.size() && m.begin()->first!="kk") m["kk"]=12; val(m); }
SX_ENTRY(val_vv) { std::vector<std::vector<short>> v(sx_range(0,2,"n")); for (auto& x : v) x.assign(sx_range(0,2,"m"),7); val(v); }
SX_ENTRY(val_mv) { std::map<std::string,std::vector<std::string>> m; m["a"].assign(sx_range(0,2,"n"),brk("b")); if (sx_range(0,1,"k")) m["b"]; val(m); }
// bounded ranges
template <typename T> static void room(const T& v) { std::string s; sx_assert(bool(cxon::to_bytes(json::make_indenter(s,3,' '),v)),"written"); int n=(int)s.size(), k=(int)sx_range(0,n+1,"room"); char* p=(char*)malloc(k); memset(p,0x5A,k); auto r=cxon::to_bytes(json::make_indenter(p,p+k,3,' '),v); sx_assert(bool(r)==!r.ec,"result agrees with its error code"); sx_assert(bool(r)==(k>=n),"succeeds exactly when the output fits"); if (r) sx_reach("fit"); else sx_reach("full"); int m=0; while (m<k && m<n && p[m]==s[m]) ++m; sx_assert(m==std::min(k,n) || (!r && std::all_of(p+m,p+k,[](char c) { return c==0x5A; })),"the range holds a prefix of the unbounded output");
    std::string c; cxon::to_bytes(c,v); memset(p,0x5A,k); bool t=json::tidy(p,p+k,c,3,' '); sx_assert(t==(k>=n),"indenting a text into a range succeeds exactly when it fits"); m=0; while (m<k && m<n && p[m]==s[m]) ++m; sx_assert(m==std::min(k,n) || (!t && std::all_of(p+m,p+k,[](char c) { return c==0x5A; })),"the range holds a prefix of the unbounded output"); free(p); }
SX_ENTRY(room_v) { std::vector<int> v(sx_range(0,3,"n"),5); room(v); } SX_ENTRY(room_m) { std::map<std::string,std::vector<std::string>> m; m["a"].assign(sx_range(0,2,"n"),brk("b")); m["b"]; room(m); }
// nesting and indentation around the limits of 8 bit counters: the exact layout
SX_ENTRY(sz_deep) { int d=depth8(); unsigned tab=(unsigned)sx_range(0,2,"tab"); int form=(int)sx_range(0,2,"form"); std::string x, y; char c=sx_any<char>("c"); sx_assume(u8(c)>=0x20 && c!='"' && c!='\\'); auto nl=[&](int l) { y+='\n'; y.append((size_t)l*tab,'.'); };
    for (int i=0;i<d;++i) { bool a= form==0 || (form==2 && i%2); x+= a ? "[" : "{\"k\":"; y+= a ? '[' : '{'; nl(i+1); if (!a) y+="\"k\": "; } x+='"'; x+=c; x+='"'; y+='"'; y+=c; y+='"'; for (int i=d;i-->0;) { bool a= form==0 || (form==2 && i%2); nl(i); x+= a ? ']' : '}'; y+= a ? ']' : '}'; } std::string t=json::tidy(x,tab,'.'); sx_assert(eq(t,y),"every level is indented by its depth"); }
SX_ENTRY(sz_str) { int n=size8(); std::string s((size_t)n,'['); for (int i=0;i<n;i+=3) s[i]= i%2 ? '{' : ','; char c=sx_any<char>("c"); sx_assume(u8(c)>=0x20 && c!='"' && c!='\\'); s[n-1]=c; std::string x="[\""+s+"\",\""+s+"\"]", t=json::tidy(x,1,'\t'); sx_assert(eq(t,"[\n\t\""+s+"\",\n\t\""+s+"\"\n]"),"strings are untouched"); std::string o; std::vector<std::string> v; sx_assume(c>=0); v.push_back(s); v.push_back(s); sx_assert(bool(cxon::to_bytes(json::make_indenter(o,1,'\t'),v)),"written"); sx_assert(eq(o,t),"written values likewise"); }
SX_ENTRY(sz_list) { int n=size8(); std::vector<int> v((size_t)n,7); std::string y="["; for (int i=0;i<n;++i) y+= i ? ",\n\t\t7" : "\n\t\t7"; y+="\n\t]"; std::map<std::string,std::vector<int>> m; m["a"]=v; m["b"]=v; std::string o, x="{\n\t\"a\": "+y+",\n\t\"b\": "+y+"\n}"; sx_assert(bool(cxon::to_bytes(json::make_indenter(o,1,'\t'),m)),"written"); sx_assert(eq(o,x),"every element on its own line"); sx_assert(eq(json::tidy(o,1,'\t'),x),"indented text is not changed by indenting it again"); }
