/* Executes memory manager operations read from stdin and records what they did. Addresses are reported relative to the
   first program break; every allocation comes from the heap. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <cmath>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <climits>
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "mm_types.hh"
using namespace std;
static Trick::MemoryManager *mm;
static char *base0;
static long rel(const void *p) { return p ? (const char *)p - base0 : 0; }
static FILE *out;
static unsigned long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005UL + 1442695040888963407UL; return n ? (unsigned)((rs >> 33) % n) : 0; }
static bool hexf;
static size_t before_text;

/* ------------------------------------------------------------------ types, as the compiler lays them out */
struct Mem { string n; size_t off; string k; size_t z; vector<int> d; };
struct Ty { size_t sz; vector<Mem> m; };
static map<string, Ty> T;
#define M(S, f, k, z, ...) T[#S].m.push_back(Mem{#f, offsetof(S, f), k, z, vector<int>{__VA_ARGS__}})
static void types() {
    const char *names[] = {"char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "bool", "std::string", "Color"};
    size_t sz[] = {1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 1, sizeof(string), sizeof(Color)};
    for (int i = 0; i < 15; i++) T[names[i]].sz = sz[i];
    T["Leaf"].sz = sizeof(Leaf); T["Node"].sz = sizeof(Node); T["Stl"].sz = sizeof(Stl); T["Pt"].sz = sizeof(Pt);
    M(Leaf, c, "char", 1); M(Leaf, uc, "unsigned char", 1); M(Leaf, s, "short", 2); M(Leaf, us, "unsigned short", 2); M(Leaf, i, "int", 4);
    M(Leaf, ui, "unsigned int", 4); M(Leaf, l, "long", 8); M(Leaf, ul, "unsigned long", 8); M(Leaf, ll, "long long", 8); M(Leaf, ull, "unsigned long long", 8);
    M(Leaf, f, "float", 4); M(Leaf, d, "double", 8); M(Leaf, b, "bool", 1); M(Leaf, e, "Color", sizeof(Color));
    size_t bf = offsetof(Leaf, e) + sizeof(Color);      /* the unit of the bit-fields */
    T["Leaf"].m.push_back(Mem{"b1", bf, "#b1", 0, {}}); T["Leaf"].m.push_back(Mem{"b2", bf + 1, "#b2", 0, {}}); T["Leaf"].m.push_back(Mem{"b3", bf + 2, "#b3", 0, {}});
    M(Leaf, arr, "int", 4, 3); M(Leaf, mat, "double", 8, 2, 3); M(Leaf, text, "char", 1, 6); M(Leaf, es, "Color", sizeof(Color), 2);
    M(Pt, x, "int", 4); M(Pt, y, "double", 8, 2); M(Pt, to, "Pt", sizeof(Pt), 0);
    M(Node, id, "int", 4); M(Node, next, "Node", sizeof(Node), 0); M(Node, kids, "Node", sizeof(Node), 2, 0); M(Node, ip, "int", 4, 0); M(Node, dp, "double", 8, 0);
    M(Node, ipp, "int", 4, 0, 0); M(Node, leaf, "Leaf", sizeof(Leaf)); M(Node, pm, "Pt", sizeof(Pt), 2, 2); M(Node, lp, "Leaf", sizeof(Leaf), 0);
    M(Node, np, "Node", sizeof(Node), 0, 0); M(Node, pp, "Pt", sizeof(Pt), 0); M(Node, str, "std::string", sizeof(string)); M(Node, strs, "std::string", sizeof(string), 3);
    M(Node, dps, "double", 8, 2, 2, 0); M(Node, cs, "char", 1, 0); M(Node, css, "char", 1, 2, 0);
    M(Stl, k, "int", 4); M(Stl, vi, "#vi", 0); M(Stl, vd, "#vd", 0); M(Stl, dq, "#dq", 0); M(Stl, li, "#li", 0); M(Stl, se, "#se", 0); M(Stl, mp, "#mp", 0);
    M(Stl, vs, "#vs", 0); M(Stl, pr, "#pr", 0); M(Stl, ms, "#ms", 0); M(Stl, vb, "#vb", 0); M(Stl, ls, "#ls", 0); M(Stl, vv, "#vv", 0);
}
static string esc(const string &s) { string r; char b[4]; for (unsigned char c : s) { if (isalnum(c)) r += c; else { snprintf(b, 4, "%%%02x", c); r += b; } } return r; }
/* a cell: one value of an intrinsic type, or one pointer */
struct Cell { char *a; string k; int ptr; string path; int own; };   /* own: offset key inside the variable */
static void cells(char *a, const string &k, const vector<int> &d, size_t di, const string &path, vector<Cell> &v, char *obj) {
    if (di < d.size() && d[di] > 0) {
        size_t step = 1; bool p = false;
        for (size_t j = di + 1; j < d.size(); j++) { if (d[j] > 0) step *= d[j]; else p = true; }
        step *= p ? sizeof(void *) : T[k].sz;
        for (int i = 0; i < d[di]; i++) cells(a + i * step, k, d, di + 1, path + "[" + to_string(i) + "]", v, obj);
        return;
    }
    if (di < d.size()) { v.push_back(Cell{a, k, (int)(d.size() - di), path, 0}); return; }
    if (k[0] != '#' && T[k].m.size()) { for (auto &m : T[k].m) cells(a + m.off, m.k, m.d, 0, path + "." + m.n, v, a); return; }
    v.push_back(Cell{a, k, 0, path, 0});
    if (k[0] == '#' && k[1] == 'b' && isdigit(k[2])) v.back().a = a;   /* bit-field: a is only its key */
}
static string num(double x) { char b[64]; x += 0.0; if (std::isnan(x)) return "nan"; snprintf(b, 64, "%a", x); return b; }
template <class C> static string seq(const C &c) { string r = "["; for (auto x : c) r += (r.size() > 1 ? "," : "") + to_string(x); return r + "]"; }
static size_t BF() { return offsetof(Leaf, e) + sizeof(Color); }
static bool bits(const string &k) { return k == "#b1" || k == "#b2" || k == "#b3"; }
static string get(const Cell &c) {
    char *a = c.a; const string &k = c.k; string r;
    if (k == "char") return to_string((int)*a);
    if (k == "unsigned char") return to_string((int)*(unsigned char *)a);
    if (k == "short") return to_string(*(short *)a);
    if (k == "unsigned short") return to_string(*(unsigned short *)a);
    if (k == "int") return to_string(*(int *)a);
    if (k == "Color") return to_string((int)*(Color *)a);
    if (k == "unsigned int") return to_string(*(unsigned *)a);
    if (k == "long" || k == "long long") return to_string(*(long *)a);
    if (k == "unsigned long" || k == "unsigned long long") return to_string(*(unsigned long *)a);
    if (k == "float") return num(*(float *)a);
    if (k == "double") return num(*(double *)a);
    if (k == "bool") return *a ? "1" : "0";
    if (k == "std::string") return "s" + esc(*(string *)a);
    if (bits(k)) { Leaf *l = (Leaf *)(a - BF() - (k[2] - '1')); return to_string(k == "#b1" ? (int)l->b1 : k == "#b2" ? (int)l->b2 : (int)l->b3); }
    if (k == "#vi") return seq(*(vector<int> *)a);
    if (k == "#vb") return seq(*(vector<bool> *)a);
    if (k == "#vd") { r = "["; for (double x : *(vector<double> *)a) r += num(x) + ","; return r + "]"; }
    if (k == "#dq") return seq(*(deque<short> *)a);
    if (k == "#li") return seq(*(list<long> *)a);
    if (k == "#se") return seq(*(set<int> *)a);
    if (k == "#mp") { r = "["; for (auto &x : *(map<int, double> *)a) r += to_string(x.first) + ":" + num(x.second) + ","; return r + "]"; }
    if (k == "#ms") { r = "["; for (auto &x : *(map<string, int> *)a) r += esc(x.first) + ":" + to_string(x.second) + ","; return r + "]"; }
    if (k == "#vs") { r = "["; for (auto &x : *(vector<string> *)a) r += esc(x) + ","; return r + "]"; }
    if (k == "#ls") { r = "["; for (auto &x : *(list<string> *)a) r += esc(x) + ","; return r + "]"; }
    if (k == "#vv") { r = "["; for (auto &x : *(vector<vector<int> > *)a) r += seq(x); return r + "]"; }
    if (k == "#pr") { auto &p = *(pair<int, int> *)a; return to_string(p.first) + ":" + to_string(p.second); }
    return "?";
}
static double rdbl(bool flt) {
    static const double x[] = {0, 1, -1, 0.5, -0.25, 1e300, -1e-300, 123456.789, -3.0e8, 5e-324, 2e10, 100, 65536, 0.125};
    if (!hexf) { double v = x[rnd(14)]; if (flt && (fabs(v) > 1e30 || (v && fabs(v) < 1e-30))) v = 2.5; if (flt) { static const double y[] = {0, 1, -1, .5, -.25, 12.75, 4096, 1048576}; v = y[rnd(8)]; } if (!flt && v && fabs(v) < 1e-300) v = 1e-3; return v; }
    unsigned long b = ((unsigned long)rnd(UINT_MAX) << 32) ^ ((unsigned long)rnd(UINT_MAX) << 3) ^ rnd(8); double v; memcpy(&v, &b, 8);
    if (rnd(3) == 0) v = x[rnd(14)];
    if (!std::isfinite(v)) v = 0.1;
    if (flt) { v = (double)(float)v; if (!std::isfinite(v)) v = 0.1f; }
    return v;
}
static long rint64() { static const long x[] = {0, 0, 1, -1, 7, 127, -128, 32767, -32768, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, 1L << 53, (1L << 53) + 1, -12345678901L}; return x[rnd(16)]; }
static string rstr() { static const char *x[] = {"", "a", "hello world", "tab\tand\nnewline", "quote\"d", "a longer string that does not fit inline", "semi;colon // not a comment", "{1,2}", "&x[3]", "it's", "%d%s", "1.5 {m}", "back\\slash", "ends in \\", "\\\"both\\n"}; return x[rnd(15)]; }
static void put(const Cell &c) {
    char *a = c.a; const string &k = c.k; long v = rint64(); int n = rnd(4), i;
    if (k == "char") { static const char x[] = {0, 'a', 'Z', ' ', '9', '{', '"', 1, 31, 127, '/', -1, '#', '\\', '\''}; *a = x[rnd(15)]; }
    else if (k == "unsigned char") *a = (char)v;
    else if (k == "short" || k == "unsigned short") *(short *)a = (short)v;
    else if (k == "int" || k == "unsigned int") *(int *)a = (int)v;
    else if (k == "Color") { static const Color x[] = {RED, GREEN, BLUE, BIG}; *(Color *)a = x[rnd(4)]; }
    else if (k == "long" || k == "long long" || k == "unsigned long" || k == "unsigned long long") *(long *)a = v;
    else if (k == "float") *(float *)a = (float)rdbl(true);
    else if (k == "double") *(double *)a = rdbl(false);
    else if (k == "bool") *a = rnd(2);
    else if (k == "std::string") *(string *)a = rstr();
    else if (bits(k)) { Leaf *l = (Leaf *)(a - BF() - (k[2] - '1')); int x = rnd(128); if (k == "#b1") l->b1 = x; else if (k == "#b2") l->b2 = x; else l->b3 = x; }
    else if (k == "#vi") { vector<int> x; while (n--) x.push_back((int)rint64()); *(vector<int> *)a = x; }
    else if (k == "#vb") { vector<bool> x; while (n--) x.push_back(rnd(2)); *(vector<bool> *)a = x; }
    else if (k == "#vd") { vector<double> x; while (n--) x.push_back(rdbl(false)); *(vector<double> *)a = x; }
    else if (k == "#dq") { deque<short> x; while (n--) x.push_back((short)rint64()); *(deque<short> *)a = x; }
    else if (k == "#li") { list<long> x; while (n--) x.push_back(rint64()); *(list<long> *)a = x; }
    else if (k == "#se") { set<int> x; while (n--) x.insert((int)rint64()); *(set<int> *)a = x; }
    else if (k == "#mp") { map<int, double> x; while (n--) { int q = (int)rint64(); x[q] = rdbl(false); } *(map<int, double> *)a = x; }
    else if (k == "#ms") { map<string, int> x; while (n--) { string q = rstr(); x[q] = (int)rint64(); } *(map<string, int> *)a = x; }
    else if (k == "#vs") { vector<string> x; while (n--) x.push_back(rstr()); *(vector<string> *)a = x; }
    else if (k == "#ls") { list<string> x; while (n--) x.push_back(rstr()); *(list<string> *)a = x; }
    else if (k == "#vv") { vector<vector<int> > x; for (i = 0; i < n; i++) { x.push_back(vector<int>()); for (int j = rnd(3); j > 0; j--) x.back().push_back((int)rint64()); } *(vector<vector<int> > *)a = x; }
    else if (k == "#pr") *(pair<int, int> *)a = make_pair((int)v, (int)rint64());
}
/* ------------------------------------------------------------------ the allocations, from the manager's own list */
struct Var { char *a; char *end; string name, t; vector<int> d; bool loc; unsigned id; long num, sz; };
static string tname(ALLOC_INFO *i) {
    if (i->user_type_name) return i->user_type_name;
    switch (i->type) {
        case TRICK_CHARACTER: return "char"; case TRICK_UNSIGNED_CHARACTER: return "unsigned char"; case TRICK_SHORT: return "short"; case TRICK_UNSIGNED_SHORT: return "unsigned short";
        case TRICK_INTEGER: return "int"; case TRICK_UNSIGNED_INTEGER: return "unsigned int"; case TRICK_LONG: return "long"; case TRICK_UNSIGNED_LONG: return "unsigned long";
        case TRICK_LONG_LONG: return "long long"; case TRICK_UNSIGNED_LONG_LONG: return "unsigned long long"; case TRICK_FLOAT: return "float"; case TRICK_DOUBLE: return "double";
        case TRICK_BOOLEAN: return "bool"; case TRICK_STRING: return "std::string"; default: return "?";
    }
}
static vector<Var> vars() {
    vector<Var> v;
    for (Trick::ALLOC_INFO_MAP_ITER i = mm->alloc_info_map_begin(); i != mm->alloc_info_map_end(); ++i) {
        ALLOC_INFO *x = i->second; Var w;
        w.a = (char *)x->start; w.end = (char *)x->end; w.name = x->name ? x->name : ""; w.t = tname(x); w.loc = x->stcl == TRICK_LOCAL; w.id = x->id; w.num = x->num; w.sz = x->size;
        w.d.assign(x->index, x->index + x->num_index); v.push_back(w);
    }
    sort(v.begin(), v.end(), [](const Var &a, const Var &b) { return a.id < b.id; });
    return v;
}
static vector<Cell> vcells(const Var &w) { vector<Cell> c; cells(w.a, w.t, w.d, 0, w.name, c, w.a); return c; }
static string arr(const vector<int> &d) { string r = "["; for (int x : d) r += (r.size() > 1 ? "," : "") + to_string(x); return r + "]"; }
static vector<char *> past; static vector<string> names;
static void note(const string &n) { if (n.size() && find(names.begin(), names.end(), n) == names.end()) names.push_back(n); }
/* the table of variables, what each known name resolves to, and what addresses are found */
static void tab() {
    fprintf(out, ",\"tab\":["); bool f = true; auto v = vars(); for (auto &w : v) note(w.name);
    for (auto &w : v) { fprintf(out, "%s{\"a\":%ld,\"end\":%ld,\"n\":\"%s\",\"t\":\"%s\",\"d\":%s,\"loc\":%s,\"num\":%ld,\"sz\":%ld}", f ? "" : ",", rel(w.a), rel(w.end), w.name.c_str(), w.t.c_str(), arr(w.d).c_str(), w.loc ? "true" : "false", w.num, w.sz); f = false; }
    fprintf(out, "],\"names\":["); f = true;
    for (auto &n : names) {
        REF2 *r = mm->ref_attributes(n.c_str());
        fprintf(out, "%s[\"%s\",%d,%ld]", f ? "" : ",", n.c_str(), mm->var_exists(n), r ? rel(r->address) : 0); f = false;
        if (r) free(r);
    }
    fprintf(out, "],\"at\":["); f = true;
    vector<char *> ps;
    for (auto &w : v) { ps.push_back(w.a); ps.push_back(w.a + (w.end - w.a) / 2); ps.push_back(w.end); ps.push_back(w.end + 1); ps.push_back(w.a - 1); if (find(past.begin(), past.end(), w.a) == past.end()) past.push_back(w.a); }
    for (char *p : past) { ps.push_back(p); ps.push_back(p + 1); }
    sort(ps.begin(), ps.end()); ps.erase(unique(ps.begin(), ps.end()), ps.end());
    for (char *p : ps) {
        ALLOC_INFO *i = mm->get_alloc_info_of(p);
        fprintf(out, "%s[%ld,%ld,%d,%d,%d]", f ? "" : ",", rel(p), i ? rel(i->start) : 0, mm->is_alloced(p), mm->get_size(p), mm->get_truncated_size(p)); f = false;
    }
    fprintf(out, "]");
}
static bool text(const Cell &c) { return c.k == "char" && c.ptr == 1; }
static void dump() {     /* per variable: its values in the order of its cells, and where its pointers lead */
    auto v = vars(); bool f = true, g;
    fprintf(out, ",\"v\":[");
    for (auto &w : v) { fprintf(out, f ? "[" : ",["); f = false; g = true;
        for (auto &c : vcells(w)) if (!c.ptr || text(c)) {
            string s = text(c) ? (*(char **)c.a ? "s" + esc(*(char **)c.a) : "null") : get(c);
            fprintf(out, "%s\"%s\"", g ? "" : ",", s.c_str()); g = false; }
        fprintf(out, "]"); }
    fprintf(out, "],\"p\":["); f = true;
    for (auto &w : v) { fprintf(out, f ? "[" : ",["); f = false; g = true;
        for (auto &c : vcells(w)) if (c.ptr && !text(c)) { fprintf(out, "%s%ld", g ? "" : ",", rel(*(char **)c.a)); g = false; }
        fprintf(out, "]"); }
    fprintf(out, "]");
}
/* addresses a pointer to (type k, depth n) may hold */
static void targets(char *a, const string &k, const vector<int> &d, size_t di, const string &tk, int depth, vector<char *> &r) {
    if (di < d.size() && d[di] > 0) {
        size_t step = 1; bool p = false;
        for (size_t j = di + 1; j < d.size(); j++) { if (d[j] > 0) step *= d[j]; else p = true; }
        step *= p ? sizeof(void *) : T[k].sz;
        for (int i = 0; i < d[di]; i++) targets(a + i * step, k, d, di + 1, tk, depth, r);
        return;
    }
    int left = d.size() - di;
    if (k == tk && left == depth) r.push_back(a);
    if (!left && k[0] != '#') for (auto &m : T[k].m) targets(a + m.off, m.k, m.d, 0, tk, depth, r);
}
static void retarget(const Cell &c) {
    vector<char *> r;
    if (text(c)) {
        before_text = vars().size();
        if (rnd(4) == 0) *(char **)c.a = NULL; else *(char **)c.a = mm->mm_strdup(rstr().c_str());
        return;
    }
    for (auto &w : vars()) targets(w.a, w.t, w.d, 0, c.k, c.ptr - 1, r);
    *(char **)c.a = (r.empty() || rnd(6) == 0) ? NULL : r[rnd(r.size())];
}

static void pset(const Cell &c) {
    if (c.ptr && !text(c)) fprintf(out, "{\"e\":\"point\",\"k\":%ld,\"a\":%ld}\n", rel(c.a), rel(*(char **)c.a));
    else if (text(c)) { fprintf(out, "{\"e\":\"text\",\"k\":%ld,\"v\":\"%s\"", rel(c.a), *(char **)c.a ? ("s" + esc(*(char **)c.a)).c_str() : "null");
        fprintf(out, ",\"new\":["); auto v = vars();
        for (size_t i = before_text; before_text && i < v.size(); i++) { fprintf(out, "%s{\"a\":%ld,\"d\":%s,\"v\":[", i > before_text ? "," : "", rel(v[i].a), arr(v[i].d).c_str()); bool g = true; for (auto &x : vcells(v[i])) { fprintf(out, "%s\"%s\"", g ? "" : ",", get(x).c_str()); g = false; } fprintf(out, "]}"); }
        before_text = 0; fprintf(out, "]"); tab(); fprintf(out, "}\n"); }
    else fprintf(out, "{\"e\":\"set\",\"k\":%ld,\"v\":\"%s\"}\n", rel(c.a), get(c).c_str());
}
/* before [a,end] goes away, nothing points into it */
static void detach(char *a, char *end) {
    for (auto &w : vars()) for (auto &c : vcells(w)) if (c.ptr) { char *p = *(char **)c.a; if (p >= a && p <= end) { *(char **)c.a = NULL; pset(c); } }
}
static string cdecl_(const string &t, int st, const string &n, const vector<int> &d) { string r = t + string(st, '*') + (n.size() ? " " + n : ""); for (int x : d) r += "[" + to_string(x) + "]"; return r; }
static void fulldims(vector<int> &d, int st) { while (st--) d.push_back(0); }
static bool anontext(const Var &w) { return w.loc && w.name.empty() && w.t == "char" && w.d.size() == 1; }
/* random walk along a name; may leave what exists. Events carry the tokens for the specification. */
static void walk(unsigned bad) {
    auto v = vars(); vector<Var> nv; for (auto &w : v) if (w.name.size()) nv.push_back(w);
    string s, toks; 
    if (nv.empty() || rnd(100) < bad / 3) { s = "nosuch"; fprintf(out, "{\"e\":\"ref\",\"n\":\"nosuch\",\"path\":[]"); }
    else {
        Var w = nv[rnd(nv.size())]; s = w.name; string k = w.t; vector<int> d = w.d; size_t di = 0; bool loose = false;   /* past what a pointer leads to: bytes there are not pointers */
        string nm = s; 
        for (int step = 0; step < 9; step++) {
            if (di < d.size()) {
                if (rnd(12) == 0 || (loose && d[di] == 0)) break;
                if (di + 1 == d.size() && T[k].m.size() && k[0] != '#' && d[di] == 0 && rnd(2)) {   /* -> */
                    string f = rnd(100) < bad / 2 ? "bogus" : T[k].m[rnd(T[k].m.size())].n; Mem *q = NULL; for (auto &m : T[k].m) if (m.n == f) q = &m;
                    toks += string(toks.size() ? "," : "") + "[\"a\",\"" + f + "\",0]"; s += "->" + f;
                    
                    if (!q) break; k = q->k; d = q->d; di = 0; continue;
                }
                int n = d[di] > 0 ? d[di] : 2 + rnd(2), i = rnd(100) < bad ? n + rnd(3) : rnd(n);
                toks += string(toks.size() ? "," : "") + "[\"i\",\"\"," + to_string(i) + "]"; s += "[" + to_string(i) + "]"; if (d[di] == 0 && i) loose = true; di++;
            } else if (k[0] != '#' && T[k].m.size()) {
                if (rnd(15) == 0) break;
                string f = rnd(100) < bad / 2 ? "bogus" : T[k].m[rnd(T[k].m.size())].n; Mem *q = NULL; for (auto &m : T[k].m) if (m.n == f) q = &m;
                toks += string(toks.size() ? "," : "") + "[\"m\",\"" + f + "\",0]"; s += "." + f;
                if (!q) break; k = q->k; d = q->d; di = 0;
            } else {
                if (rnd(100) < bad / 2) { if (rnd(2)) { toks += string(toks.size() ? "," : "") + "[\"m\",\"x\",0]"; s += ".x"; } else if (k[0] != '#') { toks += string(toks.size() ? "," : "") + "[\"i\",\"\",0]"; s += "[0]"; } }
                break;
            }
        }
        fprintf(out, "{\"e\":\"ref\",\"n\":\"%s\",\"path\":[%s]", nm.c_str(), toks.c_str());
    }
    REF2 *r = mm->ref_attributes(s.c_str());
    string ty = "";
    if (r) {
        ALLOC_INFO x; memset(&x, 0, sizeof x); x.type = r->attr->type;
        switch (r->attr->type) { case TRICK_STRUCTURED: case TRICK_ENUMERATED: ty = r->attr->type_name ? r->attr->type_name : "?"; break; case TRICK_BITFIELD: case TRICK_UNSIGNED_BITFIELD: ty = "bits"; break; case TRICK_STL: ty = "stl"; break; default: ty = tname(&x); }
        size_t p = ty.find_first_of("*["); if (p != string::npos) ty = ty.substr(0, p); while (ty.size() && ty.back() == ' ') ty.pop_back();
    }
    fprintf(out, ",\"s\":\"%s\",\"r\":%d,\"a\":%ld,\"t\":\"%s\",\"left\":%d}\n", s.c_str(), r ? 1 : 0, r ? rel(r->address) : 0, ty.c_str(), r ? r->attr->num_index - r->num_index : 0);
    if (r) free(r);
}
/* the name of an element's address resolves back to it */
static void nameof_() {
    auto v = vars(); if (v.empty()) return;
    Var w = v[rnd(v.size())]; auto c = vcells(w); if (c.empty() || w.name.empty()) return;
    Cell x = c[rnd(c.size())];
    if (bits(x.k)) return;
    string n = mm->ref_name_from_address(x.a), m = n.size() && n[0] == '&' ? n.substr(1) : n;
    REF2 *r = mm->ref_attributes(m.c_str());
    fprintf(out, "{\"e\":\"nameof\",\"a\":%ld,\"s\":\"%s\",\"r\":%d,\"ra\":%ld}\n", rel(x.a), esc(m).c_str(), r ? 1 : 0, r ? rel(r->address) : 0);
    if (r) free(r);
}
/* assignment by name through the parser */
static void assign() {
    auto v = vars(); vector<Var> nv; for (auto &w : v) if (w.name.size() && w.t != "Stl") nv.push_back(w);
    if (nv.empty()) return;
    Var w = nv[rnd(nv.size())]; auto cs = vcells(w); if (cs.empty()) return;
    Cell c = cs[rnd(cs.size())]; if (text(c) || c.k[0] == '#') return;
    string val;
    if (c.ptr) { vector<Cell> t; for (auto &u : nv) { /* &path of an element */ }
        *(char **)c.a = NULL; val = "NULL"; }
    else {
        long x = rint64();
        if (c.k == "std::string") { val = "\"abc " + to_string(rnd(100)) + "\""; }
        else if (c.k == "bool") val = rnd(2) ? "true" : "false";
        else if (c.k == "Color") val = rnd(2) ? "GREEN" : "BLUE";
        else if (c.k == "float" || c.k == "double") { static const char *y[] = {"1.5", "-2.25e3", "0.0", "1e10", "7"}; val = y[rnd(5)]; }
        else if (c.k == "char" || c.k == "unsigned char") val = to_string(rnd(100));
        else if (c.k.find("unsigned") == 0) val = to_string(rnd(60000));
        else if (c.k == "short") val = to_string((short)x);
        else if (c.k == "int") val = to_string((int)x);
        else val = to_string(x == LONG_MIN ? 5 : x);
    }
    string st = c.path + " = " + val + ";";
    mm->read_checkpoint_from_string(st.c_str());
    string got = c.ptr ? "" : get(c), want = val;
    if (c.k == "std::string") want = "s" + esc(val.substr(1, val.size() - 2));
    else if (c.k == "bool") want = val == "true" ? "1" : "0";
    else if (c.k == "Color") want = val == "GREEN" ? "1" : "-3";
    else if (c.k == "float" || c.k == "double") want = num(atof(val.c_str()));
    if (c.ptr) fprintf(out, "{\"e\":\"point\",\"k\":%ld,\"a\":0,\"by\":\"%s\"}\n", rel(c.a), esc(st).c_str());
    else fprintf(out, "{\"e\":\"set\",\"k\":%ld,\"v\":\"%s\",\"by\":\"%s\"}\n", rel(c.a), want.c_str(), esc(st).c_str());
    fprintf(out, "{\"e\":\"dump\""); dump(); fprintf(out, "}\n");
}
static char *aof(const string &w) {   /* #k: k-th variable; anything else: a name's address */
    auto v = vars(); if (w[0] == '#') { unsigned k = atoi(w.c_str() + 1); return v.empty() ? NULL : v[k % v.size()].a; } return NULL;
}
int main() {
    mallopt(M_MMAP_MAX, 0); mallopt(M_TRIM_THRESHOLD, INT_MAX);
    out = fdopen(dup(1), "w"); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    if (!getenv("VERBOSE")) dup2(nul, 2);
    base0 = (char *)sbrk(0) - (64 << 20); types();
    string line; bool first = true;
    while (getline(cin, line)) {
        istringstream is(line); string op, w; is >> op; if (op.empty()) continue;
        if (op == "new") {
            delete mm; mm = new Trick::MemoryManager; mm->set_debug_level(getenv("DBG")?2:0); past.clear(); names.clear(); unsigned long s; is >> s; rs = s * 2654435761UL + 12345; names.push_back("nosuch");
            string h; is >> h; hexf = h == "hex"; mm->set_hexfloat_checkpoint(hexf); string rd; is >> rd; mm->set_reduced_checkpoint(rd != "full");
            fprintf(out, "{\"e\":\"scn\",\"types\":{"); bool f = true;
            for (auto &t : T) { fprintf(out, "%s\"%s\":{\"sz\":%zu,\"m\":[", f ? "" : ",", t.first.c_str(), t.second.sz); f = false; bool g = true;
                for (auto &m : t.second.m) { fprintf(out, "%s{\"n\":\"%s\",\"o\":%zu,\"k\":\"%s\",\"d\":%s}", g ? "" : ",", m.n.c_str(), m.off, m.k.c_str(), arr(m.d).c_str()); g = false; } fprintf(out, "]}"); }
            fprintf(out, "}}\n"); fflush(out); continue;
        }
        if (op == "decl" || op == "ext" || op == "decln") {      /* type|stars|name|dims... */
            string t, n; int st; vector<int> d; is >> t >> st >> n; replace(t.begin(), t.end(), '_', ' '); if (n == "-") n = ""; int x; while (is >> x) d.push_back(x);
            string s = cdecl_(t, st, n, d); void *r, *ea = NULL; vector<int> fd = d; 
            if (op == "decln" && d.size()) { vector<int> rest(d.begin() + 1, d.end()); r = mm->declare_var(cdecl_(t, st, n, rest).c_str(), d[0]); }
            else if (op == "ext") { long k = 1; for (int y : d) k *= y > 0 ? y : 1; size_t z = st ? 8 : T.count(t) ? T[t].sz : 8; ea = calloc(k, z);
                if (!st && t == "std::string") for (int i = 0; i < k; i++) new ((string *)ea + i) string(); else if (!st && t == "Node") for (int i = 0; i < k; i++) new ((Node *)ea + i) Node(); else if (!st && t == "Stl") for (int i = 0; i < k; i++) new ((Stl *)ea + i) Stl();
                r = mm->declare_extern_var(ea, s.c_str()); }
            else r = mm->declare_var(s.c_str());
            note(n); fulldims(fd, st);
            fprintf(out, "{\"e\":\"decl\",\"n\":\"%s\",\"t\":\"%s\",\"d\":%s,\"nc\":%zu,\"loc\":%s,\"ea\":%ld,\"r\":%ld", n.c_str(), t.c_str(), arr(fd).c_str(), d.size(), op == "ext" ? "false" : "true", rel(ea), rel(r)); tab(); fprintf(out, "}\n");
        } else if (op == "del" || op == "deln") {
            string x; is >> x; char *a = NULL; int r; string n = "";
            if (op == "del") { a = aof(x); if (x == "null") a = NULL; else if (x == "inner") { auto v = vars(); if (v.size()) { a = v[0].a + 1; } } else if (a) { ALLOC_INFO *i = mm->get_alloc_info_at(a); detach(a, (char *)i->end); } r = mm->delete_var((void *)a); }
            else { n = x; for (auto &w : vars()) if (w.name == x) detach(w.a, w.end); r = mm->delete_var(x); note(x); }
            fprintf(out, "{\"e\":\"del\",\"by\":\"%s\",\"n\":\"%s\",\"a\":%ld,\"r\":%d", op.c_str(), n.c_str(), rel(a), r); tab(); fprintf(out, "}\n");
        } else if (op == "resize") {     /* #k or name, dims */
            string x; is >> x; vector<int> d; int y; while (is >> y) d.push_back(y); char *a = NULL; void *r; string n = "";
            bool skip = false; for (auto &w : vars()) if ((w.t == "Node" || w.t == "Stl") && (w.d.empty() || w.d.back()) && (x[0] == '#' ? w.a == aof(x) : w.name == x)) skip = true;
            if (skip) continue;      /* elements that may not be moved by copying their bytes */
            if (x[0] == '#') { a = aof(x); if (a) { ALLOC_INFO *i = mm->get_alloc_info_at(a); detach(a, (char *)i->end); } r = d.size() == 1 ? mm->resize_array((void *)a, d[0]) : mm->resize_array((void *)a, d.size(), d.data()); }
            else { n = x; note(n); for (auto &w : vars()) if (w.name == x) detach(w.a, w.end); r = d.size() == 1 ? mm->resize_array(x.c_str(), d[0]) : mm->resize_array(x.c_str(), d.size(), d.data()); }
            fprintf(out, "{\"e\":\"resize\",\"by\":\"%s\",\"n\":\"%s\",\"a\":%ld,\"d\":%s,\"r\":%ld", n.size() ? "name" : "addr", n.c_str(), rel(a), arr(d).c_str(), rel(r)); tab(); dump(); fprintf(out, "}\n");
        } else if (op == "name") {
            string x, n; is >> x >> n; char *a = aof(x); if (!a) continue; int r = mm->set_name_at(a, n.c_str()); note(n);
            fprintf(out, "{\"e\":\"name\",\"a\":%ld,\"n\":\"%s\",\"r\":%d", rel(a), n.c_str(), r); tab(); fprintf(out, "}\n");
        } else if (op == "set") {     /* count */
            int n = 1; is >> n; 
            while (n--) { auto v = vars(); vector<Var> u; for (auto &w : v) if (!anontext(w)) u.push_back(w); if (u.empty()) break; Var w = u[rnd(u.size())]; auto c = vcells(w); if (c.empty()) continue; Cell x = c[rnd(c.size())]; if (x.ptr) retarget(x); else put(x); pset(x); }
        } else if (op == "ptrs") {    /* aim every pointer somewhere */
            int pc = 50; is >> pc; for (auto &w : vars()) if (!anontext(w)) for (auto &x : vcells(w)) if (x.ptr && (int)rnd(100) < pc) { retarget(x); pset(x); }
        } else if (op == "fill") {    /* give every cell of one variable a value */
            string x; is >> x; char *a = aof(x); for (auto &w : vars()) if (w.a == a && !anontext(w)) for (auto &c : vcells(w)) if (!c.ptr) { put(c); pset(c); }
        } else if (op == "ref") { int bad = 10; is >> bad; walk(bad); }
        else if (op == "nameof") nameof_();
        else if (op == "asg") assign();
        else if (op == "clear") { string x; is >> x; char *a = aof(x); if (!a) continue; mm->clear_var((void *)a); fprintf(out, "{\"e\":\"clear\",\"a\":%ld", rel(a)); dump(); fprintf(out, "}\n"); }
        else if (op == "dump") { fprintf(out, "{\"e\":\"dump\""); dump(); fprintf(out, "}\n"); }
        else if (op == "reset") { for (auto &w : vars()) if (w.loc) detach(w.a, w.end); mm->reset_memory(); fprintf(out, "{\"e\":\"reset\""); tab(); fprintf(out, "}\n"); }
        else if (op == "ckpt") {      /* [names...]: write, forget, read, write */
            vector<string> sel; string x; while (is >> x) { bool k = false; for (auto &w : vars()) if (w.name == x) k = true; if (k) sel.push_back(x); }
            vector<const char *> cs; for (auto &y : sel) cs.push_back(y.c_str());
            stringstream s1, s2; 
            if (sel.empty()) mm->write_checkpoint(s1); else mm->write_checkpoint(s1, cs);
            string sl = "["; for (auto &y : sel) sl += (sl.size() > 1 ? ",\"" : "\"") + y + "\""; sl += "]";
            fprintf(out, "{\"e\":\"wrote\",\"sel\":%s", sl.c_str()); tab(); dump(); fprintf(out, "}\n");
            if (getenv("VERBOSE")) cerr << s1.str();
            for (auto &w : vars()) if (!w.loc) for (auto &c : vcells(w)) { if (c.ptr) *(char **)c.a = NULL; else put(c); }
            mm->reset_memory();
            string text1 = s1.str(); mm->init_from_checkpoint(&s1);
            if (sel.empty()) mm->write_checkpoint(s2); else mm->write_checkpoint(s2, cs);
            if (getenv("VERBOSE") && text1 != s2.str()) cerr << "SECOND:\n" << s2.str();
            fprintf(out, "{\"e\":\"read\",\"sel\":%s,\"ok\":%d,\"same\":%d", sl.c_str(), mm->get_checkpoint_restore_state() ? 1 : 0, text1 == s2.str() ? 1 : 0); tab(); dump(); fprintf(out, "}\n");
        }
        fflush(out);
    }
    fprintf(out, "{\"e\":\"end\"}\n"); fflush(out); _exit(0);
}
