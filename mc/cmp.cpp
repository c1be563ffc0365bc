// Exhaustive check of the relational operators (C08): all ordered pairs of containers (every capacity, start offset,
// size, for the space-optimized container every minimum capacity and both ways of growing) with all words over a small
// alphabet, against element-by-element lexicographic comparison of the words they were built from.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <ctime>
#if MCDEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#else
#define BOOST_CB_DISABLE_DEBUG
#endif
#include <boost/circular_buffer.hpp>
#ifndef KIND
#define KIND 0
#endif
typedef unsigned long long u64;
// element types; letters 0..alphabet-1
#if KIND == 0          // plain integers
typedef int Elem; static Elem make(int l) { static const int t[4] = { 1, 256, -2147483647, 2147483647 }; return t[l & 3]; }
static const int MAXL = 4;
#elif KIND == 1        // only == and < exist, as non-members on const objects
struct Elem { int v; };
static bool operator==(const Elem& a, const Elem& b) { return a.v == b.v; }
static bool operator<(const Elem& a, const Elem& b) { return a.v < b.v; }
static Elem make(int l) { Elem e; e.v = l; return e; }
static const int MAXL = 99;
#elif KIND == 2        // < is a strict weak order that does not distinguish all unequal values: letters (key = l/2, tag = l%2)
struct Elem { int key, tag; };
static bool operator==(const Elem& a, const Elem& b) { return a.key == b.key && a.tag == b.tag; }
static bool operator<(const Elem& a, const Elem& b) { return a.key < b.key; }
static Elem make(int l) { Elem e; e.key = l / 2; e.tag = l % 2; return e; }
static const int MAXL = 4;
#elif KIND == 3        // floating point with NaN (letter 2: neither equal to itself nor ordered) and a negative zero (letter 3)
typedef double Elem; static Elem make(int l) { return l == 2 ? std::strtod("nan", 0) : l == 3 ? -0.0 : double(l); } // 0.0 and -0.0 are equal
static const int MAXL = 4;
#elif KIND == 4        // neither copyable nor default constructible: only == and < may be used
struct Elem { int v; explicit Elem(int x) : v(x) {} Elem(Elem&& o) noexcept : v(o.v) {} Elem& operator=(Elem&& o) noexcept { v = o.v; return *this; }
    friend bool operator==(const Elem& a, const Elem& b) { return a.v == b.v; } friend bool operator<(const Elem& a, const Elem& b) { return a.v < b.v; }
    Elem(const Elem&) = delete; Elem& operator=(const Elem&) = delete; };
static Elem make(int l) { return Elem(l); }
static const int MAXL = 99;
#elif KIND == 5        // == coarser than the equivalence of < (case-insensitive equality): letters compare equal in pairs
struct Elem { int v; };
static bool operator==(const Elem& a, const Elem& b) { return a.v / 2 == b.v / 2; }
static bool operator<(const Elem& a, const Elem& b) { return a.v < b.v; }
static Elem make(int l) { Elem e; e.v = l; return e; }
static const int MAXL = 4;
#elif KIND == 6        // trivial type with padding bytes and a member that does not take part in comparison
struct Elem { char c; int v; char salt; };
static bool operator==(const Elem& a, const Elem& b) { return a.c == b.c && a.v == b.v; }
static bool operator<(const Elem& a, const Elem& b) { return a.v != b.v ? a.v < b.v : a.c < b.c; }
static Elem make(int l) { static char n = 0; Elem e; std::memset(&e, ++n, sizeof e); e.c = char(l % 2 ? -1 : 1); e.v = l / 2 ? -5 : 256; e.salt = ++n; return e; }
static const int MAXL = 4;
#elif KIND == 7        // signed characters
typedef signed char Elem; static Elem make(int l) { static const int t[4] = { 0, -1, 127, -128 }; return (signed char)t[l & 3]; }
static const int MAXL = 4;
#endif
#if CONT == 0
typedef boost::circular_buffer<Elem> C;
#else
typedef boost::circular_buffer_space_optimized<Elem> C;
#endif
struct Desc { int cap, min, rot, size, front; std::vector<int> w; };
static std::string str(const Desc& d) {
    char b[100]; std::sprintf(b, "%d %d %d %d %d", d.cap, d.min, d.rot, d.size, d.front); std::string s = b;
    for (size_t i = 0; i < d.w.size(); ++i) { std::sprintf(b, " %d", d.w[i]); s += b; }
    return s;
}
static C* build(const Desc& d) {
#if CONT == 0
    C* c = new C(d.cap);
#else
    C* c = new C(C::capacity_type(d.cap, d.min));
#endif
    for (int i = 0; i < d.rot; ++i) { c->push_back(make(0)); c->pop_front(); }
    if (d.front) for (int i = d.size; i--; ) c->push_front(make(d.w[i]));
    else for (int i = 0; i < d.size; ++i) c->push_back(make(d.w[i]));
    return c;
}
static bool w_eq(const Desc& a, const Desc& b) {
    if (a.size != b.size) return false;
    for (int i = 0; i < a.size; ++i) { const Elem x(make(a.w[i])), y(make(b.w[i])); if (!(x == y)) return false; }
    return true;
}
static bool w_lt(const Desc& a, const Desc& b) {
    for (int i = 0; i < a.size && i < b.size; ++i) { const Elem x(make(a.w[i])), y(make(b.w[i])); if (x < y) return true; if (y < x) return false; }
    return a.size < b.size;
}
static u64 g_viol, g_pairs; static std::set<std::string> g_sigs; static std::string g_label = "cmp"; static u64 g_out[64];
static bool one(const Desc& da, const C& a, const Desc& db, const C& b, bool print) {
    char sa[sizeof(C)], sb[sizeof(C)]; std::memcpy(sa, &a, sizeof(C)); std::memcpy(sb, &b, sizeof(C));
    const bool eq = w_eq(da, db), lt = w_lt(da, db), gt = w_lt(db, da);
    const bool want[6] = { eq, !eq, lt, gt, !gt, !lt };
    const bool got[6] = { a == b, a != b, a < b, a > b, a <= b, a >= b };
    static const char* nm[6] = { "==", "!=", "<", ">", "<=", ">=" };
    ++g_pairs; bool ok = true; int o = 0;
    for (int i = 0; i < 6; ++i) { o |= want[i] << i; if (want[i] != got[i]) { ok = false;
        std::string sig = std::string("CMP|") + nm[i] + (want[i] ? "|should be true" : "|should be false");
        if (print) std::printf("REPLAY CMP: %s is %s, expected %s\n", nm[i], got[i] ? "true" : "false", want[i] ? "true" : "false");
        else if (g_sigs.insert(sig).second) std::printf("VIOL {\"tag\":\"CMP\",\"sig\":\"%s\",\"msg\":\"operator%s gives %s for contents that %s\",\"hist\":\"%s ; %s\"}\n", sig.c_str(), nm[i], got[i] ? "true" : "false", want[i] ? "satisfy it" : "do not satisfy it", str(da).c_str(), str(db).c_str());
    } }
    ++g_out[o];
    if (std::memcmp(sa, &a, sizeof(C)) || std::memcmp(sb, &b, sizeof(C))) { ok = false; if (print) std::printf("REPLAY CMP: a comparison modified its operand\n"); else if (g_sigs.insert("CMP|modified").second) std::printf("VIOL {\"tag\":\"CMP\",\"sig\":\"CMP|modified\",\"msg\":\"a comparison modified its operand\",\"hist\":\"%s ; %s\"}\n", str(da).c_str(), str(db).c_str()); }
    if (!ok) ++g_viol;
    return ok;
}
static void words(Desc d, int letters, std::vector<Desc>& out) {
    std::vector<int> w(d.size, 0);
    for (;;) {
        d.w = w; out.push_back(d);
        int i = d.size; while (i-- > 0) { if (++w[i] < letters) break; w[i] = 0; }
        if (i < 0) break;
    }
}
static void layouts(int cap, std::vector<Desc>& out, bool boundary) {
    Desc d; d.cap = cap;
    for (int mn = 0; mn <= (CONT ? cap : 0); mn += (boundary && mn == 0 && cap > 1) ? cap : 1)
        for (int rot = 0; rot < (cap ? cap : 1); ++rot)
            for (int size = 0; size <= cap; ++size)
                for (int front = 0; front <= 1; ++front) {
                    if (boundary && !(rot <= 1 || rot == cap / 2 || rot == cap - 1)) continue;
                    if (boundary && !(size <= 1 || size == cap / 2 || size >= cap - 1)) continue;
                    if (!CONT && front && !boundary) continue;         // same layouts as back, with another offset
                    d.min = mn; d.rot = rot; d.size = size; d.front = front; out.push_back(d);
                }
}
int main(int argc, char** argv) {
    int cap = 4, letters = 3, fcap = 3; double budget = 600; std::string wide, replay; bool rep = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--cap") cap = std::atoi(n); else if (a == "--letters") letters = std::atoi(n); else if (a == "--fcap") fcap = std::atoi(n); else if (a == "--budget") budget = std::atof(n);
        else if (a == "--wide") wide = n; else if (a == "--label") g_label = n; else if (a == "--replay") { replay = n; rep = true; } else if (a == "--last") {} else return 2;
        ++i; }
    std::clock_t t0 = std::clock();
    if (rep) {
        Desc d[2]; size_t k = replay.find(';'); std::string part[2] = { replay.substr(0, k), replay.substr(k + 1) };
        for (int i = 0; i < 2; ++i) { const char* p = part[i].c_str(); char* e; long v[5]; for (int j = 0; j < 5; ++j) { v[j] = std::strtol(p, &e, 10); p = e; }
            d[i].cap = v[0]; d[i].min = v[1]; d[i].rot = v[2]; d[i].size = v[3]; d[i].front = v[4]; for (int j = 0; j < v[3]; ++j) { d[i].w.push_back(std::strtol(p, &e, 10)); p = e; } }
        C* a = build(d[0]); C* b = part[0] == part[1].substr(part[1].find_first_not_of(' ')) + " " ? a : build(d[1]);
        bool ok = one(d[0], *a, d[1], *b, true); if (a == b) { b = build(d[1]); ok = one(d[0], *a, d[1], *b, true) && ok; }
        return ok ? 0 : 1;
    }
    if (letters > MAXL) letters = MAXL;
    u64 states = 0; bool full = true; std::vector<Desc> ds; std::vector<C*> cs;
    // all pairs of all words in all layouts
    std::vector<Desc> lay; for (int c = 0; c <= cap; ++c) layouts(c, lay, false);
    for (size_t i = 0; i < lay.size(); ++i) words(lay[i], lay[i].cap > fcap ? 2 : letters, ds);
    for (size_t i = 0; i < ds.size(); ++i) cs.push_back(build(ds[i]));
    states = ds.size();
    for (size_t i = 0; i < ds.size() && full; ++i) { for (size_t j = 0; j < ds.size(); ++j) one(ds[i], *cs[i], ds[j], *cs[j], false); if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) full = false; }
    // larger capacities: every position as the only difference, boundary layouts against each other
    for (const char* q = wide.c_str(); *q && full; ) {
        int c = std::atoi(q); while (*q && *q != ',') ++q; if (*q) ++q;
        std::vector<Desc> wl; layouts(c, wl, true); layouts(c + 3, wl, true);
        for (size_t i = 0; i < wl.size() && full; ++i) for (size_t j = 0; j < wl.size(); ++j) {
            Desc& x = wl[i]; Desc& y = wl[j]; x.w.assign(x.size, 1); y.w.assign(y.size, 1);
            C* a = build(x); one(x, *a, x, *a, false); C* b = build(y); one(x, *a, y, *b, false); delete b; states += 2;
            int n = x.size < y.size ? x.size : y.size;
            for (int p = 0; p < n; ++p) for (int l = 0; l <= 2; l += 2) { Desc z = y; z.w[p] = l; b = build(z); ++states; one(x, *a, z, *b, false); delete b; }
            delete a;
            if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) { full = false; break; }
        }
    }
    int outs = 0; for (int i = 0; i < 64; ++i) outs += g_out[i] != 0;
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"outcomes\":%d,\"fixpoint\":%s,\"found\":%llu,\"samples\":[\"%s ; %s\"]}\n", g_label.c_str(), states, g_pairs * 6, g_pairs * 6, g_pairs, outs, full ? "true" : "false", g_viol, ds.empty() ? "" : str(ds[ds.size() / 2]).c_str(), ds.empty() ? "" : str(ds[ds.size() - 2]).c_str());
    return g_viol ? 1 : 0;
}
