// Breadth-first exploration to a fixpoint, fault enumeration, probes, reporting.
#ifndef MC_BFS_HPP
#define MC_BFS_HPP
#include "explore.hpp"

namespace mc {

static u64 fnv(u64 h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
static u64 fnv_i(u64 h, long v) { return fnv(h, &v, sizeof v); }
static const u64 FNV0 = 1469598103934665603ULL;

struct Config {
    int cap, cap2, nextra, vmax; unsigned tags, focus, alph; bool faults, probes, battery, so_probes, twin, uses, full_min; long max_states; std::string log; int fixed_cap; std::vector<int> wide;
    bool noform1; int max_viol; bool misuse; double budget;
    Config() : cap(5), cap2(2), nextra(2), vmax(0), tags(0xffffffff), focus(F_ALL), alph(F_ALL & ~F_SELF & ~F_X), faults(false), probes(true), battery(true), so_probes(true), twin(true), uses(false), full_min(true), max_states(2000000), fixed_cap(-1), noform1(false), max_viol(40), misuse(false), budget(0) {}
};
static Config cfg;

// ---------------------------------------------------------------- canonical keys
struct Keys { std::string obs, full; };
static void put(std::string& s, long v) { s.append((const char*)&v, sizeof v); }
static Keys keys_of(World& w) {
    Keys k; CB& c = *w.c;
    std::vector<int> order; // live blocks
    for (size_t i = 0; i < g_blks.size(); ++i) if (g_blks[i].live) order.push_back(int(i));
    put(k.obs, cap_of(c)); put(k.obs, min_of(c)); put(k.obs, long(c.size()));
    for (size_t i = 0; i < order.size(); ++i) put(k.obs, long(g_blks[order[i]].n));
    if (!c.empty()) { const Blk* b = blk_of(c); put(k.obs, b ? (reinterpret_cast<const char*>(&c[0]) - b->p) / long(sizeof(E)) : -1); }
    k.full = k.obs;
    const char* raw = (const char*)(void*)&c;
    for (size_t i = 0; i + sizeof(long) <= sizeof(CB); i += sizeof(long)) {
        long v; std::memcpy(&v, raw + i, sizeof v);
        long tag = 0, val = 0;
#if FANCY
        // a word may be an offset pointer: relative to its own place
        if (v != 1 && (v > 4096 || v < -4096)) { long t = long(raw + i) + v; if (in_arena((const void*)t) && t >= long(g_arena + ABASE)) v = t; }
#endif
        if (in_arena((const void*)v) || (const char*)v == g_arena + ARENA) {
            tag = 9;
            for (size_t j = 0; j < order.size(); ++j) {
                const Blk& b = g_blks[order[j]]; const char* q = (const char*)v;
                if (q >= b.p && q <= b.p + b.n * b.esz) { tag = 1 + long(j); val = q - b.p; break; }
            }
        } else if (v >= AID && v < AID + 256) { tag = 7; }
        else if (v > -4096 && v < 4096) { tag = 8; val = v; }
        else tag = 10;
        put(k.full, tag * 1000000 + val);
    }
#if IS_CLASS
    for (size_t j = 0; j < order.size(); ++j) { const Blk& b = g_blks[order[j]]; for (size_t i = 0; i < b.n; ++i) k.full.push_back(char('0' + g_live[gran(b.p + i * b.esz)])); }
#endif
    return k;
}

// ---------------------------------------------------------------- observers battery (C07)
#if MC_NOEXC
template <class C> struct AtCall { C* c; SizeT i; void operator()() { (void)c->at(i); } };
#endif
#if MC_CXX11
template <class C, class = void> struct CBegin { static void check(const C&) { fail(T_OBS, "cbegin() and cend() are not available in the container"); } };
template <class C> struct CBegin<C, decltype(void(std::declval<const C&>().cbegin() == std::declval<C&>().cend()))> {
    static void check(const C& c) {
        C& m = const_cast<C&>(c);
        if (c.cbegin() != c.begin() || c.cend() != c.end() || m.cbegin() != c.begin() || m.cend() != c.end() || c.cend() - c.cbegin() != std::ptrdiff_t(c.size())) fail(T_OBS, "cbegin()/cend() disagree with begin()/end()");
        if (!noexcept(c.cbegin()) || !noexcept(c.cend())) fail(T_EXC, "cbegin/cend is documented not to throw but not declared so");
    }
};
#endif
// what the documentation declares never to throw is callable as such (what containers of circular buffers and move_if_noexcept rely on)
static void check_noexcept() {
#if MC_CXX11
#define NX(what, expr) if (!(expr)) fail(T_EXC, "%s is documented not to throw but not declared so", what);
    typedef CB C; typedef const CB K;
    NX("move construction", std::is_nothrow_move_constructible<C>::value)
    NX("move assignment", noexcept(std::declval<C&>() = std::declval<C&&>()))
    NX("swap (member)", noexcept(std::declval<C&>().swap(std::declval<C&>())))
    NX("swap (free)", noexcept(swap(std::declval<C&>(), std::declval<C&>())))
#if CONT == 0
    NX("clear", noexcept(std::declval<C&>().clear()))
#endif
    NX("begin/end", noexcept(std::declval<C&>().begin()) && noexcept(std::declval<C&>().end()) && noexcept(std::declval<K&>().begin()) && noexcept(std::declval<K&>().end()))
    NX("rbegin/rend", noexcept(std::declval<C&>().rbegin()) && noexcept(std::declval<C&>().rend()) && noexcept(std::declval<K&>().rbegin()) && noexcept(std::declval<K&>().rend()))
    NX("size/empty/full/reserve/capacity/max_size", noexcept(std::declval<K&>().size()) && noexcept(std::declval<K&>().empty()) && noexcept(std::declval<K&>().full()) && noexcept(std::declval<K&>().reserve()) && noexcept(std::declval<K&>().capacity()) && noexcept(std::declval<K&>().max_size()))
    NX("get_allocator", noexcept(std::declval<K&>().get_allocator()) && noexcept(std::declval<C&>().get_allocator()))
    NX("is_linearized", noexcept(std::declval<K&>().is_linearized()))
    NX("destruction", std::is_nothrow_destructible<C>::value)
#undef NX
#endif
}
static void battery(World& w) {
    check_noexcept();
#if MC_CXX11
    CBegin<CB>::check(*w.c);
#endif
    CB& c = *w.c; const CB& cc = c; int n = w.m.size();
#define OB(cond, ...) do { if (!(cond)) { fail(T_OBS, __VA_ARGS__); return; } } while (0)
    for (int i = 0; i < n; ++i) {
        const E* p = &cc[i];
        OB(&c[i] == p && &c.at(i) == p && &cc.at(i) == p, "operator[]/at(%d) disagree", i);
        OB(id_of(*p) == w.m.v[i], "operator[](%d) wrong value", i);
        OB(&*(c.begin() + i) == p && &*(cc.begin() + i) == p && &c.begin()[i] == p && &cc.begin()[i] == p, "begin()+%d designates another element", i);
        OB(&*(c.end() - (n - i)) == p && &*(cc.end() - (n - i)) == p, "end()-%d designates another element", n - i);
        OB(&*(i + c.begin()) == p, "n + begin() designates another element");
        OB(&*(c.rbegin() + (n - 1 - i)) == p && &*(cc.rbegin() + (n - 1 - i)) == p && &*(c.rend() - (i + 1)) == p && &*(cc.rend() - (i + 1)) == p, "reverse iterator to %d designates another element", i);
        OB(raw((c.begin() + i).operator->()) == p && raw((cc.begin() + i).operator->()) == p, "operator-> differs");
    }
    if (n) { OB(&c.front() == &c[0] && &cc.front() == &c[0], "front()"); OB(&c.back() == &c[n - 1] && &cc.back() == &c[n - 1], "back()"); }
    SizeT bad[] = {SizeT(n), SizeT(n + 1), SizeT(n + 2), SizeT(cap_of(c)), SizeT(cap_of(c) + 1), SizeT(2 * cap_of(c)), SizeT(-1), SizeT(-1) / 2, SizeT(-1) / 2 + 1};
    for (size_t i = 0; i < sizeof bad / sizeof *bad; ++i) if (bad[i] >= SizeT(n)) {
        int t = 0;
#if MC_NOEXC
        AtCall<CB> a1 = {&c, bad[i]}; AtCall<const CB> a2 = {&cc, bad[i]}; t = (guarded(a1) == 2) | (guarded(a2) == 2) << 1;
#else
        try { (void)c.at(bad[i]); } catch (std::out_of_range&) { t |= 1; }
        try { (void)cc.at(bad[i]); } catch (std::out_of_range&) { t |= 2; }
#endif
        OB(t == 3, "at(%lu) with size %d does not throw out_of_range", (unsigned long)bad[i], n);
    }
    // algebra over all pairs of positions
    OB(c.end() - c.begin() == n && cc.end() - cc.begin() == n, "end()-begin() is %ld, size %d", long(c.end() - c.begin()), n);
    OB((c.begin() == c.end()) == (n == 0) && (cc.begin() == cc.end()) == (n == 0), "begin()==end()");
    for (int i = 0; i <= n; ++i) {
        It a = c.begin() + i; CIt ca = cc.begin() + i; CIt conv(a); CIt asg; asg = a;
        OB((i == n) == (a == c.end()) && (i == n) == (ca == cc.end()) && (i == n) == !(a != c.end()), "position %d versus end()", i);
        OB(conv == ca && ca == conv && asg == ca && conv == a && a == conv, "conversion to const_iterator changes the position %d", i);
        OB(a - c.begin() == i && c.end() - a == n - i && ca - cc.begin() == i && conv - cc.begin() == i, "distance from begin()/end() at %d", i);
        if (i < n) {
            It t = a; It& r = ++t; OB(&r == &t && t - c.begin() == i + 1, "++ from %d", i); t = a; It u = t++; OB(u == a && t - c.begin() == i + 1, "post ++ from %d", i);
            CIt q = ca; ++q; OB(q - cc.begin() == i + 1, "const ++ from %d", i); q = ca; CIt qq = q++; OB(qq == ca && q - cc.begin() == i + 1, "const post ++");
        }
        if (i > 0) {
            It t = a; It& r = --t; OB(&r == &t && t - c.begin() == i - 1, "-- from %d", i); t = a; It u = t--; OB(u == a && t - c.begin() == i - 1, "post -- from %d", i);
            CIt q = ca; --q; OB(q - cc.begin() == i - 1, "const -- from %d", i); q = ca; CIt qq = q--; OB(qq == ca && q - cc.begin() == i - 1, "const post --");
        }
        for (int j = 0; j <= n; ++j) {
            It b = c.begin() + j; CIt cb = cc.begin() + j;
            OB(b - a == j - i && cb - ca == j - i && b - ca == j - i && cb - a == j - i, "difference of positions %d and %d is %ld", j, i, long(b - a));
            OB(a + (j - i) == b && ca + (j - i) == cb && b - (j - i) == a && cb - (j - i) == ca, "adding %d to position %d", j - i, i);
            { It t = a; It& r = (t += (j - i)); OB(&r == &t && t == b, "+= %d at %d", j - i, i); t = b; It& s = (t -= (j - i)); OB(&s == &t && t == a, "-= %d at %d", j - i, j); }
            { CIt t = ca; t += (j - i); OB(t == cb, "const += %d at %d", j - i, i); t -= (j - i); OB(t == ca, "const -= "); }
            OB((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "comparison of positions %d and %d", i, j);
            OB((ca == cb) == (i == j) && (ca != cb) == (i != j) && (ca < cb) == (i < j) && (ca > cb) == (i > j) && (ca <= cb) == (i <= j) && (ca >= cb) == (i >= j), "const comparison of positions %d and %d", i, j);
            OB((a == cb) == (i == j) && (a != cb) == (i != j) && (a < cb) == (i < j) && (ca < b) == (i < j) && (a > cb) == (i > j) && (a <= cb) == (i <= j) && (ca >= b) == (i >= j), "mixed comparison of positions %d and %d", i, j);
            if (j < n) OB(&a[j - i] == &cc[j] && &ca[j - i] == &cc[j], "iterator indexing %d from %d", j - i, i);
            typedef CB::reverse_iterator RI; typedef CB::const_reverse_iterator CRI;
            RI ra = c.rbegin() + i, rb = c.rbegin() + j; CRI cra = cc.rbegin() + i, crb = cc.rbegin() + j;
            OB(rb - ra == j - i && (ra < rb) == (i < j) && (ra == rb) == (i == j) && crb - cra == j - i && (cra < crb) == (i < j), "reverse positions %d and %d", i, j);
        }
    }
    OB(c.rend() - c.rbegin() == n && cc.rend() - cc.rbegin() == n, "rend()-rbegin()");
    int k = 0;
    for (CB::reverse_iterator r = c.rbegin(); r != c.rend(); ++r, ++k) OB(k < n && &*r == &cc[n - 1 - k], "reverse iteration at %d", k);
    OB(k == n, "reverse iteration visits %d of %d", k, n); k = 0;
    for (CB::const_reverse_iterator r = cc.rbegin(); r != cc.rend(); ++r, ++k) OB(k < n && &*r == &cc[n - 1 - k], "const reverse iteration at %d", k);
    OB(k == n, "const reverse iteration visits %d of %d", k, n);
    OB(std::size_t(c.max_size()) >= std::size_t(cap_of(c)), "max_size() below capacity()");
#if CONT == 0
    k = 0; for (CIt it = c.cbegin(); it != c.cend(); ++it, ++k) OB(k < n && &*it == &cc[k], "cbegin() iteration"); OB(k == n, "cbegin()..cend() length");
#endif
    It dflt; CIt cdflt; (void)dflt; (void)cdflt;
#undef OB
}

#include "debug_uses.hpp"

// ---------------------------------------------------------------- alphabet
static void gen_mins(int c, bool full, std::vector<int>& r) {
    r.clear(); r.push_back(0);
#if CONT == 1
    if (full && cfg.wide.empty()) for (int i = 1; i <= c; ++i) r.push_back(i);
    else { if (c >= 1) r.push_back(c); if (c >= 3) r.push_back(c / 2); }
#else
    (void)c; (void)full;
#endif
}
static bool is_full(unsigned fam) { return (cfg.focus & fam) != 0; }
// all values lo..hi; in wide mode the boundary values only
static std::vector<int> rng(int lo, int hi, int m1 = -9, int m2 = -9, int m3 = -9, int m4 = -9) {
    std::vector<int> r;
    if (cfg.wide.empty()) { for (int i = lo; i <= hi; ++i) r.push_back(i); return r; }
    int marks[] = {lo, lo + 1, (lo + hi) / 2, hi - 1, hi, m1 - 1, m1, m1 + 1, m2 - 1, m2, m2 + 1, m3 - 1, m3, m3 + 1, m4};
    std::set<int> q; for (size_t i = 0; i < sizeof marks / sizeof *marks; ++i) if (marks[i] >= lo && marks[i] <= hi) q.insert(marks[i]);
    r.assign(q.begin(), q.end()); return r;
}
#define RNG(var, ...) for (Iter_ var##_it(rng(__VA_ARGS__)); var##_it.more(); var##_it.next()) for (int var = var##_it.get(), var##_once = 1; var##_once; var##_once = 0)
struct Iter_ { std::vector<int> v; size_t i; explicit Iter_(const std::vector<int>& x) : v(x), i(0) {} bool more() const { return i < v.size(); } void next() { ++i; } int get() const { return v[i]; } };
static void gen_ops(const Model& m, std::vector<Op>& r) {
    r.clear();
    int N = cfg.cap, X = cfg.wide.empty() ? cfg.nextra : (m.exists ? m.cap : cfg.wide.back()) + 2; std::vector<int> mins;
    unsigned alph = cfg.alph;
#define ADD(...) do { Op o_(__VA_ARGS__); if (op_available(o_.code)) r.push_back(o_); } while (0)
    if (!m.exists) {
        bool f = is_full(F_CTOR);
        RNG(c, 0, N) { gen_mins(c, cfg.full_min, mins); for (size_t k = 0; k < mins.size(); ++k) ADD(CTOR_CAP, c, mins[k]); }
        if (!(alph & F_CTOR)) return;
        ADD(CTOR_DEF);
        RNG(n, 0, N) {
            ADD(CTOR_N, n);
#if !IS_CLASS
            ADD(CTOR_N, n, 0, 0, 0, 1);
#endif
            for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && (f || cat == 0 || cat == C_MOVE)) ADD(CTOR_R, cat, n);
            RNG(c, 0, N) {
                gen_mins(c, f, mins);
                for (size_t k = 0; k < mins.size(); ++k) {
                    if (c >= n) ADD(CTOR_CN, c, n, mins[k]);
#if !IS_CLASS && CONT == 0
                    if (c >= n) ADD(CTOR_CN, c, n, mins[k], 0, 1);
#endif
                    if (n == 0) ADD(CTOR_FILL, c, mins[k]);
                    for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && (f || cat == 0 || cat == C_MOVE)) ADD(CTOR_CR, cat, c, n, mins[k]);
                }
            }
        }
        RNG(c, 0, N) RNG(n, c + 1, c + X) { gen_mins(c, false, mins); for (size_t k = 0; k < mins.size(); ++k) for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && n > N) ADD(CTOR_CR, cat, c, n, mins[k]); }
        return;
    }
    int n = m.size(), c = m.cap;
    // basic moves first: histories found first are the simplest
    for (int f = 0; f < 3; ++f) if (f == 0 || is_full(F_PUSH) || (alph & F_PUSH && !cfg.noform1)) {
        if (f == 1 && cfg.noform1) continue;
        if (f == 0 && !HAS_COPY) { continue; }
        ADD(PUSHB, f); ADD(PUSHF, f);
    }
    if (n) { ADD(POPF); ADD(POPB); }
    if (alph & F_LIN) { ADD(LINEARIZE); RNG(p, 0, (n) - 1, m.split) ADD(ROTATE, p); }
    if (alph & F_INS) {
        bool f = is_full(F_INS);
        RNG(p, 0, n, m.split) for (int k = 0; k < 3; ++k) {
            if (k == 0 && !HAS_COPY) continue;
            if (k == 1 && cfg.noform1) continue;
            if (!f && k != 1) continue;
            ADD(INS1, k, p); ADD(RINS1, k, p);
        }
        RNG(p, 0, n, m.split) RNG(k, 0, c + X, p + m.reserve(), n - p + m.reserve(), m.reserve(), n - p) {
            if (!f && !(k == 1 || k == 2 || k == c + 1)) continue;
            ADD(INSN, p, k); ADD(RINSN, p, k);
#if !IS_CLASS
            if (f) { ADD(INSN, p, k, 1); ADD(RINSN, p, k, 1); }
#endif
        }
        if (HAS_COPY) for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && (f || cat == C_FWD || cat == C_IN))
            RNG(p, 0, n, m.split) RNG(k, 0, c + X, p + m.reserve(), n - p + m.reserve(), m.reserve(), n - p) {
                if (!f && !(k == 2 || k == c + 1)) continue;
                ADD(INSR, cat, p, k); ADD(RINSR, cat, p, k);
            }
    }
    if (alph & F_ERASE) {
        RNG(p, 0, (n) - 1, m.split) { ADD(ERASE1, p); ADD(RERASE1, p); }
        RNG(p, 0, n, m.split) RNG(q, p, n, m.split) { ADD(ERASER, p, q); ADD(RERASER, p, q); }
        RNG(p, 0, n, m.split) { ADD(ERASEB, p); ADD(ERASEE, p); }
        ADD(CLEAR);
    }
    if (alph & F_CAP) {
        bool f = is_full(F_CAP);
        RNG(k, 0, N + (f ? X : 0), m.split, m.cap, m.size(), 2 * m.cap) { gen_mins(k, f || cfg.full_min, mins); for (size_t i = 0; i < mins.size(); ++i) { ADD(SETCAP, k, mins[i]); ADD(RSETCAP, k, mins[i]); } }
        RNG(k, 0, N + (f ? X : 0), m.split, m.cap, m.size(), 2 * m.cap) for (int d = 0; d < 2; ++d) { if (!f && d == 0) continue; ADD(RESIZE, k, d); ADD(RRESIZE, k, d); }
    }
    if (alph & F_ASSIGN) {
        bool f = is_full(F_ASSIGN); int hi = N + (f ? X : 0);
        RNG(k, 0, hi, m.split, m.cap, m.size(), 2 * m.cap) {
            ADD(ASSIGN_N, k);
#if !IS_CLASS
            ADD(ASSIGN_N, k, 0, 0, 0, 1);
#endif
            for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && (f || cat == C_MOVE || cat == C_IN)) ADD(ASSIGN_R, cat, k);
            RNG(q, 0, hi, m.cap, k) {
                if (!f && q != c && q != c + 1) continue;
                gen_mins(q, false, mins);
                for (size_t i = 0; i < mins.size(); ++i) {
                    if (q >= k) {
                        ADD(ASSIGN_CN, q, k, mins[i]);
#if !IS_CLASS
                        ADD(ASSIGN_CN, q, k, mins[i], 0, 1);
#endif
                    }
                    for (int cat = 0; cat < N_CATS; ++cat) if (cat_ok(cat) && (HAS_COPY || cat == C_MOVE || cat == C_INT) && (f || cat == C_IN || cat == C_MOVE)) ADD(ASSIGN_CR, cat, q, k, mins[i]);
                }
            }
        }
    }
    if (alph & F_TWO) {
        bool f = is_full(F_TWO);
        RNG(q, 0, (f ? cfg.cap2 : 1), m.cap) RNG(off, 0, ((q ? q : 1)) - 1) RNG(s, 0, q) {
            if (!cfg.wide.empty() && ((q > 1 && q != m.cap) || (off != 0 && off != q / 2 && off != q - 1))) continue;
            if (s == 0 && off > 0 && q > 1 && off < q - 1) continue;
            gen_mins(q, false, mins);
            for (size_t i = 0; i < mins.size(); ++i) {
                ADD(COPYASG, q, off, s, mins[i], 0);
                for (int keep = 0; keep < 2; ++keep) {
                    if (!f && keep) continue;
                    ADD(MOVEASG, q, off, s, mins[i], keep); ADD(SWAP, q, off, s, mins[i], keep);
                }
                if (f) ADD(SWAP, q, off, s, mins[i], 2);
            }
        }
        ADD(SELFASG, 0); ADD(SELFASG, 1);
        for (int keep = 0; keep < 2; ++keep) { ADD(COPYCTOR, 0, 0, 0, 0, keep); ADD(MOVECTOR, 0, 0, 0, 0, keep); }
    }
    if (alph & F_SELF) RNG(p, 0, (n) - 1, m.split) { ADD(SELFPUSHB, p); ADD(SELFPUSHF, p); }
    if (alph & F_X) {
        for (int x = 0; x < X_CODES; ++x) for (int v = 0; v < X_NVALUES; ++v) {
            bool pos = x >= X_INSN && x <= X_RINSR;
            if ((x == X_INSR || x == X_RINSR || x == X_CTOR_R) && DiffT(x_values(m)[v]) < 0) continue; // no such range
            RNG(p, 0, (pos ? n : 0), m.split) for (int fl = 0; fl < ((CONT == 1 && (x == X_SETCAP || x == X_RSETCAP || x == X_CTOR_CAP)) ? 2 : 1); ++fl) ADD(X_OP, x, v, p, fl);
        }
    }
#undef ADD
}

// ---------------------------------------------------------------- running histories
struct Node { int parent; Op op; Model m; };
static std::vector<Node> g_nodes;
static World g_w;
static volatile int g_sig = 0;
static volatile u64 g_heart = 0;
static u64 g_last_heart = 0; static int g_same = 0;
static int g_hang_ticks = 16; // x 0.25 s of CPU in one operation
static int g_hangs = 0;       // operations that did not terminate (the exploration ends after some of them)
static void on_sig(int s) { g_sig = s; if (g_jmp_ok) { g_jmp_ok = 0; siglongjmp(g_jmp, 1); } _exit(40 + s); }
static void on_tick(int) {
    if (g_heart == g_last_heart) { if (++g_same >= g_hang_ticks && g_jmp_ok) { g_same = 0; g_sig = -1; g_jmp_ok = 0; if (++g_hangs == 1) g_hang_ticks = 6; siglongjmp(g_jmp, 2); } }
    else { g_last_heart = g_heart; g_same = 0; }
}
static void on_term() { g_sig = -2; if (g_jmp_ok) { g_jmp_ok = 0; siglongjmp(g_jmp, 3); } _exit(3); }
static void install_signals() {
    static char alt[1 << 16]; stack_t st; std::memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0);
    sa.sa_handler = on_tick; sa.sa_flags = SA_NODEFER; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 250000; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
    std::set_terminate(on_term);
}
static const char* crash_name(int code) {
    if (code == 100) return "endless element operations (loop does not terminate)";
    if (code == 2) return "operation does not terminate";
    if (code == 3) return "std::terminate (exception escaped from a noexcept function)";
    switch (g_sig) { case SIGSEGV: return "crash: SIGSEGV"; case SIGABRT: return "crash: SIGABRT"; case SIGFPE: return "crash: SIGFPE"; case SIGBUS: return "crash: SIGBUS"; case SIGILL: return "crash: SIGILL"; }
    return "crash";
}

struct Outcome { bool ok, crashed; Keys keys; Model m; int fps; int fpkind[FP_KINDS]; };
static u64 g_runs = 0; static Hist g_cur; static size_t g_cur_at; // for messages
static u64 g_digest[16], g_digest_n;

static int fam_index(unsigned f) { int i = 0; while (f >>= 1) ++i; return i; }

// runs history h; the last `checked` operations are checked
static char* g_last = 0; // shared memory for the current history (for builds that die on an error)
static Outcome run_hist(const Hist& h, size_t checked, int mode /*0 normal, 1 battery at the end, 2 misuse at the end*/) {
    static Outcome out; static World* w = &g_w;
    if (g_last) { std::snprintf(g_last, 65536, "%d %s", mode, hist_str(h).c_str()); }
    ++g_runs; out = Outcome(); out.ok = false; out.crashed = false; out.fps = 0;
    rt_reset(); g_viols.clear(); g_fault_ctx = false; g_w = World();
#if MCDEBUG
    g_assert_armed = false;
#endif
    std::memset(slot_mem(0), 0, 3 * SLOTSZ);
#if ALLOC_CONSTRUCT && MC_CXX11 // in C++03 Boost.Core does not look for construct/destroy
    g_need_construct = true;
#endif
    int jc = sigsetjmp(g_jmp, 0);
    if (jc == 0) {
        g_jmp_ok = 1; g_sig = 0;
        bool go = true;
        for (size_t i = 0; i < h.size() && go; ++i) {
            ++g_heart;
            bool chk = i + checked >= h.size();
            g_quiet = !chk; g_cur_at = i;
            g_alloc_destroys = 0;
            go = exec(*w, h[i], chk);
        }
        g_quiet = false; ++g_heart;
        out.fps = g_oc.fps; std::memcpy(out.fpkind, g_oc.fp, sizeof out.fpkind);
        if (go && w->c) {
            out.keys = keys_of(*w); out.m = w->m; out.m.split = int(w->c->array_one().second);
            if (mode == 1) battery(*w);
#if MCDEBUG
            if (mode == 2) debug_misuse(*w);
#endif
        }
        bool broken = !g_viols.empty();
        if (!broken && w->c) {
            destroy_cb(w->c); check_resources(0, 0);
#if IS_CLASS
            if (g_ext_live) fail(T_LIFE, "%ld element(s) alive outside the storage at the end", g_ext_live);
#endif
        }
        out.ok = go && g_viols.empty();
        g_jmp_ok = 0;
    } else {
        g_quiet = false; out.crashed = true; g_armed = false;
        fail(T_CRASH, "%s", crash_name(jc));
        if (g_viols.size()) g_viols.back().tag = T_CRASH;
        w->c = 0;
    }
    return out;
}

struct Found { unsigned tag; std::string msg, hist, sig; int code; bool fault; };
static std::vector<Found> g_found; static std::set<std::string> g_sigs; static u64 g_out_of_scope = 0;
static std::string strip_digits(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (!(s[i] >= '0' && s[i] <= '9')) r += s[i]; return r; }
// records the violations of the last run, attributed to operation `o`; true if any is in scope
static bool report(const Hist& h, const Op& o, const char* suffix) {
    bool any = false;
    // in scope when the operation that exposes the failure, or the one it is attributed to, belongs to the families of this check
    unsigned fams = family_of(o.code); if (g_cur_at < h.size()) fams |= family_of(h[g_cur_at].code);
    for (size_t i = 0; i < g_viols.size(); ++i) {
        unsigned t = g_viols[i].tag;
        bool in = ((t & cfg.tags) || (g_viols[i].orig & (T_LIFE | T_ALLOC) & cfg.tags) || t == T_CRASH) && (fams & cfg.focus);
        if (t == T_CRASH && g_fault_ctx && !(cfg.tags & (T_EXC | T_STRONG | T_MOVE | T_LIFE))) in = false;
        if (!in) { ++g_out_of_scope; continue; }
        any = true;
        Found f; f.tag = t; f.msg = g_viols[i].msg; f.hist = hist_str(h); f.code = o.code; f.fault = g_fault_ctx;
        if (suffix[0]) f.msg += std::string(" [") + suffix + "]";
        std::string first = strip_digits(f.msg); size_t cut = first.find('['); if (cut != std::string::npos) first = first.substr(0, cut);
        f.sig = std::string(tag_name(t)) + "|" + (o.code == X_OP ? "X_OP" : code_name[o.code]) + (o.fault ? "!" : "") + "|" + first.substr(0, 60);
        if (g_sigs.insert(f.sig).second) g_found.push_back(f);
    }
    return any;
}

static Hist path_to(int node) {
    Hist h; for (int i = node; i > 0; i = g_nodes[i].parent) h.push_back(g_nodes[i].op);
    std::reverse(h.begin(), h.end()); return h;
}

// ---------------------------------------------------------------- probes
static void probe_ops(int kind, const Model& m, std::vector<Op>& r) {
    r.clear(); int n = m.size(), c = m.cap, form = HAS_COPY ? 0 : 1;
    switch (kind) {
        case 0: for (int i = 0; i < c - n + 2; ++i) r.push_back(Op(PUSHB, form)); if (c) for (int i = 0; i < c; ++i) r.push_back(Op(POPF)); break;
        case 1: for (int i = 0; i < c - n + 2; ++i) r.push_back(Op(PUSHF, form)); if (c) for (int i = 0; i < c; ++i) r.push_back(Op(POPB)); break;
        case 2: r.push_back(Op(LINEARIZE)); r.push_back(Op(INS1, form, n / 2)); { int k = std::min(n + 1, c); if (c && k > 0) r.push_back(Op(ERASE1, k / 2)); } break;
        case 3: r.push_back(Op(RINS1, form, n / 2)); { int k = std::min(n + 1, c); if (c && k > 0) r.push_back(Op(RERASE1, k / 2)); } break;
        case 4: r.push_back(Op(SETCAP, c + 1, m.min)); r.push_back(Op(PUSHF, form)); break;
    }
}
static u64 g_probe_runs = 0, g_probe_ops = 0;
static bool run_probe(const Hist& h, int kind, const Model& m) {
    std::vector<Op> ops; probe_ops(kind, m, ops);
    Hist hh = h; hh.insert(hh.end(), ops.begin(), ops.end());
    ++g_probe_runs; g_probe_ops += ops.size();
    run_hist(hh, ops.size(), 0);
    return g_viols.empty();
}
static void probe_node(int node) {
    Hist h = path_to(node); const Model& m = g_nodes[node].m; Op last = h.back();
    const char* pname[] = {"then push_back to overflow, pop_front to empty", "then push_front to overflow, pop_back to empty", "then linearize, insert, erase", "then rinsert, rerase", "then grow, push_front"};
    for (int k = 0; k < (cfg.probes ? 5 : 0); ++k) {
        if (run_probe(h, k, m)) continue;
        std::vector<Viol> v = g_viols; bool fc = g_fault_ctx; size_t at = g_cur_at;
        // the same probe from the canonically built state: is the fault in the probe's own operations?
        Hist geo; geo.push_back(Op(CTOR_GEO, m.cap, 0, m.size(), m.min));
        bool twin_ok = run_probe(geo, k, m);
        if (twin_ok) {
            int off = 0;
            for (off = 1; off < m.cap && twin_ok; ++off) { geo[0].a[1] = short(off); twin_ok = run_probe(geo, k, m); }
        }
        g_viols = v; g_fault_ctx = fc; g_cur_at = at;
        std::vector<Op> ops; probe_ops(k, m, ops); Hist hh = h; hh.insert(hh.end(), ops.begin(), ops.end());
        if (twin_ok) report(hh, last, pname[k]); else ++g_out_of_scope;
    }
    if (cfg.battery) {
        run_hist(h, 0, 1);
        if (!g_viols.empty()) report(h, last, "observers");
    }
#if MCDEBUG
    if (cfg.misuse) { run_hist(h, 0, 2); if (!g_viols.empty()) report(h, last, "misuse"); }
#endif
#if CONT == 1
    if (cfg.so_probes) {
        // growth: filling up with pushes allocates logarithmically often; alternation does not thrash
        for (int side = 0; side < 2; ++side) {
            Hist hh = h; int form = HAS_COPY ? 0 : 1, add = m.cap - m.size();
            for (int i = 0; i < add; ++i) hh.push_back(Op(side ? PUSHF : PUSHB, form));
            // count allocations by running stepwise
            rt_reset(); run_hist(hh, 0, 0); // prefix correctness is judged elsewhere
            int total = 0; for (size_t i = 0; i < g_blks.size(); ++i) ++total;
            run_hist(h, 0, 0); int base = int(g_blks.size());
            int lim = 2; for (int x = 1; x < m.cap + 1; x *= 2) ++lim;
            ++g_probe_runs;
            if (total - base > lim) { g_viols.clear(); fail(T_MEM, "%d allocations while pushing %d elements up to capacity %d", total - base, add, m.cap); report(hh, hh.back(), "growth"); }
            for (int pops = 0; pops < 4; ++pops) {
                if (m.size() < 1) break;
                hh = h;
                for (int i = 0; i < 8; ++i) { Op pu(side ? PUSHF : PUSHB, form), po((pops & 1) ? POPB : POPF); if (pops & 2) { if (i == 0 && m.size() < 2) break; hh.push_back(po); hh.push_back(pu); } else { if (i == 0 && m.full()) break; hh.push_back(pu); hh.push_back(po); } }
                if (hh.size() == h.size()) continue;
                run_hist(hh, 0, 0); total = int(g_blks.size());
                ++g_probe_runs;
                if (total - base > 4) { g_viols.clear(); fail(T_MEM, "%d allocations in 8 alternations of push and pop at size %d", total - base, m.size()); report(hh, hh.back(), "alternation"); }
            }
        }
    }
#endif
    g_viols.clear();
}

// ---------------------------------------------------------------- search
struct Result { u64 states, transitions, fault_runs, thrown, max_depth, capped, obs_states; bool fixpoint; std::map<std::string, u64> per_fam; u64 outcomes; };
static Result g_res;
static std::set<std::string> g_full_keys; static std::map<std::string, int> g_obs_keys; static std::set<u64> g_outcomes;
static std::vector<int> g_depth;
static std::vector<std::string> g_samples;
static FILE* g_log = 0;

static bool admit(int parent, const Op& o, const Outcome& out) {
    if (cfg.wide.empty() && (out.m.cap > cfg.cap || out.m.size() > cfg.cap)) return false;
    if (g_full_keys.count(out.keys.full)) return false;
    int& cnt = g_obs_keys[out.keys.obs];
    int vmax = cfg.vmax ? cfg.vmax : 2 * cfg.cap + 8;
    if (cnt >= vmax) { ++g_res.capped; return false; }
    if (long(g_nodes.size()) >= cfg.max_states) { ++g_res.capped; return false; }
    ++cnt; g_full_keys.insert(out.keys.full);
    Node n; n.parent = parent; n.op = o; n.m = out.m; g_nodes.push_back(n); g_depth.push_back(g_depth[parent] + 1);
    g_res.max_depth = std::max<u64>(g_res.max_depth, g_depth.back());
    return true;
}

static void digest(const Model& pre, const Op& o, const Outcome& out, const Hist& hist) {
    u64 h = FNV0; h = fnv_i(h, pre.cap); h = fnv_i(h, pre.min); h = fnv_i(h, pre.size()); h = fnv_i(h, o.code);
    for (int i = 0; i < 5; ++i) h = fnv_i(h, o.a[i]);
    h = fnv_i(h, o.fault); h = fnv_i(h, g_ret); h = fnv_i(h, g_exc_kind); h = fnv(h, out.keys.obs.data(), out.keys.obs.size());
    h = fnv_i(h, g_oc.allocs); h = fnv_i(h, g_oc.deallocs);
    h = fnv_i(h, g_oc.c.cctor); h = fnv_i(h, g_oc.c.casg); h = fnv_i(h, g_oc.c.dtor); h = fnv_i(h, g_oc.c.dctor);
    if (g_outcomes.insert(h).second) g_digest[fam_index(family_of(o.code))] += h; // the set of observations, however many hidden states produce them
    ++g_digest_n;
    if (g_log) std::fprintf(g_log, "capacity %d minimum %d size %d: %s: returned %d exception %d, %d/%d allocations, copies %ld+%ld destructions %ld defaults %ld, capacity %d size %d\t%s\n", pre.cap, pre.min, pre.size(), op_str(o).c_str(), g_ret, g_exc_kind, g_oc.allocs, g_oc.deallocs, g_oc.c.cctor, g_oc.c.casg, g_oc.c.dtor, g_oc.c.dctor, out.m.cap, out.m.size(), hist_str(hist).c_str());
}

static bool out_of_time() {
    static time_t t0 = time(0); static u64 n = 0;
    if (g_hangs >= 8) return true;
    return cfg.budget > 0 && (++n & 15) == 0 && difftime(time(0), t0) > cfg.budget;
}
static void explore() {
    out_of_time();
    g_res = Result(); g_res.fixpoint = false;
    Node root; root.parent = -1; root.m = Model(); g_nodes.push_back(root); g_depth.push_back(0);
    std::vector<Op> ops;
    bool wide = !cfg.wide.empty();
    size_t wide_last = 0;
    if (wide) { // start from every boundary geometry of the given capacities instead of searching from the constructors
        for (size_t w = 0; w < cfg.wide.size(); ++w) { int c = cfg.wide[w];
            RNG(sz, 0, c) {
                std::set<int> offs; int o0[] = {0, 1, c / 2, c - sz - 1, c - sz, c - sz + 1, c - 1};
                for (int i = 0; i < 7; ++i) if (o0[i] >= 0 && o0[i] < c) offs.insert(o0[i]);
                std::vector<int> mins; gen_mins(c, false, mins);
                for (std::set<int>::iterator f = offs.begin(); f != offs.end(); ++f) for (size_t k = 0; k < mins.size(); ++k) {
                    Op o(CTOR_GEO, c, *f, sz, mins[k]); Hist h(1, o);
                    Outcome out = run_hist(h, 1, 0); ++g_res.transitions;
                    if (!g_viols.empty()) { report(h, o, ""); continue; }
                    if (!g_full_keys.insert(out.keys.full).second) continue;
                    ++g_obs_keys[out.keys.obs];
                    Node n; n.parent = 0; n.op = o; n.m = out.m; g_nodes.push_back(n); g_depth.push_back(1);
                    probe_node(int(g_nodes.size()) - 1);
                }
            } }
        wide_last = g_nodes.size();
    }
    for (size_t i = 0; i < g_nodes.size(); ++i) {
        if (wide && i >= wide_last) break;
        if (wide) { cfg.cap = g_nodes[i].m.exists ? g_nodes[i].m.cap + cfg.nextra : cfg.wide.back(); cfg.cap2 = g_nodes[i].m.cap; }
        gen_ops(g_nodes[i].m, ops);
        Hist h = path_to(int(i)); Model pre = g_nodes[i].m;
        for (size_t k = 0; k < ops.size(); ++k) {
            Hist hh = h; hh.push_back(ops[k]);
            if (out_of_time()) { ++g_res.capped; return; }
            Outcome out = run_hist(hh, 1, 0);
            ++g_res.transitions; ++g_res.per_fam[code_name[ops[k].code]];
            if (g_samples.size() < 6 && g_res.transitions % 997 == 1) g_samples.push_back(hist_str(hh));
            if (!g_viols.empty()) { report(hh, ops[k], ""); if (int(g_found.size()) >= cfg.max_viol) return; continue; }
            digest(pre, ops[k], out, hh);
            if (out.ok && admit(int(i), ops[k], out)) { probe_node(int(g_nodes.size()) - 1); if (int(g_found.size()) >= cfg.max_viol) return; }
            if (cfg.faults && (family_of(ops[k].code) & cfg.focus) && ops[k].code != X_OP) {
                int fps = out.fps;
                for (int f = 1; f <= fps; ++f) {
                    hh.back().fault = short(f); Op fo = hh.back();
                    Outcome fout = run_hist(hh, 1, 0);
                    ++g_res.fault_runs;
                    if (!g_viols.empty()) { report(hh, fo, ""); if (int(g_found.size()) >= cfg.max_viol) return; continue; }
                    if (g_exc_kind == 1) ++g_res.thrown;
                    digest(pre, fo, fout, hh);
                    if (fout.ok && admit(int(i), fo, fout)) { probe_node(int(g_nodes.size()) - 1); if (int(g_found.size()) >= cfg.max_viol) return; }
                }
                hh.back().fault = 0;
            }
        }
    }
    g_res.fixpoint = g_res.capped == 0;
}

static std::string jesc(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

static unsigned parse_mask(const char* s, bool fam) {
    static const char* fn[] = {"CTOR", "PUSH", "INS", "ERASE", "CAP", "ASSIGN", "LIN", "TWO", "SELF", "X"};
    unsigned r = 0; std::string t(s); size_t i = 0;
    while (i <= t.size()) {
        size_t j = t.find(',', i); if (j == std::string::npos) j = t.size();
        std::string w = t.substr(i, j - i); i = j + 1;
        if (w.empty()) continue;
        if (w == "ALL") { r |= fam ? (F_ALL & ~F_SELF & ~F_X) : 0xffffffffu; continue; }
        if (!fam) { r |= tag_by_name(w); continue; }
        unsigned k = 0; for (; k < 10; ++k) if (w == fn[k]) { r |= 1u << k; break; }
        if (k == 10) { std::fprintf(stderr, "bad family %s\n", w.c_str()); std::exit(2); }
    }
    return r;
}

static void print_found(const std::string& label) {
    for (size_t i = 0; i < g_found.size(); ++i) {
        const Found& f = g_found[i];
        std::printf("VIOL {\"config\":\"%s\",\"tag\":\"%s\",\"op\":\"%s\",\"fault\":%s,\"sig\":\"%s\",\"msg\":\"%s\",\"hist\":\"%s\"}\n", label.c_str(), tag_name(f.tag), code_name[f.code], f.fault ? "true" : "false", jesc(f.sig).c_str(), jesc(f.msg).c_str(), jesc(f.hist).c_str());
    }
}

} // namespace mc
#endif
