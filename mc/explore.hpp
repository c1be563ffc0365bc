// One checked transition (exec), and breadth-first exploration over all of them.
#ifndef MC_EXPLORE_HPP
#define MC_EXPLORE_HPP
#include "engine.hpp"

namespace mc {
#if MC_NOEXC
struct StepCall { World* w; const Op* o; CB** b; Source* s; E* item; int* x; void operator()() { real_step(*w, *o, *b, *s, *item, *x); } };
#endif

#if MCDEBUG
// what the debug support says about a use: true if it was reported by an assertion
template <class F> static bool dbg_asserts(F f) {
    g_assert_armed = true; bool r = false;
    try { f(); } catch (Asserted&) { r = true; }
    g_assert_armed = false; return r;
}
template <class I> static bool dbg_deref_ok(const I& it) { return !dbg_asserts([&] { (void)*it; }); }
#endif
struct Held { std::vector<It> it; std::vector<CIt> cit; std::vector<const E*> addr; std::vector<int> ids; It end; bool taken; Held() : taken(false) {} };
static void hold(Held& h, CB& c) {
    const CB& cc = c; int n = int(c.size());
    for (int i = 0; i < n; ++i) { h.it.push_back(c.begin() + i); h.cit.push_back(cc.begin() + i); h.addr.push_back(&c[i]); h.ids.push_back(id_of(c[i])); }
    h.end = c.end(); h.taken = true;
}
// does the documentation promise that an iterator to element i survives operation o from state m, and where is it then?
static bool survives(const Model& m, const Op& o, bool lin, int i, int& to) {
    int n = m.size(); bool full = m.full(); to = i;
    switch (o.code) {
#if CONT == 0
        case PUSHB: case SELFPUSHB: if (full) { to = i - 1; return m.cap == 0 || i > 0; } return true;
        case PUSHF: case SELFPUSHF: to = i + 1; return full ? i < n - 1 : true;
        case POPB: return i < n - 1;
        case POPF: to = i - 1; return i > 0;
        case INS1: { int p = o.a[1]; if (full && p == 0) return true; if (i >= p) return false; to = full ? i - 1 : i; return to >= 0; }
        case RINS1: { int p = o.a[1]; if (full && p == n) return true; if (i < p) return false; to = i + 1; return to < m.cap; }
        case INSN: case INSR: { int p = o.code == INSN ? o.a[0] : o.a[1], k = o.code == INSN ? o.a[1] : o.a[2];
            k = std::min(k, p + m.reserve()); if (k == 0) return i < p; if (i >= p) return false; to = i - std::max(0, k - m.reserve()); return to >= 0; }
        case RINSN: case RINSR: { int p = o.code == RINSN ? o.a[0] : o.a[1], k = o.code == RINSN ? o.a[1] : o.a[2];
            k = std::min(k, n - p + m.reserve()); if (k == 0) return i >= p; if (i < p) return false; to = i + k; return to < m.cap; }
        case ERASE1: return i < o.a[0];
        case ERASER: return i < o.a[0];
        case RERASE1: to = i - 1; return i > o.a[0];
        case RERASER: to = i - (o.a[1] - o.a[0]); return i >= o.a[1];
        case ERASEB: to = i - o.a[0]; return i >= o.a[0];
        case ERASEE: return i < n - o.a[0];
        case SETCAP: case RSETCAP: return o.a[0] == m.cap;
        case RESIZE: return o.a[0] > m.cap ? false : (i < o.a[0]);
        case RRESIZE: if (o.a[0] > m.cap) return false; to = i + (o.a[0] - n); return to >= 0;
        case SELFASG: return HAS_COPY && o.a[0] == 0;
#endif
        case ROTATE: { int p = o.a[0];
            if (full) { to = (i - p + n) % n; return true; }
            int mm = n - p, k = p;
            if (mm < k) { to = i + mm; return i < p; }
            to = i - k; return i >= p; }
        case LINEARIZE: return lin;
        default: return false;
    }
}

static bool g_check_uses = false;  // debug: try every use of every invalid iterator (C14)
static void debug_uses(World& w, Held& h);

static int n_sources(const Op& o) {
    switch (o.code) { case CTOR_R: case ASSIGN_R: return o.a[1]; case CTOR_CR: case ASSIGN_CR: return o.a[2]; case INSR: case RINSR: return o.a[2]; default: return 0; }
}
static bool two_container(int c) { return c == COPYASG || c == MOVEASG || c == SWAP; }
static bool copies_container(int c) { return c == COPYCTOR || c == MOVECTOR; }

static bool linear(const CB& c) { return c.array_two().second == 0; }

struct Stat { u64 exec, faults, thrown; };
static Stat g_stat;

static void destroy_cb(CB*& c) { if (c) { c->~CB(); c = 0; } }

// Cost bound: allowed element operations for the documented complexity measure x
static long cost_x(const Model& m, const Op& o, bool lin, int m2size) {
    int n = m.size(); bool full = m.full();
    switch (o.code) {
        case PUSHB: case PUSHF: case POPB: case POPF: case SELFPUSHB: case SELFPUSHF: case SWAP: case MOVECTOR: return 0;
        case INS1: return n - o.a[1];
        case RINS1: return o.a[1];
        case INSN: return std::min(m.cap, n - o.a[0] + o.a[1]);
        case RINSN: return std::min(m.cap, o.a[0] + o.a[1]);
        case INSR: return o.a[0] == C_PTR ? std::min(m.cap, n - o.a[1] + o.a[2]) : n - o.a[1] + o.a[2];
        case RINSR: return o.a[0] == C_PTR ? std::min(m.cap, o.a[1] + o.a[2]) : o.a[1] + o.a[2];
        case CTOR_DEF: case CTOR_CAP: return 0;
        case CTOR_FILL: case CTOR_N: return o.a[0];
        case CTOR_CN: return o.a[1];
        case CTOR_R: return 2 * o.a[1];
        case CTOR_CR: return o.a[0] == C_PTR ? std::min(o.a[1], o.a[2]) : 2 * o.a[2];
        case ERASE1: return n - o.a[0];
        case ERASER: return o.a[0] == o.a[1] ? 0 : n - o.a[0];
        case RERASE1: return o.a[0] + 1;
        case RERASER: return o.a[0] == o.a[1] ? 0 : o.a[1];
        case ERASEB: case ERASEE: return o.a[0];
        case CLEAR: return n;
        case SETCAP: case RSETCAP: return o.a[0] == m.cap ? 0 : n;
        case RESIZE: case RRESIZE: return o.a[0] == n ? 0 : (o.a[0] <= m.cap ? std::abs(o.a[0] - n) : std::max(n, int(o.a[0])));
        case ASSIGN_N: return n + o.a[0];
        case ASSIGN_CN: return n + o.a[1];
        case ASSIGN_R: return n + 2 * o.a[1];
        case ASSIGN_CR: return n + (o.a[0] == C_PTR ? std::min(o.a[1], o.a[2]) : 2 * o.a[2]);
        case LINEARIZE: return lin ? -1 : n;
        case ROTATE: return full ? -1 : std::min(n - o.a[0], int(o.a[0]));
        case COPYASG: return n + m2size;
        case MOVEASG: return n;
        case COPYCTOR: return n;
        default: return -2;
    }
}

#if CONT == 1
// documented allocation after construction/assignment (-1: unspecified)
static int so_documented(const Op& o, const Model& m) {
    switch (o.code) {
        case CTOR_DEF: return 0;
        case CTOR_CAP: return o.a[1];
        case CTOR_FILL: return o.a[0];
        case CTOR_CN: return std::max(o.a[1], o.a[2]);
        case CTOR_R: return o.a[1];
        case CTOR_CR: return std::max(int(o.a[3]), std::min(int(o.a[1]), int(o.a[2])));
        case ASSIGN_N: return o.a[0];
        case ASSIGN_CN: return std::max(o.a[1], o.a[2]);
        case ASSIGN_R: return o.a[1];
        case ASSIGN_CR: return std::max(int(o.a[3]), std::min(int(o.a[1]), int(o.a[2])));
        case COPYASG: return m.size();
        default: return -1;
    }
}
#endif

// executes one operation on the real container and on the model. Returns false when the history cannot go on
static bool exec(World& w, const Op& o, bool check) {
    ++w.seq; ++g_stat.exec;
    if (o.fault) g_fault_ctx = true;
    Model before = w.m, m2, m2before; CB* b = 0; int oslot = 1 - w.slot;
    bool two = two_container(o.code), lin = w.c ? linear(*w.c) : true;
    if (two) {
        m2.exists = true; m2.cap = o.a[0]; m2.min = o.a[3]; m2.aid = AID + 2;
        for (int i = 0; i < o.a[2]; ++i) m2.v.push_back(ID_B + i);
        std::memset(slot_mem(oslot), 0, SLOTSZ);
        b = new (slot_mem(oslot)) CB(mkcap(o.a[0], o.a[3]), A(2));
        build_geo(*b, o.a[1], o.a[2]);
    }
    if (copies_container(o.code)) std::memset(slot_mem(oslot), 0, SLOTSZ);
    m2before = m2;
    bool live_after = true;
    {
        Source s(n_sources(o)); E item(ID_NEW);
        Held h; bool holding = check && w.c && o.code != X_OP;
        if (holding) hold(h, *w.c);
        size_t blocks0 = 0; if (check) for (size_t i = 0; i < g_blks.size(); ++i) blocks0 += g_blks[i].live;
        long ext0 = g_ext_live;
        g_ret = -2; g_ret_end = g_ret_odd = false; g_ret_ptr = 0; g_exc_kind = 0; g_what.clear();
        int exp = model_step(w.m, o, &m2);
        size_t nblk0 = g_blks.size();
        op_begin(o.fault);
#if MC_NOEXC
        { StepCall call = {&w, &o, &b, &s, &item, &oslot}; g_exc_kind = guarded(call); if (g_exc_kind) g_what = g_exc_what; }
#else
        try { real_step(w, o, b, s, item, oslot); }
        catch (Injected&) { g_exc_kind = 1; }
        catch (InjectedAlloc&) { g_exc_kind = 1; }
        catch (std::out_of_range& e) { g_exc_kind = 2; g_what = e.what(); }
        catch (std::length_error& e) { g_exc_kind = 3; g_what = e.what(); }
        catch (std::bad_alloc& e) { g_exc_kind = 4; g_what = e.what(); }
        catch (std::exception& e) { g_exc_kind = 5; g_what = e.what(); }
#if MCDEBUG
        catch (Asserted& a) { g_exc_kind = 6; g_what = a.expr; }
#endif
#endif
        op_end();
        bool thrown = g_exc_kind != 0;
        if (thrown) ++g_stat.thrown;
        if (!thrown) {
            if (check) {
                if (o.fault && g_fp_thrown >= 0) fail(T_EXC, "exception thrown by %s was swallowed", fp_name(g_fp_thrown));
                if (g_heap && o.code != X_OP) fail(T_ALLOC, "memory obtained from the global heap %ld time(s) instead of the allocator", g_heap);
                if (w.c && o.code != X_OP) for (size_t i = nblk0; i < g_blks.size(); ++i) { // by a copy of the allocator given or of the source's
                    long a = g_blks[i].aid;
                    if (a != w.c->get_allocator().id && !(before.exists && a == before.aid) && !(two && a == m2before.aid)) { fail(T_ALLOC, "memory obtained from allocator %ld, the container holds %ld", a & 255, w.c->get_allocator().id & 255); break; }
                }
                if (o.code != X_OP) {
                    // returned positions
                    if (exp != -2 && g_ret != exp) fail(T_SEM, "returned position %d, expected %d", g_ret, exp);
                    if (exp != -2 && g_ret_end != (exp == w.m.size())) fail(T_SEM, "returned iterator %s end() at position %d of %d", g_ret_end ? "equals" : "does not equal", exp, w.m.size());
                    if (exp != -2 && g_ret_odd) fail(T_SEM, "returned iterator at distance %d from begin() is not the iterator to that element", g_ret);
                    check_state(*w.c, w.m, b ? "first container" : "container");
                    if (b) check_state(*b, m2, "second container");
                    if (o.code == LINEARIZE) {
                        if (!linear(*w.c)) fail(T_VIEW, "not linear after linearize()");
                        if (w.c->size() ? (!w.c->is_linearized()) : false) fail(T_VIEW, "is_linearized() false after linearize()");
                        if (w.c->empty() ? g_ret_ptr != 0 : g_ret_ptr != &(*w.c)[0]) fail(T_VIEW, "linearize() returned a wrong pointer");
                        if (lin && before.size() && h.taken && g_ret_ptr != h.addr[0]) fail(T_VIEW, "linearize() of linear content moved it");
                    }
                    check_resources(w.c, b);
                    if (g_ext_live != ext0) fail(T_LIFE, "%ld temporary element(s) leaked outside the storage", g_ext_live - ext0);
                    // arguments given as lvalues are untouched
#if IS_CLASS
                    bool lval = o.code == INSN || o.code == RINSN || o.code == RESIZE || o.code == RRESIZE || o.code == ASSIGN_N || o.code == ASSIGN_CN || o.code == CTOR_N || o.code == CTOR_CN ||
                                ((o.code == PUSHB || o.code == PUSHF || o.code == INS1 || o.code == RINS1) && o.a[0] == 0);
                    if (lval && id_of(item) != ID_NEW) fail(T_MOVE, "lvalue argument was modified");
                    int nsrc = n_sources(o), cat = o.a[0];
                    if (nsrc && cat != C_MOVE && cat != C_INT) for (int i = 0; i < nsrc; ++i) if (id_of(s.v[i]) != ID_NEW + i) { fail(T_MOVE, "source range was modified through copying iterators"); break; }
#endif
                }
                bool nofault = !o.fault;
                if (nofault && w.c && o.code != X_OP) {
                    int n = before.size(); (void)n;
                    // ---- documented no-throw operations must not reach anything that may throw
                    bool nothrow = o.code == SWAP || o.code == MOVEASG || o.code == MOVECTOR || o.code == SELFASG || (o.code == LINEARIZE && lin) ||
                                   (o.code == ROTATE && (before.full() || o.a[0] == 0));
#if CONT == 0
                    nothrow = nothrow || o.code == POPB || o.code == POPF || o.code == CLEAR || ((o.code == SETCAP || o.code == RSETCAP) && o.a[0] == before.cap) || o.code == CTOR_DEF;
#endif
                    if (nothrow && g_oc.fps) fail(T_EXC, "no-throw operation performs %d operation(s) that may throw", g_oc.fps);
#if IS_CLASS
                    // ---- copy/move policy
                    int copies = g_oc.fp[FP_COPY] + g_oc.fp[FP_ASSIGN];
#if ELEM == 2 || ELEM == 4
                    {
                        int allow = -1;
                        switch (o.code) {
                            case PUSHB: case PUSHF: case INS1: case RINS1: allow = o.a[0] == 0 ? 1 : 0; break;
                            case POPB: case POPF: case ERASE1: case ERASER: case RERASE1: case RERASER: case ERASEB: case ERASEE: case CLEAR:
                            case SETCAP: case RSETCAP: case LINEARIZE: case ROTATE: case SWAP: case MOVEASG: case MOVECTOR: case SELFASG: allow = 0; break;
                            case RESIZE: case RRESIZE: allow = std::max(0, o.a[0] - n); break;
                        }
                        if (allow >= 0 && copies > allow) fail(T_MOVE, "%d element copies with a non-throwing move available (at most %d expected)", copies, allow);
                    }
#endif
#if ELEM == 3
                    if ((o.code == PUSHB || o.code == PUSHF) && o.a[0] == 1 && CONT == 0 && copies) fail(T_MOVE, "rvalue push copied its argument");
                    if (MK != 2 && (o.code == SETCAP || o.code == RSETCAP) && CONT == 0 && g_oc.c.mctor + g_oc.c.masg) fail(T_MOVE, "capacity change moves copyable elements whose move may throw");
#endif
                    // ---- complexity
                    {
                        long x = cost_x(before, o, lin, int(m2before.v.size()));
                        long bound = x == -1 ? 0 : 6 * x + 10;
#if CONT == 1
                        if (x >= 0) bound = 6 * (before.size() + w.m.size() + 2 + x) + 10; // reallocation may add the whole content
                        if (x >= 0 && (o.code == INSN || o.code == RINSN || o.code == INSR || o.code == RINSR)) bound += 12 * before.cap;
#endif
#if MCDEBUG
                        x = -2;
#endif
                        if ((o.code == INSR || o.code == RINSR) && o.a[0] == C_IN && x > 0) {
                            // items of a single-pass range are inserted one by one: known finding, bounded by the product
                            long prod = bound + 8 * (x + 1) * (o.a[2] + 1);
                            if (cnt_total() > bound && cnt_total() <= prod) { fail(T_COST, "single-pass range inserted item by item: quadratic cost (%ld element operations, documented bound allows about %ld)", cnt_total(), bound); x = -2; }
                            if (x > 0) bound = prod;
                        }
                        if (x >= -1 && cnt_total() > bound) fail(T_COST, "%ld element operations, documented bound allows about %ld (size %d, capacity %d)", cnt_total(), bound, before.size(), before.cap);
                        if (x >= -1 && o.code > CTOR_GEO && o.code <= COPYASG && !n_sources(o) && o.code != ASSIGN_N && o.code != ASSIGN_CN && o.code != RESIZE && o.code != RRESIZE && cnt_total() > 10L * (before.cap + 2) + (two ? 10L * m2before.cap : 0))
                            fail(T_COST, "%ld element operations with capacity %d", cnt_total(), before.cap);
                    }
#endif
#if !IS_CLASS && ALLOC_CONSTRUCT
                    if ((o.code == CLEAR || o.code == ERASEB || o.code == ERASEE) && g_alloc_destroys > 2 && !MCDEBUG && CONT == 0) fail(T_COST, "%d destructions of scalars", int(g_alloc_destroys));
#endif
                    // ---- fixed storage
#if CONT == 0
                    bool quiet_mem = false;
                    switch (o.code) {
                        case PUSHB: case PUSHF: case POPB: case POPF: case INS1: case RINS1: case INSN: case RINSN: case INSR: case RINSR: case SELFPUSHB: case SELFPUSHF:
                        case ERASE1: case ERASER: case RERASE1: case RERASER: case ERASEB: case ERASEE: case CLEAR: case LINEARIZE: case ROTATE: case SWAP: case SELFASG: case MOVECTOR: quiet_mem = true; break;
                        case SETCAP: case RSETCAP: quiet_mem = o.a[0] == before.cap; break;
                        case RESIZE: case RRESIZE: quiet_mem = o.a[0] <= before.cap; break;
                    }
                    if (quiet_mem && (g_oc.allocs || g_oc.deallocs)) fail(T_MEM, "%d allocation(s) and %d release(s) by an operation that must not touch memory", g_oc.allocs, g_oc.deallocs);
                    if (quiet_mem && g_heap) fail(T_MEM, "global heap used by an operation that must not touch memory");
                    if (o.code == MOVEASG && g_oc.allocs) fail(T_MEM, "move assignment allocates memory");
                    if (o.code == CTOR_DEF && g_oc.allocs) fail(T_MEM, "default construction allocates memory");
                    if ((o.code == MOVEASG || o.code == SWAP) && m2before.v.size()) {
                        // the block changed hands: elements were not touched
                        if (g_oc.c.cctor + g_oc.c.mctor + g_oc.c.casg + g_oc.c.masg) fail(T_MEM, "move/swap touches elements");
                    }
#endif
                    // ---- iterator stability
                    if (h.taken && o.code != COPYCTOR && o.code != MOVECTOR && o.code != MOVEASG && o.code != SWAP && o.code != COPYASG) {
                        bool pushpop = o.code >= PUSHB && o.code <= POPF;
                        const CB& cc = *w.c;
                        for (int i = 0; i < before.size(); ++i) {
                            int to; if (!survives(before, o, lin, i, to)) continue;
                            if (to < 0 || to >= w.m.size()) { fail(T_ITER, "harness: survivor index"); continue; }
                            if (h.addr[i] != &cc[to]) { fail(pushpop ? T_ADDR : T_ITER, "reference to element %d no longer designates it (now element %d)", i, to); continue; }
#if MCDEBUG
                            if (!dbg_deref_ok(h.it[i]) || !dbg_deref_ok(h.cit[i])) { fail(T_DEBUG, "iterator to element %d reported invalid although it survives", i); continue; }
#endif
                            if (&*h.it[i] != h.addr[i] || &*h.cit[i] != h.addr[i]) { fail(T_ITER, "iterator to element %d designates another object", i); continue; }
                            if (h.it[i] - w.c->begin() != to || h.cit[i] - cc.begin() != to || w.c->begin() + to != h.it[i] || cc.end() - h.cit[i] != w.m.size() - to) fail(T_ITER, "iterator to element %d does not work at its new position %d", i, to);
                            It t = h.it[i]; ++t;
                            if (to + 1 < w.m.size() ? (t == w.c->end() || &*t != &cc[to + 1]) : t != w.c->end()) fail(T_ITER, "incrementing a surviving iterator goes wrong");
                            if (to > 0) { t = h.it[i]; --t; if (&*t != &cc[to - 1]) fail(T_ITER, "decrementing a surviving iterator goes wrong"); }
                        }
#if MCDEBUG
                        if (dbg_asserts([&] { (void)(h.end == w.c->end()); })) {
                            if (o.code != SELFASG) fail(T_DEBUG, "end() iterator reported invalid");
                        } else
#endif
                        if (o.code != SELFASG && !(h.end == w.c->end())) fail(T_ITER, "held end() iterator is no longer end()");
                    }
                    if (h.taken && o.code == SWAP && b) for (int i = 0; i < before.size(); ++i) if (h.addr[i] != &(*b)[i]) { fail(T_ITER, "swap relocated element %d", i); break; }
#if MCDEBUG
                    if (h.taken) {
                        for (int i = 0; i < before.size(); ++i) for (int k = 0; k < 2; ++k) {
                            bool valid = k ? dbg_deref_ok(h.cit[i]) : dbg_deref_ok(h.it[i]);
                            if (!valid) continue;
                            const E* p = k ? &*h.cit[i] : &*h.it[i]; bool found = false;
                            for (int j = 0; j < w.m.size(); ++j) if (&(*w.c)[j] == p && id_of((*w.c)[j]) == h.ids[i]) found = true;
                            if (!found) fail(T_DEBUG, "iterator to former element %d counts as valid although it does not designate that element any more", i);
                        }
                        if (b && o.code == SWAP)
                            for (int i = 0; i < before.size(); ++i) if (!dbg_asserts([&] { (void)(h.it[i] == b->begin()); })) { fail(T_DEBUG, "iterator valid for the container swapped with"); break; }
                        if (g_check_uses) debug_uses(w, h);
                    }
#endif
                }
            }
        } else {
            bool ctor = o.code <= CTOR_GEO;
            if (g_exc_kind == 1 && !o.fault) fail(T_EXC, "harness: injected without a fault");
            if (o.code != X_OP && g_exc_kind != 1) fail(g_exc_kind == 6 ? T_DEBUG : T_SEM, "unexpected exception %s", g_what.c_str());
            if (check && g_ext_live != ext0) fail(T_LIFE, "%ld temporary element(s) leaked outside the storage", g_ext_live - ext0);
            if (ctor) {
                if (check) { check_resources(0, 0); }
                w.c = 0; live_after = false;
            } else {
                // adopt the actual state after verifying that it is a valid one
                Model am = before; bool sane = true;
                am.cap = cap_of(*w.c); am.min = min_of(*w.c);
                if (w.c->size() > size_t(am.cap) || w.c->size() > 4096) { fail(T_SEM, "after exception: size %lu, capacity %d", (unsigned long)w.c->size(), am.cap); sane = false; }
                if (sane) {
                    am.v = content(*w.c); am.exempt = true;
                    if (check) {
                        check_state(*w.c, am, "after exception");
                        check_resources(w.c, b);
                        if (b) check_state(*b, m2before, "second container after exception");
                        for (int i = 0; i < am.size(); ++i) {
                            int id = am.v[i];
                            bool ok = (id >= 1 && id <= before.size()) || (id >= ID_NEW && id < ID_NEW + 20000) || id == ID_DEFAULT || (id >= ID_B && id < ID_B + 20000) || id == ID_MOVED || id >= ID_GEN;
                            if (!ok) fail(T_SEM, "after exception: element %d has a value (%d) that never existed", i, id);
#if ELEM == 3
                            if (id == ID_MOVED && (o.code == SETCAP || o.code == RSETCAP || o.code == LINEARIZE || o.code == ROTATE || o.code == INS1 || o.code == RINS1 || (o.code >= ERASE1 && o.code <= RRESIZE)))
                                fail(T_MOVE, MK == 2 ? "after exception: element %d is moved-from (throwing move=)" : "after exception: element %d is a moved-from copyable element", i);
#endif
                        }
                        bool strong = o.code == SETCAP || o.code == RSETCAP || o.code == COPYASG || (o.code == X_OP && (o.a[0] <= X_RSETCAP));
                        if (strong && (am.v != before.v || am.cap != before.cap || am.min != before.min))
                            fail(T_STRONG, "strong guarantee broken: %s capacity %d/%d before, %s capacity %d/%d after the exception", ids_str(before.v).c_str(), before.cap, before.min, ids_str(am.v).c_str(), am.cap, am.min);
#if ELEM == 3
                        bool lval = o.code == INSN || o.code == RINSN || ((o.code == PUSHB || o.code == PUSHF || o.code == INS1 || o.code == RINS1) && o.a[0] == 0);
                        if (lval && id_of(item) != ID_NEW) fail(T_MOVE, "lvalue argument was modified");
#endif
                    }
                    w.m = am;
                } else live_after = false;
            }
            m2 = m2before;
        }
        if (check && o.code == X_OP && w.c) { // extreme arguments: oracle
            unsigned long v = x_values(before)[o.a[1]]; int sub = o.a[0]; bool moved = false;
            unsigned long n = before.size(), c = before.cap;
            Model em = before; int want = 0; // 0 succeed, 1 out_of_range, 2 length/allocation error
            std::vector<int> items;
            unsigned long mxs = w.c->max_size();
            if (mxs > SizeT(-1) / 2 || mxs > TA<E>().max_size() || (g_max_size && mxs != g_max_size)) fail(T_LIMIT, "max_size() is %lu, the allocator supports %lu", mxs, (unsigned long)TA<E>().max_size());
            switch (sub) {
                case X_AT: case X_CAT: want = v >= n ? 1 : 0; if (!want && g_ret != before.v[v]) fail(T_LIMIT, "at(%lu) returned the wrong element", v); break;
                case X_SETCAP: case X_RSETCAP: case X_ASSIGN_CN: case X_CTOR_CAP: {
                    // memory is needed for min capacity only in the space-optimized container
                    unsigned long need = (CONT == 0 || o.a[3] || sub == X_ASSIGN_CN) ? v : 0;
                    want = need > mxs || need > REFUSE ? 2 : 0; moved = !want; break; }
                case X_ASSIGN_N: case X_CTOR_N: want = v > mxs || v > REFUSE ? 2 : 0; moved = !want; break;
                case X_CTOR_R: want = DiffT(v) < 0 ? -1 : 0; break;
                case X_RESIZE: case X_RRESIZE: want = v > n && v > c && (v > mxs || v > REFUSE) ? 2 : 0; moved = !want; break;
                case X_INSN: case X_RINSN: case X_INSR: case X_RINSR: {
                    if ((sub == X_INSR || sub == X_RINSR) && DiffT(v) < 0) { want = -1; break; }
                    unsigned long p = o.a[2], room = sub == X_INSN || sub == X_INSR ? p + (c - n) : (n - p) + (c - n), k = std::min(v, room);
                    for (unsigned long i = 0; i < k; ++i) items.push_back(sub == X_INSN || sub == X_RINSN ? ID_NEW : int((sub == X_INSR ? v - k + i : i) % 1000) + ID_GEN);
                    if (sub == X_INSN || sub == X_INSR) m_insert(em, int(p), items); else m_rinsert(em, int(p), items);
                    break; }
            }
            if (want != -1) {
                const char* sn[] = {"at", "at const", "set_capacity", "rset_capacity", "resize", "rresize", "insert n", "rinsert n", "insert range", "rinsert range", "assign n", "construct capacity", "construct n", "construct range", "assign capacity,0"};
                if (g_exc_kind == 6 || g_exc_kind == 5) fail(T_LIMIT, "%s(%lu): unexpected exception %s", sn[sub], v, g_what.c_str());
                else if (want == 1 && g_exc_kind != 2) fail(T_LIMIT, "%s(%lu) with size %lu did not throw out_of_range", sn[sub], v, n);
                else if (want == 2 && g_exc_kind != 3 && g_exc_kind != 4) fail(T_LIMIT, "%s(%lu) did not fail although it exceeds max_size or memory", sn[sub], v);
                else if (want == 2 && v > mxs && CONT == 0 && g_exc_kind != 3) fail(T_LIMIT, "%s(%lu) beyond max_size did not throw length_error", sn[sub], v);
                else if (want == 0 && g_exc_kind != 0) fail(T_LIMIT, "%s(%lu) failed: %s", sn[sub], v, g_what.c_str());
                if (g_exc_kind != 0 && (w.m.v != before.v || w.m.cap != before.cap || w.m.min != before.min))
                    fail(T_LIMIT, "%s(%lu): container changed by a refused request: %s/%d -> %s/%d", sn[sub], v, ids_str(before.v).c_str(), before.cap, ids_str(w.m.v).c_str(), w.m.cap);
                if (g_exc_kind == 0 && moved && !(sub == X_CTOR_CAP || sub == X_CTOR_N)) {
                    // small values: the result is covered by the regular operations; adopt it
                    em = before; em.cap = cap_of(*w.c); em.min = min_of(*w.c); em.v = content(*w.c); em.exempt = true;
                    if ((sub == X_SETCAP || sub == X_RSETCAP) && (unsigned long)w.c->capacity() != v) fail(T_LIMIT, "capacity %lu requested, got %lu", v, (unsigned long)w.c->capacity());
                    if ((sub == X_RESIZE || sub == X_RRESIZE || sub == X_ASSIGN_N) && w.c->size() != v) fail(T_LIMIT, "size %lu requested, got %lu", v, (unsigned long)w.c->size());
                }
                if (g_exc_kind == 0) {
                    w.m = em;
                    size_t nv = g_viols.size();
                    check_state(*w.c, em, "after extreme argument");
                    for (; nv < g_viols.size(); ++nv) g_viols[nv].tag = T_LIMIT;
                    if ((sub == X_CTOR_CAP || sub == X_CTOR_N || sub == X_CTOR_R) && g_ret != 1) fail(T_LIMIT, "%s(%lu): wrong size or capacity", sn[sub], v);
                }
                check_resources(w.c, 0);
            }
            live_after = false; // terminal: capacities beyond the bound are not explored further
        }
    }
    // second container: drop or continue with it
    if (b) {
        CB* keepme = w.c; Model km = w.m;
        if ((o.a[4] & 1) && g_exc_kind == 0) { keepme = b; km = m2; CB* drop = w.c; w.c = b; w.slot = oslot; destroy_cb(drop); }
        else { destroy_cb(b); }
        w.c = keepme; w.m = km;
        if (check) check_resources(w.c, 0);
    }
    if (w.c && w.m.cap < 0) { w.m.cap = cap_of(*w.c); w.m.min = min_of(*w.c); }
    if (w.c) w.m.aid = w.c->get_allocator().id;
#if CONT == 1
    if (w.c && check && o.code != X_OP) {
        int a1 = int(so_alloc(w.c)), n = int(w.c->size()), mn = w.m.min, cp = w.m.cap;
        if (a1 < n || a1 > cp) fail(T_MEM, "allocated %d elements with size %d and capacity %d", a1, n, cp);
        if (a1 < mn && !w.m.exempt) fail(T_MEM, "allocated %d elements, minimum capacity is %d", a1, mn);
        if (!g_exc_kind && o.code >= POPB && o.code <= CLEAR && (o.code <= POPF || o.code >= ERASE1) && a1 > std::max(mn, 3 * n + 2)) fail(T_MEM, "allocated %d elements after a removal leaving %d (minimum %d)", a1, n, mn);
        int doc = so_documented(o, w.m);
        if (g_exc_kind == 0 && doc >= 0 && !(two && (o.a[4] & 1)) && a1 != doc) fail(T_MEM, "allocated %d elements, documented %d", a1, doc);
        if (g_exc_kind == 0 && o.code == COPYCTOR && (o.a[4] & 1) && a1 != n) fail(T_MEM, "copy allocated %d elements for %d", a1, n);
    }
    if (w.c) { size_t a1 = so_alloc(w.c); if (a1 >= size_t(w.m.min)) w.m.exempt = false; }
#endif
    if (w.c && live_after && !g_viols.size()) relabel(*w.c, w.m);
#if FANCY
    { std::ptrdiff_t d = rt_relocate(); if (w.c) w.c = reinterpret_cast<CB*>(reinterpret_cast<char*>(w.c) + d); }
#endif
    return live_after && w.c != 0 && g_viols.empty();
}

} // namespace mc
#endif
