// C20: the code is compiled with memory-access instrumentation (tsan_rt.hpp). Threads are fibers under a controlled
// scheduler. Thread t owns container t and the memory it allocates; container S is shared and only read.
// On every access: a write outside the thread's own memory, or an access to another thread's memory, is a violation
// (two threads' operations would not be independent). Every operation in every layout is run; then every pair (triple)
// of operations on shared and distinct containers is run under every schedule up to the preemption bound, with a
// scheduling point at every access to shared memory, and every result is compared with the result obtained alone.
#undef _FORTIFY_SOURCE
#define BOOST_CB_DISABLE_DEBUG
#include "tsan_rt.hpp"
#include "sched.hpp"
#include <boost/circular_buffer.hpp>
#include <set>
#include <map>
#include <ctime>
#include <new>
#include <link.h>
typedef unsigned long long u64; typedef unsigned char u8;
static const int S = 3, NREG = 4, REGB = 4096;      // container/region 3 is the shared one
struct World { u8 c[4][256]; u8 reg[NREG][REGB]; u64 res[4]; u64 scratch[4][8]; int used[NREG]; };
static World W, W0; static int g_t = 0;             // thread whose regions are used
NOTSAN static int tid() { return sched::cur >= 0 ? sched::cur : g_t; }
template <class T> struct Al {
    typedef T value_type; Al() {} template <class U> Al(const Al<U>&) {}
    NOTSAN T* allocate(std::size_t n) { bool o = g_on; g_on = false; int t = tid(); size_t b = (n * sizeof(T) + 15) / 16 * 16; if (W.used[t] + b > REGB) std::abort(); T* p = (T*)(W.reg[t] + W.used[t]); W.used[t] += int(b); g_on = o; return p; }
    NOTSAN void deallocate(T*, std::size_t) {}
    bool operator==(const Al&) const { return true; } bool operator!=(const Al&) const { return false; }
};
#if ELEM == 0
typedef int E; static int val(const E& e) { return e; }
#else
struct E { int v; E() : v(0) {} E(int x) : v(x) {} E(const E& o) : v(o.v) {} E& operator=(const E& o) { v = o.v; return *this; } ~E() { v = -1; }
#if ELEM == 2
    E(E&& o) noexcept : v(o.v) { o.v = -2; } E& operator=(E&& o) noexcept { v = o.v; if (&o != this) o.v = -2; return *this; }
#endif
    friend bool operator==(const E& a, const E& b) { return a.v == b.v; } friend bool operator<(const E& a, const E& b) { return a.v < b.v; } };
static int val(const E& e) { return e.v; }
#endif
#if CONT == 0
typedef boost::circular_buffer<E, Al<E> > C;
#else
typedef boost::circular_buffer_space_optimized<E, Al<E> > C;
#endif
static_assert(sizeof(C) <= 256, "");
NOTSAN static C& con(int t) { return *reinterpret_cast<C*>(W.c[t]); }
extern "C" char __data_start, _end;      // static storage of the program
static u8* tls_lo; static u8* tls_hi; static u8* main_lo; static u8* main_hi;
static int g_viol_kind; static std::string g_viol_msg; static u64 g_accesses, g_shared;
static bool g_yields = false;
template <class X> NOTSAN static bool in(const u8* p, const X& x) { return p >= (const u8*)&x && p < (const u8*)&x + sizeof(X); }
NOTSAN static void on_access(const volatile void* a, size_t n, bool w) {
    ++g_accesses;
    const u8* p = (const u8*)a; int t = tid();
    if (sched::cur >= 0 ? (p >= (u8*)sched::F[t].stack && p < (u8*)sched::F[t].stack + sched::STK) : (p >= main_lo && p < main_hi)) return;
    if (p >= tls_lo && p < tls_hi) return;
    const char* what = 0;
    if (in(p, W)) {
        if (in(p, W.c[t]) || in(p, W.reg[t]) || in(p, W.res[t]) || in(p, W.scratch[t])) return;
        if (in(p, W.c[S]) || in(p, W.reg[S])) { ++g_shared; if (w) what = "writes to the shared container that it only reads"; else { if (g_yields) { g_on = false; sched::yield(); g_on = true; } return; } }
        else what = w ? "writes to another thread's container" : "reads another thread's container";
    } else if (w && !g_guard && p >= (u8*)&__data_start && p < (u8*)&_end) what = "writes to memory that is not its own (static or shared state)";
    if (what && !g_viol_kind) { g_viol_kind = 1; g_viol_msg = what; }
}
static u64 mix(u64 h, u64 v) { return (h ^ v) * 1099511628211ull + (h >> 31); }
// ---- read-only operations on the shared container
enum { N_CONST = 16 };
static const char* CN_[N_CONST] = { "observers", "front/back", "operator[]", "at", "forward iteration", "reverse iteration", "array_one/array_two", "is_linearized/get_allocator", "copy construction", "comparison", "iterator arithmetic", "range construction", "non-const reading", "copy assignment", "assign range", "insert range" };
static C* temp(int t) { return reinterpret_cast<C*>(W.scratch[t]); }
static u64 const_op(int op, int t) {
    const C& c = con(S); C& m = con(S); u64 h = 7; std::size_t n = c.size();
    switch (op) {
    case 0: h = mix(mix(mix(mix(mix(h, c.size()), c.capacity()), c.empty()), c.full()), c.reserve()); h = mix(h, c.max_size()); break;
    case 1: if (n) { h = mix(mix(h, val(c.front())), val(c.back())); } break;
    case 2: for (std::size_t i = 0; i < n; ++i) h = mix(h, val(c[i])); break;
    case 3: for (std::size_t i = 0; i < n; ++i) h = mix(h, val(c.at(i))); break;
    case 4: for (C::const_iterator i = c.begin(); i != c.end(); ++i) h = mix(h, val(*i)); break;
    case 5: for (C::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) h = mix(h, val(*i)); break;
    case 6: { C::const_array_range a = c.array_one(), b = c.array_two(); h = mix(mix(h, a.second), b.second); for (std::size_t i = 0; i < a.second; ++i) h = mix(h, val(a.first[i])); for (std::size_t i = 0; i < b.second; ++i) h = mix(h, val(b.first[i])); break; }
    case 7: h = mix(h, c.is_linearized()); { Al<E> a = c.get_allocator(); (void)a; } break;
    case 8: { C d(c); for (std::size_t i = 0; i < d.size(); ++i) h = mix(h, val(d[i])); h = mix(h, d.capacity()); break; }
    case 9: { C& o = con(t); h = mix(mix(mix(mix(h, c == c), c < c), c == o), c < o); h = mix(mix(mix(mix(h, o < c), c != o), c >= o), o <= c); break; }
    case 10: { C::const_iterator b = c.begin(), e = c.end(); h = mix(h, e - b); for (std::size_t i = 0; i <= n; ++i) { C::const_iterator x = b + i; h = mix(mix(h, x - b), e - x); h = mix(mix(h, x == e), x < e); if (i < n) h = mix(h, val(b[i])); } C::const_iterator x = e; for (std::size_t i = 0; i < n; ++i) { --x; h = mix(h, val(*x)); } break; }
    case 11: { C d(c.begin(), c.end()); for (std::size_t i = 0; i < d.size(); ++i) h = mix(h, val(d[i])); break; }
    case 12: { for (C::iterator i = m.begin(); i != m.end(); ++i) h = mix(h, val(*i)); for (C::reverse_iterator i = m.rbegin(); i != m.rend(); ++i) h = mix(h, val(*i)); for (std::size_t i = 0; i < n; ++i) h = mix(mix(h, val(m[i])), val(m.at(i))); if (n) h = mix(mix(h, val(m.front())), val(m.back())); C::array_range a = m.array_one(); h = mix(h, a.second); h = mix(h, m.array_two().second); C::const_iterator k = m.begin(); h = mix(h, m.end() - k); break; }
    case 13: { C& o = con(t); o = c; for (std::size_t i = 0; i < o.size(); ++i) h = mix(h, val(o[i])); break; }
    case 14: { C& o = con(t); o.assign(c.begin(), c.end()); for (std::size_t i = 0; i < o.size(); ++i) h = mix(h, val(o[i])); break; }
    case 15: { C& o = con(t); o.insert(o.begin(), c.begin(), c.end()); for (std::size_t i = 0; i < o.size(); ++i) h = mix(h, val(o[i])); break; }
    }
    return h;
}
// ---- operations on the thread's own container
enum { N_MUT = 36 };
static const char* MN[N_MUT] = { "push_back", "push_front", "push_back move", "push_front default", "pop_back", "pop_front", "insert", "insert n", "insert range", "rinsert", "rinsert n", "rinsert range", "erase", "erase range", "rerase", "rerase range", "erase_begin", "erase_end", "clear", "set_capacity less", "set_capacity more", "rset_capacity less", "rset_capacity more", "resize less", "resize more", "rresize less", "rresize more", "assign n", "assign capacity range", "linearize", "rotate", "swap", "move assignment", "destroy and construct", "element assignment", "self insert" };
static void mut_op(int op, int t) {
    C& c = con(t); int n = int(c.size()), p = n / 2; E x[4] = { E(61), E(62), E(63), E(64) };
    switch (op) {
    case 0: c.push_back(x[0]); break; case 1: c.push_front(x[0]); break; case 2: c.push_back(E(5)); break; case 3: c.push_front(); break;
    case 4: if (n) c.pop_back(); break; case 5: if (n) c.pop_front(); break;
    case 6: c.insert(c.begin() + p, x[1]); break; case 7: c.insert(c.begin() + p, 3, x[1]); break; case 8: c.insert(c.begin() + p, x, x + 4); break;
    case 9: c.rinsert(c.begin() + p, x[1]); break; case 10: c.rinsert(c.begin() + p, 3, x[1]); break; case 11: c.rinsert(c.begin() + p, x, x + 4); break;
    case 12: if (n) c.erase(c.begin() + p); break; case 13: c.erase(c.begin() + p / 2, c.begin() + p); break; case 14: if (n) c.rerase(c.begin() + p); break; case 15: c.rerase(c.begin() + p / 2, c.begin() + p); break;
    
#if CONT == 0
    case 16: c.erase_begin(p); break; case 17: c.erase_end(p); break;
#endif
    case 18: c.clear(); break;
    case 19: c.set_capacity(c.capacity() / 2); break; case 20: c.set_capacity(C::capacity_type(c.capacity() + 2)); break; case 21: c.rset_capacity(c.capacity() / 2); break; case 22: c.rset_capacity(C::capacity_type(c.capacity() + 2)); break;
    case 23: c.resize(p); break; case 24: c.resize(n + 2, x[0]); break; case 25: c.rresize(p); break; case 26: c.rresize(n + 2, x[0]); break;
    case 27: c.assign(2, x[2]); break; case 28: c.assign(C::capacity_type(3), x, x + 4); break; case 29: c.linearize(); break; case 30: if (n) c.rotate(c.begin() + p); break;
    case 31: { C d(2, x[3]); c.swap(d); break; } case 32: { C d(2, x[3]); c = std::move(d); break; } case 33: c.~C(); new (&c) C(C::capacity_type(2)); c.push_back(x[0]); break;
    case 34: for (int i = 0; i < n; ++i) c[i] = x[i & 3]; break; case 35: if (n) { c.push_back(c.front()); c.push_front(c.back()); } break;
    }
}
static u64 content(int t) { const C& c = con(t); u64 h = 3; h = mix(h, c.capacity()); for (std::size_t i = 0; i < c.size(); ++i) h = mix(h, val(c[i])); return h; }
struct Lay { int cap, rot, size, min; };
NOTSAN static void make(int t, const Lay& l, int base) {
    g_t = t; C& c = con(t); new (&c) C(
#if CONT == 0
        l.cap
#else
        C::capacity_type(l.cap, l.min)
#endif
    ); for (int i = 0; i < l.rot; ++i) { c.push_back(E(90)); c.pop_front(); } for (int i = 0; i < l.size; ++i) c.push_back(E(base + i));
}
struct Todo { int kind, op; };       // kind 0: const operation on S, 1: operation on the own container, 2: nothing
static Todo g_todo[3]; static u64 g_alone[3];
__attribute__((noinline)) static u64 work(int kind, int op, int t) {
    if (kind == 0) return const_op(op, t);
    if (kind == 1) { mut_op(op, t); return content(t); }
    return 0;
}
NOTSAN static void thread_body(int t) { g_on = true; u64 r = work(g_todo[t].kind, g_todo[t].op, t); g_on = false; W.res[t] = r; }
NOTSAN static std::string name(const Todo& d) { return d.kind == 0 ? CN_[d.op] : d.kind == 1 ? MN[d.op] : "nothing"; }
static int g_kin = 0;   // own containers are: 0 built on their own, 1 copies of the shared one, 2 copies moved into place, 3 copy-assigned
static std::set<std::string> g_sigs; static u64 g_found, g_sched, g_runs, g_scen; static Lay g_ls, g_lo; static int g_nt;
NOTSAN static std::string desc() { char b[200]; std::sprintf(b, "%d %d %d %d %d %d %d %d %d %d", g_ls.cap, g_ls.rot, g_ls.size, g_ls.min, g_lo.cap, g_lo.rot, g_lo.size, g_lo.min, g_kin, g_nt); std::string s = b; for (int t = 0; t < g_nt; ++t) { std::sprintf(b, " %d %d", g_todo[t].kind, g_todo[t].op); s += b; } return s + " : " + sched::schedule(); }
NOTSAN static bool report(const std::string& sig, const std::string& msg) {
    if (g_sigs.insert(sig).second) { ++g_found; std::printf("VIOL {\"tag\":\"RACE\",\"sig\":\"RACE|%s\",\"msg\":\"%s\",\"hist\":\"%s\"}\n", sig.c_str(), msg.c_str(), desc().c_str()); }
    return false;
}
NOTSAN static void setup() { std::memset((void*)&W, 0, sizeof W); make(S, g_ls, 10); for (int t = 0; t < 3; ++t) {
    if (!g_kin) make(t, g_lo, 10 + 20 * t);
    else { g_t = t; const C& s = con(S); if (g_kin == 1) new (&con(t)) C(s); else { make(t, g_lo, 10 + 20 * t); if (g_kin == 2) { C d(s); con(t) = std::move(d); } else con(t) = s; } }
    } std::memcpy((void*)&W0, (void*)&W, sizeof W); }
NOTSAN static void restore() { std::memcpy((void*)&W, (void*)&W0, sizeof W); }
NOTSAN static bool check_run() {
    std::string who; for (int t = 0; t < g_nt; ++t) who += (t ? " and " : "") + name(g_todo[t]);
    if (g_viol_kind) return report(who + "|" + g_viol_msg, who + ": a thread " + g_viol_msg);
    for (int t = 0; t < g_nt; ++t) if (g_alone[t] && W.res[t] != g_alone[t]) return report(who + "|result", who + ": a thread gets another result than alone");
    if (std::memcmp(W.c[S], W0.c[S], sizeof W.c[S]) || std::memcmp(W.reg[S], W0.reg[S], sizeof W.reg[S])) return report(who + "|modified", who + ": the container that is only read was modified");
    for (int t = 0; t < 3; ++t) if (t >= g_nt || g_todo[t].kind == 2) if (std::memcmp(W.c[t], W0.c[t], sizeof W.c[t]) || std::memcmp(W.reg[t], W0.reg[t], sizeof W.reg[t])) return report(who + "|foreign", who + ": a container that takes no part was modified");
    return true;
}
NOTSAN static bool alone(int t) {
    int nt = g_nt; Todo save[3]; for (int i = 0; i < 3; ++i) save[i] = g_todo[i];
    restore(); g_viol_kind = 0; g_yields = false; g_t = t; sched::cur = -1;
    g_todo[0] = save[t]; for (int i = 1; i < 3; ++i) g_todo[i].kind = 2;
    for (int i = 0; i < 3; ++i) g_todo[i] = save[i];
    sched::trace.clear(); sched::prefix.clear(); thread_body(t); ++g_runs; g_alone[t] = W.res[t];
    bool ok = true; if (g_viol_kind) { Todo one = g_todo[t]; ok = report(name(one) + "|" + g_viol_msg, name(one) + ": a thread " + g_viol_msg); }
    else if (std::memcmp(W.c[S], W0.c[S], sizeof W.c[S]) || std::memcmp(W.reg[S], W0.reg[S], sizeof W.reg[S])) ok = report(name(g_todo[t]) + "|modified", name(g_todo[t]) + ": the container that is only read was modified");
    g_nt = nt; return ok;
}
NOTSAN static bool scenario(int bound, bool all) {
    setup(); ++g_scen; bool ok = true;
    for (int t = 0; t < g_nt; ++t) ok = alone(t) && ok;
    if (!ok) return false;
    sched::prefix.clear(); sched::preempt_bound = bound;
    do {
        restore(); g_viol_kind = 0; g_yields = true; sched::run(g_nt, thread_body); ++g_sched; ++g_runs; g_on = false;
        if (!check_run()) return false;
        if (!all) break;
    } while (sched::next());
    return true;
}
static int phdr(struct dl_phdr_info* i, size_t, void* d) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { u8* a = (u8*)i->dlpi_tls_data; if (a < tls_lo || !tls_lo) tls_lo = a; if (a + i->dlpi_phdr[k].p_memsz > tls_hi) tls_hi = a + i->dlpi_phdr[k].p_memsz; } return 0; }
int main(int argc, char** argv) {
    int fcap = 4, cap = 3, bound = 2, bcap = 2; double budget = 600; std::string label = "race", replay; bool rep = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : ""; if (a == "--cap") cap = std::atoi(n); else if (a == "--fcap") fcap = std::atoi(n); else if (a == "--bound") bound = std::atoi(n); else if (a == "--bcap") bcap = std::atoi(n); else if (a == "--budget") budget = std::atof(n); else if (a == "--label") label = n; else if (a == "--replay") { replay = n; rep = true; } else return 2; ++i; }
    dl_iterate_phdr(phdr, 0); u8 here; main_hi = &here + 65536; main_lo = &here - 1024 * 1024;
    if (rep) {
        int v[10], k = 0, used = 0; const char* p = replay.c_str();
        for (k = 0; k < 10; ++k) { if (std::sscanf(p, "%d%n", &v[k], &used) < 1) return 2; p += used; }
        Lay a = { v[0], v[1], v[2], v[3] }, b = { v[4], v[5], v[6], v[7] }; g_ls = a; g_lo = b; g_kin = v[8]; g_nt = v[9];
        for (int t = 0; t < g_nt; ++t) { if (std::sscanf(p, "%d %d%n", &g_todo[t].kind, &g_todo[t].op, &used) < 2) return 2; p += used; }
        std::string sc; while (*p) { if (*p >= '0' && *p <= '9') sc += *p; ++p; }
        setup(); bool ok = true; for (int t = 0; t < g_nt; ++t) ok = alone(t) && ok;
        if (ok) { sched::prefix.clear(); for (size_t i = 0; i < sc.size(); ++i) sched::prefix.push_back(sc[i] - '0'); restore(); g_viol_kind = 0; g_yields = true; sched::run(g_nt, thread_body); g_on = false; ok = check_run(); }
        return ok ? 0 : 1;
    }
    std::clock_t t0 = std::clock(); bool full = true; u64 states = 0; std::string sample;
    std::vector<Lay> lay, flay;
    for (int k = 0; k < 2; ++k) for (int c = 0; c <= (k ? fcap : cap); ++c) for (int r = 0; r < (c ? c : 1); ++r) for (int s = 0; s <= c; ++s) for (int mn = 0; mn <= (CONT ? c : 0); mn += c ? c : 1) { Lay l = { c, r, s, mn }; (k ? flay : lay).push_back(l); }
    // 1: every operation in every layout, alone: which memory it touches
    Lay own = { 2, 1, 2, 0 };
    for (size_t i = 0; i < flay.size() && g_found < 6; ++i) {
        ++states; g_nt = 1;
        for (size_t j = 0; j < lay.size(); ++j) { g_ls = flay[i]; g_lo = lay[j]; setup(); for (int op = 0; op < N_CONST; ++op) { if (j && op != 9 && op < 13) continue; g_todo[0].kind = 0; g_todo[0].op = op; alone(0); } }
        for (g_kin = 0; g_kin < 4; ++g_kin) { g_ls = g_kin ? flay[i] : own; g_lo = g_kin ? own : flay[i]; setup(); for (int op = 0; op < N_MUT; ++op) { g_todo[0].kind = 1; g_todo[0].op = op; alone(0); } }
        g_kin = 0;
    }
    u64 footprints = g_runs;
    // 2: pairs of operations under every schedule up to the preemption bound
    for (size_t i = 0; i < lay.size() && full && g_found < 6; ++i) for (int x = 0; x < N_CONST && full; ++x) {
        g_ls = lay[i]; g_lo = own; g_nt = 2; int b = lay[i].cap <= bcap ? bound : 1;
        for (int y = x; y < N_CONST; ++y) { g_todo[0].kind = g_todo[1].kind = 0; g_todo[0].op = x; g_todo[1].op = y; scenario(b, true); }
        for (int y = 0; y < N_MUT; ++y) { g_todo[0].kind = 0; g_todo[1].kind = 1; g_todo[0].op = x; g_todo[1].op = y; scenario(1, true); }
        if (i % 5 == 0 && x == 8) sample = desc();
        if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) full = false;
    }
    // 3: operations on distinct containers, unrelated and copies of one; 4: three threads
    for (g_kin = 0; g_kin < 2; ++g_kin) for (size_t i = 0; i < lay.size() && full && g_found < 6; ++i) for (int x = 0; x < N_MUT; ++x) { g_ls = lay[i]; g_lo = lay[i]; g_nt = 2; for (int y = x; y < N_MUT; ++y) { g_todo[0].kind = g_todo[1].kind = 1; g_todo[0].op = x; g_todo[1].op = y; scenario(bound, true); } if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) full = false; }
    g_kin = 0; Lay two = { 2, 1, 2, 0 }; g_ls = two; g_lo = two; g_nt = 3;
    for (int x = 0; x < N_CONST && full && g_found < 6; ++x) for (int y = x; y < N_CONST; ++y) { g_todo[0].kind = g_todo[1].kind = 0; g_todo[0].op = x; g_todo[1].op = y; g_todo[2].kind = 1; g_todo[2].op = (x * 7 + y) % N_MUT; scenario(1, true); g_todo[2].kind = 0; g_todo[2].op = (x + y) % N_CONST; scenario(1, true); if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) { full = false; break; } }
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"outcomes\":%llu,\"schedules\":%llu,\"fixpoint\":%s,\"found\":%llu,\"extra\":{\"scenarios\":%llu,\"footprint_runs\":%llu,\"memory_accesses\":%llu,\"shared_accesses\":%llu},\"samples\":[\"%s\",\"%s\"]}\n", label.c_str(), states, g_sched, g_runs, g_runs, g_scen, g_sched, full ? "true" : "false", g_found, g_scen, footprints, g_accesses, g_shared, sample.c_str(), desc().c_str());
    return g_found ? 1 : 0;
}
