// C20, second part: bounded buffers around the containers (the documented examples, and two more) under a controlled
// scheduler: every schedule up to the preemption bound, every choice of the woken waiter; a vector-clock race detector
// watches every memory access of the instrumented code, so scheduling at synchronization operations is enough.
#undef _FORTIFY_SOURCE
#define BOOST_CB_DISABLE_DEBUG
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include "tsan_rt.hpp"
#include "sched.hpp"
#include <boost/circular_buffer.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition.hpp>
#include <boost/thread/thread.hpp>
#include <boost/call_traits.hpp>
#include <boost/bind.hpp>
#include <boost/timer/timer.hpp>
#include <deque>
#include <list>
#include <string>
#include <iostream>
#include <set>
#include <map>
#include <unordered_map>
#include <ctime>
#include <link.h>
namespace ex1 {
#include "example/circular_buffer_bound_example.cpp"
}
namespace ex2 {
#include "example/bounded_buffer_comparison.cpp"
}
typedef unsigned long long u64; typedef unsigned char u8;
struct Item { int v; Item() : v(-1) {} Item(int x) : v(x) {} Item(const Item& o) : v(o.v) {} Item& operator=(const Item& o); ~Item() {} };
// a queue as users write it: push_back / front and pop_front, notify_all, predicate-free wait loops
template <class Cont> struct my_queue {
    boost::mutex m; boost::condition c; Cont q;
    explicit my_queue(std::size_t n) : q(n) {}
    void push_front(const Item& i) { boost::mutex::scoped_lock l(m); while (q.full()) c.wait(l); q.push_back(i); l.unlock(); c.notify_all(); }
    void pop_back(Item* p) { boost::mutex::scoped_lock l(m); while (q.empty()) c.wait(l); *p = q.front(); q.pop_front(); l.unlock(); c.notify_all(); }
};
// inserts and erases in the middle of the container's storage, linearizes and rotates while locked
template <class Cont> struct my_shuffle {
    boost::mutex m; boost::condition ne, nf; Cont q;
    explicit my_shuffle(std::size_t n) : q(n) {}
    void push_front(const Item& i) { boost::mutex::scoped_lock l(m); while (q.reserve() == 0) nf.wait(l); q.insert(q.begin(), i); q.rotate(q.begin() + q.size() / 2); q.rotate(q.begin() + (q.size() - q.size() / 2) % q.size()); l.unlock(); ne.notify_one(); }
    void pop_back(Item* p) { boost::mutex::scoped_lock l(m); while (q.size() == 0) ne.wait(l); *p = q.linearize()[q.size() - 1]; q.erase(q.end() - 1); l.unlock(); nf.notify_one(); }
};
#ifndef VAR
#define VAR 0
#endif
#if VAR == 0
typedef ex1::bounded_buffer<Item> BB;
#elif VAR == 1
typedef ex2::bounded_buffer_space_optimized<Item> BB;
#elif VAR == 2
typedef my_queue<boost::circular_buffer<Item> > BB;
#elif VAR == 3
typedef my_queue<boost::circular_buffer_space_optimized<Item> > BB;
#elif VAR == 4
typedef my_shuffle<boost::circular_buffer<Item> > BB;
#elif VAR == 5
typedef ex2::bounded_buffer<Item> BB;
#endif
static BB* g_bb; static int P, Cn, K, CAP; static std::vector<int> g_order; static Item* g_dst[sched::MAXT]; static std::vector<int> g_got[sched::MAXT];
static u8* tls_lo; static u8* tls_hi; extern "C" char __data_start, _end;
// ---- vector-clock race detection
struct VC { unsigned c[sched::MAXT]; };
static VC g_vc[sched::MAXT]; static std::map<const void*, VC> g_lock; struct Sh { int wt; unsigned wc; unsigned rc[sched::MAXT]; };
static std::unordered_map<u64, Sh>* g_shadow; static std::string g_race; static u64 g_accesses;
NOTSAN static void join(VC& a, const VC& b) { for (int i = 0; i < sched::MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
namespace boost {
NOTSAN void mc_acquired(mutex* m) { g_on = false; join(g_vc[sched::cur], g_lock[m]); g_on = true; }
NOTSAN void mc_released(mutex* m) { g_on = false; int t = sched::cur; g_lock[m] = g_vc[t]; ++g_vc[t].c[t]; g_on = true; }
}
NOTSAN static void on_access(const volatile void* a, size_t n, bool w) {
    int t = sched::cur; if (t < 0 || !g_race.empty()) return;
    const u8* p = (const u8*)a;
    for (int k = 0; k < P + Cn; ++k) if (p >= (u8*)sched::F[k].stack && p < (u8*)sched::F[k].stack + sched::STK) return;
    if (p >= tls_lo && p < tls_hi) return;
    ++g_accesses; g_on = false;
    for (u64 k = (u64)p >> 2; k <= ((u64)p + n - 1) >> 2; ++k) {
        Sh& s = (*g_shadow)[k];
        if (s.wc && s.wt != t && s.wc > g_vc[t].c[s.wt]) g_race = "a data race between two threads that use the same bounded buffer";
        if (w) { for (int j = 0; j < sched::MAXT; ++j) if (j != t && s.rc[j] > g_vc[t].c[j]) g_race = "a data race between two threads that use the same bounded buffer"; s.wt = t; s.wc = g_vc[t].c[t]; }
        else s.rc[t] = g_vc[t].c[t];
    }
    g_on = true;
}
NOTSAN static void note(const void* d, int v) { bool o = g_on; g_on = false; for (int t = 0; t < P + Cn; ++t) if (g_dst[t] == d && sched::cur == t) g_order.push_back(v); g_on = o; }
Item& Item::operator=(const Item& o) { v = o.v; note(this, v); return *this; }
__attribute__((noinline)) static void produce(int t) { for (int k = 0; k < K; ++k) { Item i(t * 100 + k); g_bb->push_front(i); } }
NOTSAN static void got(int t, int v) { g_on = false; g_got[t].push_back(v); g_on = true; }
__attribute__((noinline)) static void consume(int t, int n) { Item i; g_dst[t] = &i; for (int k = 0; k < n; ++k) { g_bb->pop_back(&i); got(t, i.v); } }
NOTSAN static void body(int t) { g_on = true; if (t < P) produce(t); else { int n = P * K / Cn + (t - P < P * K % Cn ? 1 : 0); consume(t, n); } g_on = false; g_on = true; }
static std::set<std::string> g_sigs; static u64 g_found, g_sched, g_scen; static std::set<std::vector<int> > g_outcomes; static size_t g_maxpoints;
NOTSAN static std::string desc() { char b[80]; std::sprintf(b, "%d %d %d %d : ", P, Cn, K, CAP); return b + sched::schedule(); }
NOTSAN static std::string check() {
    if (!g_race.empty()) return g_race;
    if (sched::deadlock) return "deadlock";
    if (sched::overrun) return "no progress";
    if (int(g_order.size()) != P * K) return "not every item was delivered exactly once";
    std::vector<int> next(P, 0); std::multiset<int> a(g_order.begin(), g_order.end()), b;
    for (size_t i = 0; i < g_order.size(); ++i) { int p = g_order[i] / 100, k = g_order[i] % 100; if (g_order[i] < 0 || p >= P) return "an item nobody produced was delivered"; if (k != next[p]++) return "items of one producer delivered out of order, twice or not at all"; }
    for (int t = P; t < P + Cn; ++t) b.insert(g_got[t].begin(), g_got[t].end());
    if (a != b) return "a consumer received something else than was taken out";
    return "";
}
NOTSAN static void once() {
    std::unordered_map<u64, Sh> sh; g_shadow = &sh; g_race.clear(); g_lock.clear(); std::memset(g_vc, 0, sizeof g_vc); for (int t = 0; t < sched::MAXT; ++t) { g_vc[t].c[t] = 1; g_dst[t] = 0; g_got[t].clear(); } g_order.clear();
    g_bb = new BB(CAP); sched::run(P + Cn, body); g_on = false; ++g_sched; if (sched::trace.size() > g_maxpoints) g_maxpoints = sched::trace.size();
    delete g_bb; g_bb = 0; g_shadow = 0; if (g_outcomes.size() < 100000) { std::vector<int> o = g_order; o.push_back(CAP); g_outcomes.insert(o); }
}
static int phdr(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { u8* a = (u8*)i->dlpi_tls_data; if (a < tls_lo || !tls_lo) tls_lo = a; if (a + i->dlpi_phdr[k].p_memsz > tls_hi) tls_hi = a + i->dlpi_phdr[k].p_memsz; } return 0; }
int main(int argc, char** argv) {
    int bound = 2, maxk = 2, maxp = 2; double budget = 600; std::string label = "bound", replay; bool rep = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : ""; if (a == "--bound") bound = std::atoi(n); else if (a == "--items") maxk = std::atoi(n); else if (a == "--threads") maxp = std::atoi(n); else if (a == "--budget") budget = std::atof(n); else if (a == "--label") label = n; else if (a == "--replay") { replay = n; rep = true; } else return 2; ++i; }
    dl_iterate_phdr(phdr, 0);
    if (rep) {
        int n = 0; if (std::sscanf(replay.c_str(), "%d %d %d %d%n", &P, &Cn, &K, &CAP, &n) < 4) return 2;
        for (const char* p = replay.c_str() + n; *p; ++p) if (*p >= '0' && *p <= '9') sched::prefix.push_back(*p - '0');
        sched::preempt_bound = 100; once(); std::string r = check(); std::printf("REPLAY %s\n", r.c_str()); return r.empty() ? 0 : 1;
    }
    std::clock_t t0 = std::clock(); bool full = true; std::string s1;
    for (P = 1; P <= maxp; ++P) for (Cn = 1; Cn <= maxp; ++Cn) for (K = 1; K <= maxk; ++K) for (CAP = 1; CAP <= 3; ++CAP) {
        if (!full || g_found >= 4) continue;
        int th = P + Cn; sched::preempt_bound = th <= 2 ? bound + 2 : th == 3 ? bound : bound - 1; ++g_scen; sched::prefix.clear();
        do {
            once(); std::string r = check();
            if (!r.empty()) { if (g_sigs.insert(r).second) { ++g_found; std::printf("VIOL {\"tag\":\"BOUND\",\"sig\":\"BOUND|%s\",\"msg\":\"bounded buffer, %d producers of %d items, %d consumers, capacity %d: %s\",\"hist\":\"%s\"}\n", r.c_str(), P, K, Cn, CAP, r.c_str(), desc().c_str()); } break; }
            if ((g_sched & 1023) == 0 && double(std::clock() - t0) / CLOCKS_PER_SEC > budget) { full = false; break; }
        } while (sched::next());
        s1 = desc();
    }
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"schedules\":%llu,\"outcomes\":%lu,\"fixpoint\":%s,\"found\":%llu,\"extra\":{\"scenarios\":%llu,\"max_decisions\":%lu,\"memory_accesses\":%llu},\"samples\":[\"%s\"]}\n", label.c_str(), g_scen, g_sched, g_sched, g_sched, g_sched, (unsigned long)g_outcomes.size(), full ? "true" : "false", g_found, g_scen, (unsigned long)g_maxpoints, g_accesses, s1.c_str());
    return g_found ? 1 : 0;
}
