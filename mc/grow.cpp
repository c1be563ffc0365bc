// Memory policy of circular_buffer_space_optimized at large capacities (C18): explicit-state search over (size, allocated
// elements, minimum reached) of the real container until no new state appears.  Every state is rebuilt by replaying its path; every
// transition is executed on the implementation and judged against the documented memory bounds; in every state a complete fill by
// pushes and alternating pushes and pops are run as probes.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <boost/circular_buffer.hpp>

static long g_live, g_blocks, g_allocs;   // elements and blocks held, allocations made
template <class T> struct CA {
    typedef T value_type;
    CA() {}
    template <class U> CA(const CA<U>&) {}
    T* allocate(std::size_t n) { g_live += long(n); ++g_blocks; ++g_allocs; return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) { g_live -= long(n); --g_blocks; ::operator delete(p); }
    bool operator==(const CA&) const { return true; }
    bool operator!=(const CA&) const { return false; }
};
typedef boost::circular_buffer_space_optimized<int, CA<int> > C;

enum { PB, PF, OB, OF, INS, RINS, ERA, RERA, CLR, RSZ, RRSZ, CPY, CPA, INSR, NCODES };
static const char* NAME[] = {"push_back", "push_front", "pop_back", "pop_front", "insert", "rinsert", "erase", "rerase", "clear", "resize", "rresize", "copy", "copyassign", "insert-range"};
struct Op { int code; long n; };
struct Node { long parent; Op op; int depth; };
struct Key { long size, mem; bool reached; bool operator<(const Key& o) const { return size != o.size ? size < o.size : mem != o.mem ? mem < o.mem : reached < o.reached; } };
static std::vector<Node> g_nodes; static std::vector<Key> g_keys;
static long CAPACITY, MINIMUM; static int g_depth; static std::set<std::string> g_sigs; static int g_found; static bool g_print; static unsigned long long g_trans, g_execs; static std::string g_cur;

static void violate(const char* sig, const std::string& msg) {
    if (g_print) { std::printf("REPLAY MEM: %s\n", msg.c_str()); ++g_found; return; }
    ++g_found;
    if (g_sigs.insert(sig).second) std::printf("VIOL {\"tag\":\"MEM\",\"sig\":\"MEM|grow|%s\",\"msg\":\"%s\",\"hist\":\"%s\"}\n", sig, msg.c_str(), g_cur.c_str());
}
static void on_sig(int s) {
    static char b[1000]; int n = std::snprintf(b, sizeof b, g_print ? "REPLAY CRASH: signal %d\n" : "VIOL {\"tag\":\"CRASH\",\"sig\":\"CRASH|grow\",\"msg\":\"signal %d\",\"hist\":\"%.800s\"}\nRESULT {\"config\":\"grow\",\"states\":1,\"transitions\":1,\"execs\":1,\"runs\":1,\"fixpoint\":false,\"found\":1,\"samples\":[]}\n", s, g_cur.c_str());
    std::fflush(stdout); if (write(1, b, n) < 0) {} _exit(1);
}
static void apply(C*& c, const Op& o) {
    static const std::vector<int> zeros(1 << 18, 5);
    ++g_execs;
    switch (o.code) {
        case PB: for (long i = 0; i < o.n; ++i) c->push_back(int(i)); break;
        case PF: for (long i = 0; i < o.n; ++i) c->push_front(int(i)); break;
        case OB: for (long i = 0; i < o.n; ++i) c->pop_back(); break;
        case OF: for (long i = 0; i < o.n; ++i) c->pop_front(); break;
        case INS: c->insert(c->end(), std::size_t(o.n), 3); break;
        case RINS: c->rinsert(c->begin(), std::size_t(o.n), 3); break;
        case INSR: c->insert(c->begin() + c->size() / 2, zeros.begin(), zeros.begin() + o.n); break;
        case ERA: c->erase(c->end() - o.n, c->end()); break;
        case RERA: c->rerase(c->begin(), c->begin() + o.n); break;
        case CLR: c->clear(); break;
        case RSZ: c->resize(std::size_t(o.n)); break;
        case RRSZ: c->rresize(std::size_t(o.n)); break;
        case CPY: { C* d = new C(*c); delete c; c = d; break; }
        case CPA: { C* d = new C(C::capacity_type(CAPACITY, MINIMUM)); *d = *c; delete c; c = d; break; }
    }
}
static C* rebuild(long i) {
    std::vector<long> path; for (long k = i; k > 0; k = g_nodes[k].parent) path.push_back(k);
    C* c = new C(C::capacity_type(CAPACITY, MINIMUM));
    for (size_t k = path.size(); k-- > 0; ) apply(c, g_nodes[path[k]].op);
    return c;
}
static std::string path_str(long i) {
    std::vector<Op> p; for (long k = i; k > 0; k = g_nodes[k].parent) { const Op& o = g_nodes[k].op; if (!p.empty() && p.back().code == o.code && o.code <= OF) p.back().n += o.n; else p.push_back(o); }
    std::string s = std::to_string(CAPACITY) + " " + std::to_string(MINIMUM);
    for (size_t k = p.size(); k-- > 0; ) s += std::string(" ") + NAME[p[k].code] + " " + std::to_string(p[k].n);
    return s;
}
static std::string L(long x) { return std::to_string(x); }
static int log2up(long n) { int l = 0; for (long x = 1; x < n; x *= 2) ++l; return l; }
// judges the memory of the container after an operation; returns the new state
static Key judge(const C& c, const Op& o, const Key& pre, long size) {
    Key k; k.size = long(c.size()); k.mem = g_live; k.reached = pre.reached || g_live >= MINIMUM;
    if (o.code == CPY || o.code == CPA) k.reached = g_live >= MINIMUM;
    if (g_blocks > 1) violate("blocks", L(g_blocks) + " blocks held after " + NAME[o.code]);
    if (k.size != size) violate("size", std::string(NAME[o.code]) + ": size " + L(k.size) + ", expected " + L(size));
    if (long(c.capacity().capacity()) != CAPACITY || long(c.capacity().min_capacity()) != MINIMUM) violate("capacity", std::string(NAME[o.code]) + " changed the capacity");
    if (k.mem < k.size || k.mem > CAPACITY) violate("bounds", std::string(NAME[o.code]) + ": memory for " + L(k.mem) + " elements, size " + L(k.size) + ", capacity " + L(CAPACITY));
    if (k.reached && k.mem < MINIMUM) violate("minimum", std::string(NAME[o.code]) + ": memory for " + L(k.mem) + " elements, minimum " + L(MINIMUM));
    bool removal = o.code == OB || o.code == OF || o.code == ERA || o.code == RERA || o.code == CLR || ((o.code == RSZ || o.code == RRSZ) && size < pre.size);
    if (removal && k.mem > std::max(MINIMUM, 3 * k.size + 2)) violate("kept", std::string(NAME[o.code]) + ": memory for " + L(k.mem) + " elements kept with " + L(k.size) + " elements, minimum " + L(MINIMUM));
    return k;
}
static void search(double budget, bool& complete) {
    std::time_t t0 = std::time(0); std::map<Key, long> seen; g_nodes.clear(); g_keys.clear();
    Node r = {-1, {PB, 0}, 0}; g_nodes.push_back(r); { C* c = rebuild(0); Key k = {0, g_live, g_live >= MINIMUM}; g_keys.push_back(k); seen[k] = 0; if (g_live != MINIMUM) violate("initial", "an empty container starts with memory for " + L(g_live) + " elements, minimum " + L(MINIMUM)); delete c; }
    for (size_t i = 0; i < g_nodes.size(); ++i) {
        if (g_found >= 20 || std::time(0) - t0 > budget) { complete = false; return; }
        Key k = g_keys[i]; long room = CAPACITY - k.size; std::vector<Op> ops;
        auto add = [&](int code, long n) { if (n >= 0) { Op o = {code, n}; ops.push_back(o); } };
        if (g_depth && g_nodes[i].depth >= g_depth) continue;
        if (g_depth) {   // large capacities: only the steps to the next turning points, paths of bounded length
            long grow = k.mem - k.size + 1;
            if (room) { add(PB, room); add(INS, room); if (room >= grow && grow > 0) { add(PB, grow); add(RINS, grow); } if (room > 1) add(RSZ, k.size + room / 2); }
            if (k.size) { add(CLR, 0); long dn = k.size - k.mem / 3; if (dn > 0) { add(OB, dn); add(ERA, dn); if (dn < k.size) add(OF, dn + 1); } add(RRSZ, k.size / 2); }
            add(CPY, 0); add(CPA, 0);
        } else {
        if (room) { add(PB, 1); add(PF, 1); }
        if (k.size) { add(OB, 1); add(OF, 1); add(CLR, 0); }
        std::set<long> up; long u[] = {2, 7, k.mem - k.size, k.mem - k.size + 1, k.mem, room / 2, room - 1, room}; for (long x : u) if (x >= 2 && x <= room) up.insert(x);
        for (long x : up) { add(INS, x); add(RINS, x); add(INSR, x); add(RSZ, k.size + x); add(RRSZ, k.size + x); }
        std::set<long> dn; long d[] = {2, 7, k.size - k.mem / 3, k.size - k.mem / 3 - 1, k.size - k.mem / 3 + 1, k.size / 2, k.size - 1, k.size}; for (long x : d) if (x >= 2 && x <= k.size) dn.insert(x);
        for (long x : dn) { add(ERA, x); add(RERA, x); add(RSZ, k.size - x); add(RRSZ, k.size - x); }
        add(CPY, 0); add(CPA, 0);
        }
        std::string base = path_str(long(i));
        for (size_t q = 0; q < ops.size(); ++q) {
            const Op o = ops[q]; C* c = rebuild(long(i));
            g_cur = base + " " + NAME[o.code] + " " + L(o.n);
            long a0 = g_allocs; apply(c, o); ++g_trans;
            long size = o.code <= PF || o.code == INS || o.code == RINS || o.code == INSR ? k.size + o.n : o.code == OB || o.code == OF || o.code == ERA || o.code == RERA ? k.size - o.n : o.code == CLR ? 0 : o.code == RSZ || o.code == RRSZ ? o.n : k.size;
            if (g_allocs - a0 > (o.code <= OF && o.n > 1 ? 2 * log2up(CAPACITY + 1) + 4 : 2)) violate(o.code <= PF && o.n > 1 ? "growth" : "allocs", std::string(NAME[o.code]) + " " + L(o.n) + " makes " + L(g_allocs - a0) + " allocations");
            Key n = judge(*c, o, k, size);
            if (seen.insert(std::make_pair(n, long(g_nodes.size()))).second) { Node nn = {long(i), o, g_nodes[i].depth + 1}; g_nodes.push_back(nn); g_keys.push_back(n); }
            delete c;
            if (g_found >= 20) { complete = false; return; }
        }
        for (int side = 0; side < 2; ++side) { // fill completely
            Op o = {side, room}; C* c = rebuild(long(i)); g_cur = base + " " + NAME[o.code] + " " + L(room); long a0 = g_allocs; apply(c, o); ++g_trans;
            if (g_allocs - a0 > 2 * log2up(CAPACITY + 1) + 4) violate("growth", L(g_allocs - a0) + " allocations while pushing " + L(room) + " elements up to capacity " + L(CAPACITY));
            judge(*c, o, k, CAPACITY); delete c;
        }
        for (int v = 0; v < 8; ++v) { // alternate
            if (k.size < 1 || (v < 4 ? room < 1 : k.size < 2)) continue;
            C* c = rebuild(long(i)); Op pu = {v & 1, 1}, po = {(v & 2) ? OF : OB, 1}; long a0 = g_allocs; g_cur = base;
            for (int t = 0; t < 10; ++t) { const Op& o = (t & 1) == (v < 4 ? 0 : 1) ? pu : po; apply(c, o); g_cur += std::string(" ") + NAME[o.code] + " 1"; }
            ++g_trans; if (g_allocs - a0 > 4) violate("alternation", L(g_allocs - a0) + " allocations in 10 alternating pushes and pops at size " + L(k.size));
            delete c;
        }
    }
}
int main(int argc, char** argv) {
    std::vector<long> caps; std::string label = "grow", only; double budget = 600;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char* n = argv[i + 1];
        if (a == "--cap") { std::string s(n); size_t p = 0; while (p < s.size()) { caps.push_back(std::atol(s.c_str() + p)); p = s.find(',', p); if (p == std::string::npos) break; ++p; } }
        else if (a == "--budget") budget = std::atof(n); else if (a == "--depth") g_depth = std::atoi(n); else if (a == "--label") label = n; else if (a == "--replay") { only = n; g_print = true; } }
    int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL }; for (int s : sg) signal(s, on_sig);
    if (g_print) { // capacity minimum op n op n ...
        std::vector<std::string> w; size_t p = 0; while (p < only.size()) { size_t q = only.find(' ', p); if (q == std::string::npos) q = only.size(); if (q > p) w.push_back(only.substr(p, q - p)); p = q + 1; }
        if (w.size() < 2) return 2;
        CAPACITY = std::atol(w[0].c_str()); MINIMUM = std::atol(w[1].c_str()); C* c = new C(C::capacity_type(CAPACITY, MINIMUM));
        Key k = {0, g_live, g_live >= MINIMUM}; long a0 = g_allocs; g_cur = only; if (g_live != MINIMUM) violate("initial", "memory of an empty container");
        int alt = 0; long alt0 = 0;
        for (size_t i = 2; i + 1 < w.size(); i += 2) { Op o; o.code = 0; while (o.code < NCODES && w[i] != NAME[o.code]) ++o.code; if (o.code == NCODES) return 2; o.n = std::atol(w[i + 1].c_str());
            long a1 = g_allocs, room = CAPACITY - k.size; alt = o.code <= OF && o.n == 1 ? alt + 1 : 0; if (alt <= 1) alt0 = a1; apply(c, o);
            long size = o.code <= PF ? std::min(CAPACITY, k.size + o.n) : o.code == INS || o.code == RINS || o.code == INSR ? std::min(CAPACITY, k.size + o.n) : o.code == OB || o.code == OF || o.code == ERA || o.code == RERA ? k.size - o.n : o.code == CLR ? 0 : o.code == RSZ || o.code == RRSZ ? o.n : k.size;
            if (o.code > OF && g_allocs - a1 > 2) violate("allocs", std::string(NAME[o.code]) + " makes " + L(g_allocs - a1) + " allocations");
            if (o.code <= OF && o.n > 1 && g_allocs - a1 > 2 * log2up(CAPACITY + 1) + 4) violate("growth", L(g_allocs - a1) + " allocations");
            if (alt >= 10 && g_allocs - alt0 > 4) violate("alternation", "too many allocations");
            k = judge(*c, o, k, size); }
        (void)a0; delete c; return g_found ? 1 : 0;
    }
    unsigned long long states = 0; bool complete = true; std::string sample;
    for (size_t i = 0; i < caps.size(); ++i) {
        std::set<long> mins; long m[] = {0, 1, caps[i] / 4, caps[i] / 2 + 1, caps[i]}; for (long x : m) mins.insert(x);
        for (long x : mins) { CAPACITY = caps[i]; MINIMUM = x; search(budget / (caps.size() * mins.size()), complete); states += g_nodes.size(); sample = path_str(long(g_nodes.size()) - 1); if (g_found >= 20) break; }
        if (g_live || g_blocks) violate("leak", "memory not returned");
        if (g_found >= 20) break;
    }
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"fixpoint\":%s,\"found\":%d,\"samples\":[\"%s\"]}\n", label.c_str(), states, g_trans, g_execs, g_trans, complete ? "true" : "false", g_found, sample.c_str());
    return g_found ? 1 : 0;
}
