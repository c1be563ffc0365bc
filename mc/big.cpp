// Positions and counts beyond 31 and 32 bits: containers of one-byte elements with more than 2^31 and 2^32 slots, in every
// boundary layout (start offset x size), every pair of boundary positions, every cheap operation. The memory behind the
// storage is a small file mapped over and over (positions that are a multiple of the file's length apart share a byte), so
// what is judged is the address of every element and the values around the place an operation works on.
// Each check runs in a child of its own (fork), so the expensive container is built once.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define BOOST_CB_DISABLE_DEBUG
#include <boost/circular_buffer.hpp>
#ifndef CONT
#define CONT 0
#endif
typedef unsigned long long u64; typedef long long i64; typedef unsigned char E;
static const size_t PAGE = 4096, PERIOD = 1283 * PAGE;      // no boundary below is a multiple of the period
static int g_fd = -1;
static E* big_alloc(size_t n) {
    if (n < 64) return (E*)malloc(n);
    size_t len = (n + PAGE - 1) / PAGE * PAGE;
    char* v = (char*)mmap(0, len + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (v == (char*)MAP_FAILED) throw std::bad_alloc();
    for (size_t o = 0; o < len; o += PERIOD)
        if (mmap(v + PAGE + o, std::min(PERIOD, len - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, g_fd, 0) == MAP_FAILED) { std::perror("mmap"); std::_Exit(3); }
    return (E*)(v + PAGE + (len - n));       // ends at an inaccessible page
}
template <class T> struct Al {
    typedef T value_type; Al() {} template <class U> Al(const Al<U>&) {}
    T* allocate(size_t n) { return (T*)big_alloc(n * sizeof(T)); } void deallocate(T*, size_t) {}
    bool operator==(const Al&) const { return true; } bool operator!=(const Al&) const { return false; }
};
#if CONT == 0
typedef boost::circular_buffer<E, Al<E> > C; static C* mk(size_t cap, size_t n) { return new C(C::capacity_type(cap), n, E('x')); }
#else
typedef boost::circular_buffer_space_optimized<E, Al<E> > C; static C* mk(size_t cap, size_t n) { return new C(C::capacity_type(cap, 0), n, E('x')); }
#endif
struct Shared { u64 viols, checks, obs; } *g_sh;
static std::string g_hist, g_only, g_label, g_ops; static bool g_replay = false; static std::set<std::string>* g_sigs;
static int g_pipe[2];
static void fail(const char* f, ...) {
    char m[300]; va_list a; va_start(a, f); vsnprintf(m, sizeof m, f, a); va_end(a);
    if (g_replay) printf("REPLAY OBS: %s\n", m);
    else if (g_sh->viols < 8) printf("VIOL {\"tag\":\"LIMIT\",\"sig\":\"LIMIT|big|%.60s\",\"msg\":\"%s\",\"hist\":\"%s\"}\n", m, m, g_hist.c_str());
    ++g_sh->viols; fflush(stdout); std::_Exit(1);
}
static void on_sig(int s) { fail("signal %d", s); }
#define CK(c, ...) do { ++g_sh->obs; if (!(c)) fail(__VA_ARGS__); } while (0)

// where every element has to be: slot (f + i) % n of the block that starts at base; n is the number of slots of the block
struct Layout { E* base; size_t n, f, s, cap; E* at(size_t i) const { size_t k = f + i; if (k >= n) k -= n; return base + k; } };
static void positions(size_t lim, std::vector<size_t>& r) {     // boundary values below lim
    u64 b[] = { 0, 1, 2, lim / 2, (1ull << 31) - 2, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, lim - 1, lim - 2 };
    for (size_t i = 0; i < sizeof b / sizeof *b; ++i) if (b[i] < lim) r.push_back(b[i]);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
}
template <class CC> static void observe_as(CC& c, const Layout& L, const std::vector<size_t>& p) {
    typedef decltype(c.begin()) I;
    for (size_t a = 0; a < p.size(); ++a) {
        size_t i = p[a];
        if (i < L.s) {
            E* q = L.at(i);
            CK(&c[i] == q, "[%zu] designates another element (size %zu of %zu, start %zu)", i, L.s, L.n, L.f);
            CK(&c.at(i) == q, "at(%zu) designates another element", i);
            CK(&*(c.begin() + i) == q && &c.begin()[i] == q, "begin() + %zu designates another element", i);
            CK(&*(c.end() - (L.s - i)) == q && &c.end()[-i64(L.s - i)] == q, "end() - %zu designates another element", L.s - i);
            CK(&*(c.rbegin() + (L.s - 1 - i)) == q && &*(c.rend() - (i + 1)) == q, "reverse iterator to %zu designates another element", i);
            I x = c.begin() + i; I y = x; ++y; CK(y - x == 1 && y - c.begin() == i64(i + 1), "++ at %zu", i); --y; CK(y == x && &*y == q, "-- at %zu", i);
        }
        for (size_t b = 0; b < p.size(); ++b) {
            I x = c.begin() + i, y = c.begin() + p[b]; i64 d = i64(i) - i64(p[b]);
            CK(x - y == d, "difference of positions %zu and %zu is %lld", i, p[b], (long long)(x - y));
            CK((x < y) == (d < 0) && (x > y) == (d > 0) && (x <= y) == (d <= 0) && (x >= y) == (d >= 0) && (x == y) == (d == 0) && (x != y) == (d != 0), "order of positions %zu and %zu", i, p[b]);
            I z = y; z += d; CK(z == x, "%zu += %lld", p[b], (long long)d); z -= d; CK(z == y, "-= %lld", (long long)d);
            CK(y + d == x && x - d == y, "%zu + %lld", p[b], (long long)d);
            if (i < L.s) CK(&y[d] == L.at(i), "iterator at %zu [%lld]", p[b], (long long)d);
        }
    }
    auto one = c.array_one(), two = c.array_two();
    CK(one.second + two.second == L.s, "array views cover %zu + %zu of %zu elements", size_t(one.second), size_t(two.second), L.s);
    for (size_t a = 0; a < p.size(); ++a) if (p[a] < L.s) CK((p[a] < one.second ? one.first + p[a] : two.first + (p[a] - one.second)) == L.at(p[a]), "array views at %zu", p[a]);
    if (L.s) { CK(&c.front() == L.at(0), "front()"); CK(&c.back() == L.at(L.s - 1), "back()"); }
    u64 bad[] = { L.s, L.s + 1, L.cap, L.cap + 1, L.s + (1ull << 31), L.s + (1ull << 32), (1ull << 32) + L.s - 1, 1ull << 63, ~0ull, ~0ull - 1 };
    for (size_t i = 0; i < sizeof bad / sizeof *bad; ++i) if (bad[i] >= L.s) { bool t = false; try { (void)c.at(bad[i]); } catch (std::out_of_range&) { t = true; } CK(t, "at(%llu) of %zu elements does not throw", bad[i], L.s); }
}
static void observe(C& c, const Layout& L) {
    CK(c.size() == L.s, "size() is %zu, expected %zu", size_t(c.size()), L.s);
    CK(size_t(c.capacity()) == L.cap && c.reserve() == L.cap - L.s && c.full() == (L.s == L.cap) && c.empty() == (L.s == 0), "capacity() %zu, reserve() %zu", size_t(c.capacity()), size_t(c.reserve()));
    CK(c.is_linearized() == (L.s == 0 || L.f + L.s <= L.n), "is_linearized()");
    CK(c.end() - c.begin() == i64(L.s) && c.begin() + L.s == c.end(), "end() - begin() is %lld", (long long)(c.end() - c.begin()));
    std::vector<size_t> p; positions(L.s + 1, p);
    u64 w = L.n - L.f; for (int k = -1; k <= 1; ++k) if (w + k <= L.s) p.push_back(w + k);      // around the wrap
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    observe_as<C>(c, L, p); observe_as<const C>(c, L, p);
}
// the last / first K elements get distinct values, to follow them through an operation
static const size_t K = 6;
static std::vector<E> mark(C& c, const Layout& L, bool back) { std::vector<E> v; size_t k = std::min(K, L.s); for (size_t i = 0; i < k; ++i) { *L.at(back ? L.s - k + i : i) = E('a' + i); v.push_back(E('a' + i)); } (void)c; return v; }
static void same(const Layout& L, bool back, const std::vector<E>& v, size_t upto) {     // the last / first elements are v
    size_t k = std::min(v.size(), std::min(L.s, upto));
    for (size_t i = 0; i < k; ++i) CK(*L.at(back ? L.s - 1 - i : i) == (back ? v[v.size() - 1 - i] : v[i]), "element %zu from the %s is %c", i, back ? "back" : "front", *L.at(back ? L.s - 1 - i : i));
}
static size_t up(const Layout& L, size_t k) { return (L.f + k) % L.n; }
static size_t down(const Layout& L, size_t k) { return (L.f + L.n - k % L.n) % L.n; }

struct Job { std::string name; int op; size_t a, b; };
enum { LOOK, PUSHB, PUSHF, POPB, POPF, INS, RINS, INSN, RINSN, ERASE, RERASE, ERASER, RERASER, EBEG, EEND, ROT, SWAP, MOVE, NOOPS, CLEAR, RESIZE, RRESIZE, SWAPB };
static void jobs(const Layout& L, std::vector<Job>& r, bool slow) {
    auto add = [&](const char* n, int op, size_t a = 0, size_t b = 0) { if (g_ops.size() && ("," + g_ops + ",").find(std::string(",") + n + ",") == std::string::npos) return; Job j = { n, op, a, b }; r.push_back(j); };
    bool room = CONT == 0 || L.s < L.n || L.s == L.cap;     // the space-optimized container would copy everything into a larger block
    add("LOOK", LOOK);
    if (room) {
        add("PUSHB", PUSHB); add("PUSHF", PUSHF);
        for (size_t k = 0; k <= 3 && k <= L.s; ++k) { add("INS", INS, k); add("RINS", RINS, k); }
        for (size_t k = 0; k <= 2 && k <= L.s; ++k) { add("INSN", INSN, k, 3); add("RINSN", RINSN, k, 3); }
    }
    if (L.s && (CONT == 0 || L.s == L.cap)) {     // the space-optimized container may give memory back: everything would be copied
        add("POPB", POPB); add("POPF", POPF);
        for (size_t k = 1; k <= 3 && k <= L.s; ++k) { add("ERASE", ERASE, k); add("RERASE", RERASE, k - 1); }
        for (size_t k = 2; k <= 4 && k <= L.s; ++k) { add("ERASER", ERASER, k, 2); add("RERASER", RERASER, k, 2); }
    }
    std::vector<size_t> p; positions(L.s + 1, p);
    for (size_t i = 0; i < p.size(); ++i) {
        if (CONT == 0) { add("EBEG", EBEG, p[i]); add("EEND", EEND, p[i]); }
        if (p[i] < L.s && (L.s == L.n || p[i] < 3 || L.s - p[i] < 3)) if (CONT == 0 || L.s == L.cap) add("ROT", ROT, p[i]);
    }
    add("SWAP", SWAP); add("MOVE", MOVE); if (CONT == 0 || L.s == L.cap) add("NOOPS", NOOPS);
    if (L.s < 1000) add("CLEAR", CLEAR);
    else if (slow && CONT == 0) { add("RESIZE", RESIZE, 5); add("RRESIZE", RRESIZE, 5); }
}
static void run(C*& pc, Layout L, const Job& j) {
    C& c = *pc; typedef C::iterator It; bool full = L.s == L.cap; std::vector<E> m; Layout R = L;
    bool back = j.op == INS || j.op == INSN || j.op == ERASE || j.op == ERASER || j.op == PUSHB || j.op == POPB || j.op == EBEG;
    m = mark(c, L, back);
    switch (j.op) {
    case LOOK: break;
    case PUSHB: c.push_back(E('Z')); m.push_back('Z'); if (full) R.f = up(L, 1); else ++R.s; break;
    case PUSHF: c.push_front(E('Z')); m.insert(m.begin(), 'Z'); R.f = down(L, 1); if (!full) ++R.s; break;
    case POPB: c.pop_back(); m.pop_back(); --R.s; break;
    case POPF: c.pop_front(); m.erase(m.begin()); --R.s; R.f = up(L, 1); break;
    case INS: { It r = c.insert(c.end() - j.a, E('Z')); if (full && j.a == L.s) break; m.insert(m.end() - j.a, 'Z'); if (full) R.f = up(L, 1); else ++R.s; CK(&*r == R.at(R.s - 1 - j.a), "insert() returns another position"); break; }
    case RINS: { It r = c.rinsert(c.begin() + j.a, E('Z')); if (full && j.a == L.s) break; m.insert(m.begin() + j.a, 'Z'); R.f = down(L, 1); if (!full) ++R.s; CK(&*r == R.at(j.a), "rinsert() returns another position"); break; }
    case INSN: { c.insert(c.end() - j.a, j.b, E('Z')); m.insert(m.end() - j.a, j.b, 'Z'); size_t g = std::min(j.b, L.cap - L.s); R.s += g; R.f = up(L, j.b - g); if (R.n < L.cap) R.f = L.f; break; }
    case RINSN: { c.rinsert(c.begin() + j.a, j.b, E('Z')); m.insert(m.begin() + j.a, j.b, 'Z'); size_t g = std::min(j.b, L.cap - L.s); R.s += g; R.f = down(L, j.b); break; }
    case ERASE: { It r = c.erase(c.end() - j.a); m.erase(m.end() - j.a); --R.s; CK(r - c.begin() == i64(R.s - (j.a - 1)), "erase() returns another position"); break; }
    case RERASE: { It r = c.rerase(c.begin() + j.a); m.erase(m.begin() + j.a); --R.s; R.f = up(L, 1); CK(r - c.begin() == i64(j.a ? j.a - 1 : 0), "rerase() returns another position"); break; }
    case ERASER: { It r = c.erase(c.end() - j.a, c.end() - j.a + j.b); m.erase(m.end() - j.a, m.end() - j.a + j.b); R.s -= j.b; CK(r - c.begin() == i64(R.s - (j.a - j.b)), "erase(range) returns another position"); break; }
    case RERASER: { size_t at = j.a - j.b; It r = c.rerase(c.begin() + at, c.begin() + j.a); m.erase(m.begin() + at, m.begin() + j.a); R.s -= j.b; R.f = up(L, j.b); CK(r - c.begin() == i64(at ? at - 1 : 0), "rerase(range) returns another position"); break; }
#if CONT == 0
    case EBEG: c.erase_begin(j.a); R.s -= j.a; R.f = up(L, j.a); break;
    case EEND: c.erase_end(j.a); R.s -= j.a; break;
#endif
    case ROT: c.rotate(c.begin() + j.a); R.f = up(L, j.a); m.clear(); if (L.s != L.n) R.f = (c.size() ? &c[0] - R.base : 0); break;     // not full: either direction
    case SWAP: { C* o = new C(C::capacity_type(3), 2, E('q')); c.swap(*o); CK(c.size() == 2 && c[0] == 'q' && size_t(c.capacity()) == 3, "swap(): other side"); pc = o; break; }
    case MOVE: { C* o = new C(std::move(c)); pc = o; C* q = new C; *q = std::move(*o); pc = q; CK(o->size() == 0 && c.size() == 0, "moved-from container is not empty"); break; }
    case NOOPS: c.set_capacity(c.capacity()); c.rset_capacity(c.capacity()); c.resize(L.s); c.rresize(L.s); c.erase(c.end(), c.end()); c.rerase(c.begin(), c.begin()); c.insert(c.end(), 0, E('Z')); break;
    case CLEAR: c.clear(); R.s = 0; m.clear(); break;
    case RESIZE: c.resize(j.a); R.s = j.a; break;
    case RRESIZE: c.rresize(j.a); R.f = up(L, L.s - j.a); R.s = j.a; m.clear(); break;
    }
    C& d = *pc;
    if (d.size() == R.s && R.s) { E* b = &d[0]; CK(b == R.at(0), "%s: the first element is in slot %lld of %zu, expected %zu", j.name.c_str(), (long long)(b - R.base), R.n, R.f); }
    observe(d, R); if (R.s) same(R, back, m, K);
}
int main(int argc, char** argv) {
    std::vector<u64> caps; bool slow = false; double budget = 600;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--cap") caps.push_back(strtoull(n, 0, 10)); else if (a == "--budget") budget = atof(n); else if (a == "--label") g_label = n; else if (a == "--ops") g_ops = n; else if (a == "--slow") slow = atoi(n); else if (a == "--replay") { g_only = n; g_replay = true; } else if (a == "--last") {} else return 2;
        ++i; }
    std::time_t t0 = std::time(0); bool complete = true;
    g_fd = memfd_create("cb", MFD_CLOEXEC); if (g_fd < 0 || ftruncate(g_fd, PERIOD)) { perror("memfd"); return 2; }
    g_sh = (Shared*)mmap(0, sizeof *g_sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM }; for (int s : sg) signal(s, on_sig);
    u64 states = 0; std::string sample;
    for (size_t q = 0; q < caps.size(); ++q) {
        size_t cap = caps[q]; std::vector<size_t> fs, ss; positions(cap, fs); positions(cap + 1, ss);
        g_hist = "construct " + std::to_string(cap); alarm(120);
        C* whole = 0;
#if CONT == 0
        whole = mk(cap, cap);
#endif
        for (size_t x = 0; x < ss.size(); ++x) {
            size_t s = ss[x];
            if (CONT) { if (s > 2 && s < cap - 1) continue; whole = mk(cap, s); }
            for (size_t y = 0; y < fs.size(); ++y) {
                size_t f = fs[y];
                if (CONT && f && s != cap) continue;
                Layout L = { s ? &(*whole)[0] : 0, CONT ? s : cap, f, s, cap };
                if (CONT == 0) L.base = &(*whole)[0];
                std::vector<Job> js; jobs(L, js, slow && y == 1); ++states;
                for (size_t k = 0; k < js.size(); ++k) {
                    char h[200]; snprintf(h, sizeof h, "%zu %zu %zu %s %zu %zu", cap, f, s, js[k].name.c_str(), js[k].a, js[k].b); g_hist = h; if (k == js.size() / 2) sample = h;
                    if (g_replay && g_only != h) continue;
                    if (g_sh->viols >= 4 || std::time(0) - t0 > budget) { complete = false; continue; }
                    ++g_sh->checks; fflush(stdout);
                    pid_t pid = fork();
                    if (pid == 0) {
                        alarm(slow ? 100 : 25); C* c = whole;
                        if (f) c->rotate(c->begin() + f);
#if CONT == 0
                        c->erase_end(cap - s);
#endif
                        run(c, L, js[k]); std::_Exit(0);
                    }
                    int st = 0; waitpid(pid, &st, 0);
                    if (WIFSIGNALED(st)) { ++g_sh->viols; printf("VIOL {\"tag\":\"LIMIT\",\"sig\":\"LIMIT|big|killed\",\"msg\":\"ended by signal %d\",\"hist\":\"%s\"}\n", WTERMSIG(st), h); }
                    alarm(120);
                }
            }
        }
    }
    if (g_replay && !g_sh->checks) return 2;
    printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"fixpoint\":%s,\"found\":%llu,\"samples\":[\"%s\"]}\n", g_label.c_str(), states, g_sh->checks, g_sh->obs, g_sh->checks, complete ? "true" : "false", g_sh->viols, sample.c_str());
    return g_sh->viols ? 1 : 0;
}
