// Exhaustive exploration of iterator life cycles around container events (C15, C14).
// Everything lives in one static block W (containers, iterator objects, the allocator's memory), so a state is the exact
// bytes of that block and exploring is: restore the bytes, perform one operation on the real objects, record the bytes.
// The exploration runs to a fixpoint: every order of creating, copying, converting, assigning, moving and destroying
// iterators interleaved with every order of container events. The model says which iterators the documentation keeps valid.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <ctime>
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <new>
#if MCDEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#else
#define BOOST_CB_DISABLE_DEBUG
#endif
#include <boost/circular_buffer.hpp>
typedef unsigned long long u64; typedef unsigned char u8;
#ifndef NI
#define NI 2
#endif
#ifndef NJ
#define NJ 1
#endif
#ifndef NC
#define NC 2
#endif
static const int NS = NI + NJ, MAXCAP = 3, NB = 6;
struct Arena { int used[NB]; int cell[NB][MAXCAP + 1]; };
template <class T> struct Al {
    typedef T value_type;
    Al() {} template <class U> Al(const Al<U>&) {}
    T* allocate(std::size_t n); void deallocate(T* p, std::size_t n);
    bool operator==(const Al&) const { return true; } bool operator!=(const Al&) const { return false; }
};
#if CONT == 0
typedef boost::circular_buffer<int, Al<int> > C;
#else
typedef boost::circular_buffer_space_optimized<int, Al<int> > C;
#endif
typedef C::iterator I; typedef C::const_iterator J;
struct Raw { alignas(16) u8 c[NC][(sizeof(C) + 15) / 16 * 16]; alignas(16) u8 i[NI][(sizeof(I) + 15) / 16 * 16]; alignas(16) u8 j[NJ ? NJ : 1][(sizeof(J) + 15) / 16 * 16]; Arena a; };
enum St { NONE, SINGULAR, INVALID, UNKNOWN, VALID };
struct MI { int st, c, pos; };          // pos -1: end()
struct MC { int alive, cap, size; };
struct Model { MC c[NC]; MI s[NS]; };
struct World { Raw r; Model m; };
static World W; static u8 g_fill[256];
template <class T> T* Al<T>::allocate(std::size_t n) {
    if (n > std::size_t(MAXCAP + 1)) std::abort();
    for (int b = 0; b < NB; ++b) if (!W.r.a.used[b]) { W.r.a.used[b] = 1 + int(n); return reinterpret_cast<T*>(W.r.a.cell[b]); }
    std::abort();
}
template <class T> void Al<T>::deallocate(T* p, std::size_t n) {
    if (!p) return;
    for (int b = 0; b < NB; ++b) if (reinterpret_cast<T*>(W.r.a.cell[b]) == p) { if (W.r.a.used[b] != 1 + int(n)) std::abort(); W.r.a.used[b] = 0; std::memset(W.r.a.cell[b], 0xEE, sizeof W.r.a.cell[b]); return; }
    std::abort();
}
static C& con(int k) { return *reinterpret_cast<C*>(W.r.c[k]); }
static I& it(int k) { return *reinterpret_cast<I*>(W.r.i[k]); }
static J& jt(int k) { return *reinterpret_cast<J*>(W.r.j[k - NI]); }
static bool isI(int k) { return k < NI; }

static sigjmp_buf g_jmp; static volatile int g_in = 0; static const char* g_why; static char g_whybuf[300];
static volatile int g_expect = 0;      // 1: a report is expected
#if MCDEBUG
namespace boost {
void assertion_failed(char const* expr, char const* fn, char const* file, long line) { std::snprintf(g_whybuf, sizeof g_whybuf, "assertion (%s) at line %ld of %s", expr, line, std::strrchr(file, '/') ? std::strrchr(file, '/') + 1 : file); g_why = g_whybuf; siglongjmp(g_jmp, 1); }
void assertion_failed_msg(char const* expr, char const* m, char const* fn, char const* file, long line) { assertion_failed(expr, fn, file, line); }
}
#endif
static volatile int g_ticks, g_total;
static void on_sig(int s) {
    if (s == SIGALRM) { if (g_in && ++g_ticks > 8) { g_why = "does not return"; siglongjmp(g_jmp, 2); } return; }
    if (!g_in) { signal(s, SIG_DFL); raise(s); return; }
    std::snprintf(g_whybuf, sizeof g_whybuf, "crash (signal %d)", s); g_why = g_whybuf; siglongjmp(g_jmp, 2);
}
enum Code { DEF, FROM, COPY, ASG, ASGFROM, DTOR, INC, DEC, PLUS, C_NEW, C_DEL, C_PB, C_PF, C_POPB, C_POPF, C_CLEAR, C_INS, C_RINS, C_ERA, C_RERA, C_CAP, C_RCAP, C_SWAP, C_MOVE, C_ASG, C_CC, C_MC, C_LIN, C_ROT, C_RESIZE, U_USE, N_CODES };
static const char* NM[] = { "default", "from", "copy", "assign", "assign_from", "destroy", "inc", "dec", "plus", "new", "delete", "push_back", "push_front", "pop_back", "pop_front", "clear", "insert", "rinsert", "erase", "rerase", "set_capacity", "rset_capacity", "swap", "move_assign", "copy_assign", "copy_construct", "move_construct", "linearize", "rotate", "resize", "use" };
struct Op { signed char code, a, b, c; };
static std::string str(const Op& o) { char b[80]; std::sprintf(b, "%s %d %d %d", NM[o.code], o.a, o.b, o.c); return b; }
static int g_cap = 2;

// model effect on the iterators of container k: map every position; the mapping function returns -2 unknown, -3 invalid
static void unknown_all(int k, bool end_too) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if (m.st == VALID && m.c == k && (end_too || m.pos >= 0)) m.st = UNKNOWN; } }
static void invalid_all(int k, bool end_too, bool gone = false) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if ((m.st == VALID || (m.st == UNKNOWN && gone)) && m.c == k && (end_too || m.pos >= 0)) m.st = INVALID; } }
static void shift(int k, int from, int d) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if (m.st == VALID && m.c == k && m.pos >= from) m.pos += d; } }
static void kill_pos(int k, int p, St st) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if (m.st == VALID && m.c == k && m.pos == p) m.st = st; } }
static void kill_from(int k, int p) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if (m.st == VALID && m.c == k && m.pos >= p) m.st = UNKNOWN; } }
static void kill_upto(int k, int p) { for (int s = 0; s < NS; ++s) { MI& m = W.m.s[s]; if (m.st == VALID && m.c == k && m.pos >= 0 && m.pos <= p) m.st = UNKNOWN; } }

static I at(int k, int p) { C& c = con(k); return p < 0 ? c.end() : c.begin() + p; }
// perform the operation on the real objects and on the model
static void perform(const Op& o) {
    Model& m = W.m; int a = o.a, b = o.b;
    switch (o.code) {
    case DEF: if (isI(a)) new (&it(a)) I(); else new (&jt(a)) J(); m.s[a].st = SINGULAR; m.s[a].c = m.s[a].pos = 0; break;
    case FROM: if (isI(a)) new (&it(a)) I(at(b, o.c)); else { const C& cc = con(b); if (o.c < 0) new (&jt(a)) J(cc.end()); else new (&jt(a)) J(cc.begin() + o.c); }
        m.s[a].st = VALID; m.s[a].c = b; m.s[a].pos = o.c; break;
    case COPY: if (isI(a)) new (&it(a)) I(it(b)); else if (isI(b)) new (&jt(a)) J(it(b)); else new (&jt(a)) J(jt(b)); m.s[a] = m.s[b]; break;
    case ASG: if (isI(a)) it(a) = it(b); else if (isI(b)) jt(a) = it(b); else jt(a) = jt(b); m.s[a] = m.s[b]; break;
    case ASGFROM: if (isI(a)) it(a) = at(b, o.c); else jt(a) = at(b, o.c); m.s[a].st = VALID; m.s[a].c = b; m.s[a].pos = o.c; break;
    case DTOR: if (isI(a)) { it(a).~I(); std::memset(W.r.i[a], 0xEE, sizeof W.r.i[a]); } else { jt(a).~J(); std::memset(W.r.j[a - NI], 0xEE, sizeof W.r.j[0]); } m.s[a].st = NONE; m.s[a].c = m.s[a].pos = 0; break;
    case INC: if (isI(a)) { if (o.b) it(a)++; else ++it(a); } else { if (o.b) jt(a)++; else ++jt(a); } if (++m.s[a].pos == m.c[m.s[a].c].size) m.s[a].pos = -1; break;
    case DEC: if (isI(a)) { if (o.b) it(a)--; else --it(a); } else { if (o.b) jt(a)--; else --jt(a); } m.s[a].pos = (m.s[a].pos < 0 ? m.c[m.s[a].c].size : m.s[a].pos) - 1; break;
    case PLUS: { int p = m.s[a].pos < 0 ? m.c[m.s[a].c].size : m.s[a].pos; if (isI(a)) it(a) += o.c; else jt(a) += o.c; p += o.c; m.s[a].pos = p == m.c[m.s[a].c].size ? -1 : p; break; }
    case C_NEW: new (&con(a)) C(typename C::capacity_type(b)); m.c[a].alive = 1; m.c[a].cap = b; m.c[a].size = 0; break;
    case C_DEL: con(a).~C(); std::memset(W.r.c[a], 0xEE, sizeof W.r.c[a]); invalid_all(a, true, true); m.c[a].alive = m.c[a].cap = m.c[a].size = 0; break;
    case C_PB: con(a).push_back(7); if (m.c[a].cap) { if (m.c[a].size == m.c[a].cap) { kill_pos(a, 0, INVALID); shift(a, 1, -1); } else ++m.c[a].size; } if (CONT) unknown_all(a, true); break;
    case C_PF: con(a).push_front(7); if (m.c[a].cap) { if (m.c[a].size == m.c[a].cap) kill_pos(a, m.c[a].size - 1, INVALID); else ++m.c[a].size; shift(a, 0, 1); } if (CONT) unknown_all(a, true); break;
    case C_POPB: con(a).pop_back(); kill_pos(a, --m.c[a].size, INVALID); if (CONT) unknown_all(a, true); break;
    case C_POPF: con(a).pop_front(); --m.c[a].size; kill_pos(a, 0, INVALID); shift(a, 1, -1); if (CONT) unknown_all(a, true); break;
    case C_CLEAR: con(a).clear(); m.c[a].size = 0; invalid_all(a, false); if (CONT) unknown_all(a, true); break;
    case C_INS: { int p = b < 0 ? m.c[a].size : b; bool full = m.c[a].size == m.c[a].cap; con(a).insert(at(a, b), 7); if (full && p == 0) { if (CONT) unknown_all(a, true); break; } kill_from(a, p); if (full) { kill_pos(a, 0, UNKNOWN); shift(a, 1, -1); } else ++m.c[a].size; if (CONT) unknown_all(a, true); break; }
    case C_RINS: { int p = b < 0 ? m.c[a].size : b; bool full = m.c[a].size == m.c[a].cap; con(a).rinsert(at(a, b), 7); if (full && p == m.c[a].size) { if (CONT) unknown_all(a, true); break; } kill_upto(a, p - 1); if (full) kill_pos(a, m.c[a].size - 1, UNKNOWN); else ++m.c[a].size; shift(a, p, 1); if (CONT) unknown_all(a, true); break; }
    case C_ERA: { int s = o.c; int p = s >= 0 ? m.s[s].pos : b; if (s >= 0) con(a).erase(it(s)); else con(a).erase(at(a, p)); --m.c[a].size; kill_from(a, p); if (CONT) unknown_all(a, true); break; }
    case C_RERA: { int s = o.c; int p = s >= 0 ? m.s[s].pos : b; if (s >= 0) con(a).rerase(it(s)); else con(a).rerase(at(a, p)); --m.c[a].size; kill_upto(a, p); shift(a, p + 1, -1); if (CONT) unknown_all(a, true); break; }
    case C_CAP: case C_RCAP: { bool same = b == m.c[a].cap; if (o.code == C_CAP) con(a).set_capacity(typename C::capacity_type(b)); else con(a).rset_capacity(typename C::capacity_type(b)); if (!same || CONT) unknown_all(a, true); m.c[a].cap = b; if (m.c[a].size > b) m.c[a].size = b; break; }
    case C_SWAP: con(a).swap(con(b)); { MC t = m.c[a]; m.c[a] = m.c[b]; m.c[b] = t; } invalid_all(a, true); invalid_all(b, true); break;
    case C_MOVE: con(a) = std::move(con(b)); unknown_all(a, true); unknown_all(b, true); m.c[a] = m.c[b]; m.c[b].cap = int(con(b).capacity()); m.c[b].size = 0; break;
    case C_ASG: con(a) = con(b); if (a != b) { unknown_all(a, true); m.c[a].cap = m.c[b].cap; m.c[a].size = m.c[b].size; } break;
    case C_CC: new (&con(a)) C(con(b)); m.c[a] = m.c[b]; break;
    case C_MC: new (&con(a)) C(std::move(con(b))); unknown_all(b, true); m.c[a] = m.c[b]; m.c[b].cap = int(con(b).capacity()); m.c[b].size = 0; break;
    case C_LIN: { bool lin = con(a).is_linearized(); con(a).linearize(); if (!lin) unknown_all(a, false); if (CONT) unknown_all(a, true); break; }
    case C_ROT: { int s = o.c; int p = s >= 0 ? m.s[s].pos : b; bool full = m.c[a].size == m.c[a].cap; if (s >= 0) con(a).rotate(isI(s) ? J(it(s)) : jt(s)); else con(a).rotate(at(a, p));
        if (p > 0) { if (full) for (int k = 0; k < NS; ++k) { MI& x = m.s[k]; if (x.st == VALID && x.c == a && x.pos >= 0) x.pos = (x.pos - p + m.c[a].size) % m.c[a].size; } else unknown_all(a, false); } if (CONT) unknown_all(a, true); break; }
    case C_RESIZE: { con(a).resize(b, 7); for (int p = b; p < m.c[a].size; ++p) kill_pos(a, p, INVALID); if (b > m.c[a].cap || CONT) unknown_all(a, true); if (b > m.c[a].cap) m.c[a].cap = b; m.c[a].size = b; break; }
    }
}
static bool bad(const char* fmt, int x = 0, int y = 0) { std::snprintf(g_whybuf, sizeof g_whybuf, fmt, x, y); g_why = g_whybuf; return false; }
// the promises, after every operation
static bool promises() {
    Model& m = W.m;
    for (int k = 0; k < NC; ++k) {
        if (!m.c[k].alive) { if (std::memcmp(W.r.c[k], g_fill, sizeof W.r.c[k])) return bad("the memory of destroyed container %d was written", k); continue; }
        C& c = con(k);
        if (int(c.size()) != m.c[k].size || int(c.capacity()) != m.c[k].cap) return bad("container %d has another size or capacity", k);
        for (int i = 0; i < m.c[k].size; ++i) c[i] = 10 * k + i;     // canonical content
    }
    for (int s = 0; s < NS; ++s) {
        if (m.s[s].st == NONE && (isI(s) ? std::memcmp(W.r.i[s], g_fill, sizeof W.r.i[s]) : std::memcmp(W.r.j[s - NI], g_fill, sizeof W.r.j[0]))) return bad("the memory of destroyed iterator %d was written", s);
        if (m.s[s].st != VALID) continue;
        C& c = con(m.s[s].c); const C& cc = c; int p = m.s[s].pos;
#define CHECK(X) { if (p >= 0) { if (*X != 10 * m.s[s].c + p) return bad("iterator %d designates another element (expected position %d)", s, p); if (X - c.begin() != p || !(X == c.begin() + p) || !(cc.begin() + p == X)) return bad("iterator %d is at another position than %d", s, p); } \
                   else if (!(X == c.end()) || !(cc.end() == X) || c.end() - X != 0) return bad("iterator %d is not end()", s); }
        if (isI(s)) CHECK(it(s)) else CHECK(jt(s))
        for (int t = 0; t < NS; ++t) if (m.s[t].st == VALID && m.s[t].c == m.s[s].c) {
            bool e = isI(s) ? (isI(t) ? it(s) == it(t) : it(s) == jt(t)) : (isI(t) ? jt(s) == it(t) : jt(s) == jt(t));
            if (e != (m.s[t].pos == p)) return bad("comparison of iterators %d and %d", s, t);
        }
    }
    return true;
}
static std::vector<Op> enabled() {
    std::vector<Op> v; Model& m = W.m;
    #define ADD(CO, A, B, CC) { Op o = { (signed char)(CO), (signed char)(A), (signed char)(B), (signed char)(CC) }; v.push_back(o); }
    for (int s = 0; s < NS; ++s) {
        bool first = true; // symmetry: among empty slots of one kind only the lowest is filled
        for (int t = isI(s) ? 0 : NI; t < s; ++t) if (m.s[t].st == NONE) first = false;
        if (m.s[s].st == NONE) {
            if (!first) continue;
            ADD(DEF, s, 0, 0);
            for (int k = 0; k < NC; ++k) if (m.c[k].alive) for (int p = -1; p < m.c[k].size; ++p) ADD(FROM, s, k, p);
            for (int t = 0; t < NS; ++t) if (t != s && m.s[t].st != NONE && !(isI(s) && !isI(t))) ADD(COPY, s, t, 0);
        } else {
            ADD(DTOR, s, 0, 0);
            for (int t = 0; t < NS; ++t) if (m.s[t].st != NONE && !(isI(s) && !isI(t))) ADD(ASG, s, t, 0);
            for (int k = 0; k < NC; ++k) if (m.c[k].alive) for (int p = -1; p < m.c[k].size; ++p) ADD(ASGFROM, s, k, p);
            if (m.s[s].st == VALID) { int sz = m.c[m.s[s].c].size, p = m.s[s].pos < 0 ? sz : m.s[s].pos; if (p < sz) { ADD(INC, s, 0, 0); ADD(INC, s, 1, 0); } if (p > 0) { ADD(DEC, s, 0, 0); ADD(DEC, s, 1, 0); } for (int d = -p; d <= sz - p; ++d) if (d < -1 || d > 1) ADD(PLUS, s, 0, d); }
        }
    }
    for (int k = 0; k < NC; ++k) {
        if (!m.c[k].alive) { for (int c = 0; c <= g_cap; ++c) ADD(C_NEW, k, c, 0); for (int q = 0; q < NC; ++q) if (q != k && m.c[q].alive) { ADD(C_CC, k, q, 0); ADD(C_MC, k, q, 0); } continue; }
        MC& c = m.c[k];
        ADD(C_DEL, k, 0, 0); ADD(C_PB, k, 0, 0); ADD(C_PF, k, 0, 0); ADD(C_CLEAR, k, 0, 0); ADD(C_LIN, k, 0, 0);
        if (c.size) { ADD(C_POPB, k, 0, 0); ADD(C_POPF, k, 0, 0); }
        for (int p = -1; p < c.size; ++p) { ADD(C_INS, k, p, 0); ADD(C_RINS, k, p, 0); if (p >= 0) { ADD(C_ERA, k, p, -1); ADD(C_RERA, k, p, -1); ADD(C_ROT, k, p, -1); } }
        for (int s = 0; s < NS; ++s) if (m.s[s].st == VALID && m.s[s].c == k && m.s[s].pos >= 0) { if (isI(s)) { ADD(C_ERA, k, 0, s); ADD(C_RERA, k, 0, s); } ADD(C_ROT, k, 0, s); }
        for (int n = 0; n <= g_cap; ++n) { ADD(C_CAP, k, n, 0); ADD(C_RCAP, k, n, 0); ADD(C_RESIZE, k, n, 0); }
        for (int q = 0; q < NC; ++q) if (m.c[q].alive) { ADD(C_ASG, k, q, 0); if (q > k) ADD(C_SWAP, k, q, 0); if (q != k) ADD(C_MOVE, k, q, 0); }
    }
    return v;
}
#if MCDEBUG
// uses of iterators that certainly are invalid: each has to be reported
static void use(int s, int how) {
    volatile int sink = 0; Model& m = W.m;
    #define U(X, Y) { if (how == 0) sink = *X; else if (how == 1) ++X; else if (how == 2) --X; else if (how == 3) sink = X == Y; else if (how == 4) sink = X - Y; else if (how == 5) X += 1; else if (how == 6) sink = X < Y; else if (how == 7) sink = Y == X; else if (how == 8) sink = Y - X; else if (how == 9) X++; else if (how == 10) sink = *(X + 1); }
    I other;    // singular
    for (int t = 0; t < NC; ++t) if (m.c[t].alive) { I e(con(t).end()); if (isI(s)) { I x(it(s)); U(x, e) } else { J x(jt(s)); U(x, e) } return; }
    (void)sink;
}
#endif
static bool guarded(const Op* o, int s, int how, int* what) {     // returns true if control came back normally
    g_why = 0; g_ticks = 0; *what = 0;
    int j = sigsetjmp(g_jmp, 1);
    if (j) { g_in = 0; *what = j; return false; }
    g_in = 1;
    bool ok = true;
    if (o) { perform(*o); ok = promises(); }
#if MCDEBUG
    else use(s, how);
#endif
    g_in = 0;
    if (!ok) *what = 3;
    return ok;
}
struct Node { int parent; Op op; };
static std::vector<Node> g_nodes; static std::vector<World*> g_worlds; static std::set<std::string> g_sigs; static u64 g_found;
static std::string hist(int n, const Op* last) { std::string s; std::vector<Op> v; for (; g_nodes[n].parent >= 0; n = g_nodes[n].parent) v.push_back(g_nodes[n].op); for (size_t i = v.size(); i--; ) s += (s.empty() ? "" : "; ") + str(v[i]); if (last) s += (s.empty() ? "" : "; ") + str(*last); return s; }
static void report(int n, const Op* last, const char* tag, const char* what, const std::string& msg) {
    std::string sig = std::string(tag) + "|" + what; if (!g_sigs.insert(sig).second) return; ++g_found;
    std::string m; for (size_t i = 0; i < msg.size(); ++i) { if (msg[i] == '"' || msg[i] == '\\') m += '\\'; m += msg[i]; }
    std::printf("VIOL {\"tag\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"hist\":\"%s\"}\n", tag, sig.c_str(), m.c_str(), hist(n, last).c_str());
}
static void hash(const void* p, size_t n, u64& a, u64& b) { const u8* q = (const u8*)p; for (size_t i = 0; i < n; ++i) { a = (a ^ q[i]) * 1099511628211ull; b = (b + q[i]) * 6364136223846793005ull + 1442695040888963407ull; b ^= b >> 29; } }
int main(int argc, char** argv) {
    double budget = 600; int maxdepth = 1000; long maxs = 3000000; bool uses = true, rep = false; std::string label = "iters", replay;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--cap") g_cap = std::atoi(n); else if (a == "--budget") budget = std::atof(n); else if (a == "--label") label = n; else if (a == "--max-states") maxs = std::atol(n); else if (a == "--depth") maxdepth = std::atoi(n); else if (a == "--uses") uses = std::atoi(n) != 0; else if (a == "--replay") { replay = n; rep = true; } else return 2; ++i; }
    std::memset(g_fill, 0xEE, sizeof g_fill); std::memset((void*)&W, 0, sizeof W); std::memset((void*)&W.r, 0xEE, sizeof W.r); std::memset(W.r.a.used, 0, sizeof W.r.a.used);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER; int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM }; for (int s : sg) sigaction(s, &sa, 0);
    struct itimerval tv = { { 0, 250000 }, { 0, 250000 } }; setitimer(ITIMER_REAL, &tv, 0);
    int what;
    if (rep) {
        const char* p = replay.c_str();
        while (*p) {
            char nm[40]; int a, b, c, n = 0; if (std::sscanf(p, " %39s %d %d %d%n", nm, &a, &b, &c, &n) < 4) return 2; p += n; while (*p == ';' || *p == ' ') ++p;
            int code = 0; while (code < N_CODES && std::strcmp(NM[code], nm)) ++code; Op o = { (signed char)code, (signed char)a, (signed char)b, (signed char)c };
            if (code == U_USE) { guarded(0, a, b, &what); if (what == 0) { std::printf("REPLAY DEBUG: use %d of invalid iterator %d is not reported\n", b, a); return 1; } if (what != 1) { std::printf("REPLAY DEBUG: %s\n", g_why); return 1; } continue; }
            if (!guarded(&o, 0, 0, &what)) { std::printf("REPLAY: %s: %s\n", str(o).c_str(), g_why); return 1; }
        }
        return 0;
    }
    std::set<std::pair<u64, u64> > seen; bool full = true; u64 trans = 0, nuses = 0, reported = 0; std::map<std::string, u64> per; std::vector<int> depth;
    { Node n = { -1, { 0, 0, 0, 0 } }; g_nodes.push_back(n); g_worlds.push_back(new World(W)); u64 x = 14695981039346656037ull, y = 1; hash(&W, sizeof W, x, y); seen.insert(std::make_pair(x, y)); depth.push_back(0); }
    std::clock_t t0 = std::clock(); int maxd = 0;
    for (size_t i = 0; i < g_nodes.size(); ++i) {
        if (depth[i] >= maxdepth) break;      // all histories up to that length were explored
        std::memcpy((void*)&W, g_worlds[i], sizeof W);
        std::vector<Op> ops = enabled(); std::set<std::string> dead;
        for (size_t k = 0; k < ops.size(); ++k) {
            std::memcpy((void*)&W, g_worlds[i], sizeof W);
            ++trans; ++per[NM[ops[k].code]];
            if (!guarded(&ops[k], 0, 0, &what)) { report(int(i), &ops[k], what == 1 ? "DEBUG" : what == 2 ? "CRASH" : "ITER", NM[ops[k].code], std::string(NM[ops[k].code]) + ": " + g_why); if (what == 2 && std::strstr(g_why, "return")) { full = false; i = g_nodes.size(); break; } continue; }
            u64 x = 14695981039346656037ull, y = 1; hash(&W, sizeof W, x, y);
            if (seen.insert(std::make_pair(x, y)).second) {
                if (long(g_nodes.size()) >= maxs) { full = false; continue; }
                Node n = { int(i), ops[k] }; g_nodes.push_back(n); g_worlds.push_back(new World(W)); depth.push_back(depth[i] + 1); if (depth.back() > maxd) maxd = depth.back();
            }
        }
        if (i >= g_nodes.size()) break;
#if MCDEBUG
        if (uses) {
            const Model& m = g_worlds[i]->m; bool any = false; for (int k = 0; k < NC; ++k) any |= m.c[k].alive != 0;
            for (int s = 0; s < NS && any; ++s) if (m.s[s].st == INVALID || m.s[s].st == SINGULAR) for (int how = 0; how <= 10; ++how) {
                std::memcpy((void*)&W, g_worlds[i], sizeof W); ++nuses;
                guarded(0, s, how, &what);
                if (what == 1) { ++reported; continue; }
                Op u = { U_USE, (signed char)s, (signed char)how, 0 }; char b[60]; std::sprintf(b, "use%d%s", how, m.s[s].st == SINGULAR ? " of a singular iterator" : "");
                report(int(i), &u, "DEBUG", b, what == 2 ? std::string("use of an invalid iterator: ") + g_why : "use of an invalid iterator is not reported");
            }
        }
#endif
        delete g_worlds[i]; g_worlds[i] = 0;
        if ((i & 255) == 0 && double(std::clock() - t0) / CLOCKS_PER_SEC > budget) { full = i + 1 == g_nodes.size(); break; }
        if (g_found >= 8) { full = false; break; }
    }
    std::printf("RESULT {\"config\":\"%s\",\"states\":%lu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"max_depth\":%d,\"outcomes\":%lu,\"fixpoint\":%s,\"found\":%llu,\"extra\":{\"uses_of_invalid_iterators\":%llu,\"reported\":%llu},\"per_op\":{", label.c_str(), (unsigned long)g_nodes.size(), trans, trans + nuses, trans, maxd, (unsigned long)g_nodes.size(), full ? "true" : "false", g_found, nuses, reported);
    bool f = true; for (std::map<std::string, u64>::iterator q = per.begin(); q != per.end(); ++q) { std::printf("%s\"%s\":%llu", f ? "" : ",", q->first.c_str(), q->second); f = false; }
    std::printf("},\"samples\":[\"%s\",\"%s\"]}\n", hist(int(g_nodes.size()) - 1, 0).c_str(), hist(int(g_nodes.size()) / 2, 0).c_str());
    return g_found ? 1 : 0;
}
