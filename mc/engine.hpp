// Explicit-state model checking of boost::circular_buffer / circular_buffer_space_optimized.
// The transition relation is the real container; the oracle is a vector of ids plus a capacity.
#ifndef MC_ENGINE_HPP
#define MC_ENGINE_HPP

#ifndef CONT
#define CONT 0           // 0 circular_buffer, 1 circular_buffer_space_optimized
#endif
#ifndef MCDEBUG
#define MCDEBUG 0        // debug support of the library
#endif
#if MCDEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#endif
#include "rt.hpp"
#include <boost/circular_buffer.hpp>
#include <boost/move/move.hpp>

#if MC_NOEXC
namespace boost {
void throw_exception(std::exception const& e) {
    mc::g_exc_what = e.what();
    mc::leave(dynamic_cast<const std::out_of_range*>(&e) ? 2 : dynamic_cast<const std::length_error*>(&e) ? 3 : 5);
    abort();
}
void throw_exception(std::exception const& e, boost::source_location const&) { throw_exception(e); }
}
#endif
#if MCDEBUG
namespace mc { struct Asserted { const char* expr; long line; }; static bool g_assert_armed = false; static int g_asserts = 0; }
namespace boost {
inline void assertion_failed(char const* expr, char const*, char const*, long line) {
    if (mc::g_assert_armed) { mc::Asserted a; a.expr = expr; a.line = line; ++mc::g_asserts; throw a; }
    mc::fail(mc::T_DEBUG, "unexpected assertion %s (line %ld)", expr, line);
    mc::bail("assert");
}
inline void assertion_failed_msg(char const* expr, char const*, char const* f, char const* file, long line) { assertion_failed(expr, f, file, line); }
}
#endif

namespace mc {

typedef TA<E> A;
#if CONT == 0
typedef boost::circular_buffer<E, A> CB;
#else
typedef boost::circular_buffer_space_optimized<E, A> CB;
#endif
typedef CB::capacity_type Cap;
typedef CB::iterator It;
typedef CB::const_iterator CIt;

template <class T> T* raw(T* p) { return p; }
#if FANCY
template <class T> T* raw(const boost::interprocess::offset_ptr<T>& p) { return p.get(); }
#endif
#if CONT == 0
inline Cap mkcap(int c, int) { return Cap(c); }
inline std::size_t rcap_of(const CB& c) { return c.capacity(); }
inline int min_of(const CB&) { return 0; }
#else
inline Cap mkcap(int c, int m) { return Cap(c, m); }
inline std::size_t rcap_of(const CB& c) { return c.capacity().capacity(); }
inline int min_of(const CB& c) { return int(std::min<std::size_t>(c.capacity().min_capacity(), 1 << 30)); }
#endif
inline int cap_of(const CB& c) { return int(std::min<std::size_t>(rcap_of(c), 1 << 30)); } // saturated

// ---------------------------------------------------------------- operations
enum Code {
    CTOR_DEF, CTOR_CAP, CTOR_N, CTOR_CN, CTOR_R, CTOR_CR, CTOR_FILL, CTOR_GEO,
    PUSHB, PUSHF, POPB, POPF,
    INS1, RINS1, INSN, RINSN, INSR, RINSR,
    ERASE1, ERASER, RERASE1, RERASER, ERASEB, ERASEE, CLEAR,
    SETCAP, RSETCAP, RESIZE, RRESIZE,
    ASSIGN_N, ASSIGN_CN, ASSIGN_R, ASSIGN_CR,
    LINEARIZE, ROTATE,
    COPYASG, MOVEASG, SWAP, SELFASG, COPYCTOR, MOVECTOR,
    SELFPUSHB, SELFPUSHF,
    X_OP,
    N_CODES
};
static const char* const code_name[] = {
    "CTOR_DEF", "CTOR_CAP", "CTOR_N", "CTOR_CN", "CTOR_R", "CTOR_CR", "CTOR_FILL", "CTOR_GEO",
    "PUSHB", "PUSHF", "POPB", "POPF",
    "INS1", "RINS1", "INSN", "RINSN", "INSR", "RINSR",
    "ERASE1", "ERASER", "RERASE1", "RERASER", "ERASEB", "ERASEE", "CLEAR",
    "SETCAP", "RSETCAP", "RESIZE", "RRESIZE",
    "ASSIGN_N", "ASSIGN_CN", "ASSIGN_R", "ASSIGN_CR",
    "LINEARIZE", "ROTATE",
    "COPYASG", "MOVEASG", "SWAP", "SELFASG", "COPYCTOR", "MOVECTOR",
    "SELFPUSHB", "SELFPUSHF",
    "X_OP"
};
enum Family { F_CTOR = 1, F_PUSH = 2, F_INS = 4, F_ERASE = 8, F_CAP = 16, F_ASSIGN = 32, F_LIN = 64, F_TWO = 128, F_SELF = 256, F_X = 512, F_ALL = 1023 };
inline unsigned family_of(int c) {
    if (c <= CTOR_GEO) return F_CTOR;
    if (c <= POPF) return F_PUSH;
    if (c <= RINSR) return F_INS;
    if (c <= CLEAR) return F_ERASE;
    if (c <= RRESIZE) return F_CAP;
    if (c <= ASSIGN_CR) return F_ASSIGN;
    if (c <= ROTATE) return F_LIN;
    if (c <= MOVECTOR) return F_TWO;
    if (c <= SELFPUSHF) return F_SELF;
    return F_X;
}
// extreme sub-operations of X_OP: a[0]
enum XCode { X_AT, X_CAT, X_SETCAP, X_RSETCAP, X_RESIZE, X_RRESIZE, X_INSN, X_RINSN, X_INSR, X_RINSR, X_ASSIGN_N, X_CTOR_CAP, X_CTOR_N, X_CTOR_R, X_ASSIGN_CN, X_CODES };

struct Op {
    short code; short fault; short a[5];
    Op() : code(0), fault(0) { std::memset(a, 0, sizeof a); }
    explicit Op(int c, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0, int a4 = 0) : code(short(c)), fault(0) {
        a[0] = short(a0); a[1] = short(a1); a[2] = short(a2); a[3] = short(a3); a[4] = short(a4);
    }
};
inline std::string op_str(const Op& o) {
    char b[128];
    std::snprintf(b, sizeof b, "%s %d %d %d %d %d", code_name[o.code], o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]);
    std::string s(b);
    while (s.size() > 2 && s.substr(s.size() - 2) == " 0") s.erase(s.size() - 2);
    if (o.fault) { std::snprintf(b, sizeof b, " !%d", o.fault); s += b; }
    return s;
}
typedef std::vector<Op> Hist;
inline std::string hist_str(const Hist& h) {
    std::string s;
    for (size_t i = 0; i < h.size(); ++i) { if (i) s += "; "; s += op_str(h[i]); }
    return s;
}
inline Hist parse_hist(const std::string& s) {
    Hist h; size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find(';', i); if (j == std::string::npos) j = s.size();
        std::string t = s.substr(i, j - i); i = j + 1;
        char name[32]; int a[5] = {0,0,0,0,0}; int off = 0;
        if (std::sscanf(t.c_str(), " %31s%n", name, &off) != 1) continue;
        Op o; int c = 0;
        for (; c < N_CODES; ++c) if (!std::strcmp(name, code_name[c])) break;
        if (c == N_CODES) { std::fprintf(stderr, "bad op %s\n", name); std::exit(2); }
        o.code = short(c);
        const char* p = t.c_str() + off; int k = 0;
        for (;;) {
            while (*p == ' ') ++p;
            if (!*p) break;
            if (*p == '!') { o.fault = short(std::strtol(p + 1, const_cast<char**>(&p), 10)); continue; }
            char* e; long v = std::strtol(p, &e, 10); if (e == p) break; p = e;
            if (k < 5) a[k++] = int(v);
        }
        for (k = 0; k < 5; ++k) o.a[k] = short(a[k]);
        h.push_back(o);
    }
    return h;
}

// ---------------------------------------------------------------- model
struct Model {
    bool exists; int cap, min; std::vector<int> v; long aid; bool exempt; // exempt: SO copies may hold less than min
    int split; // size of the first array view (only used to choose arguments)
    Model() : exists(false), cap(0), min(0), aid(AID), exempt(false), split(0) {}
    int size() const { return int(v.size()); }
    int reserve() const { return cap - size(); }
    bool full() const { return size() == cap; }
};
static void m_push_back(Model& m, int x) { if (!m.cap) return; if (m.full()) m.v.erase(m.v.begin()); m.v.push_back(x); }
static void m_push_front(Model& m, int x) { if (!m.cap) return; if (m.full()) m.v.pop_back(); m.v.insert(m.v.begin(), x); }
static int m_insert(Model& m, int pos, const std::vector<int>& items) { // keeps the last ones
    int room = m.cap - (m.size() - pos), n = std::min(int(items.size()), room);
    m.v.insert(m.v.begin() + pos, items.end() - n, items.end());
    int drop = std::max(0, m.size() - m.cap);
    m.v.erase(m.v.begin(), m.v.begin() + drop);
    return n;
}
static int m_rinsert(Model& m, int pos, const std::vector<int>& items) { // keeps the first ones
    int room = m.cap - pos, n = std::min(int(items.size()), room);
    m.v.insert(m.v.begin() + pos, items.begin(), items.begin() + n);
    int drop = std::max(0, m.size() - m.cap);
    m.v.erase(m.v.end() - drop, m.v.end());
    return n;
}

static const int ID_NEW = 40000, ID_B = 20000, ID_GEN = 60000;

// ---------------------------------------------------------------- world
#if FANCY
static const size_t SLOTSZ = (sizeof(CB) + 127) & ~size_t(63);
inline char* slot_mem(int i) { return g_arena + 64 + i * SLOTSZ; }
#else
static char g_mem[3][sizeof(CB) + 64] __attribute__((aligned(64)));
static const size_t SLOTSZ = sizeof g_mem[0];
inline void* slot_mem(int i) { return g_mem[i]; }
#endif
struct World {
    CB* c; Model m; int slot; // slot: which storage the main container lives in
    int seq;                  // number of the current operation
    World() : c(0), slot(0), seq(0) {}
};

// extreme values
static std::vector<std::size_t> x_values(const Model& m) {
    typedef SizeT S;
    std::vector<std::size_t> r; S mx = S(-1);
    S s = S(m.size()), c = S(m.cap);
#define P2(k) S(S(1) << (k % int(8 * sizeof(S))))
    S base[] = {0, 1, s, c, s + 1, c + 1, P2(31), P2(31) - 1, P2(32), P2(32) - 1, P2(32) + 1, P2(62), P2(62) + 1,
                P2(63), P2(63) - 1, P2(63) + 1, mx, mx - 1, mx - 2, mx - s, mx - c, mx - s + 1, mx - c + 1, mx - s - c, mx / sizeof(E), mx / sizeof(E) + 1,
                mx / 2 / sizeof(E), mx / 2 / sizeof(E) + 1, mx / 2, mx / 2 + 1, mx / 3, 2 * c + 1, 3 * c + 1, P2(60), P2(61), P2(40)};
#undef P2
    for (size_t i = 0; i < sizeof base / sizeof *base; ++i) r.push_back(base[i]);
    return r;
}
static const int X_NVALUES = 36;

static bool g_threw; static std::string g_what; static int g_exc_kind; // 0 none 1 injected 2 out_of_range 3 length_error 4 bad_alloc 5 other 6 assert
static int g_ret;      // index of a returned iterator, -2 when the operation returns nothing
static bool g_ret_odd; // it designates no element of the container
static bool g_ret_end; // returned iterator == end()
static const E* g_ret_ptr; // linearize(): returned pointer

struct OpCounts { Counters c; int fp[FP_KINDS]; int fps; int allocs, deallocs; size_t alloc_total; };
static OpCounts g_oc;
static void op_begin(int fault) {
    std::memset(&g_cnt, 0, sizeof g_cnt); std::memset(g_fp_kind, 0, sizeof g_fp_kind);
    g_fp_count = 0; g_fp_target = fault; g_fp_thrown = -1; g_work = 0; g_allocs = g_deallocs = 0; g_alloc_total = 0; g_armed = true; g_heap = 0; g_in_op = true;
}
static void op_end() {
    g_in_op = false; g_armed = false; g_fp_target = 0;
    g_oc.c = g_cnt; std::memcpy(g_oc.fp, g_fp_kind, sizeof g_fp_kind); g_oc.fps = g_fp_count;
    g_oc.allocs = g_allocs; g_oc.deallocs = g_deallocs; g_oc.alloc_total = g_alloc_total;
}

static void push_back_raw(CB& c, int id) { E t(id); c.push_back(MV(t)); }

// a second container of given geometry (capacity, offset, size); ids ID_B+i
static void build_geo(CB& c, int off, int size) {
    for (int i = 0; i < off; ++i) push_back_raw(c, 1);
    for (int i = 0; i < off; ++i) c.pop_front();
    for (int i = 0; i < size; ++i) push_back_raw(c, ID_B + i);
}

struct Source { // items with ids ID_NEW..., alive only during an operation
    std::vector<E> v; InCtl ctl; std::vector<int> ints;
    Source(int n) {
#if HAS_COPY || HAS_MOVE
        v.reserve(n + 1);
#endif
        for (int i = 0; i < n; ++i) {
#if HAS_MOVE
            v.emplace_back(ID_NEW + i);
#else
            v.push_back(E(ID_NEW + i));
#endif
            ints.push_back(ID_NEW + i);
        }
        if (v.empty()) { // keep a valid address
#if HAS_MOVE
            v.emplace_back(ID_NEW);
#else
            v.push_back(E(ID_NEW));
#endif
            ints.push_back(ID_NEW);
        }
        ctl.base = &v[0]; ctl.n = n; ctl.pos = 0;
    }
};
enum Cat { C_PTR, C_FWD, C_BID, C_IN, C_MOVE, C_INT, N_CATS };
inline bool cat_ok(int cat) {
#if HAS_COPY && HAS_MOVE
    (void)cat; return true;
#elif HAS_COPY && IS_CLASS
    return cat != C_MOVE;
#elif HAS_COPY
    return cat != C_MOVE && cat != C_INT;
#else
    return cat == C_MOVE || cat == C_INT;
#endif
}

#if HAS_COPY
#define CAT_COPY(CALL) \
    case C_PTR: { const E* f = s.ctl.base; const E* l = f + n; (void)f; (void)l; CALL; break; } \
    case C_FWD: { FwdIt f(s.ctl.base), l(s.ctl.base + n); CALL; break; } \
    case C_BID: { BidIt f(s.ctl.base), l(s.ctl.base + n); CALL; break; } \
    case C_IN:  { InIt f(&s.ctl), l; CALL; break; }
#else
#define CAT_COPY(CALL)
#endif
#if HAS_MOVE
#define CAT_MOVE(CALL) \
    case C_MOVE: { boost::move_iterator<E*> f = boost::make_move_iterator(&s.v[0]), l = boost::make_move_iterator(&s.v[0] + n); CALL; break; }
#else
#define CAT_MOVE(CALL)
#endif
#if IS_CLASS
#define CAT_INT(CALL) case C_INT: { const int* f = &s.ints[0]; const int* l = f + n; CALL; break; }
#else
#define CAT_INT(CALL)
#endif
#define BY_CAT(cat, CALL) switch (cat) { CAT_COPY(CALL) CAT_MOVE(CALL) CAT_INT(CALL) default: std::fprintf(stderr, "bad category\n"); std::exit(2); }

static std::vector<int> new_ids(int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(ID_NEW + i); return r; }
static std::vector<int> same_ids(int n, int id) { return std::vector<int>(n > 0 ? n : 0, id); }

struct Ret { int idx; bool is_end; bool any; Ret() : idx(-2), is_end(false), any(false) {} };

// ---- model transition. Returns expected returned position (-2: none).  m2/two: second container
static int model_step(Model& m, const Op& o, Model* m2) {
    switch (o.code) {
        case CTOR_DEF: m = Model(); m.exists = true; m.aid = AID + 1; return -2;
        case CTOR_CAP: m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[0]; m.min = o.a[1]; return -2;
        case CTOR_FILL: m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[0]; m.min = o.a[1]; m.v = same_ids(o.a[0], ID_NEW); return -2;
        case CTOR_N: m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[0]; m.v = same_ids(o.a[0], ID_NEW); return -2;
        case CTOR_CN: m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[0]; m.min = o.a[2]; m.v = same_ids(o.a[1], ID_NEW); return -2;
        case CTOR_R: m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[1]; m.v = new_ids(o.a[1]); return -2;
        case CTOR_CR: { m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[1]; m.min = o.a[3]; std::vector<int> x = new_ids(o.a[2]);
            int k = std::min(m.cap, o.a[2] + 0); m.v.assign(x.end() - k, x.end()); return -2; }
        case CTOR_GEO: { m = Model(); m.exists = true; m.aid = AID + 1; m.cap = o.a[0]; m.min = o.a[3]; for (int i = 0; i < o.a[2]; ++i) m.v.push_back(ID_B + i); return -2; }
        case PUSHB: m_push_back(m, o.a[0] == 2 ? ID_DEFAULT : ID_NEW); return -2;
        case PUSHF: m_push_front(m, o.a[0] == 2 ? ID_DEFAULT : ID_NEW); return -2;
        case SELFPUSHB: m_push_back(m, m.v[o.a[0]]); return -2;
        case SELFPUSHF: m_push_front(m, m.v[o.a[0]]); return -2;
        case POPB: m.v.pop_back(); return -2;
        case POPF: m.v.erase(m.v.begin()); return -2;
        case INS1: { bool f = m.full(); int p = o.a[1]; int n = m_insert(m, p, same_ids(1, o.a[0] == 2 ? ID_DEFAULT : ID_NEW)); return n == 0 ? 0 : (f ? p - 1 : p); }
        case RINS1: { int p = o.a[1]; int n = m_rinsert(m, p, same_ids(1, o.a[0] == 2 ? ID_DEFAULT : ID_NEW)); return n == 0 ? m.size() : p; }
        case INSN: m_insert(m, o.a[0], same_ids(o.a[1], ID_NEW)); return -2;
        case RINSN: m_rinsert(m, o.a[0], same_ids(o.a[1], ID_NEW)); return -2;
        case INSR: m_insert(m, o.a[1], new_ids(o.a[2])); return -2;
        case RINSR: m_rinsert(m, o.a[1], new_ids(o.a[2])); return -2;
        case ERASE1: m.v.erase(m.v.begin() + o.a[0]); return o.a[0];
        case ERASER: m.v.erase(m.v.begin() + o.a[0], m.v.begin() + o.a[1]); return o.a[0];
        case RERASE1: m.v.erase(m.v.begin() + o.a[0]); return o.a[0] ? o.a[0] - 1 : 0;
        case RERASER: m.v.erase(m.v.begin() + o.a[0], m.v.begin() + o.a[1]); return o.a[0] == o.a[1] ? -2 : (o.a[0] ? o.a[0] - 1 : 0);
        case ERASEB: m.v.erase(m.v.begin(), m.v.begin() + o.a[0]); return -2;
        case ERASEE: m.v.erase(m.v.end() - o.a[0], m.v.end()); return -2;
        case CLEAR: m.v.clear(); return -2;
        case SETCAP: m.cap = o.a[0]; m.min = o.a[1]; if (m.size() > m.cap) m.v.resize(m.cap); m.exempt = false; return -2;
        case RSETCAP: m.cap = o.a[0]; m.min = o.a[1]; if (m.size() > m.cap) m.v.erase(m.v.begin(), m.v.end() - m.cap); m.exempt = false; return -2;
        case RESIZE: { int id = o.a[1] ? ID_NEW : ID_DEFAULT; if (o.a[0] > m.cap) m.cap = o.a[0]; m.v.resize(o.a[0], id); return -2; }
        case RRESIZE: { int id = o.a[1] ? ID_NEW : ID_DEFAULT; if (o.a[0] > m.cap) m.cap = o.a[0];
            if (o.a[0] > m.size()) m.v.insert(m.v.begin(), o.a[0] - m.size(), id); else m.v.erase(m.v.begin(), m.v.end() - o.a[0]); return -2; }
        case ASSIGN_N: m.cap = o.a[0]; m.min = 0; m.v = same_ids(o.a[0], ID_NEW); m.exempt = false; return -2;
        case ASSIGN_CN: m.cap = o.a[0]; m.min = o.a[2]; m.v = same_ids(o.a[1], ID_NEW); m.exempt = false; return -2;
        case ASSIGN_R: m.cap = o.a[1]; m.min = 0; m.v = new_ids(o.a[1]); m.exempt = false; return -2;
        case ASSIGN_CR: { m.cap = o.a[1]; m.min = o.a[3]; std::vector<int> x = new_ids(o.a[2]); int k = std::min(m.cap, o.a[2] + 0); m.v.assign(x.end() - k, x.end()); m.exempt = false; return -2; }
        case LINEARIZE: return -2;
        case ROTATE: std::rotate(m.v.begin(), m.v.begin() + o.a[0], m.v.end()); return -2;
        case COPYASG: { m = *m2; m.aid = 0; m.exempt = true; return -2; } // which allocator a copy-assigned container keeps is not documented
        case MOVEASG: { *static_cast<Model*>(&m) = *m2; m2->v.clear(); m2->cap = -1; m2->aid = 0; m2->exempt = true; return -2; }
        case SWAP: std::swap(m, *m2); return -2;
        case SELFASG: return -2;
        case COPYCTOR: *m2 = m; m2->exempt = true; return -2;
        case MOVECTOR: *m2 = m; m.v.clear(); m.cap = -1; m.aid = 0; m.exempt = true; return -2;
        case X_OP: return -2;
    }
    return -2;
}

template <class I> static void note_ret(CB& c, const I& it) {
    g_ret = int(it - c.begin()); g_ret_end = it == c.end();
    // it has to be the very iterator that begin() + position gives, not just at the same distance
    g_ret_odd = g_ret >= 0 && g_ret <= int(c.size()) && (!(it == c.begin() + g_ret) || (g_ret < int(c.size()) && &*it != &c[g_ret]));
}

static void x_step(CB*& c, const Op& o, const Model& before);

// ---- real transition; may throw
static void real_step(World& w, const Op& o, CB*& b, Source& s, E& item, int x_slot) {
    CB*& c = w.c; int n; (void)n; (void)x_slot;
    const E& citem = item; (void)citem;
    switch (o.code) {
        case CTOR_DEF: c = new (slot_mem(w.slot)) CB(A(1)); break;
        case CTOR_CAP: c = new (slot_mem(w.slot)) CB(mkcap(o.a[0], o.a[1]), A(1)); break;
#if HAS_COPY
#if CONT == 1
        case CTOR_FILL: c = new (slot_mem(w.slot)) CB(mkcap(o.a[0], o.a[1]), citem, A(1)); break;
#endif
#if CONT == 0
        case CTOR_N:
            if (o.a[4] == 1) { // integral dispatch of the range constructor
#if !IS_CLASS
                c = new (slot_mem(w.slot)) CB(int(o.a[0]), int(item), A(1));
#endif
            } else c = new (slot_mem(w.slot)) CB(std::size_t(o.a[0]), citem, A(1));
            break;
#endif
        case CTOR_CN:
            if (o.a[4] == 1) {
#if !IS_CLASS && CONT == 0
                c = new (slot_mem(w.slot)) CB(mkcap(o.a[0], o.a[2]), int(o.a[1]), int(item), A(1));
#endif
            } else c = new (slot_mem(w.slot)) CB(mkcap(o.a[0], o.a[2]), std::size_t(o.a[1]), citem, A(1));
            break;
#endif
        case CTOR_R: n = o.a[1]; BY_CAT(o.a[0], c = new (slot_mem(w.slot)) CB(f, l, A(1))); break;
        case CTOR_CR: n = o.a[2]; BY_CAT(o.a[0], c = new (slot_mem(w.slot)) CB(mkcap(o.a[1], o.a[3]), f, l, A(1))); break;
        case CTOR_GEO: c = new (slot_mem(w.slot)) CB(mkcap(o.a[0], o.a[3]), A(1)); build_geo(*c, o.a[1], o.a[2]); break;
        case PUSHB:
#if HAS_COPY
            if (o.a[0] == 0) c->push_back(citem); else
#endif
            if (o.a[0] == 1) c->push_back(MV(item)); else c->push_back();
            break;
        case PUSHF:
#if HAS_COPY
            if (o.a[0] == 0) c->push_front(citem); else
#endif
            if (o.a[0] == 1) c->push_front(MV(item)); else c->push_front();
            break;
#if HAS_COPY
        case SELFPUSHB: { const CB& cc = *c; c->push_back(cc[o.a[0]]); break; }
        case SELFPUSHF: { const CB& cc = *c; c->push_front(cc[o.a[0]]); break; }
#endif
        case POPB: c->pop_back(); break;
        case POPF: c->pop_front(); break;
        case INS1: {
#if HAS_COPY
            if (o.a[0] == 0) { It r = c->insert(c->begin() + o.a[1], citem); note_ret(*c, r); break; }
#endif
            if (o.a[0] == 1) { It r = c->insert(c->begin() + o.a[1], MV(item)); note_ret(*c, r); }
            else { It r = c->insert(c->begin() + o.a[1]); note_ret(*c, r); }
            break; }
        case RINS1: {
#if HAS_COPY
            if (o.a[0] == 0) { It r = c->rinsert(c->begin() + o.a[1], citem); note_ret(*c, r); break; }
#endif
            if (o.a[0] == 1) { It r = c->rinsert(c->begin() + o.a[1], MV(item)); note_ret(*c, r); }
            else { It r = c->rinsert(c->begin() + o.a[1]); note_ret(*c, r); }
            break; }
#if HAS_COPY
        case INSN:
#if !IS_CLASS
            if (o.a[2] == 1) { c->insert(c->begin() + o.a[0], int(o.a[1]), int(item)); break; }
#endif
            c->insert(c->begin() + o.a[0], std::size_t(o.a[1]), citem); break;
        case RINSN:
#if !IS_CLASS
            if (o.a[2] == 1) { c->rinsert(c->begin() + o.a[0], int(o.a[1]), int(item)); break; }
#endif
            c->rinsert(c->begin() + o.a[0], std::size_t(o.a[1]), citem); break;
#endif
#if HAS_COPY
        case INSR: n = o.a[2]; BY_CAT(o.a[0], c->insert(c->begin() + o.a[1], f, l)); break;
        case RINSR: n = o.a[2]; BY_CAT(o.a[0], c->rinsert(c->begin() + o.a[1], f, l)); break;
#endif
        case ERASE1: { It r = c->erase(c->begin() + o.a[0]); note_ret(*c, r); break; }
        case ERASER: { It r = c->erase(c->begin() + o.a[0], c->begin() + o.a[1]); note_ret(*c, r); break; }
        case RERASE1: { It r = c->rerase(c->begin() + o.a[0]); note_ret(*c, r); break; }
        case RERASER: { It r = c->rerase(c->begin() + o.a[0], c->begin() + o.a[1]); note_ret(*c, r); break; }
#if CONT == 0
        case ERASEB: c->erase_begin(o.a[0]); break;
        case ERASEE: c->erase_end(o.a[0]); break;
#endif
        case CLEAR: c->clear(); break;
        case SETCAP: c->set_capacity(mkcap(o.a[0], o.a[1])); break;
        case RSETCAP: c->rset_capacity(mkcap(o.a[0], o.a[1])); break;
#if HAS_COPY
        case RESIZE: if (o.a[1]) c->resize(o.a[0], citem); else c->resize(o.a[0]); break;
        case RRESIZE: if (o.a[1]) c->rresize(o.a[0], citem); else c->rresize(o.a[0]); break;
        case ASSIGN_N:
#if !IS_CLASS
            if (o.a[4] == 1) { c->assign(int(o.a[0]), int(item)); break; }
#endif
            c->assign(std::size_t(o.a[0]), citem); break;
        case ASSIGN_CN:
#if !IS_CLASS
            if (o.a[4] == 1) { c->assign(mkcap(o.a[0], o.a[2]), int(o.a[1]), int(item)); break; }
#endif
            c->assign(mkcap(o.a[0], o.a[2]), std::size_t(o.a[1]), citem); break;
#endif
        case ASSIGN_R: n = o.a[1]; BY_CAT(o.a[0], c->assign(f, l)); break;
        case ASSIGN_CR: n = o.a[2]; BY_CAT(o.a[0], c->assign(mkcap(o.a[1], o.a[3]), f, l)); break;
        case LINEARIZE: g_ret_ptr = raw(c->linearize()); break;
#if !(FANCY && defined MC_REFERENCE)
        case ROTATE: c->rotate(c->begin() + o.a[0]); break;
#endif
#if HAS_COPY
        case COPYASG: { CB& r = (*c = *b); if (&r != c) fail(T_SEM, "operator= does not return *this"); break; }
        case SELFASG: if (o.a[0] == 0) { const CB& cc = *c; CB& r = (*c = cc); if (&r != c) fail(T_SEM, "operator= does not return *this"); } else c->swap(*c); break;
        case COPYCTOR: b = new (slot_mem(x_slot)) CB(*c); break;
#else
        case SELFASG: c->swap(*c); break;
#endif
#if MC_CXX11
        case MOVEASG: { CB& r = (*c = boost::move(*b)); if (&r != c) fail(T_SEM, "operator= does not return *this"); break; }
        case MOVECTOR: b = new (slot_mem(x_slot)) CB(boost::move(*c)); break;
#endif
        case SWAP: if (o.a[4] & 2) { using std::swap; swap(*c, *b); } else c->swap(*b); break;
        case X_OP: x_step(c, o, w.m); break;
        default: std::fprintf(stderr, "operation %s not available in this configuration\n", code_name[o.code]); std::exit(2);
    }
}
inline bool op_available(int code) {
#if !HAS_COPY
    if (code == CTOR_FILL || code == CTOR_N || code == CTOR_CN || code == INSN || code == RINSN || code == RESIZE || code == RRESIZE ||
        code == ASSIGN_N || code == ASSIGN_CN || code == COPYASG || code == COPYCTOR || code == SELFPUSHB || code == SELFPUSHF || code == X_OP) return false;
#endif
#if !MC_CXX11
    if (code == MOVEASG || code == MOVECTOR) return false;
#endif
#if CONT == 1
    if (code == ERASEB || code == ERASEE || code == CTOR_N) return false;
#else
    if (code == CTOR_FILL) return false;
#endif
    return true;
}

// extreme arguments: v is chosen from x_values; requests must be clamped or refused before damage
static void x_step(CB*& c, const Op& o, const Model& m) {
#if HAS_COPY
    std::size_t v = x_values(m)[o.a[1]];
    E item(ID_NEW); const E& citem = item;
    switch (o.a[0]) {
        case X_AT: { E& r = c->at(v); g_ret = id_of(r); break; }
        case X_CAT: { const CB& cc = *c; const E& r = cc.at(v); g_ret = id_of(r); break; }
#if CONT == 0
        case X_SETCAP: c->set_capacity(v); break;
        case X_RSETCAP: c->rset_capacity(v); break;
        case X_CTOR_CAP: { CB t(v, A(3)); g_ret = int(t.capacity() == v); break; }
#else
        case X_SETCAP: c->set_capacity(Cap(v, o.a[3] ? v : 0)); break;
        case X_RSETCAP: c->rset_capacity(Cap(v, o.a[3] ? v : 0)); break;
        case X_CTOR_CAP: { CB t(Cap(v, o.a[3] ? v : 0), A(3)); g_ret = int(t.capacity() == v); break; }
#endif
        case X_RESIZE: c->resize(v, citem); break;
        case X_RRESIZE: c->rresize(v, citem); break;
        case X_INSN: c->insert(c->begin() + o.a[2], v, citem); break;
        case X_RINSN: c->rinsert(c->begin() + o.a[2], v, citem); break;
        case X_INSR: c->insert(c->begin() + o.a[2], GenIt(0), GenIt(DiffT(v))); break;
        case X_RINSR: c->rinsert(c->begin() + o.a[2], GenIt(0), GenIt(DiffT(v))); break;
        case X_ASSIGN_N: c->assign(v, citem); break;
#if CONT == 0
        case X_ASSIGN_CN: c->assign(Cap(v), std::size_t(0), citem); break;
        case X_CTOR_N: { CB t(v, citem, A(3)); g_ret = int(t.size() == v); break; }
        case X_CTOR_R: { CB t(Cap(2), GenIt(0), GenIt(DiffT(v)), A(3)); g_ret = int(t.size() == std::min<std::size_t>(2, v)); break; }
#else
        case X_ASSIGN_CN: c->assign(Cap(v, v), std::size_t(0), citem); break;
        case X_CTOR_N: { CB t(Cap(v), citem, A(3)); g_ret = int(t.size() == v); break; }
        case X_CTOR_R: { CB t(Cap(2), GenIt(0), GenIt(DiffT(v)), A(3)); g_ret = int(t.size() == std::min<std::size_t>(2, v)); break; }
#endif
    }
#else
    (void)c; (void)o; (void)m;
#endif
}

// ---------------------------------------------------------------- checks on one container
static const Blk* blk_of(const CB& c) { // the block holding the elements, if any element
    if (c.empty()) return 0;
    const E* p = &c[0];
    for (size_t i = 0; i < g_blks.size(); ++i) if (g_blks[i].live && (char*)p >= g_blks[i].p && (char*)p < g_blks[i].p + g_blks[i].n * g_blks[i].esz) return &g_blks[i];
    return 0;
}
static std::string ids_str(const std::vector<int>& v) {
    std::string s = "["; char b[16];
    for (size_t i = 0; i < v.size(); ++i) { std::snprintf(b, sizeof b, "%s%d", i ? "," : "", v[i]); s += b; }
    return s + "]";
}
static std::vector<int> content(const CB& c) {
    std::vector<int> r; size_t n = c.size(); if (n > 4096) n = 4096;
    for (size_t i = 0; i < n; ++i) r.push_back(id_of(c[i]));
    return r;
}

// content/observers versus model; returns false when something is off
static void check_state(CB& mc_, const Model& m, const char* who) {
    CB& c = mc_; const CB& cc = mc_;
    size_t before = g_viols.size();
    if (c.size() != m.v.size()) { fail(T_SEM, "%s: size %lu, expected %lu %s", who, (unsigned long)c.size(), (unsigned long)m.v.size(), ids_str(m.v).c_str()); return; }
    if (m.cap >= 0) {
        if (cap_of(c) != m.cap) fail(T_SEM, "%s: capacity %d, expected %d", who, cap_of(c), m.cap);
        if (min_of(c) != m.min) fail(T_SEM, "%s: minimum capacity %d, expected %d", who, min_of(c), m.min);
    }
    if (rcap_of(c) < c.size()) fail(T_SEM, "%s: size %lu exceeds capacity %lu", who, (unsigned long)c.size(), (unsigned long)rcap_of(c));
    if (c.empty() != (c.size() == 0)) fail(T_OBS, "%s: empty() wrong", who);
    if (c.full() != (rcap_of(c) == c.size())) fail(T_OBS, "%s: full() wrong", who);
    if (c.reserve() != rcap_of(c) - c.size()) fail(T_OBS, "%s: reserve() is %lu, expected %lu", who, (unsigned long)c.reserve(), (unsigned long)(rcap_of(c) - c.size()));
    if (g_viols.size() != before) return;
    size_t n = c.size();
#if IS_CLASS
    for (size_t i = 0; i < n; ++i) if (!alive(cc[i])) { fail(T_LIFE, "%s: element %lu is not a live object", who, (unsigned long)i); break; }
#endif
    std::vector<int> got = content(c);
    if (got != m.v) { fail(T_SEM, "%s: content %s, expected %s", who, ids_str(got).c_str(), ids_str(m.v).c_str()); return; }
    size_t k = 0; // by iteration
    for (CIt it = cc.begin(); it != cc.end() && k <= n; ++it, ++k) if (k < n && &*it != &cc[k]) fail(T_OBS, "%s: iteration disagrees with indexing at %lu", who, (unsigned long)k);
    if (k != n) fail(T_OBS, "%s: iteration visits %lu elements of %lu", who, (unsigned long)k, (unsigned long)n);
    if (n) {
        if (&cc.front() != &cc[0] || &c.front() != &cc[0]) fail(T_OBS, "%s: front() is not the first element", who);
        if (&cc.back() != &cc[n - 1] || &c.back() != &cc[n - 1]) fail(T_OBS, "%s: back() is not the last element", who);
    }
    // array views
    std::pair<const E*, size_t> v1(raw(cc.array_one().first), cc.array_one().second), v2(raw(cc.array_two().first), cc.array_two().second);
    std::pair<E*, size_t> w1(raw(c.array_one().first), c.array_one().second), w2(raw(c.array_two().first), c.array_two().second);
    if (v1.second != w1.second || v2.second != w2.second || (v1.second && v1.first != w1.first) || (v2.second && v2.first != w2.first)) fail(T_VIEW, "%s: const and non-const array views differ", who);
    if (v1.second + v2.second != n) fail(T_VIEW, "%s: array views hold %lu+%lu elements of %lu", who, (unsigned long)v1.second, (unsigned long)v2.second, (unsigned long)n);
    else {
        for (size_t i = 0; i < n; ++i) {
            const E* p = i < v1.second ? v1.first + i : v2.first + (i - v1.second);
            if (p != &cc[i]) { fail(T_VIEW, "%s: array views do not list the elements in order (index %lu)", who, (unsigned long)i); break; }
        }
        if (n && c.is_linearized() != (v2.second == 0)) fail(T_VIEW, "%s: is_linearized() is %d with array_two size %lu", who, int(c.is_linearized()), (unsigned long)v2.second);
        if (!n && !c.is_linearized()) fail(T_VIEW, "%s: is_linearized() is false for an empty container", who);
    }
    // storage
    if (n) {
        const Blk* b = blk_of(c);
        if (!b) { fail(T_LIFE, "%s: elements outside of allocated memory", who); return; }
        size_t off = (reinterpret_cast<const char*>(&cc[0]) - b->p) / sizeof(E);
        for (size_t i = 0; i < n; ++i)
            if (reinterpret_cast<const char*>(&cc[i]) != b->p + ((off + i) % b->n) * sizeof(E)) { fail(T_MEM, "%s: elements are not in circular order in the block", who); break; }
        if (b->aid != c.get_allocator().id) fail(T_ALLOC, "%s: memory belongs to allocator %ld, container holds %ld", who, b->aid & 255, c.get_allocator().id & 255);
#if CONT == 0
        if (b->n != c.capacity()) fail(T_MEM, "%s: storage holds %lu elements, capacity is %lu", who, (unsigned long)b->n, (unsigned long)c.capacity());
#else
        if (b->n > size_t(cap_of(c))) fail(T_MEM, "%s: %lu elements allocated, capacity is %d", who, (unsigned long)b->n, cap_of(c));
#endif
    }
    if (m.aid && c.get_allocator().id != m.aid) fail(T_ALLOC, "%s: get_allocator() is %ld, expected %ld", who, c.get_allocator().id & 255, m.aid & 255);
}

// all live blocks and elements are accounted for by the containers a (and b)
static void check_resources(CB* a, CB* b) {
    size_t nblk = 0; const Blk* last[4] = {0,0,0,0};
    for (size_t i = 0; i < g_blks.size(); ++i) if (g_blks[i].live) { if (nblk < 4) last[nblk] = &g_blks[i]; ++nblk; if (!blk_guards_ok(g_blks[i])) fail(T_LIFE, "write outside of the allocated block"); }
#if CONT == 0
    size_t want = (a && a->capacity() ? 1 : 0) + (b && b->capacity() ? 1 : 0);
    if (nblk != want) fail(nblk > want ? T_ALLOC : T_MEM, "%lu memory blocks held, expected %lu", (unsigned long)nblk, (unsigned long)want);
    if (a && !b && nblk == 1 && last[0]->n != a->capacity()) fail(T_MEM, "block of %lu elements for capacity %lu", (unsigned long)last[0]->n, (unsigned long)a->capacity());
#else
    size_t most = (a ? 1 : 0) + (b ? 1 : 0);
    if (nblk > most) fail(T_ALLOC, "%lu memory blocks held by %lu containers", (unsigned long)nblk, (unsigned long)most);
    (void)last;
#endif
#if IS_CLASS
    long want_live = (a ? long(a->size()) : 0) + (b ? long(b->size()) : 0);
    if (g_blk_live != want_live) fail(T_LIFE, "%ld live elements in storage, containers hold %ld", g_blk_live, want_live);
#endif
#if MCDEBUG
    if (!g_fault_ctx) for (size_t i = 0; i < g_blks.size(); ++i) if (g_blks[i].live) { // storage without an element is recognizable
        const Blk& k = g_blks[i]; std::vector<char> used(k.n);
        for (int x = 0; x < 2; ++x) if (const CB* c = x ? b : a) for (size_t j = 0; j < c->size(); ++j) {
            size_t at = size_t((const char*)&(*c)[j] - k.p); if (at < k.n * k.esz) used[at / k.esz] = 1;
        }
        for (size_t j = 0; j < k.n; ++j) if (!used[j]) for (size_t y = 0; y < k.esz; ++y)
            if ((unsigned char)k.p[j * k.esz + y] != 0xcc) { fail(T_FILL, "unused slot %lu of %lu holds %02x", (unsigned long)j, (unsigned long)k.n, (unsigned char)k.p[j * k.esz + y]); j = k.n - 1; break; }
    }
#endif
}
static size_t so_alloc(const CB*) { // allocated elements when exactly one container exists
    for (size_t i = g_blks.size(); i-- > 0;) if (g_blks[i].live) return g_blks[i].n;
    return 0;
}

// give the elements canonical ids 1..n
static void relabel(CB& c, Model& m) {
    for (int i = 0; i < m.size(); ++i) { set_id(c[i], i + 1); m.v[i] = i + 1; }
}

} // namespace mc
#endif
