// Runtime of the explicit-state checker: violation records, fault points, the recording allocator,
// element types with exact liveness tracking, and test iterators.  C++03-compatible on purpose, so
// that the same harness explores the library in every language mode.
#ifndef MC_RT_HPP
#define MC_RT_HPP
#include <cstddef>
#include <cstdio>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <csetjmp>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <iterator>
#include <stdexcept>
#include <exception>
#include <algorithm>
#include <stdint.h>
#include <sys/time.h>
#include <unistd.h>

// 0 int, 1 copy-only class, 2 copy + noexcept move, 3 copy + throwing move, 4 move-only (noexcept),
// 5 copy-only class without a destructor: its life ends in Allocator::destroy (needs an allocator that has one)
#ifndef ELEM
#define ELEM 0
#endif
// a build without exceptions: boost::throw_exception is supplied by the user and leaves by longjmp here
#if defined(__EXCEPTIONS) || defined(__cpp_exceptions)
#define MC_NOEXC 0
#else
#define MC_NOEXC 1
#endif
#if __cplusplus >= 201103L
#define MC_CXX11 1
#define MC_NOEXCEPT noexcept
#else
#define MC_CXX11 0
#define MC_NOEXCEPT
#endif
// 1: Allocator::pointer is boost::interprocess::offset_ptr, the container and its storage live in memory that is mapped at
// two addresses, and after every operation the address in use changes (the other one becomes inaccessible)
#ifndef FANCY
#define FANCY 0
#endif
#if FANCY
#include <boost/interprocess/offset_ptr.hpp>
#include <sys/mman.h>
#endif
#define HAS_COPY (ELEM != 4)
#define HAS_MOVE (MC_CXX11 && ELEM >= 2 && ELEM <= 4)
#define IS_CLASS (ELEM != 0)

namespace mc {

typedef unsigned long long u64;

// ---------------------------------------------------------------- violations
enum Tag {
    T_SEM = 1,      // content, size, capacity, return value
    T_LIFE = 2,     // element lifetime
    T_ALLOC = 4,    // allocator discipline
    T_EXC = 8,      // anything wrong after/because of an injected fault; undocumented throws
    T_STRONG = 16,  // strong guarantee broken
    T_MOVE = 32,    // copy/move policy
    T_ITER = 64,    // iterator/reference stability
    T_VIEW = 128,   // array views, linearize, rotate
    T_OBS = 256,    // observers / iterator algebra
    T_MEM = 512,    // storage behaviour (fixed block, space-optimized policy)
    T_COST = 1024,  // complexity
    T_DEBUG = 2048, // debug support: missed or spurious reports
    T_CRASH = 4096, // crash, hang, terminate
    T_ADDR = 8192,  // element relocated by push/pop
    T_LIMIT = 16384, // extreme arguments
    T_FILL = 32768  // debug support: unused storage is filled with a pattern
};
inline const char* tag_name(unsigned t) {
    switch (t) {
        case T_SEM: return "SEM"; case T_LIFE: return "LIFE"; case T_ALLOC: return "ALLOC"; case T_EXC: return "EXC";
        case T_STRONG: return "STRONG"; case T_MOVE: return "MOVE"; case T_ITER: return "ITER"; case T_VIEW: return "VIEW";
        case T_OBS: return "OBS"; case T_MEM: return "MEM"; case T_COST: return "COST"; case T_DEBUG: return "DEBUG";
        case T_CRASH: return "CRASH"; case T_ADDR: return "ADDR"; case T_LIMIT: return "LIMIT"; case T_FILL: return "FILL";
    }
    return "?";
}
inline unsigned tag_by_name(const std::string& s) {
    for (unsigned t = 1; t <= T_FILL; t <<= 1) if (s == tag_name(t)) return t;
    std::fprintf(stderr, "bad tag %s\n", s.c_str()); std::exit(2);
}

struct Viol { unsigned tag; std::string msg; unsigned orig; Viol() : tag(0), orig(0) {} };
static std::vector<Viol> g_viols;     // of the current run
static bool g_quiet = false;          // during rebuilds of known-clean prefixes
static bool g_fault_ctx = false;      // current history contains an injected fault

// memory taken from the global heap while the library is at work
static bool g_in_op = false; static long g_heap = 0;
struct Harness { bool was; Harness() : was(g_in_op) { g_in_op = false; } ~Harness() { g_in_op = was; } };

static unsigned g_listen = ~0u; static unsigned long g_soft_ignored = 0;
static const unsigned T_SOFT = T_MEM | T_COST | T_MOVE | T_ADDR | T_ITER | T_FILL;
static void fail(unsigned tag, const char* fmt, ...) {
    if (g_quiet) return;
    Harness harness;
    if (g_viols.size() > 20) return;
    // what leaves content and resources intact and is some other check's business does not end the history here
    unsigned as = g_fault_ctx && tag != T_MOVE ? tag | T_EXC : tag;
    if ((tag & T_SOFT) && !(as & g_listen)) { ++g_soft_ignored; return; }
    char buf[600];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    Viol v; v.tag = v.orig = tag; v.msg = buf;
    if (g_fault_ctx && tag != T_STRONG && tag != T_MOVE) v.tag = T_EXC;
    g_viols.push_back(v);
}

// ---------------------------------------------------------------- fault points
enum FpKind { FP_COPY, FP_ASSIGN, FP_MOVE, FP_MASSIGN, FP_DEFAULT, FP_ALLOC, FP_ITER, FP_CMP, FP_KINDS };
inline const char* fp_name(int k) {
    static const char* n[] = {"copy-construct", "copy-assign", "move-construct", "move-assign", "default-construct", "allocate", "iterator", "compare"};
    return n[k];
}
struct Injected { int kind; };
struct InjectedAlloc : std::bad_alloc {};
static int g_fp_count = 0, g_fp_target = 0, g_fp_thrown = -1;
static bool g_armed = false;
static int g_fp_kind[FP_KINDS];
static long g_work = 0;               // guards against endless element work in one operation
static long WORK_LIMIT = 2000000;
static sigjmp_buf g_jmp;
static volatile int g_jmp_ok = 0;
static void bail(const char* why) {
    if (g_jmp_ok) { g_jmp_ok = 0; (void)why; siglongjmp(g_jmp, 100); }
    std::fprintf(stderr, "bail: %s\n", why); _exit(3);
}
static void sched_point_hook(int) ;
static void fault_point(int kind) {
    if (++g_work > WORK_LIMIT) bail("endless");
    sched_point_hook(kind);
    if (!g_armed) return;
    ++g_fp_kind[kind];
    ++g_fp_count;
    if (g_fp_count == g_fp_target) {
        g_fp_thrown = kind;
#if MC_NOEXC
        abort();
#else
        if (kind == FP_ALLOC) throw InjectedAlloc();
        Injected i; i.kind = kind; throw i;
#endif
    }
}

static bool fault_next() { return g_armed && g_fp_count + 1 == g_fp_target; }

// ---------------------------------------------------------------- arena and blocks
static const size_t ARENA = 1 << 20;
static const size_t GUARD = 32;
#if FANCY
static const size_t ABASE = 8192;   // the containers themselves live below
static char* g_views[2]; static int g_view = 0;
static char* map_views() {
    int fd = memfd_create("mc", 0);
    if (fd < 0 || ftruncate(fd, ARENA)) { std::perror("memfd"); std::exit(2); }
    // the views are apart by different amounts in every build of an address: neither is at a fixed place
    for (int i = 0; i < 2; ++i) { g_views[i] = (char*)mmap(0, ARENA, i ? PROT_NONE : PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (g_views[i] == (char*)MAP_FAILED) { std::perror("mmap"); std::exit(2); } }
    close(fd); return g_views[0];
}
static char* g_arena = map_views();
#else
static const size_t ABASE = 0;
static char g_arena[ARENA] __attribute__((aligned(64)));
#endif
static unsigned char g_live[ARENA / 4]; // 1 per 4-byte granule where a live element starts
static size_t g_top = ABASE;
struct Blk { char* p; size_t n, esz; long aid; bool live; };
static std::vector<Blk> g_blks;
static long g_ext_live = 0, g_blk_live = 0;
static int g_allocs = 0, g_deallocs = 0;
static size_t g_alloc_total = 0;
static int g_in_construct = 0;   // inside Allocator::construct/destroy of an element
static bool g_need_construct = false; // allocator has construct/destroy: they must be used
static u64 g_alloc_constructs = 0, g_alloc_destroys = 0;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif
#ifdef MC_ASAN
// under the address sanitizer everything in the arena except the blocks handed out is poisoned
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#define MC_POISON(p, n) __asan_poison_memory_region(p, n)
#define MC_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#define MC_NOSAN __attribute__((no_sanitize_address))
#else
#define MC_POISON(p, n) ((void)0)
#define MC_UNPOISON(p, n) ((void)0)
#define MC_NOSAN
#endif
static bool in_arena(const void* p) { return (const char*)p >= g_arena && (const char*)p < g_arena + ARENA; }
static size_t gran(const void* p) { return ((const char*)p - g_arena) >> 2; }

static void rt_reset() {
    if (g_top > ABASE) { std::memset(g_live, 0, g_top / 4 + 64); MC_POISON(g_arena, g_top); }
    g_top = ABASE; g_blks.clear(); g_ext_live = 0; g_blk_live = 0; g_allocs = g_deallocs = 0; g_alloc_total = 0;
    g_armed = false; g_fp_target = 0; g_fp_count = 0; g_work = 0; g_in_construct = 0; g_in_op = false;
}
#if FANCY
// the memory is now accessible at the other address only
static std::ptrdiff_t rt_relocate() {
    char* o = g_views[g_view]; g_view = 1 - g_view; g_arena = g_views[g_view];
    if (mprotect(g_arena, ARENA, PROT_READ | PROT_WRITE) || mprotect(o, ARENA, PROT_NONE)) { std::perror("mprotect"); std::exit(2); }
    for (size_t i = 0; i < g_blks.size(); ++i) g_blks[i].p += g_arena - o;
    return g_arena - o;
}
#endif
static const size_t REFUSE = 1 << 14; // the allocator refuses larger requests (in elements)

#if MC_NOEXC
static jmp_buf g_exc_jmp; static bool g_exc_jmp_on = false; static std::string g_exc_what;
static void leave(int kind) { if (!g_exc_jmp_on) abort(); g_exc_jmp_on = false; longjmp(g_exc_jmp, kind); }
static void throw_bad_alloc() { leave(4); }
// runs f; 0, or what it reported through boost::throw_exception (2 out_of_range, 3 length_error, 4 bad_alloc, 5 other)
template <class F> __attribute__((noinline)) int guarded(F& f) { int k = setjmp(g_exc_jmp); if (!k) { g_exc_jmp_on = true; f(); g_exc_jmp_on = false; } return k; }
#else
static void throw_bad_alloc() { throw std::bad_alloc(); }
#endif

static void* blk_alloc(size_t n, size_t esz, long aid) {
    fault_point(FP_ALLOC);
    if (n > REFUSE || g_top + n * esz + 2 * GUARD + 64 > ARENA) throw_bad_alloc();
    size_t bytes = n * esz;
    char* p = g_arena + g_top + GUARD;
    MC_UNPOISON(p - GUARD, bytes + 2 * GUARD);
    std::memset(p - GUARD, 0xFD, GUARD);
    std::memset(p, 0xCD, bytes);
    std::memset(p + bytes, 0xFD, GUARD);
    MC_POISON(p - GUARD, GUARD); MC_POISON(p + bytes, GUARD);
    g_top += ((bytes + 15) & ~size_t(15)) + 2 * GUARD;
    Blk b; b.p = p; b.n = n; b.esz = esz; b.aid = aid; b.live = true;
    { Harness harness; g_blks.push_back(b); }
    ++g_allocs; g_alloc_total += n;
    return p;
}
static int blk_live_slots(const Blk& b) {
    int c = 0;
    for (size_t i = 0; i < b.n; ++i) c += g_live[gran(b.p + i * b.esz)];
    return c;
}
MC_NOSAN static bool blk_guards_ok(const Blk& b) {
    for (size_t i = 0; i < GUARD; ++i)
        if ((unsigned char)b.p[-(long)GUARD + (long)i] != 0xFD || (unsigned char)b.p[b.n * b.esz + i] != 0xFD) return false;
    return true;
}
static void blk_free(void* p, size_t n, size_t esz, long aid) {
    for (size_t i = 0; i < g_blks.size(); ++i) {
        Blk& b = g_blks[i];
        if (b.p == p) {
            if (!b.live) { fail(T_ALLOC, "memory block released twice"); return; }
            if (b.n != n || b.esz != esz) fail(T_ALLOC, "block of %lu elements released as %lu elements", (unsigned long)b.n, (unsigned long)n);
            if (b.aid != aid) fail(T_ALLOC, "block of allocator %ld released to allocator %ld", b.aid & 255, aid & 255);
            if (!blk_guards_ok(b)) fail(T_LIFE, "write outside of the allocated block");
            int l = blk_live_slots(b);
            if (l) fail(T_LIFE, "block released with %d live element(s) inside", l);
            b.live = false;
            std::memset(b.p, 0xDD, b.n * b.esz);
            MC_POISON(b.p, b.n * b.esz);
            ++g_deallocs;
            return;
        }
    }
    fail(T_ALLOC, "release of a block never obtained from the allocator");
}

// ---------------------------------------------------------------- allocator
#ifndef ALLOC_CONSTRUCT
#define ALLOC_CONSTRUCT 0
#endif
struct Life;
static void life_die(Life* l);
inline void alloc_destroyed(void*) {}
#if ELEM == 5
inline void alloc_destroyed(Life* p) { ++g_in_construct; life_die(p); --g_in_construct; }
#endif
static const long AID = 0x7A11C000L;
static size_t g_max_size = 0; // 0: default
#ifndef SZ
#define SZ 64           // width of the allocator's size_type
#endif
#if SZ == 32
typedef unsigned int SizeT; typedef int DiffT;
#else
typedef std::size_t SizeT; typedef std::ptrdiff_t DiffT;
#endif
template <class T> struct TA {
    typedef T value_type;
#if FANCY
    typedef boost::interprocess::offset_ptr<T> pointer;
    typedef boost::interprocess::offset_ptr<const T> const_pointer;
#else
    typedef T* pointer;
    typedef const T* const_pointer;
#endif
    typedef T& reference;
    typedef const T& const_reference;
    typedef SizeT size_type;
    typedef DiffT difference_type;
    template <class U> struct rebind { typedef TA<U> other; };
    long id;
    TA() MC_NOEXCEPT : id(AID) {}
    explicit TA(int i) MC_NOEXCEPT : id(AID + i) {}
    TA(const TA& o) MC_NOEXCEPT : id(o.id) {}
    template <class U> TA(const TA<U>& o) MC_NOEXCEPT : id(o.id) {}
    TA& operator=(const TA& o) MC_NOEXCEPT { id = o.id; return *this; }
    pointer allocate(size_type n) { if (n > max_size()) fail(T_LIMIT, "the allocator is asked for more than its max_size()"); return pointer(static_cast<T*>(blk_alloc(n, sizeof(T), id))); }
    void deallocate(pointer p, size_type n) { blk_free(&*p, n, sizeof(T), id); }
    size_type max_size() const { return g_max_size ? size_type(g_max_size) : size_type(-1) / 2 / sizeof(T); }
    pointer address(reference r) const { return &r; }
    const_pointer address(const_reference r) const { return &r; }
#if ALLOC_CONSTRUCT && MC_CXX11
    template <class U, class... A> void construct(U* p, A&&... a) {
        ++g_alloc_constructs;
        struct In { In() { ++g_in_construct; } ~In() { --g_in_construct; } } in;
        ::new ((void*)p) U(static_cast<A&&>(a)...);
    }
    template <class U> void destroy(U* p) {
        ++g_alloc_destroys;
        alloc_destroyed(p);
        struct In { In() { ++g_in_construct; } ~In() { --g_in_construct; } } in;
        p->~U();
    }
#elif !MC_CXX11
#if MC_NOEXC
    void construct(pointer p, const T& v) { ++g_alloc_constructs; ++g_in_construct; ::new ((void*)&*p) T(v); --g_in_construct; }
#else
    void construct(pointer p, const T& v) { ++g_alloc_constructs; ++g_in_construct; try { ::new ((void*)&*p) T(v); } catch (...) { --g_in_construct; throw; } --g_in_construct; }
#endif
    void destroy(pointer p) { ++g_alloc_destroys; alloc_destroyed(&*p); ++g_in_construct; p->~T(); --g_in_construct; }
#endif
};
template <class T, class U> bool operator==(const TA<T>& a, const TA<U>& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(const TA<T>& a, const TA<U>& b) { return a.id != b.id; }

// ---------------------------------------------------------------- element types
struct Counters { long dctor, ctor, cctor, mctor, casg, masg, dtor; };
static Counters g_cnt;
static long cnt_total() { return g_cnt.dctor + g_cnt.cctor + g_cnt.mctor + g_cnt.casg + g_cnt.masg + g_cnt.dtor; }

static const int ID_DEFAULT = ELEM ? 7 : 0, ID_MOVED = -1; // int() is 0
static const unsigned MAGIC = 0x5AFEC0DEu, DEAD = 0xDEADBEEFu;

struct Life { // shared by all class element types
    long self; int id; unsigned magic;
#ifdef PAD
    int pad[PAD]; // large elements
#endif
};
static long life_at(const Life* l) { return in_arena(l) ? long((const char*)l - g_arena) : long(l); }
static bool life_ok(const Life* l) {
    if (in_arena(l)) return g_live[gran(l)] == 1 && l->magic == MAGIC && l->self == life_at(l);
    return l->magic == MAGIC && l->self == life_at(l);
}
static void life_born(Life* l, int id) {
    if (in_arena(l)) {
        if (g_live[gran(l)]) fail(T_LIFE, "element constructed over a live element (id %d)", l->id);
        else { g_live[gran(l)] = 1; ++g_blk_live; }
        bool in_blk = false;
        for (size_t i = 0; i < g_blks.size(); ++i) {
            const Blk& b = g_blks[i];
            if (b.live && (char*)l >= b.p && (char*)l < b.p + b.n * b.esz) { in_blk = true; break; }
        }
        if (!in_blk) fail(T_LIFE, "element constructed outside of allocated memory");
        if (g_need_construct && !g_in_construct) fail(T_ALLOC, "element constructed in the storage bypassing the allocator's construct()");
    } else if (ELEM != 5) ++g_ext_live;
    l->self = life_at(l); l->id = id; l->magic = MAGIC;
}
static void life_use(const Life* l, const char* what) {
    if (!life_ok(l)) fail(T_LIFE, "%s of an element that is not alive", what);
}
static void life_die(Life* l) {
    if (!life_ok(l)) { fail(T_LIFE, "destruction of an element that is not alive"); return; }
    if (in_arena(l)) {
        g_live[gran(l)] = 0; --g_blk_live;
        if (g_need_construct && !g_in_construct) fail(T_ALLOC, "element destroyed in the storage bypassing the allocator's destroy()");
    } else if (ELEM != 5) --g_ext_live;
    volatile unsigned* m = &l->magic; *m = DEAD;
    volatile int* i = &l->id; *i = -99;
}

#ifndef MK // ELEM 3: which of its moves may throw (0: both, 1: the construction only, 2: the assignment only)
#define MK 0
#endif
inline void move_point(bool may_throw, int k) {
    if (may_throw) fault_point(k);
    else { if (++g_work > WORK_LIMIT) bail("endless"); sched_point_hook(k); }
}
#if ELEM == 0 && defined(PAD)
struct E { // a large trivially copyable element
    int v, w[PAD];
    E() : v() { for (int i = 0; i < PAD; ++i) w[i] = v; }
    E(int i) : v(i) { for (int k = 0; k < PAD; ++k) w[k] = v; }
    explicit operator int() const { return v; }
};
inline bool operator==(const E& a, const E& b) { return a.v == b.v; }
inline bool operator<(const E& a, const E& b) { return a.v < b.v; }
inline int id_of(const E& e) { for (int i = 0; i < PAD; ++i) if (e.w[i] != e.v) return -777; return e.v; }
inline void set_id(E& e, int v) { e = E(v); }
inline bool alive(const E&) { return true; }
#elif ELEM == 0
#ifndef VT
#define VT int
#endif
typedef VT E;
inline int id_of(E v) { return int(v); }
inline void set_id(E& e, int v) { e = E(v); }
inline bool alive(const E&) { return true; }
#else
struct E : Life {
    E() { fault_point(FP_DEFAULT); ++g_cnt.dctor; life_born(this, ID_DEFAULT); }
    E(int i) { ++g_cnt.ctor; life_born(this, i); } // conversion from int never throws
#if HAS_COPY
    E(const E& o) : Life() { life_use(&o, "copy construction from"); fault_point(FP_COPY); ++g_cnt.cctor; life_born(this, o.id); }
    E& operator=(const E& o) {
        life_use(this, "assignment to"); life_use(&o, "copy assignment from"); fault_point(FP_ASSIGN); ++g_cnt.casg;
        id = o.id; return *this;
    }
#endif
#if ELEM == 2 || ELEM == 4
    E(E&& o) noexcept : Life() { life_use(&o, "move construction from"); ++g_cnt.mctor; if (++g_work > WORK_LIMIT) bail("endless"); sched_point_hook(FP_MOVE); life_born(this, o.id); o.id = ID_MOVED; }
    E& operator=(E&& o) noexcept {
        life_use(this, "assignment to"); life_use(&o, "move assignment from"); ++g_cnt.masg; if (++g_work > WORK_LIMIT) bail("endless"); sched_point_hook(FP_MASSIGN);
        if (this != &o) { id = o.id; o.id = ID_MOVED; }
        return *this;
    }
#elif ELEM == 3   // a move that throws has already taken the value out of its source
    E(E&& o) noexcept(MK == 2) : Life() { life_use(&o, "move construction from"); if (MK != 2 && fault_next()) o.id = ID_MOVED; move_point(MK != 2, FP_MOVE); ++g_cnt.mctor; life_born(this, o.id); o.id = ID_MOVED; }
    E& operator=(E&& o) noexcept(MK == 1) {
        life_use(this, "assignment to"); life_use(&o, "move assignment from"); if (MK != 1 && fault_next()) o.id = ID_MOVED; move_point(MK != 1, FP_MASSIGN); ++g_cnt.masg;
        if (this != &o) { id = o.id; o.id = ID_MOVED; }
        return *this;
    }
#endif
#if ELEM == 4
    E(const E&) = delete;
    E& operator=(const E&) = delete;
#endif
#if ELEM != 5
    ~E() { ++g_cnt.dtor; if (++g_work > WORK_LIMIT) bail("endless"); sched_point_hook(99); life_die(this); }
#endif
};
inline int id_of(const E& e) { return life_ok(&e) ? e.id : -777; }
inline void set_id(E& e, int v) { e.id = v; }
inline bool alive(const E& e) { return life_ok(&e); }
inline bool operator==(const E& a, const E& b) { fault_point(FP_CMP); return a.id == b.id; }
inline bool operator<(const E& a, const E& b) { fault_point(FP_CMP); return a.id < b.id; }
#endif

#if HAS_MOVE
#define MV(x) boost::move(x)
#else
#define MV(x) (x)
#endif

// ---------------------------------------------------------------- iterators over a source array
template <class Ref, class Tag> struct SrcIt { // Tag: forward or bidirectional
    typedef Tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type;
    typedef const E* pointer; typedef const E& reference;
    const E* p;
    explicit SrcIt(const E* q = 0) : p(q) {}
    reference operator*() const { fault_point(FP_ITER); return *p; }
    pointer operator->() const { return p; }
    SrcIt& operator++() { ++p; if (++g_work > WORK_LIMIT) bail("endless"); return *this; }
    SrcIt operator++(int) { SrcIt t(*this); ++*this; return t; }
    SrcIt& operator--() { --p; return *this; }
    SrcIt operator--(int) { SrcIt t(*this); --p; return t; }
    friend bool operator==(const SrcIt& a, const SrcIt& b) { return a.p == b.p; }
    friend bool operator!=(const SrcIt& a, const SrcIt& b) { return a.p != b.p; }
};
typedef SrcIt<const E&, std::forward_iterator_tag> FwdIt;
typedef SrcIt<const E&, std::bidirectional_iterator_tag> BidIt;

struct InCtl { const E* base; int n, pos; };
struct InIt { // single pass: all copies share the position
    typedef std::input_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type;
    typedef const E* pointer; typedef const E& reference;
    InCtl* c; int at;
    InIt() : c(0), at(-1) {}
    explicit InIt(InCtl* k) : c(k), at(k->pos) {}
    struct Proxy { const E* p; const E& operator*() const { return *p; } };
    reference operator*() const {
        fault_point(FP_ITER);
        if (!c || at != c->pos) { fail(T_SEM, "single-pass iterator: position %d read again after it was consumed", at); return c->base[at < c->n ? at : 0]; }
        if (c->pos >= c->n) { fail(T_SEM, "single-pass iterator: read past the end of the input"); return c->base[0]; }
        return c->base[c->pos];
    }
    pointer operator->() const { return &**this; }
    InIt& operator++() {
        if (++g_work > WORK_LIMIT) bail("endless");
        if (!c || at != c->pos) { fail(T_SEM, "single-pass iterator: consumed position %d advanced again", at); ++at; return *this; }
        if (c->pos >= c->n) { fail(T_SEM, "single-pass iterator: advanced past the end of the input"); return *this; }
        at = ++c->pos; return *this;
    }
    Proxy operator++(int) { Proxy p; p.p = &**this; ++*this; return p; }
    friend bool operator==(const InIt& a, const InIt& b) {
        bool ea = !a.c || a.at >= a.c->n, eb = !b.c || b.at >= b.c->n;
        return ea == eb && (ea || a.at == b.at);
    }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};
// random-access iterator over an arithmetic range of any length (for extreme distances)
struct GenIt {
    typedef std::random_access_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type;
    typedef const E* pointer; typedef E reference;
    std::ptrdiff_t p;
    explicit GenIt(std::ptrdiff_t q = 0) : p(q) {}
    reference operator*() const { return E(int(p % 1000) + 60000); }
    GenIt& operator++() { ++p; if (++g_work > WORK_LIMIT) bail("endless"); return *this; }
    GenIt operator++(int) { GenIt t(*this); ++*this; return t; }
    GenIt& operator--() { --p; return *this; }
    GenIt& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    GenIt& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
    friend GenIt operator+(GenIt a, std::ptrdiff_t n) { return GenIt(a.p + n); }
    friend GenIt operator-(GenIt a, std::ptrdiff_t n) { return GenIt(a.p - n); }
    friend std::ptrdiff_t operator-(GenIt a, GenIt b) { return a.p - b.p; }
    friend bool operator==(GenIt a, GenIt b) { return a.p == b.p; }
    friend bool operator!=(GenIt a, GenIt b) { return a.p != b.p; }
    friend bool operator<(GenIt a, GenIt b) { return a.p < b.p; }
};

#ifndef MC_SCHED
static void sched_point_hook(int) {}
#endif

} // namespace mc
#endif
