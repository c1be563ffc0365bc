// Exhaustive check that the standard algorithms work on the containers' iterators (C27): every layout (capacity, start
// offset, size; for the space-optimized container every minimum capacity and both ways of growing), all words over a
// small alphabet, every sub-range, through iterators, const iterators and reverse iterators. Oracle: the same algorithm
// on a std::vector with the same content. Also the static properties of the iterator types.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <list>
#include <set>
#include <memory>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <functional>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
#if MCDEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#else
#define BOOST_CB_DISABLE_DEBUG
#endif
#include <boost/circular_buffer.hpp>
#ifndef KIND
#define KIND 0
#endif
typedef unsigned long long u64;
// an element carries (letter, number): algorithms compare letters only, so stability and identity are visible
#if KIND == 0
typedef int E; static E mk(int l, int t) { return l * 16 + t; } static int val(const E& e) { return e; }
#define COPYABLE 1
#elif KIND == 1       // move-only
struct E { int v; E() : v(-2) {} explicit E(int x) : v(x) {} E(E&& o) noexcept : v(o.v) { o.v = -1; } E& operator=(E&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; } };
static E mk(int l, int t) { return E(l * 16 + t); } static int val(const E& e) { return e.v; }
#define COPYABLE 0
#else                 // owns memory
struct E { std::string s; E() : s("-2") {} explicit E(int x) : s(std::to_string(x)) {} };
static E mk(int l, int t) { return E(l * 16 + t); } static int val(const E& e) { return e.s.empty() ? -1 : std::atoi(e.s.c_str()); }
#define COPYABLE 1
#endif
static int key(const E& e) { int v = val(e); return v < 0 ? v : v / 16; }
struct Less { bool operator()(const E& a, const E& b) const { return key(a) < key(b); } };
struct Eq { bool operator()(const E& a, const E& b) const { return key(a) == key(b); } };
struct Odd { bool operator()(const E& a) const { return key(a) & 1; } };
#if CONT == 0
typedef boost::circular_buffer<E> C; static const char* CNAME = "cb";
#else
typedef boost::circular_buffer_space_optimized<E> C; static const char* CNAME = "so";
#endif
template <class I> struct View { I b, e; I begin() const { return b; } I end() const { return e; } };
template <class I> static View<I> view(I b, I e) { View<I> v = { b, e }; return v; }

// static properties of the iterator types
template <class I, class V, class R, class P> constexpr bool traits_ok() {
    typedef std::iterator_traits<I> T;
    return std::is_same<typename T::value_type, V>::value && std::is_same<typename T::reference, R>::value && std::is_same<typename T::pointer, P>::value
        && std::is_same<typename T::difference_type, std::ptrdiff_t>::value && std::is_base_of<std::random_access_iterator_tag, typename T::iterator_category>::value
        && std::is_default_constructible<I>::value && std::is_copy_constructible<I>::value && std::is_copy_assignable<I>::value && std::is_destructible<I>::value;
}
static_assert(traits_ok<C::iterator, E, E&, E*>(), "iterator");
static_assert(traits_ok<C::const_iterator, E, const E&, const E*>(), "const_iterator");
static_assert(traits_ok<C::reverse_iterator, E, E&, E*>(), "reverse_iterator");
static_assert(traits_ok<C::const_reverse_iterator, E, const E&, const E*>(), "const_reverse_iterator");
static_assert(std::is_convertible<C::iterator, C::const_iterator>::value && !std::is_convertible<C::const_iterator, C::iterator>::value && !std::is_constructible<C::iterator, C::const_iterator>::value, "iterator conversions");
static_assert(std::is_same<C::value_type, E>::value && std::is_same<C::reference, E&>::value && std::is_same<C::const_reference, const E&>::value && std::is_same<C::pointer, E*>::value && std::is_same<C::const_pointer, const E*>::value, "container types");
#if __cplusplus >= 202002L
static_assert(std::random_access_iterator<C::iterator> && std::random_access_iterator<C::const_iterator> && std::sized_sentinel_for<C::const_iterator, C::iterator>, "concept");
static_assert(std::ranges::random_access_range<C> && std::ranges::sized_range<C> && std::ranges::common_range<const C>, "range concept");
static_assert(std::sortable<C::iterator, Less>, "sortable");
#endif

struct Desc { int cap, min, rot, size, front; std::vector<int> w; };
static std::string str(const Desc& d) {
    char b[100]; std::sprintf(b, "%d %d %d %d %d", d.cap, d.min, d.rot, d.size, d.front); std::string s = b;
    for (size_t i = 0; i < d.w.size(); ++i) { std::sprintf(b, " %d", d.w[i]); s += b; }
    return s;
}
static void build(const Desc& d, std::unique_ptr<C>& c, std::vector<E>& v) {
#if CONT == 0
    c.reset(new C(d.cap));
#else
    c.reset(new C(C::capacity_type(d.cap, d.min)));
#endif
    for (int i = 0; i < d.rot; ++i) { c->push_back(mk(9, 9)); c->pop_front(); }
    if (d.front) for (int i = d.size; i--; ) c->push_front(mk(d.w[i], i));
    else for (int i = 0; i < d.size; ++i) c->push_back(mk(d.w[i], i));
    v.clear(); for (int i = 0; i < d.size; ++i) v.push_back(mk(d.w[i], i));
}
static u64 g_viol, g_execs, g_runs; static std::set<std::string> g_sigs; static std::string g_label = "alg", g_cur; static bool g_print;
static std::set<std::string> g_outcomes;
static void report(const std::string& alg, const std::string& what, const std::string& msg) {
    ++g_viol; std::string sig = "OBS|" + alg + "|" + what;
    if (g_print) std::printf("REPLAY OBS: %s: %s\n", alg.c_str(), msg.c_str());
    else if (g_sigs.insert(sig).second) std::printf("VIOL {\"tag\":\"OBS\",\"sig\":\"%s\",\"msg\":\"%s: %s\",\"hist\":\"%s\"}\n", sig.c_str(), alg.c_str(), msg.c_str(), g_cur.c_str());
}
static void on_sig(int s) {
    static char b[4000]; int n = std::snprintf(b, sizeof b, g_print ? "REPLAY OBS: crash (signal %d)\n" : "VIOL {\"tag\":\"OBS\",\"sig\":\"OBS|crash\",\"msg\":\"crash (signal %d) in %s\",\"hist\":\"%s\"}\nRESULT {\"config\":\"%s\",\"states\":1,\"transitions\":1,\"execs\":1,\"runs\":1,\"fixpoint\":false,\"found\":1,\"samples\":[]}\n", s, g_cur.c_str(), g_cur.c_str(), g_label.c_str());
    std::fflush(stdout); if (write(1, b, n)) {} _exit(1);
}
static std::string show(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) { char b[20]; std::sprintf(b, "%s%d", i ? "," : "", v[i]); s += b; } return s; }
// runs f on the container and on the vector; kind: which iterators
enum { FWD = 1, REV = 2, CONSTF = 4, CONSTR = 8, MUT = FWD | REV, ALL = 15 };
static int g_kinds;
template <class F> static void alg(const char* name, const Desc& d, int kinds, int i, int j, int k, F f) {
    std::unique_ptr<C> c; std::vector<E> v;
    for (int kd = 1; kd <= 8; kd *= 2) if (kinds & kd) {
        char b[60]; std::sprintf(b, " | %s %d %d %d %d", name, kd, i, j, k); g_cur = str(d) + b;
        build(d, c, v); ++g_execs;
        const C& cc = *c; const std::vector<E>& cv = v; long r = 0, want = 0;
        std::vector<const E*> before; for (int x = 0; x < d.size; ++x) before.push_back(&(*c)[x]);
        switch (kd) {
#define RUN(X, Y) { r = f(X, i, j, k); want = f(Y, i, j, k); break; }
            case FWD: RUN(view(c->begin(), c->end()), view(v.begin(), v.end()))
            case REV: RUN(view(c->rbegin(), c->rend()), view(v.rbegin(), v.rend()))
            case CONSTF: RUN(view(cc.begin(), cc.end()), view(cv.begin(), cv.end()))
            case CONSTR: RUN(view(cc.rbegin(), cc.rend()), view(cv.rbegin(), cv.rend()))
#undef RUN
        }
        std::vector<int> got, exp; for (size_t x = 0; x < c->size(); ++x) got.push_back(val((*c)[x]));
        for (size_t x = 0; x < v.size(); ++x) exp.push_back(val(v[x]));
        if (r != want) { char m[100]; std::sprintf(m, "returned %ld, expected %ld", r, want); report(name, "result", m); }
        if (got != exp) report(name, "content", "content " + show(got) + ", expected " + show(exp));
        if (int(c->size()) != d.size) report(name, "size", "size changed");
        else for (int x = 0; x < d.size; ++x) if (&(*c)[x] != before[x]) { report(name, "place", "the elements' places changed"); break; }
    }
}
// the same for algorithms that need mutable iterators (F is not instantiated for const ones)
template <class F> static void mut(const char* name, const Desc& d, int i, int j, int k, F f) {
    std::unique_ptr<C> c; std::vector<E> v;
    for (int kd = 1; kd <= 2; ++kd) {
        char b[60]; std::sprintf(b, " | %s %d %d %d %d", name, kd, i, j, k); g_cur = str(d) + b;
        build(d, c, v); ++g_execs; long r, want;
        std::vector<const E*> before; for (int x = 0; x < d.size; ++x) before.push_back(&(*c)[x]);
        if (kd == 1) { r = f(view(c->begin(), c->end()), i, j, k); want = f(view(v.begin(), v.end()), i, j, k); }
        else { r = f(view(c->rbegin(), c->rend()), i, j, k); want = f(view(v.rbegin(), v.rend()), i, j, k); }
        std::vector<int> got, exp; for (size_t x = 0; x < c->size(); ++x) got.push_back(val((*c)[x]));
        for (size_t x = 0; x < v.size(); ++x) exp.push_back(val(v[x]));
        if (r != want) { char m[100]; std::sprintf(m, "returned %ld, expected %ld", r, want); report(name, "result", m); }
        if (got != exp) report(name, "content", "content " + show(got) + ", expected " + show(exp));
        if (int(c->size()) != d.size) report(name, "size", "size changed");
        else for (int x = 0; x < d.size; ++x) if (&(*c)[x] != before[x]) { report(name, "place", "the elements' places changed"); break; }
    }
}
// the whole container, result through erase and other members
template <class F> static void whole(const char* name, const Desc& d, int i, F f) {
    std::unique_ptr<C> c; std::vector<E> v; char b[60]; std::sprintf(b, " | %s %d", name, i); g_cur = str(d) + b;
    build(d, c, v); ++g_execs; size_t cap = c->capacity();
    long r = f(*c, i), want = f(v, i);
    std::vector<int> got, exp; for (size_t x = 0; x < c->size(); ++x) got.push_back(val((*c)[x]));
    for (size_t x = 0; x < v.size(); ++x) exp.push_back(val(v[x]));
    if (r != want) { char m[100]; std::sprintf(m, "returned %ld, expected %ld", r, want); report(name, "result", m); }
    if (got != exp) report(name, "content", "content " + show(got) + ", expected " + show(exp));
    if (c->capacity() != cap) report(name, "capacity", "capacity changed");
}
#define A [&](auto v, int i, int j, int k) -> long { (void)i; (void)j; (void)k; auto b = v.b + i; auto e = v.b + j; auto m = v.b + k; (void)b; (void)e; (void)m;
#define Z }
static u64 h(u64 x, long y) { return (x ^ u64(y)) * 1099511628211ull; }
template <class V> static long sum(V b, V e) { u64 x = 7; for (; b != e; ++b) x = h(x, val(*b)); return long(x); }
static void all(const Desc& d) {
    int n = d.size; ++g_runs;
    // operators and navigation over sub-ranges [i, j), with k in between
    for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) {
        mut("sort", d, i, j, i, A std::sort(b, e, Less()); for (auto x = b; x != e; ++x) { *x = mk(key(*x), 0); } return 0; Z);
        mut("stable_sort", d, i, j, i, A std::stable_sort(b, e, Less()); return 0; Z);
        mut("reverse", d, i, j, i, A std::reverse(b, e); return 0; Z);
        mut("unique", d, i, j, i, A auto x = std::unique(b, e, Eq()); long r = x - v.b; for (; x != e; ++x) *x = mk(3, 3); return r; Z);
        mut("remove_if", d, i, j, i, A auto x = std::remove_if(b, e, Odd()); long r = x - v.b; for (; x != e; ++x) *x = mk(3, 3); return r; Z);
        mut("stable_partition", d, i, j, i, A return std::stable_partition(b, e, Odd()) - v.b; Z);
        mut("partition", d, i, j, i, A long r = std::partition(b, e, Odd()) - v.b; std::sort(b, v.b + r, [](const E& x, const E& y) { return val(x) < val(y); }); std::sort(v.b + r, e, [](const E& x, const E& y) { return val(x) < val(y); }); return r; Z);
        mut("next_permutation", d, i, j, i, A return std::next_permutation(b, e, Less()); Z);
        mut("prev_permutation", d, i, j, i, A return std::prev_permutation(b, e, Less()); Z);
        mut("heapsort", d, i, j, i, A std::make_heap(b, e, Less()); long r = std::is_heap(b, e, Less()) * 4 + (std::is_heap_until(b, e, Less()) == e); if (b != e) { std::pop_heap(b, e, Less()); std::push_heap(b, e, Less()); } std::sort_heap(b, e, Less()); for (auto x = b; x != e; ++x) *x = mk(key(*x), 0); return r + 2 * std::is_sorted(b, e, Less()); Z);
        mut("generate", d, i, j, i, A int t = 0; std::generate(b, e, [&t] { return mk(2, t++ & 15); }); return t; Z);
        mut("for_each", d, i, j, i, A int t = 0; std::for_each(b, e, [&t](E& x) { x = mk(key(x) ^ 1, t++ & 15); }); return t; Z);
        mut("move out", d, i, j, i, A std::vector<E> o(j - i); std::move(b, e, o.begin()); long r = sum(o.begin(), o.end()); std::move_backward(o.begin(), o.end(), e); return r; Z);
        mut("make_move_iterator", d, i, j, i, A std::vector<E> o(std::make_move_iterator(b), std::make_move_iterator(e)); long r = sum(o.begin(), o.end()); int t = 0; for (auto x = b; x != e; ++x) *x = mk(1, t++ & 15); return r; Z);
#if COPYABLE
        mut("fill", d, i, j, i, A std::fill(b, e, mk(2, 2)); return 0; Z);
        mut("fill_n", d, i, j, i, A return std::fill_n(b, j - i, mk(2, 5)) - v.b; Z);
        mut("replace_if", d, i, j, i, A std::replace_if(b, e, Odd(), mk(2, 9)); return 0; Z);
        mut("transform", d, i, j, i, A return std::transform(b, e, b, [](const E& x) { return mk(key(x) ^ 1, val(x) & 15); }) - v.b; Z);
        mut("copy through vector", d, i, j, i, A std::vector<E> o(b, e); long r = sum(o.begin(), o.end()); std::reverse(o.begin(), o.end()); std::copy(o.begin(), o.end(), b); std::list<E> l(b, e); return r * 3 + sum(l.begin(), l.end()); Z);
#endif
        alg("scan", d, ALL, i, j, i, A
            u64 r = 1; r = h(r, std::distance(b, e)); r = h(r, e - b); r = h(r, b < e); r = h(r, b <= e); r = h(r, b > e); r = h(r, b >= e); r = h(r, b == e); r = h(r, b != e);
            for (auto x = b; x != e; ++x) r = h(r, val(*x));
            for (auto x = e; x != b; ) r = h(r, val(*--x));
            for (auto x = b; x < e; x++) r = h(r, val(x[0]));
            for (auto x = e; b < x; ) { auto y = x--; r = h(r, y - x); }
            for (int x = 0; x < j - i; ++x) { r = h(r, val(b[x])); r = h(r, val(e[x - (j - i)])); auto y = b; y += x; y -= 0; r = h(r, val(*y)); y = e; y -= x + 1; r = h(r, val(*y)); r = h(r, val(*std::next(b, x))); r = h(r, val(*std::prev(e, x + 1))); r = h(r, val(*(x + b))); }
            return long(r); Z);
        alg("search", d, ALL, i, j, i, A
            u64 r = 2; r = h(r, std::count_if(b, e, Odd())); r = h(r, std::find_if(b, e, Odd()) - v.b); r = h(r, std::find_if_not(b, e, Odd()) - v.b); r = h(r, std::adjacent_find(b, e, Eq()) - v.b);
            r = h(r, std::max_element(b, e, Less()) - v.b); r = h(r, std::min_element(b, e, Less()) - v.b); r = h(r, std::minmax_element(b, e, Less()).second - v.b);
            r = h(r, std::is_sorted(b, e, Less())); r = h(r, std::is_sorted_until(b, e, Less()) - v.b); r = h(r, std::is_partitioned(b, e, Odd()));
            r = h(r, std::equal(b, e, std::make_reverse_iterator(e), Eq())); r = h(r, std::lexicographical_compare(v.b, b, b, e, Less()));
            r = h(r, std::search(v.b, v.e, b, e, Eq()) - v.b); r = h(r, std::find_end(v.b, v.e, b, e, Eq()) - v.b); r = h(r, std::find_first_of(b, e, v.b, b, Eq()) - v.b); r = h(r, std::search_n(v.b, v.e, j - i, mk(1, 0), Eq()) - v.b);
            r = h(r, std::mismatch(b, e, v.b, Eq()).first - v.b); r = h(r, std::accumulate(b, e, 0L, [](long s, const E& x) { return s * 5 + val(x); }));
            r = h(r, std::inner_product(b, e, v.b, 0L, std::plus<long>(), [](const E& x, const E& y) { return long(val(x)) * val(y); }));
            return long(r); Z);
        mut("binary search", d, i, j, i, A std::stable_sort(b, e, Less()); u64 r = 3; for (int l = 0; l < 4; ++l) { E x = mk(l, 0); r = h(r, std::lower_bound(b, e, x, Less()) - v.b); r = h(r, std::upper_bound(b, e, x, Less()) - v.b); r = h(r, std::equal_range(b, e, x, Less()).second - v.b); r = h(r, std::binary_search(b, e, x, Less())); } return long(r); Z);
        for (int k = i; k <= j; ++k) {
            mut("rotate", d, i, j, k, A return std::rotate(b, m, e) - v.b; Z);
            mut("nth_element", d, i, j, k, A std::nth_element(b, m, e, Less()); long r = m == e ? -1 : key(*m); std::sort(b, e, [](const E& x, const E& y) { return val(x) < val(y); }); return r; Z);
            mut("partial_sort", d, i, j, k, A std::partial_sort(b, m, e, Less()); u64 r = 4; for (auto x = b; x != m; ++x) r = h(r, key(*x)); std::sort(b, e, [](const E& x, const E& y) { return val(x) < val(y); }); return long(r); Z);
            mut("inplace_merge", d, i, j, k, A std::stable_sort(b, m, Less()); std::stable_sort(m, e, Less()); std::inplace_merge(b, m, e, Less()); return 0; Z);
            mut("iter_swap", d, i, j, k, A if (m == e) return 0; std::iter_swap(b, m); std::swap(*m, *(e - 1)); std::iter_swap(m, v.e - 1); return 1; Z);
            mut("swap_ranges", d, i, j, k, A long s = std::min(m - b, e - m); return std::swap_ranges(b, b + s, m) - v.b; Z);
            mut("move down", d, i, j, k, A auto x = std::move(m, e, b); long r = x - v.b; for (auto y = std::max(x, m); y != e; ++y) *y = mk(1, 1); for (auto y = x; y < std::min(m, e); ++y) *y = mk(1, 2); return r; Z);
            mut("move up", d, i, j, k, A auto x = std::move_backward(b, m, e); long r = x - v.b; for (auto y = b; y != std::min(m, x); ++y) *y = mk(1, 1); for (auto y = m; y < x; ++y) *y = mk(1, 2); return r; Z);
#if COPYABLE
            mut("copy down", d, i, j, k, A return std::copy(m, e, b) - v.b; Z);
            mut("copy up", d, i, j, k, A return std::copy_backward(b, m, e) - v.b; Z);
            mut("rotate_copy", d, i, j, k, A std::vector<E> o(j - i); std::rotate_copy(b, m, e, o.begin()); long r = sum(o.begin(), o.end()); std::copy(o.begin(), o.end(), b); return r; Z);
            mut("merge", d, i, j, k, A std::stable_sort(b, m, Less()); std::stable_sort(m, e, Less()); std::vector<E> o; std::merge(b, m, m, e, std::back_inserter(o), Less()); o.resize(j - i); std::copy(o.begin(), o.end(), b); o.clear(); std::set_union(b, m, m, e, std::back_inserter(o), Less()); return sum(o.begin(), o.end()); Z);
#endif
        }
#if __cplusplus >= 202002L
        mut("ranges", d, i, j, i, A auto s = std::ranges::subrange(b, e); std::ranges::stable_sort(s, Less()); u64 r = 5; r = h(r, std::ranges::distance(s)); std::ranges::reverse(s); for (auto& x : s | std::views::reverse | std::views::take(2)) r = h(r, val(x)); for (auto& x : std::views::drop(s, 1)) r = h(r, val(x)); std::ranges::rotate(s, b + (j - i) / 2); r = h(r, std::ranges::max_element(s, Less()) - v.b); if (j > i) { r = h(r, val(s.front())); r = h(r, val(s.back())); r = h(r, val(std::ranges::iter_move(b))); } return long(r); Z);
#endif
    }
    // members and algorithms together
    for (int i = 0; i <= n; ++i) {
        whole("erase-remove", d, i, [](auto& c, int i) -> long { c.erase(std::remove_if(c.begin() + i, c.end(), Odd()), c.end()); return 0; });
        whole("erase-unique", d, i, [](auto& c, int i) -> long { auto r = c.erase(std::unique(c.begin() + i, c.end(), Eq()), c.end()); return r - c.begin(); });
        whole("erase one by one", d, i, [](auto& c, int i) -> long { for (auto x = c.begin() + i; x != c.end(); ) { if (Odd()(*x)) x = c.erase(x); else ++x; } return 0; });
        whole("range for", d, i, [](auto& c, int) -> long { u64 r = 6; for (auto& x : c) r = h(r, val(x)); const auto& cc = c; for (auto& x : cc) r = h(r, val(x)); r = h(r, std::end(c) - std::begin(c)); r = h(r, std::cend(c) - std::cbegin(c)); r = h(r, std::rend(c) - std::rbegin(c)); r = h(r, std::crend(cc) - std::crbegin(cc)); r = h(r, long(std::size(c))); r = h(r, std::empty(c)); return long(r); });
    }
}
static void words(Desc d, int letters, std::vector<Desc>& out) {
    std::vector<int> w(d.size, 0);
    for (;;) { d.w = w; out.push_back(d); int i = d.size; while (i-- > 0) { if (++w[i] < letters) break; w[i] = 0; } if (i < 0) break; }
}
int main(int argc, char** argv) {
    int cap = 4, letters = 3, fcap = 3; double budget = 600; std::string replay, wide; bool rep = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; const char* n = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--cap") cap = std::atoi(n); else if (a == "--letters") letters = std::atoi(n); else if (a == "--fcap") fcap = std::atoi(n); else if (a == "--budget") budget = std::atof(n);
        else if (a == "--wide") wide = n; else if (a == "--label") g_label = n; else if (a == "--replay") { replay = n; rep = true; } else if (a == "--last") {} else return 2;
        ++i; }
    int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM }; for (int s : sg) std::signal(s, on_sig);
    std::clock_t t0 = std::clock();
    if (rep) {
        g_print = true; Desc d; const char* p = replay.c_str(); char* e; long v[5]; for (int j = 0; j < 5; ++j) { v[j] = std::strtol(p, &e, 10); p = e; }
        d.cap = v[0]; d.min = v[1]; d.rot = v[2]; d.size = v[3]; d.front = v[4]; for (int j = 0; j < v[3]; ++j) { d.w.push_back(std::strtol(p, &e, 10)); p = e; }
        alarm(60); all(d); return g_viol ? 1 : 0;
    }
    std::vector<Desc> ds; u64 lay = 0; bool full = true;
    for (int c = 0; c <= cap; ++c) for (int mn = 0; mn <= (CONT ? c : 0); ++mn) for (int rot = 0; rot < (c ? c : 1); ++rot) for (int size = 0; size <= c; ++size) for (int front = 0; front <= (CONT ? 1 : 0); ++front) {
        Desc d; d.cap = c; d.min = mn; d.rot = rot; d.size = size; d.front = front; ++lay; words(d, c > fcap ? 2 : letters, ds);
    }
    for (const char* q = wide.c_str(); *q; ) { // larger capacities: boundary layouts, regular words, every sub-range
        int c = std::atoi(q); while (*q && *q != ',') ++q; if (*q) ++q;
        int rots[] = { 0, 1, c / 2, c - 1 }, sizes[] = { c, c - 1 };
        for (int r = 0; r < 4; ++r) for (int z = 0; z < 2; ++z) for (int w = 0; w < 3; ++w) for (int mn = 0; mn <= (CONT ? c : 0); mn += c) {
            Desc d; d.cap = c; d.min = mn; d.rot = rots[r]; d.size = sizes[z]; d.front = z; ++lay;
            for (int i = 0; i < d.size; ++i) d.w.push_back(w == 0 ? i * 3 / d.size : w == 1 ? (d.size - i) % 4 : (i * i * 7 + i) % 11 % 3);
            ds.push_back(d);
        }
    }
    for (size_t i = 0; i < ds.size(); ++i) { if (i % 16 == 0) alarm(60); all(ds[i]); if (double(std::clock() - t0) / CLOCKS_PER_SEC > budget) { full = i + 1 == ds.size(); break; } }
    std::string s = ds.empty() ? "" : str(ds[ds.size() / 2]);
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"layouts\":%llu,\"fixpoint\":%s,\"found\":%llu,\"samples\":[\"%s | sort\"]}\n", g_label.c_str(), g_runs, g_execs, g_execs, g_execs, lay, full ? "true" : "false", g_viol, s.c_str());
    (void)CNAME; return g_viol ? 1 : 0;
}
