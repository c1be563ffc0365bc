// Exhaustive check of count-and-value calls with arithmetic types (C02, C05): for every element type and every integer
// type of the arguments, all counts up to the limit, the limit values of the types, and boundary layouts: the first
// argument is a count and the second a value, also when both have the same integer type (and could be iterators).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <limits>
#include <set>
#include <unistd.h>
#if MCDEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#else
#define BOOST_CB_DISABLE_DEBUG
#endif
#include <boost/circular_buffer.hpp>
typedef unsigned long long u64; typedef long long i64;
static std::string g_ops = "all", g_label = "disp", g_replay, g_cur; static int g_max = 260; static u64 g_execs, g_viol, g_types; static std::set<std::string> g_sigs;
static char g_buf[300];
static void report(const char* what) {
    ++g_viol;
    if (g_replay.size()) std::printf("REPLAY SEM: %s: %s\n", g_buf, what);
    else { std::string sig = std::string(g_buf).substr(0, std::strcspn(g_buf, "(")); if (g_sigs.insert(sig).second) std::printf("VIOL {\"tag\":\"SEM\",\"sig\":\"SEM|%s\",\"msg\":\"%s: %s\",\"hist\":\"%s\"}\n", sig.c_str(), g_buf, what, g_buf); }
}
static void on_sig(int s) {
    static char b[1000]; int n = std::snprintf(b, sizeof b, g_replay.size() ? "REPLAY SEM: crash %d\n" : "VIOL {\"tag\":\"SEM\",\"sig\":\"SEM|crash\",\"msg\":\"crash (signal %d) in %s\",\"hist\":\"%s\"}\nRESULT {\"config\":\"%s\",\"states\":1,\"transitions\":1,\"execs\":1,\"runs\":1,\"fixpoint\":false,\"found\":1,\"samples\":[]}\n", s, g_buf, g_buf, g_label.c_str());
    std::fflush(stdout); if (write(1, b, n)) {} _exit(1);
}
template <class T> struct Name; 
#define NAME(T) template <> struct Name<T> { static const char* get() { return #T; } };
NAME(bool) NAME(char) NAME(signed char) NAME(unsigned char) NAME(short) NAME(unsigned short) NAME(int) NAME(unsigned) NAME(long) NAME(unsigned long) NAME(long long) NAME(unsigned long long) NAME(float) NAME(double) NAME(wchar_t)
template <class C> struct CapOf { static typename C::capacity_type make(size_t c, bool) { return typename C::capacity_type(c); } };
template <class T> struct CapOf<boost::circular_buffer_space_optimized<T> > { static typename boost::circular_buffer_space_optimized<T>::capacity_type make(size_t c, bool m) { return typename boost::circular_buffer_space_optimized<T>::capacity_type(c, m ? c : 0); } };
template <class C, class T> static void expect(const C& c, const std::vector<T>& v, size_t cap) {
    if (size_t(c.capacity()) != cap) { char b[80]; std::sprintf(b, "capacity %lu, expected %lu", (unsigned long)size_t(c.capacity()), (unsigned long)cap); report(b); return; }
    if (c.size() != v.size()) { char b[80]; std::sprintf(b, "size %lu, expected %lu", (unsigned long)c.size(), (unsigned long)v.size()); report(b); return; }
    for (size_t i = 0; i < v.size(); ++i) if (!(c[i] == v[i])) { char b[80]; std::sprintf(b, "element %lu is wrong", (unsigned long)i); report(b); return; }
}
template <class C> static void fill(C& c, size_t size, size_t rot, std::vector<typename C::value_type>& v) {
    typedef typename C::value_type T;
    for (size_t i = 0; i < rot && size_t(c.capacity()); ++i) { c.push_back(T(1)); c.pop_front(); }
    for (size_t i = 0; i < size; ++i) { T t = T(i % 2 ? 3 + i % 50 : 0); c.push_back(t); v.push_back(t); }
}
// kind of the value argument: the same type as the count (Same) or the element type
template <class T, class N, class V> struct Calls {
    typedef boost::circular_buffer<T> B; typedef boost::circular_buffer_space_optimized<T> S;
    template <class C> static void run(const char* cn, bool minimum) {
        typedef std::numeric_limits<N> L; typedef std::numeric_limits<V> LV;
        V vals[] = { V(0), V(1), V(-1), V(65), LV::is_integer ? LV::min() : V(-2.5), LV::is_integer ? LV::max() : V(1.25) };
        size_t top = u64((L::max)()) < u64(g_max) ? size_t((L::max)()) : size_t(g_max);
        ++g_types;
        for (size_t ni = 0; ni <= top; ++ni) for (size_t vi = 0; vi < sizeof vals / sizeof *vals; ++vi) {
            if (ni > 9 && ni < top - 3 && (ni < 125 || ni > 130) && (ni < 253 || ni > 258) && vi > 2) continue; // all values for the boundary counts
            N n = N(ni); V x = vals[vi]; T t = static_cast<T>(x); const std::vector<T> same(ni, t);
            if (!(t == t)) continue;
            std::string shape;
#define AT(NAME_) std::sprintf(g_buf, "%s<%s> %s %s,%s(%lu,#%lu)", cn, Name<T>::get(), NAME_, Name<N>::get(), Name<V>::get(), (unsigned long)ni, (unsigned long)vi); if (g_replay.size() && g_replay != g_buf) {} else if (++g_execs)
            if (g_ops != "ins") {
                AT("construct") { C c(n, x); expect(c, same, ni); }
                size_t caps[] = { ni, ni + 1, ni + 130 };
                for (size_t k = 0; k < (vi < 2 ? 3 : 1); ++k) {
                    AT("construct cap") { C c(CapOf<C>::make(caps[k], minimum), n, x); expect(c, same, caps[k]); }
                    AT("assign cap") { C c(CapOf<C>::make(3, minimum)); std::vector<T> v; fill(c, 3, k, v); c.assign(CapOf<C>::make(caps[k], minimum), n, x); expect(c, same, caps[k]); }
                }
                AT("assign") { C c(CapOf<C>::make(5, minimum)); std::vector<T> v; fill(c, vi % 6, ni % 5, v); c.assign(n, x); expect(c, same, ni); }
                AT("resize") { C c(CapOf<C>::make(5, minimum)); std::vector<T> v; fill(c, vi % 6, ni % 5, v); c.resize(n, x); size_t cap = ni > 5 ? ni : 5; v.resize(ni, t); expect(c, v, cap); }
                AT("rresize") { C c(CapOf<C>::make(5, minimum)); std::vector<T> v; fill(c, vi % 6, ni % 5, v); c.rresize(n, x); size_t cap = ni > 5 ? ni : 5; if (ni < v.size()) v.erase(v.begin(), v.end() - ni); else v.insert(v.begin(), ni - v.size(), t); expect(c, v, cap); }
            }
            if (g_ops != "ctor") {
                static const size_t lay[][4] = { {0, 0, 0, 0}, {3, 0, 0, 0}, {3, 3, 1, 1}, {3, 2, 2, 1}, {7, 5, 5, 2}, {7, 5, 1, 5}, {7, 7, 3, 7}, {130, 100, 60, 50}, {131, 0, 7, 0}, {260, 131, 200, 130}, {260, 2, 259, 1} };
                for (size_t k = 0; k < sizeof lay / sizeof *lay; ++k) {
                    size_t cap = lay[k][0], size = lay[k][1], rot = lay[k][2], pos = lay[k][3];
                    if (cap > 7 && vi > 2) continue;
                    if (cap > 7 && ni > 5 && ni < 96 && ni % 8) continue;
                    AT("insert") { C c(CapOf<C>::make(cap, minimum)); std::vector<T> v; fill(c, size, rot, v); c.insert(c.begin() + pos, n, x);
                        size_t room = pos + cap - size, m = ni < room ? ni : room; v.insert(v.begin() + pos, m, t); if (v.size() > cap) v.erase(v.begin(), v.end() - cap); expect(c, v, cap); }
                    AT("rinsert") { C c(CapOf<C>::make(cap, minimum)); std::vector<T> v; fill(c, size, rot, v); c.rinsert(c.begin() + pos, n, x);
                        size_t room = (size - pos) + cap - size, m = ni < room ? ni : room; v.insert(v.begin() + pos, m, t); if (v.size() > cap) v.resize(cap); expect(c, v, cap); }
                }
            }
        }
    }
    static void all() { run<B>("cb", true); run<S>("so", false); }
};
template <class T, class N> static void pair_() { Calls<T, N, N>::all(); }
template <class T> static void elem() {
    pair_<T, char>(); pair_<T, signed char>(); pair_<T, unsigned char>(); pair_<T, short>(); pair_<T, unsigned short>(); pair_<T, int>(); pair_<T, unsigned>(); pair_<T, long>(); pair_<T, unsigned long>();
    pair_<T, long long>(); pair_<T, wchar_t>();
    Calls<T, size_t, T>::all(); Calls<T, int, T>::all();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char* n = argv[i + 1];
        if (a == "--ops") g_ops = n; else if (a == "--max") g_max = std::atoi(n); else if (a == "--label") g_label = n; else if (a == "--replay") g_replay = n; }
    int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM }; for (size_t i = 0; i < 6; ++i) std::signal(sg[i], on_sig);
    alarm(600);
#if PART == 0
    elem<char>(); elem<signed char>(); elem<unsigned char>();
#elif PART == 1
    elem<short>(); elem<unsigned short>(); elem<int>();
#elif PART == 2
    elem<unsigned>(); elem<long>(); elem<unsigned long long>();
#else
    elem<float>(); elem<double>(); elem<bool>();
#endif
    std::printf("RESULT {\"config\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"runs\":%llu,\"fixpoint\":true,\"found\":%llu,\"samples\":[\"%s\"]}\n", g_label.c_str(), g_types, g_execs, g_execs, g_execs, g_viol, g_buf);
    return g_viol ? 1 : 0;
}
