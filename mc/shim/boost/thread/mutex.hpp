// Stand-in for Boost.Thread: mutexes and condition variables implemented by the controlled scheduler (mc/sched.hpp).
#pragma once
#include "sched.hpp"
namespace boost {
class mutex;
void mc_acquired(mutex*); void mc_released(mutex*);      // happens-before bookkeeping, supplied by the checker
class mutex {
public:
    int owner; mutex() : owner(-1) {}
    NOTSAN void lock() { int t = sched::cur; sched::yield(); while (owner >= 0) { sched::F[t].blocked = true; waiting |= 1 << t; sched::yield(); } owner = t; mc_acquired(this); }
    NOTSAN void unlock() { mc_released(this); owner = -1; for (int t = 0; t < sched::MAXT; ++t) if (waiting >> t & 1) sched::F[t].blocked = false; waiting = 0; sched::yield(); }
    unsigned waiting = 0;
    class scoped_lock {
        mutex& m; bool own; scoped_lock(const scoped_lock&); scoped_lock& operator=(const scoped_lock&);
    public:
        explicit scoped_lock(mutex& x) : m(x), own(true) { m.lock(); }
        ~scoped_lock() { if (own) m.unlock(); }
        void lock() { m.lock(); own = true; } void unlock() { own = false; m.unlock(); }
        mutex* get() { return &m; }
    };
};
}
