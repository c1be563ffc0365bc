#pragma once
#include "boost/thread/mutex.hpp"
namespace boost {
class condition {
    unsigned sleeping;
public:
    condition() : sleeping(0) {}
    NOTSAN void wait(mutex::scoped_lock& l) {
        int t = sched::cur; mutex* m = l.get();
        sleeping |= 1u << t; sched::F[t].blocked = true;          // atomically with the release
        mc_released(m); m->owner = -1; for (int k = 0; k < sched::MAXT; ++k) if (m->waiting >> k & 1) sched::F[k].blocked = false; m->waiting = 0;
        sched::yield();
        while (m->owner >= 0) { sched::F[t].blocked = true; m->waiting |= 1u << t; sched::yield(); }
        m->owner = t; mc_acquired(m);
    }
    template <class P> void wait(mutex::scoped_lock& l, P p) { while (!p()) wait(l); }
    NOTSAN void notify_one() { sched::yield(); int w[sched::MAXT], n = 0; for (int k = 0; k < sched::MAXT; ++k) if (sleeping >> k & 1) w[n++] = k; if (n) { g_on = false; int k = w[n > 1 ? sched::choose(n) : 0]; g_on = true; sleeping &= ~(1u << k); sched::F[k].blocked = false; } }
    NOTSAN void notify_all() { sched::yield(); for (int k = 0; k < sched::MAXT; ++k) if (sleeping >> k & 1) sched::F[k].blocked = false; sleeping = 0; }
};
typedef condition condition_variable;
}
