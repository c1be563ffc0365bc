// Controlled scheduler: fibers, every scheduling decision taken from a prefix that a depth-first search extends.
#pragma once
#include <ucontext.h>
#include <setjmp.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#ifndef NOTSAN
#define NOTSAN __attribute__((no_sanitize("thread")))
#endif
namespace sched {
enum { MAXT = 6, STK = 64 * 1024 };
struct Fiber { ucontext_t uc; jmp_buf jb; bool started, done, blocked; char* stack; };
static Fiber F[MAXT]; static int NT = 0, cur = -1; static jmp_buf main_jb; static ucontext_t main_uc;
static void (*body)(int);
struct Choice { int n, pick; signed char tid[MAXT + 1]; bool cur_enabled; };   // alternatives at one decision; tid[0] is the default
static std::vector<Choice> trace; static std::vector<int> prefix; static int preempt_bound = 2, max_steps = 100000; static bool overrun, deadlock, stop_all;
static std::vector<int> costs;
NOTSAN static void entry(int t) { body(t); F[t].done = true; _longjmp(main_jb, 1); }
NOTSAN static void resume(int t) {      // run fiber t until it yields
    cur = t;
    if (!_setjmp(main_jb)) {
        if (!F[t].started) { F[t].started = true; setcontext(&F[t].uc); }
        else _longjmp(F[t].jb, 1);
    }
    cur = -1;
}
NOTSAN static void yield() { int t = cur; if (t < 0) return; if (!_setjmp(F[t].jb)) _longjmp(main_jb, 1); }
// n-way choice that is not a scheduling decision (which waiter to wake, whether to wake spuriously)
NOTSAN static int choose(int n) {
    Choice c; c.n = n; c.cur_enabled = false; c.pick = 0; for (int i = 0; i < n && i <= MAXT; ++i) c.tid[i] = (signed char)i;
    size_t k = trace.size(); if (k < prefix.size()) c.pick = prefix[k];
    trace.push_back(c); return c.pick;
}
// one execution; returns when all fibers are done, on deadlock, or on overrun
NOTSAN static void run(int nt, void (*b)(int)) {
    NT = nt; body = b; trace.clear(); overrun = deadlock = stop_all = false;
    for (int t = 0; t < nt; ++t) {
        F[t].started = F[t].done = F[t].blocked = false; if (!F[t].stack) F[t].stack = (char*)std::malloc(STK);
        getcontext(&F[t].uc); F[t].uc.uc_stack.ss_sp = F[t].stack; F[t].uc.uc_stack.ss_size = STK; F[t].uc.uc_link = 0; makecontext(&F[t].uc, (void (*)())entry, 1, t);
    }
    int last = -1, steps = 0;
    for (;;) {
        Choice c; c.n = 0; c.pick = 0; c.cur_enabled = last >= 0 && !F[last].done && !F[last].blocked;
        if (c.cur_enabled) c.tid[c.n++] = (signed char)last;
        for (int t = 0; t < nt; ++t) if (t != last && !F[t].done && !F[t].blocked) c.tid[c.n++] = (signed char)t;
        if (c.n == 0) { for (int t = 0; t < nt; ++t) if (!F[t].done) deadlock = true; return; }
        if (c.n > 1) { size_t k = trace.size(); if (k < prefix.size()) c.pick = prefix[k]; trace.push_back(c); }
        if (++steps > max_steps) { overrun = true; return; }
        last = c.tid[c.pick]; resume(last);
        if (stop_all) return;
    }
}
// next prefix in depth-first order, within the preemption bound; false when the space is exhausted
NOTSAN static bool next() {
    std::vector<int> used(trace.size() + 1, 0);
    for (size_t i = 0; i < trace.size(); ++i) used[i + 1] = used[i] + (trace[i].cur_enabled && trace[i].pick ? 1 : 0);
    for (size_t i = trace.size(); i--; ) {
        if (trace[i].pick + 1 >= trace[i].n) continue;
        if (trace[i].cur_enabled && used[i] + 1 > preempt_bound) continue;
        prefix.resize(i); for (size_t k = 0; k < i; ++k) prefix[k] = trace[k].pick;
        prefix.push_back(trace[i].pick + 1); return true;
    }
    return false;
}
static std::string schedule() { std::string s; for (size_t i = 0; i < trace.size(); ++i) { char b[8]; std::sprintf(b, "%d", trace[i].pick); s += b; } while (!s.empty() && s[s.size() - 1] == '0') s.resize(s.size() - 1); return s; }
}
