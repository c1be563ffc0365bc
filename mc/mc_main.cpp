#include "bfs.hpp"
#include <sys/mman.h>
#include <fcntl.h>
using namespace mc;
#if __cplusplus >= 201103L
#define NOTHROW noexcept
#else
#define NOTHROW throw()
#endif
void* operator new(std::size_t n) {
    if (g_in_op) ++g_heap;
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    return p;
}
void* operator new[](std::size_t n) { return ::operator new(n); }
void operator delete(void* p) NOTHROW { std::free(p); }
void operator delete[](void* p) NOTHROW { std::free(p); }
#if __cplusplus >= 201402L
void operator delete(void* p, std::size_t) NOTHROW { std::free(p); }
void operator delete[](void* p, std::size_t) NOTHROW { std::free(p); }
#endif
int main(int argc, char** argv) {
    std::string replay, label = "mc"; bool do_replay = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        #define NEXT (++i < argc ? argv[i] : (std::exit(2), ""))
        if (a == "--cap") cfg.cap = std::atoi(NEXT);
        else if (a == "--cap2") cfg.cap2 = std::atoi(NEXT);
        else if (a == "--wide") { std::string t = NEXT; const char* q = t.c_str(); while (*q) { cfg.wide.push_back(std::atoi(q)); while (*q && *q != ',') ++q; if (*q) ++q; } }
        else if (a == "--maxsize") g_max_size = std::strtoul(NEXT, 0, 10);
        else if (a == "--extra") cfg.nextra = std::atoi(NEXT);
        else if (a == "--tags") cfg.tags = parse_mask(NEXT, false);
        else if (a == "--focus") cfg.focus = parse_mask(NEXT, true);
        else if (a == "--alph") cfg.alph = parse_mask(NEXT, true);
        else if (a == "--faults") cfg.faults = true;
        else if (a == "--noprobes") cfg.probes = false;
        else if (a == "--nobattery") cfg.battery = false;
        else if (a == "--nosoprobes") cfg.so_probes = false;
        else if (a == "--lite-min") cfg.full_min = false;
        else if (a == "--noform1") cfg.noform1 = true;
        else if (a == "--uses") cfg.uses = true;
        else if (a == "--misuse") cfg.misuse = true;
        else if (a == "--max-states") cfg.max_states = std::atol(NEXT);
        else if (a == "--vmax") cfg.vmax = std::atoi(NEXT);
        else if (a == "--max-viol") cfg.max_viol = std::atoi(NEXT);
        else if (a == "--budget") cfg.budget = std::atof(NEXT);
        else if (a == "--label") label = NEXT;
        else if (a == "--last") { int fd = open(NEXT, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, 65536)) return 2; g_last = (char*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
        else if (a == "--log") cfg.log = NEXT;
        else if (a == "--replay") { replay = NEXT; do_replay = true; }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    g_check_uses = cfg.uses; g_listen = cfg.tags;
    for (size_t i = 0; i < cfg.wide.size(); ++i) WORK_LIMIT = std::max(WORK_LIMIT, 16L * cfg.wide[i] * cfg.wide[i]);
    install_signals();
    if (do_replay) {
        g_hang_ticks = 80;
        Hist h = parse_hist(replay);
        // every operation is checked, then the observers (and misuse) battery
        run_hist(h, h.size(), 0);
        int mode_found = g_viols.empty() ? -1 : 0;
        if (g_viols.empty()) { run_hist(h, 0, 1); if (!g_viols.empty()) mode_found = 1; }
#if MCDEBUG
        if (g_viols.empty()) { run_hist(h, 0, 2); if (!g_viols.empty()) mode_found = 2; }
#endif
        std::printf("history: %s\n", hist_str(h).c_str());
        for (size_t i = 0; i < g_viols.size(); ++i) std::printf("REPLAY %s: %s\n", tag_name(g_viols[i].tag), g_viols[i].msg.c_str());
        return mode_found >= 0 ? 1 : 0;
    }
    if (!cfg.log.empty()) g_log = std::fopen(cfg.log.c_str(), "w");
    explore();
    print_found(label);
    std::printf("RESULT {\"config\":\"%s\",\"states\":%lu,\"transitions\":%llu,\"fault_runs\":%llu,\"thrown\":%llu,\"max_depth\":%llu,\"capped\":%llu,\"fixpoint\":%s,\"obs_states\":%lu,\"probes\":%llu,\"probe_ops\":%llu,\"execs\":%llu,\"runs\":%llu,\"outcomes\":%lu,\"out_of_scope\":%llu,\"found\":%lu,\"digest\":[",
        label.c_str(), (unsigned long)g_nodes.size() - 1, g_res.transitions, g_res.fault_runs, g_res.thrown, g_res.max_depth, g_res.capped, g_res.fixpoint ? "true" : "false", (unsigned long)g_obs_keys.size(), g_probe_runs, g_probe_ops, g_stat.exec, g_runs, (unsigned long)g_outcomes.size(), g_out_of_scope, (unsigned long)g_found.size());
    for (int i = 0; i < 10; ++i) std::printf("%s\"%llx\"", i ? "," : "", g_digest[i]);
    std::printf("],\"per_op\":{");
    bool first = true;
    for (std::map<std::string, u64>::iterator it = g_res.per_fam.begin(); it != g_res.per_fam.end(); ++it) { std::printf("%s\"%s\":%llu", first ? "" : ",", it->first.c_str(), it->second); first = false; }
    std::printf("},\"samples\":[");
    for (size_t i = 0; i < g_samples.size(); ++i) std::printf("%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
    std::printf("]}\n");
    return g_found.empty() ? 0 : 1;
}
