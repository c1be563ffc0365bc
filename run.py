#!/usr/bin/env python3
"""Driver of the checks.

  run.py <property> [quick|thorough]     decide one property on /repo's current tree
  run.py --replay FILE                   replay a reported violation
  run.py --list                          properties and jobs

Every check compiles the checker programs in mc/ against /repo/include (several build configurations), runs
them (each explores a bounded space exhaustively), replays what they report, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself could not run.
"""
import atexit, concurrent.futures, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
REPO = os.environ.get("CB_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
import jobs as J

def sh(cmd, timeout, env=None, out=None):
    """returns (rc, stdout, stderr); rc None on timeout. The whole process group is ended on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate(); return None, o, e

class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cbmc_"); atexit.register(shutil.rmtree, self.dir, True)
    def cmd(self, b, out, repo=True, syntax=False):
        c = [b.cc, "-std=c++" + b.std, b.opt, "-g1", "-w", "-ftrivial-auto-var-init=pattern", "-fno-lifetime-dse" if b.cc == "g++" else "-fno-strict-aliasing"] + list(b.flags)
        c = [x.replace("{HERE}", HERE).replace("{REPO}", REPO) for x in c]
        if "-fsanitize=thread" in c: c += ["-c"]        # the instrumentation only, see mc/tsan_rt.hpp; linked by link()
        c += ["-D" + d for d in b.defs] + (["-I" + REPO + "/include"] if repo else ["-DMC_REFERENCE"]) + ["-I" + HERE + "/mc"]
        c += ["-fsyntax-only", HERE + "/mc/" + b.src] if syntax else [HERE + "/mc/" + b.src, "-o", out] + list(b.libs)
        return c
    WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"
    def once(self, b, out, limit):
        if "-fsanitize=thread" not in b.flags: return sh(self.cmd(b, out), limit)
        r = sh(self.cmd(b, out + ".o"), limit)
        return r if r[0] else sh([b.cc, out + ".o", self.WRAP, "-o", out], limit)
    def build(self, b):
        out = os.path.join(self.dir, b.key())
        rc, o, e = self.once(b, out, 300)
        if rc == 0: return out, None
        rc2, o2, e2 = self.once(b, out, 600)   # rule out a transient failure
        if rc2 == 0: return out, None
        first = next((l for l in e2.splitlines() if "error" in l), (e2.splitlines() or ["?"])[0])
        rc3, o3, e3 = sh(self.cmd(b, out, repo=False, syntax=True), 600)
        # the same harness compiles against the Boost installed in the system: it is the tree that does not support this use
        # (MC_REFERENCE leaves out what was repaired in the repository since)
        return None, ("violation" if rc3 == 0 else "error", first)

SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}
def env_():
    e = dict(os.environ); e.update(SAN_ENV); return e

def parse(out):
    viols, res, bad = [], None, False
    for l in out.splitlines():
        try:
            if l.startswith("VIOL "): viols.append(json.loads(l[5:]))
            elif l.startswith("RESULT "): res = json.loads(l[7:])
        except ValueError: bad = True
    return viols, res, bad

def run_job(job, exe, tier, budget):
    last = exe + "." + job.name + ".last"
    cmd = [exe] + job.args + ["--label", job.name, "--budget", str(budget)] + (["--last", last] if job.uses_last() else [])
    t0 = time.time(); rc, out, err = sh(cmd, budget + 150, env_())
    viols, res, bad = parse(out)
    r = dict(job=job, viols=viols, res=res, wall=time.time() - t0, rc=rc, err=err, cmd=cmd, died=None)
    if res is None:
        hist = ""
        if os.path.exists(last):
            hist = open(last, "rb").read().split(b"\0")[0].decode("latin1")
            hist = hist.split(" ", 1)[1] if " " in hist else ""
        why = "timeout" if rc is None else "died with exit status %s" % rc
        msg = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l]
        r["died"] = dict(why=why, msg=(msg or err.splitlines() or [""])[0][:400], hist=hist)
    return r

def known(prop):
    """(prefix of the signature, description) of recorded findings; 'fixed:' lines suppress nothing"""
    r = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("finding: property=" + prop + " sig="):
            sig, desc = l.split(" sig=", 1)[1].rstrip("\n").split(" :: ", 1); r.append((sig, desc))
    return r

def log_diff(a, b, exes):
    """first observation that one of two explorations made and the other did not"""
    logs = []
    for r in (a, b):
        f = exes[r["job"].build.key()] + ".log"; sh([exes[r["job"].build.key()]] + r["job"].args + ["--log", f], 900, env_())
        logs.append({l.split("\t")[0]: l for l in open(f, errors="replace")}); os.unlink(f)
    for x, y, n in ((0, 1, b), (1, 0, a)):
        d = [l for k, l in logs[x].items() if k not in logs[y]]
        if d: l = d[0].rstrip("\n").split("\t"); return ("not seen in %s: %s" % (n["job"].name, l[0])), l[1] if len(l) > 1 else ""
    return "log lines agree, internal observations differ", ""

def write_replay(prop, k, job, builder, v, exe_cmd):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (prop, k))
    json.dump(dict(property=prop, job=job.name, build=job.build.as_dict(), args=job.args, history=v.get("hist", ""), tag=v.get("tag"), message=v.get("msg"), signature=v.get("sig"),
                   compile=" ".join(builder.cmd(job.build, "/tmp/replay")), run="/tmp/replay %s --replay '%s'" % (" ".join(job.args), v.get("hist", "")), how="run.py --replay " + f), open(f, "w"), indent=1)
    return f

def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = J.PLAN[prop](tier); budget = J.BUDGET[tier]
    builder = Builder(); builds = {}
    for j in plan.jobs: builds.setdefault(j.build.key(), j.build)
    viols, errors, notes = [], [], []        # viols: (job, dict, reproduced)
    results, exes = [], {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        comp = {k: ex.submit(builder.build, b) for k, b in builds.items()}
        for k, f in comp.items():
            exe, bad = f.result()
            if exe: exes[k] = exe
            else:
                j = next(j for j in plan.jobs if j.build.key() == k)
                if bad[0] == "violation": viols.append((j, dict(tag="COMPILE", sig="COMPILE|" + k, msg="the library does not compile in this configuration: " + bad[1][:300], hist="")))
                else: errors.append("%s does not compile: %s" % (k, bad[1][:300]))
        todo = sorted([j for j in plan.jobs if j.build.key() in exes], key=lambda j: -j.weight)
        futs = [ex.submit(run_job, j, exes[j.build.key()], tier, budget) for j in todo]
        results = [f.result() for f in futs]
    # judge
    for r in results:
        j = r["job"]
        if r["died"]:
            again = run_job(j, exes[j.build.key()], tier, budget * 2)    # alone, with a longer limit
            if again["died"]:
                d = again["died"]; viols.append((j, dict(tag="CRASH", sig="CRASH|" + d["why"], msg=d["why"] + ": " + d["msg"], hist=d["hist"])))
                continue
            notes.append("%s: %s, not reproduced" % (j.name, r["died"]["why"])); r.update(again)
        seen_retry = None
        for v in r["viols"]:
            rc, o, e = sh([exes[j.build.key()]] + j.args + ["--replay", v["hist"]], 300, env_())
            if rc == 0 or rc == 2:
                if seen_retry is None:
                    again = run_job(j, exes[j.build.key()], tier, budget * 2)
                    seen_retry = {x["sig"] for x in again["viols"]} | ({"died"} if again["died"] else set())
                if v["sig"] not in seen_retry and "died" not in seen_retry: notes.append("%s: not reproduced: %s %s" % (j.name, v["msg"], v["hist"])); continue
                v["note"] = "found only as part of the whole exploration"
            viols.append((j, v))
    for names, idxs in plan.groups:     # observation logs that have to agree
        rs = [r for r in results if r["job"].name in names and r["res"] and not r["viols"]]
        for r in rs[1:]:
            diff = [i for i in idxs if r["res"]["digest"][i] != rs[0]["res"]["digest"][i]]
            if not diff: continue
            line, hist = log_diff(rs[0], r, exes)
            viols.append((r["job"], dict(tag="DIGEST", sig="DIGEST|" + r["job"].name, msg="observations differ between %s and %s: %s" % (rs[0]["job"].name, r["job"].name, line), hist="", note=hist)))
    kn = known(prop); hits = {}; real = []
    for j, v in viols:
        k = next((x for x in kn if v["sig"].startswith(x[0])), None)
        if k: hits.setdefault(k, v)
        else: real.append((j, v))
    for sig, desc in kn:
        if (sig, desc) in hits: print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    # evidence
    ok = [r for r in results if r["res"]]
    cov = dict(states=sum(r["res"].get("states", 0) for r in ok), transitions=sum(r["res"].get("transitions", 0) for r in ok) + sum(r["res"].get("fault_runs", 0) for r in ok),
               traces_validated_against_impl=sum(r["res"].get("runs", 0) for r in ok), samples=[])
    for r in ok:
        for s in r["res"].get("samples", [])[:2]:
            if len(cov["samples"]) < 12: cov["samples"].append("%s: %s" % (r["job"].name, s))
    cov["evaluations"] = sum(r["res"].get("execs", 0) for r in ok)
    cov["fault_injections"] = sum(r["res"].get("fault_runs", 0) for r in ok)
    cov["exceptions_caught"] = sum(r["res"].get("thrown", 0) for r in ok)
    cov["distinct_outcomes"] = sum(r["res"].get("outcomes", 0) for r in ok)
    cov["exhaustive"] = bool(ok) and len(ok) == len(plan.jobs) and all(r["res"].get("fixpoint") for r in ok)
    cov["incomplete_jobs"] = [r["job"].name for r in results if not r["res"] or not r["res"].get("fixpoint")]
    cov["bounds"] = plan.bounds
    cov["oracle"] = plan.oracle
    cov["jobs"] = [dict(name=r["job"].name, build=r["job"].build.key(), args=" ".join(r["job"].args), wall_s=round(r["wall"], 2), **{k: v for k, v in (r["res"] or {}).items() if k in ("states", "transitions", "fault_runs", "thrown", "runs", "execs", "probes", "capped", "fixpoint", "outcomes", "per_op", "max_depth", "extra", "schedules")}) for r in results]
    cov["known_findings_seen"] = [v["sig"] for v in hits.values()]
    cov["notes"] = notes + errors
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=plan.assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, tmp[:-4])
    print("%s %s: %d states, %d transitions, %d histories run on the implementation, %d jobs, %.1f s%s" % (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(results), time.time() - t0, "" if cov["exhaustive"] else " (incomplete: %s)" % ",".join(cov["incomplete_jobs"])))
    if os.environ.get("CB_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"]): print("   %6.1fs %-40s %s" % (r["wall"], r["job"].name, " ".join(r["job"].args)))
    for n in notes: print("note: " + n)
    for k, (j, v) in enumerate(real[:12]):
        f = write_replay(prop, k, j, builder, v, "")
        print("  [%s] %s: %s" % (j.name, v["tag"], v["msg"])); print("      history: " + v["hist"])
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if real: return 1
    if errors or not ok:
        for e in errors: print("error: " + e)
        return 2
    return 0

def replay(f):
    d = json.load(open(f)); builder = Builder(); b = J.Build.from_dict(d["build"])
    exe, bad = builder.build(b)
    if not exe: print("does not compile: " + bad[1]); return 1
    if not d["history"]: cmd = [exe] + d["args"]
    else: cmd = [exe] + d["args"] + ["--replay", d["history"]]
    rc, o, e = sh(cmd, 900, env_()); print(o[-6000:]); print(e[-3000:]); print("exit status", rc)
    return 0 if rc == 0 else 1

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    if not a or a[0] == "--list":
        for p in J.PLAN:
            for t in ("quick", "thorough"):
                for j in J.PLAN[p](t).jobs: print(p, t, j.name, j.build.key(), " ".join(j.args))
        sys.exit(0)
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
