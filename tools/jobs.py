"""What each check runs: build configurations, bounds, tags and families (see mc/bfs.hpp for their meaning)."""
EN = ["int", "copy", "move", "tmove", "monly", "nodtor"]
CN = ["cb", "so"]
BUDGET = dict(quick=150, thorough=700)

class Build:
    def __init__(s, src, std="17", cc="g++", opt="-O1", defs=(), flags=(), libs=()):
        s.src, s.std, s.cc, s.opt, s.defs, s.flags, s.libs = src, std, cc, opt, tuple(defs), tuple(flags), tuple(libs)
    def key(s):
        k = "_".join([s.src.split(".")[0], s.cc, s.std, s.opt] + list(s.defs) + list(s.flags))
        return "".join(c if c.isalnum() or c in "_+" else "" for c in k.replace("=", "").replace(",", ""))
    def as_dict(s): return dict(src=s.src, std=s.std, cc=s.cc, opt=s.opt, defs=s.defs, flags=s.flags, libs=s.libs)
    @staticmethod
    def from_dict(d): return Build(**d)

class Job:
    def __init__(s, name, build, args, weight=1, group=None): s.name, s.build, s.args, s.weight, s.group = name, build, [str(a) for a in args], weight, group
    def uses_last(s): return s.build.src == "mc_main.cpp" and any("sanitize" in f for f in s.build.flags)

class Plan:
    def __init__(s, jobs, bounds="", oracle="", assumptions=(), groups=()):
        s.jobs, s.bounds, s.oracle, s.assumptions, s.groups = jobs, bounds, oracle, list(assumptions), list(groups)
        seen = {}
        for j in jobs:      # unique names
            seen[j.name] = seen.get(j.name, 0) + 1
            if seen[j.name] > 1: j.name += "#%d" % seen[j.name]

SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
def eng(cont, elem, args, std="17", cc="g++", opt="-O1", dbg=0, ac=0, san=False, fancy=0, sz=0, flags=(), weight=None, name=None, group=None, xdefs=()):
    defs = ["CONT=%d" % cont, "ELEM=%d" % elem, "MCDEBUG=%d" % dbg] + list(xdefs) + (["ALLOC_CONSTRUCT=1"] if ac else []) + (["FANCY=1"] if fancy else []) + (["SZ=%d" % sz] if sz else [])
    args = args.split() if isinstance(args, str) else list(args)
    n = name or "-".join(filter(None, [CN[cont], EN[elem], "c++" + std, "clang" if cc != "g++" else "", opt if opt != "-O1" else "", "debug" if dbg else "", "construct" if ac else "", "fancy" if fancy else "", "size%d" % sz if sz else "", "san" if san else "", "".join(flags).replace("-f", ""),
        "wide" if "--wide" in args else "", "faults" if "--faults" in args else ""]))
    cap = int(args[args.index("--cap") + 1]) if "--cap" in args else 5
    w = weight or (cap ** 4) * (8 if cont else 1) * (10 if "--faults" in args else 1) * (3 if san else 1)
    return Job(n, Build("mc_main.cpp", std, cc, opt, defs, (SAN if san else ()) + tuple(flags)), args, w, group)

def halfmove(cont, kind, args):
    """copyable elements of which only the move construction (kind 1) or only the move assignment (kind 2) may throw"""
    j = eng(cont, 3, args, name="%s-%s-faults" % (CN[cont], (0, "mctor-throws", "massign-throws")[kind]))
    return Job(j.name, j.build._replace(defs=tuple(j.build.defs) + ("MK=%d" % kind,)) if hasattr(j.build, "_replace") else Build(j.build.src, j.build.std, j.build.cc, j.build.opt, list(j.build.defs) + ["MK=%d" % kind], j.build.flags), j.args, j.weight)

ORACLE = "reference model (vector of ids + capacity) stepped next to the real container; exact liveness, allocator and cost monitors; every transition is executed on the implementation"
ASSUME = ["bounded: capacities up to the stated bound (wide jobs: boundary geometries of larger capacities)", "data independence: values are ids, so element values beyond identity are covered for content operations",
          "the recording allocator and element types in mc/rt.hpp are faithful"]

# standard sets of jobs: family-focused exploration of both containers with all element types
def family(focus, tags, tier, b=(8, 6, 7, 6, 7), s=(5, 4, 4, 4, 4), extra="", wide=True, alph=None, deep=None, elems=(0, 1, 2, 3, 4), conts=(0, 1), wideelems=(0, 2)):
    jobs = []; more = 0 if tier == "quick" else 1
    common = "--focus %s --tags %s %s" % (focus, tags, extra) + (" --alph " + alph if alph else "")
    for e in elems:
        if 0 in conts: jobs.append(eng(0, e, common + " --cap %d" % (b[e] + 2 * more)))
        if 1 in conts: jobs.append(eng(1, e, common + " --cap %d" % (s[e] + more)))
    for e, d, n in ((0, "VT=double", "double"), (0, "PAD=15", "trivial-large"), (1 if 1 in elems else 2, "PAD=15", "class-large"), (3 if 1 not in elems else -1, "PAD=15", "tmove-large")): # other sizes and kinds of elements
        for c in conts:
            if e in elems: jobs.append(eng(c, e, common + " --cap %d" % ((5, 4)[c] + more), xdefs=(d,), name="%s-%s" % (CN[c], n)))
    if wide:
        for e in wideelems:
            for c in conts: jobs.append(eng(c, e, common + " --wide " + ("8,33,100" if tier == "quick" else "8,12,16,33,64,100,200"), weight=3000))
        for c in conts: # thresholds on sizes
            jobs.append(eng(c, wideelems[0], common + " --noprobes --nobattery --wide " + ("300,1100" if tier == "quick" else "257,300,511,1100,2100"), weight=3000, name="%s-%s-larger" % (CN[c], EN[wideelems[0]])))
    if deep:
        for e in ((0, 1) if tier == "quick" else (0, 1, 2, 3)):
            for c in conts: jobs.append(eng(c, e, "--focus %s --tags %s --alph %s --noprobes --nosoprobes --lite-min --cap %d" % (focus, tags, deep, (12, 7)[c] + 2 * more), name="%s-%s-deep" % (CN[c], EN[e])))
    return jobs
def bounds(jobs): return "; ".join("%s: %s" % (j.name, " ".join(j.args)) for j in jobs)
def plan(jobs, oracle=ORACLE, assumptions=ASSUME, groups=()): return Plan(jobs, bounds(jobs), oracle, assumptions, groups)

CONTENT = "SEM,OBS"
def iters(cont, ni, nj, nc, args, dbg=1, std="17", cc="g++"):
    return Job("iters-%s-%d%d%d-c++%s%s%s" % (CN[cont], ni, nj, nc, std, "" if dbg else "-release", "" if cc == "g++" else "-clang"), Build("iters.cpp", std, cc, "-O1", ["CONT=%d" % cont, "MCDEBUG=%d" % dbg, "NI=%d" % ni, "NJ=%d" % nj, "NC=%d" % nc]), args.split(), 20000)
def iter_jobs(q, uses):
    j = []; u = " --uses %d" % uses
    for c in (0, 1):
        j += [iters(c, 2, 0, 1, "--cap 3" + u), iters(c, 1, 1, 2, "--cap 1" + u), iters(c, 2, 0, 2, "--cap 1" + u), iters(c, 3, 0, 1, "--cap 1" + u), iters(c, 2, 1, 1, "--cap 1" + u), iters(c, 1, 1, 1, "--cap 2" + u, std="11"), iters(c, 1, 1, 1, "--cap 2" + u, std="20", cc="clang++")]
        j += [iters(c, 1, 2, 1, "--cap 1" + u), iters(c, 2, 0, 2, "--cap 2 --depth 8" + u)] if q else [iters(c, 1, 1, 1, "--cap 3" + u), iters(c, 2, 1, 1, "--cap 2" + u), iters(c, 3, 0, 1, "--cap 2" + u), iters(c, 1, 2, 1, "--cap 2" + u), iters(c, 2, 0, 2, "--cap 2 --depth 11 --max-states 8000000" + u), iters(c, 1, 1, 2, "--cap 2 --depth 11 --max-states 8000000" + u), iters(c, 4, 0, 1, "--cap 1" + u)]
        if not uses: j += [iters(c, 1, 1, 2, "--cap 1" + u, dbg=0), iters(c, 2, 0, 1, "--cap 2" + u, dbg=0)]
    return j
def disp(ops, q):
    """(count, value) calls with every pair of arithmetic types (mc/disp.cpp)"""
    j = [Job("disp-%d" % p, Build("disp.cpp", "17", "g++", "-O1", ["PART=%d" % p]), ["--ops", ops, "--max", 260 if q else 600], 2000) for p in range(4)]
    return j + [Job("disp-%d-c++%s%s" % (p, st, "" if cc == "g++" else "-clang"), Build("disp.cpp", st, cc, "-O1", ["PART=%d" % p]), ["--ops", ops, "--max", 260], 2000) for p, st, cc in (((1, "03", "g++"),) if q else [(p, st, cc) for p in range(4) for st, cc in (("03", "g++"), ("20", "clang++"))])]
def big(q, ops=None, conts=(0, 1)):
    """more than 2^31 and 2^32 elements (mc/big.cpp)"""
    caps = (2**31 + 1, 2**32 + 1) if q else (2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1)
    return [Job("big-%s-%d" % (CN[c], n), Build("big.cpp", "17", "g++", "-O2", ["CONT=%d" % c]), ["--cap", n] + (["--ops", ops] if ops else []) + ([] if q or ops else ["--slow", 1]), 30000) for c in conts for n in caps]
def C01(t): return plan(family("PUSH", CONTENT, t, deep="CTOR,PUSH,LIN") + [eng(0, 1, "--focus PUSH --tags SEM,OBS --cap 5", std="03")] + big(t == "quick", "PUSHB,PUSHF,POPB,POPF"))
def C02(t): return plan(family("INS", CONTENT, t, b=(7, 6, 6, 6, 6), s=(5, 4, 4, 4, 4)) + [eng(0, 1, "--focus INS --tags SEM,OBS --cap 5", std="03")] + disp("ins", t == "quick") + big(t == "quick", "INS,RINS,INSN,RINSN"))
def C03(t): return plan(family("ERASE", CONTENT, t, deep="PUSH,ERASE") + [eng(0, 1, "--focus ERASE --tags SEM,OBS --cap 5", std="03")] + big(t == "quick", "ERASE,RERASE,ERASER,RERASER,EBEG,EEND,CLEAR"))
def C04(t): return plan(family("CAP", CONTENT, t, b=(7, 6, 6, 6, 6)))
def C05(t): return plan(family("CTOR,ASSIGN,TWO", CONTENT, t, b=(6, 5, 5, 5, 6), s=(4, 4, 4, 3, 4), extra="--cap2 4") + [eng(0, 1, "--focus CTOR,ASSIGN,TWO --tags SEM,OBS --cap 4 --cap2 3", std="03")] + disp("ctor", t == "quick"))
def C06(t):
    lin = []
    for c in (0, 1):
        for e in ((0, 2) if t == "quick" else (0, 1, 2, 3, 4)):
            lin.append(eng(c, e, "--focus LIN --tags SEM,VIEW --alph PUSH,LIN --noprobes --nosoprobes --lite-min --cap %d --vmax 4000" % ((24, 9)[c] + (0 if t == "quick" else (16, 3)[c])), name="%s-%s-linear" % (CN[c], EN[e]), weight=9000))
    return plan(family("LIN", "SEM,VIEW,OBS", t) + lin + [eng(c, 1, "--focus ALL --tags VIEW --cap %d" % (5, 4)[c], name="%s-views" % CN[c]) for c in (0, 1)] + big(t == "quick", "LOOK,ROT"))
def C07(t): return plan(family("ALL", "OBS", t, b=(7, 5, 5, 4, 5), s=(5, 4, 4, 3, 4), elems=(0, 1, 4), wideelems=(0,)) + [eng(0, 0, "--focus ALL --tags OBS --cap 5", dbg=1), eng(0, 0, "--focus ALL --tags OBS --cap 5", std="03")] + big(t == "quick", "LOOK"))
def C08(t):
    """all pairs of containers x all words (mc/cmp.cpp)"""
    q = t == "quick"; j = []
    KN = ["int", "eqlt", "weak", "nan", "moveonly", "coarse", "padded", "schar"]
    def c(cont, kind, args, std="17", cc="g++", dbg=0, opt="-O2"):
        return Job("cmp-%s-%s-c++%s%s%s" % (CN[cont], KN[kind], std, "-debug" if dbg else "", "-clang" if cc != "g++" else ""), Build("cmp.cpp", std, cc, opt, ["CONT=%d" % cont, "KIND=%d" % kind, "MCDEBUG=%d" % dbg]), args.split(), 50)
    for k in range(8):
        j += [c(0, k, "--cap %d --letters %d --fcap %d --wide %s" % (5, 4 if not q else 3, 4 if k not in (3, 6, 7) else 3, "9,17" if q else "9,17,33")), c(1, k, "--cap %d --letters %d --fcap %d --wide %s" % (4, 3, 3 if q else 4, "9" if q else "9,17"))]
        if k not in (1, 4): j += [c(cn, k, "--cap 3 --letters 4") for cn in (0, 1)]
        if not q: j += [c(cn, k, "--cap 3 --letters 4", std=st, cc=cc) for cn in (0, 1) for st in ("11", "20") for cc in ("g++", "clang++")]
    for cn in (0, 1): j += [c(cn, 1, "--cap 3 --letters 3", std="03"), c(cn, 2, "--cap 3 --letters 4", std="20"), c(cn, 1, "--cap 3 --letters 3 --wide 9", dbg=1), c(cn, 5, "--cap 3 --letters 4", std="20", cc="clang++")]
    return plan(j, oracle="element-by-element comparison of the words the two containers were built from, using only the element type's == and <; all six operators per ordered pair", assumptions=["bounded: all layouts and words up to the stated capacity and alphabet; boundary layouts with every single-position difference at larger capacities"])
def C09(t):
    j = []
    for e in (1, 2, 3, 4):
        j += [eng(0, e, "--focus ALL --tags LIFE,ALLOC --cap %d" % (6 if t == "quick" else 8)), eng(1, e, "--focus ALL --tags LIFE,ALLOC --cap %d" % (4 if t == "quick" else 5))]
    for e in (0, 1): j += [eng(0, e, "--focus ALL --tags LIFE,ALLOC --cap %d" % (5 if t == "quick" else 7), san=True), eng(1, e, "--focus ALL --tags LIFE,ALLOC --cap %d --noprobes" % (3 if t == "quick" else 4), san=True)]
    j += [eng(0, 2, "--focus ALL --tags LIFE,ALLOC --wide 9,40"), eng(1, 2, "--focus ALL --tags LIFE,ALLOC --wide 9,40"), eng(0, 1, "--focus ALL --tags LIFE,ALLOC --cap 4", std="03"), eng(0, 1, "--focus ALL --tags LIFE,ALLOC --cap 5", dbg=1)]
    for e in (1, 2, 3): j += [eng(0, e, "--focus ALL --tags LIFE,ALLOC --faults --noprobes --nobattery --cap %d" % (4 if t == "quick" else 5)), eng(1, e, "--focus ALL --tags LIFE,ALLOC --faults --noprobes --nobattery --nosoprobes --nobattery --cap %d" % (2 if t == "quick" else 3))]
    return plan(j)
def C10(t):
    q = t == "quick"; j = []
    for e in (1, 2, 3): j += [eng(0, e, "--focus ALL --tags EXC --faults --cap %d" % (5 if q else 6)), eng(1, e, "--focus ALL --tags EXC --faults --cap %d" % (3 if q else 4))]
    j += [eng(0, 4, "--focus ALL --tags EXC --faults --cap %d" % (5 if q else 6)), eng(0, 0, "--focus ALL --tags EXC --faults --cap 5"), eng(1, 0, "--focus ALL --tags EXC --faults --cap 3"), eng(1, 4, "--focus ALL --tags EXC --faults --cap 3")]
    for f in ("INS", "LIN,ERASE,PUSH", "CAP"): j.append(eng(0, 3, "--focus %s --tags EXC --faults --noprobes --nobattery --wide %s" % (f, "8" if q else "8,13"), name="cb-tmove-wide-faults-" + f))
    for c in (0, 1): j += [halfmove(c, k, "--focus ALL --tags EXC --faults --noprobes --nobattery --nosoprobes --cap %d" % ((4, 2)[c] + (0 if q else 1))) for k in (1, 2)]
    return plan(j)
def C11(t):
    q = t == "quick"; j = []
    for e in (1, 2, 3): j += [eng(0, e, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --cap %d --cap2 3" % (6 if q else 8)), eng(1, e, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --nosoprobes --cap %d --cap2 3" % (4 if q else 5))]
    j += [eng(0, 0, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --cap 6"), eng(1, 0, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --nosoprobes --cap 5"), eng(0, 4, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --cap 6")]
    j += [eng(c, 1, "--focus X --alph ALL,X --tags LIMIT,STRONG --cap 2", name="%s-copy-extremes" % CN[c]) for c in (0, 1)]
    for c in (0, 1): j += [halfmove(c, k, "--focus CAP,TWO --tags STRONG --faults --noprobes --nobattery --nosoprobes --cap %d --cap2 3" % ((5, 3)[c] + (0 if q else 1))) for k in (1, 2)]
    return plan(j)
def C12(t):
    j = family("PUSH,INS,ERASE,CAP,LIN,ASSIGN,TWO", "MOVE", t, b=(0, 0, 6, 6, 6), s=(0, 0, 4, 4, 4), elems=(2, 3, 4), wideelems=(2, 4))
    f = 4 if t == "quick" else 5
    j += [eng(0, 3, "--focus PUSH,INS,ERASE,CAP,LIN --tags MOVE --faults --noprobes --nobattery --cap %d" % f), eng(1, 3, "--focus PUSH,INS,ERASE,CAP,LIN --tags MOVE --faults --noprobes --nobattery --nosoprobes --cap 3")]
    for c in (0, 1): j += [halfmove(c, k, "--focus PUSH,INS,ERASE,CAP,LIN --tags MOVE --faults --noprobes --nobattery --nosoprobes --cap %d" % ((4, 3)[c] + (0 if t == "quick" else 1))) for k in (1, 2)]
    return plan(j)
def C13(t): return plan(family("ALL", "ITER,ADDR", t, b=(6, 6, 6, 5, 6), s=(4, 4, 4, 4, 4), wideelems=(0, 4)) + [eng(0, 0, "--focus ALL --tags ITER,ADDR --cap 5", dbg=1)])
def C14(t):
    q = t == "quick"; j = []
    for e in (0, 1, 2, 4): j += [eng(0, e, "--focus ALL --tags DEBUG,ITER --uses --misuse --noprobes --nobattery --cap %d" % (4 if q else 5), dbg=1), eng(1, e, "--focus ALL --tags DEBUG,ITER --uses --misuse --noprobes --nobattery --nosoprobes --cap %d" % (3 if q else 4), dbg=1)]
    j += [eng(0, 3, "--focus ALL --tags DEBUG,ITER --uses --misuse --noprobes --nobattery --cap 3", dbg=1), eng(0, 1, "--focus ALL --tags DEBUG,ITER --faults --uses --noprobes --nobattery --cap 3", dbg=1)]
    return plan(j + iter_jobs(q, 1))
def C16(t): return plan(family("ALL", "MEM,ADDR", t, b=(7, 6, 6, 5, 6), conts=(0,), wideelems=(0, 4)) + [eng(0, 1, "--focus ALL --tags MEM,ADDR --cap 5", std="03")])
def C17(t): return plan(family("ALL", "SEM,OBS,VIEW", t, s=(6, 5, 5, 4, 5), conts=(1,), wideelems=(0, 2)) + [eng(1, 1, "--focus ALL --tags SEM,OBS,VIEW --cap 4", std="03")])
def C18(t):
    j = family("ALL", "MEM", t, s=(6, 5, 5, 4, 5), conts=(1,), wideelems=(0,))
    j.append(eng(1, 0, "--focus PUSH,CAP,ERASE --alph PUSH,CAP,ERASE --tags MEM --noprobes --lite-min --wide " + ("5,6,7,9,10,17,31,50" if t == "quick" else "5,6,7,8,9,10,11,12,13,14,15,16,17,24,31,32,33,50,64,65,129"), name="so-int-growth", weight=9999))
    g = Build("grow.cpp", "17", "g++", "-O2")
    j.append(Job("so-grow", g, ["--cap", "10,64,129,200" if t == "quick" else "10,33,64,100,129,200,256,300,400"], 40))
    j.append(Job("so-grow-large", g, ["--cap", "1000,5000,20000,100000" if t == "quick" else "1000,2000,5000,20000,100000,200000", "--depth", 6 if t == "quick" else 8], 40))
    return plan(j)
def C19(t):
    w = "8,33,100" if t == "quick" else "8,16,33,64,100,200,400"
    j = [eng(c, e, "--focus ALL --tags COST --wide " + w, weight=9000 + e) for c in (0, 1) for e in (1, 2, 3, 4)]
    j += [eng(0, e, "--focus ALL --tags COST --noprobes --cap 6") for e in (1, 2, 3, 4)] + [eng(1, e, "--focus ALL --tags COST --noprobes --cap 4") for e in (1, 2, 4)]
    j += [eng(0, 0, "--focus ALL --tags COST --cap 6", ac=1), eng(0, 0, "--focus ALL --tags COST --wide 20,100", ac=1)]
    return plan(j)
INST = ("-fsanitize=thread", "-fno-builtin", "-I{HERE}/mc/shim", "-I{REPO}")
def C20(t):
    """access independence and schedules (mc/race.cpp), bounded buffers (mc/bound.cpp)"""
    q = t == "quick"; j = []
    for c in (0, 1):
        for e in (0, 1, 2):
            for cc, std in ((("g++", "17"),) if q else (("g++", "17"), ("clang++", "17"), ("g++", "11"), ("clang++", "20"))):
                j.append(Job("race-%s-%s-c++%s%s" % (CN[c], ["int", "copy", "move"][e], std, "-clang" if cc != "g++" else ""), Build("race.cpp", std, cc, "-O1", ["CONT=%d" % c, "ELEM=%d" % e], INST), ["--fcap", 5 if q else 7, "--cap", 2 if q or cc != "g++" or std != "17" else 3, "--bcap", 1 if q else 2, "--bound", 2] , 30))
        if q: j.append(Job("race-%s-copy-c++20-clang" % CN[c], Build("race.cpp", "20", "clang++", "-O1", ["CONT=%d" % c, "ELEM=1"], INST), ["--fcap", 4, "--cap", 1, "--bcap", 1], 10))
    for v in range(6): j.append(Job("bound-%s" % ["example", "example-space-optimized", "queue", "queue-space-optimized", "shuffle", "comparison"][v], Build("bound.cpp", "17", "g++", "-O1", ["VAR=%d" % v], INST), ["--bound", 2 if q else 3, "--items", 2 if q else 3], 25))
    return plan(j, oracle="every instrumented memory access is attributed to the executing thread: own memory, shared read-only container, or neither; results of every schedule compared with the results obtained alone; bounded buffers: delivery log, vector-clock race detection, deadlock detection",
        assumptions=["sequentially consistent memory (sufficient for code without data races, which is what is checked)", "release builds: the iterator registry of the debug support is documented not to be thread safe", "library-internal atomics would be ignored (there are none)", "bounded: preemption bound and thread counts as stated"])
def C21(t):
    q = t == "quick"; j = []
    for c in (0, 1):
        for e in (0, 1):
            j.append(eng(c, e, "--focus X --alph ALL,X --tags LIMIT --noprobes --nobattery --nosoprobes --lite-min --cap %d" % ((4, 3)[c] + (0 if q else 1))))
            for ms in (5, 100): j.append(eng(c, e, "--focus X --alph ALL,X --tags LIMIT --noprobes --nobattery --nosoprobes --lite-min --cap 2 --maxsize %d" % ms, name="%s-%s-maxsize%d" % (CN[c], EN[e], ms)))
        j.append(eng(c, 1, "--focus X --alph PUSH,X --tags LIMIT --noprobes --nosoprobes --wide 6,20", name="%s-copy-wide-extremes" % CN[c]))
        j.append(eng(c, 0, "--focus X --alph PUSH,X --tags LIMIT --noprobes --nosoprobes --lite-min --cap 3", san=True))
        j.append(eng(c, 1, "--focus ALL --tags LIMIT,SEM,LIFE --noprobes --nosoprobes --cap 3", name="%s-copy-basic" % CN[c]))
        # the allocator's size_type is 32 bits wide
        j.append(eng(c, 0, "--focus X --alph ALL,X --tags LIMIT --noprobes --nobattery --nosoprobes --lite-min --cap %d" % (4, 3)[c], sz=32, name="%s-int-size32" % CN[c]))
        j.append(eng(c, 1, "--focus X --alph PUSH,X --tags LIMIT --noprobes --nosoprobes --wide 6,20", sz=32, name="%s-copy-size32-wide" % CN[c]))
        j.append(eng(c, 2, "--focus ALL --tags LIMIT,SEM,OBS,LIFE --nosoprobes --cap %d" % (4, 3)[c], sz=32, name="%s-move-size32-basic" % CN[c]))
    j += big(q)
    return plan(j)
def C22(t):
    q = t == "quick"; j = []
    for e in (0, 1, 2, 4):
        j += [eng(0, e, "--focus ALL --tags ALLOC --cap %d" % (5 if q else 7), ac=1), eng(1, e, "--focus ALL --tags ALLOC --cap %d" % (3 if q else 5), ac=1)]
        j += [eng(0, e, "--focus ALL --tags ALLOC --cap %d --cap2 4" % (5 if q else 7)), eng(1, e, "--focus ALL --tags ALLOC --cap %d" % (4 if q else 5))]
    for c in (0, 1):
        j.append(eng(c, 1, "--focus ALL --tags ALLOC --cap %d" % (5, 3)[c], std="03"))
        # class without a destructor: only the allocator sees its end
        j += [eng(c, 5, "--focus ALL --tags ALLOC,LIFE --cap %d" % ((5, 3)[c] + (0 if q else 2)), ac=1, std=s, cc=cc) for s, cc in (("17", "g++"), ("11", "clang++"))]
        j += [eng(c, 5, "--focus ALL --tags ALLOC,LIFE --wide 8,33", ac=1), eng(c, 5, "--focus ALL --tags ALLOC,LIFE --cap %d" % (5, 3)[c], ac=1, dbg=1)]
    j += [eng(0, 1, "--focus ALL --tags ALLOC,EXC --faults --noprobes --nobattery --cap 4", ac=1), eng(0, 2, "--focus ALL --tags ALLOC --cap 4", ac=1, std="20"), eng(0, 2, "--focus ALL --tags ALLOC --cap 4", ac=1, std="11")]
    return plan(j)
DIG03, DIG11 = [0, 1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]     # observation digests comparable from C++03 on / from C++11 on (TWO involves moves)
def C15(t):
    """debug and release runs of the same exploration: same observations; no report for correct programs"""
    q = t == "quick"; j = []; groups = []
    for c in (0, 1):
        for e in (0, 1, 2, 4):
            for n, a in (("all", "--focus ALL --tags DEBUG,SEM,OBS,ITER,LIFE --cap %d" % ((5, 4)[c] + (0 if q else 1))),) + ((("faults", "--focus ALL --tags DEBUG,SEM,LIFE,EXC --faults --cap %d" % ((4, 3)[c])),) if e in (1, 2) else ()) + ((("self", "--focus SELF --alph ALL,SELF --tags DEBUG,SEM,LIFE --cap 5"),) if e == 1 else ()):
                if c and n != "all": a = a.replace("--cap 5", "--cap 3")
                a += " --noprobes --nosoprobes"
                p = [eng(c, e, a + " --nobattery" * (d == 0 and n == "faults"), dbg=d, name="%s-%s-%s-%s" % (CN[c], EN[e], n, ("release", "debug")[d])) for d in (0, 1)]
                j += p; groups.append(([x.name for x in p], DIG11))
    return plan(j + iter_jobs(q, 0), groups=groups)
def C23(t):
    q = t == "quick"; j = []; groups = []
    cfgs = [("g++", "03", "-O0"), ("g++", "11", "-O2"), ("g++", "17", "-O3"), ("g++", "20", "-O2"), ("clang++", "03", "-O2"), ("clang++", "17", "-O2")]
    if not q: cfgs += [("g++", "03", "-O3"), ("g++", "14", "-O1"), ("g++", "23", "-O2"), ("clang++", "11", "-O1"), ("clang++", "14", "-O3"), ("clang++", "20", "-O2"), ("clang++", "17", "-O0")]
    for c in (0, 1):
        for e in ((0, 1, 2) if q else (0, 1, 2, 3, 4)):
            for n, a in (("", "--focus ALL --tags SEM,OBS,LIFE,ALLOC --noprobes --nosoprobes --cap %d" % ((4, 3)[c] + (0 if q else 1))), ("faults", "--focus ALL --tags SEM,LIFE,ALLOC,EXC --faults --noprobes --nobattery --nosoprobes --cap %d" % ((3, 2)[c] + (0 if q else 1)))):
                if n and e != 1: continue
                g03, g11 = [], []
                for cc, std, opt in cfgs + ([("g++", "14", "-Os")] if q and e == 1 and not n else []):
                    if e >= 2 and std == "03": continue
                    x = eng(c, e, a, std=std, cc=cc, opt=opt, flags=("-DNDEBUG",) if opt in ("-O3", "-Os") else (), name="-".join(filter(None, [CN[c], EN[e], cc, "c++" + std, opt[1:], n]))); j.append(x)
                    g03.append(x.name)
                    if std != "03": g11.append(x.name)
                if not n:       # builds without exceptions (boost::throw_exception supplied by the user) and without type information
                    for cc, std, f in (("g++", "17", "-fno-exceptions"), ("g++", "17", "-fno-rtti")) + (() if e == 0 and q else (("clang++", "03", "-fno-exceptions"),) if e < 2 else (("clang++", "11", "-fno-exceptions"),)):
                        x = eng(c, e, a, std=std, cc=cc, flags=(f,)); j.append(x); g03.append(x.name)
                        if std != "03": g11.append(x.name)
                groups += [(g03, DIG03), (g11, DIG11)]
    for c in (0, 1):
        for e in ((0, 2) if q else (0, 1, 2, 3, 4)):
            for cc, std in ((("g++", "20"), ("clang++", "11")) if q else (("g++", "20"), ("clang++", "11"), ("clang++", "20"))):
                j.append(eng(c, e, "--focus ALL --tags SEM,OBS,LIFE,ALLOC --noprobes --nosoprobes --cap %d" % ((4, 3)[c] + (0 if q else 1)), std=std, cc=cc, san=True))
        for std in ("03",): j.append(eng(c, 1, "--focus ALL --tags SEM,OBS,LIFE,ALLOC --noprobes --nosoprobes --cap 3", std=std, san=True))
        j.append(eng(c, 1, "--focus X --alph ALL,X --tags LIMIT --noprobes --nobattery --nosoprobes --lite-min --cap %d" % (3, 2)[c], flags=("-fno-exceptions",), name=CN[c] + "-copy-noexceptions-extremes"))
    return plan(j, groups=groups)
def C24(t): return plan(family("SELF", "SEM,OBS,LIFE,ALLOC", t, elems=(0, 1, 2, 3), alph="ALL,SELF", b=(8, 7, 7, 6, 0), s=(6, 5, 5, 4, 0), deep="PUSH,LIN,SELF") + [eng(c, e, "--focus SELF --alph PUSH,LIN,SELF --tags SEM,LIFE --cap %d" % (6, 4)[c], san=True) for c in (0, 1) for e in (0, 1)])

def C25(t):
    """Allocator::pointer is an offset pointer; after every operation the memory is moved to another address"""
    q = t == "quick"; j = []; T = "--focus ALL --tags SEM,OBS,VIEW,LIFE,ALLOC,ITER,MEM,LIMIT "
    for e in (0, 1, 2, 3, 4):
        for c in (0, 1): j.append(eng(c, e, T + "--cap %d" % ((5, 4)[c] + (0 if q else 1)), fancy=1))
    for c in (0, 1):
        for e in (0, 2): j.append(eng(c, e, T + "--wide " + ("8,33" if q else "8,17,33,100"), fancy=1, weight=3000))
        j += [eng(c, 0, T + "--cap %d" % (4, 3)[c], fancy=1, std="20", cc="clang++"), eng(c, 2, T + "--cap %d" % (4, 3)[c], fancy=1, std="11", ac=1)]
        j.append(eng(c, 3, "--focus ALL --tags EXC --faults --noprobes --nobattery --nosoprobes --cap %d" % ((3, 2)[c] + (0 if q else 1)), fancy=1))
        j.append(eng(c, 0, "--focus X --alph ALL,X --tags LIMIT --noprobes --nobattery --nosoprobes --lite-min --cap %d" % ((3, 2)[c]), fancy=1, name=CN[c] + "-int-extremes-fancy"))
    return plan(j, assumptions=ASSUME + ["boost::interprocess::offset_ptr of the installed Boost is a faithful relocatable pointer", "release builds: the documentation excludes the debug support here"])

def C26(t):
    """debug support: every slot without an element is filled with 0xcc after every operation"""
    q = t == "quick"; j = []; T = "--focus ALL --tags FILL --nobattery --nosoprobes "
    for e in (0, 1, 2, 3, 4):
        for c in (0, 1): j.append(eng(c, e, T + "--cap %d --cap2 %d" % (((6, 5, 5, 4, 5), (4, 4, 4, 3, 4))[c][e] + (0 if q else 1), (4, 3)[c]), dbg=1))
    for c in (0, 1):
        for e in (0, 2): j.append(eng(c, e, T + "--wide " + (("8,33", "8")[c] if q else "8,17,33,100"), dbg=1, weight=3000))
        j += [eng(c, 2, T + "--cap 3", dbg=1, std="20", cc="clang++"), eng(c, 5, T + "--cap 3", dbg=1, ac=1)]
        j.append(eng(c, 4, "--focus PUSH,ERASE,LIN,SELF --alph PUSH,ERASE,LIN --tags FILL --noprobes --nobattery --nosoprobes --lite-min --cap %d" % ((9, 5)[c] + (0 if q else 2)), dbg=1, name=CN[c] + "-monly-debug-deep"))
    return plan(j, oracle="byte-by-byte inspection of every allocated block after every operation: a slot that holds no live element consists of 0xcc only")

def C27(t):
    """standard algorithms on container ranges (mc/alg.cpp)"""
    q = t == "quick"; j = []
    def a(c, k, args, std="17", cc="g++", dbg=0, wide=False): return Job("alg-%s-%s-c++%s%s%s%s" % (CN[c], ["int", "monly", "string"][k], std, "-debug" if dbg else "", "" if cc == "g++" else "-clang", "-wide" if wide else ""), Build("alg.cpp", std, cc, "-O1", ["CONT=%d" % c, "KIND=%d" % k, "MCDEBUG=%d" % dbg]), args.split(), 3000)
    for c in (0, 1):
        for k in (0, 1, 2): j.append(a(c, k, "--cap %d --letters 3 --fcap %d" % ((((5, 4), (4, 2)) if q else ((7, 5), (5, 3)))[c])))
        j += [a(c, 0, "--cap %d --letters 2" % (4, 3)[c], std="20"), a(c, 0, "--cap %d --letters 2" % (4, 2)[c], dbg=1)]
        if c == 0 or not q: j += [a(c, 0, "--cap 3 --letters 2", cc="clang++")]
        j.append(a(c, 0, "--cap 0 --wide " + ("20" if q else "20,33,40"), wide=True))
    return plan(j, oracle="the same algorithm on a std::vector with the same content, through iterators, const iterators and reverse iterators", assumptions=["bounded: all layouts and words of the stated sizes, every sub-range and middle", "the standard library's algorithms are correct on std::vector"])

PLAN = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
PLAN = dict(sorted(PLAN.items()))
