"""Metrics family: M01, M02."""
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote
from vlib import *

def esc(s):
    return quote(str(s), safe="|")

def call(c):
    return esc("|".join(str(c.get(k, "")) for k in ("k", "n", "s", "u", "w", "life")))

def flatten(op):
    kv = {}
    for k, v in op.items():
        if k == "op":
            continue
        if k == "c":
            kv[k] = call(v)
        elif k == "ths":
            kv[k] = "/".join(";".join(call(c) for c in t) or ";" for t in v)
        elif k == "sched":
            kv[k] = ",".join("%d,%d" % (t, n) for t, n in v)
        else:
            kv[k] = esc(v) if isinstance(v, str) else v
    return op, kv

WRAP = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock")]

def build(ctx):
    cc = [HARN + "/metrics_driver.cc", REPO + "/arena/arena.cc", REPO + "/arena/metrics.cc"]
    def stepped():
        f = ASAN + ["-DVSCHED", "-pthread"] + WRAP
        try:
            return compile_driver(ctx, ctx.path("drvS"), cc, f + ["-include", HARN + "/vatomic.hpp"])
        except CheckError:
            # scheduling points at locks only
            ctx.notes.append("the instrumented atomics did not compile: scheduling points at locks only")
            return compile_driver(ctx, ctx.path("drvL"), cc, f)
    with ThreadPoolExecutor(2) as ex:
        s = ex.submit(stepped)
        t = ex.submit(compile_driver, ctx, ctx.path("drvT"), cc, ["-g1", "-O1", "-fsanitize=thread", "-pthread"])
        return s.result(), t.result()

def report_model(ctx, nt, k, reader, atomic=True, locked=True, bound=99, timeout=600):
    """The reporting algorithm itself; returns the schedules it generates (bound < 99)."""
    consts = dict(NT=nt, K=k, Atomic=atomic, Locked=locked, Reader=reader, Bound=bound)
    if atomic and locked:
        return model_check(ctx, "Report", consts, ("Inv", "Live"), "ViewAll" if bound == 99 else "ViewGen", timeout, heap="6g")
    cfg = ctx.path("Report-neg%d%d.cfg" % (atomic, locked))
    write_cfg(cfg, consts, ("Inv", "Live"), "ViewAll")
    rc, out = tlc(ctx, "Report", cfg, timeout=timeout)
    if not any("Invariant Inv is violated" in x for x in tlc_lines(out)):
        raise CheckError("the model does not tell the algorithm from one without %s" % ("its lock" if atomic else "atomic additions"))
    return []

def schedules(ctx):
    jobs = [(2, 2, False, False, True), (2, 1, False, True, False), (3, 2, False), (2, 2, True),
            (2, 25, False, True, True, 2 if not THOROUGH else 3), (2, 25, True, True, True, 1 if not THOROUGH else 2), (3, 25, False, True, True, 1 if not THOROUGH else 2)]
    if THOROUGH:
        jobs += [(3, 3, False), (2, 3, True), (3, 1, True)]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: report_model(ctx, *j), jobs))
    return [h for r in res for h in r]

PLAN = dict(M01=(3, 500, 14), M02=(3, 500, 16))

def run(ctx):
    p = ctx.prop
    d, ns, sd = PLAN[p]
    if THOROUGH:
        d, ns, sd = d + 1, ns * 20, sd * 2
    cap = 26000 if not THOROUGH else 400000
    consts = lambda **k: dict(Props={"M01", "M02"} if THOROUGH else {p}, Profile=p, **k)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, ctx)
        f1 = ex.submit(schedules, ctx) if p == "M01" else None
        f2 = ex.submit(model_check, ctx, "MetricsMC", consts(Mode="bfs", Depth=d), ("Inv",), "View", 800, None, 1, "6g")
        f3 = ex.submit(model_check, ctx, "MetricsMC", consts(Mode="sim", Depth=sd), ("Inv",), None, 800, (ns, sd + 12))
        bfs, sim = f2.result(), f3.result()
        sch = [json.loads(h) for h in sorted(set(f1.result()))] if f1 else []
        ctx.log("model checked: %d behaviours, %d schedules" % (len(bfs) + len(sim), len(sch)))
        drvs = fb.result()
        ctx.log("compiled")
    end = lambda bs: [b + [dict(op="end")] for b in bs]
    b1, full = sample(ctx, maximal(bfs), cap, "bfs")
    sim = [json.loads(b) for b in sorted(set(sim))]
    b2, _ = sample(ctx, sim, cap // 3, "sim")
    conc = lambda bs: [b for b in bs if any(o["op"] == "conc" for o in b)]
    if p == "M01":
        s1, sfull = sample(ctx, sch, cap, "sched")
        conform(ctx, drvs[0], end(s1), flatten, "MetricsTrace", dict(Props={p}), label="S")
        ctx.log("schedules replayed: %d" % len(s1))
    conform(ctx, drvs[0], end(b1) + end(b2), flatten, "MetricsTrace", dict(Props={p}), label="B")
    ctx.log("behaviours replayed: %d" % (len(b1) + len(b2)))
    if p == "M02":
        return finish(ctx, assumptions=["lifetimes are whole milliseconds of a clock the harness steps", "the place of birth of an arena is the one passed to the init probe"],
                      extra=dict(exhaustive=bool(full), bounded_depth=d, builds=["ASan/UBSan"]))
    # free-running threads under ThreadSanitizer
    t1, _ = sample(ctx, conc(b1) + conc(b2), cap // (5 if not THOROUGH else 2), "tsan")
    conform(ctx, drvs[1], end(t1), flatten, "MetricsTrace", dict(Props={p}), label="T",
            env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}, shards=3)
    return finish(ctx, assumptions=["threads switch only at operations on shared counters and at locks; other conflicts between threads are left to ThreadSanitizer on free-running threads",
                                    "the global reset is not run at the same time as a report"],
                  extra=dict(exhaustive=bool(full), bounded_depth=d, builds=["atomics and locks scheduled", "ThreadSanitizer"], schedules_exhaustive=bool(sfull)))
