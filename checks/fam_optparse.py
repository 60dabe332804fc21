"""Option parser family: P01..P06."""
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote
from vlib import *

LISTS = {"av", "ds", "names", "ch"}

def esc(s):
    return quote(s, safe="")

def value(v):
    return esc(v["t"] + v["v"])

def flatten(op):
    kv = {}
    for k, v in op.items():
        if k == "op":
            continue
        if k in LISTS:
            kv[k] = "".join(esc(x) + ";" for x in v)
        elif k == "v":
            kv[k] = value(v)
        elif k == "l":
            kv[k] = "".join(value(x) + ";" for x in v)
        else:
            kv[k] = esc(v) if isinstance(v, str) else v
    return op, kv

# property -> (bfs depth, sim behaviours, sim depth)
PLAN = dict(P01=(1, 400, 12), P02=(3, 400, 14), P03=(2, 300, 14), P04=(3, 400, 12), P05=(3, 400, 14), P06=(3, 500, 14))
ALL = set(PLAN)

def run(ctx):
    p = ctx.prop
    d, ns, sd = PLAN[p]
    if THOROUGH:
        d, ns, sd = d + (p in ("P04", "P05", "P06")), ns * 20, sd * 2
    cap = 26000 if not THOROUGH else 600000
    cc = [HARN + "/optparse_driver.cc", REPO + "/optparse/optparse.cc"]
    with ThreadPoolExecutor(5) as ex:
        fd = ex.submit(compile_driver, ctx, ctx.path("drvD"), cc, ASAN)
        fn = ex.submit(compile_driver, ctx, ctx.path("drvN"), cc, ASAN + ["-DNDEBUG", "-O2"])
        f2 = ex.submit(model_check, ctx, "OptionsMC", dict(Props=ALL if THOROUGH else {p}, Profile=p, Mode="bfs", Depth=d), ("Inv",), "View", 800, None, 1, "6g")
        f3 = ex.submit(model_check, ctx, "OptionsMC", dict(Props=ALL if THOROUGH else {p}, Profile=p, Mode="sim", Depth=sd), ("Inv",), None, 800, (ns, sd + 12))
        # made-up declarations and command lines
        f4 = ex.submit(model_check, ctx, "OptionsMC", dict(Props=ALL if THOROUGH else {p}, Profile="RND", Mode="sim", Depth=14), ("Inv",), None, 800, (ns * 2, 30))
        bfs, sim = f2.result(), f3.result() + f4.result()
        ctx.log("model checked: %d behaviours" % (len(bfs) + len(sim)))
        drvs = [("D", fd.result()), ("N", fn.result())]
        ctx.log("compiled")
    full = True
    end = lambda bs: [b + [dict(op="end")] for b in bs]
    for label, drv in drvs:
        b1, f = sample(ctx, maximal(bfs), cap, label)
        full = full and f
        b2, _ = sample(ctx, [json.loads(b) for b in sorted(set(sim))], cap * 3 // 4, label)
        ctx.log("%s: %d exhaustive and %d random behaviours" % (label, len(b1), len(b2)))
        conform(ctx, drv, end(b1) + end(b2), flatten, "OptionsTrace", dict(Props={p}), label=label)
    return finish(ctx, assumptions=["names contain neither '=' nor white space, and a counted destination is not shared with options of another kind",
                                    "floating point values are drawn from a table of texts whose value is known exactly"],
                  extra=dict(exhaustive=bool(full), bounded_depth=d, builds=["assertions on", "NDEBUG"]))
