"""Vector family: V01..V09."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def flatten(op):
    kv = {}
    for k, v in op.items():
        if k == "op":
            continue
        kv[k] = ",".join(map(str, v)) if isinstance(v, list) else v
    js = dict(op)
    if op["op"] == "begin":
        js.pop("isz", None)
        js.pop("big", None)
    return js, kv

COPYING = {"ctornv", "copyctor", "copyas", "assignn", "push", "ins", "insn", "rszv",
           "pusha", "ebacka", "insa", "insna", "empla", "empia", "rsza", "assna"}
MOVING = {"pushm", "insm"}
RANGE = {"ctorr", "assignr", "insr"}
BULK = {"wbuf", "fill", "rszu"}
ALGO = {"sort", "rev", "rot"}
POD = {"int", "chr", "i64", "big", "mid", "huge", "dfl"}

def allowed(ty, beh):
    for o in beh:
        k = o["op"]
        if ty == "mvo" and (k in COPYING or (k in RANGE and o["k"] not in ("oth", "set", "flt"))):
            return False
        if ty in ("cpo", "old") and k in ALGO:
            return False
        if ty == "chr" and (abs(o.get("x", 0)) > 120 or any(abs(v) > 120 for v in o.get("vs", ()))):
            return False
        if ty == "cpo" and k in MOVING:
            return False
        if ty not in POD and k in BULK:
            return False
        if ty == "huge" and k in ("ctorn", "rsz", "insn", "assignn", "rszv", "resv", "ctornv", "insna", "rsza", "assna") and o.get("n", 0) > 12 and not o.get("hg"):
            return False
    return True

def movable(beh):
    """The same behaviour with the operations a move-only type has."""
    out = []
    for o in beh:
        o = dict(o)
        o["op"] = {"push": "eback", "ins": "empl"}.get(o["op"], o["op"])
        if o["op"] in RANGE:
            o["k"] = "oth"
        out.append(o)
    return out

TYPES = {"V01": ["int", "trk", "chr", "cpo", "mvo", "big", "rel", "dfl"], "V02": ["trk", "mvo", "cpo", "old", "rel"],
         "V03": ["int", "chr", "big", "trk", "huge", "mid"], "V04": ["int", "trk", "rel", "big"],
         "V05": ["int", "trk", "big", "cpo", "old", "rel"], "V06": ["int", "chr", "trk", "big", "rel", "cpo", "i64"],
         "V07": ["int", "chr", "trk", "big", "i64"], "V08": ["int", "chr", "big", "i64", "dfl"], "V09": ["int", "chr", "trk", "mvo", "rel", "cpo"]}
# property -> (bfs depth, sim behaviours, sim depth)
PLAN = {"V01": (2, 300, 40), "V02": (2, 300, 40), "V03": (2, 250, 40), "V04": (2, 300, 40), "V05": (2, 250, 30), "V06": (2, 300, 25),
        "V07": (1, 250, 40), "V08": (2, 250, 40), "V09": (2, 300, 30)}
ALL = set(TYPES)

def typed(ctx, behs, salt):
    """Every behaviour with one of the element types that have all its operations, evenly."""
    rnd = random.Random("%d/%s/%s/ty" % (SEED, ctx.prop, salt))
    count = {t: 0 for t in TYPES[ctx.prop] if t not in ctx.missing}
    out = []
    for b in behs:
        cand = []
        for t in sorted(count, key=lambda t: (count[t], rnd.random())):
            c = b
            if t == "mvo" and not allowed(t, b):
                c = movable(b)
            if allowed(t, c):
                cand.append((t, c))
        for t, c in cand[: (2 if THOROUGH else 1)]:
            count[t] += len(c)
            out.append([dict(c[0], ty=t)] + c[1:] + [dict(op="end")])
    return out

def run(ctx):
    p = ctx.prop
    d, ns, sd = PLAN[p]
    if THOROUGH:
        d, ns, sd = d + (0 if p == "V06" else 1), ns * 12, sd * 2
    cap = 24000 if not THOROUGH else 600000
    drv_cc = HARN + "/vector_driver.cc"
    src = [(drv_cc, ["-DMAIN"])] + [(drv_cc, ["-DTY=" + t], t) for t in TYPES[p]]
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(compile_driver, ctx, ctx.path("drv"), src, ASAN + ["-Wl,--wrap=malloc"])
        f2 = ex.submit(model_check, ctx, "VectorMC", dict(Props=ALL, Profile=p, Mode="bfs", Depth=d), ("Inv",), "View", 800, None, 1, "6g")
        f3 = ex.submit(model_check, ctx, "VectorMC", dict(Props=ALL, Profile=p, Mode="sim", Depth=sd), ("Inv",), None, 800, (ns, sd + 2))
        bfs, sim = f2.result(), f3.result()
        ctx.log("model checked: %d behaviours" % (len(bfs) + len(sim)))
        drv = f1.result()
        ctx.log("compiled")
    b1, full = sample(ctx, maximal(bfs), cap)
    b2, _ = sample(ctx, [json.loads(b) for b in sorted(set(sim))], cap // 2)
    ctx.log("%d exhaustive and %d random behaviours" % (len(b1), len(b2)))
    conform(ctx, drv, typed(ctx, b1, "bfs") + typed(ctx, b2, "sim"), flatten, "VectorTrace", dict(Props={p}))
    return finish(ctx, assumptions=["element types of the harness stand for all element types of their kind (trivially copyable of several sizes, movable, move-only, copy-only, relocatable)",
                                    "element constructors do not throw"],
                  extra=dict(exhaustive=bool(full), bounded_depth=d, element_types=TYPES[p]))
