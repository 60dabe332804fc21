"""String family: S01..S11."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def flatten(op):
    kv = {k: v for k, v in op.items() if k != "op"}
    js = dict(op)
    if op["op"] == "begin":
        for k in ("sm", "md", "sso", "ar"):
            js.pop(k, None)
            kv.pop(k, None)
    return js, kv

TEXTUAL = {"sopen", "word", "line", "os", "fmt", "conv"}

def allowed(ty, beh):
    return ty not in ("u16", "u32") or not any(o["op"] in TEXTUAL for o in beh)

TYPES = {"S01": ["str", "ars", "u16", "u32"], "S02": ["str", "ars", "u16", "u32"], "S03": ["str", "ars", "u16", "u32"], "S04": ["str", "ars", "u16", "u32"],
         "S05": ["str", "ars", "u16", "u32"], "S06": ["str", "ars", "u16", "u32"], "S07": ["str", "ars", "u16", "u32"], "S08": ["ars"],
         "S09": ["str", "ars"], "S10": ["str", "ars", "u16", "u32"], "S11": ["str", "ars", "u16", "u32"]}
# property -> (bfs depth, sim behaviours, sim depth)
PLAN = {p: (2, 250, 14) for p in TYPES}
PLAN.update(S05=(1, 200, 12), S06=(1, 150, 14))
ALL = set(TYPES)

def arena(beh):
    """The same behaviour with every string in resource 1."""
    return [dict(o, r=1) if "r" in o else o for o in beh]

def types(p, label):
    """The quick tier builds one kind of wide string per configuration."""
    return [t for t in TYPES[p] if THOROUGH or t != {"D": "u32", "N": "u16"}[label]]

def typed(ctx, behs, label, salt):
    rnd = random.Random("%d/%s/%s/ty" % (SEED, ctx.prop, label + salt))
    count = {t: 0 for t in types(ctx.prop, label) if t not in ctx.missing}
    weight = {"str": 2.0, "ars": 1.0, "u16": 0.5, "u32": 0.5}
    out = []
    for b in behs:
        cand = [t for t in sorted(count, key=lambda t: (count[t] / weight[t], rnd.random())) if allowed(t, b)]
        for t in cand[: (2 if THOROUGH else 1)]:
            count[t] += len(b)
            c = arena(b) if t == "ars" and ctx.prop != "S08" else b
            out.append([dict(c[0], ty=t)] + c[1:] + [dict(op="end")])
    return out

def run(ctx):
    p = ctx.prop
    d, ns, sd = PLAN[p]
    if THOROUGH:
        ns, sd = ns * 12, sd * 2
    cap = 13000 if not THOROUGH else 400000
    cc = HARN + "/string_driver.cc"
    wrap = ["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
    src = lambda label: [(cc, ["-DMAIN"])] + [(cc, ["-DTY=" + t], t) for t in types(p, label)]
    with ThreadPoolExecutor(4) as ex:
        fd = ex.submit(compile_driver, ctx, ctx.path("drvD"), src("D"), ASAN + wrap)
        fn = ex.submit(compile_driver, ctx, ctx.path("drvN"), src("N"), ASAN + wrap + ["-DNDEBUG"])
        f2 = ex.submit(model_check, ctx, "TextMC", dict(Props=ALL if THOROUGH else {p}, Profile=p, Mode="bfs", Depth=d), ("Inv",), "View", 800, None, 1, "6g")
        f3 = ex.submit(model_check, ctx, "TextMC", dict(Props=ALL if THOROUGH else {p}, Profile=p, Mode="sim", Depth=sd), ("Inv",), None, 800, (ns, sd + 6))
        bfs, sim = f2.result(), f3.result()
        ctx.log("model checked: %d behaviours" % (len(bfs) + len(sim)))
        drvs = [("D", fd.result()), ("N", fn.result())]
        ctx.log("compiled")
    full = True
    for label, drv in drvs:
        b1, f = sample(ctx, maximal(bfs), cap, label)
        full = full and f
        b2, _ = sample(ctx, [json.loads(b) for b in sorted(set(sim))], cap // 3, label)
        ctx.log("%s: %d exhaustive and %d random behaviours" % (label, len(b1), len(b2)))
        conform(ctx, drv, typed(ctx, b1, label, "bfs") + typed(ctx, b2, label, "sim"), flatten, "TextTrace", dict(Props={p}), label=label)
    return finish(ctx, assumptions=["char, char16_t and char32_t stand for all character types",
                                    "texts are drawn from an alphabet with NUL, bytes above 0x7f, spaces, newlines and letters"],
                  extra=dict(exhaustive=bool(full), bounded_depth=d, string_types=TYPES[p], builds=["assertions on", "NDEBUG"]))
