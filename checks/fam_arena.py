"""Arena family: A01..A11."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

HK = "iabrd"
def flatten(op):
    kv, js = {}, {}
    for k, v in op.items():
        js[k] = v
        if k == "op":
            continue
        if k == "opt":
            kv.update(v)
        elif k == "hk":
            kv["hk"] = "".join(str(v[c]) for c in HK)
        elif k == "ad":
            kv.update(v)
            del js["ad"]
        elif isinstance(v, list):
            kv[k] = ",".join(map(str, v))
        else:
            kv[k] = v
    if op["op"] == "begin":
        js.pop("hdr", None)
        js.pop("node", None)
    if op["op"] == "check":
        js["q"] = op["ad"]
    return js, kv

def close(beh):
    """Every behaviour ends by destroying what is alive, in an order that varies, and taking stock."""
    live, opened = [], []
    for o in beh:
        if o["op"] == "nopen":
            opened.append(o)
        elif o["op"] == "nclose":
            opened = [x for x in opened if x["t"] != o["t"]]
        elif o["op"] == "new":
            live.append(o["a"])
        elif o["op"] == "destroy":
            live.remove(o["a"])
        elif o["op"] == "move":
            live.append(o["a2"])
    if len(beh) % 2:
        live.reverse()
    ends = [dict(op="nclose", a=o["a"], k=o["k"], t=o["t"]) for o in reversed(opened)]
    return beh + ends + [dict(op="destroy", a=a) for a in live] + [dict(op="end")]

ALL = {"A%02d" % i for i in range(1, 12)}
# property -> (bfs depth, sim behaviours, sim depth)
PLAN = {"A01": (3, 250, 40), "A02": (3, 200, 40), "A03": (3, 250, 40), "A04": (3, 250, 40), "A05": (3, 250, 40), "A06": (4, 300, 40),
        "A07": (3, 250, 30), "A08": (3, 250, 40), "A09": (4, 250, 40), "A10": (3, 250, 40), "A11": (3, 200, 30)}

def run(ctx):
    p = ctx.prop
    d, ns, sd = PLAN[p]
    if THOROUGH:
        d, ns, sd = d + 1, ns * 12, sd * 2
    cap = 24000 if not THOROUGH else 600000
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(compile_driver, ctx, ctx.path("drv"), [HARN + "/arena_driver.cc", REPO + "/arena/arena.cc"], ASAN)
        f2 = ex.submit(model_check, ctx, "ArenaMC", dict(Props=ALL, Profile=p, Mode="bfs", Depth=d), ("Inv",), "View", 800, None, 1, "6g")
        f3 = ex.submit(model_check, ctx, "ArenaMC", dict(Props=ALL, Profile=p, Mode="sim", Depth=sd), ("Inv",), None, 800, (ns, sd + 2))
        drv, bfs, sim = f1.result(), f2.result(), f3.result()
    b1 = [close(b) for b in maximal(bfs)]
    b2 = [close(json.loads(b)) for b in sorted(set(sim))]
    ctx.log("generated %d exhaustive and %d random behaviours" % (len(b1), len(b2)))
    b1, full = sample(ctx, b1, cap)
    b2, _ = sample(ctx, b2, cap // 2)
    conform(ctx, drv, b1 + b2, flatten, "ArenaTrace", dict(Props={p}))
    return finish(ctx, assumptions=["block allocator behaviour, block base addresses and object kinds are those of the harness",
                                    "alignments outside 8..32 are outside the arena's contract"],
                  extra=dict(exhaustive=bool(full), bounded_depth=d))
