"""Size literals and alignment arithmetic: U01."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *

def flatten(op):
    return op, {k: "".join(map(str, v)) if isinstance(v, list) else v for k, v in op.items() if k != "op"}

def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(compile_driver, ctx, ctx.path("drv"), [HARN + "/units_driver.cc"], ASAN)
        f2 = ex.submit(model_check, ctx, "UnitsMC", dict(Props={"U01"}, Mode="bfs", Depth=2 if THOROUGH else 1), ("Inv",), None, 800)
        behs, drv = f2.result(), f1.result()
    # every call is independent of the others: many of them in one behaviour
    ops = [json.loads(b)[1] for b in sorted(set(behs))]
    runs = [[dict(op="begin")] + ops[i::250] + [dict(op="end")] for i in range(250)]
    conform(ctx, drv, runs, flatten, "UnitsTrace", dict(Props={"U01"}))
    return finish(ctx, assumptions=["arguments below 2^64 whose result is below 2^64", "blocks to align to of at most 99999999"], extra=dict(exhaustive=True, calls=len(ops)))
