"""Threads: C01 (separate objects), C02 (reading together), C03 (handing over)."""
from concurrent.futures import ThreadPoolExecutor
import fam_arena, fam_optparse, fam_string, fam_vector
from vlib import *

TSAN = ["-g1", "-O1", "-fsanitize=thread", "-pthread"]
TENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:allocator_may_return_null=1:handle_abort=1"}
MODULES = dict(A="ArenaTrace", V="VectorTrace", S="TextTrace", P="OptionsTrace")
MODELS = dict(A="ArenaMC", V="VectorMC", S="TextMC", P="OptionsMC")
# family -> (profile, behaviours, depth)
PROFILES = dict(A=[("A01", 90, 22), ("A03", 90, 22), ("A09", 90, 22)], V=[("V01", 120, 24), ("V04", 120, 20), ("V06", 80, 16)],
                S=[("S01", 90, 14), ("S02", 120, 14), ("S05", 60, 12), ("S09", 60, 14), ("S10", 60, 14)], P=[("P01", 80, 10), ("P03", 80, 12), ("P05", 80, 12)])
VTYPES, STYPES = ["int", "trk", "rel", "big"], ["str", "ars", "u16"]
NT = NW = 3
# in the specifications of the families every property counts; what also fails alone is not about threads
ALLOF = dict(A=fam_arena.ALL, V=fam_vector.ALL, S=fam_string.ALL, P=fam_optparse.ALL)
FLAT = dict(A=fam_arena.flatten, V=fam_vector.flatten, S=fam_string.flatten, P=fam_optparse.flatten)

def build(ctx, fam):
    if fam == "A":
        return compile_driver(ctx, ctx.path("drvA"), [HARN + "/arena_driver.cc", REPO + "/arena/arena.cc"], TSAN)
    if fam == "P":
        return compile_driver(ctx, ctx.path("drvP"), [HARN + "/optparse_driver.cc", REPO + "/optparse/optparse.cc"], TSAN)
    cc, types, wrap = (HARN + "/vector_driver.cc", VTYPES, ["malloc"]) if fam == "V" else (HARN + "/string_driver.cc", STYPES, ["malloc", "realloc", "free"])
    return compile_driver(ctx, ctx.path("drv" + fam), [(cc, ["-DMAIN"])] + [(cc, ["-DTY=" + t]) for t in types], TSAN + (["-DNDEBUG"] if fam == "S" else []) + ["-Wl,--wrap=" + w for w in wrap])

def behaviours(ctx, fam):
    """Random behaviours of the family's model, for the element or character types used here."""
    out = []
    def gen(pr):
        p, n, d = pr
        n = n * (12 if THOROUGH else 1)
        return model_check(ctx, MODELS[fam], dict(Props=ALLOF[fam] if fam in "AV" or THOROUGH else {p}, Profile=p, Mode="flat" if fam == "A" else "sim", Depth=d), ("Inv",), None, 800, (n, d + 12))
    with ThreadPoolExecutor(2) as ex:
        for hs in ex.map(gen, PROFILES[fam]):
            out += [json.loads(b) for b in sorted(set(hs))]
    rnd = random.Random("%d/%s/%s" % (SEED, ctx.prop, fam))
    rnd.shuffle(out)
    res = []
    for k, b in enumerate(out):
        if fam == "A":
            b = fam_arena.close(b)
        elif fam == "P":
            # the environment and the standard output belong to the whole process
            b = [{k: v for k, v in o.items() if k != "env"} for o in b if o["op"] != "env" and o.get("pr") != 1] + [dict(op="end")]
        elif fam == "V":
            ok = [t for t in VTYPES if fam_vector.allowed(t, b)]
            if not ok:
                continue
            b = [dict(b[0], ty=ok[k % len(ok)])] + b[1:] + [dict(op="end")]
        else:
            ok = [t for t in STYPES if fam_string.allowed(t, b)]
            t = ok[k % len(ok)]
            c = fam_string.arena(b) if t == "ars" else b
            b = [dict(c[0], ty=t)] + c[1:] + [dict(op="end")]
        res.append(b)
    return res

def discipline(ctx, p):
    """Checks the ownership model and returns schedules."""
    base = dict(Props={p}, NT=2, NW=2, NL=3, Synced=True, Gen=False)
    def run(name, consts, want, prop=True, inv=None, sim=None):
        cfg = ctx.path(name + ".cfg")
        write_cfg(cfg, consts, ("Inv",) if inv is None else (inv,), None if sim else "View", extra=("PROPERTY Ordered",) if prop else ())
        rc, out = tlc(ctx, "LanesMC", cfg, ["-seed", str(SEED)] + (["-simulate", "num=%d" % sim, "-depth", "200"] if sim else []), timeout=300)
        lines = list(tlc_lines(out))
        text = "\n".join(x for x in lines if not x.startswith('"B '))
        if want not in text or (sim and "Error" in text):
            raise CheckError("the model of the threads' discipline, %s: %s" % (name, text[-1500:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", text) or re.search(r"states generated: (\d+)()", text)
        if m:
            ctx.transitions += int(m.group(1))
            ctx.states += int(m.group(2) or m.group(1))
            ctx.mc_runs.append(dict(module="LanesMC", constants={k: (sorted(v) if isinstance(v, set) else v) for k, v in consts.items()}, mode="simulate" if sim else "exhaustive", run=name))
        return [json.loads(unquote(x)[2:]) for x in lines if x.startswith('"B ')]
    jobs = [("ordered", dict(base, NT=3 if THOROUGH else 2), "No error has been found"), ("apart", base, "Invariant Apart is violated", False, "Apart"),
            ("gen", dict(base, NT=NT, NW=NW, NL=12, Gen=True), "states generated", False, None, 60 if not THOROUGH else 400)]
    if p != "C01":
        # a lane stays with its thread in C01: nothing to order
        jobs.append(("unsynced", dict(base, Synced=False), "Action property Ordered is violated"))
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: run(*j), jobs))
    if not res[2]:
        raise CheckError("no schedules")
    return res[2]

def unroll(sched, lens):
    """The steps of a round: the schedule, repeated until every lane has done all its operations."""
    left, steps, done = list(lens), [], [0] * len(lens)
    own = [0] * len(lens)
    while any(left):
        for s in sched:
            w = s["w"] - 1
            if s["k"] == "d":
                if left[w]:
                    left[w] -= 1
                    own[w] = s["t"] - 1
                    steps.append(("d", w, own[w], done[w]))
                    done[w] += 1
            elif done[w] and steps and left[w]:
                base = done[w]
                for t in range(NT):
                    steps.append(("l", w, t, base))
                    done[w] += 1
    return steps

def write_rounds(ctx, base, rounds, flatten):
    sched = ctx.path(base + ".sched")
    with open(sched, "w") as f:
        for behs, steps in rounds:
            f.write("round %d %s\n" % (NT, " ".join(str(len(b)) for b in behs)))
            f.write("".join("%s %d %d %d\n" % s for s in steps))
    scripts = []
    for w in range(NW):
        p = ctx.path("%s.%d.script" % (base, w))
        write_script(p, [behs[w] for behs, _ in rounds], flatten, 1)
        scripts.append(p)
    return sched, scripts

def run_rounds(ctx, binary, base, rounds, flatten, wall=240, max_crashes=6):
    """Runs the rounds; a round that does not come to its end leaves a crash event in a lane and in the steps."""
    sched, scripts = write_rounds(ctx, base, rounds, flatten)
    steps = ctx.path(base + ".steps.ndjson")
    traces = [ctx.path("%s.%d.ndjson" % (base, w)) for w in range(NW)]
    for p in [steps] + traces:
        open(p, "w").close()
    e = dict(os.environ, **TENV)
    skip = crashes = 0
    t_end = time.time() + wall
    while True:
        cmd = [binary, "--par", sched, steps, str(skip)] + [x for w in range(NW) for x in (scripts[w], traces[w])]
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, timeout=max(5, t_end - time.time()), cwd=ctx.dir)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            # out of time, not stuck (a round that takes 60 s is ended by its alarm): judge the rounds that are complete
            done = sum(1 for x in open(steps) if x.startswith('{"op":"end"'))
            ctx.notes.append("stopped after %d of %d rounds" % (done + crashes, len(rounds)))
            for p in traces:
                lines = open(p, "rb").read().split(b"\n")[:-1]
                with open(p, "wb") as f:
                    f.write(b"".join(x + b"\n" for x in lines if json.loads(x)["id"] <= done + crashes))
            return steps, traces
        if rc == 0:
            return steps, traces
        done = sum(1 for x in open(steps) if x.startswith('{"op":"end"'))
        cur = done + crashes + 1
        if cur > len(rounds):
            raise CheckError("driver failed outside a round (rc=%s):\n%s" % (rc, err[-3000:]))
        m = re.search(r"(WARNING: ThreadSanitizer: [^\n]*|ERROR: ThreadSanitizer: [^\n]*|Assertion[^\n]*|terminate called[^\n]*)", err)
        fr = re.findall(r"#\d+ (?:0x\w+ )?(?:in )?([^\n]*?%s/[^\s:]+:\d+)" % re.escape(REPO), err)
        if "data race" in err and not fr:
            raise CheckError("a race in the harness itself:\n" + err[:3000])
        msg = (m.group(1) if m else "signal/exit %d" % rc) + (" | " + fr[0].replace(REPO + "/", "") if fr else "")
        msg = "".join(c for c in re.sub(r"pid=\d+", "pid", re.sub(r"0x[0-9a-f]+", "0x", msg)) if 32 <= ord(c) < 127 and c not in '"\\')[:200]
        hit = False
        for w in range(NW):
            with open(traces[w], "rb") as f:
                data = f.read()
            lines = data[:data.rfind(b"\n") + 1].split(b"\n")[:-1]
            mine = [x for x in lines if json.loads(x)["id"] == cur]
            with open(traces[w], "wb") as f:
                f.write(b"".join(x + b"\n" for x in lines))
                if mine and b'"op":"end"' not in mine[-1] and not hit:
                    hit = True
                    f.write((json.dumps(dict(op="crash", id=cur, at=rounds[cur - 1][0][w][len(mine)]["op"], why=msg)) + "\n").encode())
        with open(steps, "a") as f:
            f.write(json.dumps(dict(op="begin", id=cur, nw=NW), separators=(",", ":")) + "\n" + json.dumps(dict(op="crash", id=cur, why=msg)) + "\n")
        crashes += 1
        skip = cur
        if crashes >= max_crashes or skip >= len(rounds) or time.time() > t_end:
            return steps, traces

def alone(ctx, binary, fam, beh):
    """Is the behaviour rejected without any other thread, too?"""
    script, trace = ctx.path("alone%s.script" % fam), ctx.path("alone%s.ndjson" % fam)
    write_script(script, [beh], FLAT[fam], 1)
    run_driver(ctx, binary, script, trace, [beh], 1, TENV)
    rej, _ = judge(ctx, MODULES[fam], dict(Props=ALLOF[fam]), trace)
    return bool(rej)

def family(ctx, fam, scheds):
    binary, behs = build(ctx, fam), behaviours(ctx, fam)
    rnd = random.Random("%d/%s/%s/rounds" % (SEED, ctx.prop, fam))
    rounds = []
    for i in range(0, len(behs) - NW + 1, NW):
        group = behs[i:i + NW]
        rounds.append((group, unroll(rnd.choice(scheds), [len(b) for b in group])))
    ctx.log("%s: %d behaviours in %d rounds" % (fam, len(behs), len(rounds)))
    steps, traces = run_rounds(ctx, binary, ctx.prop + fam, rounds, FLAT[fam])
    out = []
    def lane(w):
        return [(w, l, bid) for l, bid in judge(ctx, MODULES[fam], dict(Props=ALLOF[fam]), traces[w])[0]]
    with ThreadPoolExecutor(NW + 1) as ex:
        fs = ex.submit(judge, ctx, "LanesTrace", dict(Props={ctx.prop}), steps)
        for rej in ex.map(lane, range(NW)):
            out += rej
        rs = fs.result()[0]
    bad, crashed = [], {}
    lines = open(steps).read().splitlines()
    for l, bid in rs:
        ev = json.loads(lines[l - 1])
        if ev["op"] == "crash":
            crashed[bid] = ev
        else:
            bad.append((bid, ev))
    for w, l, bid in out:
        ev = json.loads(open(traces[w]).read().splitlines()[l - 1])
        if ev["op"] != "crash":
            bad.append((bid, dict(ev, lane=w + 1)))
    for bid, ev in crashed.items():
        bad.append((bid, ev))
    # what a round does that its behaviours do not do alone
    seen = 0
    for bid, ev in sorted(bad, key=lambda x: x[0]):
        if seen >= 3:
            break
        group, st = rounds[bid - 1]
        if "race" not in ev.get("why", "") and any(alone(ctx, binary, fam, b) for b in (group if "lane" not in ev else [group[ev["lane"] - 1]])):
            ctx.notes.append("not about threads: %s" % json.dumps(ev)[:200])
            continue
        seen += 1
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-%s-%d.json" % (ctx.prop, fam, seen))
        with open(name, "w") as f:
            json.dump(dict(property=ctx.prop, family=fam, behaviours=group, steps=st, rejected_event=ev), f, indent=1)
        ctx.violations.append((name, ev))
    ctx.traces += len(rounds)
    ctx.events += len(lines) + sum(sum(1 for _ in open(t)) for t in traces)
    for x in lines:
        k = json.loads(x)["op"]
        ctx.ops[k] = ctx.ops.get(k, 0) + 1
    ctx.samples.append(dict(family=fam, behaviours=rounds[0][0], steps=rounds[0][1][:30]))
    ctx.log("%s: judged" % fam)

def run(ctx):
    scheds = discipline(ctx, ctx.prop)
    ctx.log("%d schedules" % len(scheds))
    with ThreadPoolExecutor(2) as ex:
        for r in [ex.submit(family, ctx, fam, scheds) for fam in "SVAP"]:
            r.result()
    return finish(ctx, assumptions=["conflicting accesses that no lock, atomic or thread start orders are found by ThreadSanitizer, within what the rounds execute",
                                    "texts longer than 254 bytes that share storage stay in one thread, as documented"],
                  extra=dict(exhaustive=False, threads=NT, lanes=NW, builds=["ThreadSanitizer"]))
