"""Machinery shared by all checks: TLC, drivers, traces, verdicts, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SHARDS = 6

class CheckError(Exception):
    pass

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
        self.states = self.transitions = 0
        self.mc_runs = []
        self.traces = self.events = 0
        self.ops = {}
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.skipped = 0
        self.rejected = 0
        self.notes = []
        self.missing = []
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

# ---------------------------------------------------------------- building
def compile_driver(ctx, out, sources, flags, libs=("-lfmt", "-lxxhash"), cxx="clang++-18"):
    """Compiles each source to an object in parallel, then links.
    A source given as (path, flags, name) is optional: if it does not compile, its name is added to ctx.missing."""
    objs, jobs, names = [], [], []
    tag = os.path.basename(out)
    for i, s in enumerate(sources):
        s, own, name = (s if len(s) == 3 else s + (None,)) if isinstance(s, tuple) else (s, [], None)
        names.append(name)
        o = ctx.path("%s.%d.o" % (tag, i))
        objs.append(o)
        jobs.append([cxx, "-std=gnu++20", "-frtti", "-fexceptions", "-fsized-deallocation", "-mavx2", "-w",
                     "-I" + REPO, "-I" + HARN, *flags, *own, "-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
    ctx.missing = sorted(set(ctx.missing) | {n for n, r in zip(names, res) if n and r.returncode != 0})
    for n, r in zip(names, res):
        if r.returncode != 0 and (n is None or len(ctx.missing) == len([x for x in names if x])):
            raise CheckError("harness does not compile:\n" + r.stderr[:4000])
    objs = [o for o, r in zip(objs, res) if r.returncode == 0]
    for n in ctx.missing:
        ctx.notes.append("left out, does not compile: " + n)
    link = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-Wl") or f == "-pthread"]
    r = subprocess.run([cxx, *link, *objs, "-o", out, *libs], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("harness does not link:\n" + r.stderr[:4000])
    return out

ASAN = ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]

# ---------------------------------------------------------------- TLC
def cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(cfg_value(x) for x in sorted(v)) + "}"
    raise ValueError(v)

def write_cfg(path, consts, invs=(), view=None, deadlock=False, extra=()):
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\n")
        if consts:
            f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, cfg_value(v)) for k, v in consts.items()))
        for i in invs:
            f.write("INVARIANT %s\n" % i)
        if view:
            f.write("VIEW %s\n" % view)
        for e in extra:
            f.write(e + "\n")
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))

def tlc(ctx, module, cfg, args=(), env=None, timeout=600, heap="2g", meta=None, workers=1):
    meta = meta or tempfile.mkdtemp(dir=ctx.dir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%d" % (4 if timeout > 100 else 1), "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + ctx.dir,
           "-cp", JARS, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), *args,
           os.path.join(SPEC, module + ".tla")]
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    return rc, out

def tlc_lines(out):
    with open(out, errors="replace") as f:
        for line in f:
            yield line.rstrip("\n")

def unquote(line):
    """A TLA+ string printed by PrintT."""
    return json.loads(line)

def model_check(ctx, module, consts, invs=("Inv",), view="View", timeout=300, simulate=None, workers=1, heap="3g"):
    """Runs TLC on a model; returns the behaviours it printed. Fails the check if the model itself is wrong."""
    key = hashlib.md5(json.dumps([module, sorted((k, str(v)) for k, v in consts.items()), simulate]).encode()).hexdigest()[:8]
    cfg = ctx.path("%s-%s.cfg" % (module, key))
    write_cfg(cfg, consts, invs, None if simulate else view)
    args = ["-seed", str(SEED)]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1])]
    rc, out = tlc(ctx, module, cfg, args, timeout=timeout, workers=workers, heap=heap)
    hists, tail = [], []
    gen = dist = 0
    for line in tlc_lines(out):
        if line.startswith('"B '):
            hists.append(unquote(line)[2:])
        else:
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                gen = dist = int(m.group(1))
    text = "\n".join(tail)
    done = "Model checking completed. No error has been found." in text or (simulate and rc == 0 and "Error" not in text)
    if not done:
        raise CheckError("TLC did not complete on %s %s (rc=%s):\n%s" % (module, consts, rc, (text[text.find("Error"):][:1500] if "Error" in text else text[-1500:])))
    ctx.states += dist
    ctx.transitions += gen
    ctx.mc_runs.append(dict(module=module, constants={k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in consts.items()},
                            mode="simulate" if simulate else "exhaustive", states_generated=gen, distinct_states=dist))
    return hists

def maximal(hists):
    """Parsed behaviours, without those that are a prefix of another."""
    uniq = sorted(set(hists))
    out = []
    for i, h in enumerate(uniq):
        # JSON arrays: h is a prefix of g iff g starts with h minus its closing bracket
        if i + 1 < len(uniq) and uniq[i + 1].startswith(h[:-1] + ","):
            continue
        out.append(json.loads(h))
    return out

def sample(ctx, behs, max_events, salt=""):
    """A seeded sample of behaviours of at most max_events operations in total."""
    rnd = random.Random("%d/%s/%s" % (SEED, ctx.prop, salt))
    total = sum(len(b) for b in behs)
    if total <= max_events:
        return behs, True
    order = list(range(len(behs)))
    rnd.shuffle(order)
    keep, n = [], 0
    for i in order:
        if n + len(behs[i]) > max_events:
            break
        keep.append(i)
        n += len(behs[i])
    return [behs[i] for i in sorted(keep)], False

# ---------------------------------------------------------------- running drivers
def write_script(path, behs, flatten, first_id):
    with open(path, "w") as f:
        for k, b in enumerate(behs):
            for op in b:
                js, kv = flatten(op)
                js = dict(js)
                js["id"] = first_id + k
                f.write(json.dumps(js, separators=(",", ":")) + "\t" + op["op"] + "".join(" %s=%s" % (x, y) for x, y in kv.items()) + "\n")

def run_driver(ctx, binary, script, trace, behs, first_id, env=None, max_crashes=15, wall=240):
    """Runs all behaviours of one script; a crash becomes a 'crash' event and the run resumes after it."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e.update(env or {})
    open(trace, "w").close()
    skip = crashes = 0
    t_end = time.time() + wall
    while True:
        try:
            r = subprocess.run([binary, script, trace, str(skip)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e,
                               timeout=max(5, t_end - time.time()), cwd=ctx.dir)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as ex:
            rc, err = -14, "timeout"
        if rc == 0:
            return crashes
        # find where it stopped
        with open(trace, "rb") as f:
            data = f.read()
        nl = data.rfind(b"\n")
        data = data[:nl + 1]
        lines = data.split(b"\n")
        done = 0
        last_begin = None
        for i in range(len(lines) - 1, -1, -1):
            if b'"op":"begin"' in lines[i]:
                last_begin = i
                break
        if last_begin is None:
            raise CheckError("driver failed before its first event (rc=%s):\n%s" % (rc, err[-3000:]))
        cur = json.loads(lines[last_begin])["id"]
        done = len([x for x in lines[last_begin:] if x])
        b = behs[cur - first_id]
        if done >= len(b):
            raise CheckError("driver failed outside a behaviour (rc=%s):\n%s" % (rc, err[-3000:]))
        m = re.search(r"(ERROR: \S+: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|Assertion[^\n]*|terminate called[^\n]*|what\(\)[^\n]*)", err)
        msg = m.group(1) if m else ("signal/exit %d" % rc)
        msg = re.sub(r"pid=\d+", "pid", re.sub(r"0x[0-9a-f]+", "0x", msg))[:160]
        op = b[done]
        ev = dict(op="crash", id=cur, at=op["op"], why="".join(c for c in msg if 32 <= ord(c) < 127))
        with open(trace, "wb") as f:
            f.write(data)
            f.write((json.dumps(ev) + "\n").encode())
        crashes += 1
        skip = cur - first_id + 1
        if crashes >= max_crashes or skip >= len(behs) or time.time() > t_end:
            return crashes

def judge(ctx, module, consts, trace, timeout=600, env=None):
    """TLC decides one trace file; returns the rejected and skipped event positions."""
    with open(trace) as f:
        n = sum(1 for _ in f)
    if n == 0:
        return [], 0
    cfg = ctx.path(os.path.basename(trace) + ".cfg")
    write_cfg(cfg, consts)
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(ctx, module, cfg, env=e, timeout=timeout)
    rej, skip, end = [], 0, False
    tail = []
    for line in tlc_lines(out):
        m = re.match(r'<<"REJECT", (\d+), (\d+), (.*)>>', line)
        if m:
            rej.append((int(m.group(1)), int(m.group(2))))
        elif line.startswith('<<"SKIP"'):
            skip += 1
        elif line.startswith('<<"END", %d' % n):
            end = True
        else:
            tail.append(line)
    if not end or rc != 0:
        raise CheckError("TLC did not follow the trace %s to its end (rc=%s):\n%s" % (trace, rc, "\n".join(tail)[-3500:]))
    ctx.transitions += n
    return rej, skip

def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)", line.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out

def matches(ev, pat):
    for k, v in pat.items():
        if ev.get(k) != v:
            return False
    return True

def conform(ctx, binary, behs, flatten, module, consts, env=None, keep_samples=2, label="", shards=None, jenv=None):
    """Replays behaviours in the real code and lets TLC judge the recorded events."""
    if not behs:
        return
    n = shards or SHARDS
    n = max(1, min(n, (sum(len(b) for b in behs) + 1499) // 1500))
    parts = [behs[i::n] for i in range(n)]
    def one(i):
        part = parts[i]
        if not part:
            return []
        base = "%s%s-%d" % (label, ctx.prop, i)
        script, trace = ctx.path(base + ".script"), ctx.path(base + ".ndjson")
        write_script(script, part, flatten, 1)
        run_driver(ctx, binary, script, trace, part, 1, env)
        rej, skip = judge(ctx, module, consts, trace, env=jenv)
        with open(trace) as f:
            lines = f.read().splitlines()
        found = []
        for (l, bid) in rej[:40]:
            found.append((json.loads(lines[l - 1]), part[bid - 1]))
        ops = {}
        for x in lines:
            m = re.search(r'"op":"([A-Za-z0-9_]+)"', x)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        nb = ops.get("begin", 0)
        return [found, skip, len(rej), len(lines), ops, nb, lines[:3]]
    with ThreadPoolExecutor(n) as ex:
        res = [r for r in ex.map(one, range(n)) if r]
    rejects = []
    for found, skip, nrej, nl, ops, nb, head in res:
        rejects += found
        ctx.skipped += skip
        ctx.rejected += nrej
        ctx.events += nl
        ctx.traces += nb
        for k, v in ops.items():
            ctx.ops[k] = ctx.ops.get(k, 0) + v
    for b in behs[:: max(1, len(behs) // keep_samples)][:keep_samples]:
        ctx.samples.append(dict(driver=label or "default", behaviour=b))
    kn = [k for k in known_findings() if k[0] == ctx.prop]
    confirmed = 0
    seen = set()
    for ev, b in rejects:
        hit = [k for k in kn if matches(ev, k[1])]
        if hit:
            ctx.known_hit.append(hit[0])
            continue
        sig = (ev.get("op"), ev.get("at"), ev.get("k"), ev.get("why", "")[:40])
        if sig in seen or confirmed >= 5:
            continue
        seen.add(sig)
        # confirm: the same behaviour alone must be rejected again
        script, trace = ctx.path("confirm.script"), ctx.path("confirm.ndjson")
        write_script(script, [b], flatten, 1)
        run_driver(ctx, binary, script, trace, [b], 1, env)
        rej, _ = judge(ctx, module, consts, trace, env=jenv)
        if not rej:
            ctx.notes.append("not confirmed on its own: %s" % json.dumps(ev)[:300])
            # state carried over between behaviours: still a rejection of what was recorded
            script, trace = None, None
        confirmed += 1
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-%s-%d.json" % (ctx.prop, label or "r", len(ctx.violations) + 1))
        with open(name, "w") as f:
            json.dump(dict(property=ctx.prop, driver=label, behaviour=b, rejected_event=ev,
                           events=[json.loads(x) for x in open(trace)] if trace else []), f, indent=1)
        ctx.violations.append((name, ev))

# ---------------------------------------------------------------- ending
def finish(ctx, level="model_checking", assumptions=(), extra=None):
    for k in known_findings():
        if k[0] == ctx.prop and k in ctx.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k[2]))
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               events_validated=ctx.events, operations=ctx.ops, model_runs=ctx.mc_runs,
               behaviours_skipped=ctx.skipped, samples=ctx.samples[:4])
    if extra:
        cov.update(extra)
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = dict(property=ctx.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
              coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, e in ctx.violations:
        print("rejected event:", json.dumps(e)[:600])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, name))
    ctx.log("states=%d traces=%d events=%d violations=%d" % (ctx.states, ctx.traces, ctx.events, len(ctx.violations)))
    return 1 if ctx.violations else 0
