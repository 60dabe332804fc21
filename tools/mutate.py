#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool, not a check).

mutate.py gen FAMILY OUT.json            every small syntactic change of the family's sources
mutate.py tests FAMILY IN.json OUT.json  those that compile and pass the family's existing tests
mutate.py ref FAMILY                     behaviours and reference traces of the family's checks on the unchanged tree
mutate.py checks FAMILY IN.json OUT.json runs the family's checks against each; records the first property that rejects it

A mutant's trace is compared with the reference trace; only the behaviours that differ are given to TLC.
"""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
BASE = "/tmp/mu"
FAM = {
    "S": dict(files=["string/string.hpp", "string/arena_string.hpp"], tests=["test/string_test.cc"], mod="fam_string", props=["S%02d" % i for i in range(1, 12)]),
    "V": dict(files=["container/stdb_vector.hpp"], tests=["test/stdb_vector_test.cc"], mod="fam_vector", props=["V%02d" % i for i in range(1, 10)]),
    "A": dict(files=["arena/arena.hpp", "arena/arena.cc", "arena/arenahelper.hpp", "align/align.hpp"], tests=["test/arena_test.cc"], mod="fam_arena", props=["A%02d" % i for i in range(1, 12)]),
    "M": dict(files=["arena/metrics.hpp", "arena/metrics.cc"], tests=["test/metrics_test.cc", "test/arena_test.cc"], mod="fam_metrics", props=["M01", "M02"]),
    "P": dict(files=["optparse/optparse.hpp", "optparse/optparse.cc"], tests=["test/optparse_test.cc"], mod="fam_optparse", props=["P%02d" % i for i in range(1, 7)]),
}
REPO = "/repo"
OPS = [(r" < (?!<)", [" <= "]), (r" <= ", [" < "]), (r" > (?!>)", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" && ", [" || "]), (r" and ", [" or "]),
       (r" \|\| ", [" && "]), (r" or ", [" and "]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"(?<=\()!(?=[\w(])", [""]), (r"\bnot ", [""]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
       (r"(?<![\w.\"'<])(\d+)(?![\w.\"'>])", ["N+1", "N-1"]), (r"\bfind_last", ["find_first"]), (r"\bsize\(\)", ["capacity()", "(size() + 1)", "(size() - 1)"]),
       (r"\bcapacity\(\)", ["size()"]), (r"\bmemmove\b", ["memcpy"]), (r"std::move\(([\w.]+)\)", [r"KEEP"]), (r" & ", [" | "]), (r" \| ", [" & "])]
DELETE = re.compile(r"^\s*[\w:.>()\[\]*&<,+\- ]+(\(.*\)| [-+|&]?= .*|\+\+|--);\s*$|^\s*(\+\+|--)\w+;\s*$")
NODEL = re.compile(r"^\s*(return|using|typedef|auto |const |static |constexpr |friend |template|explicit|virtual|break|else|size_type \w+ =|\[\[|inline)")

def gen(fam, out):
    muts = []
    for f in FAM[fam]["files"]:
        lines = open(os.path.join(REPO, f)).read().split("\n")
        block = False
        for i, l in enumerate(lines):
            s = l.strip()
            if block:
                block = "*/" not in s
                continue
            if s.startswith("/*"):
                block = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "*", "template", "static_assert", "Assert(", "using ", "requires", "namespace", "concept")) or "static_assert" in s:
                continue
            code = l.split("//")[0].rstrip()
            seen = set()
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    # not inside a string literal
                    if code[:m.start()].count('"') % 2:
                        continue
                    for r in reps:
                        t = r
                        if r == "N+1":
                            t = str(int(m.group(1)) + 1)
                        elif r == "N-1":
                            if int(m.group(1)) == 0:
                                continue
                            t = str(int(m.group(1)) - 1)
                        elif r == "KEEP":
                            t = m.group(1)
                        n = code[:m.start()] + t + code[m.end():]
                        if n != code and n not in seen:
                            seen.add(n)
                            muts.append(dict(file=f, line=i + 1, old=l, new=n))
            m = re.match(r"^(\s*)(\} else )?if \((.*)\)( \[\[\w+\]\])? \{$", code)
            if m and "constexpr" not in code:
                for v in ("true", "false"):
                    muts.append(dict(file=f, line=i + 1, old=l, new="%s%sif (%s) {" % (m.group(1), m.group(2) or "", ("(%s) || true" if v == "true" else "(%s) && false") % m.group(3))))
            if DELETE.match(code) and not NODEL.match(code):
                muts.append(dict(file=f, line=i + 1, old=l, new=re.match(r"\s*", l).group(0) + ";"))
    for k, m in enumerate(muts):
        m["n"] = k
    json.dump(muts, open(out, "w"), indent=0)
    print(len(muts), "mutants")

def tree(tag):
    d = "%s/t.%s" % (BASE, tag)
    if not os.path.exists(d):
        os.makedirs(d)
        for x in ("align", "arena", "container", "optparse", "string", "test", "memory.hpp", "assert_config.hpp"):
            s = os.path.join(REPO, x)
            shutil.copytree(s, os.path.join(d, x)) if os.path.isdir(s) else shutil.copy(s, d)
    return d

def apply(d, m):
    p = os.path.join(d, m["file"])
    lines = open(os.path.join(REPO, m["file"])).read().split("\n")
    assert lines[m["line"] - 1] == m["old"], m
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))

def restore(d, m):
    shutil.copy(os.path.join(REPO, m["file"]), os.path.join(d, m["file"]))

TF = ["clang++-18", "-g0", "-Wall", "-Wno-error", "-w", "-frtti", "-fexceptions", "-fsized-deallocation", "-std=gnu++20", "-fsanitize=address", "-fsanitize=undefined",
      "-fno-sanitize=vptr", "-fno-omit-frame-pointer", "-DDOCTEST_CONFIG_SUPER_FAST_ASSERTS", "-mavx2"]

def test_one(arg):
    fam, m = arg
    d = tree("T%d" % os.getpid())
    apply(d, m)
    try:
        srcs = [os.path.join(d, t) for t in FAM[fam]["tests"]]
        if fam in "AM":
            srcs += [d + "/arena/arena.cc", d + "/arena/metrics.cc"]
        if fam == "P":
            srcs += [d + "/optparse/optparse.cc"]
        objs = []
        for s in srcs:
            o = "%s/%s.o" % (d, os.path.basename(s))
            r = subprocess.run(TF + ["-I" + d, "-c", s, "-o", o], capture_output=True)
            if r.returncode:
                return m["n"], "nocompile"
            objs.append(o)
        base = BASE + "/base/"
        if fam in "SV":
            objs += [base + "arena.o", base + "metrics.o"]
        r = subprocess.run(TF + objs + ([] if fam in "AM" else [base + "main.o"]) + ["-o", d + "/t", "-lfmt", "-lxxhash"], capture_output=True)
        if r.returncode:
            return m["n"], "nolink"
        try:
            r = subprocess.run([d + "/t"], capture_output=True, timeout=60, cwd=d)
        except subprocess.TimeoutExpired:
            return m["n"], "killed"
        return m["n"], "pass" if r.returncode == 0 else "killed"
    finally:
        restore(d, m)

def tests(fam, inp, out, jobs):
    os.makedirs(BASE + "/base", exist_ok=True)
    mc = BASE + "/base/main.cc"
    open(mc, "w").write("#define DOCTEST_CONFIG_IMPLEMENT_WITH_MAIN\n#include \"doctest/doctest.h\"\n")
    for s, o in ((mc, "main.o"), (REPO + "/arena/arena.cc", "arena.o"), (REPO + "/arena/metrics.cc", "metrics.o")):
        subprocess.run(TF + ["-I" + REPO, "-c", s, "-o", BASE + "/base/" + o], check=True)
    muts = json.load(open(inp))
    res = {}
    with ProcessPoolExecutor(jobs) as ex:
        for n, r in ex.map(test_one, [(fam, m) for m in muts]):
            res[n] = r
            if len(res) % 50 == 0:
                print(len(res), sum(v == "pass" for v in res.values()), flush=True)
    keep = [m for m in muts if res[m["n"]] == "pass"]
    json.dump(keep, open(out, "w"), indent=0)
    print(len(muts), "->", len(keep))

# ---------------------------------------------------------------- checks
def patched(vlib, fam, ref, repo, tmp):
    """The check machinery with cached behaviours, shared binaries and a judge that looks at differences only."""
    vlib.REPO = repo
    cc, mc, judge0 = vlib.compile_driver, vlib.model_check, vlib.judge
    built = {}
    def compile_driver(ctx, out, sources, flags, *a, **k):
        key = hashlib.md5(repr((sources, flags)).encode()).hexdigest()
        if key not in built:
            o = os.path.join(tmp, key)
            fl = [("-g0" if f == "-g1" else f) for f in flags]
            n = len(ctx.missing)
            cc(ctx, o, sources, fl, *a, **k)
            built[key] = (o, ctx.missing)
        ctx.missing = built[key][1]
        return built[key][0]
    def model_check(ctx, module, consts, *a, **k):
        key = hashlib.md5((repr((module, sorted((x, str(sorted(y) if isinstance(y, (set, frozenset)) else y)) for x, y in consts.items()), a[2:], ctx.prop))).encode()).hexdigest()
        p = "%s/ref/mc.%s" % (BASE, key)
        if os.path.exists(p):
            return pickle.load(open(p, "rb"))
        if not ref:
            raise vlib.CheckError("no cached behaviours")
        r = mc(ctx, module, consts, *a, **k)
        pickle.dump(r, open(p, "wb"))
        return r
    def judge(ctx, module, consts, trace, timeout=600, env=None):
        name = "%s/ref/%s.%s" % (BASE, ctx.prop, os.path.basename(trace))
        if "confirm" in name:
            return [], 0
        if ref == 1:
            shutil.copy(trace, name)
            return [], 0
        a, b = open(name, errors="replace").read().split("\n"), open(trace, errors="replace").read().split("\n")
        noise = set(pickle.load(open(name + ".noise", "rb"))) if os.path.exists(name + ".noise") else set()
        if ref == 2:
            pickle.dump([i for i in range(max(len(a), len(b))) if a[i:i+1] != b[i:i+1]], open(name + ".noise", "wb"))
            return [], 0
        def groups(ls):
            g, cur = {}, None
            for i, l in enumerate(ls):
                m = re.search(r'"id": ?(\d+)', l)
                if m:
                    g.setdefault(int(m.group(1)), []).append((i, l))
            return g
        ga, gb = groups(a), groups(b)
        diff = [k for k in gb if [l for i, l in gb[k]] != [l for i, l in ga.get(k, [])]
                and not (len(ga.get(k, [])) == len(gb[k]) and all(l1 == l2 or i in noise for (i, l1), (_, l2) in zip(ga[k], gb[k])))]
        if not diff:
            return [], 0
        crash = [k for k in diff if any('"op":"crash"' in l or '"op": "crash"' in l for _, l in gb[k])]
        rnd = random.Random(1)
        rest = [k for k in diff if k not in crash]
        rnd.shuffle(rest)
        pick = (crash[:3] + rest[:40])
        mini, pos = trace + ".mini", []
        with open(mini, "w") as f:
            for k in pick:
                for i, l in gb[k]:
                    f.write(l + "\n")
                    pos.append(i + 1)
        rej, skip = judge0(ctx, module, consts, mini, timeout, env)
        ctx.notes.append("differing %d" % len(diff))
        return [(pos[l - 1], bid) for l, bid in rej], skip
    vlib.compile_driver, vlib.model_check, vlib.judge = compile_driver, model_check, judge
    vlib.finish = lambda ctx, *a, **k: 1 if ctx.violations else 0
    vlib.ROOT = tmp
    return built

def load(fam, ref, repo, tmp):
    import vlib
    built = patched(vlib, fam, ref, repo, tmp)
    return vlib, __import__(FAM[fam]["mod"]), built

def check_one(arg):
    fam, m = arg
    tmp = tempfile.mkdtemp(dir=BASE)
    # a process of its own: the modules are patched in place
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "one", fam, json.dumps(m), tmp], capture_output=True, text=True)
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        return dict(m, **json.loads(r.stdout.strip().split("\n")[-1]))
    except Exception:
        return dict(m, result="error", why=(r.stdout + r.stderr)[-500:])

def one(fam, m, tmp):
    d = tree("C%d" % os.getpid())
    apply(d, m)
    import io, contextlib
    res = dict(result="survived", diff=[])
    try:
        vlib, mod, built = load(fam, 0, d, tmp)
        props = FAM[fam]["props"]
        for p in props:
            ctx = vlib.Ctx(p)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    rc = mod.run(ctx)
                if ctx.missing:
                    res = dict(result="missing " + ",".join(ctx.missing))
                    break
                if rc:
                    res = dict(result=p, ev=json.dumps(ctx.violations[0][1])[:300])
                    break
                if ctx.notes:
                    res["diff"].append([p, ctx.notes[0]])
            except vlib.CheckError as e:
                res = dict(result="error " + p, why=str(e)[-300:])
                break
            finally:
                ctx.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(res))

def checks(fam, inp, out, jobs):
    muts = json.load(open(inp))
    done = {}
    if os.path.exists(out):
        done = {m["n"]: m for m in json.load(open(out))}
    todo = [m for m in muts if m["n"] not in done]
    with ThreadPoolExecutor(jobs) as ex:
        for m in ex.map(check_one, [(fam, m) for m in todo]):
            done[m["n"]] = m
            print(m["n"], m["file"], m["line"], m["result"], m["new"].strip()[:90] if m["result"] == "survived" else "", flush=True)
            json.dump(list(done.values()), open(out, "w"), indent=0)

def ref(fam):
    os.makedirs(BASE + "/ref", exist_ok=True)
    for k in ("1", "2"):
        tmp = tempfile.mkdtemp(dir=BASE)
        subprocess.run([sys.executable, os.path.abspath(__file__), "ref1", fam, k, tmp], check=True)
        shutil.rmtree(tmp)

def ref1(fam, k, tmp):
    vlib, mod, built = load(fam, k, "/repo", tmp)
    d = tree("ref%d" % os.getpid())
    vlib.REPO = d
    for p in FAM[fam]["props"]:
        ctx = vlib.Ctx(p)
        mod.run(ctx)
        ctx.close()
    shutil.rmtree(d)

a = sys.argv
if a[1] == "gen":
    gen(a[2], a[3])
elif a[1] == "tests":
    tests(a[2], a[3], a[4], int(os.environ.get("J", "6")))
elif a[1] == "ref":
    ref(a[2])
elif a[1] == "ref1":
    ref1(a[2], int(a[3]), a[4])
elif a[1] == "checks":
    checks(a[2], a[3], a[4], int(os.environ.get("J", "3")))
elif a[1] == "one":
    one(a[2], json.loads(a[3]), a[4])
