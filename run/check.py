#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property of properties.jsonl with the TLA+ specifications in /verif/spec:
  1. TLC explores the specification exhaustively (profiles and depths of run/table.py) and checks the property there;
  2. TLC emits scenarios from it (the call sequence to each kind of transition), and a seeded generator adds random ones;
  3. the driver (harness/), built from /repo's working tree, performs them on the real pallet and records call, result, state;
  4. TLC judges every recorded line against the specification (spec/*Trace.tla).
Exit 0: held on everything explored. Exit 1 with "VIOLATION property=.. replay=..": broken. Exit 2: no answer.
"""
import json, os, re, subprocess, sys, time, random, shutil, collections
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import FAMILIES, PROPS, SPEC_TAGS

SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JAVA = os.path.join(TARGET, "java")
TLA2TOOLS = "/opt/veriftools/tla/tla2tools.jar"
JAR = f"{TLA2TOOLS}:/opt/veriftools/tla/CommunityModules-deps.jar:{JAVA}"
CORES = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(fam):
    f = FAMILIES[fam]
    crate = os.path.join(ROOT, f.get("crate", "harness"))
    target = TARGET if "crate" not in f else os.path.join(ROOT, "target", "ws")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.81.0-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=target, SKIP_WASM_BUILD="1", CARGO_TERM_COLOR="never",
               PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", f["bin"], "--bin", f["bin"]], cwd=crate, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("driver does not build against /repo:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", f["bin"]), time.time() - t0


def overrides():
    """Compiles the Java evaluation of spec/Big.tla."""
    src, out = os.path.join(SPEC, "java", "Big.java"), os.path.join(JAVA, "Big.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    tmp = f"{JAVA}.{os.getpid()}"
    p = subprocess.run(["javac", "-cp", TLA2TOOLS, "-d", tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError(p.stdout)
    os.makedirs(JAVA, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(JAVA, f))
    os.rmdir(tmp)


def tlc(work, module, cfg_text, name, workers=1, env=None, timeout=800, extra=(), heap="3g", short=True):
    """Run TLC on spec/<module>.tla with the given configuration; returns its output. short: do without the optimising compiler of the JVM."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "run.cfg")
    open(cfg, "w").write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(d, "out")
    jit = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if short else ["-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}"]
    cmd = ["java", *jit, "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={d}", "-cp", JAR, f"-DTLA-Library={SPEC}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg, *extra,
           os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    with open(out, "w") as fh:
        try:
            subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
            to = False
        except subprocess.TimeoutExpired:
            to = True
    if os.environ.get("TIMES"):
        log(f"  {name}: {time.time() - t0:.1f}s")
    txt = open(out, errors="replace").read()
    return txt, to


def cfg_of(module, consts):
    t = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in consts.items():
        t, n = re.subn(rf"(?m)^(\s*{k}\s*=\s*).*$", lambda m: m.group(1) + v, t)
        if n != 1:
            raise ToolError(f"constant {k} of {module}.cfg")
    return t


def tla(v):
    return '"%s"' % v if isinstance(v, str) else ("TRUE" if v is True else "FALSE" if v is False else str(v))


def model_check(work, fam, p, workers, timeout):
    module = FAMILIES[fam]["mc"]
    consts = {k: tla(v) for k, v in p.items()}
    consts["Emit"] = "FALSE"
    txt, to = tlc(work, module, cfg_of(module, consts), "mc-" + "-".join(str(x) for x in p.values()), workers, timeout=timeout, heap="6g", short=False)
    m = re.findall(r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found", txt)
    if not m:
        raise ToolError(f"TLC on {module} {p}: no result\n" + txt[-3000:])
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    if "Error:" in txt or (not to and "No error has been found" not in txt):
        raise ToolError(f"the specification breaks its own properties: {module} {p}\n" + txt[-6000:])
    return {"profile": p, "states": dist, "transitions": gen, "complete": not to}


def emit(work, fam, p, seed, simulate=None):
    """Scenarios: the call sequence to the first occurrence of every kind of transition."""
    module = FAMILIES[fam]["mc"]
    consts = {k: tla(v) for k, v in p.items()}
    consts["Emit"] = "TRUE"
    cfg = "\n".join(l for l in cfg_of(module, consts).splitlines() if not re.match(r"\s*(INVARIANT|PROPERTY)", l))
    name = ("sim-" if simulate else "emit-") + "-".join(str(x) for x in p.values())
    extra = ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed)] if simulate else []
    txt, to = tlc(work, module, cfg, name, 1, timeout=simulate[2] if simulate else 120, extra=extra, short=bool(simulate))
    scns = []
    for l in txt.splitlines():
        m = re.match(r'"@SCN (.*)"$', l)
        if m:
            scns.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if not scns:
        raise ToolError(f"no scenario from {module} {p}\n" + txt[-3000:])
    return scns


def tprint(txt, tag):
    for l in txt.splitlines():
        m = re.match(rf'"{tag} (.*)"$', l)
        if m:
            yield json.loads(json.loads('"' + m.group(1) + '"'))


def drive(binary, args, timeout=300):
    try:
        p = subprocess.run([binary, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang"
    return "ok" if p.returncode == 0 else f"died ({p.returncode}): {p.stderr[-1500:]}"


def validate(work, fam, trace, name, timeout=800):
    """Judge one trace file. Returns (lines, [fail records], coverage set)."""
    module = FAMILIES[fam]["trace"]
    cfg = open(os.path.join(SPEC, module + ".cfg")).read()
    fails, cov, lines = [], set(), open(trace).read().splitlines()
    n = len(lines)
    if n == 0:
        return 0, [], set(), []
    cur, attempt = trace, 0
    while True:
        txt, to = tlc(work, module, cfg, f"{name}.{attempt}", 1, env={"TRACE": cur}, timeout=timeout)
        fails += list(tprint(txt, "@FAIL"))
        for c in tprint(txt, "@COV"):
            cov |= {json.dumps(x) for x in c}
        if re.search(r'"@DONE ', txt):
            return n, fails, cov, lines
        if to:
            raise ToolError(f"TLC timed out on {cur}")
        # The specification has no value for something the implementation did: that line is itself a disagreement.
        ks = [int(x) for x in re.findall(r"(?m)^(?:/\\ )?i = (\d+)", txt)]
        if not ks and "Error" in txt:
            raise ToolError(f"TLC failed on {cur}\n" + txt[-3000:])
        if attempt >= 6 and fails:
            return n, fails, cov, lines
        if not ks:
            raise ToolError(f"TLC gave no verdict on {cur}\n" + txt[-3000:])
        k = max(ks) + 1
        cl = open(cur).read().splitlines()
        bad = json.loads(cl[k - 1])
        fails.append({"line": k, "run": bad["run"], "fails": [["?", "unexplainable"]], "op": bad["o"]["op"]})
        keep = [l for l in cl if json.loads(l)["run"] > bad["run"]]
        attempt += 1
        cur = os.path.join(work, f"{name}.{attempt}.ndjson")
        open(cur, "w").write("\n".join(keep) + ("\n" if keep else ""))
        if not keep:
            return n, fails, cov, lines


def known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    for l in open(p).read().splitlines():
        m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)$", l)
        if m:
            out.append(m.groups())
    return out


def scenario_of(lines, run):
    recs = [json.loads(l) for l in lines]
    recs = [r for r in recs if r["run"] == run]
    return {"cfg": recs[0]["c"], "ops": [r["o"] for r in recs[1:]]}, recs


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    for k in range(len(a)):
        if a[k] == "--tier":
            tier = a[k + 1]
        if a[k] == "--seed":
            seed = int(a[k + 1])
    t0 = time.time()
    spec = PROPS[prop]
    fam = spec["fam"]
    work = os.path.join(ROOT, ".work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        code = decide(prop, spec, fam, tier, seed, work, t0)
    except ToolError as e:
        log("NO ANSWER:", e)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def decide(prop, spec, fam, tier, seed, work, t0):
    F = FAMILIES[fam]
    deep = tier == "thorough"
    budget = 780 if deep else 0
    overrides()
    pool = ThreadPoolExecutor(CORES)
    mc_profiles = spec["mc"][tier] if tier in spec["mc"] else spec["mc"]["quick"]
    fut_build = pool.submit(build, fam)
    fut_em = [pool.submit(emit, work, fam, p, seed) for p in spec["emit"]]
    fut_em += [pool.submit(emit, work, fam, p, seed, s) for p, s in spec.get("sim", [])]
    fut_mc = [pool.submit(model_check, work, fam, p, 4 if deep else 3, 420 if deep else 150) for p in mc_profiles]
    binary, build_s = fut_build.result()

    def one(j):
        name, args = j
        tr = os.path.join(work, f"t{name}.ndjson")
        args = ["--out", tr, *args]
        how = drive(binary, args)
        n, fl, cv, lines = validate(work, fam, tr, f"v{name}") if os.path.exists(tr) else (0, [], set(), [])
        if os.path.exists(tr):
            os.remove(tr)
        return how, n, fl, cv, lines, args

    def random_jobs(round_):
        out = []
        for k in range(CORES):
            args = ["--seed", str(seed * 7919 + round_ * 101 + k), "--runs", str(spec.get("runs", F["runs"])), "--steps", str(spec.get("steps", F["steps"]))]
            for q in spec.get("prof", []):
                args += ["--prof", str(q)]
            out.append((f"{round_}-{k}", args))
        return out

    jobs = [pool.submit(one, j) for j in random_jobs(0)]
    scns, seen = [], set()
    for f in fut_em:
        for s in f.result():
            k = json.dumps(s, sort_keys=True)
            if k not in seen:
                seen.add(k)
                scns.append(s)
    # drop scenarios that are prefixes of others
    keys = set()
    for s in sorted(scns, key=lambda s: -len(s["ops"])):
        ops = [json.dumps(o, sort_keys=True) for o in s["ops"]]
        c = json.dumps(s["cfg"], sort_keys=True)
        if (c, tuple(ops)) in keys:
            continue
        s["_keep"] = True
        for k in range(1, len(ops) + 1):
            keys.add((c, tuple(ops[:k])))
    scns = [s for s in scns if s.pop("_keep", False)]
    log(f"driver built in {build_s:.0f}s; {len(scns)} scenarios from the specification")
    for k in range(CORES):
        if scns[k::CORES]:
            sf = os.path.join(work, f"s{k}.jsonl")
            open(sf, "w").write("".join(json.dumps(s) + "\n" for s in scns[k::CORES]))
            jobs.append(pool.submit(one, (f"s-{k}", ["--seed", "1", "--runs", "0", "--script", sf])))

    mc = [f.result() for f in fut_mc] if not deep else []
    total, traces, fails, cov, samples, dead = 0, 0, [], set(), [], []
    rounds = 0
    while True:
        for how, n, fl, cv, lines, args in (f.result() for f in jobs):
            if how != "ok":
                dead.append((how, args))
            total += n
            cov |= cv
            traces += sum(1 for l in lines if '"op":"init"' in l)
            runs = collections.defaultdict(list)
            if fl:
                for l in lines:
                    runs[json.loads(l)["run"]].append(l)
            for f in fl:
                for p, rule in f["fails"]:
                    own = p == prop or (p == "?" and f.get("op") in spec.get("ops", []))
                    if own:
                        fails.append((rule, f, runs[f["run"]]))
            if lines and len(samples) < 3:
                r = json.loads(lines[min(len(lines) - 1, 5)])
                samples.append({"trace_line": {"o": r["o"], "r": r["r"]}})
        rounds += 1
        if fails or not deep or time.time() - t0 > budget - 330:
            break
        jobs = [pool.submit(one, j) for j in random_jobs(rounds)]
    if deep:
        mc = [f.result() for f in fut_mc]

    # ---- known findings, verdict -------------------------------------------
    rc, shown = 0, set()
    knw = known()
    new = []
    for rule, f, lines in fails:
        hit = [k for k in knw if k[0] == prop and k[1] == rule.replace(" ", "_")]
        if hit:
            shown.add(hit[0])
        else:
            new.append((rule, f, lines))
    for k in knw:
        if k[0] == prop:
            log(f"KNOWN-FINDING: property={prop} {k[2]}" + ("" if k in shown else " (not met in this run)"))
    if new:
        rc = 1
        rule, f, lines = min(new, key=lambda x: len(x[2]))
        sc, recs = scenario_of(lines, f["run"])
        cut = next((i for i in range(len(recs)) if f.get("op") is None and recs[i].get("_") is not None), None)
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{prop}.json")
        sc, bad = shrink(binary, fam, prop, rule, sc, work, spec)
        json.dump({"property": prop, "rule": rule, "driver": F["bin"], "scenario": sc, "failing_step": bad,
                   "rules_broken": sorted({r for r, _, _ in new})}, open(rp, "w"), indent=1)
        log(f"{len(new)} disagreements; rules: {sorted({r for r, _, _ in new})}")
        log(f"replay: python3 run/replay.py {rp}")
        log(f"VIOLATION property={prop} replay={rp}")
    elif dead:
        if spec.get("nopanic"):
            rdir = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{prop}.json")
            json.dump({"property": prop, "rule": "driver " + dead[0][0], "driver": F["bin"], "args": dead[0][1]}, open(rp, "w"), indent=1)
            log(f"VIOLATION property={prop} replay={rp}")
            rc = 1
        else:
            raise ToolError(f"driver {dead[0]}")
    if total == 0:
        raise ToolError("nothing was recorded")
    mine = set(spec.get("ops", []))
    covl = sorted(cov)
    states = sum(m["states"] for m in mc) + total
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in mc),
            "transitions": sum(m["transitions"] for m in mc),
            "traces_validated_against_impl": traces,
            "trace_lines_judged": total,
            "model_checking_runs": mc,
            "scenarios_from_the_specification": len(scns),
            "call_outcome_classes_covered": len(covl),
            "call_outcome_classes_of_this_property": [json.loads(c) for c in covl if not mine or json.loads(c)[0] in mine][:200],
            "samples": ([{"scenario_from_specification": scns[len(scns) // 2]}] if scns else []) + samples,
            "exhaustive": False,
        },
        "assumptions": F["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    log(f"{prop} {tier}: {ev['coverage']['states']} states, {traces} traces, {total} lines judged, {len(covl)} call/outcome classes, {ev['wall_s']}s, exit {rc}")
    return rc


def failing(binary, fam, prop, rule, sc, work, tag, spec):
    """First failing line of this property when the scenario is replayed, or None."""
    sf, tr = os.path.join(work, f"sh{tag}.jsonl"), os.path.join(work, f"sh{tag}.ndjson")
    open(sf, "w").write(json.dumps(sc) + "\n")
    if drive(binary, ["--out", tr, "--script", sf], 60) == "hang":
        return None
    try:
        _, fl, _, lines = validate(work, fam, tr, f"sh{tag}", 60)
    except ToolError:
        return None
    for f in fl:
        for p, r in f["fails"]:
            if p == prop or (p == "?" and f.get("op") in spec.get("ops", [])):
                return f["line"], r, json.loads(lines[f["line"] - 1])
    return None


def shrink(binary, fam, prop, rule, sc, work, spec):
    """Shorten the failing scenario; bounded effort."""
    end = time.time() + 45
    hit = failing(binary, fam, prop, rule, sc, work, "0", spec)
    if hit is None:
        return sc, None
    sc = {"cfg": sc["cfg"], "ops": sc["ops"][: hit[0] - 1]}
    n, k = max(1, len(sc["ops"]) // 2), 1
    best = hit
    with ThreadPoolExecutor(CORES) as pool:
        while n >= 1 and time.time() < end:
            cands = []
            for at in range(0, len(sc["ops"]) - 1, n):
                cands.append({"cfg": sc["cfg"], "ops": sc["ops"][:at] + sc["ops"][at + n:]})
            k += 1
            got = False
            for b in range(0, len(cands), CORES):
                if time.time() > end:
                    break
                res = list(pool.map(lambda x: failing(binary, fam, prop, rule, x[1], work, f"{k}-{b}-{x[0]}", spec), enumerate(cands[b:b + CORES])))
                for c, r in zip(cands[b:b + CORES], res):
                    if r:
                        sc, best, got = {"cfg": c["cfg"], "ops": c["ops"][: r[0] - 1]}, r, True
                        break
                if got:
                    break
            if not got:
                n //= 2
    return sc, {"line": best[0], "rule": best[1], "o": best[2]["o"], "r": best[2]["r"], "state_after": best[2]["s"]}


if __name__ == "__main__":
    sys.exit(main())
