#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: run.py Cnn [--stage NAME] [--keep]
Exit 0: the property held on everything observed; 1: VIOLATION line printed; 2: error of the check.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from stages import STAGES          # per property: list of stages
from props import PROPS

def log(*a):
    print(*a, flush=True)

def env_base():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GONOSUMDB="*", CGO_ENABLED="1")
    return e

class Builder:
    def __init__(self, work):
        self.work, self.bins, self.lock = work, {}, {}
        h = os.path.join(HERE, "harness")
        mod = open(os.path.join(h, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(work, "go.mod"), "w").write(mod)
        sums = set(open(os.path.join(h, "go.sum")).read().splitlines())
        sums |= set(open(os.path.join(REPO, "go.sum")).read().splitlines())
        open(os.path.join(work, "go.sum"), "w").write("\n".join(sorted(s for s in sums if s)) + "\n")
    def build(self, pkg, mode):
        out = os.path.join(self.work, f"{pkg}.{mode}.bin")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(self.work, "go.mod"), "-o", out]
        env = env_base()
        if mode == "race": cmd.append("-race")
        elif mode == "asan": cmd.append("-asan")
        if mode == "server":
            cmd = ["go", "build", "-o", out, "."]; cwd = REPO; pkg = "main"
            env["GOFLAGS"] = ""
        else:
            cmd.append("./" + pkg); cwd = os.path.join(HERE, "harness")
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=700)
        return out, p
    def build_all(self, wants):
        res, ths = {}, []
        def one(w):
            try: res[w] = self.build(*w)
            except Exception as ex: res[w] = (None, ex)
        for w in wants:
            t = threading.Thread(target=one, args=(w,)); t.start(); ths.append(t)
        for t in ths: t.join()
        return res

def own_panic(text):
    """The panicking goroutine's first frames decide whose crash it is."""
    m = re.search(r"(^panic: |^fatal error: |^SIGSEGV|^unexpected fault|signal arrived during cgo|AddressSanitizer|runtime error)", text, re.M)
    if not m: return None
    tail = text[m.start():]
    # first goroutine trace
    g = re.search(r"^goroutine \d+.*?(?=^goroutine \d+|\Z)", tail, re.M | re.S)
    trace = g.group(0) if g else tail[:6000]
    return ("bgokden/veri" in trace or "AddressSanitizer" in text[:m.end()+200] or "annoy" in trace
            or "fatal error: all goroutines" in tail[:200] or "concurrent map" in tail[:200])

def run_stage(prop, st, binpath, work, seed, tier, server, label=None):
    label = label or st["name"]
    sd = os.path.join(work, "st-" + label); os.makedirs(sd, exist_ok=True)
    scratch = os.path.join(sd, "scratch"); os.makedirs(scratch)
    tmp = os.path.join(sd, "tmp"); os.makedirs(tmp)
    for d in (work, sd, scratch, tmp): os.chmod(d, 0o777)
    out = os.path.join(sd, "out.jsonl")
    env = env_base()
    env.update(VERIF_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_STAGE=st["name"],
               VERIF_SCRATCH=scratch, TMPDIR=tmp, VERIF_REPO=REPO)
    if server: env["VERIF_SERVER"] = server
    env["GORACE"] = f"halt_on_error=0 history_size=3 exitcode=0 log_path={sd}/race"
    env["ASAN_OPTIONS"] = f"detect_leaks={1 if st.get('lsan') else 0}:halt_on_error=1:abort_on_error=0:log_path={sd}/asan"
    env.update(st.get("env", {}))
    tmo = st.get("timeout", 600) if tier == "quick" else st.get("timeout_thorough", 3000)
    so, se = open(os.path.join(sd, "stdout"), "w"), open(os.path.join(sd, "stderr"), "w")
    t0 = time.time()
    p = subprocess.Popen([binpath, "-test.run", "^" + st["test"] + "$", "-test.timeout", "0"], cwd=sd, env=env,
                         stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
    hung = False
    try:
        rc = p.wait(tmo)
    except subprocess.TimeoutExpired:
        hung = True
        try: os.kill(p.pid, signal.SIGQUIT); p.wait(10)
        except Exception: pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    rc = p.wait()
    so.close(); se.close()
    text = open(os.path.join(sd, "stderr"), errors="replace").read() + open(os.path.join(sd, "stdout"), errors="replace").read()
    r = dict(stage=label, seed=seed, mode=st.get("mode", "plain"), rc=rc, wall=round(time.time() - t0, 2), violations=[], known=[], errors=[],
             summary=None, race_reports=0, asan_reports=0)
    if os.path.exists(out):
        for line in open(out):
            try: d = json.loads(line)
            except Exception: continue
            if d["type"] == "violation": r["violations"].append(d)
            elif d["type"] == "known": r["known"].append(d)
            elif d["type"] == "inconclusive": r["errors"].append(d["msg"])
            elif d["type"] == "summary": r["summary"] = d
    # race reports that involve the code under test
    seen = set()
    for f in sorted(os.listdir(sd)):
        fp = os.path.join(sd, f)
        if f.startswith("race."):
            for blk in open(fp, errors="replace").read().split("==================")[1::2]:
                if "DATA RACE" not in blk: continue
                # the two access stacks come first; ignore goroutine-creation stacks
                acc = re.split(r"^Goroutine \d+ ", blk, flags=re.M)[0]
                fr = re.findall(r"^  (\S+)\(", acc, re.M)
                # per access: the innermost frame of either the code under test or the harness decides
                inner = []
                for stack in re.split(r"^Previous ", acc, flags=re.M):
                    own = [x for x in re.findall(r"^  (\S+)\(", stack, re.M) if "bgokden/veri" in x or "verif/harness" in x]
                    if own: inner.append(own[0])
                if not any("bgokden/veri" in x for x in inner):
                    continue
                sig = "|".join(x for x in fr if "bgokden/veri" in x)
                r["race_reports"] += 1
                if sig in seen or len(seen) > 4: continue
                seen.add(sig)
                r["violations"].append(dict(type="violation", stage=st["name"], msg="data race: " + blk.strip()[:3000]))
        elif f.startswith("asan."):
            blk = open(fp, errors="replace").read()
            r["asan_reports"] += 1
            r["violations"].append(dict(type="violation", stage=st["name"], msg="sanitizer report: " + blk[:4000]))
    if hung:
        if r["summary"] is None and not r["violations"]:
            r["violations"].append(dict(type="violation", stage=st["name"],
                msg=f"an operation did not complete within {tmo} s; goroutines: " + text[-6000:]))
    elif r["summary"] is None and not r["violations"]:
        op = own_panic(text)
        if op: r["violations"].append(dict(type="violation", stage=st["name"], msg="crash: " + text[:6000]))
        elif not r["errors"]: r["errors"].append(f"stage {st['name']} ended with {rc} without a summary: " + text[-3000:])
    return r

def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--stage") + 1] if "--stage" in sys.argv else None
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    spec = STAGES[prop]
    meta = next(p for p in PROPS if p["id"] == prop)
    t0 = time.time()
    base = "/var/tmp" if os.path.isdir("/var/tmp") else None
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
    code = 2
    try:
        code = drive(prop, spec, meta, work, seed, tier, only, t0)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: log("kept", work)
    sys.exit(code)

def drive(prop, spec, meta, work, seed, tier, only, t0):
    stages = [s for s in spec["stages"] if (not only or s["name"] == only) and (tier == "thorough" or not s.get("thorough_only"))]
    pkg = spec.get("pkg", prop.lower())
    wants = sorted({(s.get("pkg", pkg), s.get("mode", "plain")) for s in stages})
    if spec.get("server"): wants.append(("server", "server"))
    b = Builder(work)
    built = b.build_all(wants)
    for w, (out, p) in built.items():
        if out is None or p.returncode != 0:
            log(f"build of {w} failed:", (p.stderr[-4000:] if out else p))
            return 2
    tb = time.time() - t0
    server = built[("server", "server")][0] if spec.get("server") else None
    results = []
    # quick: every stage once, all at the same time; thorough: the deep size of every stage with the given
    # seed and then the quick size with further seeds, a few at a time
    more = int(os.environ.get("VERIF_SEEDS", "24")) if tier == "thorough" else 0
    sem = threading.Semaphore(5 if tier == "thorough" else 99)
    stop = threading.Event()
    def go(s, seed, tier, label):
        with sem:
            if stop.is_set(): return
            r = run_stage(prop, s, built[(s.get("pkg", pkg), s.get("mode", "plain"))][0], work, seed, tier, server, label)
            shutil.rmtree(os.path.join(work, "st-" + label, "scratch"), ignore_errors=True)
            shutil.rmtree(os.path.join(work, "st-" + label, "tmp"), ignore_errors=True)
            results.append(r)
            if r["violations"]: stop.set()
    jobs = [(s, seed, tier, s["name"]) for s in stages]
    jobs += [(s, seed * 1000 + i, "quick", f"{s['name']}#{i}") for i in range(1, more + 1) for s in stages]
    ths = [threading.Thread(target=go, args=j) for j in jobs if not j[0].get("alone")]
    [t.start() for t in ths]; [t.join() for t in ths]
    for j in jobs:
        if j[0].get("alone"): go(*j)
    results.sort(key=lambda r: r["stage"])
    known_ids = load_known(prop)
    viol, errors, known = [], [], {}
    for r in results:
        viol += r["violations"]; errors += r["errors"]
        for k in r["known"]:
            if k["id"] in known_ids: known.setdefault(k["id"], k["msg"])
            else: viol.append(dict(type="violation", stage=r["stage"], msg="unlisted finding " + k["id"] + ": " + k["msg"]))
    ev = distinct = 0
    counters, samples = {}, []
    for r in results:
        s = r["summary"]
        if not s: continue
        ev += s["evaluations"]; distinct += s["distinct"]
        base = r["stage"].split("#")[0]
        for k, v in s["counts"].items(): counters[base + "." + k] = counters.get(base + "." + k, 0) + v
        for x in (s["samples"] or [])[:2]: samples.append({"stage": r["stage"], "case": x})
        need = next(q for q in stages if q["name"] == base).get("min", 1)
        if s["distinct"] < need and not viol:
            errors.append(f"stage {r['stage']} observed only {s['distinct']} non-trivial cases (needs {need})")
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    evd = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=distinct, rule=spec["rule"], samples=samples[:8] or ["none"],
                      observed=counters, build_s=round(tb, 1),
                      stages=[dict(stage=r["stage"], seed=r["seed"], mode=r["mode"], wall_s=r["wall"], race_reports=r["race_reports"], sanitizer_reports=r["asan_reports"]) for r in results]),
        assumptions=[meta["note"]], wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(evd, f, indent=1)
    for k, m in sorted(known.items()): log(f"KNOWN-FINDING: property={prop} {k}: {m[:300]}")
    if viol:
        rp = os.path.join(HERE, "evidence", "replay", f"{prop}-{tier}-{seed}.json")
        bad = next((r for r in results if r["violations"]), dict(seed=seed, stage=viol[0].get("stage", "")))
        rtier = "quick" if "#" in bad["stage"] else tier
        with open(rp, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier,
                command=f"cd /verif && VERIF_SEED={bad['seed']} VERIF_TIER={rtier} python3 run.py {prop} --stage {bad['stage'].split('#')[0]}",
                violations=viol), f, indent=1)
        for v in viol[:6]: log("  violated:", v.get("stage"), (v["msg"][:1500]).replace("\n", "\n    "))
        log(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors: log("ERROR:", e)
        return 2
    log(f"OK {prop} tier={tier} seed={seed}: {ev} cases, {distinct} distinct non-trivial, {round(time.time()-t0,1)} s (build {tb:.1f} s)")
    return 0

def load_known(prop):
    ids = set()
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) ", line)
            if m and m.group(1) == prop: ids.add(m.group(2))
    return ids

main()
