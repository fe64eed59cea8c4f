#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--keep]

Decides one property: model-checks its TLA+ specification with TLC, generates
behaviours from the specification (exhaustively up to a bound and at random
beyond it), builds the harness against /repo's working tree, replays every
behaviour into the real code, and, where the property says so, has TLC check
traces recorded from the real code against the specification.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the machinery itself failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOTS = ["/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"]
KNOWN = os.path.join(HERE, "known-findings.txt")


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", CGO_ENABLED="0", GOSUMDB="off")
    for g in GOROOTS:
        if os.path.isdir(g):
            e["PATH"] = g + ":" + e["PATH"]
            break
    return e


def build(tmp):
    out = os.path.join(tmp, "vh")
    r = subprocess.run(["go", "build", "-o", out, "./cmd/vh"], cwd=os.path.join(HERE, "harness"), env=env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("harness does not build:\n" + r.stderr[-4000:])
    return out


def fmt(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(fmt(x) for x in v)) + "}"
    if isinstance(v, str):
        return v[1:] if v.startswith("@") else '"%s"' % v
    return str(v)


def cfg_text(run, invs, props, spec):
    t = "SPECIFICATION %s\n" % spec
    c = run.get("consts", {})
    if c:
        t += "CONSTANTS\n" + "".join("  %s %s\n" % (k, v if str(v).startswith("<-") else "= " + fmt(v)) for k, v in c.items())
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    if run.get("constraint"):
        t += "CONSTRAINT " + run["constraint"] + "\n"
    if run.get("view"):
        t += "VIEW " + run["view"] + "\n"
    return t


def tlc(tmp, name, module, cfg, extra, workers, heap="6g", timeout=800, extra_files=None):
    d = os.path.join(tmp, name)
    os.makedirs(d)
    for f in os.listdir(os.path.join(HERE, "specs")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(HERE, "specs", f), d)
    for f in extra_files or []:
        shutil.copy(f, d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    jt = os.path.join(d, "jtmp")
    os.makedirs(jt)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + jt, "-cp", JAR, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", "run.cfg"] + extra + [module + ".tla"]
    out = os.path.join(d, "out.txt")
    with open(out, "w") as fh:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, env=env(), timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s" % name)
    return rc, out


def stats(path):
    gen = dist = None
    with open(path, errors="replace") as f:
        for l in f:
            m = re.match(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct", l)
            if m:
                gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
            m = re.match(r"The number of states generated: ([\d,]+)", l)
            if m:
                gen = int(m[1].replace(",", ""))
                dist = dist or 0
    return gen or 0, dist or 0


def tail(path, n=40):
    with open(path, errors="replace") as f:
        ls = [l for l in f if not l.startswith(('"TRACE', "Parsing", "Semantic", "Linting"))]
    return "".join(ls[-n:])[-6000:]


def model(tmp, i, run):
    rc, out = tlc(tmp, "model%d" % i, run["module"], cfg_text(run, run.get("invs"), run.get("props"), run.get("spec", "Spec")),
                  (["-deadlock"] if run.get("nodeadlock", True) else []), run.get("workers", 4), heap="8g")
    if rc != 0 and run.get("workers", 4) > 1:
        # TLC's workers share lazily evaluated constants and can trip over each
        # other; a true counterexample shows again with one worker
        rc, out = tlc(tmp, "model%d.again" % i, run["module"], cfg_text(run, run.get("invs"), run.get("props"), run.get("spec", "Spec")),
                      (["-deadlock"] if run.get("nodeadlock", True) else []), 1, heap="8g")
    if rc != 0:
        raise Broken("TLC rejects the specification %s itself (rc %d):\n%s" % (run["module"], rc, tail(out)))
    g, d = stats(out)
    if d == 0:
        raise Broken("TLC explored nothing in %s" % run["module"])
    return {"module": run["module"], "consts": {k: str(v) for k, v in run.get("consts", {}).items()},
            "checked": (run.get("invs") or []) + (run.get("props") or []), "states": d, "transitions": g}


def gen(tmp, i, run, seed):
    name = run.get("name", "gen%d" % i)
    sim = run.get("sim")
    extra = ["-deadlock"]
    if sim:
        extra += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]), "-seed", str(seed * 7919 + i)]
    rc, out = tlc(tmp, name, run["module"], cfg_text(run, run.get("invs", ["Emit"]), None, run.get("spec", "Spec")), extra, 1)
    if rc != 0:
        raise Broken("generator %s failed (rc %d):\n%s" % (run["module"], rc, tail(out)))
    path = os.path.join(tmp, name + ".ndjson")
    n, seen = 0, set()
    with open(out, errors="replace") as f, open(path, "w") as o:
        for l in f:
            if l.startswith('"TRACE '):
                t = json.loads(l)[6:]
                h = hash(t)
                if h in seen:
                    continue
                seen.add(h)
                o.write(t + "\n")
                n += 1
    if n == 0:
        raise Broken("generator %s produced no behaviour" % name)
    g, d = stats(out)
    os.remove(out)
    return {"name": name, "module": run["module"], "mode": "simulate" if sim else "exhaustive",
            "consts": {k: str(v) for k, v in run.get("consts", {}).items()}, "traces": n, "states": d, "transitions": g,
            "path": path}


def vh(binp, prop, traces, seed, tier, outdir, extra=(), timeout=850):
    try:
        r = subprocess.run([binp, prop, "-traces", ",".join(traces), "-seed", str(seed), "-tier", tier, "-out", outdir,
                            "-known", KNOWN] + list(extra), env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("harness timed out")
    if r.returncode != 0 and "fatal error:" in r.stderr and "benedoc-inc/pdfer" in r.stderr:
        # The runtime killed the process from inside the code under test (stack
        # overflow, out of memory): nothing in-process could catch it.
        rp = os.path.join(outdir, "replay-%s-crash.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": "fatal", "seed": seed, "tier": tier, "message": r.stderr[:6000]}, f, indent=1)
        return {"samples": 0, "steps": 0, "violations": 1, "violation_keys": {"fatal": 1}, "counts": {}, "known_hit": [],
                "replay": rp, "messages": ["fatal: " + r.stderr[:400]]}
    if r.returncode != 0:
        raise Broken("harness failed (rc %d):\n%s" % (r.returncode, r.stderr[-4000:]))
    with open(os.path.join(outdir, "result.json")) as f:
        return json.load(f)


def record_and_validate(tmp, binp, prop, run, i, seed, tier, outdir):
    """Random sessions against the real code, recorded, then checked by TLC."""
    d = os.path.join(tmp, "rec%d" % i)
    os.makedirs(d)
    try:
        r = subprocess.run([binp, run["recorder"], "-seed", str(seed), "-tier", tier, "-out", d], env=env(),
                           capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise Broken("recorder timed out")
    if r.returncode != 0 and run.get("crash") and re.search("fatal error|SIGSEGV|nil pointer", r.stderr):
        # The recorder only shares the real object between goroutines; memory
        # damaged while they ran was damaged by the code under test.
        rp = os.path.join(outdir, "replay-%s-crash.txt" % prop)
        with open(rp, "w") as f:
            f.write(r.stderr[:20000])
        return {"module": run["module"], "violation": rp, "traces": 0, "states": 0, "transitions": 0}
    if r.returncode != 0:
        raise Broken("recorder failed (rc %d):\n%s" % (r.returncode, r.stderr[-4000:]))
    rec = os.path.join(d, "recorded.json")
    with open(rec) as f:
        traces = json.load(f)
    rc, out = tlc(tmp, "validate%d" % i, run["module"], cfg_text(run, run.get("invs", ["ObsOK"]), None, run.get("spec", "Spec")),
                  ["-deadlock"], 4, extra_files=[rec])
    g, s = stats(out)
    txt = open(out, errors="replace").read()
    if rc != 0:
        if "Invariant" in txt and "is violated" in txt:
            rp = os.path.join(outdir, "replay-%s-trace.txt" % prop)
            shutil.copy(out, rp)
            m = re.findall(r"tid = (\d+)", txt)
            tid = int(m[-1]) if m else 0
            with open(rp, "a") as f:
                f.write("\nrecorded trace %d:\n%s\n" % (tid, json.dumps(traces[tid - 1]) if tid else ""))
            return {"module": run["module"], "violation": rp, "traces": len(traces), "states": s, "transitions": g}
        raise Broken("trace validation with %s failed (rc %d):\n%s" % (run["module"], rc, tail(out)))
    return {"module": run["module"], "traces": len(traces), "states": s, "transitions": g}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    conf = chk[tier] if tier in chk else chk["quick"]
    outdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith("replay-%s-" % a.prop):
            os.remove(os.path.join(outdir, f))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build, tmp)
            fm = [ex.submit(model, tmp, i, r) for i, r in enumerate(conf.get("models", []))]
            fg = [ex.submit(gen, tmp, i, r, a.seed) for i, r in enumerate(conf.get("gens", []))]
            binp = fb.result()
            gens = [f.result() for f in fg]
            models = [f.result() for f in fm]
        t1 = time.time()
        res = {"samples": 0, "steps": 0, "violations": 0, "counts": {}, "known_hit": []}
        if gens:
            res = vh(binp, a.prop, [g["path"] for g in gens], a.seed, tier, outdir)
            os.remove(os.path.join(outdir, "result.json"))
        t2 = time.time()
        recs = [record_and_validate(tmp, binp, a.prop, r, i, a.seed, tier, outdir) for i, r in enumerate(conf.get("records", []))]
        sample = []
        for g in gens:
            with open(g["path"]) as f:
                l = f.readline()
                for _ in range(g["traces"] // 2):
                    l = f.readline() or l
                sample.append({"generator": g["name"], "trace": json.loads(l) if len(l) < 3000 else l[:3000]})
        rviol = [r for r in recs if "violation" in r]
        nv = res["violations"] + len(rviol)
        cov = {
            "states": sum(m["states"] for m in models) + sum(g["states"] for g in gens if g["mode"] == "exhaustive") + sum(r["states"] for r in recs),
            "transitions": sum(m["transitions"] for m in models) + sum(g["transitions"] for g in gens) + sum(r["transitions"] for r in recs),
            "traces_validated_against_impl": res["samples"] + sum(r["traces"] for r in recs),
            "replayed_steps": res["steps"],
            "samples": sample,
            "models": models,
            "generators": [{k: v for k, v in g.items() if k != "path"} for g in gens],
            "recorded": [{k: v for k, v in r.items()} for r in recs],
            "counts": res.get("counts", {}),
            "seconds": {"tlc_and_build": round(t1 - t0, 1), "replay": round(t2 - t1, 1), "trace_validation": round(time.time() - t2, 1)},
        }
        ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
              "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nv}
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        texts = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m[1] == a.prop:
                    texts[m[2]] = m[3]
        for k, txt in texts.items():
            print("KNOWN-FINDING: property=%s %s" % (a.prop, txt))
        print("%s %s: %d model states, %d traces replayed (%d steps), %d recorded traces validated, %.0fs" % (
            a.prop, tier, cov["states"], res["samples"], res["steps"], sum(r["traces"] for r in recs), time.time() - t0))
        if nv:
            for m in res.get("messages", [])[:8]:
                print("  " + m[:500].replace("\n", " | "))
            rp = res.get("replay") or rviol[0]["violation"]
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            return 1
        return 0
    except Exception as e:
        if not isinstance(e, Broken):
            traceback.print_exc()
        print("check %s could not run: %s" % (a.prop, e), file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
