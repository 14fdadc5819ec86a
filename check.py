#!/usr/bin/env python3
"""Decides one property: python3 check.py C05 [--tier quick|thorough] [--seed N]

  1. model-checks the design specification(s) the property lives in (TLC, exhaustive);
  2. runs the real code of /repo through a driver that logs what it did, partly following
     behaviours generated by TLC from the specification;
  3. judges the logs with a TLA+ trace specification (TLC), which names the violated clauses;
  4. re-judges a corrupted copy of a log (negative control), to show the binding is alive.

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: machinery failure."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HARN)
from plan import PLAN       # noqa: what each property runs


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def driver_env(work):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR")}
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"),
               NUMBA_CACHE_DIR=os.path.join(work, "numba"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
    return env


def tlc(work, tag, module, cfg, env=None, workers=1, timeout=800, extra=(), heap="3g"):
    meta = os.path.join(work, "meta_" + tag)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return dict(rc=-1, out=out, timeout=True, wall=time.time() - t, tag=tag)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return dict(rc=p.returncode, out=p.stdout, timeout=False, wall=time.time() - t, tag=tag)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(work, job, tier):
    """An exhaustive run of a design specification.  Its verdict does not depend on /repo: any
    failure is a failure of the machinery."""
    mod, cfgq, cfgt = job
    cfg = cfgt if tier == "thorough" and cfgt else cfgq
    r = tlc(work, "mc_" + mod + "_" + cfg, mod + ".tla", cfg, workers=4, timeout=840 if tier == "quick" else 3600, heap="6g")
    gen, dist = stats(r["out"])
    if "No error has been found" not in r["out"]:
        raise Machinery("model checking of %s/%s failed:\n%s" % (mod, cfg, r["out"][-3000:]))
    return dict(model=mod, cfg=cfg, generated=gen, distinct=dist, wall=round(r["wall"], 1))


def behaviours(work, job, tier, seed):
    """Behaviours of the specification, printed by TLC in simulation mode as JSON action logs."""
    mod, cfg, nq, nt, depth = job
    num = nt if tier == "thorough" else nq
    r = tlc(work, "sim_" + mod, mod + ".tla", cfg, timeout=600,
            extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    out, gen = [], 0
    for line in r["out"].splitlines():
        if line.startswith('"BEHAVIOUR '):
            out.append(json.loads(json.loads(line)[len("BEHAVIOUR "):]))
    m = re.findall(r"(\d+) states checked", r["out"]) + re.findall(r"number of states generated: (\d+)", r["out"])
    if m:
        gen = int(m[-1])
    if not out:
        raise Machinery("no behaviours from %s:\n%s" % (mod, r["out"][-3000:]))
    seen, uniq = set(), []
    for b in out:
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    return uniq, gen


def run_driver(work, prop, drv, tier, seed, extra, files, limit):
    prefix = os.path.join(work, "trace_%s_%d" % (drv, seed))
    cmd = [PY, os.path.join(HARN, drv + ".py"), "--out", prefix, "--files", str(files), "--seed", str(seed),
           "--tier", tier, "--focus", prop, "--extra", extra]
    p = subprocess.Popen(cmd, cwd=work, env=driver_env(work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        out += "\nDRIVER TIMED OUT"
    prog = ""
    try:
        prog = open(prefix + ".progress").read()
    except OSError:
        pass
    traces = sorted(f for f in (prefix + ".%d.ndjson" % i for i in range(files)) if os.path.exists(f))
    if prog.startswith("DONE "):
        return traces, json.loads(prog[5:]), None
    # The driver did not finish.  If it was inside the code under test (hang or hard crash), the code
    # gives no answer for a legal input; a Python error of the driver itself is a machinery failure.
    if p.returncode is not None and p.returncode < 0:
        return traces, {}, "the code under test crashed or did not return in scenario %s" % (prog or "?")
    if "/repo/" in out.split("Traceback")[-1] and "Traceback" in out:
        return traces, {}, "the code under test failed outside any guarded call: " + out.strip().splitlines()[-1]
    raise Machinery("driver %s failed (rc %s):\n%s" % (drv, p.returncode, out[-4000:]))


def judge(work, module, trace, timeout, prop=""):
    tag = os.path.basename(trace)
    verdict = trace + ".verdict.json"
    r = tlc(work, "tr_" + tag, module + ".tla", "Trace.cfg",
            env=dict(TRACE=trace, VERDICT=verdict, PROP=prop), timeout=timeout)
    gen, dist = stats(r["out"])
    if os.path.exists(verdict):
        v = json.load(open(verdict))
        return dict(ok=True, bad=v["bad"], lines=v["lines"], gen=gen, dist=dist, aux=v.get("aux"), wall=r["wall"])
    return dict(ok=False, out=r["out"], timeout=r["timeout"], lines=0, gen=gen, dist=dist, bad=[], wall=r["wall"])


def nlines(path):
    with open(path) as f:
        return sum(1 for _ in f)


def known_findings():
    """{property: [substring identifying the finding]} for recorded (not repaired) defects."""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) match=\[(.*?)\] (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed
    plan = PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    rc = 2
    try:
        rc = decide(work, prop, tier, seed, plan, t0)
    except Machinery as ex:
        log("MACHINERY FAILURE:", ex)
    finally:
        if a.keep:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(work, prop, tier, seed, plan, t0):
    pool = ThreadPoolExecutor(8)
    mcs = [pool.submit(model_check, work, j, tier) for j in plan["mc"]]
    files = plan.get("files", 5)
    extra, simstates, nbeh = "", 0, 0
    if plan.get("sim"):
        allb = []
        for f in [pool.submit(behaviours, work, j, tier, seed) for j in plan["sim"]]:
            b, g = f.result()
            allb += b
            simstates += g
        nbeh = len(allb)
        extra = os.path.join(work, "behaviours.json")
        json.dump(allb, open(extra, "w"))
    limit = 420 if tier == "quick" else 7200
    runs = []
    seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(plan.get("thorough_seeds", 3))]
    for drv, mod in plan["drivers"]:
        for s in seeds:
            runs.append((drv, mod, s, pool.submit(run_driver, work, prop, drv, tier, s, extra, files, limit)))
    problems, judged, summaries = [], [], []
    todo = []
    for drv, mod, s, f in runs:
        traces, summ, fatal = f.result()
        summaries.append(summ)
        if fatal:
            problems.append(dict(why=fatal, trace=None, l=0, id=0, drv=drv))
        for t in traces:
            if nlines(t):
                todo.append((mod, t))
    # negative control: the same log with one observation corrupted must be rejected
    neg = None
    if todo and plan.get("neg"):
        neg = corrupt(work, todo, plan["neg"])
    res = list(pool.map(lambda x: (x, judge(work, x[0], x[1], 420 if tier == "quick" else 7200, prop)),
                        todo + ([(neg[0], neg[1])] if neg else [])))
    negres = None
    if neg:
        negres = res.pop()[1]
    lines = scen = gen = dist = 0
    for (mod, t), r in res:
        gen += r["gen"]
        dist += r["dist"]
        lines += r["lines"]
        if not r["ok"]:
            if "TLC threw an unexpected exception" in r["out"] or "Error:" in r["out"] or r["timeout"]:
                if "OutOfMemory" in r["out"] or "StackOverflow" in r["out"] or r["timeout"] or "Parsing or semantic analysis failed" in r["out"]:
                    raise Machinery("TLC could not judge %s:\n%s" % (t, r["out"][-3000:]))
                why = " ".join(r["out"].split("Error:")[1:])[:600].replace("\n", " ")
                problems.append(dict(why="the log cannot be interpreted by the specification: " + why, trace=t, l=0, id=0, drv=mod))
            else:
                raise Machinery("no verdict for %s:\n%s" % (t, r["out"][-3000:]))
        for b in r["bad"]:
            if prop in b["p"]:
                problems.append(dict(why=b["why"], trace=t, l=b["l"], id=b["id"], drv=mod))
    mc = [f.result() for f in mcs]
    if negres is not None and not problems:
        if negres["ok"] and not any(prop in b["p"] for b in negres["bad"]):
            raise Machinery("negative control was accepted: the log is not bound to the specification")
    known = known_findings().get(prop, [])
    hits = {}
    fresh = []
    for p in problems:
        k = [d for (m, d) in known if m in p["why"]]
        if k:
            hits[k[0]] = hits.get(k[0], 0) + 1
        else:
            fresh.append(p)
    for d in hits:
        log("KNOWN-FINDING: property=%s %s" % (prop, d))
    sample = [json.loads(l) for (m, t), _ in res[:1] for l in open(t).read().splitlines()[:2]]
    sample = json.loads(json.dumps(sample)[:1] and json.dumps(sample)) if sample else []
    scen = sum(s.get("scenarios", 0) for s in summaries)
    ops = {}
    for s in summaries:
        for k, v in s.get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=sum(m["distinct"] for m in mc) + dist,
                  transitions=sum(m["generated"] for m in mc) + gen,
                  traces_validated_against_impl=scen,
                  samples=[shrink(s) for s in sample],
                  design_models=mc,
                  trace_lines=lines, trace_spec_states=dist,
                  spec_behaviours_replayed=nbeh, simulation_states=simstates,
                  operations=ops,
                  negative_control=None if negres is None else
                  ("rejected" if (not negres["ok"] or any(prop in b["p"] for b in negres["bad"])) else "not rejected"),
                  exhaustive=False),
              assumptions=plan.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s tier=%s seed=%d: design states %d, scenarios %d, trace lines %d, behaviours %d, %.1fs" % (
        prop, tier, seed, sum(m["distinct"] for m in mc), scen, lines, nbeh, time.time() - t0))
    if fresh:
        rp = save_replay(prop, fresh, seed, tier)
        for p in fresh[:10]:
            log("  clause: %s  [scenario %s, line %s of %s]" % (p["why"], p["id"], p["l"], os.path.basename(p["trace"] or "-")))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    log("HELD property=%s" % prop)
    return 0


def shrink(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def save_replay(prop, fresh, seed, tier):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%d.json" % (prop, tier, seed))
    out = dict(property=prop, command="python3 check.py %s --tier %s --seed %d" % (prop, tier, seed), violations=[])
    for p in fresh[:5]:
        rec = dict(why=p["why"], scenario=p["id"], line=p["l"], events=[])
        if p["trace"] and p["l"]:
            rows = open(p["trace"]).read().splitlines()[:p["l"]]
            rec["events"] = [json.loads(x) for x in rows if json.loads(x).get("id") == p["id"]][-40:]
        out["violations"].append(rec)
    with open(path, "w") as f:
        json.dump(out, f)
    return path


def corrupt(work, todo, rules, most=6):
    """The scenarios of a few matching events, each cut after the event, with one observed field of it
    changed.  rules: list of (module, op, path, how)."""
    for mod0, op, path, how in rules:
        out, done = [], 0
        for mod, t in todo:
            if mod != mod0 or done >= most:
                continue
            rows = [json.loads(x) for x in open(t)]
            seen = set()
            for i, e in enumerate(rows):
                if e.get("op") != op or e.get("exc") or e["id"] in seen or done >= most:
                    continue
                try:
                    tgt = e
                    for k in path[:-1]:
                        tgt = tgt[k]
                    old = tgt[path[-1]]
                except (KeyError, IndexError, TypeError):
                    continue
                if isinstance(old, (list, dict)) or isinstance(old, str):
                    continue
                tgt[path[-1]] = old + how
                seen.add(e["id"])
                done += 1
                out += [json.dumps(x) for x in rows[:i + 1] if x["id"] == e["id"]]
        if out:
            name = os.path.join(work, "negative.ndjson")
            with open(name, "w") as f:
                f.write("\n".join(out) + "\n")
            return mod0, name
    return None


if __name__ == "__main__":
    main()
