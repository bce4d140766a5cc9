#!/usr/bin/env python3
"""Runs the check of one property.

usage: checks/run.py ID        (VERIF_SEED, VERIF_TIER in the environment)

A check is a list of stages (checks/stages.py).  A trace stage runs a recorder
(harness/rec_*.py), which runs the code of /repo's working tree and writes what
it saw as JSON, and then TLC, which compares that with a TLA+ specification in
spec/; a model stage runs TLC on a design model alone.  All verdicts are TLC's:

  exit 0   every invariant of every stage held
  exit 1   an invariant about the code failed:  VIOLATION property=ID replay=PATH
  exit 2   the machinery failed (no verdict)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
sys.path.insert(0, HERE)
from stages import STAGES

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
PYTHON = next((p for p in ("/opt/venv/bin/python",) if os.path.exists(p)), sys.executable)
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])


class Broken(Exception):
    """The machinery, not the code, failed."""


def tlc(scratch, name, module, cfg, env=None, args=(), workers=4, timeout=600, heap="6g"):
    d = os.path.join(scratch, name)
    os.makedirs(d)
    cfgPath = os.path.join(d, "run.cfg")
    with open(cfgPath, "w") as f: f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", cfgPath, *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken(f"{name}: TLC did not finish in {timeout} s")
    out = p.stdout
    with open(os.path.join(d, "tlc.out"), "w") as f: f.write(out)
    r = {"code": p.returncode, "out": out, "states": 0, "transitions": 0, "invariant": None}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        init = re.findall(r"Finished computing initial states: (\d+) ", out)
        r["states"] = int(m[-1][1])
        r["transitions"] = max(0, int(m[-1][0]) - (int(init[-1]) if init else 0))
    m = re.search(r"Invariant (\S+) is violated", out)
    if m: r["invariant"] = m.group(1)
    return r


def finalState(out):
    """The last state of TLC's error trace, as text."""
    parts = re.split(r"\nState \d+: .*\n", "\n" + out)
    if len(parts) > 1:
        return re.split(r"\n\n|\n\d+ states generated", parts[-1])[0].strip()
    m = re.search(r"violated by the initial state:\n(.*?)\n\n", out, re.S)
    return m.group(1).strip() if m else out[-3000:]


def config(st):
    c = f"SPECIFICATION {st.get('spec', 'TraceSpec')}\nCHECK_DEADLOCK FALSE\n"
    if st.get("constants"):
        k = st["constants"]
        if THOROUGH: k = st.get("constantsThorough", k)
        c += "CONSTANTS\n" + "".join(f"  {a} {b}\n" if a.endswith("<-") else f"  {a} = {b}\n" for a, b in k.items())
    inv = list(st.get("invariants", []))
    if inv: c += "INVARIANTS " + " ".join(inv) + "\n"
    if st.get("properties"): c += "PROPERTIES " + " ".join(st["properties"]) + "\n"
    return c


def runStage(pid, st, scratch):
    name = st["name"]
    t0 = time.time()
    old = os.path.join(EVIDENCE, "replay", f"{pid}-{name}.json")
    if os.path.exists(old): os.remove(old)
    res = {"stage": name, "kind": st["kind"], "violation": None}
    if st["kind"] == "model":
        r = tlc(scratch, name, st["module"], config(st), timeout=st.get("timeout", 700))
        if r["code"] != 0: raise Broken(f"{name}: TLC says {r['code']} on the design model\n{r['out'][-3000:]}")
        res.update(states=r["states"], transitions=r["transitions"], module=st["module"], wall=round(time.time() - t0, 2))
        return res
    args = list(st["args"])
    if st.get("generate"):
        g = st["generate"]
        n = g["thorough"] if THOROUGH else g["quick"]
        cfg = open(os.path.join(SPEC, g["cfg"])).read()
        r = tlc(scratch, name + "-gen", g["module"], cfg, workers=1,
                args=["-simulate", f"num={n}", "-depth", str(g["depth"]), "-seed", str(SEED)])
        if r["code"] != 0: raise Broken(f"{name}: generation failed\n{r['out'][-3000:]}")
        plans = [json.loads(l) for l in r["out"].splitlines() if l.startswith('"PLAN ')]
        if len(plans) < n: raise Broken(f"{name}: {len(plans)} plans of {n}")
        path = os.path.join(scratch, name + ".plans")
        with open(path, "w") as f:
            for p in plans: f.write(p[5:] + "\n")
        args.append(path)
        res["generated_behaviours"] = len(plans)
    trace = os.path.join(scratch, name + ".json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONHASHSEED="0",
               VERIF_SEED=str(SEED), VERIF_TIER=TIER, TMPDIR=scratch)
    p = subprocess.run([PYTHON, "-W", "ignore", os.path.join(HARNESS, st["recorder"]), trace, *args],
                       env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=800)
    if p.returncode != 0 or not os.path.exists(trace):
        raise Broken(f"{name}: recorder failed\n{p.stdout[-3000:]}")
    res["record_wall"] = round(time.time() - t0, 2)
    r = tlc(scratch, name, st["module"], config(st), env={"TRACE": trace}, timeout=st.get("timeout", 800))
    data = json.load(open(trace))
    res.update(states=r["states"], transitions=r["transitions"], module=st["module"],
               invariants=st["invariants"], **summary(data))
    if r["code"] == 0:
        if r["states"] < res["traces"]: raise Broken(f"{name}: {r['states']} states for {res['traces']} traces")
    elif r["code"] == 12 and r["invariant"] and r["invariant"] != "Machinery" and r["invariant"] in st["invariants"]:
        res["violation"] = r["invariant"]
        final = finalState(r["out"])
        where = {k: v for k, v in re.findall(r"/\\ (\w+) = (.*)", final)}
        rec = {"property": pid, "stage": name, "invariant": r["invariant"], "seed": SEED, "tier": TIER,
               "recorder": [st["recorder"], *st["args"]], "module": st["module"], "final_state": final[:20000],
               "observed": excerpt(data, where)}
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        res["replay"] = os.path.join(d, f"{pid}-{name}.json")
        with open(res["replay"], "w") as f: json.dump(rec, f, indent=1)
    else:
        raise Broken(f"{name}: TLC says {r['code']}\n{r['out'][-4000:]}")
    res["wall"] = round(time.time() - t0, 2)
    return res


def isHistory(x):
    return isinstance(x, dict) and isinstance(x.get("events"), list)


def clip(x, depth=0):
    """A shortened copy of an observation, for samples and replay files."""
    if isinstance(x, list): return [clip(y, depth + 1) for y in x[:12]] + (["..."] if len(x) > 12 else [])
    if isinstance(x, dict): return {k: clip(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, str) and len(x) > 200: return x[:200] + "..."
    return x


def summary(data):
    """Every trace is a list of histories (with a list of events each)."""
    hs = data if isinstance(data, list) else data["histories"]
    return {"traces": len(hs), "events": sum(len(h["events"]) for h in hs),
            "samples": [clip({k: v for k, v in h.items() if k != "events"} | {"events": h["events"][:3]})
                        for h in (hs[:1] + hs[len(hs) // 2:len(hs) // 2 + 1])]}


def excerpt(data, where):
    hs = data if isinstance(data, list) else data["histories"]
    try:
        h = hs[int(where["hist"]) - 1]
        p = int(where["pos"])
        return {"history": int(where["hist"]), "position": p, "context": clip({k: v for k, v in h.items() if k != "events"}),
                "calls": [{k: v for k, v in e.items() if k not in ("snap", "eqs")} for e in h["events"][max(0, p - 60):p - 1]]
                if len(h["events"]) < 5000 and "snap" in (h["events"][0] if h["events"] else {}) else "",
                "failing": h["events"][p - 1]}
    except (KeyError, ValueError, IndexError):
        return clip(hs[:2])


def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    code = 2
    try:
        stages = [s for s in STAGES[pid] if THOROUGH or not s.get("thoroughOnly")]
        errors, results = [], []
        with ThreadPoolExecutor(max_workers=3) as ex:
            futs = [ex.submit(runStage, pid, s, scratch) for s in stages]
            for f in futs:
                try: results.append(f.result())
                except Broken as e: errors.append(str(e))
                except subprocess.TimeoutExpired as e: errors.append(str(e)[:500])
        viol = [r for r in results if r["violation"]]
        for r in viol:
            print(f"VIOLATION property={pid} replay={r['replay']}")
            print(f"  stage {r['stage']}: invariant {r['violation']} of {r['module']} fails on what the code did")
        for e in errors: print("ERROR", e)
        known(pid)
        ev = {"property": pid, "tier": TIER if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {"states": sum(r["states"] for r in results),
                           "transitions": sum(r["transitions"] for r in results),
                           "traces_validated_against_impl": sum(r.get("traces", 0) for r in results),
                           "observed_events": sum(r.get("events", 0) for r in results),
                           "samples": [s for r in results for s in r.get("samples", [])][:4] or ["none"],
                           "stages": [{k: v for k, v in r.items() if k != "samples"} for r in results]},
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
        code = 1 if viol else 2 if errors else 0
        for r in results:
            print(f"{pid} {r['stage']}: {r['states']} states, {r['transitions']} transitions"
                  + (f", {r['traces']} traces with {r['events']} events" if "traces" in r else "") + f", {r.get('wall')} s")
        print(f"{pid}: {['ok', 'VIOLATED', 'NO VERDICT'][code]} in {time.time() - t0:.1f} s")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:") and f"property={pid} " in l:
                print("KNOWN-FINDING: " + l[len("finding:"):].strip())


main()
