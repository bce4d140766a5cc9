#!/usr/bin/env python3
"""Makes and tries planted bugs.

seed.py make SPECFILE [ID...]   SPECFILE defines SEEDS: id -> dict(property, file, edits=[(old, new)...] or files={file: edits},
                                needs, breaks, demo=python source, copies=[files laid beside the demo])
seed.py try ID...               builds, tests and demonstrates each in a scratch copy, then runs the property's check on it
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
# run in the root of the repository: exit 0 if the property holds
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def copyRepo(tag):
    d = tempfile.mkdtemp(prefix=f"seed-{tag}-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for sid, s in ns["SEEDS"].items():
        if ids and sid not in ids: continue
        d = copyRepo(sid)
        try:
            for f, edits in (s.get("files") or {s["file"]: s["edits"]}).items():
                p = os.path.join(d, f)
                t = open(p).read()
                for old, new in edits:
                    assert t.count(old) == 1, f"{sid}: {t.count(old)} times in {f}: {old}"
                    t = t.replace(old, new)
                open(p, "w").write(t)
            diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
        finally:
            shutil.rmtree(d)
        o = os.path.join(V, "seeded", sid)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.sh"), "w").write(DEMO)
        open(os.path.join(o, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        for c in s.get("copies", []): shutil.copy(c, o)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)


def demo(sid, repo):
    e = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
    shutil.copytree(os.path.join(V, "seeded", sid), os.path.join(e, "x"))
    try:
        return subprocess.run(["bash", os.path.join(e, "x", "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
    finally:
        shutil.rmtree(e)


def attempt(sid):
    out = [sid]
    meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    d = copyRepo(sid)
    try:
        p = demo(sid, d)
        out.append("demo-clean " + ("ok" if p.returncode == 0 else f"BAD({p.returncode}) {p.stderr[-500:]} {p.stdout[-300:]}"))
        p = subprocess.run(["git", "-C", d, "apply", os.path.join(V, "seeded", sid, "patch.diff")], capture_output=True, text=True)
        if p.returncode: return " | ".join(out + ["APPLY FAILED " + p.stderr])
        x = os.path.join(d, "junit.xml")
        subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=300",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}",
                        *[f"--ignore=tests/test_{n}.py" for n in ("charNames", "layoutProps", "normalizer2", "exhaustive")]],
                       cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True)
        r = os.path.join(d, "res.json")
        subprocess.run([PY, "/opt/vp/results.py", r, f"junit:{x}"], cwd=d, env=ENV, capture_output=True)
        lost = STABLE - set(json.load(open(r))["passed"])
        out.append("tests ok" if not lost else f"TESTS FAIL {len(lost)}")
        p = demo(sid, d)
        out.append("demo-bug ok" if p.returncode != 0 else "DEMO DOES NOT FAIL")
        if meta["property"] and "--nocheck" not in sys.argv:
            v = tempfile.mkdtemp(prefix="seedverif-", dir="/tmp")
            subprocess.run(f"cp -a {V}/checks {V}/harness {V}/spec {V}/data {V}/known_findings.txt {v}/", shell=True, check=True)
            os.makedirs(os.path.join(v, "evidence"))
            p = subprocess.run(["python3", os.path.join(v, "checks", "run.py"), meta["property"]], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d), timeout=900)
            hit = p.returncode == 1 and f"VIOLATION property={meta['property']} " in p.stdout
            out.append("caught" if hit else f"MISSED rc={p.returncode}" + ("" if p.returncode != 2 else p.stdout[-1500:]))
            shutil.rmtree(v)
    finally:
        shutil.rmtree(d)
    return " | ".join(out)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(attempt, ids): print(r, flush=True)
