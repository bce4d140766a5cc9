#!/usr/bin/env python3
"""A mutation campaign: small random changes to the code, tried on copies.

mutate.py SEED COUNT OUT [FILE...]

Every change that compiles and passes the stable tests is run against the quick
checks of the properties that are anchored in its file, until one reports it.
OUT gets one JSON line for each: what was changed and what reported it (null if
nothing did: either it changes no behaviour, or a check is missing something).
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
import seed as S
V = S.V
SKIP = {"CharPropsData.py", "CasePropsData.py", "BidiPropsData.py", "Norm2NFCData.py", "UCDTypeDictionaries.py", "UnicodeVersion.py", "__init__.py"}
# properties that meet a file although it is not among their anchors
MORE = {"UnicodeData/Utrie2.py": ["T01", "T02", "E01", "C03"], "UnicodeData/ICUDataFile.py": ["M03", "M01", "N02"],
        "UnicodeData/Utilities.py": ["U01", "U02", "B01", "M01", "N02"], "UnicodeData/GeneralCategories.py": ["D01", "C02", "C01", "M01"]}


def anchors():
    out = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        for f in set(re.findall(r"(?:UnicodeData|module_builder)/\w+\.py", l)): out.setdefault(f, []).append(json.loads(l)["id"])
    out.update(MORE)
    return out


CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&", "+"], ast.BitXor: ["|", "&"],
       ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Mult: ["//"]}


def mutants(text):
    """(line, description, new text) of every single change."""
    tree = ast.parse(text)
    starts = [0]
    for l in text.encode().split(b"\n"): starts.append(starts[-1] + len(l) + 1)
    raw = text.encode()
    def span(n): return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []
    def put(n, a, b, new):
        out.append((n.lineno, f"{raw[a:b].decode()!r} -> {new!r}", (raw[:a] + new.encode() + raw[b:]).decode()))
    def between(n, l, r, olds, news):
        a, b = span(l)[1], span(r)[0]
        gap = raw[a:b].decode()
        for new in news:
            for old in olds:
                if gap.strip() == old or gap.strip(" ()") == old:
                    put(n, a, b, gap.replace(old, new, 1))
                    break
    sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
           ast.NotIn: "not in", ast.Add: "+", ast.Sub: "-", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
           ast.FloorDiv: "//", ast.Mod: "%", ast.Mult: "*"}
    noted = set()
    for n in ast.walk(tree):            # annotations and docstrings are no code
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None: noted |= set(ast.walk(getattr(n, f)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): noted.add(n.value); noted.add(n)
    for n in ast.walk(tree):
        if n in noted: continue
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                between(n, l, r, [sym[type(op)]], CMP[type(op)])
                l = r
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN: between(n, n.left, n.right, [sym[type(n.op)]], BIN[type(n.op)])
        elif isinstance(n, ast.BoolOp):
            o = "and" if isinstance(n.op, ast.And) else "or"
            for l, r in zip(n.values, n.values[1:]): between(n, l, r, [o], ["or" if o == "and" else "and"])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): put(n, *span(n), raw[span(n.operand)[0]:span(n.operand)[1]].decode())
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1): put(n, *span(n), str(n.value + d) if n.value + d >= 0 else f"({n.value + d})")
        elif isinstance(n, ast.Constant) and type(n.value) is bool: put(n, *span(n), str(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value and raw[span(n)[0]:span(n)[0] + 1] in (b'"', b"'"): put(n, *span(n), repr(n.value[:-1]))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for c in (["True", "False"] if not isinstance(n, ast.While) else ["False"]): put(n, *span(n.test), c)
        elif isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) \
                or isinstance(n, ast.Assign) and n.col_offset: put(n, *span(n), "pass")
        elif isinstance(n, ast.Return) and n.value is not None: put(n, *span(n.value), "None")
    return out


def passes(d):
    x, r = os.path.join(d, "junit.xml"), os.path.join(d, "res.json")
    try:
        subprocess.run([S.PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=60",
                        "--continue-on-collection-errors", "-x", "-o", "junit_family=xunit2", f"--junitxml={x}",
                        *[f"--ignore=tests/test_{n}.py" for n in ("charNames", "layoutProps", "normalizer2", "exhaustive")]],
                       cwd=d, env=dict(S.ENV, PYTHONPATH=d), capture_output=True, timeout=120)
        subprocess.run([S.PY, "/opt/vp/results.py", r, f"junit:{x}"], cwd=d, env=S.ENV, capture_output=True, timeout=60)
        return not S.STABLE - set(json.load(open(r))["passed"])
    except (subprocess.TimeoutExpired, OSError): return False
    finally:
        for p in (x, r):
            if os.path.exists(p): os.remove(p)


def check(pid, d, v):
    try: p = subprocess.run(["python3", os.path.join(v, "checks", "run.py"), pid], capture_output=True, text=True,
                            env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"), timeout=900)
    except subprocess.TimeoutExpired: return "timeout"
    if p.returncode == 0: return None
    return "violation" if p.returncode == 1 and f"VIOLATION property={pid} " in p.stdout else f"exit {p.returncode}"


def attempt(job):
    f, line, what, text, pids = job
    d = S.copyRepo("mut")
    v = tempfile.mkdtemp(prefix="mutverif-", dir="/tmp")
    try:
        open(os.path.join(d, f), "w").write(text)
        if not passes(d): return None
        subprocess.run(f"cp -a {V}/checks {V}/harness {V}/spec {V}/data {V}/known_findings.txt {v}/", shell=True, check=True)
        os.makedirs(os.path.join(v, "evidence"))
        res, by = None, None
        for pid in pids:
            res = check(pid, d, v)
            if res: by = pid; break
        return {"file": f, "line": line, "what": what, "caught": by and f"{by} {res}", "tried": pids}
    finally:
        shutil.rmtree(d); shutil.rmtree(v)


def main():
    sd, count, out, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    rnd = random.Random(sd)
    an = anchors()
    jobs = []
    for f in files or sorted(an):
        if os.path.basename(f) in SKIP: continue
        text = open(os.path.join("/repo", f)).read()
        ms = []
        for line, what, new in mutants(text):
            try: compile(new, f, "exec")
            except SyntaxError: continue
            ms.append((f, line, what, new, an[f]))
        # long lists of constants count for less
        k = max(3, int(min(len(ms), 400) ** .8)) if not files else len(ms)
        jobs += rnd.sample(ms, min(k, len(ms)))
    rnd.shuffle(jobs)
    jobs = jobs[:count]
    done = tested = 0
    with ThreadPoolExecutor(int(os.environ.get("MUTATE_JOBS", "3"))) as pool, open(out, "a") as o:
        for f in as_completed([pool.submit(attempt, j) for j in jobs]):
            r = f.result()
            tested += 1
            if r:
                done += 1
                o.write(json.dumps(r) + "\n"); o.flush()
                if not r["caught"]: print("SURVIVED", r["file"], r["line"], r["what"], flush=True)
    print(f"{tested} changes, {done} pass the tests")


if __name__ == "__main__": main()
