"""Records runs of ModuleBuilder.py and ModuleInstaller.py for
spec/BuildTrace.tla.

usage: rec_build.py OUT
"""
import hashlib, multiprocessing, re, shutil, subprocess
from builder import *

OUT = sys.argv[1]
RUNS = 200 if THOROUGH else 24
BUILDER = os.path.join(REPO, "module_builder")
STUB = """class ArgumentIterator:
    def __init__(self, arguments): self.left = list(arguments)
    def __iter__(self): return self
    def __next__(self):
        if not self.left: raise StopIteration
        return self.left.pop(0)
    def nextExtra(self, what):
        if not self.left: raise ValueError("Missing " + what + ".")
        return self.left.pop(0)
"""
# values of ppucd.txt and the ICU constants they have
VALUES = [("bc", "L", "Left_To_Right", "U_LEFT_TO_RIGHT"), ("bc", "NSM", "Nonspacing_Mark", "U_DIR_NON_SPACING_MARK"), ("sc", "Latn", "Latin", "USCRIPT_LATIN"),
          ("sc", "Afak", "Afak", "USCRIPT_AFAKA"), ("dt", "Can", "Canonical", "U_DT_CANONICAL"), ("gc", "Lu", "Uppercase_Letter", "U_UPPERCASE_LETTER"),
          ("gc", "Cc", "Control", "U_CONTROL_CHAR"), ("blk", "Latin_1_Sup", "Latin_1_Supplement", "UBLOCK_LATIN_1_SUPPLEMENT"), ("lb", "AL", "Alphabetic", "U_LB_ALPHABETIC"),
          ("InPC", "Top_And_Left", "Top_And_Left", "U_INPC_TOP_AND_LEFT"), ("WB", "LE", "ALetter", "U_WB_ALETTER"), ("GCB", "SM", "SpacingMark", "U_GCB_SPACING_MARK")]
SOURCES = {"BidiPropsData": "common/ubidi_props_data.h", "CharPropsData": "common/uchar_props_data.h", "CasePropsData": "common/ucase_props_data.h"}
HEADERS = {"uprops_h": "common/uprops.h", "ucase_h": "common/ucase.h", "uchar_h": "common/unicode/uchar.h", "uscript_h": "common/unicode/uscript.h"}
SPEC = open(os.path.join(os.path.dirname(HERE), "spec", "DataSources.tla")).read()


def digest(b): return hashlib.sha256(b).hexdigest()[:16]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text if type(text) is bytes else text.encode())


def tree(rnd, root):
    """An ICU source and build tree, and what is in it."""
    t = {"sources": {}, "headers": {}, "ppucd": []}
    src = os.path.join(root, "icu", "source")
    for m, f in SOURCES.items():
        wanted = re.findall(r'Request\("(\w+)", "(\w+)"', SPEC[SPEC.index(m + " |->"):].split(">>")[0])
        d = [{"k": k, "n": n, "v": array(rnd) if k == "array" else [str(number(rnd))] if k == "scalar" else trieFields(rnd)} for k, n in wanted]
        d += [{"k": "array", "n": "z_" + d[0]["n"], "v": array(rnd, 3)}, {"k": "scalar", "n": "countPropsVectors", "v": ["7"]}]
        rnd.shuffle(d)
        t["sources"][m] = d
        write(os.path.join(src, f), sourceText(rnd, d))
    for m, f in HEADERS.items():
        names = {"uprops_h": ["UPROPS_AGE_SHIFT", "UPROPS_X"], "ucase_h": ["UCASE_NONE", "UCASECONTEXT_INITIALIZER"],
                 "uchar_h": ["UCHAR_MAX_VALUE", "U_NO_NUMERIC_VALUE"] + [c for *_, c in VALUES if not c.startswith("USCRIPT")],
                 "uscript_h": [c for *_, c in VALUES if c.startswith("USCRIPT")]}[m]
        values = rnd.sample(range(900), len(names))
        ignored = {"UCASECONTEXT_INITIALIZER", "U_NO_NUMERIC_VALUE"}
        lines = ["#ifndef " + m.upper(), "#define " + m.upper()]
        t["headers"][m] = []
        enum = rnd.random() < .5
        for n, v in zip(names, values):
            t["headers"][m].append({"n": n, "t": "int", "v": [str(v)]})
        for n, v in [x for x in zip(names, values) if x[0] in ignored] + ([x for x in zip(names, values) if x[0] not in ignored] if not enum else []):
            lines.append(f"#define {n} " + ("((double)-123456789.)" if n in ignored and rnd.random() < .5 else "{ 0, 0 }" if n in ignored else f"{v}"))
        if enum: lines += ["typedef enum X {"] + [f"    {n}={v}," for n, v in zip(names, values) if n not in ignored] + ["} X;"]
        write(os.path.join(src, f), "\n".join(lines + ["#endif", ""]))
    rows = rnd.sample(VALUES, rnd.randrange(1, len(VALUES) + 1))
    t["ppucd"] = [{"k": "ucd", "version": rnd.choice(["13.0.0", "14.0.0", "9.0.0"])}] + [{"k": "value", "p": p, "short": list(s), "long": list(l)} for p, s, l, _ in rows]
    write(os.path.join(src, "data/unidata/ppucd.txt"), "\n".join([f"ucd;{t['ppucd'][0]['version']}", "", "property;Enumerated;x;X"] +
                                                               [f"value;{p};{s};{l}" for p, s, l, _ in rows] + ["cp;0041;gc=Lu", ""]))
    short = rnd.choice(["69", "74", "100"])
    write(os.path.join(src, "common/unicode/uvernum.h"), f'#define U_COPYRIGHT_STRING "x"\n#define U_ICU_VERSION_MAJOR_NUM {short}\n#define U_ICU_VERSION "{short}.1"\n#define U_ICU_VERSION_SHORT "{short}"\n')
    data, lic = bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 3000))), f"LICENSE {rnd.random()}\n"
    for other in ("icudt68l", "icudt99b", f"icudt{short}b"): write(os.path.join(root, "build", "data/out", other + ".dat"), b"other")
    write(os.path.join(root, "build", "data/out", f"icudt{short}l.dat"), data)
    write(os.path.join(root, "icu", "LICENSE"), lic)
    write(os.path.join(src, "LICENSE"), "another\n")
    return t | {"data": digest(data), "license": digest(lic.encode())}


READER = """
import importlib, json, sys
root, package, names = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.path.insert(0, root)
out = {}
for m in names:
    try: module = importlib.import_module(package + "." + m)
    except Exception as e: out[m] = [{"n": type(e).__name__, "t": "raised", "v": []}]; continue
    own = []
    star = set()
    if m == "UCDTypeDictionaries":
        for h in ("uchar_h", "uscript_h"): star |= set(vars(importlib.import_module(package + "." + h)))
    for n, v in vars(module).items():
        if n.startswith("__") or n in star or n in ("uchar_h", "uscript_h"): continue
        if type(v) is int: own.append({"n": n, "t": "int", "v": [str(v)]})
        elif type(v) is str: own.append({"n": n, "t": "text", "v": [v]})
        elif type(v) is list: own.append({"n": n, "t": "list", "v": [str(x) for x in v]})
        elif type(v) is dict: own.append({"n": n, "t": "dict", "v": [f"{a} {b}" for a, b in v.items()]})
        else: own.append({"n": n, "t": "function" if callable(v) else type(v).__name__, "v": []})
    out[m] = own
print(json.dumps(out))
"""


# a process that builds something else first
TWICE = """
import sys
sys.path.insert(0, sys.argv[1])
name, first, then = sys.argv[2], sys.argv[4:4 + int(sys.argv[3])], sys.argv[4 + int(sys.argv[3]):]
import ModuleBuilder
sys.argv[:] = [name] + first
try: ModuleBuilder.build()
except SystemExit: pass
sys.argv[:] = [name] + then
ModuleBuilder.build()
"""


def program(name, args, cwd, env, first=None):
    start = [os.path.join(BUILDER, name)] if first is None else ["-c", TWICE, BUILDER, os.path.join(BUILDER, name), str(len(first)), *first]
    try: return subprocess.run([sys.executable, "-W", "ignore", *start, *args], cwd=cwd, env=env, capture_output=True, timeout=60).returncode
    except subprocess.TimeoutExpired: return 99


def modules(root, package, names, env):
    if not names: return {}
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", READER, root, package, *names], capture_output=True, text=True, env=env, timeout=60)
    return json.loads(p.stdout)


def snapshot(root, env, under=""):
    """The files below root: modules as what they bind, others as digests."""
    out = []
    for d, _, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        fs = [f for f in fs if not f.endswith(".pyc")]
        py = [f for f in fs if f.endswith(".py")]
        binds = modules(os.path.dirname(d), os.path.basename(d), [f[:-3] for f in py], env)
        for f in sorted(fs):
            path = f if rel == "." else os.path.join(rel, f)
            out.append({"f": path, "c": ["module", binds[f[:-3]]] if f in py else ["raw", digest(open(os.path.join(d, f), "rb").read())]})
    return out


def raw(root):
    return {os.path.relpath(os.path.join(d, f), root): digest(open(os.path.join(d, f), "rb").read()) for d, _, fs in os.walk(root) for f in fs}


def age(rnd, root):
    """Files are of any age, whatever their contents."""
    for d, _, fs in os.walk(root):
        for f in fs:
            t = rnd.choice([10 ** 9, 1.5 * 10 ** 9, 1.7 * 10 ** 9, 2 * 10 ** 9])
            os.utime(os.path.join(d, f), (t, t))


def record(n):
    rnd = random.Random(f"{SEED}-build-{n}")
    root = tempfile.mkdtemp()
    write(os.path.join(root, "stub", "FontDocTools", "__init__.py"), "")
    write(os.path.join(root, "stub", "FontDocTools", "ArgumentIterator.py"), STUB)
    env = dict(os.environ, PYTHONPATH=os.path.join(root, "stub"), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    home = os.path.join(root, "home")
    for f, c in [("UnicodeData/Characters.py", "hand = 1\n"), ("UnicodeData/uchar_h.py", "old = 2\n"), ("UnicodeData/Data/icudata.dat", "old"), ("UnicodeData/Data/keep.txt", "keep"),
                 ("UnicodeData/keep.md", "keep"), ("keep.py", "top = 1\n")]:
        if rnd.random() < .8: write(os.path.join(home, f), c)
    os.makedirs(os.path.join(home, "UnicodeData/Data"), exist_ok=True)
    out = os.path.join(root, rnd.choice(["out", "made"]))
    if rnd.random() < .5:
        os.makedirs(out)
        for f, c in [("uchar_h.py", "stale = 1\n"), ("notes.txt", "notes"), ("icudata.dat", "stale")]:
            if rnd.random() < .7: write(os.path.join(out, f), c)
    h = {"folder": snapshot(out, env), "package": snapshot(home, env), "events": []}
    have = False
    for step in range(rnd.randrange(2, 5)):
        if not step or rnd.random() < .7:
            base = os.path.join(root, f"tree{step}")
            t = tree(rnd, base)
        before = raw(base)
        if rnd.random() < .5:
            for x in (base, home, out): age(rnd, x)
        pairs = [["--sourceDir", os.path.join(base, "icu/source")], ["--buildDir", os.path.join(base, "build")], ["--outputDir", out]]
        rnd.shuffle(pairs)
        if rnd.random() < .4:
            k = rnd.randrange(6)
            if k == 0: pairs.pop()
            elif k == 1: pairs.append(list(rnd.choice(pairs)))
            elif k == 2: pairs.insert(rnd.randrange(4), ["--other", "x"])
            elif k == 3: pairs[-1].pop()
            elif k == 4: pairs = []
            else: pairs[0][1] = ""
        args = [a for p in pairs for a in p]
        first = None
        if rnd.random() < .5:
            other = os.path.join(root, f"other{step}")
            tree(rnd, other)
            first = ["--sourceDir", os.path.join(other, "icu/source"), "--buildDir", os.path.join(other, "build"), "--outputDir", os.path.join(other, "out")]
            if rnd.random() < .3: first = first[:rnd.randrange(6)]
        status = program("ModuleBuilder.py", args, root, env, first)
        have |= status == 0
        after = raw(base)
        h["events"].append({"k": "build", "args": args, "tree": t, "status": status, "after": snapshot(out, env),
                            "spoilt": sorted(f for f in before.keys() | after.keys() if before.get(f) != after.get(f))})
        if os.path.isdir(out) and rnd.random() < .4:
            f, c = rnd.choice([("Extra.py", "extra = 3\n"), ("CasePropsData.py", "edited = 4\n"), ("more.txt", "more")])
            write(os.path.join(out, f), c)
            h["events"].append({"k": "edit", "f": f, "c": next(x["c"] for x in snapshot(out, env) if x["f"] == f)})
        if have and rnd.random() < .7:
            # relative imports between modules are resolved in the package, so leave no half of it
            if rnd.random() < .5:
                for x in (home, out): age(rnd, x)
            status = program("ModuleInstaller.py", [out], home, env)
            h["events"].append({"k": "install", "status": status, "after": snapshot(home, env), "folder": snapshot(out, env)})
    shutil.rmtree(root)
    return h


def main():
    with multiprocessing.Pool(8) as pool: writeJson(OUT, pool.map(record, range(RUNS), chunksize=1))


if __name__ == "__main__": main()
