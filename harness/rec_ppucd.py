"""Records what module_builder's UCDReader makes of ppucd.txt files, for
spec/TypeDictionariesTrace.tla.

usage: rec_ppucd.py OUT random    generated files
       rec_ppucd.py OUT icu       the values of Unicode 13.0, and ICU's constants
"""
import ast, gzip, importlib, multiprocessing, re
from pathlib import Path
from common import *

OUT, MODE = sys.argv[1:3]
sys.path.insert(0, os.path.join(REPO, "module_builder"))
SPEC = open(os.path.join(os.path.dirname(HERE), "spec", "TypeDictionaries.tla")).read()
PROPERTIES = dict(re.findall(r'<<"(\w+)", "(\w+)", "\w+">>', SPEC))
SPECIAL = re.findall(r'"(\w+)" :> "', SPEC)
FILES = 1000 if THOROUGH else 120
GROUPS = [("C", "Other"), ("L", "Letter"), ("LC", "Cased_Letter"), ("M", "Mark"), ("N", "Number"), ("P", "Punctuation"), ("S", "Symbol"), ("Z", "Separator")]


def other(rnd):
    return rnd.choice(["# comment", "", "# a;b;c", "property;Enumerated;bc;Bidi_Class", "property;Binary;Alpha;Alphabetic", "value;AHex;N;No;F;False",
                       "value;ccc;0;NR;Not_Reordered", "value;age;1.1;V1_1", "defaults;0000..10FFFF;age=NA;bc=L;blk=NB;gc=Cn", "block;0000..007F;age=1.1;blk=ASCII",
                       "cp;0041;AHex;Alpha;gc=Lu;lc=0061;na=LATIN CAPITAL LETTER A", "cp;0022;Pat_Syn;QMark;gc=Po;na=QUOTATION MARK", "unassigned;0378..0379;gc=Cn",
                       "algnamesrange;4E00..9FFC;han;CJK UNIFIED IDEOGRAPH-", "binary;N;No;F;False", "# value;bc;L;Left_To_Right", 'cp;0041;na="A', '# the;"quoted', 'cp;0041;"A;B',
                       "value;NFC_QC;M;Maybe", "value;Bc;L;Left_To_Right", "values;bc;L;Left_To_Right", "value;scx;L;Left_To_Right"])


def word(rnd): return "".join(rnd.choice("abcdeXYZ0189") for _ in range(rnd.randrange(1, 6)))


def read(path, package, constants):
    """The version attribute is read elsewhere; here the dictionaries of the written module."""
    tree = ast.parse(open(path).read())
    names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    with open(os.path.join(package, "__init__.py"), "w") as f: pass
    for m in ("uchar_h", "uscript_h"):
        with open(os.path.join(package, m + ".py"), "w") as f:
            if constants: f.writelines(f"{n} = {v}\n" for n, v in constants.items())
            else: f.writelines(f"{n} = {n!r}\n" for n in sorted(names) if n.startswith("USCRIPT_") == (m == "uscript_h"))
    sys.path.insert(0, os.path.dirname(package))
    m = importlib.import_module(os.path.basename(package) + ".UCDTypeDictionaries")
    return [{"n": n, "entries": [{"c": k, "s": v if type(v) is str else type(v).__name__} for k, v in d.items()]}
            for n, d in vars(m).items() if type(d) is dict and not n.startswith("__")]


made = 0


def observe(lines, constants, rnd):
    scratch = tempfile.mkdtemp()
    global made
    made += 1   # of several dictionaries made in one process each has a package of its own
    src, package = os.path.join(scratch, "icu", "data", "unidata"), os.path.join(scratch, f"made{made}")
    os.makedirs(src); os.mkdir(package)
    with open(os.path.join(src, "ppucd.txt"), "w") as f: f.write("\n".join(lines) + "\n")
    other, when = [x for x in lines if rnd.random() < .3], rnd.randrange(4)
    if other:
        os.makedirs(os.path.join(scratch, "other", "data", "unidata"))
        with open(os.path.join(scratch, "other", "data", "unidata", "ppucd.txt"), "w") as f: f.write("ucd;1.0.0\nvalue;lb;Xx;Xx\n" + "\n".join(other) + "\n")
    got = {"version": "", "dicts": []}
    def go():
        from UCDReader import UCDReader
        r = UCDReader(Path(scratch) / "icu", Path(package))
        # another reader of another file, at the same time
        if other: o = UCDReader(Path(scratch) / "other", Path(scratch))
        if other and when & 1: o.generateDictionaries()
        r.generateDictionaries()
        if other and not when & 1: o.generateDictionaries()
        if other and when & 2: o.writeFile()
        r.writeFile()
        if r.ucdVersion is not None: got["version"] = r.ucdVersion
        got["dicts"] = read(os.path.join(package, "UCDTypeDictionaries.py"), package, constants)
    st, x = guarded(20, go)
    return {"k": "module", "st": st if st == "ok" else f"{st} {x}"} | got


def text(e):
    if e["k"] == "ucd": return "ucd;" + e["version"]
    if e["k"] == "value": return "value;" + e["p"] + ";" + "".join(e["short"]) + ";" + "".join(e["long"]) + e.pop("more", "")
    return e.pop("text")


def row(p, short, long, more=""): return {"k": "value", "p": p, "short": list(short), "long": list(long), "more": more}


def record(n):
    rnd = random.Random(f"{SEED}-ppucd-{n}")
    events, used = [], set()
    for p in rnd.sample(sorted(PROPERTIES), rnd.randrange(1, len(PROPERTIES) + 1)):
        for _ in range(rnd.choice([1, 2, 5, rnd.randrange(1, 30)])):
            long = rnd.choice(SPECIAL) if rnd.random() < .4 else "_".join(word(rnd) for _ in range(rnd.randrange(1, 5)))
            key = p, long.upper().replace("_", "")  # SpacingMark and Spacing_Mark would have one constant
            if key in used: continue
            used.add(key)
            events.append(row(p, "_".join(word(rnd) for _ in range(rnd.randrange(1, 4))), long, rnd.choice(["", "", ";" + word(rnd), ";a_b;c"])))
    if rnd.random() < .3: rnd.shuffle(events)
    for _ in range(rnd.randrange(30)): events.insert(rnd.randrange(len(events) + 1), {"k": "other", "text": other(rnd)})
    if rnd.random() < .9: events.insert(rnd.choice([0, 0, rnd.randrange(len(events) + 1)]), {"k": "ucd", "version": rnd.choice(["13.0.0", "15.1.0", "9.0.0"])})
    m = observe([text(e) for e in events], None, rnd)
    return {"numbers": "no", "constants": {"-": 0}, "events": events + [m]}


def icu(n):
    rnd = random.Random(f"{SEED}-ppucd-icu-{n}")
    names = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["valueNames"]
    constants = {}
    for h in ("uchar", "uscript"):
        constants.update({c: v for c, t, v in json.load(gzip.open(os.path.join(DATA, "headers", h + ".h.json.gz")))["constants"] if t == "int"})
    events = [{"k": "ucd", "version": "13.0.0"}]
    order = sorted(PROPERTIES)
    if n: rnd.shuffle(order)
    for p in order:
        d = names[PROPERTIES[p]]
        rows = [row(p, x[0], x[-1]) for _, x in sorted(d.items(), key=lambda kv: int(kv[0]))]
        if p == "gc": rows += [row(p, *g) for g in GROUPS]
        if n: rnd.shuffle(rows)
        events += [{"k": "other", "text": f"property;Enumerated;{p};{PROPERTIES[p]}"}] + rows
    m = observe([text(e) for e in events], constants, rnd)
    return {"numbers": "yes", "constants": constants, "events": events + [m]}


def main():
    with multiprocessing.Pool(8) as pool:
        writeJson(OUT, pool.map(record, range(FILES), chunksize=4) if MODE == "random" else pool.map(icu, range(4), chunksize=1))


if __name__ == "__main__": main()
