"""Records CharacterData objects for spec/XmlTrace.tla.

usage: rec_xml.py OUT
"""
import multiprocessing, re
from fractions import Fraction
from xml.etree import ElementTree
from xml.sax.saxutils import quoteattr
from common import *

OUT = sys.argv[1]
sys.path.insert(0, REPO)
GROUPS = 400 if THOROUGH else 96
SPEC = open(os.path.join(os.path.dirname(HERE), "spec", "Xml.tla")).read()
FIELDS = re.findall(r'<<"([a-z][\w.]+)", "(\w+)", "(\w+)">>', SPEC)
KIND = {a: k for _, a, k in FIELDS}          # NFKC_CF: either kind takes the same texts


# what these have in the real file: other properties could be made to depend on them
REAL = {"bpt": "n o c".split(), "nt": "None De Di Nu".split(), "gc": "Lu Ll Lt Nd Nl No Mn Cs Cn".split(), "dt": "none can com font nb".split(),
        "bc": "L R ON AL".split(), "sc": "Latn Zyyy Hani".split(), "hst": "NA L V LV".split(), "JSN": ["", "G", "YA"], "ea": "N Na W".split()}


def hexes(rnd, n): return " ".join(f"{rnd.choice([0x20, 0x41, 0x3B1, 0xFB00, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, rnd.randrange(CPLIMIT)]):04X}" for _ in range(n))
def word(rnd): return "".join(rnd.choice("abcXYZ_09 -") for _ in range(rnd.randrange(1, 9)))


def value(rnd, a):
    k = KIND[a]
    if k == "flag": return rnd.choice(["Y", "Y", "Y", "N", "N", "", "M"])
    if k in ("case", "casefold", "mapping", "mappingOrSelf"):
        return rnd.choice(["", "#", "#", hexes(rnd, 1), hexes(rnd, 1), hexes(rnd, 2), hexes(rnd, 3), hexes(rnd, 18)])
    if k == "hexOrSelf": return rnd.choice(["" if a == "bmg" else "#", hexes(rnd, 1)])
    if k == "int": return str(rnd.choice([0, 0, 1, 9, 84, 230, 240, rnd.randrange(256)]))
    if k == "number":
        return rnd.choice(["NaN", "NaN", "0", "1", "9", "1/2", "1/3", "-1/2", "3/16", "17/2", "7/12", "1/320", "3/80", "50", "1000", "216000", "432000",
                           "10000000", "100000000", "10000000000", "1000000000000", f"{rnd.randrange(1, 99)}/{rnd.randrange(2, 99)}", str(rnd.randrange(999))])
    if k == "name": return rnd.choice(["", "LATIN SMALL LETTER A", "CJK UNIFIED IDEOGRAPH-#", "#", "X-#-#", "A_B", "TANGUT IDEOGRAPH-#"])
    if k == "list": return " ".join("".join(rnd.choice("LatnGrekZy") for _ in range(4)) for _ in range(rnd.randrange(1, 6)))
    if k == "spaced": return rnd.choice(["ASCII", "No_Joining_Group", "Latin_1_Sup", "A_B_C_D", "_", "", word(rnd)])
    if a in REAL and rnd.random() < .6: return rnd.choice(REAL[a])
    return rnd.choice(["Y", "N", "M", "", "Lu", "A_B", "Zyyy", word(rnd)])


def encode(v):
    if v is None: return {"t": "none", "v": 0}
    if type(v) is bool: return {"t": "flag", "v": int(v)}
    if type(v) is int: return {"t": "int", "v": small(v)}
    if type(v) is str: return {"t": "text", "v": list(v)}
    if type(v) is list: return {"t": "list", "v": [list(x) if type(x) is str else [type(x).__name__] for x in v]}
    return {"t": type(v).__name__, "v": 0}


def number(v):
    if v is None or type(v) not in (int, float): return encode(v) if type(v) in (bool, str, list, type(None)) else {"t": "type", "v": 0}
    if v != v or v in (float("inf"), float("-inf")): return {"t": "nan", "v": 0}
    if v == int(v):
        v, e = int(v), 0
        while v and v % 10 == 0: v //= 10; e += 1
        return {"t": "number", "v": f"{v}/1e{e}"}
    f = Fraction(v).limit_denominator(5000)
    return {"t": "number", "v": f"{f.numerator}/{f.denominator}e0" if f.numerator / f.denominator == v else f"double {v!r}"}


def read(o, field, kind):
    for part in field.split("."): o = getattr(o, part)
    if kind == "number": return number(o)
    if type(o) is str and kind in ("case", "casefold", "mapping", "mappingOrSelf"): return {"t": "codes", "v": [ord(c) for c in o]}
    return encode(o)


def record(n):
    rnd = random.Random(f"{SEED}-xml-{n}")
    attrs = [a for a in KIND if a != "cp"]
    required = {"ccc", "nv", "bpb"}
    some = rnd.choice([0, .1, .5, .9, 1])
    group = {a: value(rnd, a) for a in attrs if rnd.random() < some}
    chars = []
    for _ in range(6):
        many = rnd.choice([0, .1, .5, .9, 1])
        c = {a: value(rnd, a) for a in attrs if rnd.random() < many}
        for a in required - set(group): c.setdefault(a, value(rnd, a))
        c["cp"] = f"{rnd.choice([0, 0x41, 0xD800, 0xFFFD, 0x10000, 0x10FFFF, rnd.randrange(0x3000), rnd.randrange(CPLIMIT)]):04X}"
        chars.append(c)
    # some attributes of the group for which a char has an empty one
    free = sorted(set(group) - required)
    for a in rnd.sample(free, min(len(free), 8)): chars[rnd.randrange(6)][a] = ""
    text = lambda tag, d, body="": f"<{tag} " + " ".join(f"{k}={quoteattr(v)}" for k, v in sorted(d.items(), key=lambda _: rnd.random())) + f">{body}</{tag}>"
    g = ElementTree.fromstring(text("group", group, "".join(text("char", c) for c in chars)))
    st, m = loadModule("UnicodeData.CharacterData")
    # in any order, and some of them twice: no record depends on those before it, or changes what it is made from
    order = rnd.choices(range(6), k=3) + rnd.sample(range(6), 6)
    if rnd.random() < .5: rnd.shuffle(order)
    made = [guarded(5, method(m, "CharacterData"), g[k], g) if st == "ok" else (st, None) for k in order]
    events = []
    for k, (st, o) in zip(order, made):
        c = chars[k]
        fields = []
        def go():
            for f, _, k in FIELDS: fields.append({"f": f, "x": read(o, f, k)})
        if st == "ok": st, _ = guarded(5, go)
        if st == "ok" and type(o.scriptExtensions) is list: o.scriptExtensions.append("Zzzz")   # the list is the client's
        events.append({"st": st, "char": {a: list(v) for a, v in c.items()}, "fields": fields if st == "ok" else []})
    return {"group": {"-": []} | {a: list(v) for a, v in group.items()}, "events": events}


def main():
    with multiprocessing.Pool(8) as pool: writeJson(OUT, pool.map(record, range(GROUPS)))


if __name__ == "__main__": main()
