"""Records character names for spec/NamesTrace.tla.

usage: rec_names.py OUT (names|iterate)
"""
import gzip, itertools, json, multiprocessing, sys, tempfile
import names
from common import *

OUT, WHAT = sys.argv[1:3]
N = 8
CHOICES = {1: ("oldCodes", "olds"), 3: ("aliasCodes", "aliases"), 4: ("commentCodes", "comments")}
SYNTHETIC = (80 if WHAT == "names" else 60) if THOROUGH else 16


def realItem():
    d = json.load(gzip.open(os.path.join(DATA, "names74.json.gz")))
    rows = sorted(d["names"])
    # which names are algorithmic is a matter of the item: read it there
    b = icuItems()["unames.icu"]
    base, = struct.unpack_from("<H", b)
    p = base + struct.unpack_from("<4I", b, base)[3]
    n, = struct.unpack_from("<I", b, p)
    p += 4
    spans = []
    for _ in range(n):
        f, l, _, _, size = struct.unpack_from("<IIBBH", b, p)
        spans.append((f, l)); p += size
    jamo = [s.split(",") for s in ("G,GG,N,D,DD,R,M,B,BB,S,SS,,J,JJ,C,K,T,P,H", "A,AE,YA,YAE,EO,E,YEO,YE,O,WA,WAE,OE,YO,U,WEO,WE,WI,YU,EU,YI,I",
                                   ",G,GG,GS,N,NJ,NH,D,L,LG,LM,LB,LS,LT,LP,LH,M,B,BS,S,SS,NG,J,C,K,T,P,H")]
    runs, ranges = [], []
    for f, l, (prefix,) in d["algorithmic"]:
        if f == 0xAC00: ranges.append({"first": f, "last": l, "type": 1, "prefix": prefix, "digits": 4, "elements": jamo})
        elif (f, l) in spans: ranges.append({"first": f, "last": l, "type": 0, "prefix": prefix, "digits": 4, "elements": []})
        else: runs.append({"first": f, "last": l, "prefix": prefix})
    # the names reference merges neighbouring algorithmic ranges of one prefix only if they touch
    al = sorted(d["aliases"])
    return {"codes": [r[0] for r in rows], "names": [r[1] for r in rows], "runs": runs, "ranges": ranges,
            "aliasCodes": [r[0] for r in al], "aliases": [r[1] for r in al],
            "oldCodes": [], "olds": [], "commentCodes": [], "comments": []}


def install(n):
    """Puts the n-th package in place (0: the real items); once per process."""
    rnd = random.Random(f"{SEED}-names-{n}")
    items = icuItems()
    if n: items["unames.icu"] = dataHeader(b"unam") + names.random(rnd)[0]
    overlay(tempfile.mkdtemp(), buildPackage(items) if n == 0 else variedPackage(rnd, items))


def item(n):
    return realItem() if n == 0 else names.random(random.Random(f"{SEED}-names-{n}"))[1]


def enc(c, v):
    if type(v) is not str: return (f"type {type(v).__name__}", 0, "")
    h = f"{c:04X}"
    k = v.rfind(h)
    return (v, 0, "") if k < 0 else (v[:k], 1, v[k + len(h):])


def runsOf(pairs):
    """(code, observed) pairs in order as run events."""
    out = []
    for c, x in pairs:
        if out and out[-1]["e"] == c and (out[-1]["pre"], out[-1]["hex"], out[-1]["post"]) == x: out[-1]["e"] = c + 1
        else: out.append({"k": "run", "st": "ok", "s": c, "e": c + 1, "pre": x[0], "hex": x[1], "post": x[2], "name": "", "c": -1, "result": ""})
    return out


def bad(st, c): return {"k": "run", "st": st, "s": c, "e": c + 1, "pre": "", "hex": 0, "post": "", "name": "", "c": -1, "result": ""}


def sweep(t):
    n, choice, first, last = t
    install(n)
    st, m = loadModule("UnicodeData.CharNames")
    events = []
    if st == "ok":
        pairs = []
        def go():
            get = m.CharNames.getCharName
            for c in range(first, last + 1):
                pairs.append((c, enc(c, get(c) if choice == 0 and c & 1 else get(c, choice))))
        st, _ = guarded(200, go)
        events = runsOf(pairs)
    if st != "ok": events.append(bad(st, events[-1]["e"] if events else first))
    return {"item": n + 1, "kind": "sweep", "choice": choice, "first": first, "last": last, "events": events}


def synthetic(n):
    """All choices at and around everything in the n-th item."""
    install(n)
    it = item(n)
    st, m = loadModule("UnicodeData.CharNames")
    pts = set(range(64)) | {0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFE, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x10FFFF}
    for c in it["codes"] + it["aliasCodes"] + it["oldCodes"] + it["commentCodes"]: pts |= set(range(c - 2, c + 3))
    for r in it["ranges"]: pts |= set(range(r["first"] - 3, r["last"] + 4))
    hs = []
    for choice in (0, 1, 2, 3, 4):
        for c in sorted(p for p in pts if 0 <= p < CPLIMIT):
            if not hs or hs[-1]["choice"] != choice or hs[-1]["last"] != c - 1:
                hs.append({"item": n + 1, "kind": "window", "choice": choice, "first": c, "last": c, "pairs": [], "events": []})
            hs[-1]["last"] = c
            st2, v = guarded(5, method(m.CharNames, "getCharName"), c, choice) if st == "ok" else (st, None)
            if st2 == "ok": hs[-1]["pairs"].append((c, enc(c, v)))
            else: hs[-1]["events"].append(bad(st2, c))
    for h in hs: h["events"] = sorted(runsOf(h.pop("pairs")) + h["events"], key=lambda e: e["s"])
    return hs


def iterate(n):
    install(n)
    it = item(n)
    rnd = random.Random(f"{SEED}-iterate-{n}")
    st, m = loadModule("UnicodeData.CharNames")
    hs = []
    for choice in (0, 1, 3, 4):
        pairs = []
        st2 = st
        def go():
            at = 0
            for p in (m.CharNames.nameIterator() if choice == 0 and n % 2 else m.CharNames.nameIterator(choice)):
                c, v = p
                if type(c) is not int: raise TypeError
                pairs.append((c, enc(c, v)))
                if len(pairs) > 400000: raise OverflowError
        if st == "ok": st2, _ = guarded(120, go)
        events, at = [], 0
        for e in runsOf(pairs):
            if e["s"] > at: events.append({**e, "s": at, "e": e["s"], "pre": "", "hex": 0, "post": ""})
            events.append(e)
            at = e["e"]
        if at < CPLIMIT: events += runsOf([(at, ("", 0, ""))])
        if at < CPLIMIT: events[-1]["e"] = CPLIMIT
        if st2 != "ok": events = [bad(st2, 0)]
        hs.append({"item": n + 1, "kind": "iterate", "choice": choice, "first": 0, "last": CPLIMIT - 1, "events": events})
    return hs


def allNames(it):
    """Every Unicode name in an item."""
    out = set(it["names"])
    for r in it["ranges"] + it["runs"]:
        if r.get("type"):
            for k, parts in zip(range(r["last"] - r["first"] + 1), itertools.product(*r["elements"])): out.add(r["prefix"] + "".join(parts))
        else: out |= {r["prefix"] + f"{c:0{r.get('digits', 4)}X}" for c in range(r["first"], r["last"] + 1)}
    return out


def near(rnd, name):
    """A string that is almost a name."""
    k = rnd.randrange(len(name) + 1)
    h = max(name.rfind("-"), name.rfind(" ")) + 1          # where digits may begin
    return rnd.choice([lambda: name.lower(), lambda: name[:h] + name[h:].lower(), lambda: name[:h] + name[h:].swapcase(),
                       lambda: name[:h] + "0" + name[h:], lambda: name[:h] + "00" + name[h:], lambda: name[:h] + " " + name[h:],
                       lambda: name[:h] + "+" + name[h:], lambda: name[:h] + "0x" + name[h:], lambda: name[:-1], lambda: name + " ",
                       lambda: " " + name, lambda: name + "0", lambda: name + "A", lambda: name[:k] + "_" + name[k:],
                       lambda: name[:h], lambda: name.replace(" ", "_"), lambda: name.replace("-", " "), lambda: name.replace(" ", "-"),
                       lambda: name[:k] + name[k:k + 1] + name[k:], lambda: name[:k] + name[k + 1:], lambda: "<" + name + ">",
                       lambda: name[:h] + "-" + name[h:], lambda: name + ";", lambda: name[:-1] + "G", lambda: name + "\0",
                       lambda: name[:h] + name[h:h + 1] + "_" + name[h + 1:], lambda: name.replace(" ", "  ")])()


def find(t):
    n, part = t
    install(n)
    it = item(n)
    rnd = random.Random(f"{SEED}-find-{n}-{part}")
    st, m = loadModule("UnicodeData.CharNames")
    hs = []
    for choice in (0, 1, 3, 4):
        goals = []
        if choice == 0:
            for k in ([0, len(it["codes"]) - 1] if part == 0 else []): goals.append((it["codes"][k], it["names"][k]))
            for k in rnd.sample(range(len(it["codes"])), min(len(it["codes"]), 25 if THOROUGH or n else 5)): goals.append((it["codes"][k], it["names"][k]))
            for r in it["ranges"] + it["runs"]:
                if n == 0 and rnd.random() < (.3 if THOROUGH else .75): continue
                for c in {r["first"], r["last"], rnd.randrange(r["first"], r["last"] + 1)}:
                    if n == 0 and rnd.random() < .6: continue
                    if r.get("type"):
                        x, s = c - r["first"], ""
                        for f in reversed(r["elements"]): s = f[x % len(f)] + s; x //= len(f)
                        goals.append((c, r["prefix"] + s))
                    else: goals.append((c, r["prefix"] + f"{c:0{r.get('digits', 4)}X}"))
        else:
            codes, texts = CHOICES[choice]
            for k in rnd.sample(range(len(it[texts])), min(len(it[texts]), 3)): goals.append((it[codes][it[texts].index(it[texts][k])], it[texts][k]))
        goals += [(-1, s) for s in rnd.sample(["NO SUCH NAME", "latin small letter a", "<control-0000>", "CJK UNIFIED IDEOGRAPH-", "X", " ",
                                               "CJK UNIFIED IDEOGRAPH-2A6E0", "HANGUL SYLLABLE", "LATIN CAPITAL LETTER", "ALG0 X 00"], 2 if n == 0 else 3)]
        if choice and it["names"]: goals += [(-1, it["names"][0] + "Z"), (-1, it["names"][0])]
        known = set(it[CHOICES[choice][1]]) if choice else allNames(it)
        goals = [(c, s) for c, s in goals if c >= 0 or s not in known]
        close = [x for _, x in goals if len(x) > 1]
        for i in range(2 if n == 0 else 60):
            s = near(rnd, rnd.choice(close)) if close else "?"
            if s not in known and s.isascii(): goals.append((-1, s))
        events = []
        for c, name in goals:
            st2, v = guarded(20, method(m.CharNames, "charFromName"), name, choice) if st == "ok" else (st, None)
            if st2 == "ok" and choice == 0 and rnd.random() < .1: st2, v = guarded(20, method(m.CharNames, "charFromName"), name)
            events.append({"k": "find", "st": st2, "s": 0, "e": 1, "pre": "", "hex": 0, "post": "", "name": name, "c": c,
                           "result": f"{v:04X}" if type(v) is int else "type"})
        if events: hs.append({"item": n + 1, "kind": "find", "choice": choice, "first": 0, "last": CPLIMIT - 1, "events": events})
    return hs


def call(t): return t[0](t[1])


def main():
    k = SYNTHETIC
    if WHAT == "names":
        parts = [CPLIMIT * i // 16 for i in range(17)]
        tasks = [(sweep, (0, c, parts[i], parts[i + 1] - 1)) for i in range(16) for c in range(5)] + [(synthetic, n) for n in range(1, k + 1)]
    else:
        tasks = [(iterate, n) for n in range(k + 1)] + [(find, (n, p)) for n in range(k + 1) for p in range(8 if n == 0 else 1)]
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        rs = pool.map(call, tasks, chunksize=1)
    hs = [h for r in rs for h in (r if isinstance(r, list) else [r]) if h["events"]]
    g = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["maps"]["gc"]
    writeJson(OUT, {"histories": hs, "items": [item(n) for n in range(k + 1)], "gc": {"starts": g[0], "vals": g[1]}})


if __name__ == "__main__": main()
