"""Records enumerations of the library's own tries for spec/EnumerationsTrace.tla.

usage: rec_enum.py OUT
"""
import gzip, importlib, json, multiprocessing, sys, tempfile
from common import *

OUT = sys.argv[1]
N = 900 if THOROUGH else 70            # intervals per property
CP, BP, LP = "UnicodeData.CharProps", "UnicodeData.BidiProps", "UnicodeData.LayoutProps"
BINARY = {"White_Space": 0, "Dash": 1, "Hyphen": 2, "Quotation_Mark": 3, "Math": 5, "Hex_Digit": 6, "Alphabetic": 8, "Ideographic": 9,
          "Diacritic": 10, "Noncharacter_Code_Point": 12, "Grapheme_Extend": 13, "Unified_Ideograph": 18,
          "Default_Ignorable_Code_Point": 19, "XID_Continue": 23, "Grapheme_Base": 26, "Variation_Selector": 28, "Pattern_Syntax": 29}
# map -> (module, trie, value function, its arguments)
PROPS = {"gc": (CP, "propsTrie", "generalCategoryFromProps", {})}
for ref, f in (("sc", "script"), ("blk", "block"), ("ea", "eastAsianWidth"), ("lb", "lineBreak"), ("SB", "sentenceBreak"), ("WB", "wordBreak"),
               ("GCB", "graphemeClusterBreak"), ("dt", "decompType")):
    PROPS[ref] = (CP, "propsVectorTrie", f + "FromVecIndex", {})
for b, i in BINARY.items(): PROPS["bin." + b] = (CP, "propsVectorTrie", "binaryPropFromVecIndex", {"propShift": i, "column": 1})
for b, i in (("Extended_Pictographic", 26), ("Emoji", 28), ("Emoji_Modifier_Base", 31)):
    PROPS["bin." + b] = (CP, "propsVectorTrie", "binaryPropFromVecIndex", {"propShift": i, "column": 2})
PROPS["bc"] = (BP, "bidiPropsTrie", "getClassFromProps", {})
for b, i in (("Join_Control", 10), ("Bidi_Control", 11), ("Bidi_Mirrored", 12)):
    PROPS["bin." + b] = (BP, "bidiPropsTrie", "getFlagFromProps", {"shift": i})
for n, t in (("Indic_Positional_Category", "inpcTrie"), ("Indic_Syllabic_Category", "inscTrie"), ("Vertical_Orientation", "voTrie")):
    PROPS[n] = (LP, t, None, {})


def maps():
    m = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["maps"]
    m.update(json.load(gzip.open(os.path.join(DATA, "icu74.json.gz")))["layout"])
    return {n: {"starts": m[n][0], "vals": m[n][1]} for n in PROPS}


REFS = maps()


def enc(v):
    if type(v) is bool: return int(v)
    return small(v) if type(v) is int else -9


def points(rnd, n):
    ss = REFS[n]["starts"]
    pts = {0, 1, 0x80, 0x7FF, 0x800, 0xD800, 0xDBFF, 0xDC00, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x10FFFE, 0xE0000, 0xE1000}
    for s in rnd.sample(ss, min(60, len(ss))):
        pts |= {s, s - 1, s + 1, s & ~31, s & ~63, s & ~2047, (s | 31) + 1, (s | 2047) + 1, s + rnd.randrange(3000)}
    return sorted(p for p in pts if 0 <= p <= CPLIMIT)


def enumeration(n, s, l, style):
    m = importlib.import_module(PROPS[n][0])
    trie = getattr(m, PROPS[n][1])
    f, kw = PROPS[n][2], PROPS[n][3]
    f = getattr(m, f) if f else None
    if f is None:
        if (s, l) == (0, CPLIMIT) and style == 0: return trie.enumerator()
        return trie.enumerator(s, l) if style % 2 else trie.enumerator(start=s, limit=l)
    if (s, l) == (0, CPLIMIT) and style == 0: return trie.enumerator(valueFunction=f, **kw)
    return trie.enumerator(s, l, f, **kw) if style % 2 else trie.enumerator(start=s, limit=l, valueFunction=f, **kw)


def interval(rnd, pts):
    s = rnd.choice(pts)
    x = rnd.random()
    if x < .1: return 0, CPLIMIT
    if x < .5: return s, rnd.choice([p for p in pts if s <= p <= s + 6000])
    if x < .6: return s, min(CPLIMIT, s + rnd.randrange(70))
    return s, rnd.choice(pts)


def runEvent(n, s, l, style):
    runs = []
    def go():
        for r, v in enumeration(n, s, l, style):
            runs.append([small(r.start), small(r.stop), enc(v)])
            if len(runs) > 20000: return
    st, _ = guarded(30, go)
    return {"k": "enum", "st": st, "map": n, "s": s, "l": l, "runs": runs}


def collect(x, style):
    """A UnicodeSet of the code points in an interval that have value x["v"]."""
    from UnicodeData.UnicodeSet import UnicodeSet
    u = UnicodeSet()
    for r, v in enumeration(x["map"], x["s"], x["l"], style):
        if enc(v) != x["v"]: continue
        if style == 0: u.addAll(UnicodeSet(r))
        elif style == 1: u.addRange(r.start, r.stop - 1)
        elif style == 2: u |= UnicodeSet(r)
        elif style == 3: u.complementRange(r.start, r.stop - 1)
        else: u = u.union(UnicodeSet(r))
    return u


def pick(rnd, n, pts):
    s, l = interval(rnd, pts) if rnd.random() < .4 else (0, CPLIMIT)
    vals = sorted(set(REFS[n]["vals"]))
    return {"map": n, "v": rnd.choice(vals), "s": s, "l": l}


def setEvent(kind, a, b, op, styles):
    out = {}
    def go():
        u = collect(a, styles[0])
        if b:
            w = collect(b, styles[1])
            if styles[2]:
                u = {"union": lambda: u | w, "intersection": lambda: u & w, "difference": lambda: u - w, "symmetric": lambda: u ^ w}[op]()
            else:
                u = {"union": u.union, "intersection": u.intersection, "difference": u.difference, "symmetric": u.symmetric_difference}[op](w)
        out["ranges"] = [[small(r.start), small(r.stop - 1)] for r in u.getRanges()]
        out["size"] = small(u.size())
    st, _ = guarded(30, go)
    e = {"k": kind, "st": st, "a": a, "ranges": [], "size": 0, **(out if st == "ok" else {})}
    if b: e.update(b=b, op=op)
    return e


def interleaved(rnd, n, pts):
    """Enumerations of one trie that are open at the same time, started and advanced in random turns."""
    same = [o for o in sorted(PROPS) if PROPS[o][:2] == PROPS[n][:2]]
    todo = [(n, 0, CPLIMIT)] + [(rnd.choice([n] + same), *interval(rnd, pts)) for _ in range(3)]
    runs = [[] for _ in todo]
    waiting, live = list(range(len(todo))), []
    def go():
        while waiting or live:
            if waiting and (not live or rnd.random() < .1):
                i = waiting.pop(0)
                live.append((i, enumeration(*todo[i], rnd.randrange(1, 3))))
            i, it = rnd.choice(live)
            for _ in range(rnd.choice([1, 1, 2, 5, 300])):
                x = next(it, None)
                if x is None or len(runs[i]) > 20000:
                    live.remove((i, it))
                    break
                runs[i].append([small(x[0].start), small(x[0].stop), enc(x[1])])
    st, _ = guarded(60, go)
    return [{"k": "enum", "st": st, "map": o, "s": s, "l": l, "runs": r} for (o, s, l), r in zip(todo, runs)]


def history(n):
    rnd = random.Random(f"{SEED}-enum-{n}")
    pts = points(rnd, n)
    events = [runEvent(n, 0, CPLIMIT, 0)]
    for i in range(N):
        s, l = interval(rnd, pts)
        events.append(runEvent(n, s, l, i))
        if i % 5 == 0: events.append(setEvent("class", pick(rnd, n, pts), None, "", [rnd.randrange(5)]))
        if i % 10 == 0:
            o = rnd.choice(sorted(PROPS))
            events.append(setEvent("both", pick(rnd, n, pts), pick(rnd, o, points(rnd, o)),
                                   rnd.choice(["union", "intersection", "difference", "symmetric"]),
                                   [rnd.randrange(2), rnd.randrange(2), rnd.randrange(2)]))
    for i in range(4): events += interleaved(rnd, n, pts)
    return {"map": n, "events": events}


def main():
    overlay(tempfile.mkdtemp())
    with multiprocessing.Pool(8) as pool:
        hs = pool.map(history, sorted(PROPS), chunksize=1)
    writeJson(OUT, {"maps": REFS, "histories": hs})


if __name__ == "__main__": main()
