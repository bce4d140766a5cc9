"""Records the utilities for spec/UtilitiesTrace.tla.

usage: rec_util.py OUT (utf16|words)
"""
from common import *

OUT, WHAT = sys.argv[1:3]
sys.path.insert(0, REPO)
rnd = random.Random(f"{SEED}-util")
WRONG = -999999999


def load():
    st, m = loadModule("UnicodeData.Utilities")
    return st, m


def history(p, first, last, fill):
    events = []
    st, m = load()
    if st == "ok": st, _ = guarded(120, fill, m, events)
    if st != "ok" or not events: events.append({"k": "set" if WHAT == "utf16" else "high", "st": st if st != "ok" else "empty", "s": 0, "e": 1})
    return {"p": p, "first": first, "last": last, "events": events}


def utf16():
    def sets(p, first, last):
        def fill(m, events):
            f = getattr(m, p)
            for c in range(first, last + 1):
                v = 1 if f(c) else 0
                if events and events[-1]["v"] == v: events[-1]["e"] = c + 1
                else: events.append({"k": "set", "st": "ok", "s": c, "e": c + 1, "v": v})
        return history(p, first, last, fill)

    def split(m, events):
        for c in range(0x10000, CPLIMIT):
            v = m.surrogatesFromChar(c)
            l, t = v if isinstance(v, tuple) and len(v) == 2 and all(type(x) is int for x in v) else (WRONG, WRONG)
            p = events[-1] if events else None
            if p and p["lead"] == l and p["trail"] + c - p["s"] == t: p["e"] = c + 1
            else: events.append({"k": "split", "st": "ok", "s": c, "e": c + 1, "lead": small(l), "trail": small(t)})

    def join(lead):
        def fill(m, events):
            for t in range(0xDC00, 0xE000):
                c = m.charFromSurrogates(lead, t)
                c = small(c) if type(c) is int else WRONG
                p = events[-1] if events else None
                if p and p["c"] + t - p["s"] == c: p["e"] = t + 1
                else: events.append({"k": "join", "st": "ok", "lead": lead, "s": t, "e": t + 1, "c": c})
        return history("join", 0xDC00, 0xDFFF, fill)

    hs = [sets(p, 0, CPLIMIT - 1) for p in ("isLead", "isTrail", "isSurrogate", "isUnicodeNoncharacter")]
    hs += [sets(p, 0xD800, 0xDFFF) for p in ("isSurrogateLead", "isSurrogateTrail")]
    hs.append(history("split", 0x10000, CPLIMIT - 1, split))
    return hs + [join(l) for l in range(0xD800, 0xDC00)]


def bits(v, w): return [v >> (w - 1 - i) & 1 for i in range(w)]


def value(w):
    x = rnd.random()
    if x < .4: return rnd.randrange(1 << w)
    if x < .6: return rnd.choice([0, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 1])
    a, b = sorted(rnd.choices(range(w + 1), k=2))
    v = (1 << b) - (1 << a)
    return v if x < .8 else v ^ ((1 << w) - 1)


def words():
    def shifts(w, values):
        def fill(m, events):
            for v in values:
                for f in range(1, w + 1) if w <= 10 else sorted(rnd.sample(range(1, w + 1), 4) + [w]):
                    r = m.arithmeticShift(v, w, f)
                    ok = type(r) is int and abs(r) < 1 << 70
                    e = {"k": "shift", "st": "ok", "word": bits(v, w), "f": f, "sign": 0 if r == 0 else 1 if r > 0 else -1,
                         "magnitude": bits(abs(r), abs(r).bit_length())} if ok else {"k": "shift", "st": "type"}
                    events.append(e)
        return history(f"shift{w}", 0, 0, fill)

    def high(values):
        def fill(m, events):
            for v in values:
                r = m.highBit(v)
                events.append({"k": "high", "st": "ok", "word": bits(v, 64), "v": -1 if r is None else small(r) if type(r) is int and r >= 0 else WRONG})
        return history("high", 0, 0, fill)

    def lists(m, events):
        for n in list(range(6)) * (60 if THOROUGH else 15):
            cs = [rnd.choice([0, 9, 0xA, 0xF, 0x10, 0xABC, 0xFFF, 0x1000, 0xABCD, 0xFFFF, 0x10000, 0xABCDE, 0x10FFFF, rnd.randrange(CPLIMIT)]) for _ in range(n)]
            r = m.listOfCodes(cs)
            events.append({"k": "list", "st": "ok", "codes": cs, "v": r if type(r) is str else "type"})

    k = 120 if THOROUGH else 20
    hs = [shifts(w, range(1 << w)) for w in range(1, 10 if THOROUGH else 8)]
    hs += [shifts(w, [value(w) for _ in range(k)]) for w in range(8, 65)]
    hs.append(high(range(1 << (12 if THOROUGH else 10))))
    hs.append(high([1 << i for i in range(64)] + [(1 << i) - 1 for i in range(1, 65)] + [(1 << i) + 1 for i in range(1, 64)] + [value(64) for _ in range(20 * k)]))
    hs.append(history("list", 0, 0, lists))
    return hs


writeJson(OUT, utf16() if WHAT == "utf16" else words())
