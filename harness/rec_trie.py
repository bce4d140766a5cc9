"""Records lookups and enumerations of the real tries for spec/TriesTrace.tla.

usage: rec_trie.py OUT (utrie2|cptrie) (get|enum)
"""
import multiprocessing, sys
import tries
from common import *

OUT, KIND, WHAT = sys.argv[1:4]
sys.path.insert(0, REPO)

FNS = {"id": None, "mask": lambda v, bits=0: v & ((1 << bits) - 1), "shift": lambda v, by=0: v >> by,
       "const": lambda v: 7, "bit": lambda v, at=0, off=0: off + ((v >> at) & 1), "plain": lambda v: v ^ 1}

# value functions may return anything that can be compared: how they do, and the number that it stands for
WRAP = {"text": (lambda v: f"<{v}>", lambda x: int(x[1:-1]) if type(x) is str else -9),
        "list": (lambda v: [v, "x"], lambda x: x[0] if type(x) is list and len(x) == 2 else -9),
        "none": (lambda v: None if v == 0 else v, lambda x: 0 if x is None else x if type(x) is int and x else -9),
        "last": (lambda v: None if v else 0, lambda x: 1 if x is None else 0 if type(x) is int and x == 0 else -9),
        "bool": (lambda v: v != 0, lambda x: int(x) if type(x) is bool else -9),
        "negative": (lambda v: -1 - v, lambda x: -1 - x if type(x) is int else -9),
        "fraction": (lambda v: v / 16, lambda x: int(x * 16) if type(x) is float else -9)}


def enc(v):
    """An observed value, as TLC compares it."""
    if KIND == "cptrie": return f"{v}" if type(v) is int else "type"
    return small(v) if type(v) is int else -9


def make(n):
    """The n-th abstract map with its frozen trie."""
    rnd = random.Random(f"{SEED}-{KIND}-{n}")
    # the first few share blocks across the change of block size
    forced = KIND == "cptrie" and n < 8
    stripes = 3 if 8 <= n < 18 else 0            # equal large blocks in sequence
    wide = KIND == "cptrie" and 18 <= n < 26     # offsets beyond 16 and beyond 17 bits
    while True:
        opts = dict(share=rnd.choice([0, 1, 2, 2]), overlap=rnd.random() < .5, null=rnd.random() < .65,
                    nullUse=rnd.choice([1, 1, .5]), null2=rnd.random() < .8, null3=rnd.random() < .8, junk=rnd.random() < .5,
                    units=rnd.random() < .7, wide=False, force18=rnd.random() < .3, short2=rnd.random() < .5, late=rnd.random() < .7)
        density = rnd.choice([3, 10, 30, 80, 160])
        if KIND == "utrie2":
            highStart = rnd.choice([0x110000, 0x110000, 0x10F800, 0x10800, 0x10000, 0xF800, 0xD800, 0xE000, 0x800, 0,
                                    0x800 * rnd.randrange(2, 544), 0x800 * rnd.randrange(32, 100)])
            top, width = 0xFFFF, 16
        else:
            fast, width = rnd.random() < .5, rnd.choice([8, 16, 32])
            opts["wide"] = wide or rnd.random() < .12
            highStart = rnd.choice([0x110000, 0x110000, 0x10FE00, 0x10200, 0x10000, 0xFE00, 0x1000, 0x1200, 0x800, 0x200, 0,
                                    0x200 * rnd.randrange(2, 2176), 0x200 * rnd.randrange(128, 400)])
            top = (1 << width) - 1
            if wide and highStart < 0x12000: continue
            if forced: fast, highStart, opts["share"], opts["null"], opts["overlap"] = n % 2 == 0, CPLIMIT, 2, False, False
        if stripes and highStart < 0x14000: continue
        if stripes: opts["share"], opts["overlap"], density = 2, False, 3
        pool = rnd.choice([[0, 1], [0, 1, 2], [0, 5, 6, top], [3, top - 1, top], [rnd.randrange(top + 1) for _ in range(9)],
                           [0] + [rnd.randrange(top + 1) for _ in range(40)]])
        (m, initial) = tries.randomMap(rnd, pool, highStart, density,
                                         (0x10000 if fast else 0x1000) if forced else None, stripes)
        if m[0][-1] > highStart: continue
        error = rnd.choice([0, top, 99 if 99 not in pool else 77])
        if KIND == "utrie2": t = tries.buildUTrie2(rnd, m, initial, highStart, error, opts)
        else: t = tries.buildCPTrie(rnd, m, initial, highStart, error, fast, width, opts)
        if t is not None: return rnd, m, error, t, dict(opts, highStart=highStart, width=width, n=n,
                                                        shape="-" if KIND == "utrie2" else "fast" if fast else "small")


def construct(t, way):
    """The real trie; and others of the same shape, before it and after it."""
    other = dict(t)
    if KIND == "cptrie": other["data"] = [v ^ 1 for v in t["data"]]
    else:
        other["index"] = t["index"][:t["indexLength"]] + [v ^ 1 for v in t["index"][t["indexLength"]:]]
        other["initialValue"] ^= 1
    for k in range(2):
        if way & 1 or k: construct1(other, way).get(0x41)
        if not k: made = construct1(t, way)
    return made


def construct1(t, way):
    if KIND == "utrie2":
        from UnicodeData.Utrie2 import UTrie2
        if way == 1 and t["initialValue"] == 0:
            return UTrie2(t["index"], t["indexLength"], t["index2NullOffset"], t["dataNullOffset"], t["highStart"], t["highValueIndex"])
        return UTrie2(t["index"], t["indexLength"], t["index2NullOffset"], t["dataNullOffset"], t["highStart"], t["highValueIndex"], t["initialValue"])
    from UnicodeData.CPTrie import CPTrie
    if way == 1: return CPTrie.createFromData(tries.serialize(t) + b"\x55\xaa\x55" * 5)
    if way == 2: return CPTrie(tuple(t["index"]), tuple(t["data"]), t["trieType"], t["valueWidth"], t["index3NullOffset"],
                               t["dataNullOffset"], t["highStart"], t["shifted12HighStart"])
    return CPTrie(t["index"], t["data"], t["trieType"], t["valueWidth"], t["index3NullOffset"], t["dataNullOffset"],
                  t["highStart"], t["shifted12HighStart"])


def layout(t):
    """The arrays, for the layout specification."""
    if KIND == "utrie2": return {"array": t["index"], **{k: t[k] for k in ("indexLength", "highStart", "highValueIndex")}}
    return {"index": t["index"], "data": [enc(v) for v in t["data"]], "fast": t["trieType"] == 0, "highStart": t["highStart"]}


def probes(rnd, t, n):
    """Code points at and around borders of the layout."""
    cs = {0, 0x7F, 0x80, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000,
          0x110001, 0x7FFFFFFF, t["highStart"], t["highStart"] - 1, t["highStart"] + 1}
    for _ in range(n):
        top = rnd.choice([0x80, 0x1800, 0x11000, 0x30000, CPLIMIT])
        c = rnd.randrange(top)
        cs |= {c, c & ~15, c | 15, c & ~63, c | 63, c & ~511, c | 511, c | 2047, c | 0x3FFF}
    return sorted(c for c in cs if c >= 0)


def arrays(n):
    """A trie whose arrays have arbitrary contents: every entry points to
    something, but nothing says that blocks are apart, or aligned."""
    rnd = random.Random(f"{SEED}-{KIND}-arrays-{n}")
    if KIND == "utrie2":
        hs = rnd.choice([0x110000, 0x10000, 0, 0x10800, 0x800 * rnd.randrange(545)])
        il = 0x840 + max(0, (hs - 0x10000) >> 11) + 64 * rnd.randrange(1, 9)
        il += -il % 4
        n1 = 0x840 + max(0, (hs - 0x10000) >> 11)
        dl = rnd.randrange(0xC4, 3000)
        index = [rnd.randrange(il >> 2, ((il + dl - 32) >> 2) + 1) for _ in range(il)]
        for i in range(0x840, n1): index[i] = rnd.choice([rnd.randrange(0x7E0), rnd.randrange(n1, il - 63)])
        t = dict(index=index + [rnd.randrange(0x10000) for _ in range(dl)], indexLength=il, index2NullOffset=0xFFFF,
                 dataNullOffset=0xFFFFF, highStart=hs, highValueIndex=il + rnd.randrange(dl), initialValue=0)
        error = t["index"][il + 0x80]
    else:
        fast, width = rnd.random() < .5, rnd.choice([8, 16, 32])
        first = 1024 if fast else 64
        hs = rnd.choice([0x110000, 0x10000, 0, 0x1000, 0x10200, 0x200 * rnd.randrange(2177)])
        n1 = max(0, (hs - (0x10000 if fast else 0) + 0x3FFF) >> 14) if hs > (0x10000 if fast else 0x1000) else 0
        dl = rnd.choice([300, 5000, 0x10010, 0x20010, 0x38000])
        top = (1 << width) - 1
        few = [rnd.randrange(top + 1) for _ in range(997)]
        data = [few[i * i % 997] for i in range(dl)]
        base2 = first + n1
        base3 = base2 + 32 * 4
        il = base3 + 36 * 12
        index = [rnd.randrange(min(dl - 64, 0xFFFF)) for _ in range(first)]
        index[:2] = [0, 64]
        index += [base2 + rnd.randrange(97) for _ in range(n1)]
        for _ in range(32 * 4):
            o = base3 + rnd.randrange(il - base3 - 35)
            index.append(o | (rnd.choice([0, 0x8000]) if rnd.random() < .8 else 0))
        # blocks of 16-bit and of 18-bit entries may overlap
        topBits = max(0, (dl - 0x10000) >> 16)
        for _ in range(il - base3):
            x = 0
            for k in range(8): x |= rnd.randrange(topBits + 1) << (2 * k)
            index.append(min(x, dl - 16) if dl > 0x10000 else rnd.randrange(dl - 16))
        t = dict(index=index, data=data, trieType=0 if fast else 1, valueWidth={8: 2, 16: 0, 32: 1}[width], index3NullOffset=0x7FFF,
                 dataNullOffset=0xFFFFF, highStart=hs, shifted12HighStart=(hs + 0xFFF) >> 12)
        error = data[-1]
    return rnd, t, error


def arrayHistory(n):
    rnd, t, error = arrays(n)
    events = []
    h = {"kind": KIND, "starts": [0], "vals": [0], "error": enc(error), "layout": layout(t), "events": events}
    st, trie = guarded(20, construct, t, rnd.choice([0, 1, 2]))
    if st != "ok":
        events.append({"k": "make", "st": st})
        return h
    probe(events, trie, rnd, t, 400 if THOROUGH else 150)
    return h


def probe(events, trie, rnd, t, n):
    cs = probes(rnd, t, n)
    if KIND == "cptrie" and "data" in t: cs = [c for c in cs if within(t, c)]
    vals = []
    st, _ = guarded(10, lambda: vals.extend(enc(trie.get(c)) for c in cs))
    events.append({"k": "probe", "st": st, "cs": cs, "vals": vals})


def within(t, c):
    """Whether the arrays have a value for c (arbitrary 18-bit entries may
    point behind the data)."""
    fast = t["trieType"] == 0
    if c < (0x10000 if fast else 0x1000) or c >= t["highStart"] or c > 0x10FFFF: return True
    x = t["index"]
    i3 = x[x[(1020 if fast else 64) + (c >> 14)] + ((c >> 9) & 31)]
    i = (c >> 4) & 31
    if i3 < 0x8000: b = x[i3 + i]
    else:
        g = (i3 & 0x7FFF) + i // 8 * 9
        b = ((x[g] >> (14 - 2 * (i % 8))) & 3) << 16 | x[g + 1 + i % 8]
    return b + 16 <= len(t["data"])


def history(n):
    rnd, m, error, t, shape = make(n)
    events = []
    h = {"kind": KIND, "starts": m[0], "vals": [enc(v) for v in m[1]], "error": enc(error),
         "shape": {k: int(v) if isinstance(v, bool) else v for k, v in shape.items()}, "events": events}
    way = rnd.choice([0, 1, 1, 2])
    st, trie = guarded(20, construct, t, way)
    if st != "ok":
        events.append({"k": "make", "st": st})
        return h
    if WHAT == "get":
        obs = {"starts": [], "vals": []}
        def sweep():
            get, last, S, V = trie.get, object(), obs["starts"], obs["vals"]
            for c in range(CPLIMIT):
                v = get(c)
                if v != last or type(v) is not int:
                    S.append(c); V.append(enc(v)); last = v
                    if len(S) > 100000: break
        st, _ = guarded(60, sweep)
        events.append({"k": "sweep", "st": st, **obs})
        cs = [0x110000, 0x110001, 0x11FFFF, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0xFFFFFFFF, 1 << 40, rnd.randrange(0x110000, 1 << 31)]
        vs = []
        st, _ = guarded(10, lambda: vs.extend(enc(trie.get(c)) for c in cs))
        events.append({"k": "error", "st": st, "vals": vs})
        if n % 4 == 0 and not shape["wide"]:
            h["layout"] = layout(t)
            ends = [c for s in rnd.sample(m[0], min(len(m[0]), 200)) for c in (s, s - 1, s | 15, s | 63) if c >= 0]
            events.append({"k": "layout", "st": "ok", "cs": probes(rnd, t, 20) + [c for c in ends if c < CPLIMIT]})
        return h

    pts = {0, 1, 0x80, 0x110000, 0x10FFFF, 0x10000, 0xFFFF, shape["highStart"], 0x1000, 0xD800, 0xDC00, 0xE000}
    for s in rnd.sample(m[0], min(len(m[0]), 25)):
        pts |= {s, s - 1, s + 1, s & ~15, s & ~31, s & ~63, s & ~511, s & ~2047, (s | 15) + 1, (s | 63) + 1, (s | 2047) + 1}
    pts |= {rnd.choice(tries.SPECIAL) for _ in range(8)}
    hs = shape["highStart"]
    pts |= {hs - 1, hs + 1, hs - 16, hs - 512, hs - 2048}
    pts = sorted(p for p in pts if 0 <= p <= CPLIMIT)

    def start(s, l, fn, kw, style):
        f = FNS[fn]
        if isinstance(style, tuple):
            style, wrap = style
            f = (lambda v, g=f, w=WRAP[wrap][0], **kw: w(g(v, **kw)))
        if style == 0 and f is None: it = trie.enumerator(s, l)
        elif style == 1 and f is None: it = trie.enumerator(start=s, limit=l)
        elif style == 2 and f is None and l == CPLIMIT: it = trie.enumerator(s)
        elif style == 3 and f is None and (s, l) == (0, CPLIMIT): it = trie.enumerator()
        elif f is None: it = trie.enumerator(s, limit=l)
        elif style % 2: it = trie.enumerator(s, l, f, **kw)
        else: it = trie.enumerator(start=s, limit=l, valueFunction=f, **kw)
        return it

    def take(it, runs, style=0):
        x = next(it, None)
        if x is None or len(runs) > 60000: return False
        r, v = x
        ok = type(r) is range and r.step == 1
        if isinstance(style, tuple): v = WRAP[style[1]][1](v)
        runs.append([small(r.start), small(r.stop), enc(v)] if ok else [-9, -9, enc(v)])
        return True

    def enum(*args):
        runs = []
        def go():
            it = start(*args)
            while take(it, runs, args[-1]): pass
        st, _ = guarded(20, go)
        event(st, runs, *args)

    def together(calls):
        """Enumerations of the one trie that are open at the same time, advanced in random turns."""
        runs = [[] for _ in calls]
        def go():
            live = []
            for i, args in enumerate(calls):
                live.append((i, start(*args)))
                for _ in range(rnd.randrange(4)): take(live[-1][1], runs[i], args[-1])
            while live:
                i, it = rnd.choice(live)
                for _ in range(rnd.choice([1, 1, 3, 50])):
                    if not take(it, runs[i], calls[i][-1]):
                        live.remove((i, it))
                        break
        st, _ = guarded(40, go)
        for r, args in zip(runs, calls): event(st, r, *args)

    def event(st, runs, s, l, fn, kw, style):
        a = {"bits": 0, "by": 0, "at": 0, "off": 0}
        a.update(kw)
        events.append({"k": "enum", "st": st, "s": s, "l": l, "fn": fn, **a, "runs": runs})

    def randomFn():
        if KIND == "cptrie" or rnd.random() < .45: return "id", {}
        fn = rnd.choice(["mask", "shift", "const", "bit", "plain"])
        return fn, {"mask": {"bits": rnd.choice([1, 2, 4, 12])}, "shift": {"by": rnd.choice([1, 2, 8])}, "const": {}, "plain": {},
                    "bit": {"at": rnd.randrange(4), "off": rnd.choice([0, 3])}}[fn]

    enum(0, CPLIMIT, "id", {}, rnd.choice([0, 1, 2, 3]))
    if KIND == "utrie2" and n % 3 == 0: enum(0, CPLIMIT, *randomFn(), 0)
    calls = []
    for i in range(90 if THOROUGH else 45):
        x = rnd.random()
        s = rnd.choice(pts)
        if x < .5:
            near = [p for p in pts if s <= p <= s + 5000]
            l = rnd.choice(near)
        elif x < .6: l = CPLIMIT if s > 0x100000 or rnd.random() < .2 else min(CPLIMIT, s + rnd.randrange(40))
        elif x < .75: l = min(CPLIMIT, s + rnd.choice([1, 2, 15, 16, 17, 64, 600, 3000]))
        elif x < .82: l = rnd.choice([p for p in pts if p <= s])
        else: l = rnd.choice(pts)
        fn, kw = randomFn()
        style = rnd.randrange(4)
        if fn != "id" and rnd.random() < .4:
            style = style, rnd.choice(["text", "list", "none", "negative", "fraction"] + (["bool", "last"] * 2 if fn == "bit" and kw["off"] == 0 or kw.get("bits") == 1 else []))
        args = s, l, fn, kw, style
        if i % 5: enum(*args)
        else: calls.append(args)
        if len(calls) == 3: together(calls); calls = []
    return h


def main():
    n = (900 if WHAT == "enum" else 500) if THOROUGH else (160 if WHAT == "enum" else 104)
    with multiprocessing.Pool(8) as pool:
        hs = pool.map(history, range(n), chunksize=2)
        if WHAT == "get": hs += pool.map(arrayHistory, range(200 if THOROUGH else 40), chunksize=1)
    writeJson(OUT, hs)


if __name__ == "__main__": main()
