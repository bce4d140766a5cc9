"""Builds normalization data items (.nrm, format version 4) from random tables.

Written from the description of the format in ICU's normalizer2impl.h,
independent of the reader in /repo."""
import struct
import tries
from common import dataHeader, CPLIMIT

LIMIT = 31                                 # code units of a mapping
SYL = range(0xAC00, 0xD7A4)
JAMO = [*range(0x1100, 0x1113), *range(0x1161, 0x1176), *range(0x11A8, 0x11C3)]


def units(cs):
    out = []
    for c in cs:
        if c < 0x10000: out.append(c)
        else: out += [0xD7C0 + (c >> 10), 0xDC00 | c & 0x3FF]
    return out


def hangul(c):
    i = c - 0xAC00
    r = [0x1100 + i // 588, 0x1161 + i % 588 // 28]
    return r + [0x11A7 + i % 28] if i % 28 else r


def randomTable(rnd):
    """One-step mappings (acyclic), combining classes, algorithmic ranges."""
    cap = rnd.choice([0x2000, 0x11000, 0x18000, 0x20000, 0x50000, CPLIMIT, CPLIMIT, CPLIMIT])
    def anywhere():
        c = some()
        return c if c < cap else anywhere()
    def some():
        x = rnd.random()
        if x < .15: c = rnd.randrange(0x21, 0x250)
        elif x < .6: c = rnd.randrange(0x250, 0x10000)
        elif x < .7: c = rnd.choice([0x7F, 0x80, 0xA0, 0xC0, 0x300, 0xABFF, 0xD7A4, 0xE000, 0xFFFF, 0x10000, 0x1F000, 0x2FFFF, 0x10FFFF, 0x10FFFE])
        elif x < .8: c = 0x10000 * rnd.choice([1, 1, 2, 14]) + 0xD800 + rnd.randrange(0x800)   # the low bits are those of a surrogate
        else: c = rnd.randrange(0x10000, 0x110000) if rnd.random() < .5 else rnd.randrange(0x10000, 0x20000)
        return some() if c in SYL or c in JAMO or 0xD800 <= c < 0xE000 else c
    n = rnd.choice([12, 40, 120])
    plain = [anywhere() for _ in range(n)] + [0x41, 0x61]
    marks = [anywhere() for _ in range(6)]
    ccc = {c: rnd.choice([1, 9, 129, 220, 220, 230, 230, 240]) for c in marks}
    plain = [c for c in plain if c not in ccc]
    mapped, full, algorithmic = {}, {}, {}
    pool = list(plain)
    def close(cs):
        out = []
        for c in cs: out += full[c] if c in full else hangul(c) if c in SYL else [c]
        done = []
        for c in out:
            k = len(done)
            while k and ccc.get(c, 0) and ccc.get(done[k - 1], 0) > ccc.get(c, 0): k -= 1
            done.insert(k, c)
        return done
    def free(c): return c not in ccc and c not in mapped and c not in plain and not 0xD800 <= c < 0xE000 \
        and c not in SYL and c not in JAMO and 0 <= c < CPLIMIT
    def put(c, to):
        f = close(to)
        if len(units(f)) > LIMIT or len(units(to)) > LIMIT or c in f: return False
        mapped[c], full[c] = list(to), f
        return True
    for _ in range(n):
        c = anywhere()
        if not free(c): continue
        kind = rnd.random()
        if kind < .18: to = [rnd.choice(pool)]
        elif kind < .5: to = [rnd.choice(pool), rnd.choice(marks)]
        elif kind < .6: to = [rnd.choice(pool)] + [rnd.choice(marks) for _ in range(rnd.randrange(2, 4))]
        elif kind < .66: to = []
        elif kind < .74: to = [rnd.choice(SYL)] + ([rnd.choice(marks)] if rnd.random() < .5 else [])
        elif kind < .8: to = [rnd.choice(pool) for _ in range(rnd.choice([7, 15, 30, 31]))]
        elif kind < .86: to = [rnd.choice(JAMO), rnd.choice(pool)]
        else: to = [rnd.choice(pool) for _ in range(rnd.randrange(2, 5))]
        if not put(c, to): continue
        pool.append(c)
        # the longest mapping, of characters some of which have mappings to one character or none
        if rnd.random() < .1:
            single = [x for x in pool if x in full and len(full[x]) < 2] or [c]
            d = anywhere()
            if free(d): put(d, [rnd.choice(single if rnd.random() < .1 else pool) for _ in range(rnd.choice([30, 31, 31]))])
            d = anywhere()
            if free(d):
                low = [x for x in plain if x < 0x10000]
                to = [rnd.choice(low) for _ in range(rnd.choice([30, 31, 31]))]
                to[rnd.randrange(len(to))] = rnd.choice(single)
                put(d, to)
        # neighbours with the same mapping
        if rnd.random() < .2:
            for d in range(c + 1, c + rnd.randrange(2, 40)):
                if free(d): put(d, to)
    # a supplementary character Y -> XZ (the trail units of Y and Z are the same), and C -> Y...
    for _ in range(2):
        x, z = anywhere(), rnd.randrange(0x10000, 0x20000)
        y, c = z ^ 0x400 * rnd.randrange(1, 64), anywhere()
        if x > 0xFFFF or not all(free(d) for d in (y, z, c)) or len({x, y, z, c}) < 4 or z > 0x1FFFF or x in ccc or x in mapped: continue
        if any(y in f or c in f for f in full.values()): continue
        if put(y, [x, z]): put(c, [y] + [rnd.choice(pool) for _ in range(rnd.randrange(3))])
    # algorithmic ranges: c -> c + delta, to code points that compose and have class 0
    for _ in range(rnd.choice([0, 2, 8])):
        t = rnd.choice([*plain, *mapped, 0xAC00 + rnd.randrange(11172)])
        d = rnd.choice([-64, 64, -1, 1, 32, -32, rnd.randrange(-64, 65)])
        if not d: continue
        for k in range(rnd.choice([1, 1, 10, 26])):
            c, to = t + k - d, t + k
            if not free(c) or not 0 <= to < CPLIMIT or 0xD800 <= to < 0xE000 or to in ccc or to in algorithmic or to in JAMO: continue
            if to in mapped and not mapped[to]: continue       # maps to nothing: not a character that composes
            if any(c in f for f in full.values()): continue
            if put(c, [to]): algorithmic[c] = d
    return mapped, full, ccc, algorithmic


def build(rnd):
    """(item, raw table, full table, ccc, what else it says) of a random normalizer."""
    mapped, full, ccc, algorithmic = randomTable(rnd)
    targets = {v[0] for c, v in mapped.items() if c in algorithmic}
    # code points that only look like something: compositions, maybe, nothing
    composing = {c for c in {x for f in full.values() for x in f} if c not in ccc and c not in SYL and c not in JAMO and rnd.random() < .4}
    maybe = {c for c in {x for f in full.values() for x in f[1:]} if c not in ccc and c not in SYL and c not in JAMO
             and c not in composing and c not in targets and rnd.random() < .3}
    jamo = rnd.random() < .8
    norm16 = {}
    maybes = [0x8000 | rnd.randrange(0x7FFF) for _ in range(2 * len(maybe))]
    maybes += [0] * (-len(maybes) % 4)                           # keeps minMaybeYes a multiple of 8
    if rnd.random() < .5: maybes += [0xFFFF] * rnd.choice([4, 8, 12])
    minMaybeYes = 0xFC00 - 2 * len(maybes)
    assert minMaybeYes % 8 == 0
    for i, c in enumerate(sorted(maybe)): norm16[c] = minMaybeYes + 4 * i + rnd.randrange(2)
    extra = [0, 0]                                             # offsets 0 and 1: inert, Jamo L
    for c in sorted(composing):
        norm16[c] = len(extra) * 2 + rnd.randrange(2)
        extra += [rnd.randrange(0x8000) for _ in range(rnd.choice([1, 2, 3]))]
    shared = {}
    def write(c):
        raw, f = units(mapped[c]), units(full[c])
        key = (tuple(mapped[c]), c in targets)
        if key in shared and rnd.random() < .8: return shared[key]
        lc = ccc.get(full[c][0], 0) if full[c] else 0
        tc = ccc.get(full[c][-1], 0) if full[c] else 0
        word = lc or rnd.random() < .15
        first = len(f) | tc << 8 | (0x80 if word else 0)
        pre = []
        if raw != f:
            first |= 0x40
            if raw and len(raw) == len(f) - 1 and raw[1:] == f[2:] and raw[0] > LIMIT: pre = [raw[0]]
            else: pre = raw + [len(raw)]
        if word: pre.append(lc << 8 | rnd.choice([0, 220]))
        extra.extend(pre)
        at = len(extra)
        extra.append(first)
        extra.extend(f)
        shared[key] = at
        return at
    groups = {"yesNo": [], "yesNoOnly": [], "noNo": [], "noNoEmpty": []}
    for c in mapped:
        if c in algorithmic: continue
        if not mapped[c]: groups["noNoEmpty"].append(c)
        elif c in targets: groups[rnd.choice(["yesNo", "yesNoOnly"])].append(c)
        else: groups[rnd.choice(["yesNo", "yesNoOnly", "noNo", "noNo"])].append(c)
    start = {}
    for g in ("yesNo", "yesNoOnly", "noNo", "noNoEmpty"):
        cs = groups[g]
        rnd.shuffle(cs)
        shared.clear()
        start[g] = len(extra) * 2
        if g.startswith("yesNo"): extra.append(rnd.choice([0, 0x7FFF]))       # the place of Hangul syllables
        for c in cs:
            norm16[c] = write(c) * 2 + rnd.randrange(2)
            if g == "yesNo": extra.extend(rnd.randrange(0x10000) for _ in range(rnd.choice([1, 2, 3])))
    extra += [0] * (-len(extra) % 2)
    limitNoNo = (len(extra) * 2 + 7) // 8 * 8
    extra += [0] * rnd.choice([0, 4])
    center = (minMaybeYes >> 3) - 65
    lowest = (center - 64) << 3
    assert limitNoNo <= lowest
    limitNoNo = rnd.choice([limitNoNo, lowest]) if rnd.random() < .5 else lowest
    for c, d in algorithmic.items(): norm16[c] = ((center + d) << 3) | rnd.choice([0, 2, 4]) | rnd.randrange(2)
    for c, k in ccc.items(): norm16[c] = (0xFE00 if rnd.random() < .6 else 0xFC00) | k << 1
    if jamo:
        for c in JAMO: norm16[c] = 2 if c < 0x1160 else 0xFE00
    for c in SYL: norm16[c] = start["yesNo"] if (c - 0xAC00) % 28 == 0 else start["yesNoOnly"] | 1
    least = min([c for c in mapped] + [0xAC00])
    minDecomp = rnd.choice([least, least, rnd.randrange(least + 1), 0])
    top = max(norm16) + 1
    high = min(CPLIMIT, (top + 511) // 512 * 512 + rnd.choice([0, 0, 512, 0x4000, CPLIMIT]))
    leads = rnd.random() < .7
    starts, vals = [], []
    marks = sorted(set(norm16) | {c + 1 for c in norm16} | {0} | (set(range(0xD800, 0xDC01)) if leads else set()))
    for c in marks:
        if c >= CPLIMIT: continue
        v = norm16.get(c, 1)
        if leads and 0xD800 <= c < 0xDC00: v = rnd.choice([1, 3, start["noNo"], lowest, 0xFE02, 0xFFFF])
        starts.append(c); vals.append(v)
    m = tries.normalize(starts, vals)
    while True:
        opts = dict(share=rnd.choice([1, 2, 2]), overlap=rnd.random() < .5, null=rnd.random() < .9, nullUse=1,
                    null2=True, null3=rnd.random() < .8, junk=rnd.random() < .3, units=False, wide=False, force18=rnd.random() < .1, short2=rnd.random() < .5, late=rnd.random() < .7)
        t = tries.buildCPTrie(rnd, m, 1, high, rnd.choice([1, 0]), True, 16, opts)
        if t: break
    trie = tries.serialize(t)
    trie += b"\0" * (-len(trie) % 4)
    count = rnd.choice([20, 20, 24])
    words = maybes + extra
    eo = 4 * count + len(trie)
    so = eo + 2 * len(words)
    ix = [4 * count, eo, so, so + 256, so + 256, so + 256, so + 256, so + 256, minDecomp, rnd.randrange(0x300),
          start["yesNo"], start["noNo"], limitNoNo, minMaybeYes, start["yesNoOnly"], start["noNo"], start["noNo"], start["noNoEmpty"],
          min([*ccc, 0x300]), 0] + [0] * (count - 20)
    body = struct.pack(f"<{count}I", *ix) + trie + struct.pack(f"<{len(words)}H", *words) + bytes(256)
    return dataHeader(b"Nrm2", version=(4, 0, 0, 0)) + body, mapped, full, ccc, {"firsts": composing, "seconds": maybe, "jamo": int(jamo),
            "trie": t, "indexes": ix, "extra": words}


def module(parts):
    """The same as a data module (Norm2NFCData.py)."""
    t, p = parts["trie"], "norm2_nfc_data_"
    return "".join(f"{p}{n} = {v!r}\n" for n, v in (
        ("indexLength", len(t["index"])), ("dataLength", len(t["data"])), ("highStart", t["highStart"]),
        ("shifted12HighStart", t["shifted12HighStart"]), ("type", t["trieType"]), ("valueWidth", t["valueWidth"]),
        ("index3NullOffset", t["index3NullOffset"]), ("dataNullOffset", t["dataNullOffset"]), ("nullValue", 1),
        ("indexes", parts["indexes"]), ("trieIndex", t["index"]), ("trieData", t["data"]), ("extraData", parts["extra"]),
        ("smallFCD", [0] * 256)))
