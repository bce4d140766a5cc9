"""Builds well-formed frozen tries, in many layouts, from abstract maps.

A map is (starts, vals): ascending run starts from 0 and the run values.
Written from the format descriptions of ICU (utrie2.h, ucptrie_impl.h), and
independent of the readers in /repo.
"""
import bisect, struct

CP = 0x110000


def normalize(starts, vals):
    s, v = [], []
    for a, b in zip(starts, vals):
        if not v or v[-1] != b: s.append(a); v.append(b)
    return s, v


def valueAt(m, c):
    return m[1][bisect.bisect_right(m[0], c) - 1]


def block(m, start, length):
    """The values of start .. start+length-1 as a tuple."""
    starts, vals = m
    k = bisect.bisect_right(starts, start) - 1
    out, c, end = [], start, start + length
    while c < end:
        nxt = starts[k + 1] if k + 1 < len(starts) else CP
        n = min(end, nxt) - c if nxt < end or end <= nxt else 0
        if c >= CP: out += [vals[-1]] * (end - c); break
        n = min(end, nxt) - c
        out += [vals[k]] * n
        c += n; k += 1
    return tuple(out)


SPECIAL = [0x7F, 0x80, 0xC0, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1010, 0x1040, 0x3FFF, 0x4000, 0xD7FF, 0xD800, 0xD820, 0xDBFF, 0xDC00,
           0xDFFF, 0xE000, 0xFFC0, 0xFFFF, 0x10000, 0x10020, 0x10200, 0x10800, 0x13FFF, 0x14000, 0x20000, 0x10FFDF, 0x10FFE0, 0x10FE00,
           0x10F800, 0x10C000, 0x10FFFE, 0x10FFFF]


def randomMap(rnd, values, highStart, density, limit=None, stripes=0):
    """A piecewise constant map with one value from highStart on."""
    initial = rnd.choice(values)
    pts = {0: initial}
    for _ in range(density):
        x = rnd.random()
        if x < .3: p = rnd.choice(SPECIAL) + rnd.choice([-1, 0, 0, 1])
        elif x < .45: p = rnd.randrange(0x300)
        elif x < .7: p = rnd.randrange(0x11000)
        else: p = rnd.randrange(CP)
        x = rnd.random()
        if x < .25: p &= ~(rnd.choice([16, 32, 64, 512, 2048]) - 1)
        length = rnd.choice([1, 2, 5, 15, 16, 17, 31, 32, 33, 48, 64, 100, 512, 700, 2048, 5000, 16384])
        if p < 0 or p >= CP: continue
        e = min(CP, p + length)
        v = rnd.choice(values)
        after = None
        ks = sorted(pts)
        if e < CP: after = pts[ks[bisect.bisect_right(ks, e) - 1]]
        for k in ks:
            if p <= k < e: del pts[k]
        pts[p] = v
        if after is not None: pts[e] = after
    # repeated patterns make blocks that readers may share
    for _ in range(rnd.choice([0, 1, 2, 4]) + stripes):
        size = rnd.choice([16, 32, 64, 512, 2048]) if not stripes else rnd.choice([512, 2048, 2048])
        pat = sorted({0} | {rnd.randrange(size) for _ in range(rnd.choice([1, 2, 3]))})
        pv = [rnd.choice(values) for _ in pat]
        base = rnd.choice([0x400, 0xF00, 0xFC0, 0x2000, 0xD700, 0xD800, 0xDB00, 0xFE00, 0x10000, 0x1F000, 0x10F000, rnd.randrange(CP - 0x9000)]) & ~(size - 1)
        if stripes: base = rnd.randrange(0x10000, max(0x14000, min(highStart, CP) - 0x4000)) & ~(size - 1)
        n = rnd.choice([2, 3, 6])
        if base + n * size >= CP: continue
        ks = sorted(pts)
        after = pts[ks[bisect.bisect_right(ks, base + n * size) - 1]]
        for k in ks:
            if base <= k < base + n * size: del pts[k]
        for r in range(n):
            for p, v in zip(pat, pv): pts[base + r * size + p] = v
        pts[base + n * size] = after
    # the block at a change of block size: the next block has the values that
    # the last one started with
    if limit or rnd.random() < .25:
        limit = limit or rnd.choice([0x1000, 0x10000])
        a, b, k = rnd.choice(values), rnd.choice(values), rnd.choice([16, 16, 32, 48])
        n = rnd.choice([16, 16, 20, 64])
        ks = sorted(pts)
        after = pts[ks[bisect.bisect_right(ks, limit + n) - 1]]
        for x in ks:
            if limit - 64 <= x < limit + n: del pts[x]
        pts[limit - 64] = a; pts[limit - 64 + k] = b; pts[limit] = a; pts[limit + n] = after
    if highStart < CP:
        for k in [k for k in pts if k >= highStart]: del pts[k]
        pts[highStart] = rnd.choice(values)
    ks = sorted(pts)
    return normalize(ks, [pts[k] for k in ks]), initial


class Data:
    """A data array into which blocks are put, shared or not."""
    def __init__(self, rnd, base, granularity, share, overlap, junk):
        self.rnd, self.base, self.g, self.share, self.overlap, self.junk = rnd, base, granularity, share, overlap, junk
        self.a, self.known = [], {}

    def pad(self):
        while (self.base + len(self.a)) % self.g: self.a.append(self.junk())

    def put(self, values, forceNew=False):
        values = tuple(values)
        if not forceNew and self.share and values in self.known and (self.share > 1 or self.rnd.random() < .6):
            return self.known[values]
        if not forceNew and self.overlap:
            # anywhere in the array, at the granularity
            n = len(values)
            for tries in range(40):
                if len(self.a) < n: break
                o = self.rnd.randrange(0, len(self.a) - n + 1)
                o -= (self.base + o) % self.g
                if o >= 0 and tuple(self.a[o:o + n]) == values: return self.base + o
            k = min(n, len(self.a))
            while k > 0:                         # the end of the array
                if (self.base + len(self.a) - k) % self.g == 0 and tuple(self.a[len(self.a) - k:]) == values[:k]: break
                k -= 1
            o = self.base + len(self.a) - k
            if k and o % self.g == 0:
                self.a += values[k:]
                self.known.setdefault(values, o)
                return o
        if self.rnd.random() < .1:
            self.a += [self.junk() for _ in range(self.rnd.randrange(9))]
        self.pad()
        o = self.base + len(self.a)
        self.a += values
        self.known.setdefault(values, o)
        if len(values) == 64:                    # small blocks may share a fast block
            for k in range(0, 64, 16): self.known.setdefault(values[k:k + 16], o + k)
        return o


def buildUTrie2(rnd, m, initial, highStart, error, opts):
    """The arguments of the UTrie2 constructor for map m."""
    junk = lambda: rnd.choice([0, 1, 0xFFFF, rnd.randrange(0x10000)])
    suppEntries = max(0, (highStart - 0x10000) >> 11)
    # which index-2 blocks the supplementary code points need
    blocks = [[block(m, 0x10000 + (i << 11) + (k << 5), 32) for k in range(64)] for i in range(suppEntries)]
    nullData = (initial,) * 32
    # index-2 blocks: shared or not, and a null one
    i2 = {}
    order, which = [], []
    for b in blocks:
        key = tuple(b)
        if opts["share"] and key in i2: which.append(i2[key]); continue
        i2[key] = len(order); which.append(len(order)); order.append(key)
    base2 = 0x840 + suppEntries
    pads = [rnd.choice([0, 0, 3]) if opts["junk"] else 0 for _ in order]
    offs, pos = [], base2
    for p in pads: pos += p; offs.append(pos); pos += 64
    indexLength = pos + (-pos) % 4 + (rnd.choice([0, 4, 8]) if opts["junk"] else 0)
    data = Data(rnd, indexLength, 4, opts["share"], opts["overlap"], junk)
    ascii_ = block(m, 0, 0x80)
    data.a += list(ascii_) + [error] * 0x40
    if opts["share"]:
        for k in range(0, 0x80, 32): data.known.setdefault(ascii_[k:k + 32], indexLength + k)
    nullOffset = data.put(nullData) if opts["null"] else None
    index = [junk() for _ in range(indexLength)]

    nulls = set()
    def put(values):
        if nullOffset is not None and values == nullData and rnd.random() < opts["nullUse"]: return nullOffset
        o = data.put(values)
        if values == nullData: nulls.add(o)
        return o

    for b in range(0x800):
        c = b << 5
        if 0xD800 <= c < 0xDC00:
            # the values of lead surrogate code units, which are not asked for
            index[b] = data.put(tuple(junk() for _ in range(32)) if opts["units"] and b % 8 == 0 else data.a[-32:]) >> 2
        else:
            index[b] = put(block(m, c, 32)) >> 2
    for b in range(0x20): index[0x800 + b] = put(block(m, 0xD800 + (b << 5), 32)) >> 2
    for i, b in enumerate(which): index[0x840 + i] = offs[b]
    index2Null = 0xFFFF
    for b, key in enumerate(order):
        for k, values in enumerate(key):
            index[offs[b] + k] = put(values) >> 2
        if all(v == nullData for v in key) and opts["null2"]: index2Null = offs[b]
    high = m[1][-1]
    data.a += [junk() for _ in range(rnd.randrange(4))] if opts["junk"] else []
    highIndex = indexLength + len(data.a)
    data.a += [high] * 4
    if max(index) > 0xFFFF or indexLength + len(data.a) > 0x3FFFC: return None
    # the null block may be any block that is full of the initial value
    if nullOffset is None and nulls and opts["late"]: nullOffset = rnd.choice([max(nulls), *sorted(nulls)])
    return dict(index=index + data.a, indexLength=indexLength, index2NullOffset=index2Null,
                dataNullOffset=nullOffset if nullOffset is not None else 0xFFFFF, highStart=highStart,
                highValueIndex=highIndex, initialValue=initial)


def buildCPTrie(rnd, m, initial, highStart, error, fast, width, opts):
    """Index and data arrays and header fields of a UCPTrie for map m, or None
    when the layout asked for does not fit."""
    top = {8: 0xFF, 16: 0xFFFF, 32: 0xFFFFFFFF}[width]
    junk = lambda: rnd.choice([0, 1, top, rnd.randrange(top + 1)])
    fastLimit = 0x10000 if fast else 0x1000
    data = Data(rnd, 0, rnd.choice([1, 4, 16]), opts["share"], opts["overlap"], junk)
    nullSmall, nullFast = (initial,) * 16, (initial,) * 64
    index = []
    ascii0, ascii1 = block(m, 0, 64), block(m, 64, 64)
    data.a += ascii0 + ascii1
    if opts["share"]:
        for o, v in ((0, ascii0), (64, ascii1)):
            data.known.setdefault(v, o)
            for k in range(0, 64, 16): data.known.setdefault(v[k:k + 16], o + k)
    index += [0, 64]
    nullOffset = None
    nulls, others, nullIndexes = set(), {0, 64}, {}
    if opts["null"]:
        nullOffset = data.put(nullFast, forceNew=True)
        if opts["share"]: data.known[nullSmall] = nullOffset

    # a null block that comes after all the others: its offset is filled in later
    PLACE = 1 << 26
    last = not opts["null"] and opts["late"] and not opts["wide"] and rnd.random() < .3

    def put(values, null):
        if last and values == null and len(values) == 16: return PLACE
        if nullOffset is not None and values == null and rnd.random() < opts["nullUse"]: return nullOffset
        o = data.put(values)
        # only blocks full of the null value may be at the null offset
        if o == nullOffset and values != null: o = data.put(values, forceNew=True)
        (nulls if values == null else others).add(o)
        return o

    for b in range(2, fastLimit >> 6):
        index.append(put(block(m, b << 6, 64), nullFast))
    if max(index) > 0xFFFF: return None
    if opts["wide"]:                             # offsets beyond 16 bits
        nulls = set()                            # the null block may be up there, too
        data.a += [junk() for _ in range(max(0, rnd.choice([0x10000, 0x1FFF0, 0x20000, 0x2FFC0, 0x30000]) - len(data.a)))]
        data.known = {}
    no3 = 0x7FFF
    index3Null = no3
    first = 0x10000 if fast else 0
    if highStart > fastLimit:
        n1 = (highStart - first + 0x3FFF) >> 14
        i1Base = len(index)
        index += [0] * n1
        # index-3 blocks
        i3known, i2known = {}, {}
        def i3(c):
            nonlocal index3Null
            entries = []
            allNull = True
            for k in range(32):
                v = block(m, c + (k << 4), 16)
                if v != nullSmall: allNull = False
                entries.append(put(v, nullSmall))
            wide = any(e > 0xFFFF for e in entries if e != PLACE) or opts["force18"] and rnd.random() < .6
            key = (wide, tuple(entries))
            if opts["share"] and key in i3known: return i3known[key]
            if opts["junk"] and rnd.random() < .1: index.append(rnd.randrange(0x10000))
            o = len(index)
            if wide:
                for g in range(0, 32, 8):
                    hi = 0
                    for k in range(8): hi |= ((entries[g + k] >> 16) & 3) << (14 - 2 * k)
                    index.append(hi)
                    index.extend(e if e == PLACE else e & 0xFFFF for e in entries[g:g + 8])
            else: index.extend(entries)
            if o > 0x7FFE: raise OverflowError
            r = o | (0x8000 if wide else 0)
            i3known[key] = r
            if allNull and len(set(entries)) == 1: nullIndexes.setdefault(entries[0], r)
            if opts["null3"] and allNull and nullOffset is not None and index3Null == no3 \
                    and all(e == nullOffset for e in entries):
                index3Null = r
            return r
        try:
            for i in range(n1):
                base = first + (i << 14)
                if base < highStart:
                    ent = []
                    for k in range(32):
                        c = base + (k << 9)
                        if c < fastLimit and not fast: ent.append(ent[-1] if ent else 0)   # never looked at
                        elif c >= highStart and opts["short2"]: break
                        else: ent.append(i3(c))
                    key = tuple(ent)
                    if opts["share"] and key in i2known: index[i1Base + i] = i2known[key]; continue
                    i2known[key] = index[i1Base + i] = len(index)
                    index += ent
        except OverflowError:
            return None
        if PLACE in index:
            nullOffset = data.put(nullSmall, forceNew=True)
            if nullOffset > 0xFFFF: return None
            if opts["null3"] and PLACE in nullIndexes: index3Null = nullIndexes[PLACE]
            index = [nullOffset if x == PLACE else x for x in index]
        if len(index) > 0xFFFF or max(index) > 0xFFFF: return None
    if opts["junk"]: data.a += [junk() for _ in range(rnd.randrange(5))]
    data.a += [m[1][-1], error]
    if len(data.a) >= 1 << 18: return None
    # the null block may be any block that is full of the initial value
    if nullOffset is None and nulls - others and opts["late"]:
        nullOffset = rnd.choice([max(nulls - others), *sorted(nulls - others)])
        if opts["null3"] and nullOffset in nullIndexes: index3Null = nullIndexes[nullOffset]
    dn = nullOffset if nullOffset is not None else 0xFFFFF
    return dict(index=index, data=data.a, trieType=0 if fast else 1, valueWidth={8: 2, 16: 0, 32: 1}[width],
                index3NullOffset=index3Null, dataNullOffset=dn, highStart=highStart,
                shifted12HighStart=(highStart + 0xFFF) >> 12)


def serialize(t):
    dl, dn = len(t["data"]), t["dataNullOffset"]
    options = (dl >> 16) << 12 | (dn >> 16) << 8 | t["trieType"] << 6 | t["valueWidth"]
    f = {0: "H", 1: "I", 2: "B"}[t["valueWidth"]]
    return (struct.pack("<IHHHHHH", 0x54726933, options, len(t["index"]), dl & 0xFFFF, t["index3NullOffset"],
                        dn & 0xFFFF, t["highStart"] >> 9)
            + struct.pack(f"<{len(t['index'])}H", *t["index"]) + struct.pack(f"<{dl}{f}", *t["data"]))
