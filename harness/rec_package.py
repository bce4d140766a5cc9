"""Records ICUData on generated packages for spec/PackageTrace.tla.

usage: rec_package.py OUT
"""
import multiprocessing, re, tempfile
from common import *

OUT = sys.argv[1]
N = 400 if THOROUGH else 160
FIELDS = "headerLength magic1 magic2 infoSize reservedWord isBigEndian charsetFamily sizeofUChar reservedByte".split()
VERSIONS = "fvMajor fvMinor fvMilli fvMicro dvMajor dvMinor dvMilli dvMicro".split()
TEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."


def word(rnd, lo, hi): return "".join(rnd.choice(TEXT) for _ in range(rnd.randrange(lo, hi)))


def package(rnd, large):
    """(bytes, item names, offsets of strings in items)"""
    n = 300 if large == 1 else rnd.choice([1, 1, 2, 3, 5, 8, 13, rnd.randrange(1, 40)])
    names = set()
    while len(names) < n:
        x = word(rnd, 1, 9)
        y = rnd.random()
        if y < .2: x = f"{word(rnd, 1, 5)}/{x}"
        if y < .05: x = f"{word(rnd, 1, 3)}/{x}"
        if .2 < y < .35 and names: x = rnd.choice(sorted(names)) + word(rnd, 1, 3)       # one name a prefix of another
        if .35 < y < .5 and names: x = word(rnd, 1, 3) + rnd.choice(sorted(names))       # or a suffix
        if y > .94: x = word(rnd, 60, 300)
        names.add(x + rnd.choice([".icu", ".nrm", ".res", ".cfu", ""]))
    items = {}
    hollow = rnd.choice(sorted(names)[:2])                  # an item with a very long run of zeros
    for x in sorted(names):
        length = rnd.choice([24, 32, 32, 48, 176])
        h = bytearray(rnd.randrange(256) for _ in range(length))
        struct.pack_into("<HBBHHBBBB", h, 0, length, 0xDA, 0x27, 20, rnd.choice([0, 0, 258]), 0, rnd.choice([0, 1]), rnd.choice([1, 2, 4]), rnd.choice([0, 7]))
        size = rnd.choice([0, 1, 2, 15, 16, 17, rnd.randrange(60)]) if not large == 2 else rnd.choice([0, 30, 9000])
        if large == 1: size = rnd.randrange(4)
        body = bytes(rnd.randrange(256) for _ in range(size))
        if large > 2 and x == hollow: body += bytes(rnd.choice([[1 << 16, 1 << 20], [(1 << 24) - 50, 17000000], [33600000]][large - 3])) + b"\x01"
        items[x] = bytes(h) + body + b"\0" * rnd.randrange(2) + word(rnd, 0, rnd.choice([6, 6, 6, 40, 300])).encode() + b"\0"
    prefix = rnd.choice(["icudt74l", "icudt67l", "p", word(rnd, 1, 20)])
    order = sorted(items)
    if rnd.random() < .3: rnd.shuffle(order)
    b = buildPackage(items, prefix=prefix, headerLength=rnd.choice([24, 28, 32, 48, 256, 300]), align=rnd.choice([4, 16, 16]), order=order)
    return b, order, prefix, items


def folded(b):
    """The bytes without the longest run of zeros, if it is a long one."""
    runs = [m.span() for m in re.finditer(rb"\0{5000,}", b)]
    s, e = max(runs, key=lambda r: r[1] - r[0]) if runs else (0, 0)
    return {"bytes": list(b[:s] + b[e:]), "at": s, "gap": e - s}


def asBytes(s):
    if type(s) is str: return [min(ord(c), BIG) for c in s]
    if type(s) is bytes: return list(s)
    return [-1]


def record(n):
    rnd = random.Random(f"{SEED}-package-{n}")
    b, order, prefix, items = package(rnd, {1: 1, 2: 2, 3: 3, 4: 4, 5: 5}.get(n % 32, 0))
    overlay(tempfile.mkdtemp(), b)
    st, m = loadModule("UnicodeData.ICUDataFile")
    events = []
    def done(): return {"package": folded(b), "events": events}
    if st == "ok": st, data = guarded(20, lambda: m.ICUData())
    if st != "ok":
        events.append({"k": "offset", "st": st}); return done()

    def lookup(name):
        def one(f):
            try: return f(name)
            except KeyError: return None
        kind = rnd.choice(["offset", "header"])
        who = rnd.choice([data, m.ICUData])
        st, v = guarded(5, one, method(who, "getDataOffset" if kind == "offset" else "getDataOffsetAndHeader"))
        e = {"k": kind, "st": st, "name": asBytes(name), "v": -1}
        if st == "ok" and v is not None:
            if kind == "offset": e["v"] = small(v) if isInt(v) else -2
            else:
                st, r = guarded(5, lambda: (v[0], [int(getattr(v[1], f)) for f in FIELDS] + asBytes(v[1].dataFormat) + [int(getattr(v[1], f)) for f in VERSIONS]))
                e["st"] = st
                if st == "ok": e["v"], e["fields"] = r
        events.append(e)
        return e["v"]

    def take(fn, kind, s, *rest):
        st, v = guarded(5, fn, s, *rest)
        events.append({"k": kind, "st": st, "s": s, "e": rest[0] if rest else 0, "bytes": asBytes(v) if st == "ok" else []})

    sample = order if len(order) < 60 else rnd.sample(order, 40) + [order[0], order[-1]]
    wrong = [f"{prefix}/{order[0]}", "", "nosuch.icu", prefix, order[-1] + "x", order[0][:-1], order[0].swapcase(), "/" + order[0], order[0].split("/")[-1] + "/"]
    calls = [(lookup, x) for x in sample * 2] + [(lookup, x) for x in rnd.sample(wrong, 4)]
    rnd.shuffle(calls)
    for f, x in calls:
        v = f(x)
        if x in items and v >= 0 and rnd.random() < .5:
            size = len(items[x])
            s = v + rnd.randrange(size); e = v + rnd.randrange(size + 1)
            if size < 20000: where = rnd.choice([(v, v + size), (min(s, e), max(s, e)), (v, v + 24), (s, s)])
            else: where = rnd.choice([(v, v + 200), (v + size - 200, v + size), (s, s), (s, s + 60)])
            take(method(rnd.choice([data, m.ICUData]), "getData"), "data", *where)
            t = items[x][:-1].rfind(b"\0") + 1
            t = rnd.choice([t, max(t, size - 7)])
            while any(c > 126 for c in items[x][t:]): t += 1
            take(method(rnd.choice([data, m.ICUData]), "getString"), "string", v + t)
        if rnd.random() < .05: m.ICUData()
    base, = struct.unpack_from("<H", b)
    for k in rnd.sample(range(len(order)), min(len(order), 3)):
        o, = struct.unpack_from("<I", b, base + 4 + 8 * k)
        take(method(data, "getName"), "name", base + o)
        take(method(data, "getString"), "string", base + o)
    take(method(data, "getData"), "data", len(b) - 3, len(b))
    return done()


def main():
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        hs = pool.map(record, range(N), chunksize=1)
    writeJson(OUT, hs)


if __name__ == "__main__": main()
