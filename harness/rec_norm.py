"""Records the normalizers over the whole code space for spec/DecompositionsTrace.tla.

usage: rec_norm.py OUT (nfc|files|made|builtin)
"""
import gzip, json, multiprocessing, sys, tempfile
from common import *

OUT, WHAT = sys.argv[1:3]
N = 8
MADE = 160 if THOROUGH else 24
BUILTIN = 80 if THOROUGH else 16
MIXED = 20000 if THOROUGH else 3000
NORMALIZERS = ["nfcTrie", "createFromHardCodedData"] if WHAT == "nfc" else \
              ["nfkcTrie", "nfkc_cfTrie", "nfkc", "nfkc_cf", "uts46"]


def tableName(n): return {"nfcTrie": "nfc", "createFromHardCodedData": "nfc", "nfkcTrie": "nfkc", "nfkc_cfTrie": "nfkc_cf"}.get(n, n)


def normalizer(n):
    if WHAT == "builtin": n = ["nfcTrie", "createFromHardCodedData"][int(n[4:]) % 2]
    import UnicodeData.Normalizer2 as m
    if n.endswith("Trie"): return getattr(m, n)
    if n == "createFromHardCodedData": return m.Normalizer2.createFromHardCodedData()
    norm = m.Normalizer2.createFromFileData(n)
    if WHAT == "made": m.Normalizer2.createFromFileData(f"made{(int(n[4:]) + 1) % MADE}")   # another after it
    return norm


def enc(v):
    if v is None: return []
    if type(v) is not str: return [-1]
    if v == "": return [-2] if WHAT == "nfc" else []
    return [ord(x) for x in v]


def event(st, s, e, raw, full): return {"st": st, "s": s, "e": e, "raw": raw, "full": full}


def sweep(t):
    n, part = t
    lo, hi = CPLIMIT * part // N, CPLIMIT * (part + 1) // N
    events, at = [], [lo]
    def go():
        norm = normalizer(n)
        raw, full = norm.getRawDecomposition, norm.getDecomposition
        start, last = lo, None
        for c in range(lo, hi):
            at[0] = c
            v = (raw(c), full(c))
            if c == lo: last = v
            elif v != last:
                events.append(event("ok", start, c, enc(last[0]), enc(last[1])))
                start, last = c, v
        events.append(event("ok", start, hi, enc(last[0]), enc(last[1])))
    st, _ = guarded(200, go)
    if st != "ok": events.append(event(st, at[0], hi, [], []))
    return events


def mixed(n):
    rnd = random.Random(f"{SEED}-{n}")
    t = tables()[tableName(n)]
    pts = [c for a, b in zip(t["raw"]["first"], t["raw"]["last"]) for c in {a - 1, a, b, b + 1} if 0 <= c < CPLIMIT]
    events = []
    st, norm = guarded(60, normalizer, n)
    if st != "ok": return {"name": n, "table": tableName(n), "sweep": 0, "events": [event(st, 0, 1, [], [])]}
    for _ in range(MIXED):
        x = rnd.random()
        c = rnd.choice(pts) if x < .7 else 0xAC00 + rnd.randrange(11172) if x < .85 else rnd.randrange(CPLIMIT)
        for d in ([c] if rnd.random() < .8 else [c, c ^ 1, c]):
            st1, r = guarded(5, method(norm, "getRawDecomposition"), d)
            st2, f = guarded(5, method(norm, "getDecomposition"), d)
            events.append(event(st1 if st1 != "ok" else st2, d, d + 1, enc(r) if st1 == "ok" else [], enc(f) if st2 == "ok" else []))
    return {"name": n, "table": tableName(n), "sweep": 0, "events": events}


def table(rows):
    rows = sorted(r for r in rows if not 0xAC00 <= r[0] <= 0xD7A3)
    return {"first": [r[0] for r in rows], "last": [r[1] for r in rows], "map": [r[2] for r in rows]}


def tables():
    if WHAT == "nfc":
        d = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["decomp"]
        def rows(m): return [[int(k, 16), int(k, 16), v] for k, v in m.items()]
        return {"nfc": {"raw": table(rows(d["nfcRaw"])), "full": table(rows(d["nfcFull"]))}}
    d = json.load(gzip.open(os.path.join(DATA, "icu74.json.gz")))
    return {n: {"raw": table(d["raw"][n]), "full": table(d["full"][n])} for n in d["full"]}


def merge(parts):
    """Joins runs that go on across the border between two parts of a sweep."""
    out = []
    for e in (e for p in parts for e in p):
        if out and out[-1]["st"] == e["st"] == "ok" and out[-1]["raw"] == e["raw"] and out[-1]["full"] == e["full"] and out[-1]["e"] == e["s"]:
            out[-1]["e"] = e["e"]
        else: out.append(e)
    return out


# ---- generated data items
def made(count=MADE):
    import nrm
    out = []
    for n in range(count):
        rnd = random.Random(f"{SEED}-{WHAT}-{n}" if WHAT == "builtin" else f"{SEED}-nrm-{n}")
        out.append((f"made{n}", *nrm.build(rnd)))
    return out


def calls(t):
    """Every normalizer: at all interesting code points, in random order."""
    i, pts, whole = t
    name = f"made{i}"
    rnd = random.Random(f"{SEED}-{name}")
    events = []
    st, norm = guarded(60, normalizer, name)
    if st != "ok": return [{"name": name, "table": name, "sweep": 0, "events": [event(st, 0, 1, [], [])]}]
    rnd.shuffle(pts)
    for d in pts:
        st1, r = guarded(5, method(norm, "getRawDecomposition"), d)
        st2, f = guarded(5, method(norm, "getDecomposition"), d)
        events.append(event(st1 if st1 != "ok" else st2, d, d + 1, enc(r) if st1 == "ok" else [], enc(f) if st2 == "ok" else []))
    hs = [{"name": name, "table": name, "sweep": 0, "events": events}]
    if whole: hs.append({"name": name, "table": name, "sweep": 1, "events": merge([sweep((name, p)) for p in range(N)])})
    return hs


def interesting(rnd, mapped, ccc):
    pts = {c + d for c in [*mapped, *ccc] for d in (-1, 0, 1)} | {x for v in mapped.values() for x in v}
    pts |= {rnd.choice([0xAC00, 0xD7A3, 0xD7A4, 0xABFF, 0x1100, 0x1161, 0x11A8]) for _ in range(4)} | {0xAC00 + rnd.randrange(11172) for _ in range(40)}
    pts |= {0xD800 + rnd.randrange(0x400) for _ in range(8)} | {0xDC00 + rnd.randrange(0x400) for _ in range(3)} | {0, 0x10FFFF}
    pts |= {rnd.randrange(CPLIMIT) for _ in range(50)}
    return sorted(c for c in pts if 0 <= c < CPLIMIT)


def builtin(t):
    """The same with a generated Norm2NFCData.py."""
    import nrm
    i, m, pts, whole = t
    replaceModules(overlay(tempfile.mkdtemp()), {"Norm2NFCData": nrm.module(m[-1])})
    return calls((i, pts, whole))


def mainMade():
    ms = made(BUILTIN if WHAT == "builtin" else MADE)
    rnd = random.Random(f"{SEED}-made")
    if WHAT == "made":
        items = icuItems()
        for n, item, *_ in ms: items[f"{n}.nrm"] = item
        overlay(tempfile.mkdtemp(), variedPackage(rnd, items))
    def rows(m): return runsOf({c: v for c, v in m.items()})
    tables = {n: {"raw": table(rows(mapped)), "full": table(rows(full))} for n, _, mapped, full, _, _ in ms}
    jobs = [(i, interesting(rnd, x[2], x[4]), i % 8 == 0) for i, x in enumerate(ms)]
    with multiprocessing.Pool(8, maxtasksperchild=1 if WHAT == "builtin" else None) as pool:
        hs = pool.map(builtin, [(i, m, *j) for (i, *j), m in zip(jobs, ms)], chunksize=1) if WHAT == "builtin" else pool.map(calls, jobs, chunksize=1)
    ccc = {n: classes(cc) for n, _, _, _, cc, _ in ms}
    writeJson(OUT, {"tables": tables, "ccc": ccc, "histories": [h for x in hs for h in x]})


def classes(cc):
    """Combining classes as a code space map."""
    starts, vals = [0], [0]
    for c in sorted(cc):
        if starts[-1] == c: vals[-1] = cc[c]
        else: starts.append(c); vals.append(cc[c])
        if c + 1 < CPLIMIT: starts.append(c + 1); vals.append(0)
    return {"starts": starts, "vals": vals}


def runsOf(m):
    r = []
    for c in sorted(m):
        if r and r[-1][1] == c - 1 and r[-1][2] == m[c]: r[-1][1] = c
        else: r.append([c, c, m[c]])
    return r


def main():
    overlay(tempfile.mkdtemp())
    with multiprocessing.Pool(8) as pool:
        r = pool.map_async(sweep, [(n, p) for n in NORMALIZERS for p in range(N)], chunksize=1)
        m = pool.map(mixed, NORMALIZERS, chunksize=1)
        r = r.get()
    hs = [{"name": n, "table": tableName(n), "sweep": 1, "events": merge(r[i * N:(i + 1) * N])} for i, n in enumerate(NORMALIZERS)] + m
    ccc = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz" if WHAT == "nfc" else "icu74.json.gz")))["ccc"]
    writeJson(OUT, {"tables": tables(), "ccc": {n: {"starts": ccc[0], "vals": ccc[1]} for n in tables()}, "histories": hs})


if __name__ == "__main__": mainMade() if WHAT in ("made", "builtin") else main()
