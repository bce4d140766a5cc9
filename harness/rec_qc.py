"""Records the norm16 predicates of the normalizers for spec/NormalizersTrace.tla.

usage: rec_qc.py OUT (nfc|files|made|builtin)
"""
import gzip, json, multiprocessing, sys, tempfile
from common import *

OUT, WHAT = sys.argv[1:3]
NORMALIZERS = ["nfcTrie"] if WHAT == "nfc" else ["nfkcTrie", "nfkc_cfTrie"] + (["uts46"] if THOROUGH else [])
MADE = 96 if THOROUGH else 12
PREDICATES = ["isDecompYes", "isHangulLV", "isHangulLVT", "isJamoL", "isJamoVT", "isMaybeOrNonZeroCC", "isInert"]
TABLE = {"nfcTrie": "nfc", "nfkcTrie": "nfkc", "nfkc_cfTrie": "nfkc_cf"}


def normalizer(n):
    if WHAT == "builtin": n = "nfcTrie"
    import UnicodeData.Normalizer2 as m
    if n.endswith("Trie"): return getattr(m, n)
    norm = m.Normalizer2.createFromFileData(n)
    if WHAT == "made": m.Normalizer2.createFromFileData(f"made{(int(n[4:]) + 1) % MADE}")   # another after it
    return norm


def bit(v): return 1 if v else 0


def sweep(t):
    n, f = t
    events, at = [], [0]
    def go():
        norm = normalizer(n)
        p, norm16 = getattr(norm, f), norm.getNorm16
        start, last = 0, None
        for c in range(CPLIMIT):
            at[0] = c
            v = bit(p(norm16(c)))
            if c == 0: last = v
            elif v != last:
                events.append({"st": "ok", "s": start, "e": c, "v": last})
                start, last = c, v
                if len(events) > 60000: raise OverflowError
        events.append({"st": "ok", "s": start, "e": CPLIMIT, "v": last})
    st, _ = guarded(200, go)
    if st != "ok": events.append({"st": st, "s": at[0], "e": CPLIMIT, "v": 0})
    return {"table": TABLE.get(n, n), "f": f, "events": events}


def text(v): return [ord(x) for x in v] if type(v) is str else [-1]


def hangul(n):
    st, norm = guarded(60, normalizer, n)
    events = []
    if st != "ok": return {"table": TABLE.get(n, n), "f": "hangul", "events": [{"st": st, "c": 0xAC00, "raw": [], "full": []}]}
    for c in range(0xAC00, 0xD7A4):
        st, r = guarded(5, method(norm, "rawHangulDecomposition"), c)
        st2, f = guarded(5, method(norm, "hangulDecomposition"), c)
        st = st if st != "ok" else st2
        events.append({"st": st, "c": c, "raw": text(r), "full": text(f)} if st == "ok" else {"st": st, "c": c, "raw": [], "full": []})
    return {"table": TABLE.get(n, n), "f": "hangul", "events": events}


def task(t): return hangul(t[0]) if t[1] == "hangul" else sweep(t)


def table(rows):
    rows = sorted(r for r in rows if not 0xAC00 <= r[0] <= 0xD7A3)
    return {"first": [r[0] for r in rows], "last": [r[1] for r in rows], "map": [r[2] for r in rows]}


def main():
    overlay(tempfile.mkdtemp())
    with multiprocessing.Pool(8) as pool:
        hs = pool.map(task, [(n, p) for n in NORMALIZERS for p in PREDICATES + ["hangul"]], chunksize=1)
    if WHAT == "nfc":
        d = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))
        canon = table([[int(k, 16), int(k, 16), v] for k, v in d["decomp"]["nfcRaw"].items()])
        tables = {"nfc": canon}
    else:
        d = json.load(gzip.open(os.path.join(DATA, "icu74.json.gz")))
        canon = table(d["raw"]["nfc"])
        tables = {TABLE.get(n, n): table(d["raw"][TABLE.get(n, n)]) for n in NORMALIZERS}
    # more cuts than needed; the specification checks that none is missing
    base = set(d["ccc"][0]) | {p for m in canon["map"] for c in m for p in (c, c + 1)} | {0}
    base |= {0x1100, 0x1113, 0x1161, 0x1176, 0x11A8, 0x11C3, 0xAC00, 0xD7A4}
    base |= {0xAC00 + 28 * i + j for i in range(399) for j in (0, 1)}
    cuts = {n: sorted(c for c in base | set(t["first"]) | {x + 1 for x in t["last"]} if c < CPLIMIT) for n, t in tables.items()}
    writeJson(OUT, {"tables": tables, "canon": canon, "cuts": cuts, "excluded": d["excluded"], "roles": {},
                    "ccc": {n: {"starts": d["ccc"][0], "vals": d["ccc"][1]} for n in tables}, "histories": hs})


def builtin(t):
    """The predicates with a generated Norm2NFCData.py."""
    import nrm
    n, parts, fs = t
    replaceModules(overlay(tempfile.mkdtemp()), {"Norm2NFCData": nrm.module(parts)})
    return [task((n, f)) for f in fs]


def mainMade():
    """The same for generated data items, which say themselves what composes."""
    import nrm
    from rec_norm import runsOf, classes
    ms = {f"made{n}": nrm.build(random.Random(f"{SEED}-qc-{WHAT}-{n}")) for n in range(MADE)}
    if WHAT == "builtin":
        with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
            hs = pool.map(builtin, [(n, m[-1], PREDICATES + ["hangul"] * (i < 2)) for i, (n, m) in enumerate(ms.items())], chunksize=1)
        hs = [h for x in hs for h in x]
    else:
        items = icuItems()
        for n, m in ms.items(): items[f"{n}.nrm"] = m[0]
        overlay(tempfile.mkdtemp(), variedPackage(random.Random(f"{SEED}-qc"), items))
        with multiprocessing.Pool(8) as pool:
            hs = pool.map(task, [(n, p) for i, n in enumerate(ms) for p in PREDICATES + ["hangul"] * (i < 2)], chunksize=1)
    tables, cuts, roles, ccc = {}, {}, {}, {}
    for n, (_, mapped, _, cc, r) in ms.items():
        tables[n] = table(runsOf(mapped))
        ccc[n] = classes(cc)
        roles[n] = {"firsts": sorted(r["firsts"]), "seconds": sorted(r["seconds"]), "jamo": r["jamo"]}
        base = {0, 0x1100, 0x1113, 0x1161, 0x1176, 0x11A8, 0x11C3, 0xAC00, 0xD7A4} | set(ccc[n]["starts"]) | r["firsts"] | r["seconds"] | set(tables[n]["first"])
        base |= {c + 1 for c in [*tables[n]["last"], *r["firsts"], *r["seconds"]]} | {0xAC00 + 28 * i + j for i in range(399) for j in (0, 1)}
        cuts[n] = sorted(c for c in base if c < CPLIMIT)
    writeJson(OUT, {"tables": tables, "canon": table([]), "cuts": cuts, "excluded": [], "roles": roles, "ccc": ccc, "histories": hs})


if __name__ == "__main__": mainMade() if WHAT in ("made", "builtin") else main()
