"""Replays the calls that spec/Utrie2Walk.tla and spec/CPTrieWalk.tla generate
in the real tries: each tiny layout is blown up to the block lengths of the
format, with the same sharing of blocks, and enumerated.

usage: rec_walk.py OUT (utrie2|cptrie) PLANS
"""
import json, multiprocessing, sys
import tries
from common import *

OUT, KIND, PLANS = sys.argv[1:4]
sys.path.insert(0, REPO)
DATA2 = [None, (0, 0), (0, 0), (1, 1), (0, 1), (1, 0)]
enc = (lambda v: f"{v}" if type(v) is int else "type") if KIND == "cptrie" else (lambda v: small(v) if type(v) is int else -9)


def utrie2(plan, rnd):
    t = plan["t"]
    other = rnd.choice([1, 5, 0xFFFF])
    values = (0, other) if plan["zero"] == 0 else (other, 0)
    f, g = rnd.choice([1, 2, 32, 62, 63]), rnd.choice([1, 16, 31])
    n = t["units"]
    base2 = 0x840 + n
    i2 = {"a": base2, "b": base2 + 64, "null": base2 + 128}
    il = base2 + 192
    il += -il % 4
    data = [values[0]] * 0x80 + [77] * 0x40          # ASCII and the error block
    block = {}
    for k in range(1, 6):
        if rnd.random() < .3: data += [9] * (4 * rnd.randrange(4))
        block[k] = (il + len(data)) >> 2
        data += [values[DATA2[k][0]]] * g + [values[DATA2[k][1]]] * (32 - g)
    high = il + len(data)
    data += [values[t["high"]]] * 4
    below = block[rnd.choice([1, 2])]
    index = [below] * il
    def put(o, pair): index[o:o + 64] = [block[pair[0]]] * f + [block[pair[1]]] * (64 - f)
    put(0xF800 >> 5, t["bmp"])
    for k in ("a", "b"): put(i2[k], t[k])
    put(i2["null"], (1, 1))
    for k in range(n): index[0x840 + k] = i2[t["i1"][k]]
    hs = 0x10000 + n * 2048
    d = dict(index=index + data, indexLength=il, index2NullOffset=i2["null"] if t["null2"] else 0xFFFF,
             dataNullOffset=block[1] << 2 if t["null1"] else 0xFFFFF, highStart=hs, highValueIndex=high,
             initialValue=values[0])
    def point(x):
        """A code point of the tiny one: the first of its values, or in between."""
        u, e, j = x // 4, x // 2 % 2, x % 2
        k = rnd.choice([0, f - 1, rnd.randrange(f)]) if e == 0 else rnd.choice([f, 63, rnd.randrange(f, 64)])
        return 0xF800 + 2048 * u + 32 * k + (0 if j == 0 else g) + rnd.choice([0, 0, rnd.randrange(g if j == 0 else 32 - g)])
    flat = d["index"]
    def value(c):
        if c < 0xF800: return values[0]
        if c >= hs: return values[t["high"]]
        x = index[0x840 + ((c - 0x10000) >> 11)] + (c >> 5 & 63) if c > 0xFFFF else c >> 5
        return flat[(index[x] << 2) + (c & 31)]
    return d, value, 0xF800, max(hs, 0x10000), point, 77


def cptrie(plan, rnd):
    t = plan["t"]
    fast, width = rnd.random() < .5, rnd.choice([8, 16, 32])
    top = (1 << width) - 1
    values = rnd.choice([(0, 1), (top, 0), (5, top), (0, top - 1)])
    fastLimit = 0x10000 if fast else 0x1000
    data = [values[0]] * 128
    for v in t["data"]: data += [values[v]] * 8
    at = lambda o: 128 + 8 * o
    f = rnd.choice([1, 2, 8, 31])
    n = t["units"]
    hs = fastLimit - rnd.choice([0x80, 0x80, 0x200]) if n == -1 else fastLimit + 512 * n
    fill = 64
    index = [0, 64] + [fill] * ((fastLimit >> 6) - 4) + [at(o) for o in t["fast"]]
    if n == -1 and hs == fastLimit - 0x200: index[-8:-2] = [at(t["fast"][0])] * 6
    index3Null = 0x7FFF
    if n > 0:
        first = 0x10000 if fast else 0
        n1 = (hs - first + 0x3FFF) >> 14
        i1 = len(index)
        index += [0] * n1
        i3 = {}
        for k in ("a", "b"):
            pair = [at(o) for o in t[k]]
            entries = [pair[0]] * f + [pair[1]] * (32 - f)
            if t["null3"] != k and rnd.random() < .4:
                i3[k] = len(index) | 0x8000
                for q in range(0, 32, 8): index += [0] + entries[q:q + 8]
            else:
                i3[k] = len(index)
                index += entries
            if t["null3"] == k: index3Null = i3[k]
        i2 = len(index)
        skip = (fastLimit & 0x3FFF) >> 9
        index += [i3["a"]] * skip + [i3[t["i2"][k]] for k in range(n)] + [i3["b"]] * (32 - skip - n)
        index[i1:i1 + n1] = [i2] * n1
    data += [values[t["high"]], 77]
    d = dict(index=index, data=data, trieType=0 if fast else 1, valueWidth={8: 2, 16: 0, 32: 1}[width], index3NullOffset=index3Null,
             dataNullOffset=0xFFFFF if t["null"] == 99 else at(t["null"]), highStart=hs, shifted12HighStart=(hs + 0xFFF) >> 12)
    def point(x):
        if x < 16: return fastLimit - 128 + 8 * x + rnd.choice([0, 0, 7, rnd.randrange(8)])
        x -= 16
        u, e, j = x // 4, x // 2 % 2, x % 2
        k = rnd.choice([0, f - 1, rnd.randrange(f)]) if e == 0 else rnd.choice([f, 31, rnd.randrange(f, 32)])
        return fastLimit + 512 * u + 16 * k + 8 * j + rnd.choice([0, 0, 7, rnd.randrange(8)])
    def value(c):
        if c < fastLimit: return data[index[c >> 6] + (c & 63)]
        if c >= hs: return data[-2]
        b = t[t["i2"][(c - fastLimit) >> 9]][0 if (c >> 4 & 31) < f else 1]
        return data[at(b) + (c & 15)]
    return d, value, fastLimit - 0x400, max(hs, fastLimit), point, 77


def history(job):
    n, plan = job
    rnd = random.Random(f"{SEED}-walk-{KIND}-{n}")
    d, value, lo, hi, point, error = (utrie2 if KIND == "utrie2" else cptrie)(plan, rnd)
    starts, vals = [0], [value(0)]
    for c in range(lo, hi + 1):
        v = value(c)
        if v != vals[-1]: starts.append(c); vals.append(v)
    events = []
    h = {"kind": KIND, "starts": starts, "vals": [enc(v) for v in vals], "error": enc(error), "plan": plan, "events": events}
    if n % 100 == 0:
        if KIND == "utrie2": h["layout"] = {"array": d["index"], **{k: d[k] for k in ("indexLength", "highStart", "highValueIndex")}}
        else: h["layout"] = {"index": d["index"], "data": [enc(v) for v in d["data"]], "fast": d["trieType"] == 0, "highStart": d["highStart"]}
        cs = sorted({rnd.randrange(CPLIMIT) for _ in range(200)} | {rnd.randrange(lo, hi + 1) for _ in range(200)} | set(starts))
        events.append({"k": "layout", "st": "ok", "cs": cs})
    def construct():
        if KIND == "utrie2":
            from UnicodeData.Utrie2 import UTrie2
            return UTrie2(d["index"], d["indexLength"], d["index2NullOffset"], d["dataNullOffset"], d["highStart"],
                          d["highValueIndex"], d["initialValue"])
        from UnicodeData.CPTrie import CPTrie
        if n % 3 == 0 and d["highStart"] % 512 == 0: return CPTrie.createFromData(tries.serialize(d))
        return CPTrie(d["index"], d["data"], d["trieType"], d["valueWidth"], d["index3NullOffset"], d["dataNullOffset"],
                      d["highStart"], d["shifted12HighStart"])
    st, trie = guarded(20, construct)
    if st != "ok":
        events.append({"k": "make", "st": st})
        return h
    s, l = (min(point(plan[k]), CPLIMIT) for k in ("start", "limit"))
    if plan["limit"] > plan["start"] and rnd.random() < .5: l = max(l, s + 1)
    for s, l in [(s, l), (rnd.choice([0, s]), CPLIMIT)]:
        runs = []
        def go():
            for r, v in trie.enumerator(s, l):
                ok = type(r) is range and r.step == 1
                runs.append([small(r.start), small(r.stop), enc(v)] if ok else [-9, -9, enc(v)])
                if len(runs) > 60000: return
        st, _ = guarded(20, go)
        events.append({"k": "enum", "st": st, "s": s, "l": l, "fn": "id", "bits": 0, "by": 0, "at": 0, "off": 0, "runs": runs})
    return h


def main():
    plans = [json.loads(l) for l in open(PLANS)]
    with multiprocessing.Pool(8) as pool:
        hs = pool.map(history, enumerate(plans), chunksize=20)
    writeJson(OUT, hs)


if __name__ == "__main__": main()
