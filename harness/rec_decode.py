"""Records the property getters over generated data modules for
spec/DecodersTrace.tla.

usage: rec_decode.py OUT (case|bidi|char)
"""
import bisect, multiprocessing
import tries
from common import *

OUT, KIND = sys.argv[1:3]
TABLES = 300 if THOROUGH else 96
CALLS = 1200
MAX = CPLIMIT - 1
MODULE = {"case": "CaseProps", "bidi": "BidiProps", "char": "CharProps"}[KIND]
PICK = [0, 0x41, 0x61, 0x130, 0x131, 0x587, 0x3A3, 0x7F, 0x80, 0xA0, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10400,
        0x1E900, 0x10130, 0x20130, 0x10587, 0x100587, 0x10FFFF]


def bits(v): return [i for i in range(v.bit_length()) if v >> i & 1]


def someCode(rnd):
    x = rnd.random()
    return rnd.choice(PICK) if x < .2 else rnd.randrange(0x600) if x < .5 else rnd.randrange(0x10000) if x < .75 else rnd.randrange(CPLIMIT)


def places(rnd, count):
    """Disjoint runs of code points that are to have words of their own."""
    runs, taken = [], set()
    for c in PICK[:0] + [rnd.choice(PICK) for _ in range(6)] + [someCode(rnd) for _ in range(count)]:
        n = rnd.choice([1, 1, 1, 2, 3, 26, 33])
        r = range(c, min(CPLIMIT, c + n))
        if taken.isdisjoint(r): taken.update(r); runs.append(r)
    return sorted(runs, key=lambda r: r.start)


def trie(rnd, runs, words, default):
    """Arguments of UTrie2 for a map with a word on each run, and the default between."""
    starts, vals = [0], [default]
    for r, w in zip(runs, words):
        starts += [r.start, r.stop]; vals += [w, default]
    if starts[-1] == CPLIMIT: starts.pop(); vals.pop()
    keep = {}
    for s, v in zip(starts, vals): keep[s] = v       # a run may begin where the last one ends
    m = tries.normalize(sorted(keep), [keep[s] for s in sorted(keep)])
    high = rnd.choice([CPLIMIT, -(-max(0x10000, m[0][-1]) // 0x800) * 0x800])
    high = min(high, CPLIMIT)
    if high < m[0][-1]: high = CPLIMIT
    opts = dict(share=rnd.choice([0, 1, 2, 2]) if len(runs) < 60 else 2, overlap=rnd.random() < .3, null=rnd.random() < .9, nullUse=1, null2=rnd.random() < .8,
                junk=rnd.random() < .3, units=rnd.random() < .3, late=rnd.random() < .7)
    t = tries.buildUTrie2(rnd, m, default, high, rnd.choice([0, default]), opts)
    return (m, t) if t else trie(rnd, runs, words, default)


def module(lines): return "".join(f"{n} = {v!r}\n" for n, v in lines)
def trieNames(prefix, t, index="{}_trieIndex", rest="{}_trie"):
    r = rest.format(prefix)
    return [(index.format(prefix), t["index"]), (r + "_index_length", t["indexLength"]), (r + "_index_2_null_offset", t["index2NullOffset"]),
            (r + "_data_null_offset", t["dataNullOffset"]), (r + "_high_start", t["highStart"]), (r + "_high_value_index", t["highValueIndex"])]


# ---------------------------------------------------------------- case
def utf16(cs):
    b = "".join(map(chr, cs)).encode("utf-16-le", "surrogatepass")
    return list(struct.unpack(f"<{len(b) // 2}H", b))


def fullString(rnd):
    n = rnd.choice([0, 0, 1, 2, 3, 15])
    out = []
    while len(out) < n:
        c = rnd.choice([rnd.randrange(0x20, 0xD800), rnd.randrange(0xE000, 0x10000), 0x10400 + rnd.randrange(99), rnd.randrange(0x10000, CPLIMIT)])
        u = utf16([c])
        if len(out) + len(u) <= n: out += u
    return out


def exception(rnd, run, which=None):
    slots = [k for k in range(8) if rnd.random() < rnd.choice([.2, .5, .9])]
    if which is not None: slots = bits(which)
    elif rnd.random() < .6 and 4 in slots: slots.remove(4)
    double = rnd.random() < .35
    top = MAX if double else 0xFFFF
    word = sum(1 << k for k in slots) | double << 8
    for b, p in ((9, .3), (10, .5), (11, .3), (12, .3), (13, .3), (14, .12), (15, .2)):
        if b == 14 and run.start & 0xFF in (0x30, 0x87): p = .6         # the mapping is conditional; two code points have their own
        if rnd.random() < p and (which is None or b < 14): word |= 1 << b
    vals, strings = [], []
    for k in slots:
        if k == 4:
            room = min(top, run.start if word >> 10 & 1 else MAX - (run.stop - 1))
            v = rnd.choice([0, 1, rnd.randrange(room + 1), room, min(room, 0x8000 + rnd.randrange(0x8000))]) if room else 0
        elif k == 6: v = rnd.randrange(16) | rnd.randrange(0x1000) << 4
        elif k == 7:
            parts = [fullString(rnd) for _ in range(4)]
            v = sum(len(p) << 4 * i for i, p in enumerate(parts))
            strings = sum(parts, [])
        elif k == 5: v = rnd.randrange(top + 1)
        else: v = min(top, someCode(rnd) if rnd.random() < .8 else rnd.randrange(top + 1))
        vals += [v >> 16, v & 0xFFFF] if double else [v]
    return [word, *vals, *strings, *[rnd.randrange(0x10000) for _ in range(rnd.choice([0, 0, 3]))]]


def caseTables(rnd, n):
    full = n % 20 == 0                                  # every combination of slots in front of full mappings
    runs = places(rnd, 300 if full else rnd.choice([20, 60, 130]))
    exceptions, words = [], []
    exceptions += [rnd.randrange(0x10000) for _ in range(rnd.choice([0, 0, 5]))]
    exc, far = rnd.choice([.3, .7, .95]), rnd.random() < .3 and not full
    if full: exc = 1
    for i, r in enumerate(runs):
        low = rnd.choice([0, 1, 1, 2, 2, 3]) | (rnd.random() < .3) << 2
        if rnd.random() < exc:
            if far and len(exceptions) < 2040 and rnd.random() < .1: exceptions += [0xFFFF] * 2000
            x = exception(rnd, r, 128 | i % 128 if full else None)
            if len(exceptions) > 4095: words.append(low); continue
            words.append(low | 8 | len(exceptions) << 4)
            exceptions += x
        else:
            d = rnd.choice([0, 1, -1, 32, -32, 255, -256, -255, rnd.randrange(-256, 256)])
            if not (0 <= r.start + d and r.stop - 1 + d <= MAX): d = 0
            words.append(low | rnd.randrange(8) << 4 | (d & 0x1FF) << 7)
    default = rnd.choice([0, 0, 1, 2, 0x64])
    m, t = trie(rnd, runs, words, default)
    exceptions = exceptions or [0]
    indexes = [16, 0, 0, len(exceptions), 0] + [0] * 11
    text = module([("ucase_props_indexes", indexes), ("ucase_props_exceptions", exceptions), ("ucase_props_unfold", [0, 1, 2])]
                  + trieNames("ucase_props", t))
    return m, {"CasePropsData": text}, {"exceptions": exceptions}, runs


# ---------------------------------------------------------------- bidi
def bidiTables(rnd, n):
    runs = places(rnd, rnd.choice([20, 60, 130]))
    words, escaped = [], []
    for r in runs:
        d = rnd.choice([0, 0, 1, -1, 2, -2, 3, -3, -4])
        if not (0 <= r.start + d and r.stop - 1 + d <= MAX): d = 0
        if d == -4: escaped += list(r)
        words.append(rnd.randrange(1 << 13) | (d & 7) << 13)
    sources = sorted(set(rnd.sample(escaped, max(1, len(escaped) * 3 // 4)) if escaped else []) | {someCode(rnd) for _ in range(rnd.choice([2, 9, 40]))})
    mirrors = [c | rnd.randrange(len(sources)) << 21 for c in sources]
    a, b = sorted(rnd.sample(range(0x400, 0x20000), 2))
    n1, n2 = rnd.choice([0, 1, 40]), rnd.choice([0, 1, 77])
    a = max(0, min(a, b - n1))
    g1, g2 = [[rnd.choice([0, 1, rnd.randrange(105)]) for _ in range(n)] for n in (n1, n2)]
    if rnd.random() < .2: b, n2, g2 = 0, 0, []
    indexes = [16, 0, 0, len(mirrors), a, a + n1, b, b + n2] + [0] * 7 + [0x6502B6]
    m, t = trie(rnd, runs, words, rnd.choice([0, 0, 5, 0x12]))
    text = module([("ubidi_props_indexes", indexes), ("ubidi_props_mirrors", mirrors), ("ubidi_props_jgArray", g1), ("ubidi_props_jgArray2", g2)]
                  + trieNames("ubidi_props", t))
    groups = [{"start": a, "values": g1}, {"start": b, "values": g2}]
    near = [range(max(0, p - 1), p + 1) for p in (a, a + n1, b, b + n2)] + [range(a, a + n1), range(b, b + n2)] + [range(c, c + 1) for c in sources]
    return m, {"BidiPropsData": text}, {"mirrors": [bits(v) for v in mirrors], "groups": groups}, runs + [r for r in near if len(r)] * 2


# ---------------------------------------------------------------- char
def charTables(rnd, n):
    runs, runs2 = places(rnd, rnd.choice([20, 60, 130])), places(rnd, rnd.choice([20, 60]))
    edges = [0, 1, 10, 11, 20, 21, 175, 176, 479, 480, 767, 768, 803, 804, 827, 828, 843, 844, 1023]
    kinds = [range(1, 21), range(21, 176), range(176, 480), range(480, 768), range(768, 804), range(804, 844)]
    def word(): return rnd.randrange(30) | rnd.choice([0, 0, 32]) | rnd.choice([0, 0, rnd.choice(edges), rnd.choice(rnd.choice(kinds)), rnd.choice(rnd.choice(kinds))]) << 6
    columns, count = rnd.choice([3, 3, 3, 4, 5]), rnd.choice([5, 30, 80])
    extensions = [rnd.randrange(200) for _ in range(rnd.choice([1, 40, 600]))]
    vectors = []
    for _ in range(count):
        v = [rnd.randrange(1 << 32) if rnd.random() < .8 else rnd.choice([0, 0xFFFFFFFF]) for _ in range(columns)]
        x, code = rnd.randrange(4), rnd.choice([rnd.randrange(256), rnd.randrange(1024), 0x1FF, 0xFF, 0x100])
        if x == 3: code = rnd.randrange(len(extensions))
        v[0] = v[0] & ~0xF000FF | (code & 0xFF) | (code >> 8) << 20 | x << 22
        vectors += v
    m, t = trie(rnd, runs, [word() for _ in runs], word())
    m2, t2 = trie(rnd, runs2, [columns * rnd.randrange(count) for _ in runs2], columns * rnd.randrange(count))
    text = module([*trieNames("propsTrie", t, "{}_index", "{}"), *trieNames("propsVectorsTrie", t2, "{}_index", "{}"),
                   ("propsVectors", vectors), ("propsVectorsColumns", columns), ("scriptExtensions", extensions)])
    return (m, m2), {"CharPropsData": text}, {"vectors": [bits(v) for v in vectors], "columns": columns, "extensions": extensions}, runs + runs2


# ---------------------------------------------------------------- calls
def asInt(v): return small(v) if isinstance(v, int) else -999999999
def asBit(v): return 1 if v else 0
def asAge(v):
    ok = isinstance(v, (list, tuple)) and len(v) == 4 and all(isInt(x) for x in v) and 0 <= v[1] < 100 and 0 <= v[0] < 1000 and tuple(v[2:]) == (0, 0)
    return v[0] * 100 + v[1] if ok else -999999999
def asCodes(v): return [small(v)] if isinstance(v, int) else [ord(x) for x in v] if type(v) is str else [-9]
def asBits(v): return bits(v) if isInt(v) and v >= 0 else [99]

CLASSES = """isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase iscntrl
 isISOControl isspace isJavaSpaceChar isWhiteSpace isUWhiteSpace isBlank isPrint isPrintPOSIX isgraph isGraphPOSIX ispunct
 isIDStart isIDPart isIDIgnorable isJavaIDStart isJavaIDPart isExtendedPictograph isEmojiComponent isEmoji isEmojiPresentation
 isEmojiModifier isEmojiModifierBase""".split()
# classes of these code points follow from what they are (C02 has them all)
FIXED = {0x2007, 0x202F, *range(0xFF21, 0xFF27), *range(0xFF41, 0xFF47)}
NUMBERS = """getGeneralCategory getNumericTypeValue getNumericType digitValue getScript getBlock getEastAsianWidth getLineBreak
 getSentenceBreak getWordBreak getGraphemeClusterBreak getDecompType""".split()
FUNCTIONS = {
    "case": [(f, asCodes) for f in ("toLower", "toUpper", "toTitle", "toFullLower", "toFullUpper", "toFullTitle") * 2]
            + [(f, lambda v: [asInt(v)]) for f in ("getTypeFromProps", "getTypeAndIgnorableFromProps")] + [("isUpperOrTitle", lambda v: [asBit(v)])],
    "bidi": [(f, asInt) for f in ("getCharDirection", "getJoiningType", "getJoiningGroup", "getPairedBracketType", "getMirror", "getPairedBracket", "getMirror",
                                  "getPairedBracket", "getJoiningGroup")]
            + [(f, asBit) for f in ("isMirrored", "isBidiControl", "isJoinControl")],
    "char": [(f, asBit) for f in CLASSES] + [(f, asInt) for f in NUMBERS * 3] + [("getAge", asAge)] * 3 + [("getNumericValue", asNumber)] * 6
            + [("getBinaryProp", asBit)] * 8 + [("getUnicodeProperties", asBits)] * 4}[KIND]


def at(m, c): return m[1][bisect.bisect_right(m[0], c) - 1]


def history(n):
    rnd = random.Random(f"{SEED}-decode-{KIND}-{n}")
    m, texts, t, runs = {"case": caseTables, "bidi": bidiTables, "char": charTables}[KIND](rnd, n)
    dst = overlay(tempfile.mkdtemp(), b"")
    replaceModules(dst, texts)
    st, mod = loadModule("UnicodeData." + MODULE)
    h = {"kind": KIND, "t": t, "events": []}
    if st != "ok":
        h["events"].append({"f": "import", "st": st, "c": 0, "w": 0, "i": 0, "args": [], "v": []})
        return h
    calls = [(c, f) for r in runs for c in {r.start, r[-1], rnd.choice(r)} for f in rnd.sample(FUNCTIONS, 6)]
    calls += [(rnd.choice([someCode(rnd), rnd.choice(rnd.choice(runs)), rnd.choice(runs).stop % CPLIMIT]), rnd.choice(FUNCTIONS)) for _ in range(CALLS // 3)]
    first = [(r.start, (f, asCodes)) for r in runs for f in ("toFullLower", "toFullUpper")] if KIND == "case" and n % 20 == 0 else []
    if KIND == "char": calls += [(r.start, ("getNumericValue", asNumber)) for r in runs]
    rnd.shuffle(calls)
    for c, (f, enc) in first + calls[:CALLS]:
        if f in CLASSES and (c < 0xA1 or c in FIXED): continue
        e = {"f": f, "c": c, "i": 0, "args": []}
        if KIND == "char": e["w"], e["i"] = at(m[0], c), at(m[1], c)
        else: e["w"] = at(m, c)
        if f == "getBinaryProp": e["args"] = [rnd.choice([rnd.randrange(32), 31, 32, 33, 40])] + rnd.choice([[], [0], [1], [2]])
        if f == "getUnicodeProperties": e["args"] = [rnd.randrange(6)]
        x = e["w"] if f.endswith("FromProps") or f == "isUpperOrTitle" else c
        e["st"], v = guarded(5, method(mod, f), x, *e["args"])
        e["neg"] = isInt(v) and v < 0
        e["v"] = enc(v) if e["st"] == "ok" else []
        h["events"].append(e)
    return h


def main():
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        writeJson(OUT, pool.map(history, range(TABLES), chunksize=1))


if __name__ == "__main__": main()
