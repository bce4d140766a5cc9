"""Records property getters over the whole code space for spec/CodeSpaceTrace.tla.

usage: rec_char.py OUT PROPERTY
"""
import gzip, importlib, json, multiprocessing, sys, tempfile
from common import *

OUT, PROP = sys.argv[1:3]
MIXED = 40000 if THOROUGH else 6000
WRONG = -999999999                       # what is not an int at all

# ---- how an observed value is written down
def asInt(v): return small(v) if isinstance(v, int) else WRONG
def asBit(v): return 1 if v else 0
def asAge(v):
    if isinstance(v, (list, tuple)) and len(v) == 4 and all(isinstance(x, int) for x in v) \
            and 0 <= v[1] < 100 and 0 <= v[0] < 1000 and tuple(v[2:]) == (0, 0): return v[0] * 100 + v[1]
    return WRONG
def asText(v):
    """= for the character itself (see sweep), otherwise its code points in hex"""
    if v == "=" or v == "skip": return v
    return " ".join(f"{ord(x):04X}" for x in v) if type(v) is str else "type"
SURROGATES = range(0xD800, 0xE000)

# ---- getters: name -> (module, function or None, extra args, encoding, rule, reference map)
def G(name, module, rule, ref, enc=asInt, args=(), fn=None, rel=None, via=None):
    return dict(name=name, module=module, fn=fn or name, args=args, enc=enc, rule=rule, ref=ref, rel=rel, via=via)

# results relative to the code point itself
def byDelta(v, c): return v - c if isinstance(v, int) else None
def bySelf(v, c): return "=" if type(v) is str and v == chr(c) else None if v in ("=", "skip") else v

BINARY = ["White_Space", "Dash", "Hyphen", "Quotation_Mark", "Terminal_Punctuation", "Math", "Hex_Digit", "ASCII_Hex_Digit",
          "Alphabetic", "Ideographic", "Diacritic", "Extender", "Noncharacter_Code_Point", "Grapheme_Extend", "Grapheme_Link",
          "IDS_Binary_Operator", "IDS_Trinary_Operator", "Radical", "Unified_Ideograph", "Default_Ignorable_Code_Point",
          "Deprecated", "Logical_Order_Exception", "XID_Start", "XID_Continue", "ID_Start", "ID_Continue", "Grapheme_Base",
          "Sentence_Terminal", "Variation_Selector", "Pattern_Syntax", "Pattern_White_Space", "Prepended_Concatenation_Mark"]
# bit numbers of uprops.h, column 2
EMOJI = {"Extended_Pictographic": (26, "isExtendedPictograph"), "Emoji_Component": (27, "isEmojiComponent"), "Emoji": (28, "isEmoji"),
         "Emoji_Presentation": (29, "isEmojiPresentation"), "Emoji_Modifier": (30, "isEmojiModifier"),
         "Emoji_Modifier_Base": (31, "isEmojiModifierBase")}
CLASSES = """isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase iscntrl
 isISOControl isspace isJavaSpaceChar isWhiteSpace isUWhiteSpace isBlank isPrint isPrintPOSIX isgraph isGraphPOSIX ispunct
 isIDStart isIDPart isIDIgnorable isJavaIDStart isJavaIDPart""".split()

CP, BP, KP = "UnicodeData.CharProps", "UnicodeData.BidiProps", "UnicodeData.CaseProps"
GETTERS = {
    "C01": [G("getGeneralCategory", CP, "same", "gc"),
            G("propsTrie.enumerator(generalCategoryFromProps)", CP, "same", "gc", fn="*generalCategoryFromProps", via="propsTrie")],
    "C02": [G(f, CP, "class", f, asBit) for f in CLASSES],
    "C03": [G("getAge", CP, "same", "age", asAge), G("getScript", CP, "same", "sc"), G("getBlock", CP, "same", "blk"),
            G("getEastAsianWidth", CP, "same", "ea"), G("getLineBreak", CP, "same", "lb"), G("getSentenceBreak", CP, "same", "SB"),
            G("getWordBreak", CP, "same", "WB"), G("getGraphemeClusterBreak", CP, "same", "GCB"), G("getDecompType", CP, "same", "dt")],
    "C04": [G(f"getBinaryProp {i}", CP, "same", "bin." + b, asBit, (i,), "getBinaryProp") for i, b in enumerate(BINARY)]
           + [G(f"getBinaryProp {i} 2", CP, "same", "bin." + b, asBit, (i, 2), "getBinaryProp") for b, (i, _) in EMOJI.items()]
           + [G(f, CP, "same", "bin." + b, asBit) for b, (_, f) in EMOJI.items()]
           + [G(f"getUnicodeProperties {n}", CP, "zero", "", asInt, (n,), "getUnicodeProperties") for n in (3, 4, 9)],
    "C05": [G("getNumericType", CP, "numtype", "numeric"), G("getNumericValue", CP, "number", "numeric", asNumber),
            G("digitValue", CP, "digit", "numeric")],
    "K01": [G(f, KP, "same", "case." + r, rel=byDelta) for f, r in (("toLower", "lower"), ("toUpper", "upper"), ("toTitle", "title"))],
    "K02": [G(f, KP, "same", "full." + r, asText, rel=bySelf)
            for f, r in (("toFullLower", "lower"), ("toFullUpper", "upper"), ("toFullTitle", "title"))],
    "K03": [G("getTypeFromProps", KP, "case", "type", via="casePropsTrie"),
            G("getTypeAndIgnorableFromProps", KP, "case", "ignorable", via="casePropsTrie"),
            G("isUpperOrTitle", KP, "case", "upper", asBit, via="casePropsTrie"),
            G("casePropsTrie.enumerator(getTypeFromProps)", KP, "case", "type", fn="*getTypeFromProps", via="casePropsTrie"),
            G("casePropsTrie.enumerator(getTypeAndIgnorableFromProps)", KP, "case", "ignorable", fn="*getTypeAndIgnorableFromProps", via="casePropsTrie"),
            G("casePropsTrie.enumerator(isUpperOrTitle)", KP, "case", "upper", asBit, fn="*isUpperOrTitle", via="casePropsTrie")],
    "B01": [G("getCharDirection", BP, "same", "bc"), G("isBidiControl", BP, "same", "bin.Bidi_Control", asBit),
            G("isJoinControl", BP, "same", "bin.Join_Control", asBit), G("isMirrored", BP, "same", "bin.Bidi_Mirrored", asBit),
            G("getJoiningType", BP, "same", "jt"), G("getJoiningGroup", BP, "same", "jg")],
    "B02": [G("getMirror", BP, "same", "bmg", rel=byDelta), G("getPairedBracket", BP, "same", "bpb", rel=byDelta),
            G("getPairedBracketType", BP, "same", "bpt"), G("isMirrored", BP, "same", "bin.Bidi_Mirrored", asBit)],
    "L01": [G("getInPC", "UnicodeData.LayoutProps", "same", "InPC"), G("getInSC", "UnicodeData.LayoutProps", "same", "InSC"),
            G("getVO", "UnicodeData.LayoutProps", "same", "vo")],
}[PROP]

def references():
    if PROP == "L01":
        lay = json.load(gzip.open(os.path.join(DATA, "icu74.json.gz")))["layout"]
        m = {"InPC": lay["Indic_Positional_Category"], "InSC": lay["Indic_Syllabic_Category"], "vo": lay["Vertical_Orientation"]}
    else:
        m = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["maps"]
    if PROP == "K02":
        full = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["full"]
        for n, t in full.items():
            at = {int(c, 16): asText("".join(map(chr, v))) for c, v in t.items()}
            at.update({c: "skip" for c in SURROGATES})
            m["full." + n] = rle(at.get(c, "=") for c in range(CPLIMIT))
    def form(name): return {"starts": m[name][0], "vals": m[name][1]}
    if PROP == "C02":
        return {"gc": form("gc"), "alphabetic": form("bin.Alphabetic"), "whitespace": form("bin.White_Space")}
    if PROP == "K03":
        return {"gc": form("gc"), "uppercase": form("bin.Uppercase"), "lowercase": form("bin.Lowercase"), "WB": form("WB")}
    return {g["ref"]: form(g["ref"]) for g in GETTERS if g["rule"] != "zero"}


SPECIAL = [*range(0xA2), 8199, 8200, 8239, 8240, 65313, 65319, 65345, 65351]
def refinement(ref):
    starts = sorted(set(SPECIAL).union(*(m["starts"] for m in ref.values())))
    cols = {}
    for n, m in ref.items():
        k, col = 0, []
        S, V = m["starts"], m["vals"]
        for c in starts:
            while k + 1 < len(S) and S[k + 1] <= c: k += 1
            col.append(V[k])
        cols[n] = col
    return {"starts": starts, "cols": cols}


_scratch = None
def function(g):
    st, m = loadModule(g["module"])
    if st != "ok": return st, None
    try:
        f = getattr(m, g["fn"])
        if not g["via"]: return "ok", f
        trie = getattr(m, g["via"])
        return "ok", lambda c: f(trie.get(c))
    except AttributeError: return "missing", None


def run(g, s, e, v): return {"k": "run", "st": "ok", "g": g["name"], "s": s, "e": e, "v": v}
def failed(g, st, at=0): return {"k": "run", "st": st, "g": g["name"], "s": small(at), "e": small(at) + 1, "v": 0}


def sweep(g):
    if isinstance(g, int): g = GETTERS[g]
    enc, args, rel = g["enc"], g["args"], g["rel"]
    events = []
    at = [0]
    if g["fn"][0] == "*":
        st, m = loadModule(g["module"])
        def go():
            for r, v in getattr(m, g["via"]).enumerator(valueFunction=getattr(m, g["fn"][1:])):
                events.append(run(g, r.start, r.stop, enc(v)))
                at[0] = r.stop
    else:
        st, f = function(g)
        def go():
            last, start = None, 0
            for c in range(CPLIMIT):
                at[0] = c
                if rel is bySelf and 0xD800 <= c < 0xE000: v = "skip"
                else:
                    v = f(c, *args)
                    if rel: v = rel(v, c)
                if v is not last and (v != last or type(v) is not type(last)) or c == 0:
                    if c: events.append(run(g, start, c, enc(last)))
                    last, start = v, c
                    if len(events) > 150000: raise OverflowError("too many runs")
            events.append(run(g, start, CPLIMIT, enc(last)))
    if st == "ok": st, _ = guarded(200, go)
    if st != "ok": events.append(failed(g, st, at[0]))
    return {"g": g["name"], "sweep": 1, "events": events or [failed(g, "empty")]}


def mixed(seed):
    """Calls of all getters in random order, at interesting code points."""
    rnd = random.Random(f"{SEED}-{PROP}-{seed}")
    ref = references()
    pts = sorted({p for m in ref.values() for s in m["starts"] for p in (s - 1, s, s + 1) if 0 <= p < CPLIMIT})
    fs = [(g, function(g)[1]) for g in GETTERS if g["fn"][0] != "*"]
    events = []
    for _ in range(MIXED // 4):
        c = rnd.choice(pts) if rnd.random() < .8 else rnd.randrange(CPLIMIT)
        g, f = rnd.choice(fs)
        for x in ([c] if rnd.random() < .8 else [c, c, c ^ 1, c]):
            if f is None or PROP == "K02" and x in SURROGATES: continue
            st, v = guarded(5, f, x, *g["args"])
            if st == "ok":
                if g["rel"]: v = g["rel"](v, x)
                events.append(run(g, x, x + 1, g["enc"](v)))
            else: events.append(failed(g, st, x))
    return {"g": "-", "sweep": 0, "events": events}


def encodings():
    """numericValueFromProps and numericTypeFromProps on every type-value code."""
    import UnicodeData.CharProps as m
    events = []
    for n in range(1024):
        for low in (9, 0, 0x3F, 0x2A):
            p = n << 6 | low
            st, v = guarded(5, method(m, "numericValueFromProps"), p)
            st2, t = guarded(5, method(m, "numericTypeFromProps"), p)
            events.append({"k": "encoding", "st": st if st != "ok" else st2, "n": n, "v": asNumber(v) if st == "ok" else "", "t": asInt(t)})
    return {"g": "encodings", "sweep": 0, "events": events}


LAYOUTS = 160 if THOROUGH else 16
def layout(n):
    """The getters of LayoutProps over the n-th generated ulayout.icu."""
    import tries
    rnd = random.Random(f"{SEED}-layout-{n}")
    maps, bodies = [], []
    while len(maps) < 3:
        fast, width = rnd.random() < .5, rnd.choice([8, 8, 16, 32])
        opts = dict(share=rnd.choice([0, 1, 2, 2]), overlap=rnd.random() < .5, null=rnd.random() < .75, nullUse=rnd.choice([1, 1, .5]),
                    null2=rnd.random() < .8, null3=rnd.random() < .8, junk=rnd.random() < .5, units=False, wide=False,
                    force18=rnd.random() < .2, short2=rnd.random() < .5, late=rnd.random() < .7)
        high = rnd.choice([CPLIMIT, 0x10FE00, 0x10200, 0x10000, 0x1000, 0x200, 0, 0x200 * rnd.randrange(2, 2176), 0x200 * rnd.randrange(128, 400)])
        pool = rnd.choice([[0, 1, 2, 3], [0, 7, 15, 31], [rnd.randrange(256) for _ in range(9)]])
        m, initial = tries.randomMap(rnd, pool, high, rnd.choice([3, 10, 30]), None)
        if m[0][-1] > high: continue
        t = tries.buildCPTrie(rnd, m, initial, high, rnd.choice(pool), fast, width, opts)
        if t is None: continue
        b = tries.serialize(t)
        maps.append(m); bodies.append(b + b"\xaa" * (-len(b) % 16))
    count = rnd.choice([12, 12, 16])
    tops, at = [], 4 * count
    for b in bodies: at += len(b); tops.append(at)
    indexes = [count, *tops, *[at] * 4, 0, rnd.randrange(1 << 32), rnd.randrange(1 << 32)]
    indexes += [0] * (count - len(indexes))
    items = icuItems()
    items["ulayout.icu"] = dataHeader(b"Layo") + struct.pack(f"<{count}I", *indexes) + b"".join(bodies)
    overlay(tempfile.mkdtemp(), variedPackage(rnd, items))
    hs, refs, getters = [], {}, {}
    for g, m in zip(GETTERS[:3], maps):
        ref = f"{g['ref']} {n}"
        refs[ref] = {"starts": list(m[0]), "vals": list(m[1])}
        g = dict(g, name=f"{g['name']} {n}", ref=ref)
        getters[g["name"]] = {"rule": "same", "ref": ref}
        h = sweep(g)
        hs.append(h)
    return hs, refs, getters


def task(t):
    return sweep(t[1]) if t[0] == "sweep" else mixed(t[1]) if t[0] == "mixed" else encodings()


def main():
    scratch = tempfile.mkdtemp()
    if PROP == "L01": overlay(scratch)
    else: sys.path.insert(0, REPO)
    tasks = [("sweep", i) for i in range(len(GETTERS))] + [("mixed", i) for i in range(4)]
    if PROP == "C05": tasks.append(("encodings",))
    with multiprocessing.Pool(8) as pool:
        hs = pool.map(task, tasks, chunksize=1)
    ref = references()
    extra = {}
    if PROP == "L01":
        with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
            for h, r, gs in pool.map(layout, range(LAYOUTS), chunksize=1):
                hs += h; ref.update(r); extra.update(gs)
    out = {"ref": ref, "getters": extra | {g["name"]: {"rule": g["rule"], "ref": g["ref"]} for g in GETTERS},
           "histories": [h for h in hs if h["events"]]}
    if PROP in ("C02", "K03"): out["joint"] = refinement(ref)
    writeJson(OUT, out)


if __name__ == "__main__": main()
