"""Records interleavings of clients of the real library for spec/IsolationTrace.tla.

usage: rec_isolation.py OUT PLANS

The plans are behaviours of spec/IsolationGen.tla.  Every plan is replayed in
a process of its own: half of them by one thread, in the order of the plan,
and half with a thread per client.  The answers that the model starts from
come from processes that ask for one thing only.
"""
import hashlib, multiprocessing, sys, tempfile, threading, time
from common import *

OUT, PLANS = sys.argv[1:3]
rnd = random.Random(f"{SEED}-isolation")
KEEP = 600                                     # answers of an iterator that are compared

overlay(tempfile.mkdtemp())
MODULES = ("CharProps", "CaseProps", "BidiProps", "LayoutProps", "CharNames", "Normalizer2", "Utilities", "UnicodeSet", "ICUDataFile")
M, SETS = {}, []
NAMES = ["SPACE", "DIGIT ONE", "LATIN SMALL LETTER A", "TILDE", "COPYRIGHT SIGN"]


def load(n):
    st, m = loadModule("UnicodeData." + n)
    M[n] = m if st == "ok" else None


CHAR = """getGeneralCategory isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase
 iscntrl isISOControl isspace isJavaSpaceChar isWhiteSpace isUWhiteSpace isBlank isPrint isPrintPOSIX isgraph isGraphPOSIX ispunct
 isIDStart isIDPart isIDIgnorable isJavaIDStart isJavaIDPart digitValue getNumericType getNumericValue getAge getAge getScript
 getBlock getEastAsianWidth getLineBreak getSentenceBreak getWordBreak getGraphemeClusterBreak getDecompType isExtendedPictograph
 isEmojiComponent isEmoji isEmojiPresentation isEmojiModifier isEmojiModifierBase""".split()
CASE = "toLower toUpper toTitle toFullLower toFullUpper toFullTitle".split()
BIDI = """getCharDirection isMirrored getMirror isBidiControl isJoinControl getJoiningType getJoiningGroup getPairedBracketType
 getPairedBracket""".split()
LAYOUT = "getInPC getInSC getVO".split()
UTIL = "isUnicodeNoncharacter isSurrogate isSurrogateLead isSurrogateTrail isLead isTrail surrogatesFromChar highBit".split()


def functions():
    """(name, function of one code point)"""
    fs = [(f"{mod}.{f}", lambda c, mod=mod, f=f: getattr(M[mod], f)(c))
          for mod, names in (("CharProps", CHAR), ("CaseProps", CASE), ("BidiProps", BIDI), ("LayoutProps", LAYOUT), ("Utilities", UTIL))
          for f in names]
    for i in range(32): fs.append((f"getBinaryProp {i}", lambda c, i=i: M["CharProps"].getBinaryProp(c, i)))
    for i in (26, 28, 31): fs.append((f"getBinaryProp {i} 2", lambda c, i=i: M["CharProps"].getBinaryProp(c, i, 2)))
    for i in (0, 1, 2, 3): fs.append((f"getUnicodeProperties {i}", lambda c, i=i: M["CharProps"].getUnicodeProperties(c, i)))
    for mod, trie in (("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("CaseProps", "casePropsTrie"), ("BidiProps", "bidiPropsTrie"),
                      ("LayoutProps", "inpcTrie"), ("LayoutProps", "inscTrie"), ("LayoutProps", "voTrie")):
        fs.append((f"{trie}.get", lambda c, mod=mod, trie=trie: getattr(M[mod], trie).get(c)))
    for z in ("nfcTrie", "nfkcTrie", "nfkc_cfTrie"):
        for f in ("getDecomposition", "getRawDecomposition", "getNorm16", "getRawNorm16"):
            fs.append((f"{z}.{f}", lambda c, z=z, f=f: getattr(getattr(M["Normalizer2"], z), f)(c)))
        for f in ("isInert", "isDecompYes", "isHangulLV", "isHangulLVT", "isJamoL", "isJamoVT", "isDecompNoAlgorithmic", "isMaybeOrNonZeroCC"):
            fs.append((f"{z}.{f}", lambda c, z=z, f=f: getattr(getattr(M["Normalizer2"], z), f)(getattr(M["Normalizer2"], z).getNorm16(c))))
    for ch in (0, 2, 3) * 4: fs.append((f"getCharName {ch}", lambda c, ch=ch: M["CharNames"].CharNames.getCharName(c, ch)))
    for ch in (0, 2, 3, 0, 3):
        fs.append((f"charFromName {ch}", lambda c, ch=ch: M["CharNames"].CharNames.charFromName(NAMES[c % len(NAMES)], ch)))
    for n in ("unames.icu", "ulayout.icu", "nfkc.nrm", "nfkc_cf.nrm"):
        fs.append((f"getDataOffsetAndHeader {n}", lambda c, n=n: M["ICUDataFile"].ICUData().getDataOffsetAndHeader(n)))
    # calls that cannot be answered leave nothing behind either
    for mod, f in (("CharProps", "getGeneralCategory"), ("CharProps", "getScript"), ("CharProps", "getNumericValue"), ("CaseProps", "toFullUpper"),
                   ("BidiProps", "getMirror"), ("BidiProps", "getJoiningGroup"), ("LayoutProps", "getInPC"), ("Utilities", "highBit")):
        fs.append((f"{mod}.{f} strange", lambda c, mod=mod, f=f: getattr(M[mod], f)((None, chr(c), [c], c + .5)[c % 4])))
    for z in ("nfcTrie", "nfkcTrie"):
        for f in ("getDecomposition", "getRawDecomposition"):
            fs.append((f"{z}.{f} strange", lambda c, z=z, f=f: getattr(getattr(M["Normalizer2"], z), f)((None, chr(c), [c])[c % 3])))
    fs.append(("getCharName strange", lambda c: M["CharNames"].CharNames.getCharName((None, chr(c), [c])[c % 3])))
    fs.append(("charFromName strange", lambda c: M["CharNames"].CharNames.charFromName((None, c, [chr(c)])[c % 3])))
    for n in ("nothere.icu", "", "unames"):
        fs.append((f"getDataOffsetAndHeader {n}", lambda c, n=n: M["ICUDataFile"].ICUData().getDataOffsetAndHeader(n)))
    for k in range(len(SETS)):
        fs += [(f"set {k} strange", lambda c, k=k: SETS[k].union((None, c, chr(c), [c])[c % 4])),
               (f"set {k} == strange", lambda c, k=k: SETS[k] == (None, c, chr(c), [c])[c % 4])]
        fs += [(f"set {k} contains", lambda c, k=k: SETS[k].contains(c)), (f"set {k} in", lambda c, k=k: range(c, c + 9) in SETS[k]),
               (f"set {k} indexOf", lambda c, k=k: SETS[k].indexOf(c)), (f"set {k} charAt", lambda c, k=k: SETS[k].charAt(c & 0xFFF)),
               (f"set {k} size", lambda c, k=k: SETS[k].size()), (f"set {k} str", lambda c, k=k: str(SETS[k])),
               (f"set {k} copy", lambda c, k=k: type(SETS[k])(SETS[k])), (f"set {k} ranges", lambda c, k=k: SETS[k].getRanges())]
        for op in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__", "__xor__"):
            fs.append((f"set {k} {op}", lambda c, k=k, op=op: getattr(SETS[k], op)(SETS[c % len(SETS)])))
    return fs


def iterators():
    """(name, function that makes the iterator)"""
    out = []
    for mod, trie in (("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("CaseProps", "casePropsTrie"), ("BidiProps", "bidiPropsTrie"),
                      ("LayoutProps", "inpcTrie"), ("LayoutProps", "inscTrie"), ("LayoutProps", "voTrie")):
        for s, e in ((0, CPLIMIT), (0x3000, 0x20000), (0x41, 0x3000), (0xD700, 0xE100)):
            for fn in (None, lambda v: v & 0x1F) if mod != "LayoutProps" else (None,):
                kw = {"valueFunction": fn} if fn else {}
                out.append((f"{trie} {s:X} {e:X} {'&' if fn else ''}",
                            lambda mod=mod, trie=trie, s=s, e=e, kw=kw: getattr(M[mod], trie).enumerator(s, e, **kw)))
    # value functions made for one enumeration: alike but for what they hold,
    # that fail for some values, or that use the library themselves
    for mod, trie in (("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("CaseProps", "casePropsTrie"), ("BidiProps", "bidiPropsTrie")):
        def made(bits): return lambda v: v & bits
        def failing(k): return lambda v: 60 // ((v & 15) - k)
        def part(v, bits=0): return v & bits
        for bits, s, e in ((1, 0x20, 0x12000), (3, 0x1E000, CPLIMIT), (0x1F, 0x20, 0x12000), (0x60, 0xE0000, CPLIMIT)):
            out.append((f"{trie} made {bits}", lambda mod=mod, trie=trie, bits=bits, s=s, e=e, made=made: getattr(M[mod], trie).enumerator(s, e, made(bits))))
            out.append((f"{trie} part {bits}", lambda mod=mod, trie=trie, bits=bits, s=s, e=e, part=part: getattr(M[mod], trie).enumerator(s, e, part, bits=bits)))
        for k in (2, 5, 9):
            out.append((f"{trie} failing {k}", lambda mod=mod, trie=trie, k=k, failing=failing: getattr(M[mod], trie).enumerator(0, 0x30000, failing(k))))
        for c in (0x41, 0x3B1, 0x5D0):
            out.append((f"{trie} inner {c}", lambda mod=mod, trie=trie, c=c: getattr(M[mod], trie).enumerator(
                0, 0x3000, lambda v: (v & 7) + next(iter(getattr(M[mod], trie).enumerator(c, c + 9, lambda w: w & 3)))[1])))
    for z in ("nfcTrie", "nfkcTrie", "nfkc_cfTrie"):
        for s in (0, 0x250): out.append((f"{z} {s:X}", lambda z=z, s=s: getattr(M["Normalizer2"], z).trie.enumerator(s)))
    for ch in (0, 2, 3) * 3: out.append((f"nameIterator {ch}", lambda ch=ch: M["CharNames"].CharNames.nameIterator(ch)))
    for k in range(len(SETS)):
        out.append((f"set {k}", lambda k=k: iter(SETS[k])))
        out.append((f"set {k} ranges", lambda k=k: iter(SETS[k].getRanges())))
    return out


def makeSets():
    US = M["UnicodeSet"].UnicodeSet
    out = [US(), US(0x41), US(range(0, CPLIMIT))]
    for n in (3, 8, 40):
        u = US()
        for _ in range(n):
            s = rnd.choice([rnd.randrange(0x3000), rnd.randrange(CPLIMIT)])
            u.addRange(s, s + rnd.randrange(90))
        out.append(u)
    return out


# points that a careless memory would take for each other
BASES = [0x41, 0x61, 0xE9, 0x130, 0x345, 0x5D0, 0x628, 0x0F0B, 0x3B1, 0x1F80, 0x2460, 0x2160, 0x3042, 0x4E00, 0xAC00, 0xFB03, 0x0, 0x2028]
POINTS = []
for b in rnd.sample(BASES, 6) + [rnd.randrange(0xD700) for _ in range(4)]:
    POINTS.append([b, b + 1, b ^ 0x20, b + 0x100, b + 0x10000, b + 0x20000, b + 0x100000, b ^ 1, (b & 0xFF) + 0x1D400, (b * 7) % CPLIMIT])
FLAT = [p for f in POINTS for p in f]


# functions that are about the same data, and points that are of interest to them
HANGUL = [0xAC00 + k for k in (0, 1, 2, 27, 28, 29, 588, 589, 11000, 11171)]
AREAS = [(("getCharName", "charFromName"), [HANGUL, HANGUL, [0x20, 0x41, 0xE9, 0x4E00, 0x4E01, 0x20000, 0x17000, *HANGUL[:3]]]),
         (("nfcTrie", "nfkcTrie", "nfkc_cfTrie"), [HANGUL, [0xC0, 0x1D6, 0x1EA5, 0x1F82, 0x1D15E, 0x212B, 0xFB2C, 0x2F800, 0x3C8, 0xFDFA]]),
         (("CaseProps",), None), (("BidiProps", "bidiPropsTrie"), None), (("CharProps",), None), (("getBinaryProp", "getUnicode", "props"), None),
         (("LayoutProps", "inpc", "insc", "vo", "getDataOffset"), None), (("set",), None)]


def text(v):
    if type(v).__name__ == "UnicodeSet": v = ("set", [(r.start, r.stop) for r in v.getRanges()])
    elif type(v) is tuple: v = tuple(text(x) if hasattr(x, "__dict__") else x for x in v)
    elif hasattr(v, "__dict__"): v = (type(v).__name__, sorted(vars(v).items()))
    s = repr(v)
    return s if len(s) < 70 and s.isascii() else "#" + hashlib.sha1(s.encode("utf-8", "backslashreplace")).hexdigest()[:16]


def spoil(v):
    if isinstance(v, tuple):
        for x in v: spoil(x)
    elif isinstance(v, list): v.append(-7); v.reverse()
    elif isinstance(v, (dict, set)): v.clear()
    elif type(v).__name__ == "UnicodeSet": v.complement().remove(0x42)
    elif hasattr(v, "__dict__"):
        for n in list(vars(v)): setattr(v, n, -7)


def answer(call):
    try: return text(call())
    except Exception as e: return "raise " + type(e).__name__


def alone(o):
    """Everything that is said to who asks for o only."""
    kind, i, p = o
    if kind == "call":
        st, v = guarded(60, lambda: [answer(lambda: FUNCTIONS[i][1](p))])
    else:
        def go():
            out = []
            try:
                for v in ITERATORS[i][1]():
                    out.append(text(v))
                    if len(out) == KEEP: break
            except Exception as e: out.append("raise " + type(e).__name__)
            return out
        st, v = guarded(120, go)
    return v if st == "ok" else ["hang"]


def ident(o): return FUNCTIONS[o[1]][0] + f" {o[2]:X} {o[1]}" if o[0] == "call" else f"iterator {o[1]} {ITERATORS[o[1]][0]}"


def resolve(n, plan, whole):
    """The steps of a plan with the objects they are about; whole: with those
    that go through all names."""
    family = POINTS[n % len(POINTS)] if n % 3 else rnd.sample(FLAT, 10)
    use = range(len(FUNCTIONS))
    if n // 4 % 2:
        names, points = AREAS[n // 8 % len(AREAS)]
        if points: family = rnd.choice(points)
        use = [i for i in use if FUNCTIONS[i][0].startswith(names)] or use
    its = range(len(ITERATORS))
    if n // 4 % 3:                          # iterators of one trie only
        trie = rnd.choice(sorted({x.split()[0] for x, _ in ITERATORS}))
        its = [i for i in its if ITERATORS[i][0].split()[0] == trie]
    shift = rnd.randrange(9999)
    steps, place, given = [], {}, set()
    for s in plan:
        s = dict(s)
        if s["k"] == "call":
            s["o"] = ("call", use[(s["f"] + shift) % len(use)], family[s["p"] % len(family)])
            if FUNCTIONS[s["o"][1]][0].startswith("charFromName") and not whole: continue
            given.add(s["c"])
        elif s["k"] == "open":
            s["o"] = ("iter", its[(s["f"] + shift) % len(its)], 0); place[s["c"], s["s"]] = 0
        elif s["k"] == "next":
            if (s["c"], s["s"]) not in place or place[s["c"], s["s"]] + s["n"] >= KEEP: continue
            place[s["c"], s["s"]] += s["n"]
            given.add(s["c"])
        elif s["k"] == "close":
            if (s["c"], s["s"]) not in place: continue
            del place[s["c"], s["s"]]
        elif s["k"] == "spoil":
            if s["c"] not in given: continue
            given.remove(s["c"])
        steps.append(s)
    return steps


def jitter(frame, event, arg):
    """A trace function that lets other threads run in the middle of anything
    that the library does."""
    if "UnicodeData" not in frame.f_code.co_filename: return None
    if event == "line" and random.random() < .03: time.sleep(random.choice([0, 1e-5, 1e-4, 1e-3]))
    return jitter


class Client:
    def __init__(self, often): self.its, self.last, self.events, self.often = {}, None, [], often

    def step(self, s):
        e = {"k": s["k"], "c": s["c"], "s": s["s"], "n": s["n"], "o": ident(s["o"]) if "o" in s else "", "st": "ok", "a": []}
        self.events.append(e)
        if s["k"] == "call":
            call = FUNCTIONS[s["o"][1]][1]
            for _ in range(self.often):
                try: self.last = v = call(s["o"][2]); a = text(v)
                except Exception as x: self.last, a = None, "raise " + type(x).__name__
                if a not in e["a"]: e["a"].append(a)
        elif s["k"] == "open":
            try: self.its[s["s"]] = iter(ITERATORS[s["o"][1]][1]())
            except Exception: self.its[s["s"]] = None
        elif s["k"] == "next":
            it = self.its[s["s"]]
            for _ in range(s["n"]):
                try:
                    if it is None: raise TypeError
                    self.last = v = next(it); e["a"].append(text(v))
                except StopIteration: break
                except Exception as x: e["a"].append("raise " + type(x).__name__); break
        elif s["k"] == "close": del self.its[s["s"]]
        elif s["k"] == "spoil":
            try: spoil(self.last)
            except Exception: pass
            self.last = None


def together(clients, jobs, jittery):
    """Runs every job in a thread; ok, raise or hang."""
    if jittery: threading.settrace(jitter)
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(len(jobs))
    failed = []
    def work(job):
        try:
            gate.wait()
            job()
        except BaseException as x: failed.append(type(x).__name__)
    ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in jobs]
    for x in ts: x.start()
    end = time.time() + 200
    for x in ts: x.join(max(0, end - time.time()))
    st = "raise" if failed else "hang" if any(x.is_alive() for x in ts) else "ok"
    threading.settrace(None)
    sys.setswitchinterval(.005)
    events = [e for c in clients.values() for e in list(c.events)]
    return events, st


def replay(t):
    n, steps = t
    mode = n % 4                             # 0, 2: one thread; 1: threads; 3: threads with pauses anywhere
    clients = {c: Client((1, 25, 1, 3)[mode]) for c in (1, 2, 3, 4)}
    if mode % 2 == 0:
        events = []
        def go():
            for s in steps:
                clients[s["c"]].step(s)
                events.append(clients[s["c"]].events[-1])
        st, _ = guarded(120, go)
    else:
        def job(c):
            for s in steps:
                if s["c"] == c: clients[c].step(s)
        events, st = together(clients, [lambda c=c: job(c) for c in clients], mode == 3)
    if st != "ok": events.append({"k": "end", "c": 1, "s": 0, "n": 0, "o": "", "st": st, "a": []})
    return {"how": ("alternate", "threads", "alternate", "pauses")[mode], "events": events}


def start(t):
    """The same in a process that has not used the library before: every
    thread imports what it needs by itself."""
    import importlib
    n, steps = t
    clients = {c: Client(1) for c in (1, 2, 3, 4)}
    order = {c: random.Random(f"{SEED}-start-{n}-{c}").sample(MODULES, len(MODULES)) for c in clients}
    def job(c):
        for m in order[c]: M[m] = importlib.import_module("UnicodeData." + m)
        for s in steps:
            if s["c"] == c: clients[c].step(s)
    events, st = together(clients, [lambda c=c: job(c) for c in clients], n % 2 == 0)
    if st != "ok": events.append({"k": "end", "c": 1, "s": 0, "n": 0, "o": "", "st": st, "a": []})
    return {"how": "start", "events": events}


def main():
    global FUNCTIONS, ITERATORS
    plans = [json.loads(l)["plan"] for l in open(PLANS)]
    FUNCTIONS, ITERATORS = functions(), iterators()
    # a fresh process for each of the first
    fresh = [(n, resolve(n, p, False)[:40]) for n, p in enumerate(plans[:200 if THOROUGH else 40])]
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        hs = pool.map(start, [t for t in fresh if t[1]], chunksize=1)

    for n in MODULES: load(n)
    st, sets = guarded(10, makeSets)
    if st == "ok": SETS.extend(sets)
    FUNCTIONS, ITERATORS = functions(), iterators()
    todo = [(n, resolve(n, p, n % 2 == 0)) for n, p in enumerate(plans)]
    todo = [(n, s) for n, s in todo if s]
    objects = {}
    for _, steps in fresh + todo:
        for s in steps:
            if "o" in s: objects[ident(s["o"])] = s["o"]
    names = sorted(objects)
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        answers = pool.map(alone, [objects[n] for n in names], chunksize=1)
        hs += pool.map(replay, todo, chunksize=1)
    writeJson(OUT, {"answers": dict(zip(names, answers)), "histories": hs})


if __name__ == "__main__": main()
