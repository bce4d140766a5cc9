"""Records the dictionaries, constants and returned values for
spec/DictionariesTrace.tla.

usage: rec_dict.py OUT
"""
import gzip, json, multiprocessing, tempfile
from common import *

OUT = sys.argv[1]
NONE = -999999999
# property -> (dictionary of UCDTypeDictionaries, other tables, getters)
C, B, L = "CharProps", "BidiProps", "LayoutProps"
PROPERTIES = {
    "Bidi_Class": ("bidiClassNames", [("CharDirection", "bidiClassNames")], [(B, "getCharDirection")]),
    "Block": ("blockNames", [("Blocks", "blockNames")], [(C, "getBlock")]),
    "Decomposition_Type": ("decompositionTypeNames", [("DecompositionType", "decompositionTypeNames")], [(C, "getDecompType")]),
    "East_Asian_Width": ("eastAsianWidthNames", [("EastAsianWidth", "eastAsianWidthNames")], [(C, "getEastAsianWidth")]),
    "General_Category": ("generalCategoryNames", [("GeneralCategories", "generalCategories")], [(C, "getGeneralCategory")]),
    "Grapheme_Cluster_Break": ("graphemeClusterBreakNames", [("Boundaries", "graphemeClusterBreakNames")], [(C, "getGraphemeClusterBreak")]),
    "Hangul_Syllable_Type": ("hangulSyllableTypeNames", [], []),
    "Indic_Positional_Category": ("indicPositionalCategoryNames", [("LayoutTypes", "inpcNames")], [(L, "getInPC")]),
    "Indic_Syllabic_Category": ("indicSyllabicCategoryNames", [("LayoutTypes", "inscNames")], [(L, "getInSC")]),
    "Joining_Group": ("joiningGroupNames", [("JoiningTypesAndGroups", "joiningGroups")], [(B, "getJoiningGroup")]),
    "Joining_Type": ("joiningTypeNames", [("JoiningTypesAndGroups", "joiningTypes")], [(B, "getJoiningType")]),
    "Line_Break": ("lineBreakNames", [("Boundaries", "lineBreakNames")], [(C, "getLineBreak")]),
    "Numeric_Type": ("numberTypeNames", [], [(C, "getNumericType")]),
    "Script": ("scriptNames", [("Scripts", "scriptCodes")], [(C, "getScript")]),
    "Sentence_Break": ("sentenceBreakNames", [("Boundaries", "sentenceBreakNames")], [(C, "getSentenceBreak")]),
    "Vertical_Orientation": ("verticalOrientationNames", [("LayoutTypes", "voNames")], [(L, "getVO")]),
    "Word_Break": ("wordBreakNames", [("Boundaries", "wordBreakNames")], [(C, "getWordBreak")]),
}
CONSTANTS = "GeneralCategories Blocks Scripts Boundaries CharDirection DecompositionType EastAsianWidth JoiningTypesAndGroups LayoutTypes".split()
GROUPS = "Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Cn Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf L LC M N Z C P S".split()


def event(k, st="ok", **kw): return dict(k=k, st=st, **kw)
def num(v): return small(v) if type(v) is int else NONE
def text(v): return v if type(v) is str else "type"


def names(module):
    st, m = loadModule("UnicodeData." + module)
    if st != "ok": return st, {}
    return "ok", {k: v for k, v in vars(m).items() if not k.startswith("_")}


def table(module, name):
    st, n = names(module)
    if st != "ok": return st, []
    if type(n.get(name)) is not dict: return "missing", []
    return "ok", [(num(k), text(v)) for k, v in n[name].items()]


def tableHistory(p, mainName, module, name):
    st, rows = table(module, name)
    st2, main = table("UCDTypeDictionaries", mainName)
    events = [event("entry", v=v, name=n) for v, n in rows] + [event("size", v=len(rows))]
    for s in (st, st2):
        if s != "ok": events = [event("entry", s, v=0, name="")]
    return {"property": p, "table": f"{module}.{name}", "main": [{"value": v, "name": n} for v, n in main], "events": events}


def returned(t):
    p, mainName, module, getter = t
    st, main = table("UCDTypeDictionaries", mainName)
    st2, m = loadModule("UnicodeData." + module)
    f = getattr(m, getter, None) if st2 == "ok" else None
    seen = set()
    def go():
        for c in range(CPLIMIT): seen.add(f(c))
    if st == "ok": st, _ = guarded(200, go) if f else ("missing", None)
    events = [event("returned", v=num(v)) for v in seen] or [event("returned", "empty", v=0)]
    if st != "ok": events = [event("returned", st, v=0)]
    if module == L:                      # the ICU data package may be of a younger version than the tables
        have = {v for v, _ in main}
        events = [e for e in events if e["st"] != "ok" or e["v"] in have or e["v"] < len(have)]
    return {"property": p, "table": getter, "main": [{"value": v, "name": n} for v, n in main], "events": events}


def constants():
    out = []
    heads, st = {}, "ok"
    for h in ("uchar_h", "uscript_h"):
        s, n = names(h)
        if s != "ok": st = s
        heads.update({k: v for k, v in n.items() if type(v) is int})
    for p in PROPERTIES:
        out.append({"property": p, "table": "headers", "main": [], "events":
                    [event("constant", st, m="headers", name=k, v=num(v), u=NONE) for k, v in sorted(heads.items())
                     if k.startswith(("U_", "UBLOCK_", "USCRIPT_")) and not k.startswith(("U_GC_",))] or [event("constant", st, m="", name="", v=0, u=0)]})
    for m in CONSTANTS:
        st, n = names(m)
        events = []
        for k, v in sorted(n.items()):
            if isinstance(v, dict): continue
            other = [x for x in (k, "U_" + k, "U_" + k[3:] if k.startswith("GC_") else k) if x in heads]
            if not other and k not in ("GC_CATEFORY_COUNT", "USCRIPT_CODE_LIMIT"): continue
            u = heads[other[0]] if other else NONE
            events.append(event("constant", m=m, name=k, v=num(v), u=u))
        out.append({"property": "-", "table": m, "main": [], "events": events or [event("constant", st if st != "ok" else "empty", m=m, name="", v=0, u=0)]})
    return out


def masks():
    out = []
    for m, pre in (("uchar_h", "U_GC_"), ("GeneralCategories", "GC_")):
        st, n = names(m)
        events = []
        for g in GROUPS:
            v = n.get(f"{pre}{g.upper()}_MASK")
            ok = type(v) is int and v >= 0
            events.append(event("mask", st if st != "ok" else "ok" if ok else "missing", name=g, bits=[i for i in range(200) if ok and v >> i & 1]))
        out.append({"property": "General_Category", "table": m, "main": [], "events": events})
    return out


def version(_=0):
    st, n = names("UnicodeVersion")
    st2, m = loadModule("UnicodeData.CharProps")
    best = (0, 0)
    def go():
        nonlocal best
        best = max(tuple(m.getAge(c)[:2]) for c in range(CPLIMIT))
    if st == "ok": st, _ = guarded(200, go) if st2 == "ok" else (st2, None)
    return {"property": "Age", "table": "unicodeVersion", "main": [],
            "events": [event("version", st, v=text(n.get("unicodeVersion")), u=f"{best[0]}.{best[1]}.0")]}


def task(t): return returned(t) if t else version()


def main():
    overlay(tempfile.mkdtemp())
    hs = []
    for p, (mainName, others, _) in PROPERTIES.items():
        for m, n in [("UCDTypeDictionaries", mainName), *others]: hs.append(tableHistory(p, mainName, m, n))
    with multiprocessing.Pool(8) as pool:
        hs += pool.map(task, [(p, x[0], *g) for p, x in PROPERTIES.items() for g in x[2]] + [None], chunksize=1)
    hs += constants() + masks()
    d = json.load(gzip.open(os.path.join(DATA, "ucd13.json.gz")))["valueNames"]
    ref = {p: [{"value": i, "short": list(d[p][str(i)][0]), "long": list(d[p][str(i)][-1])} for i in range(len(d[p]))] for p in PROPERTIES}
    writeJson(OUT, {"ref": ref, "histories": hs})


if __name__ == "__main__": main()
