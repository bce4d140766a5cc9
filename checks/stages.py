"""What each check consists of: property -> stages (see run.py)."""

STAGES = {}


def trace(name, recorder, module, invariants, args=(), **kw):
    return dict(kind="trace", name=name, recorder=recorder, module=module,
                invariants=["Machinery", *invariants], args=list(args), **kw)


def model(name, module, **kw):
    return dict(kind="model", name=name, module=module, **kw)


# ---------------------------------------------------------------- UnicodeSet
def setTrace(mode, inv, **kw):
    return trace(mode, "rec_set.py", "UnicodeSetsTrace", [inv], [mode], **kw)


SETGEN = dict(module="UnicodeSetsGen", cfg="UnicodeSetsGen.cfg", depth=32, quick=150, thorough=2500)
LISTS = model("lists", "InversionLists", spec="Spec", constants={"High": 5}, constantsThorough={"High": 7},
              invariants=["Refines", "NeverTooLong"], properties=["Ends"])

for pid, inv in (("S01", "S01_Algebra"), ("S02", "S02_Canonical"), ("S03", "S03_Queries"), ("S04", "S04_Isolation")):
    STAGES[pid] = [setTrace("random", inv), setTrace("small", inv), setTrace("many", inv), setTrace("plans", inv, generate=SETGEN)]
for pid in ("S01", "S02"):
    STAGES[pid] = STAGES[pid] + [LISTS]
STAGES["S05"] = [setTrace("wild", "S05_Pinning")]

# ---------------------------------------------------------------- tries
WALK = dict(spec="Spec", invariants=["Pending", "Delivered", "Complete"], properties=["Forward"])
WALKS = {
    "utrie2": model("walk", "Utrie2Walk", constants={"Units": 2, "I2s <-": "FewI2s", "BmpUnits <-": "FewBmp"},
                    constantsThorough={"Units": 2, "I2s <-": "TinyI2s", "BmpUnits <-": "TinyBmp"}, **WALK),
    "cptrie": model("walk", "CPTrieWalk", constants={"Units": 2, "Datas <-": "FewDatas", "Fasts <-": "FewFasts", "I3s <-": "FewI3s"},
                    constantsThorough={"Units": 2, "Datas <-": "TinyDatas", "Fasts <-": "SomeFasts", "I3s <-": "FewI3s"}, **WALK)}
WALKGEN = {k: dict(module=m, cfg=m + "Gen.cfg", depth=100, quick=1200, thorough=15000)
           for k, m in (("utrie2", "Utrie2Walk"), ("cptrie", "CPTrieWalk"))}
for kind, get, enum in (("utrie2", "T01", "T02"), ("cptrie", "T03", "T04")):
    STAGES[get] = [trace("get", "rec_trie.py", "TriesTrace", ["T_Lookup"], [kind, "get"])]
    STAGES[enum] = [trace("enum", "rec_trie.py", "TriesTrace", ["T_Enumeration"], [kind, "enum"]),
                    trace("replay", "rec_walk.py", "TriesTrace", ["T_Enumeration"], [kind], generate=WALKGEN[kind]), WALKS[kind]]
STAGES["E01"] = [trace("own", "rec_enum.py", "EnumerationsTrace", ["E01_Enumerations"])]

# ---------------------------------------------------------------- code point properties
for pid in ("C01", "C02", "C03", "C04", "C05", "K01", "K02", "K03", "B01", "L01"):
    STAGES[pid] = [trace("getters", "rec_char.py", "CodeSpaceTrace", ["Matches"], [pid])]
STAGES["N01"] = [trace("nfc", "rec_norm.py", "DecompositionsTrace", ["Decomposes"], ["nfc"])]
STAGES["N02"] = [trace(m, "rec_norm.py", "DecompositionsTrace", ["Decomposes"], [m]) for m in ("files", "made")]
STAGES["N03"] = [trace(m, "rec_qc.py", "NormalizersTrace", ["N03_Predicates"], [m]) for m in ("nfc", "files", "made")]
STAGES["N04"] = [trace("mappings", "rec_norm.py", "DecompositionsTrace", ["Decomposes"], ["builtin"]),
                 trace("predicates", "rec_qc.py", "NormalizersTrace", ["N03_Predicates"], ["builtin"])]
STAGES["B02"] = [trace("getters", "rec_char.py", "CodeSpaceTrace", ["Matches"], ["B02"]),
                 trace("pairs", "rec_mirror.py", "MirrorsTrace", ["Involutions"])]
STAGES["M01"] = [trace("names", "rec_names.py", "NamesTrace", ["M01_Names"], ["names"])]
STAGES["M02"] = [trace("iterate", "rec_names.py", "NamesTrace", ["M02_Iteration"], ["iterate"])]
STAGES["U01"] = [trace("utf16", "rec_util.py", "UtilitiesTrace", ["U01_Utf16"], ["utf16"])]
STAGES["U02"] = [trace("words", "rec_util.py", "UtilitiesTrace", ["U02_Words"], ["words"])]
STAGES["M03"] = [trace("package", "rec_package.py", "PackageTrace", ["M03_Package"])]
STAGES["D01"] = [trace("tables", "rec_dict.py", "DictionariesTrace", ["D01_Tables"])]
STAGES["D02"] = [trace("constants", "rec_consts.py", "HeadersTrace", ["D02_Constants"])]
STAGES["X01"] = [trace("records", "rec_xml.py", "XmlTrace", ["X01_Records"])]

for pid, kind, inv in (("K04", "case", "K04_Case"), ("B03", "bidi", "B03_Bidi"), ("C06", "char", "C06_Char")):
    STAGES[pid] = [trace("tables", "rec_decode.py", "DecodersTrace", [inv], [kind])]

STAGES["C07"] = [trace("outside", "rec_outside.py", "OutsideTrace", ["C07_Outside"])]

# ---------------------------------------------------------------- builder
HEADERGEN = dict(module="CHeadersGen", cfg="CHeadersGen.cfg", depth=120, quick=250, thorough=3000)
STAGES["G01"] = [trace("plans", "rec_header.py", "CHeadersTrace", ["G01_Header"], ["plans"], generate=HEADERGEN),
                 trace("icu", "rec_header.py", "CHeadersTrace", ["G01_Header"], ["icu"])]
STAGES["G02"] = [trace("modules", "rec_module.py", "DataSourcesTrace", ["G02_Module"])]
STAGES["G03"] = [trace(m, "rec_ppucd.py", "TypeDictionariesTrace", ["G03_Dictionaries"], [m]) for m in ("random", "icu")]
STAGES["G04"] = [trace("runs", "rec_build.py", "BuildTrace", ["G04_Build"])]

# ---------------------------------------------------------------- the library as a whole
ISOGEN = dict(module="IsolationGen", cfg="IsolationGen.cfg", depth=93, quick=128, thorough=2000)
STAGES["Q01"] = [trace("clients", "rec_isolation.py", "IsolationTrace", ["Q01_Isolation"], generate=ISOGEN)]
