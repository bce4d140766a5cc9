"""Records the constants of the header modules for spec/HeadersTrace.tla.

usage: rec_consts.py OUT
"""
import gzip, re
from common import *

sys.path.insert(0, REPO)
OUT = sys.argv[1]


def number(v): return {"neg": v < 0, "bits": [i for i in range(abs(v).bit_length()) if abs(v) >> i & 1]}


def isSize(name): return name.endswith(("_COUNT", "_LIMIT"))


def reference(module):
    path = os.path.join(DATA, "headers", f"{module[:-2]}.h.json.gz")
    if not os.path.exists(path): return []
    return [dict(name=n, size=isSize(n), int=v if abs(v) < BIG else -1, **number(v)) for n, t, v in json.load(gzip.open(path))["constants"] if t == "int"]


def history(module):
    st, m = loadModule("UnicodeData." + module)
    ref = reference(module)
    if st != "ok": return {"module": module, "ref": ref, "events": [{"k": "names", "st": st, "names": []}]}
    n = {k: v for k, v in vars(m).items() if not k.startswith("__")}
    names = sorted(k for k, v in n.items() if type(v) in (int, str))
    events = [{"k": "names", "st": "ok", "names": names}]
    known = {r["name"] for r in ref}
    for k in sorted(k for k, v in n.items() if re.match("UCASE_|UBIDI_|UPROPS_|CH_", k) and type(v) not in (int, str)):
        events.append({"k": "type", "st": "ok", "name": k})
    for k in names:
        v = n[k]
        if type(v) is str: events.append({"k": "text", "st": "ok", "name": k, "v": v})
        else: events.append(dict(k="number", st="ok", name=k, **number(v)))
        if type(v) is int and k in known and isSize(k): events.append(dict(k="size", st="ok", name=k, names=names, **number(v)))
    if module == "uchar_h":
        for i in range(80):
            st, v = guarded(5, method(m, "U_MASK"), i)
            events.append(dict(k="bit", st=st if st != "ok" or type(v) is int else "type", n=i, **number(v if type(v) is int else 0)))
        st, u = loadModule("UnicodeData.UnicodeVersion")
        events.append({"k": "version", "st": st, "v": str(n.get("U_UNICODE_VERSION")), "u": str(getattr(u, "unicodeVersion", ""))})
    return {"module": module, "ref": ref, "events": events}


writeJson(OUT, [history(m) for m in ("uchar_h", "uscript_h", "uprops_h", "ucase_h", "CaseProps", "BidiProps", "Characters")])
