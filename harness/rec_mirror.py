"""Records mirrors and brackets for spec/MirrorsTrace.tla.

usage: rec_mirror.py OUT
"""
from common import *

sys.path.insert(0, REPO)
OUT = sys.argv[1]


def main():
    st, m = loadModule("UnicodeData.BidiProps")
    hs = []
    if st != "ok": hs.append({"c": 0, "events": [{"st": st}]})
    else:
        def look(c):
            a, b = m.getMirror(c), m.getPairedBracket(c)
            if a == c and b == c and m.getPairedBracketType(c) == 0: return None
            return {"st": "ok", "mirror": small(a), "mirrored": int(bool(m.isMirrored(c))), "mirrorBack": small(m.getMirror(a)),
                    "mirrorMirrored": int(bool(m.isMirrored(a))), "type": small(m.getPairedBracketType(c)), "bracket": small(b),
                    "bracketBack": small(m.getPairedBracket(b)), "bracketType": small(m.getPairedBracketType(b))}
        def go():
            for c in range(CPLIMIT):
                st, e = guarded(5, look, c)
                if st != "ok": e = {"st": st}
                if e: hs.append({"c": c, "events": [e]})
                if len(hs) > 20000: break
        go()
    writeJson(OUT, hs or [{"c": 0, "events": [{"st": "none"}]}])


main()
