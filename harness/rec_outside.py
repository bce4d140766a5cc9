"""Records what the library says about numbers above U+10FFFF, for
spec/OutsideTrace.tla.

usage: rec_outside.py OUT
"""
import re, sys, tempfile
from common import *

OUT = sys.argv[1]
rnd = random.Random(f"{SEED}-outside")
COUNT = 20000 if THOROUGH else 1500
overlay(tempfile.mkdtemp())
SPEC = open(os.path.join(os.path.dirname(HERE), "spec", "Outside.tla")).read()


def names(module):
    """The functions of a module that the specification speaks of."""
    out = []
    for group in re.findall(r'"' + module + r'\." \\o f : f \\in\s*\{(.*?)\}', SPEC, re.S): out += re.findall(r'"(\w+)"', group)
    return out + re.findall(r'"' + module + r'\.(\w+)"', SPEC)


def functions():
    out = []
    for module in ("CharProps", "BidiProps", "Utilities", "LayoutProps", "CaseProps"):
        st, m = loadModule("UnicodeData." + module)
        for f in names(module): out.append((f"{module}.{f}", lambda c, m=m, f=f: getattr(m, f)(c)))
        if module == "CharProps":
            for i in range(32): out.append((f"binary {i}", lambda c, m=m, i=i: m.getBinaryProp(c, i)))
    st, m = loadModule("UnicodeData.Normalizer2")
    for z in ("nfcTrie", "nfkcTrie", "nfkc_cfTrie"):
        for f in ("getDecomposition", "getRawDecomposition"): out.append((f"{z}.{f}", lambda c, m=m, z=z, f=f: getattr(getattr(m, z), f)(c)))
    st, m = loadModule("UnicodeData.CharNames")
    for ch in (0, 1, 2, 3): out.append((f"getCharName {ch}", lambda c, m=m, ch=ch: m.CharNames.getCharName(c, ch)))
    return out


INTEREST = [0, 0x20, 0x30, 0x41, 0x61, 0x9, 0x85, 0xA0, 0x28, 0x130, 0x301, 0x5D0, 0x627, 0x628, 0x903, 0x1160, 0x200D, 0x202A, 0x2028, 0x2160, 0x3000, 0x4E00, 0xAC00, 0xAC01,
            0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDD0, 0xFDEF, 0xFEFF, 0xFFFE, 0xFFFF, 0x10400, 0x10AC0, 0x1D15E, 0x1F1E6, 0x1F600, 0x20000, 0xE0001, 0xE0100, 0x10FFFF]


def numbers():
    out = {0x110000, 0x110001, 0x11FFFE, 0x11FFFF, 0x11FDD0, 0x1FFFFF, 0x200000, 0xFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}
    for c in INTEREST:
        for k in (21, 24, 30, 31): out.add(c + (1 << k))
        out.add(c + 0x110000)
    out = sorted(out)
    while len(out) < COUNT:
        c = rnd.choice([rnd.choice(INTEREST), rnd.randrange(CPLIMIT), rnd.randrange(0x3000)])
        out.append(rnd.choice([c + 0x110000, c + (1 << rnd.choice([21, 21, 22, 24, 28, 30, 31])), rnd.randrange(CPLIMIT, 1 << 32), CPLIMIT + (rnd.randrange(0x200)), c + 0x10000 * rnd.randrange(0x11, 0xFF00)]))
    return out


def main():
    fs = functions()
    def ask(f, n):
        try: return repr(f(n))
        except Exception as e: return "raise " + type(e).__name__
    events = []
    for n in numbers():
        st, a = guarded(10, lambda: [ask(f, n) for _, f in fs])
        events.append({"dec": str(n), "hex": f"{n:04X}", "a": a if st == "ok" else [st] * len(fs)})
    writeJson(OUT, {"fns": [n for n, _ in fs], "histories": [{"events": events[k::16]} for k in range(16)]})


if __name__ == "__main__": main()
