"""Shared parts of the recorders.

A recorder imports the code under test from /repo (through a scratch overlay
that adds the ICU data package which the repository ignores), runs it through
its public interface, and writes what it observed as JSON for TLC.  It judges
nothing: every verdict is TLC's.  Exceptions, wrong types and calls that do
not return are observations too, and are recorded as such.
"""
import json, os, random, signal, struct, sys, tempfile
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(os.path.dirname(HERE), "data")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPLIMIT = 0x110000
BIG = 1 << 30          # TLC integers have 32 bits

import warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0) if hasattr(sys, "set_int_max_str_digits") else None


# ---------------------------------------------------------------- ICU package
def icuItems():
    d = os.path.join(DATA, "icu")
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d))}


def buildPackage(items, prefix="icudt74l", headerLength=32, align=16, order=None):
    """An ICU common data package (format CmnD) with the given items."""
    header = bytearray(headerLength)
    struct.pack_into("<HBBHHBBBB4sBBBBBBBB", header, 0, headerLength, 0xDA, 0x27,
                     20, 0, 0, 0, 2, 0, b"CmnD", 1, 0, 0, 0, 3, 0, 0, 0)
    names = sorted(items) if order is None else list(order)
    toc = 4 + 8 * len(names)
    nameBytes, nameOffsets = b"", []
    for n in names:
        nameOffsets.append(toc + len(nameBytes))
        full = f"{prefix}/{n}" if prefix is not None else n
        nameBytes += full.encode("ascii") + b"\0"
    pos = toc + len(nameBytes)
    body, offsets = b"", []
    base = pos
    for n in names:
        pad = -(base + len(body)) % align
        body += b"\xaa" * pad
        offsets.append(base + len(body))
        body += items[n]
    out = bytes(header) + struct.pack("<I", len(names))
    for no, do in zip(nameOffsets, offsets):
        out += struct.pack("<II", no, do)
    return out + nameBytes + body


def dataHeader(fmt=b"Test", headerLength=32, version=(1, 2, 3, 4), dataVersion=(5, 6, 7, 8)):
    h = bytearray(headerLength)
    struct.pack_into("<HBBHHBBBB4sBBBBBBBB", h, 0, headerLength, 0xDA, 0x27, 20, 0, 0, 0, 2, 0,
                     fmt, *version, *dataVersion)
    return bytes(h)


def overlay(scratch, package=None):
    """Puts a package directory on sys.path whose modules are those of the
    working tree of /repo, and whose Data directory has an icudata.dat."""
    root = tempfile.mkdtemp(prefix="overlay", dir=scratch)
    src, dst = os.path.join(REPO, "UnicodeData"), os.path.join(root, "UnicodeData")
    os.mkdir(dst)
    for n in os.listdir(src):
        if n in ("Data", "__pycache__"): continue
        os.symlink(os.path.join(src, n), os.path.join(dst, n))
    os.mkdir(os.path.join(dst, "Data"))
    if os.path.isdir(os.path.join(src, "Data")):
        for n in os.listdir(os.path.join(src, "Data")):
            if n != "icudata.dat":
                os.symlink(os.path.join(src, "Data", n), os.path.join(dst, "Data", n))
    if package is None:
        package = buildPackage(icuItems())
    with open(os.path.join(dst, "Data", "icudata.dat"), "wb") as f: f.write(package)
    sys.path.insert(0, root)
    return dst


def replaceModules(dst, texts):
    """Puts generated modules in place of those in an overlay."""
    for name, text in texts.items():
        path = os.path.join(dst, name + ".py")
        if os.path.lexists(path): os.remove(path)
        with open(path, "w") as f: f.write(text)


def reheader(item, rnd):
    """The item with another length of its data header (as after a comment)."""
    old, = struct.unpack_from("<H", item)
    new = rnd.choice([24, 32, 48, 64, 176])
    return struct.pack("<H", new) + item[2:24] + bytes(rnd.randrange(32, 127) for _ in range(new - 24)) + item[old:]


def variedPackage(rnd, items):
    """A package with the items in some layout, with others among them."""
    items = {n: reheader(b, rnd) for n, b in items.items()}
    for i in range(rnd.randrange(4)):
        items[rnd.choice(["a", "coll/", "n", "zone/"]) + f"x{i}." + rnd.choice(["res", "icu", "nrm"])] = \
            dataHeader() + bytes(rnd.randrange(256) for _ in range(rnd.randrange(200)))
    # real packages have some 30 million bytes, most of them before these items
    if rnd.random() < .3: items["a/big.res"] = dataHeader() + bytes(rnd.choice([70000, 1 << 20, 17000000]))
    return buildPackage(items, prefix=rnd.choice(["icudt74l", "icudt67l", "p"]), headerLength=rnd.choice([24, 32, 48, 128]),
                        align=rnd.choice([4, 16]))


# ---------------------------------------------------------------- calling
class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def guarded(seconds, fn, *args, **kw):
    """('ok', value), ('raise', exception name) or ('hang', '')."""
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            return "ok", fn(*args, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Timeout:
        return "hang", ""
    except Exception as e:
        return "raise", type(e).__name__
    except SystemExit:
        return "raise", "SystemExit"


def method(obj, name):
    """obj.name, looked up only when it is called (under guard)."""
    return lambda *args, **kw: getattr(obj, name)(*args, **kw)


def loadModule(name):
    """('ok', module), ('raise', ...), ('hang', ...)."""
    import importlib
    return guarded(120, importlib.import_module, name)


def asNumber(v):
    """none, or the simplest num/den e exp that the int or float stands for; from 10^22 on, which is
    as far as powers of ten are exact in a double, to nine digits"""
    if v is None: return "none"
    if isinstance(v, bool) or not isinstance(v, (int, float)): return "type"
    if isinstance(v, float):
        if not v - v == 0: return "type"
        if abs(v) >= 1e22:
            digits, e = f"{v:.8e}".split("e")
            whole, part = digits.split(".")
            part = part.rstrip("0")
            return f"{whole}{part}/1e{int(e) - len(part)}"
        if v == int(v): v = int(v)
        else:
            f = Fraction(v).limit_denominator(5000)
            return f"{f.numerator}/{f.denominator}e0" if f.numerator / f.denominator == v else f"double {v!r}"
    e = 0
    while v != 0 and v % 10 == 0: v //= 10; e += 1
    return f"{v}/1e{e}"


def isInt(v):
    return type(v) is int


def small(v):
    """An observed int for TLC; huge values are clamped (and so stay wrong)."""
    return max(-BIG, min(BIG, v))


def writeJson(path, obj):
    with open(path, "w") as f: json.dump(obj, f, separators=(",", ":"), ensure_ascii=True)


def rle(values):
    """Run-length code of a sequence: starts and values of the maximal runs."""
    starts, vals, last = [], [], None
    first = True
    for i, v in enumerate(values):
        if first or v != last:
            starts.append(i); vals.append(v); last = v; first = False
    return starts, vals
