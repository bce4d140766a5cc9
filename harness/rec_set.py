"""Records histories of the real UnicodeSet for spec/UnicodeSetsTrace.tla.

usage: rec_set.py OUT MODE [PLANS]

MODE: random   random histories, arguments in U+0000..U+10FFFF
      wild     random histories with out-of-range and reversed arguments
      small    every set over a small universe x every operation x operand
      many     sets of many ranges, and queries around every single call
      plans    histories generated by TLC from spec/UnicodeSetsGen.tla
"""
import sys, tempfile
from common import *

OUT, MODE = sys.argv[1], sys.argv[2]
rnd = random.Random(f"{SEED}-{MODE}")

# the ways in which the library offers each operation
MUT_CP = {"add": [("add", "i")], "remove": [("remove", "i")], "retain": [("retain", "i")],
          "complement": [("complement", "i")]}
MUT_RANGE = {"add": [("addRange", "2")], "remove": [("removeRange", "2")], "retain": [("retainRange", "2")],
             "complement": [("complementRange", "2"), ("complement", "r")]}
MUT_SET = {"add": ["addAll", "__ior__"], "remove": ["removeAll", "__isub__"],
           "retain": ["retainAll", "__iand__"], "complement": ["complementAll", "__ixor__"]}
BIN = {"add": ["union", "__or__"], "remove": ["difference", "__sub__"],
       "retain": ["intersection", "__and__"], "complement": ["symmetric_difference", "__xor__"]}
OPS = ["add", "remove", "retain", "complement"]


def inplace(a, name, b):
    if name == "__ior__": a |= b
    elif name == "__isub__": a -= b
    elif name == "__iand__": a &= b
    elif name == "__ixor__": a ^= b
    else: return getattr(a, name)(b)
    return a


def binary(a, name, b):
    if name == "__or__": return a | b
    if name == "__and__": return a & b
    if name == "__sub__": return a - b
    if name == "__xor__": return a ^ b
    return getattr(a, name)(b)


def bit(v): return 1 if v is True else 0 if v is False else 2


class Bad(Exception):
    pass


def intOf(v):
    if type(v) is not int: raise Bad("type")
    return small(v)


class History:
    """One history: a store of named sets, and the events seen so far."""
    def __init__(self, US, grid):
        self.US, self.grid, self.store, self.events = US, grid, {}, []
        self.firsts = grid[:-1]
        self.lasts = [g - 1 for g in grid[1:]]

    def snap(self, h):
        x = {"h": h, "st": "ok", "r": [], "count": 0, "first": [], "last": []}
        def look():
            u = self.store[h]
            n = u.getRangeCount()
            x["count"] = intOf(n)
            if n > 5000: raise Bad("count")
            for i in range(n):
                x["r"] += [intOf(u.getRangeStart(i)), intOf(u.getRangeEnd(i))]
            x["first"] = [bit(c in u) for c in self.firsts]
            x["last"] = [bit(c in u) for c in self.lasts]
        st, _ = guarded(5, look)
        x["st"] = st
        if st != "ok":
            x["first"] = x["first"] + [2] * (len(self.firsts) - len(x["first"]))
            x["last"] = x["last"] + [2] * (len(self.lasts) - len(x["last"]))
            if len(x["r"]) % 2: x["r"].pop()
        return x

    def eq(self, a, b):
        q = {"a": a, "b": b, "st": "ok", "eq": 2, "ne": 2}
        def look():
            q["eq"] = bit(self.store[a] == self.store[b]); q["ne"] = bit(self.store[a] != self.store[b])
        q["st"], _ = guarded(5, look)
        return q

    def emit(self, k, d, f="", ak="none", s=0, e=0, o=0, a=0, call=None, q=None, neweq=True, extra=None):
        """Performs one public call and appends its event.  False if the
        history cannot go on."""
        st, val = guarded(10, call) if call else ("ok", None)
        ret = "none"
        if st == "ok" and k in ("mut", "bin", "new"):
            if type(val) is not self.US: st = "type"
            elif k == "mut":
                ret = "self" if val is self.store[d] else "other"
            elif k == "bin":
                ret = "alias" if any(val is x for x in self.store.values()) else "new"
                self.store[d] = val
            else:
                self.store[d] = val
                ret = "new"
        ev = {"k": k, "d": d, "f": f, "ak": ak, "s": small(s), "e": small(e), "o": o, "a": a, "st": st, "ret": ret,
              "snap": [], "eqs": [], "q": q or 0, **(extra or {})}
        self.events.append(ev)
        # a mutator that broke off may leave its receiver in any state; only a
        # constructor that failed leaves nothing behind to look at
        if st != "ok" : return False
        ev["snap"] = [self.snap(h) for h in sorted(self.store)]
        hs = sorted(self.store)
        if neweq and hs:
            others = hs if len(hs) <= 3 else rnd.sample(hs, 3)
            ev["eqs"] = [self.eq(d, b) for b in others]
        return all(x["st"] == "ok" for x in ev["snap"])

    # ---- calls
    def new(self, d, ak="none", s=0, e=0, o=0):
        US = self.US
        if ak == "none": call = lambda: US()
        elif ak == "int": call = lambda: US(s); e = s
        elif ak == "range": call = lambda: US(range(s, e + 1))
        else:
            src = self.store[o]
            call = lambda: US(src)
        if ak == "int": e = s
        return self.emit("new", d, ak=ak, s=s, e=e, o=o, call=call)

    def setup(self, d, u, ranges):
        """A set made by adding these ranges to an empty one."""
        return self.emit("new", d, ak="ranges", o=0, call=lambda: u, extra={"rs": ranges})

    def mutRange(self, d, f, s, e, form=None):
        u = self.store[d]
        if s == e and (form == "i" or form is None and rnd.random() < .6):
            name, how = MUT_CP[f][0]
        else:
            name, how = rnd.choice(MUT_RANGE[f])
            if form in ("2", "r"):
                cand = [x for x in MUT_RANGE[f] if x[1] == form]
                if cand: name, how = cand[0]
        if how == "i": call = lambda: getattr(u, name)(s)
        elif how == "2": call = lambda: getattr(u, name)(s, e)
        else: call = lambda: getattr(u, name)(range(s, e + 1))
        return self.emit("mut", d, f=f, ak="int" if how == "i" else "range", s=s, e=e, call=call)

    def mutSet(self, d, f, o, form=None):
        u, v = self.store[d], self.store[o]
        name = rnd.choice(MUT_SET[f]) if form is None else MUT_SET[f][form]
        return self.emit("mut", d, f=f, ak="set", o=o, call=lambda: inplace(u, name, v))

    def invert(self, d):
        u = self.store[d]
        return self.emit("mut", d, f="invert", call=(lambda: u.complement()) if rnd.random() < .7 else (lambda: u.complement(None)))

    def clear(self, d):
        u = self.store[d]
        return self.emit("mut", d, f="clear", call=lambda: u.clear())

    def combine(self, d, f, a, o, form=None):
        u, v = self.store[a], self.store[o]
        name = rnd.choice(BIN[f]) if form is None else BIN[f][form]
        return self.emit("bin", d, f=f, a=a, o=o, call=lambda: binary(u, name, v))

    def query(self, d):
        u = self.store[d]
        g = self.grid
        pts = sorted({p for x in g for p in (x - 1, x, x + 1)} | {-5, 1 << 21, 0x110001})
        sample = rnd.sample(pts, min(len(pts), 14)) + [0x10FFFF, 0x110000, -1, 0]
        q = {"st": "ok", "has": [], "hasRange": [], "size": -1, "iter": [], "iterFull": 0, "iterN": 0,
             "ranges": [], "charAt": [], "indexOf": [], "str": ""}

        def opt(v): return -1 if v is None else -2 if type(v) is not int or v < 0 else small(v)

        def look():
            for c in sample:
                q["has"].append([c, bit(u.contains(c) if rnd.random() < .5 else c in u)])
            for _ in range(12):
                s = rnd.choice(pts); e = rnd.choice(pts)
                if rnd.random() < .5: s, e = min(s, e), max(s, e)
                r = range(s, e + 1)
                q["hasRange"].append([s, e, bit(u.contains(r) if rnd.random() < .5 else r in u)])
            n = u.getRangeCount()
            for i in range(n):
                s, e = u.getRangeStart(i), u.getRangeEnd(i)
                for r in ((s, e), (s, e + 1), (s - 1, e), (s, s), (e, e)):
                    if rnd.random() < .6:
                        q["hasRange"].append([small(r[0]), small(r[1]), bit(u.contains(range(r[0], r[1] + 1)))])
            size = intOf(u.size())
            q["size"] = size
            # the whole of a large set only now and then
            limit = 3000 if size <= 3000 else 300 if rnd.random() < .95 else 0x110001
            n, full, head, runs, nxt = 0, 1, [], [], None
            for c in u:
                if n == limit: full = 0; break
                n += 1
                if type(c) is not int: raise Bad("type")
                if n <= 40: head.append(c)
                if c == nxt: nxt += 1            # consecutive ascending code points
                else:
                    if nxt is not None: runs.append(nxt - 1)
                    if len(runs) > 4000: full = 0; break
                    runs.append(small(c)); nxt = small(c) + 1
            if nxt is not None: runs.append(nxt - 1)
            other = iter(u); again = []
            for i, c in zip(range(len(head)), u):    # two iterations at a time
                again.append((c, next(other)))
            if again != [(c, c) for c in head]: runs = [-1, -1]
            q["iterFull"], q["iterN"], q["iter"] = full, n, runs
            for r in u.getRanges():
                if type(r) is not range or r.step != 1: raise Bad("type")
                q["ranges"] += [intOf(r.start), intOf(r.stop - 1)]
            idx = {-2, -1, 0, 1, size - 1, size, size + 1, 0x110000} | {rnd.randrange(max(1, size)) for _ in range(4)}
            acc = 0
            for r in u.getRanges():
                idx |= {acc, acc + len(r) - 1}; acc += len(r)
            for i in sorted(idx)[:40]: q["charAt"].append([i, opt(u.charAt(i))])
            for c in sample: q["indexOf"].append([c, opt(u.indexOf(c))])
            s = str(u)
            if type(s) is not str: raise Bad("type")
            q["str"] = s
        q["st"], _ = guarded(10, look)
        return self.emit("query", d, q=q, neweq=False)


    def strange(self, d):
        """Calls with arguments that no set can be made of; with every part
        of the library that looks at their type."""
        u, US = self.store[d], self.US
        things = [None, "a", "", 1.5, b"x", [1, 2], (0, 5), {1}, frozenset(), {}, object(), u.getRanges(), str(u), len]
        calls = [("new", US), ("in", lambda x: x in u), ("difference", lambda x: u - x)]
        calls += [(n, method(u, n)) for n in ("complement", "contains", "add", "remove", "retain", "addAll", "removeAll", "retainAll", "complementAll", "union")]
        seen = []
        for name, f in rnd.sample(calls, 5):
            x = rnd.choice(things)
            if x is None and name in ("new", "complement"): x = "a"
            if type(x) is float and name in ("add", "remove", "retain"): x = [x]
            st, v = guarded(5, f, x)
            seen.append([name, "refused" if st == "raise" else st])
        for x in rnd.sample(things, 3):
            st, v = guarded(5, lambda: (u == x, x == u, u in [x]))
            seen.append(["==", "no" if st == "ok" and v == (False,) * 3 else "yes" if st == "ok" else "refused"])
            st, v = guarded(5, lambda: (u != x, x != u))
            seen.append(["!=", "yes" if st == "ok" and v == (True,) * 2 else "no" if st == "ok" else "refused"])
        return self.emit("strange", d, extra={"calls": seen})


def mkgrid(points):
    return sorted({0, 0x110000} | {p for p in points if 0 < p < 0x110000})


def randomHistories(US, n, length, wild):
    out = []
    for _ in range(n):
        style = rnd.random()
        if style < .35:                          # dense: everything touches
            base = rnd.choice([0, 1, 60, 0xFFFD, 0x10FFF0, 0x10FFF8])
            pts = [base + i for i in range(0, 9)]
        elif style < .6:                         # both ends of the code space
            pts = [1, 2, 3, 0x10FFFD, 0x10FFFE, 0x10FFFF, rnd.randrange(4, 0x10FFF0)]
        else:
            pts = [rnd.randrange(0x110000) for _ in range(5)]
            pts += [p + 1 for p in pts[:3]] + [1, 0x10FFFF]
        grid = mkgrid(pts)
        h = History(US, grid)
        starts, ends = grid[:-1], [x - 1 for x in grid[1:]]
        singles = [s for s, e in zip(starts, ends) if s == e]
        below, above = [-1, -2, -7, -0x110000, -(1 << 29)], [0x110000, 0x110001, 0x10FFFF + 17, 1 << 29]

        def arg():
            if wild and rnd.random() < .5:
                x = rnd.random()
                if x < .25: return rnd.choice(below), rnd.choice(ends)
                if x < .5: return rnd.choice(starts), rnd.choice(above)
                if x < .6: return rnd.choice(below), rnd.choice(above)
                if x < .7:
                    v = rnd.choice(above) if 0x10FFFF in grid else 0x10FFFF
                    return rnd.choice([(v, v), (v, v + 3)]) if 0x10FFFF in grid else (0, ends[0])
                if x < .8 and 1 in grid: return rnd.choice([(-1, -1), (-9, -2), (-5, 0), (-7, -7)])
                a, b = rnd.choice(starts + ends + below + above), rnd.choice(starts + ends + below + above)
                if a > b: return a, b
            if singles and rnd.random() < .35:
                s = rnd.choice(singles); return s, s
            if rnd.random() < .07:
                s, e = rnd.choice(starts), rnd.choice(ends)
                return max(s, e + 1), min(s, e + 1) - 1  # reversed or empty
            i = rnd.randrange(len(starts)); j = rnd.randrange(i, min(len(ends), i + rnd.choice([1, 2, 3, 9])))
            return starts[i], ends[j]

        ok = True
        for step in range(length):
            hs = sorted(h.store)
            x = rnd.random()
            free = len(hs) + 1 if len(hs) < 4 else rnd.choice(hs)
            if not hs or x < .08:
                y = rnd.random()
                s, e = arg()
                if y < .3: ok = h.new(free)
                elif y < .5 and s == e: ok = h.new(free, "int", s, s)
                elif y < .75 or not hs: ok = h.new(free, "range", s, e)
                else: ok = h.new(free, "set", o=rnd.choice(hs))
            elif x < .14: ok = h.new(free, "set", o=rnd.choice(hs))
            elif x < .56:
                s, e = arg()
                ok = h.mutRange(rnd.choice(hs), rnd.choice(OPS + ["add"]), s, e)
            elif x < .70: ok = h.mutSet(rnd.choice(hs), rnd.choice(OPS), rnd.choice(hs))
            elif x < .76: ok = h.invert(rnd.choice(hs))
            elif x < .77: ok = h.clear(rnd.choice(hs))
            elif x < .90: ok = h.combine(free, rnd.choice(OPS), rnd.choice(hs), rnd.choice(hs))
            elif x < .92: ok = h.strange(rnd.choice(hs))
            else: ok = h.query(rnd.choice(hs))
            if not ok: break
        else:
            h.query(rnd.choice(sorted(h.store)))
        out.append(h)
    return out


def smallHistories(US):
    """Every set over a five-atom universe that touches both ends of the code
    space, under every operation with every range and every other set."""
    grid = [0, 1, 2, 0x10FFFE, 0x10FFFF, 0x110000]
    n = len(grid) - 1
    sets = list(range(1 << n))
    out = []

    def build(h, d, mask, way):
        ok = h.new(d)
        order = [i for i in range(n) if mask >> i & 1]
        if way == 1: order.reverse()
        for i in order:
            ok = ok and h.mutRange(d, "add", grid[i], grid[i + 1] - 1, form="2" if way == 0 else None)
        return ok

    ranges = [(grid[i], grid[j] - 1) for i in range(n) for j in range(i + 1, n + 1)]
    for A in sets:
        h = History(US, grid)
        build(h, 1, A, 0) and build(h, 2, A, 1) and h.query(1) and h.query(2)
        out.append(h)
        for f in OPS:
            h = History(US, grid)
            if not build(h, 1, A, A & 1): out.append(h); continue
            for s, e in ranges:
                for form in (("i", "2") if s == e else ("2",)) + (("r",) if f == "complement" else ()):
                    if not (h.new(2, "set", o=1) and h.mutRange(2, f, s, e, form=form)): break
                else: continue
                break
            out.append(h)
        pairs = sets if THOROUGH else [B for B in sets if rnd.random() < .34]
        for B in pairs:
            h = History(US, grid)
            out.append(h)
            if not (build(h, 1, A, 0) and build(h, 2, B, 1)): continue
            for f in OPS:
                w = rnd.randrange(2)
                if not (h.new(3, "set", o=1) and h.mutSet(3, f, 2, form=w) and h.combine(3, f, 1, 2, form=1 - w)): break
                if THOROUGH and not (h.new(3, "set", o=1) and h.mutSet(3, f, 2, form=1 - w) and h.combine(3, f, 1, 2, form=w)): break
    return out


def manyHistories(US, n):
    """Sets of dozens or hundreds of ranges; every call between two rounds of
    queries of the same set, so that nothing remembered from the first may
    leak into the second."""
    out = []
    for k in range(n):
        size = rnd.choice([12, 20, 34, 34, 66, 66, 130] if k % 12 else [300, 600])
        base = rnd.choice([0, 0x41, 0xFF00, 0x10FF00, 0x10000])
        if rnd.random() < .5: pts = rnd.sample(range(0x110000), size)
        else:
            pts, p = [], base                        # ranges and gaps of a few code points
            while len(pts) < size and p < 0x110000: p += rnd.choice([1, 1, 1, 2, 5]); pts.append(p)
        grid = mkgrid(pts)
        h = History(US, grid)
        out.append(h)
        starts, ends = grid[:-1], [x - 1 for x in grid[1:]]
        m = len(starts)

        def build(d):
            first = rnd.randrange(2)
            order = [i for i in range(first, m, 2) if rnd.random() < .93]
            way = rnd.random()
            if way < .4: pass
            elif way < .6: order.reverse()
            else: rnd.shuffle(order)
            # the set is there already when the history starts to be looked at
            u = US()
            for i in order[:-1]:
                st, _ = guarded(5, u.addRange, starts[i], ends[i])
                if st != "ok": break
            return d, u, order

        # building is itself a history of additions: too long to look at after
        # every step, so only the last step is a step here, and the ones before
        # come in as one "setup" event each
        for d in (1, 2):
            _, u, order = build(d)
            if not h.setup(d, u, [[starts[i], ends[i]] for i in order[:-1]]): break
        else:
            def arg():
                x = rnd.random()
                i = rnd.randrange(m)
                if x < .35: return starts[i], ends[i]
                j = rnd.randrange(i, min(m, i + rnd.choice([2, 3, 5, 40, 700])))
                return starts[i], ends[j]
            ok = h.query(1)
            for step in range(10 if size < 200 else 6):
                if not ok: break
                # large sets are few: each of them meets a copy that is almost equal
                x = rnd.random() if size < 200 or step else .4
                d = rnd.choice([1, 1, 1, 2])
                if rnd.random() < .5: ok = h.query(d)
                if not ok: break
                if size >= 200 and step >= 2:              # two large sets, by every operation
                    f = OPS[step - 2]
                    ok = h.combine(3, f, 1, 2) if rnd.random() < .5 else h.new(3, "set", o=1) and h.mutSet(3, f, 2)
                    d = 3
                elif x < .3: s, e = arg(); ok = h.mutRange(d, rnd.choice(OPS), s, e)
                elif x < .5:
                    # a copy that differs in one place, often without having
                    # more or fewer ranges: told apart by == and !=
                    st, ins = guarded(5, lambda: [c in h.store[d] for c in starts])
                    if st != "ok": ok = h.query(d); break
                    alike = [i for i in range(1, m - 1) if ins[i - 1] != ins[i + 1]]
                    i = rnd.choice(alike) if alike and rnd.random() < .8 else rnd.randrange(m)
                    where = rnd.random()
                    if alike and where < .3: i = alike[-1]
                    elif alike and where < .6: i = alike[len(alike) // 2]
                    ok = h.new(3, "set", o=d) and h.mutRange(3, "complement", starts[i], ends[i])
                    d = 3
                elif x < .7: ok = h.mutSet(d, rnd.choice(OPS), rnd.choice(sorted(h.store)))
                elif x < .8: ok = h.invert(d)
                elif x < .9: ok = h.combine(3, rnd.choice(OPS), d, rnd.choice(sorted(h.store))); d = 3
                else: ok = h.new(3, "set", o=d); d = 3
                ok = ok and h.query(d)
    # one call between two queries, on small sets: all mutators, by all names
    for k in range(n):
        pts = sorted(rnd.sample(range(1, 40), 7)) if k % 3 else [1, 2, 5, 0x10FFFE, 0x10FFFF]
        grid = mkgrid(pts)
        h = History(US, grid)
        out.append(h)
        starts, ends = grid[:-1], [x - 1 for x in grid[1:]]
        m = len(starts)
        ok = h.new(1) and h.new(2, "range", starts[m // 2], ends[rnd.randrange(m // 2, m - 1)])
        for _ in range(3):
            i = rnd.randrange(m)
            ok = ok and h.mutRange(1, "add", starts[i], ends[i])
        for _ in range(14):
            ok = ok and h.query(1)
            if not ok: break
            x = rnd.randrange(12)
            i = rnd.randrange(m); j = rnd.randrange(i, min(m, i + 3))
            if x < 4: ok = h.mutRange(1, OPS[x], starts[i], ends[j])
            elif x < 6: ok = h.mutRange(1, rnd.choice(OPS), starts[i], ends[i])
            elif x < 10: ok = h.mutSet(1, OPS[x - 6], rnd.choice([1, 2, 2, 2]))
            elif x == 10: ok = h.invert(1)
            else: ok = h.clear(1) if rnd.random() < .4 else h.mutRange(2, rnd.choice(OPS), starts[i], ends[j]) and h.query(2)
        if ok: h.query(1)
    return out


def plannedHistories(US, path):
    out = []
    for line in open(path):
        plan = json.loads(line)
        grid = plan["grid"]
        h = History(US, grid)
        for p in plan["plan"]:
            k = p["k"]
            if k == "new": ok = h.new(p["d"], p["ak"], p["s"], p["e"], p["o"])
            elif k == "mut" and p["f"] == "clear": ok = h.clear(p["d"])
            elif k == "mut" and p["f"] == "invert": ok = h.invert(p["d"])
            elif k == "mut" and p["ak"] == "set": ok = h.mutSet(p["d"], p["f"], p["o"])
            elif k == "mut": ok = h.mutRange(p["d"], p["f"], p["s"], p["e"])
            elif k == "bin": ok = h.combine(p["d"], p["f"], p["a"], p["o"])
            else: ok = h.query(p["d"])
            if not ok: break
        out.append(h)
    return out


def main():
    scratch = tempfile.mkdtemp(prefix="recset")
    sys.path.insert(0, REPO)
    st, mod = loadModule("UnicodeData.UnicodeSet")
    US = getattr(mod, "UnicodeSet", None) if st == "ok" else None
    if US is None:
        ev = {"k": "new", "d": 1, "f": "", "ak": "none", "s": 0, "e": 0, "o": 0, "a": 0, "st": "raise", "ret": "none",
              "snap": [], "eqs": [], "q": 0}
        writeJson(OUT, [{"grid": [0, 0x110000], "events": [ev]}])
        return
    k = 6 if THOROUGH else 1
    if MODE == "random": hs = randomHistories(US, 220 * k, 45, False)
    elif MODE == "wild": hs = randomHistories(US, 220 * k, 40, True)
    elif MODE == "many": hs = manyHistories(US, 70 * k)
    elif MODE == "small": hs = smallHistories(US)
    else: hs = plannedHistories(US, sys.argv[3])
    writeJson(OUT, [{"grid": h.grid, "events": h.events} for h in hs if h.events])


main()
