"""Records modules that module_builder's HeaderFile wrote, for
spec/CHeadersTrace.tla.

usage: rec_header.py OUT plans PLANS    headers laid out as TLC generated them
       rec_header.py OUT icu            the committed ICU headers
"""
import gzip, multiprocessing
from pathlib import Path
from common import *

OUT, MODE = sys.argv[1:3]
sys.path.insert(0, os.path.join(REPO, "module_builder"))

WORDS = ["text", "see", "the value", "#endif", "#define X 1", "enum {", "};", "= 5, x", "$", "costs $1", "http://x.y/z", "a, b", "\"q\"", "#if 0",
         "typedef enum {", "}", "{", "@stable ICU 2.0", "#", "\\uXXXX", "100%", "[E000]", "'", "éα"]
NAMES = ["U", "UCHAR", "U_A", "U_A1", "U_AB", "UPROPS", "enumX", "defineY", "typedefZ", "K", "_U", "u_x", "X_H", "endif"]
PRECEDENCE = {"|": 1, "&": 3, "<<": 4, ">>": 4, "+": 5, "-": 5, "*": 6}
ENDINGS = ["_INITIALIZER", "_MASK", "_SHIFT", "_LIMIT", "_START", "_H", "_API", "_VALUE", "_DEPRECATED", "_INTERNAL", "x", "_0", "__"]
MASK = "def U_MASK(x: int) -> int: return 1<<x\n"


def quoted(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


class Header:
    def __init__(self, rnd, plan):
        self.rnd, self.plan = rnd, plan
        self.file = rnd.choice(["uprops.h", "ucase.h", "uchar.h", "x1.h", "u_b.h", "Utf.h"])
        self.guardName = self.file.replace(".", "_").upper()
        self.extra, self.extraBound = [], []
        self.mask = rnd.random() < .6
        if self.mask: self.extra.append(MASK); self.extraBound.append({"n": "U_MASK", "t": "function", "v": 0})
        if rnd.random() < .3: self.extra.append("EXTRA_A = 5"); self.extraBound.append({"n": "EXTRA_A", "t": "int", "v": 5})
        self.env, self.own, self.used, self.ignore = {}, {}, set(), []
        if rnd.random() < .3: self.ignore.append("U_NOT_THERE")
        self.lines, self.events = [], []

    # ---- pieces
    def say(self, no=("*/",), least=0):
        r = self.rnd
        t = " ".join(r.choice(WORDS) for _ in range(r.randrange(least, 4)))
        while any(x in t for x in no) or t.endswith("\\"): t = "text"
        return t

    def pad(self): return self.rnd.choice(["", "", " ", "    ", "\t"])

    def name(self):
        while True:
            n = self.rnd.choice(NAMES) + self.rnd.choice(["", "_", "_B", "2", "_COUNT"]) + (str(self.rnd.randrange(99)) if self.rnd.random() < .7 else "")
            if self.rnd.random() < .3: n += self.rnd.choice(ENDINGS)
            if n not in self.used | set(self.ignore) | {"U_MASK", "EXTRA_A", "enum", "define", "typedef"}:
                self.used.add(n)
                return n

    def remarks(self, least):
        r = self.rnd
        def one(): return r.choice(["/*", "/** ", "/* "]) + self.say(("*/", "/*"), 1) + r.choice([" */", "*/", "**/"])
        return r.choice(["", " "]).join(one() for _ in range(least + (r.random() < .2)))

    def tail(self, l):
        r, k = self.rnd, l["tail"]
        s = r.choice(["", " ", "  ", "\t"])
        if k == "none": return r.choice(["", "", " "])
        if k == "open" and r.random() < .3: s += r.choice(["/* x */ ", "/**/", "/* \"q */ ", "/** // */"])
        if k == "open": return s + r.choice(["/* ", "/** ", "/**< ", "/*"]) + self.say(("*/", "/*", "//", "http"), 1)
        c = "/* " + self.say(("*/", "/*"), 1) + r.choice([" */", "*/"])
        d = r.choice(["/**< ", "/** ", "/*"]) + self.say(("*/", "/*")) + " */"
        e = r.choice(["// ", "//", "///", "//< "]) + self.say((), 1)
        if k == "c": return s + r.choice([c, c, c + " " + d, c + " " + e, "/**/"])
        if k == "doc": return s + r.choice([d, d, d + d])
        return s + r.choice([e, e, e + " " + c])

    # ---- expressions: (tree, value)
    def leaf(self, refs, env):
        r = self.rnd
        names = [n for n in refs if abs(env[n]) < BIG]
        if names and r.random() < .5:
            n = r.choice(names)
            return {"o": "ref", "n": n}, env[n]
        v = r.choice([0, 1, 2, 7, 10, 31, 255, 0x1000, 0xFFFF, 0x10FFFF, r.randrange(1 << r.randrange(1, 29))])
        return {"o": "int", "v": v}, v

    def tree(self, refs, env, depth, mask):
        r = self.rnd
        for _ in range(20):
            if depth == 0 or r.random() < .3: return self.leaf(refs, env)
            o = r.choice(["+", "-", "*", "<<", ">>", "|", "&", "neg"] + (["mask"] * 2 if mask else []))
            l, lv = self.tree(refs, env, depth - 1, mask)
            if o == "neg": e, v = {"o": o, "l": l}, -lv
            elif o == "mask":
                if not 0 <= lv <= 27: l, lv = {"o": "int", "v": 5}, 5
                e, v = {"o": o, "l": l}, 1 << lv
            else:
                x, xv = self.tree(refs, env, depth - 1, mask)
                if o in ("<<", ">>") and not 0 <= xv <= 24: x, xv = {"o": "int", "v": 3}, 3
                if o in ("<<", ">>", "|", "&") and (lv < 0 or xv < 0): continue
                v = {"+": lambda: lv + xv, "-": lambda: lv - xv, "*": lambda: lv * xv, "<<": lambda: lv << xv, ">>": lambda: lv >> xv,
                     "|": lambda: lv | xv, "&": lambda: lv & xv}[o]()
                e = {"o": o, "l": l, "r": x}
            if abs(v) < 1 << 28: return e, v
        return self.leaf(refs, env)

    def tokens(self, e, above=0):
        """Tokens; with the parentheses C needs and some it does not."""
        r, o = self.rnd, e["o"]
        if o == "ref": t = [e["n"]]
        elif o == "text": t = [quoted(e["v"])] if r.random() < .8 else [quoted(e["v"][:2]), quoted(e["v"][2:])]
        elif o == "big": t = [r.choice([e["v"], hex(int(e["v"]))])]
        elif o == "int": t = [r.choice([str(e["v"]), str(e["v"]), hex(e["v"]), "0x%X" % e["v"], "0X%x" % e["v"], "0x%08x" % e["v"]])]
        elif o == "neg": t = ["-"] + self.tokens(e["l"], 9)
        elif o == "mask": t = ["U_MASK", "("] + self.tokens(e["l"]) + [")"]
        else:
            p = PRECEDENCE[o]
            t = self.tokens(e["l"], p) + [o] + self.tokens(e["r"], p + 1)
            if p < above or r.random() < .15: t = ["("] + t + [")"]
        if o == "neg" and above > 6 or (o in ("int", "ref", "neg") and r.random() < .1): t = ["("] + t + [")"]
        return t

    def join(self, t):
        out = ""
        for i, x in enumerate(t):
            glue = i and (out[-1] == x[0] and x[0] in '-"' or (out[-1].isalnum() and x[0].isalnum()))
            out += (" " if glue or self.rnd.random() < .4 and i and t[i - 1] != "U_MASK" else "") + x
        return out

    def define(self, l):
        """The text after #define, as tokens; and the fields of the event."""
        r = self.rnd
        if l["what"] == "flag": return [self.name()], {"what": "flag"}
        if l["what"] == "function":
            n = self.name()
            body = r.choice([["1"], ["(", "a", ")"], ["do", "{"] + ["f();"] * 3 + ["} while(0)"], ["X", "=", "5"], ["a", "+", "1"], ["{", "0", "}"]])
            return [n + r.choice(["(a)", "(a, b)", "(a,b)", "(a,b,c)", "()", "(...)", "(a, ...)"])] + body, {"what": "function"}
        n = self.name()
        if r.random() < .1:
            if self.live: self.ignore.append(n)
            junk = r.choice([["((double)-123456789.)"], ["{", "0,", "1", "}"], ["UINT32_MAX"], ["5"]])
            return [n] + junk, {"what": "define", "n": n, "e": {"o": "int", "v": 0}}
        k = r.random()
        if k < .08: e, v = {"o": "text", "v": r.choice(["74.2", "a b", "x,y;", "#", "http://x.y/z", "/* no comment */", "//", "/*", "*/", 'say "hi" // x', "back\\", "\\\"", "", "it's", "a\nb",
                                                     "  two  ", "= 5", "#define X 1"])}, None
        elif k < .16: e, v = {"o": "big", "v": str(r.choice([1 << 31, 0xFFFFFFFF, 1 << 30, 0x7FFFFFFF, 1 << 40]))}, None
        else: e, v = self.tree(list(self.env), self.env, r.randrange(4), self.mask)
        if self.live and v is not None: self.env[n] = v
        return [n] + self.tokens(e), {"what": "define", "n": n, "e": e}

    # ---- lines
    def build(self):
        r = self.rnd
        depth = 0
        for i, l in enumerate(self.plan):
            k = l["k"]
            self.live = depth == 0
            ev = {"k": k}
            if k == "blank": t = self.pad()
            elif k == "note": t = self.pad() + "//" + r.choice(["", " ", "/", "*"]) + self.say(()) + r.choice(["", " */", " /* x"])
            elif k == "remark": t = self.pad() + self.remarks(1) + r.choice(["", "", "", "// ", " //"])
            elif k == "open": t = self.pad() + r.choice(["", "", "", self.remarks(1) + " "]) + r.choice(["/*", "/**", "/* ", "/** "]) + self.say()
            elif k == "text": t = self.pad() + r.choice(["", "* ", "// ", "/* ", "*"]) + self.say() + r.choice(["", "", "", " \\"])
            elif k == "close": t = self.pad() + r.choice(["", "* ", "// ", "/* "]) + self.say() + r.choice(["*/", " */", "**/"]) + r.choice(["", "", "", " // " + self.say(()), " " + self.remarks(1)])
            elif k == "guard": t = "#ifndef " + r.choice(["", "__"]) + self.guardName + r.choice(["", "__"]) + (self.tail(l) if r.random() < .3 and l["tail"] != "open" else r.choice(["", " "]))
            elif k == "if":
                t = r.choice(["#if 0", "#if 1", "#ifdef X", "#ifndef U_HIDE_DRAFT_API", "#if !UCONFIG_NO_X && \\\n    U_SHOW", "#ifdef " + self.guardName,
                              "#ifndef U_HIDE_DEPRECATED_API" + ("  // text" if l["tail"] != "open" else ""), "#if U_SHOW /* x */", "#ifndef " + self.guardName + "X", "#ifdef __cplusplus"]).replace("\\\n    ", "") + self.tail(l)
                depth += 1
            elif k == "else": t = r.choice(["#else", "#elif X", "#else", "#elif !defined(X)", "#else /* X */"]) + self.tail(l)
            elif k == "endif":
                t = r.choice(["#endif", "#endif", "#endif /* X_H */", "#endif\t/* #if */"]) + self.tail(l)
                depth = max(0, depth - 1)
            elif k in ("define", "flag", "function"):
                tok, more = self.define({"what": k})
                ev |= more
                t = "#define" + r.choice([" ", " ", "  ", "\t"]) + tok[0] + (r.choice([" ", "  ", "\t", "     "]) + self.join(tok[1:]) if len(tok) > 1 else "") + self.tail(l)
            elif k == "first":
                end = next(j for j in range(i, len(self.plan)) if self.plan[j]["k"] == "last")
                tok, self.lastEvent = self.define(self.plan[end])
                cuts = sorted(r.randrange(1, len(tok) + 1) for _ in range(end - i))
                self.segments = [tok[a:b] for a, b in zip([1] + cuts, cuts + [len(tok)])]
                t = "#define " + tok[0] + " " + self.join(self.segments.pop(0)) + r.choice(["", "", " /* " + self.say(("*/", "/*"), 1) + " */"]) + r.choice([" ", "  ", "\t"]) + "\\"
            elif k == "part":
                s = self.segments.pop(0)
                t = self.pad() + self.join(s) + r.choice(["", "", " /* " + self.say(("*/", "/*"), 1) + " */"]) + " \\"
            elif k == "last":
                s = self.segments.pop(0)
                t = self.pad() + self.join(s) + (r.choice(["", "", " /* text */", "  // text"]) if s else "")
                ev |= self.lastEvent
            elif k == "other":
                t = self.pad() + r.choice(['#include "x.h"', "#undef X", "#pragma once", "typedef struct X X;", "typedef int32_t UChar32;", "struct X {", "int32_t a;",
                                           "};", "U_CAPI int32_t U_EXPORT2", "u_f(int32_t a, enum X b);", 'extern "C" {', "U_CDECL_BEGIN", "typedef enum X X;",
                                           "static const int32_t A=5;", "typedef UBool U_CALLCONV", "enumX = 5,", "struct { int a; } b;", "int enum_x;",
                                           "enum UFoo which);", "enum X b;", "enum X u_f(int32_t a);", "enum X which, int32_t a,"]) + self.tail(l)
            elif k == "enum":
                t = r.choice(["typedef enum X", "typedef enum", "enum X", "enum", "typedef  enum UProperty", "enum"])
                if l["brace"]: t += r.choice([" {", "{", "  {"])
                t = self.pad() + t + self.tail(l)
                ev["brace"] = l["brace"]
                if self.live: self.own = {}
            elif k == "brace": t = self.pad() + "{" + self.tail(l)
            elif k == "entry":
                n = self.name()
                if r.random() < .05: self.ignore.append(n)
                ev |= {"n": n, "has": l["has"]}
                t = n
                if l["has"]:
                    e, v = self.tree(list(self.own), self.own, r.randrange(3), False)
                    ev["e"] = e
                    t += r.choice(["=", " = ", " =", "= ", "      = "]) + self.join(self.tokens(e))
                    self.follow = v
                if self.live:
                    if not l["has"]: v = self.follow if self.own else 0
                    self.own[n] = self.env[n] = v
                    self.follow = v + 1
                after = next((p["k"] for p in self.plan[i + 1:] if p["k"] in ("entry", "done")), "done")
                t = self.pad() + t + (r.choice(["", " "]) + "," if after == "entry" or r.random() < .5 else "") + self.tail(l)
            elif k == "done": t = self.pad() + r.choice(["};", "} X;", "}X;", "} X ;", "} ;"]) + self.tail(l)
            if k in ("flag", "function", "define", "other", "enum", "brace", "entry", "done", "if", "else", "endif"): ev["tail"] = l["tail"]
            if k not in ("blank", "note", "remark", "open", "text", "close", "part", "last", "first") and r.random() < .08: t = self.remarks(0) + self.pad() + t
            self.lines.append(t)
            self.events.append(ev)
        return self


def observe(text, file, extra, ignore, rnd, names):
    scratch = tempfile.mkdtemp()
    src, out = os.path.join(scratch, "icu", "common"), os.path.join(scratch, *rnd.choice([["out"], ["a", "b"]]))
    os.makedirs(src)
    with open(os.path.join(src, file), "w") as f: f.write(text)
    other = rnd.random() < .4
    if other:
        os.makedirs(os.path.join(scratch, "icu", "other"))
        with open(os.path.join(scratch, "icu", "other", "other.h"), "w") as f:
            f.write("".join(rnd.choice([f"#define {n} 1234321\n", f"enum {{\n    {n} = 4321,\n}};\n", "/* no\n more */\n"]) for n in rnd.sample(names, min(len(names), 6))))
    bound = []
    def go():
        from HeaderToPtyhon import HeaderFile
        kw = {}
        if extra: kw["extraCode"] = list(extra)
        if ignore: kw["ignore"] = list(ignore)
        h = HeaderFile(Path(scratch) / "icu", "common/" + file, Path(out), **kw)
        if other:   # of two headers at a time each is translated by itself
            o = HeaderFile(Path(scratch) / "icu", "other/other.h", Path(out) / "other")
            if rnd.random() < .5: o.translate()
        h.translate()
        if other and rnd.random() < .5: o.writeFile()
        h.writeFile()
        ns = {"__name__": "header"}
        exec(compile(open(os.path.join(out, file.replace(".", "_").lower() + ".py")).read(), "header", "exec"), ns)
        for n, v in ns.items():
            if n in ("__name__", "__builtins__", "__doc__"): continue
            if type(v) is int: bound.append({"n": n, "t": "int", "v": v} if abs(v) < BIG else {"n": n, "t": "big", "v": str(v)})
            elif type(v) is str: bound.append({"n": n, "t": "text", "v": v})
            else: bound.append({"n": n, "t": "function" if callable(v) else type(v).__name__, "v": 0})
    st, x = guarded(20, go)
    return {"k": "module", "st": st if st == "ok" else f"{st} {x}", "bound": bound}


def planned(t):
    n, plan = t
    rnd = random.Random(f"{SEED}-header-{n}")
    h = Header(rnd, plan).build()
    m = observe("\n".join(h.lines) + "\n", h.file, h.extra, h.ignore, rnd, sorted({e["n"] for e in h.events if "n" in e and e["n"].isidentifier()}))
    return {"file": h.file, "ignore": h.ignore, "extra": h.extraBound, "text": h.lines, "events": h.events + [m]}


def icu(name):
    d = json.load(gzip.open(os.path.join(DATA, "headers", name + ".json.gz")))
    text = gzip.open(os.path.join(DATA, "headers", name + ".gz")).read().decode()
    m = observe(text, name, [MASK], d["ignore"], random.Random(0), [n for n, *_ in d["constants"]])
    events = [{"k": "define", "what": "define", "tail": "none", "n": n, "e": {"o": "int" if t == "int" else t, "v": v}} for n, t, v in d["constants"]]
    return {"file": name, "ignore": [], "extra": [{"n": "U_MASK", "t": "function", "v": 0}], "text": [], "events": events + [m]}


def main():
    with multiprocessing.Pool(8) as pool:
        if MODE == "plans":
            plans = [json.loads(l)["plan"] for l in open(sys.argv[3])]
            hs = pool.map(planned, list(enumerate(plans)), chunksize=8)
        else:
            hs = pool.map(icu, sorted(n[:-8] for n in os.listdir(os.path.join(DATA, "headers")) if n.endswith(".json.gz")))
    writeJson(OUT, hs)


if __name__ == "__main__": main()
