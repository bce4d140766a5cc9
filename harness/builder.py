"""Shared by the recorders of the module builder: its imports, and C data
sources in the layout of ICU's generators."""
import types
from common import *


def loadBuilder():
    """ModuleBuilder, with a stand-in for FontDocTools (not installed here)."""
    sys.path.insert(0, os.path.join(REPO, "module_builder"))

    class ArgumentIterator:
        def __init__(self, arguments): self.left = list(arguments)
        def __iter__(self): return self
        def __next__(self):
            if not self.left: raise StopIteration
            return self.left.pop(0)
        def nextExtra(self, what):
            if not self.left: raise ValueError(f"Missing {what}.")
            return self.left.pop(0)
    pkg, mod = types.ModuleType("FontDocTools"), types.ModuleType("FontDocTools.ArgumentIterator")
    mod.ArgumentIterator, pkg.ArgumentIterator = ArgumentIterator, mod
    sys.modules.update({"FontDocTools": pkg, "FontDocTools.ArgumentIterator": mod})
    import ModuleBuilder
    return ModuleBuilder


def number(rnd, bits=None):
    b = bits or rnd.choice([1, 4, 8, 16, 16, 16, 32])
    v = rnd.choice([0, 1, (1 << b) - 1, rnd.randrange(1 << b), rnd.randrange(1 << b)])
    return -v if bits is None and rnd.random() < .05 else v


def literal(rnd, v, hexa=None):
    if hexa is None: hexa = rnd.random() < .7
    return hex(v) if hexa and abs(v) > 9 else str(v)


def declare(rnd, d):
    """C text of a declaration: what ICU's usrc_writeArray and its callers print."""
    n, v, k = d["n"], [int(x) for x in d["v"]], d["k"]
    if k == "scalar": return f"static const int32_t {n}={literal(rnd, v[0], rnd.random() < .2)};\n"
    if k == "array":
        hexa = rnd.choice([True, True, False, None])
        items = [literal(rnd, x, hexa) for x in v]
        width = rnd.choice([8, 16, 16])
        rows = [",".join(items[i:i + width]) for i in range(0, len(items), width)]
        size = rnd.choice([str(len(v)), "UBIDI_IX_TOP", "X_COUNT+1", "0x%x" % len(v)])
        body = rows[0] if len(rows) == 1 and rnd.random() < .5 else "\n" + ",\n".join(rows) + rnd.choice(["\n", "\n", ""])
        return f"static const {rnd.choice(['uint16_t', 'uint32_t', 'int32_t', 'uint8_t'])} {n}[{size}]={{{body}}};\n"
    pad = " " * (4 if k == "props" else 2 if rnd.random() < .5 else 4)
    idx = rnd.choice(["x_index", n + "_index", "trieIndex"])
    f = [idx, f"{idx}+{v[3]}" if rnd.random() < .8 else "NULL", "NULL", str(v[3]), str(v[4])] + [hex(x) for x in v[5:]]
    fields = ",\n".join(pad + x for x in f) + ",\n" + pad + rnd.choice(["NULL, 0, FALSE, FALSE, 0, NULL", "NULL, 0, false, false, 0, NULL"]) + "\n"
    if k == "trie": return f"static const UTrie2 {n}={{\n{fields}}};\n"
    before = ["NULL"] + [f"x_{w}" for w in rnd.sample(["indexes", "mirrors", "jgArray", "jgArray2", "exceptions", "unfold"], rnd.randrange(1, 5))]
    return f"static const UBiDiProps {n}={{\n" + "".join(f"  {b},\n" for b in before) + "  {\n" + fields + "  },\n  { " + \
        ",".join(str(rnd.randrange(4)) for _ in range(4)) + " }\n};\n"


def trieFields(rnd):
    return ["0", "0", "0"] + [str(number(rnd, b)) for b in (16, 16, 12, 16, 32, 16, 21, 17)]


def array(rnd, n=None):
    m = n if n is not None else rnd.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 100, 257, rnd.randrange(1, 600)])
    bits = rnd.choice([None, 8, 16, 32])
    return [str(number(rnd, bits)) for _ in range(m)]


def sourceText(rnd, declarations):
    text = "// © 2016 and later: Unicode, Inc. and others.\n/*\n * Copyright (C) 1999-2016\n *\n * file name: x_props_data.h\n * machine-generated by: icu/tools/unicode/c/genprops/x.cpp\n */\n\n#ifdef INCLUDED_FROM_X_C\n\n"
    text += "static const UVersionInfo x_dataVersion={0xd,0,0,0};\n\n"
    for d in declarations:
        if rnd.random() < .1: text += f"/* {rnd.choice(['total size', 'index'])}: {rnd.randrange(9999)} bytes */\n"
        text += declare(rnd, d) + rnd.choice(["\n", "\n", ""])
    return text + "\n#endif  // INCLUDED_FROM_X_C\n"


def bindings(path):
    """The names a module binds, in order, with their values."""
    ns = {"__name__": "module"}
    exec(compile(open(path).read(), "module", "exec"), ns)
    out = []
    for n, v in ns.items():
        if n in ("__name__", "__builtins__", "__doc__"): continue
        if type(v) is int: out.append({"n": n, "t": "int", "v": [str(v)]})
        elif type(v) is str: out.append({"n": n, "t": "text", "v": [v]})
        elif type(v) is list: out.append({"n": n, "t": "list", "v": [str(x) if type(x) is int else type(x).__name__ for x in v]})
        else: out.append({"n": n, "t": "function" if callable(v) else type(v).__name__, "v": []})
    return out
