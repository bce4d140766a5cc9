#!/usr/bin/env python3
"""Made /verif/data/headers from the ICU 74 headers installed here (libicu-dev):
the text of each, and the constants that C compilers see in it: enumerators
from clang's syntax tree, macros from gcc -dD, both outside the header's
conditionals, in the order of the file, with the values gcc gives them."""
import gzip, json, os, re, subprocess, sys, tempfile
INC, OUT = "/usr/include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "headers")
NAMES = sys.argv[1:] or "uchar uscript ubidi ushape utrace ucptrie uset ures ustringtrie".split()
IGNORE = ["U_NO_NUMERIC_VALUE"]


def uncommented(text):
    """Comments blanked out, lines kept."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', lambda m: m.group() if m.group()[0] == '"' else re.sub(r"[^\n]", " ", m.group()), text, flags=re.S)


def depths(text):
    d, out, guard = 0, [], True
    for l in uncommented(text).split("\n"):
        s = l.strip()
        if re.match(r"#\s*if", s):
            if guard: guard, d = False, d - 1
            d += 1
        out.append(d)
        if re.match(r"#\s*endif", s): d -= 1
    return out


def main():
    for n in NAMES:
        path = f"{INC}/unicode/{n}.h"
        text = open(path).read()
        depth = depths(text)
        src = f'#include "unicode/{n}.h"\n'
        ast = json.loads(subprocess.run(["clang", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-x", "c", "-I", INC, "-"],
                                        input=src, capture_output=True, text=True, check=True).stdout)
        found, state = [], {"file": None, "line": None}
        after = []
        def walk(node, hidden=None):
            # clang writes file and line only where they change
            def loc(l):
                if not l: return
                for k in ("spellingLoc", "expansionLoc"):
                    if k in l: loc(l[k])
                if "file" in l: state["file"] = l["file"]
                if "line" in l: state["line"] = l["line"]
            loc(node.get("loc"))
            here = (state["file"], state["line"])
            r = node.get("range", {})
            loc(r.get("begin")); loc(r.get("end"))
            if node.get("kind") == "EnumDecl": after.append(None)
            if node.get("kind") == "EnumConstantDecl" and here[0] == path:
                found.append((here[1], node["name"]))
                after.append((here[1], node["name"], bool(node.get("inner") and any(i.get("kind") == "ConstantExpr" for i in node["inner"]))))
            for i in node.get("inner", []): walk(i)
        walk(ast)
        bad = [x for k, x in enumerate(after) if k and x and after[k - 1] and not x[2] and depth[x[0] - 1] == 0 and depth[after[k - 1][0] - 1] > 0]
        dd = subprocess.run(["gcc", "-E", "-dD", "-x", "c", "-I", INC, "-"], input=src, capture_output=True, text=True, check=True).stdout
        cur, line = None, 0
        for l in dd.split("\n"):
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m: cur, line = m.group(2), int(m.group(1)); continue
            m = re.match(r"#define (\w+)(\(?)[ ]?(.*)", l)
            if m and cur == path and not m.group(2) and m.group(3).strip(): found.append((line, m.group(1)))
            line += 1
        found = [(l, c) for l, c in sorted(set(found)) if depth[l - 1] == 0 and c not in IGNORE]
        c = "#include <stdio.h>\n" + src + "int main(void) {\n" + "".join(
            f'printf(_Generic(({x}), char *: "%s\\ttext\\t%s\\n", default: "%s\\tint\\t%lld\\n"), "{x}", _Generic(({x}), char *: ({x}), default: (long long)({x})));\n' for _, x in found) + "}\n"
        with tempfile.TemporaryDirectory() as t:
            p = subprocess.run(["gcc", "-w", "-I", INC, "-x", "c", "-", "-o", f"{t}/a"], input=c, capture_output=True, text=True)
            if p.returncode: print(n, "not compiled", p.stderr[:600]); continue
            out = subprocess.run([f"{t}/a"], capture_output=True, text=True, check=True).stdout
        constants = [l.split("\t") for l in out.splitlines()]
        constants = [[a, b, v] if b == "text" else [a, b, int(v)] if abs(int(v)) < 1 << 30 else [a, "big", v] for a, b, v in constants]
        print(n, len(constants), "implicit after conditional:", bad)
        if bad: continue
        with open(f"{OUT}/{n}.h.gz", "wb") as f: f.write(gzip.compress(text.encode(), mtime=0))
        with open(f"{OUT}/{n}.h.json.gz", "wb") as f: f.write(gzip.compress(json.dumps({"ignore": IGNORE, "constants": constants}).encode(), mtime=0))


main()
