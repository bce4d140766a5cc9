"""Records data modules that ModuleBuilder wrote, for
spec/DataSourcesTrace.tla.

usage: rec_module.py OUT
"""
import multiprocessing
from pathlib import Path
from builder import *

OUT = sys.argv[1]
SOURCES = 1500 if THOROUGH else 150
NAMES = ["props", "propsTrie", "propsTrie_index", "propsVectors", "propsVectorsTrie", "propsVectorsTrie_index", "propsVectorsColumns", "scriptExtensions",
         "ubidi_props_trieIndex", "ubidi_props", "ubidi_props_jgArray", "ubidi_props_jgArray2", "a", "index", "trieIndex", "Trie", "x", "_x", "x2", "countPropsVectors"]


def record(n):
    rnd = random.Random(f"{SEED}-module-{n}")
    names = rnd.sample(NAMES, rnd.randrange(1, 9))
    source = []
    for x in names:
        k = rnd.choice(["array", "array", "array", "scalar", "trie", "props"])
        v = array(rnd) if k == "array" else [str(number(rnd))] if k == "scalar" else trieFields(rnd)
        source.append({"k": k, "n": x, "v": v})
    asked = rnd.sample(source, rnd.randrange(1, len(source) + 1))
    requests = [{"k": d["k"], "n": d["n"], "prefix": rnd.choice([d["n"], "p", "ubidi_props_trie"]) + str(i)} for i, d in enumerate(asked)]
    scratch = tempfile.mkdtemp()
    os.makedirs(os.path.join(scratch, "icu", "common"))
    with open(os.path.join(scratch, "icu", "common", "x_data.h"), "w") as f: f.write(sourceText(rnd, source))
    out = Path(scratch) / rnd.choice(["out", "a/b"])
    bound = []
    def go():
        b = loadBuilder().ModuleBuilder(Path(scratch) / "icu", "common/x_data.h", out, "XData.py")
        for r in requests:
            if r["k"] == "array": b.arrayToPython(r["n"])
            elif r["k"] == "scalar": b.scalarToPython(r["n"])
            elif r["k"] == "trie": b.trieValuesFromTrieDeclaration(r["n"], r["prefix"])
            else: b.trieValuesFromPropsDeclaration(r["n"], r["prefix"])
        b.writeFile()
        bound.extend(bindings(out / "XData.py"))
    st, x = guarded(20, go)
    return {"source": source, "events": requests + [{"k": "module", "st": st if st == "ok" else f"{st} {x}", "bound": bound}]}


def main():
    with multiprocessing.Pool(8) as pool: writeJson(OUT, pool.map(record, range(SOURCES), chunksize=8))


if __name__ == "__main__": main()
