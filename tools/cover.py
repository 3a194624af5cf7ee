"""dev: which functions of the library no obligation of the claimed specs reaches"""
import sys, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/engine", ROOT + "/specs"]
sys.setrecursionlimit(20000)
import importlib, json
import program, spec
import run as R
for f in sorted(glob.glob(ROOT + "/specs/*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
R.prog = prog = program.load()
res = R.run_all(list(range(len(spec.REG))))
ids = set()
for r in res.values():
    ids.update(r.get("ids", ()))
key = lambda f: (prog.files[f["dfile"]].split("/")[-1], f["dl"], f["q"])
done = set(key(prog.fn[i]) for i in ids)
allf = set(key(f) for f in prog.fn.values() if f.get("body") and prog.files[f["dfile"]].startswith("/repo/"))
byfile = {}
for k in sorted(allf - done):
    byfile.setdefault(k[0], []).append("%s:%d" % (k[2].replace("linalgcpp::", ""), k[1]))
for k in sorted(byfile):
    print(k, len(byfile[k]), " ".join(byfile[k]))
print(len(done & allf), "of", len(allf))
