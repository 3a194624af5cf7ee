"""Loads the extractor's JSON dumps (one per translation unit) and merges them
into one resolved program: types, classes and functions keyed by mangled name."""
import json
import os
import shutil
import subprocess
import hashlib
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class ToolError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def resource_dir():
    return subprocess.check_output(["clang-18", "-print-resource-dir"], text=True).strip()


def includes():
    inc = ["-I" + os.path.join(REPO, "include")]
    for m in ("partition", "sparsesolver"):
        d = os.path.join(REPO, "modules", m, "include")
        if os.path.isdir(d):
            inc.append("-I" + d)
    inc.append("-I/usr/include/suitesparse")
    return inc


def repo_sources():
    out = []
    for d in ("src", "modules/sparsesolver/src", "modules/partition/src"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith(".cpp"):
                    out.append(os.path.join(p, f))
    return out


def extract(src, out, extra=(), xroot=None):
    cmd = [os.path.join(BUILD, "extract"), out, REPO + ":" + os.path.join(VERIF, "tu") + (":" + xroot if xroot else ""), src, "--",
           "-std=gnu++17", "-xc++"] + includes() + ["-resource-dir", resource_dir()] + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise ToolError("extractor failed on %s:\n%s" % (src, r.stdout[-3000:]))
    return r.stdout


class Program(object):
    def __init__(self):
        self.types = []          # unified
        self._maps = {}
        self.tkey = {}
        self.classes = {}        # type id -> class
        self.cls_by_name = {}
        self.fn = {}             # mangled id -> function
        self.byq = {}            # qualified name -> [function]
        self.files = []
        self.fkey = {}
        self.errors = []

    # ---- merging
    def add(self, d, tu):
        n = len(d["types"])
        tmap = [None] * n
        for i, t in enumerate(d["types"]):
            if "<>" in t["s"]:
                t["s"] = t["s"].replace("<>", "<double>")
            k = (t["s"], t.get("q"))
            if k in self.tkey:
                tmap[i] = self.tkey[k]
            else:
                tmap[i] = len(self.types)
                self.tkey[k] = tmap[i]
                self.types.append(None)
        for i, t in enumerate(d["types"]):
            j = tmap[i]
            if self.types[j] is None:
                t = dict(t)
                if "to" in t:
                    t["to"] = tmap[t["to"]]
                if "args" in t and t["args"] is not None:
                    t["args"] = [tmap[a] if isinstance(a, int) else a for a in t["args"]]
                t["id"] = j
                self.types[j] = t
        fm = []
        for f in d["files"]:
            if f not in self.fkey:
                self.fkey[f] = len(self.files)
                self.files.append(f)
            fm.append(self.fkey[f])
        TK = ("t", "ct", "of", "ret", "cls", "fc", "type")

        def remap(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in TK and isinstance(v, int) and not isinstance(v, bool):
                        x[k] = tmap[v]
                    elif k == "params" and v and isinstance(v[0], int):
                        x[k] = [tmap[a] for a in v]
                    elif k == "targs" and isinstance(v, list):
                        x[k] = [tmap[a] if isinstance(a, int) else a for a in v]
                    elif k in ("file", "dfile") and isinstance(v, int):
                        x[k] = fm[v]
                    elif isinstance(v, (dict, list)):
                        remap(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        remap(v)
        for c in d["classes"]:
            remap(c)
            c["bases"] = [tmap[b] for b in c["bases"]]
            if "args" in c:
                c["args"] = [tmap[a] if isinstance(a, int) else a for a in c["args"]]
            if c["t"] not in self.classes:
                self.classes[c["t"]] = c
                self.cls_by_name[self.types[c["t"]]["s"]] = c
        for f in d["functions"]:
            remap(f)
            f["tu"] = tu
            old = self.fn.get(f["id"])
            if old is not None and (old.get("body") or not f.get("body")):
                continue
            if old is not None:
                self.byq[old["q"]].remove(old)
            self.fn[f["id"]] = f
            self.byq.setdefault(f["q"], []).append(f)
        self.errors.append((tu, d.get("errors", 0)))

    # ---- types
    def T(self, i):
        return self.types[i]

    def unq(self, i):
        """strip reference and const: canonical type id of the object"""
        t = self.types[i]
        if t["k"] in ("ref", "rref"):
            t = self.types[t["to"]]
        if t.get("q"):
            s = t["s"]
            s = s.replace("const ", "", 1) if s.startswith("const ") else s
            if s.endswith(" const"):
                s = s[:-6]
            if s.endswith("*const"):
                s = s[:-5]
            j = self.tkey.get((s, None))
            if j is not None:
                return j
        return t["id"]

    def ts(self, i):
        return self.types[self.unq(i)]

    def kind(self, i):
        """num | ptr | vec | iter | ours | tuple | pair | list | string | fnptr | void | other"""
        t = self.types[i]
        if t["k"] in ("ref", "rref"):
            t = self.types[t["to"]]
        k = t["k"]
        if k in ("int", "uint", "char", "bool", "double", "enum"):
            return "num"
        if k == "ptr":
            if self.types[t["to"]]["k"] == "func":
                return "fnptr"
            return "ptr"
        if k in ("void", "null", "array", "func"):
            return k
        if k == "record":
            r = t.get("rec", "")
            if r == "std::vector":
                return "vec"
            if r == "std::list":
                return "vec"
            if r in ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator"):
                return "iter"
            if r in ("std::unordered_map", "std::map") and self._mapfields(t):
                return "tuple"
            if r == "std::tuple":
                return "tuple"
            if r == "std::pair":
                return "pair"
            if r.startswith("linalgcpp::") or self.unq(t["id"]) in self.classes:
                return "ours"
            if r in ("std::basic_string",):
                return "string"
        return "other"

    def is_real(self, i):
        return self.ts(i)["k"] == "double"

    def elem(self, i):
        """element type of vector / pointer / array / iterator"""
        t = self.ts(i)
        if t["k"] in ("ptr", "array"):
            return self.unq(t["to"])
        r = t.get("rec")
        if r in ("std::vector", "std::list", "std::_List_iterator", "std::_List_const_iterator"):
            return self.unq(t["args"][0])
        if r == "__gnu_cxx::__normal_iterator":
            return self.unq(self.types[self.unq(t["args"][0])]["to"])
        return None

    def cls(self, i):
        return self.classes.get(self.unq(i))

    def fields(self, tid):
        """[(key, type id)] of a record type including base subobjects"""
        k = self.kind(tid)
        t = self.ts(tid)
        if k == "tuple" and t.get("rec") != "std::tuple":
            return self._mapfields(t)
        if k == "tuple":
            return [(str(n), self.unq(a)) for n, a in enumerate(self._packargs(t))]
        if k == "pair":
            return [("first", self.unq(t["args"][0])), ("second", self.unq(t["args"][1]))]
        c = self.cls(tid)
        if c is None:
            return None
        out = []
        for b in c["bases"]:
            r = self.fields(b)
            if r is None:
                return None
            out += r
        for f in c["fields"]:
            out.append((f["name"] + "@" + self.types[c["t"]]["s"], f["t"]))
        return out

    def is_map(self, i):
        return self.ts(i).get("rec") in ("std::unordered_map", "std::map") and self.kind(i) == "tuple"

    def _mapfields(self, t):
        """an associative container with integer keys: element count, key set, value table"""
        r = self._maps.get(t["s"])
        if r is None:
            k = self.ts(t["args"][0])
            it = [x["id"] for x in self.types if x["k"] == "int" and x["s"] == "int" and not x.get("q")]
            if k["k"] not in ("int", "uint") or not it:
                r = ()
            else:
                def tab(et):
                    i = len(self.types)
                    self.types.append({"id": i, "k": "record", "rec": "std::vector", "args": [et], "s": "table"})
                    return i
                r = [("n", it[0]), ("has", tab(it[0])), ("val", tab(self.unq(t["args"][1])))]
            self._maps[t["s"]] = r
        return r

    def _packargs(self, t):
        out = []
        for a in t["args"]:
            if isinstance(a, list):
                out += a
            else:
                out.append(a)
        return out

    def find(self, q, cls=None, nparams=None, ptypes=None, const=None, all=False):
        res = []
        for f in self.byq.get(q, []):
            if cls is not None:
                c = f.get("cls")
                if c is None or self.types[c]["s"] != cls:
                    continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if ptypes is not None:
                if len(ptypes) != len(f["params"]):
                    continue
                if any(self.types[p["t"]]["s"] != s for p, s in zip(f["params"], ptypes)):
                    continue
            if const is not None and bool(f.get("const")) != const:
                continue
            res.append(f)
        return res

    def where(self, f, line=None):
        return "%s:%s" % (os.path.relpath(self.files[f["file"]], REPO), line if line is not None else f["l"])


def ensure_extractor():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(VERIF, "extractor", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building the extractor failed:\n" + r.stdout[-3000:])


def _repo_key():
    paths = []
    for d in ("include", "src", "modules"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".cpp", ".h")):
                    paths.append(os.path.join(root, f))
    ex = [os.path.join(VERIF, "tu", f) for f in sorted(os.listdir(os.path.join(VERIF, "tu"))) if f.endswith(".cpp")]
    h = hashlib.sha256()
    for p in paths + ex + [os.path.join(BUILD, "extract")]:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


PROBES = {}      # name -> one line of C++ (a function in namespace vprobe)
LOST = {}        # probes that do not compile against the current sources
PROBE_HEAD = """#include "linalgcpp.hpp"
#include "partition.hpp"
#include "sparsesolve.hpp"
using namespace linalgcpp;
typedef VectorView<double> VW; typedef VectorView<int> VWI; typedef Vector<double> VD; typedef Vector<int> VI;
typedef SparseMatrix<double> SM; typedef SparseMatrix<int> SMI; typedef DenseMatrix DM; typedef CooMatrix<double> CM;
typedef LilMatrix<double> LM; typedef BlockMatrix<double> BM; typedef BlockVector<double> BV; typedef std::vector<int> IV; typedef std::vector<double> RV;
namespace vprobe {
"""


def probe(name, ret, params, body):
    """a caller of the public interface, resolved by the compiler like any user's code"""
    text = "%s %s(%s) { %s }" % (ret, name, params, " ".join(body.split()))
    if PROBES.setdefault(name, text) != text:
        raise ValueError("probe %s defined twice" % name)


def extract_probes(out):
    """extract the probe unit; probes that no longer compile are dropped (reported missing)"""
    import re
    src = os.path.join(os.path.dirname(out), "probe.cpp")
    for _ in range(6):
        names = [n for n in PROBES if n not in LOST]
        with open(src, "w") as f:
            f.write(PROBE_HEAD)
            off = PROBE_HEAD.count("\n") + 1
            for n in names:
                f.write(PROBES[n] + "\n")
            f.write("}\n")
        try:
            try:
                return extract(src, out, xroot=os.path.dirname(src))
            except ToolError as e:
                bad = set()
                for m in re.finditer(r"probe\.cpp:(\d+):\d+: (error|note: in instantiation)", str(e)):
                    k = int(m.group(1)) - off
                    if 0 <= k < len(names):
                        bad.add(names[k])
                if not bad:
                    raise
                for n in bad:
                    LOST[n] = str(e)[-400:]
        finally:
            os.unlink(src)
    raise ToolError("probe unit does not compile")


_loaded = None


def load(rebuild=False):
    """extract every translation unit of /repo's current tree and merge"""
    global _loaded
    if _loaded is not None and not rebuild:
        return _loaded
    ensure_extractor()
    out = os.path.join(BUILD, "dump-%d" % os.getpid())
    os.makedirs(out, exist_ok=True)
    srcs = [os.path.join(VERIF, "tu", "inst.cpp")] + repo_sources()
    jobs = []
    for i, s in enumerate(srcs):
        jobs.append((s, os.path.join(out, "%02d.json" % i)))
    p = Program()
    try:
        with ThreadPoolExecutor(8) as ex:
            fut = ex.submit(extract_probes, os.path.join(out, "probe.json")) if PROBES else None
            logs = list(ex.map(lambda j: extract(*j), jobs))
            if fut:
                fut.result()
                jobs.append((os.path.join(out, "probe.cpp"), os.path.join(out, "probe.json")))
        for s, o in jobs:
            with open(o) as f:
                p.add(json.load(f), s)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    p.sources = srcs
    p.lost = LOST
    _loaded = p
    return p


if __name__ == "__main__":
    import time
    t0 = time.time()
    p = load()
    print(len(p.fn), "functions", len(p.classes), "classes", len(p.types), "types", p.errors[:3], "%.1fs" % (time.time() - t0))
