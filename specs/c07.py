"""C07: every constructor gives every member a value, and moving from an object leaves none behind unset."""
from spec import *
from c01 import CV, VV, NSP
import interp as IN

CLASSES = ["VectorView<double>", "VectorView<int>", "Vector<double>", "Vector<int>", "BlockVector<double>", "DenseMatrix",
           "SparseMatrix<double>", "SparseMatrix<int>", "CooMatrix<double>", "LilMatrix<double>", "BlockMatrix<double>",
           "BlockOperator", "EigenSolver", "Solver", "PCGSolver", "MINRESSolver", "PMINRESSolver", "::SparseSolver"]


def leaves(c, v, path=""):
    """paths of the members of v that have no value"""
    if isinstance(v, IN.Obj):
        for k, t in c.p.fields(v.t):
            for x in leaves(c, v.f.get(k, IN.UNINIT), (path + "." if path else "") + k.split("@")[0]):
                yield x
    elif v is IN.UNINIT:
        yield path


class Skip(Exception):
    pass


def arg(c, t, i):
    p = c.p
    T = p.T(t)
    s = T["s"].replace("const ", "").rstrip(" &")
    nm = "a%d" % i
    if s in ("int", "unsigned long", "unsigned int", "long"):
        return c.dim(nm)
    if s == "bool":
        c.model["arrays"][nm] = ("bool",)
        return sel(nm)
    if s == "double":
        return c.real(nm)
    for et in ("double", "int"):
        if s == "std::vector<%s>" % et:
            return c.obj(c.vec(nm, c.dim("n" + nm), et))
        if s in (et + " *", et + "*"):
            return c.ptr(c.vec(nm, c.dim("n" + nm), et))
    if "(*)(" in s:
        return IN.ExtFn(nm, lambda I, args: None)
    if T["k"] == "enum" or p.kind(t) == "num":
        return c.dim(nm)
    if s.endswith("linalgcpp::Operator"):
        return c.obj(c.dense(nm, c.dim("n" + nm), c.dim("n" + nm)))
    if s.startswith("linalgcpp::") or s == "SparseSolver":
        try:
            return c.obj(c.ctor(s, [], []))
        except Missing:
            raise Skip(s)
    raise Skip(s)


def every(cls):
    def f(c, rec):
        tid = c.t(cls[2:] if cls.startswith("::") else NSP + cls)
        fs = [g for g in c.p.fn.values() if g.get("name") == "{ctor}" and g.get("cls") is not None and c.p.unq(g["cls"]) == tid
              and (g.get("body") or g.get("inits") or g.get("implicit") or g.get("defaulted"))]
        if not fs:
            raise Missing("constructors of " + cls)
        for g in fs:
            sig = "%s(%s)" % (cls, ", ".join(c.p.T(x["t"])["s"].replace("linalgcpp::", "") for x in g["params"]))
            st = c.I.st.copy()
            try:
                args = [arg(c, x["t"], i) for i, x in enumerate(g["params"])]
                o = c.I.construct(tid, g, args)
                bad = list(leaves(c, o))
                where = c.p.where(g, g.get("line"))
                if bad:
                    rec.fail(sig, "members without a value: " + ", ".join(bad), where)
                else:
                    rec.ok(sig, None, where)
                for x, a in zip(g["params"], args):
                    if c.p.T(x["t"])["s"].endswith("&&") and isinstance(a, LV):
                        bad = list(leaves(c, c.I.load(a)))
                        if bad:
                            rec.fail(sig + ": source", "members without a value: " + ", ".join(bad), where)
                        else:
                            rec.ok(sig + ": source", None, where)
            except Skip as e:
                rec.und(sig, "argument of type %s" % e)
            except (IN.Undecided, TM.Budget) as e:
                rec.und(sig, str(e))
            c.I.st = st
    add_ob("C07", cls, f, noevents=True)


for k in CLASSES:
    every(k)
