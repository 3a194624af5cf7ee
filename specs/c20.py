"""C20: partitioning hands the graph to METIS and returns a compact assignment."""
from spec import *
from c02 import S
import metis

probe("c20_partition", "std::vector<int>", "const SM& A, int parts, double ub, bool contig, bool weighted",
      "return Partition(A, parts, ub, contig, weighted);")
probe("c20_partitioni", "std::vector<int>", "const SMI& A, int parts, double ub, bool contig, bool weighted",
      "return Partition(A, parts, ub, contig, weighted);")
probe("c20_default", "std::vector<int>", "const SM& A", "return Partition(A);")
probe("c20_compact", "void", "std::vector<int>& p", "RemoveEmpty(p);")
X = lambda j: sel("x", (j,))


def f20(label, **opts):
    def deco(fn):
        add_ob("C20", label, fn, **opts)
        return fn
    return deco


def compact(rec, what, got, part, n, i):
    """labels keep their order, and the used ones become 0, 1, 2, ..."""
    used = lambda q: 1 - eq(S(n, lambda k: eq(part(k), q)), 0)
    p = part(i)
    a = fresh_var()
    rec.c.F.vub[a] = p - 1
    rec.eq(what, got, mk_sum(a, p, used(P(a))))


@f20("RemoveEmpty")
def removeempty(c, rec):
    n = c.dim("n", 1)
    v = c.obj(c.vec("p", n, "int", "index", P(6)))
    c.ev0 = len(c.I.events)
    c.call("c20_compact", v)
    rec.eq("size", c.I.load(v).len, n)
    i = c.idx("i", n)
    compact(rec, "label", c.get(v, i), lambda k: sel("p", (k,)), n, i)


@f20("Partition, one part")
def single(c, rec):
    n = c.dim("R", 1)
    A = c.obj(c.sparse("A", n, n))
    c.ev0 = len(c.I.events)
    v = c.obj(c.call("c20_partition", A, P(1), c.real("ub"), P(1), P(0)))
    rec.eq("size", c.I.load(v).len, n)
    i = c.idx("i", n)
    rec.eq("label", c.get(v, i), P(0))


def partition(label, probe_, et, parts, contig, weighted):
    @f20(label)
    def f(c, rec):
        n = c.dim("R", 2)
        A = c.obj(c.sparse("A", n, n, et))
        np = P(2)
        c.ev0 = len(c.I.events)
        if parts:
            np = c.I.num_parts = c.dim("parts", 2)
            TM.FACTS.assume_ge0(n - np)
            c.pre.append(le(np, n))
            ub = c.real("ub")
            v = c.obj(c.call(probe_, A, np, ub, P(contig), P(weighted)))
        else:
            ub = P(1)
            v = c.obj(c.call(probe_, A))
        calls = c.I.metis
        if len(calls) != 1:
            raise Undecided("one call of METIS: %d" % len(calls))
        r = calls[0]
        rec.eq("vertices", r["n"], n)
        rec.eq("parts", r["parts"], np)
        # the interface of METIS takes a single precision number
        rec.eq("unbalance factor", r["ub"] if "f32" in TM.show(r["ub"]) else app("f32", P(r["ub"])), app("f32", P(ub)))
        o = lambda nm: read(r["options"], (metis.option(nm),))
        rec.eq("contiguous parts", o("CONTIG"), P(contig))
        rec.eq("numbering from zero", mul(o("NUMBERING"), o("NUMBERING") + 1), P(0))
        for nm in ("OBJTYPE", "MINCONN", "UFACTOR"):
            rec.eq("default option", o(nm), P(-1))
        for nm in ("vwgt", "vsize", "tpwgts"):
            rec.eq("no " + nm, P(0 if r[nm] is None else 1), P(0))
        i = c.idx("i", n + 1)

        def rows(f):
            a, b = fresh_var(), fresh_var()
            c.F.vub[a] = i - 1
            lo, hi = sel("A.p", (P(a),)), sel("A.p", (P(a) + 1,))
            c.F.vub[b] = hi - lo - 1
            return mk_sum(a, i, mk_sum(b, hi - lo, mul(1 - eq(sel("A.j", (lo + P(b),)), P(a)), f(lo + P(b)))))
        end = read(r["xadj"], (i,))
        rec.eq("edges of the first vertices", end, rows(lambda k: P(1)))
        k = fresh_var()
        c.F.vub[k] = end - 1
        w = P(1) if r["adjwgt"] is None else read(r["adjwgt"], (P(k),))
        got = mk_sum(k, end, mul(X(read(r["adjncy"], (P(k),))), w))

        def weight(k):
            if not weighted:
                return P(1)
            q = app("abs", sel("A.x", (k,)))
            return q if et == "int" else app("trunc", q)
        rec.eq("neighbours and weights", got, rows(lambda k: mul(X(sel("A.j", (k,))), weight(k))))
        rec.eq("size", c.I.load(v).len, n)
        j = c.idx("j", n)
        compact(rec, "label", c.get(v, j), lambda k: sel(r["name"], (k,)), n, j)


partition("Partition", "c20_partition", "double", True, 1, 0)
partition("Partition, not contiguous", "c20_partition", "double", True, 0, 0)
partition("Partition weighted", "c20_partition", "double", True, 1, 1)
partition("Partition int", "c20_partitioni", "int", True, 1, 0)
partition("Partition int weighted", "c20_partitioni", "int", True, 1, 1)
partition("Partition default", "c20_default", "double", False, 1, 0)
