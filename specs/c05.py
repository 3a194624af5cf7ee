"""C05: copies are independent, moves transfer everything, swap exchanges everything."""
from spec import *
from c01 import CV, VV, NSP
from c02 import dget, S, size, spval

probe("c05_coo", "void", "const CM& A, DM& out", "A.ToDense(out);")
probe("c05_lil", "void", "const LM& A, DM& out", "A.ToDense(out);")
probe("c05_bvoff", "const IV&", "const BV& A", "return A.GetOffsets();")
probe("c05_bmro", "const IV&", "const BM& A", "return A.GetRowOffsets();")
probe("c05_bmco", "const IV&", "const BM& A", "return A.GetColOffsets();")
for g_ in ("GetIndptr", "GetIndices", "GetData"):
    probe("c05_bm" + g_, "const %s&" % ("RV" if g_ == "GetData" else "IV"), "const BM& A, int i, int j", "return A.GetBlock(i, j).%s();" % g_)


class Kind(object):
    """how to build, change and look at the objects of one class.
    build(c, t) -> (object, observe(rec, obj, what, changed)), t distinguishes the objects of one obligation"""
    mut = ""           # statement changing `A`
    mpar = ""          # its parameters

    def margs(self, c, t):
        return []

    def empty(self, c, rec, o, what):
        d = c.obj(c.ctor(NSP + self.name, [], []))
        rec.eq(what + ": rows", c.method(o, "Rows", []), c.method(d, "Rows", []))
        rec.eq(what + ": cols", c.method(o, "Cols", []), c.method(d, "Cols", []))


class Vector_(Kind):
    mut, mpar = "A[q] = v;", ", int q, double v"

    def __init__(self, et="double"):
        self.et = et
        self.cxx = {"double": "VD", "int": "VI"}[et]
        self.name = "Vector<%s>" % et
        self.mpar = ", int q, %s v" % et

    def build(self, c, t):
        n = c.dim("n" + t, 1)
        self.n = n
        v = c.vec("x" + t, n, self.et)
        A = c.obj(c.ctor(NSP + self.name, ["std::vector<%s>" % self.et], [v]))

        def see(rec, o, what, ch=None):
            rec.eq(what + ": size", c.view_size(o), n)
            i = c.idx("i" + t + what.replace(" ", "_"), n)
            e = sel("x" + t, (i,))
            if ch:
                e = ite(eq(i, ch[0]), ch[1], e)
            rec.eq(what + ": entry", c.view_get(o, i), e)
        return A, see

    def margs(self, c, t):
        return [c.idx("q", self.n), c.real("v") if self.et == "double" else c.int("v")]

    def empty(self, c, rec, o, what):
        rec.eq(what + ": size", c.view_size(o), P(0))


class BlockVector_(Kind):
    name, cxx = "BlockVector<double>", "BV"
    mut, mpar = "A[q] = v;", ", int q, double v"

    def build(self, c, t):
        R = c.dim("R" + t, 1)
        off = c.offsets("of" + t, R)
        n = sel("of" + t, (R,))
        TM.FACTS.assume_ge0(n - 1)
        c.pre.append(le(1, n))
        self.n = n
        v = c.vec("x" + t, n)
        A = c.obj(c.ctor(NSP + self.name, ["const linalgcpp::VectorView<double> &", "std::vector<int>"],
                         [c.obj(c.view_of(v)), off]))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            rec.eq(what + ": size", c.view_size(o), n)
            off = c.call("c05_bvoff", o)
            ov = c.I.load(off) if isinstance(off, LV) else off
            rec.eq(what + ": offset count", ov.len, R + 1)
            k = c.idx("k" + u, R + 1)
            rec.eq(what + ": offsets", c.get(ov, k), sel("of" + t, (k,)))
            i = c.idx("i" + u, n)
            e = sel("x" + t, (i,))
            if ch:
                e = ite(eq(i, ch[0]), ch[1], e)
            rec.eq(what + ": entry", c.view_get(o, i), e)
        return A, see

    def margs(self, c, t):
        return [c.idx("q", self.n), c.real("v")]

    def empty(self, c, rec, o, what):
        rec.eq(what + ": size", c.view_size(o), P(0))


class Dense_(Kind):
    name, cxx = "DenseMatrix", "DM"
    mut, mpar = "A(q, r) = v;", ", int q, int r, double v"

    def build(self, c, t):
        n, m = c.dim("n" + t, 1), c.dim("m" + t, 1)
        self.nm = n, m
        A = c.obj(c.dense("D" + t, n, m))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            rec.eq(what + ": rows", c.method(o, "Rows", []), n)
            rec.eq(what + ": cols", c.method(o, "Cols", []), m)
            i, j = c.idx("i" + u, n), c.idx("j" + u, m)
            e = sel("D" + t, (i + mul(j, n),))
            if ch:
                e = ite(mul(eq(i, ch[0]), eq(j, ch[1])), ch[2], e)
            rec.eq(what + ": entry", dget(c, o, i, j), e)
        return A, see

    def margs(self, c, t):
        return [c.idx("q", self.nm[0]), c.idx("r", self.nm[1]), c.real("v")]


class Sparse_(Kind):
    def __init__(self, et="double"):
        self.et = et
        self.cxx = {"double": "SM", "int": "SMI"}[et]
        self.name = "SparseMatrix<%s>" % et
        self.mut, self.mpar = "A *= v;", ", %s v" % et

    def build(self, c, t):
        n, m = c.dim("n" + t, 1), c.dim("m" + t, 1)
        A = c.obj(c.sparse("S" + t, n, m, self.et))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            rec.eq(what + ": rows", c.method(o, "Rows", []), n)
            rec.eq(what + ": cols", c.method(o, "Cols", []), m)
            rec.eq(what + ": nnz", c.method(o, "nnz", []), sel("S" + t + ".p", (n,)))
            i, j = c.idx("i" + u, n), c.idx("j" + u, m)
            e = c.sp("S" + t, n, i, j)
            rec.eq(what + ": entry", spval(c, o, i, j), mul(ch[0], e) if ch else e)
        return A, see

    def margs(self, c, t):
        return [c.real("v") if self.et == "double" else c.int("v")]


class Coo_(Kind):
    name, cxx = "CooMatrix<double>", "CM"
    mut, mpar = "A.Add(q, r, v);", ", int q, int r, double v"

    def build(self, c, t):
        n, m = c.dim("n" + t, 1), c.dim("m" + t, 1)
        self.nm = n, m
        nnz = c.dim("nnz" + t)
        a, b, x = "ci" + t, "cj" + t, "cv" + t
        c.arr(a, "index", n)
        c.arr(b, "index", m)
        c.arr(x, "real")
        A = c.obj(c.ctor(NSP + self.name, ["int", "int"], [n, m]))
        c.I.py_loop(nnz, lambda k: c.method(A, "Add", [sel(a, (k,)), sel(b, (k,)), sel(x, (k,))],
                                            ptypes=["int", "int", "double"]))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            D = c.obj(c.dense("Dout" + u, n, m))
            c.call("c05_coo", o, D)
            rec.eq(what + ": rows", c.method(D, "Rows", []), n)
            rec.eq(what + ": cols", c.method(D, "Cols", []), m)
            i, j = c.idx("i" + u, n), c.idx("j" + u, m)
            e = S(nnz, lambda k: mul(sel(x, (k,)), mul(eq(sel(a, (k,)), i), eq(sel(b, (k,)), j))))
            if ch:
                e = e + mul(ch[2], mul(eq(i, ch[0]), eq(j, ch[1])))
            rec.eq(what + ": entry", dget(c, D, i, j), e)
        return A, see

    def margs(self, c, t):
        return [c.idx("q", self.nm[0]), c.idx("r", self.nm[1]), c.real("v")]


class Lil_(Kind):
    name, cxx = "LilMatrix<double>", "LM"
    mut, mpar = "A.Add(q, r, v);", ", int q, int r, double v"

    def build(self, c, t):
        n, m = c.dim("n" + t, 1), c.dim("m" + t, 1)
        self.nm = n, m
        A = c.obj(c.lil("L" + t, n, m))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            D = c.obj(c.dense("Dout" + u, n, m))
            c.call("c05_lil", o, D)
            rec.eq(what + ": rows", c.method(D, "Rows", []), n)
            rec.eq(what + ": cols", c.method(D, "Cols", []), m)
            i, j = c.idx("i" + u, n), c.idx("j" + u, m)
            e = c.lil_entry("L" + t, i, j)
            if ch:
                e = e + mul(ch[2], mul(eq(i, ch[0]), eq(j, ch[1])))
            rec.eq(what + ": entry", dget(c, D, i, j), e)
        return A, see

    def margs(self, c, t):
        return [c.idx("q", self.nm[0]), c.idx("r", self.nm[1]), c.real("v")]


class BlockMatrix_(Kind):
    name, cxx = "BlockMatrix<double>", "BM"
    mut, mpar = "A.SetBlock(q, r, B);", ", int q, int r, const SM& B"

    def build(self, c, t):
        R, C = c.dim("R" + t, 1), c.dim("C" + t, 1)
        self.RC = R, C
        a, b, nm = "ro" + t, "co" + t, "B" + t
        ro, co = c.offsets(a, R), c.offsets(b, C)
        A = c.obj(c.ctor(NSP + self.name, ["std::vector<int>", "std::vector<int>"], [ro, co]))
        rows = lambda pre: sel(a, (pre[0] + 1,)) - sel(a, (pre[0],))
        cols = lambda pre: sel(b, (pre[1] + 1,)) - sel(b, (pre[1],))
        self.rc = rows, cols
        c.csr_facts(nm, rows, cols)

        def put(i, j):
            c.method(A, "SetBlock", [i, j, c.sparse_pre(nm, (i, j), rows((i, j)), cols((i, j)))])
        c.I.py_loop(R, lambda i: c.I.py_loop(C, lambda j: put(i, j)))

        def see(rec, o, what, ch=None):
            u = t + what.replace(" ", "_")
            rec.eq(what + ": rows", c.method(o, "Rows", []), sel(a, (R,)))
            rec.eq(what + ": cols", c.method(o, "Cols", []), sel(b, (C,)))
            for g, nm_, k in (("c05_bmro", a, R), ("c05_bmco", b, C)):
                off = c.call(g, o)
                ov = c.I.load(off) if isinstance(off, LV) else off
                rec.eq(what + ": offset count", ov.len, k + 1)
                x = c.idx(g[-2:] + u, k + 1)
                rec.eq(what + ": offsets", c.get(ov, x), sel(nm_, (x,)))
            i, j = c.idx("i" + u, R), c.idx("j" + u, C)
            if ch:
                return
            ptr, col, dat = [c.call("c05_bm" + g_, o, i, j) for g_ in ("GetIndptr", "GetIndices", "GetData")]
            ptr, col, dat = [c.I.load(x, c.t("std::vector<%s>" % y)) if isinstance(x, LV) else x for x, y in ((ptr, "int"), (col, "int"), (dat, "double"))]
            r, k = c.idx("r" + u, rows((i, j))), c.idx("k" + u, cols((i, j)))
            e = fresh_var()
            lo, hi = c.get(ptr, r), c.get(ptr, r + 1)
            TM.FACTS.vub[e] = hi - lo - 1
            v = mk_sum(e, hi - lo, mul(c.get(dat, lo + P(e)), eq(c.get(col, lo + P(e)), k)))
            rec.eq(what + ": entry", v, c.spx(nm, (i, j), r, k))
        return A, see

    def margs(self, c, t):
        q, r = c.idx("q", self.RC[0]), c.idx("r", self.RC[1])
        B = c.sparse("N", self.rc[0]((q,)), self.rc[1]((q, r)))
        return [q, r, c.obj(B)]


KINDS = [Vector_("double"), Vector_("int"), BlockVector_(), Dense_(), Sparse_("double"), Sparse_("int"),
         Coo_(), Lil_(), BlockMatrix_()]


def reg(K, label, tag, body, f, mut=False):
    nm = "c05_%s_%s" % (K.cxx, tag)
    probe(nm, "void", "%s& A, %s& B%s" % (K.cxx, K.cxx, K.mpar if mut else ""), body)

    def g(c, rec):
        A, seeA = K.build(c, "a")
        args = K.margs(c, "a") if mut else []
        B, seeB = K.build(c, "b")
        c.ev0 = len(c.I.events)
        c.call(nm, A, B, *args)
        f(c, rec, A, seeA, B, seeB, args)
    add_ob("C05", "%s: %s" % (K.name, label), g)


def both(c, rec, A, seeA, B, seeB, args):
    seeA(rec, B, "copy")
    seeA(rec, A, "source")


def changed(c, rec, A, seeA, B, seeB, args):
    seeA(rec, B, "copy")
    seeA(rec, A, "changed source", args)


def swapped(c, rec, A, seeA, B, seeB, args):
    seeA(rec, B, "right")
    seeB(rec, A, "left")


def selfed(c, rec, A, seeA, B, seeB, args):
    seeA(rec, A, "object")


for K in KINDS:
    def moved(c, rec, A, seeA, B, seeB, args, K=K):
        seeA(rec, B, "target")

    def movedfrom(c, rec, A, seeA, B, seeB, args, K=K):
        K.empty(c, rec, A, "moved-from object")

    T = K.cxx
    reg(K, "copy construction", "cc", "%s C(A); swap(B, C);" % T, both)
    reg(K, "copy assignment", "ca", "const %s& C = A; B = C;" % T, both)
    reg(K, "assignment from a named object", "na", "B = A;", both)
    reg(K, "changing the source leaves the copy", "ci", "%s C(A); %s swap(B, C);" % (T, K.mut.replace("B)", "B_)")),
        changed, True) if T != "BM" else None
    reg(K, "changing the source leaves the assigned", "cj", "B = A; %s" % K.mut, changed, True) if T != "BM" else None
    reg(K, "move construction", "mc", "%s C(std::move(A)); swap(B, C);" % T, moved)
    reg(K, "move assignment", "ma", "B = std::move(A);", moved)
    reg(K, "moved-from object", "mf", "%s C(std::move(A));" % T, movedfrom)
    reg(K, "moved-from object is assignable", "mr", "%s C(std::move(B)); B = A;" % T, both)
    reg(K, "swap", "sw", "swap(A, B);", swapped)
    reg(K, "self assignment", "sa", "const %s& C = A; A = C;" % T, selfed)
