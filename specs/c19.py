"""C19: eliminating, permuting, sorting and filtering entries of a sparse matrix."""
from spec import *
from c02 import dget, S, size

probe("c19_dense", "void", "const SM& A, DM& out", "A.ToDense(out);")
N = [0]


def newprobe(params, body):
    N[0] += 1
    nm = "c19_%d" % N[0]
    probe(nm, "void", params, body)
    return nm


def row(i, j, f):
    """sum over the stored entries of row i in column j of f(position)"""
    lo = sel("A.p", (i,))
    return S(sel("A.p", (i + 1,)) - lo, lambda k: mul(f(lo + k), eq(sel("A.j", (lo + k,)), j)))


X = lambda q: sel("A.x", (q,))
AJ = lambda q: sel("A.j", (q,))


def check(c, rec, A, n, m, spec):
    size(c, rec, A, n, m)
    D = c.obj(c.dense("Dout", c.dim("dp"), c.dim("dq")), "D")
    c.call("c19_dense", A, D)
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entry", dget(c, D, i, j), spec(i, j))


def elim(label, params, body, spec, square=False, extra=None, lo=0):
    nm = newprobe("SM& A" + params, body)

    def f(c, rec):
        n = c.dim("n", lo)
        m = n if square else c.dim("m", lo)
        A = c.obj(c.sparse("A", n, m))
        args, more = extra(c, n, m) if extra else ([], None)
        c.ev0 = len(c.I.events)
        c.call(nm, A, *args)
        if more:
            more(c, rec, args, n, m)
        check(c, rec, A, n, m, lambda i, j: spec(c, i, j))
    add_ob("C19", "SparseMatrix::" + label, f)


def one(which):
    return lambda c, n, m: ([c.idx("r", n if which == "r" else m)], None)


def both(c, n, m):
    # the index has to name a row and a column
    return [c.idx("r", n)], None


def hit(a):
    return 1 - eq(a, 0)


def orr(a, b):
    return a + b - mul(a, b)


R = P(sym("r#"))
elim("EliminateRow(index)", ", int r", "A.EliminateRow(r);", lambda c, i, j: mul(1 - eq(i, R), c.sp("A", 0, i, j)), extra=one("r"), lo=1)
elim("EliminateCol(index)", ", int r", "A.EliminateCol(r);", lambda c, i, j: row(i, j, lambda q: mul(1 - eq(AJ(q), R), X(q))), extra=one("c"), lo=1)
elim("EliminateRowCol(index)", ", int r", "A.EliminateRowCol(r);",
     lambda c, i, j: row(i, j, lambda q: ite(orr(eq(i, R), eq(AJ(q), R)), eq(i, AJ(q)), X(q))), extra=both, square=True, lo=1)


def marker(c, n, m):
    return [c.obj(c.vec("mk", m, "int"))], None


M = lambda i: hit(sel("mk", (i,)))
elim("EliminateCol(marker)", ", const IV& mk", "A.EliminateCol(mk);", lambda c, i, j: row(i, j, lambda q: mul(1 - M(AJ(q)), X(q))), extra=marker)
elim("EliminateRowCol(marker)", ", const IV& mk", "A.EliminateRowCol(mk);",
     lambda c, i, j: row(i, j, lambda q: ite(orr(M(i), M(AJ(q))), eq(i, AJ(q)), X(q))), extra=marker, square=True)


def rhs(c, n, m):
    def more(c, rec, args, n, m):
        i = c.idx("ib", n)
        rec.eq("right hand side", c.view_get(args[2], i),
               sel("b", (i,)) - S(sel("A.p", (i + 1,)) - sel("A.p", (i,)), lambda k: (lambda q: mul(mul(M(AJ(q)), X(q)), sel("x", (AJ(q),))))(sel("A.p", (i,)) + k)))
    return [c.obj(c.vec("mk", m, "int")), c.obj(c.view("x", m)), c.view("b", n)], more


elim("EliminateCol(marker, x, b)", ", const IV& mk, const VW& x, VW b", "A.EliminateCol(mk, x, b);",
     lambda c, i, j: row(i, j, lambda q: mul(1 - M(AJ(q)), X(q))), extra=rhs)


def fabs(x):
    return app("abs", x)


def tol(c, n, m):
    return [c.real("tol", "pos")], None


elim("EliminateZeros(tolerance)", ", double tol", "A.EliminateZeros(tol);",
     lambda c, i, j: row(i, j, lambda q: mul(X(q), lt(P(sym("tol")), fabs(X(q)), "r"))), extra=tol)
elim("EliminateZeros()", "", "A.EliminateZeros();", lambda c, i, j: row(i, j, lambda q: mul(X(q), lt(P(0), fabs(X(q)), "r"))))


@ob("C19", "SparseMatrix::EliminateZeros keeps exactly the entries above the tolerance")
def elim_nnz(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    t = c.real("tol", "pos")
    c.call(EZ, A, t)
    i = c.idx("i", n)
    lo = sel("A.p", (i,))
    rec.eq("row size", c.method(A, "RowSize", [i], const=True),
           S(sel("A.p", (i + 1,)) - lo, lambda k: lt(P(t), fabs(X(lo + k)), "r")))
    rec.eq("nnz", c.method(A, "nnz", [], const=True), S(n, lambda r: S(sel("A.p", (r + 1,)) - sel("A.p", (r,)), lambda k: lt(P(t), fabs(X(sel("A.p", (r,)) + k)), "r"))))


EZ = newprobe("SM& A, double tol", "A.EliminateZeros(tol);")
PC = newprobe("SM& A, const IV& p", "A.PermuteCols(p);")


@ob("C19", "SparseMatrix::PermuteCols")
def permute(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    c.model["arrays"]["pm"] = ("perm", m)
    p = c.obj(c.vec("pm", m, "int", "perm", m))
    c.ev0 = len(c.I.events)
    c.call(PC, A, p)
    size(c, rec, A, n, m)
    D = c.obj(c.dense("Dout", c.dim("dp"), c.dim("dq")), "D")
    c.call("c19_dense", A, D)
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entry", dget(c, D, i, j),
           S(sel("A.p", (i + 1,)) - sel("A.p", (i,)),
             lambda k: mul(X(sel("A.p", (i,)) + k), eq(sel("pm", (sel("A.j", (sel("A.p", (i,)) + k,)),)), j))))


SI = newprobe("SM& A", "A.SortIndices();")


@ob("C19", "SparseMatrix::SortIndices keeps the matrix")
def sort(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    c.ev0 = len(c.I.events)
    c.call(SI, A)
    check(c, rec, A, n, m, lambda i, j: c.sp("A", n, i, j))


@ob("C19", "SparseMatrix::SortIndices orders every row by column")
def sorted_(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    c.ev0 = len(c.I.events)
    c.call(SI, A)
    i = c.idx("i", n)
    ln = c.method(A, "RowSize", [i], const=True)
    rec.eq("row size", ln, sel("A.p", (i + 1,)) - sel("A.p", (i,)))
    k = c.idx("k", ln - 1)
    col = c.method(A, "GetIndices", [], const=True)
    lo = sel("A.p", (i,))
    rec.eq("order", lt(c.get(col, lo + k + 1, "int"), c.get(col, lo + k, "int")), 0)
