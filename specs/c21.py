"""C21: assembling coordinate and list matrices adds exactly the given contributions."""
from spec import *
from c01 import coo_make
from c02 import dget, S, size

probe("c21_coo", "void", "const CM& A, DM& out", "A.ToDense(out);")
probe("c21_lil", "void", "const LM& A, DM& out", "A.ToDense(out);")


def make(c, kind, n, m):
    if kind == "C":
        return coo_make(c, n, m)
    return c.obj(c.lil("L", n, m)), lambda i, j: c.lil_entry("L", i, j)


def finish(c, rec, kind, A, n, m, want):
    D = c.obj(c.dense("Dout", n, m))
    c.call("c21_coo" if kind == "C" else "c21_lil", A, D)
    size(c, rec, D, n, m)
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entry", dget(c, D, i, j), want(i, j))


def adds(kind, label, params, body, setup):
    """setup(c, n, m) -> (arguments, added(i, j))"""
    nm = "c21_" + "".join(ch if ch.isalnum() else "_" for ch in kind + label)
    cls = {"C": "CM", "L": "LM"}[kind]
    probe(nm, "void", cls + "& A, " + params, body)

    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m", 1)
        A, ent = make(c, kind, n, m)
        args, add = setup(c, n, m)
        c.ev0 = len(c.I.events)
        c.call(nm, A, *args)
        finish(c, rec, kind, A, n, m, lambda i, j: ent(i, j) + add(i, j))
    add_ob("C21", {"C": "CooMatrix::", "L": "LilMatrix::"}[kind] + label, f)


def d(i, a):
    return eq(a, i)


def one(c, n, m):
    r, s, v = c.idx("r", n), c.idx("s", m), c.real("v")
    return [r, s, v], lambda i, j: mul(v, mul(d(i, r), d(j, s)))


def sym_(c, n, m):
    # indices valid for both orders
    r, s, v = c.idx("r", n), c.idx("s", n), c.real("v")
    return [r, s, v], lambda i, j: mul(v, mul(d(i, r), d(j, s))) + mul(v, mul(mul(d(i, s), d(j, r)), 1 - eq(r, s)))


def dense_add(two, scale):
    def f(c, n, m):
        p = c.dim("p")
        q = c.dim("q") if two else p
        r = c.obj(c.vec("rr", p, "int", "index", n))
        s = c.obj(c.vec("cc", q, "int", "index", m)) if two else None
        al = c.real("al") if scale else P(1)
        B = c.obj(c.dense("E", p, q))
        args = [r] + ([s] if two else []) + ([al] if scale else []) + [B]
        cn = "cc" if two else "rr"
        return args, lambda i, j: mul(al, S(q, lambda b: S(p, lambda a: mul(mul(eq(sel("rr", (a,)), i), eq(sel(cn, (b,)), j)), sel("E", (a + mul(b, p),))))))
    return f


def line_add(row, scale):
    def f(c, n, m):
        p = c.dim("p")
        k = c.idx("r", n if row else m)
        v = c.obj(c.vec("ix", p, "int", "index", m if row else n))
        al = c.real("al") if scale else P(1)
        w = c.obj(c.view("w", p))
        args = ([k, v] if row else [v, k]) + ([al] if scale else []) + [w]

        def add(i, j):
            a, b = (i, j) if row else (j, i)
            return mul(al, mul(eq(a, k), S(p, lambda t: mul(sel("w", (t,)), eq(sel("ix", (t,)), b)))))
        return args, add
    return f


def pair_add(scale):
    def f(c, n, m):
        p = c.dim("p")
        r = c.obj(c.vec("rr", p, "int", "index", n))
        s = c.obj(c.vec("cc", p, "int", "index", m))
        al = c.real("al") if scale else P(1)
        w = c.obj(c.vec("w", p))
        return [r, s] + ([al] if scale else []) + [w], lambda i, j: mul(al, S(p, lambda t: mul(sel("w", (t,)), mul(eq(sel("rr", (t,)), i), eq(sel("cc", (t,)), j)))))
    return f


for K in "CL":
    adds(K, "Add(i, j, val)", "int i, int j, double v", "A.Add(i, j, v);", one)
    adds(K, "Add(indices, matrix)", "const IV& r, const DM& B", "A.Add(r, B);", dense_add(False, False)) if 0 else None
    adds(K, "Add(rows, cols, matrix)", "const IV& r, const IV& s, const DM& B", "A.Add(r, s, B);", dense_add(True, False))
adds("C", "Add(rows, cols, scale, matrix)", "const IV& r, const IV& s, double al, const DM& B", "A.Add(r, s, al, B);", dense_add(True, True))
adds("C", "Add(rows, col, vector)", "const IV& r, int s, const VW& w", "A.Add(r, s, w);", line_add(False, False))
adds("C", "Add(row, cols, vector)", "int r, const IV& s, const VW& w", "A.Add(r, s, w);", line_add(True, False))
adds("C", "Add(rows, col, scale, vector)", "const IV& r, int s, double al, const VW& w", "A.Add(r, s, al, w);", line_add(False, True))
adds("C", "Add(row, cols, scale, vector)", "int r, const IV& s, double al, const VW& w", "A.Add(r, s, al, w);", line_add(True, True))
adds("C", "Add(rows, cols, values)", "const IV& r, const IV& s, const RV& w", "A.Add(r, s, w);", pair_add(False))
adds("C", "Add(rows, cols, scale, values)", "const IV& r, const IV& s, double al, const RV& w", "A.Add(r, s, al, w);", pair_add(True))


def square(kind, label, params, body, setup):
    """variants for which one index list serves rows and columns"""
    nm = "c21_" + "".join(ch if ch.isalnum() else "_" for ch in kind + label)
    cls = {"C": "CM", "L": "LM"}[kind]
    probe(nm, "void", cls + "& A, " + params, body)

    def f(c, rec):
        n = c.dim("n", 1)
        A, ent = make(c, kind, n, n)
        args, add = setup(c, n, n)
        c.ev0 = len(c.I.events)
        c.call(nm, A, *args)
        finish(c, rec, kind, A, n, n, lambda i, j: ent(i, j) + add(i, j))
    add_ob("C21", {"C": "CooMatrix::", "L": "LilMatrix::"}[kind] + label, f)


for K in "CL":
    square(K, "AddSym(i, j, val)", "int i, int j, double v", "A.AddSym(i, j, v);", sym_)
    square(K, "Add(indices, matrix)", "const IV& r, const DM& B", "A.Add(r, B);", dense_add(False, False))
square("C", "Add(indices, scale, matrix)", "const IV& r, double al, const DM& B", "A.Add(r, al, B);", dense_add(False, True))


# --- relabelling
def perm(label, params, body, setup):
    nm = "c21_" + "".join(ch if ch.isalnum() else "_" for ch in label)
    probe(nm, "void", "CM& A, " + params, body)

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A, ent = coo_make(c, n, m)
        k = fresh_var()
        TM.FACTS.vub[k] = sym("nnz#") - 1
        args, mp = setup(c, n, m)
        c.ev0 = len(c.I.events)
        c.call(nm, A, *args)

        def want(i, j):
            a, b = mp(sel("ci", (P(k),)), sel("cj", (P(k),)))
            return mk_sum(k, sym("nnz#"), mul(sel("cv", (P(k),)), mul(eq(a, i), eq(b, j))))
        finish(c, rec, "C", A, n, m, want)
    add_ob("C21", "CooMatrix::" + label, f)


def pv(c, name, n):
    return c.obj(c.vec(name, n, "int", "index", n))


perm("PermuteRows", "const IV& p", "A.PermuteRows(p);", lambda c, n, m: ([pv(c, "rp", n)], lambda a, b: (sel("rp", (a,)), b)))
perm("PermuteCols", "const IV& p", "A.PermuteCols(p);", lambda c, n, m: ([pv(c, "cp", m)], lambda a, b: (a, sel("cp", (b,)))))
perm("PermuteRowsCols", "const IV& p, const IV& q", "A.PermuteRowsCols(p, q);",
     lambda c, n, m: ([pv(c, "rp", n), pv(c, "cp", m)], lambda a, b: (sel("rp", (a,)), sel("cp", (b,)))))

# --- removal of small entries
probe("c21_cooelim", "void", "CM& A, double tol", "A.EliminateZeros(tol);")
probe("c21_lilelim", "void", "LM& A, double tol", "A.EliminateZeros(tol);")
probe("c21_cooelim0", "void", "CM& A", "A.EliminateZeros();")
probe("c21_lilelim0", "void", "LM& A", "A.EliminateZeros();")


def keep(v, tol):
    """entries of magnitude up to the tolerance go, larger ones stay"""
    return lt(tol, app("abs", v), "r")


def elim(kind, default):
    nm = "c21_%selim%s" % ("coo" if kind == "C" else "lil", "0" if default else "")

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A, ent = make(c, kind, n, m)
        tol = P(0) if default else c.real("tol", "pos")
        c.ev0 = len(c.I.events)
        c.call(nm, A, *([] if default else [tol]))
        k = fresh_var()
        if kind == "C":
            TM.FACTS.vub[k] = sym("nnz#") - 1
            v = sel("cv", (P(k),))
            want = lambda i, j: mk_sum(k, sym("nnz#"), mul(mul(v, keep(v, tol)), mul(eq(sel("ci", (P(k),)), i), eq(sel("cj", (P(k),)), j))))
        else:
            def want(i, j):
                v = sel("L.x", (i, P(k)))
                return mk_sum(k, sel("L.c", (i,)), mul(mul(v, keep(v, tol)), eq(sel("L.j", (i, P(k))), j)))
        finish(c, rec, kind, A, n, m, want)
    add_ob("C21", {"C": "CooMatrix::", "L": "LilMatrix::"}[kind] + "EliminateZeros(%s)" % ("" if default else "tolerance"), f)


NSP = "linalgcpp::"
for K in "CL":
    elim(K, False)
    elim(K, True)

probe("c21_coorows", "int", "const CM& A", "return A.Rows();")
probe("c21_coocols", "int", "const CM& A", "return A.Cols();")
probe("c21_lilrows", "int", "const LM& A", "return A.Rows();")
probe("c21_lilcols", "int", "const LM& A", "return A.Cols();")
probe("c21_coosize", "void", "CM& A, int n, int m", "A.SetSize(n, m);")
probe("c21_lilsize", "void", "LM& A, int n, int m, int i, int j, double v", "A.SetSize(n, m); A.Add(i, j, v);")


def unsized_coo(c):
    nnz = c.dim("nnz")
    c.arr("ci", "index", P(5))
    c.arr("cj", "index", P(6))
    c.arr("cv")
    A = c.obj(c.ctor(NSP + "CooMatrix<double>", [], []))
    c.I.py_loop(nnz, lambda t: c.method(A, "Add", [sel("ci", (t,)), sel("cj", (t,)), sel("cv", (t,))], ptypes=["int", "int", "double"]))
    return A, nnz


def mx(nm, n):
    k = fresh_var()
    return mk_ext("mx", k, n, P(0), sel(nm, (P(k),)))


@ob("C21", "CooMatrix without size: Rows, Cols, ToDense")
def coo_unsized(c, rec):
    A, nnz = unsized_coo(c)
    c.ev0 = len(c.I.events)
    rec.eq("Rows", c.call("c21_coorows", A), mx("ci", nnz) + 1)
    rec.eq("Cols", c.call("c21_coocols", A), mx("cj", nnz) + 1)
    D = c.obj(c.dense("Dout", c.dim("p"), c.dim("q")))
    c.call("c21_coo", A, D)
    size(c, rec, D, mx("ci", nnz) + 1, mx("cj", nnz) + 1)


@ob("C21", "CooMatrix::SetSize")
def coo_setsize(c, rec):
    A, nnz = unsized_coo(c)
    n, m = c.dim("n", 5), c.dim("m", 6)
    c.ev0 = len(c.I.events)
    c.call("c21_coosize", A, n, m)
    rec.eq("Rows", c.call("c21_coorows", A), n)
    rec.eq("Cols", c.call("c21_coocols", A), m)
    D = c.obj(c.dense("Dout", c.dim("p"), c.dim("q")))
    c.call("c21_coo", A, D)
    size(c, rec, D, n, m)
    i, j, k = c.idx("i", n), c.idx("j", m), fresh_var()
    rec.eq("entry", dget(c, D, i, j), mk_sum(k, nnz, mul(sel("cv", (P(k),)), mul(eq(sel("ci", (P(k),)), i), eq(sel("cj", (P(k),)), j)))))


@ob("C21", "LilMatrix without size: Rows, Cols, ToDense")
def lil_unsized(c, rec):
    n, m = c.dim("n", 1), c.dim("m", 1)
    A = c.obj(c.lil("L", n, m, sized=False))
    k, k2 = fresh_var(), fresh_var()
    cols = mk_ext("mx", k, n, P(0), mk_ext("mx", k2, sel("L.c", (P(k),)), P(0), sel("L.j", (P(k), P(k2))))) + 1
    c.ev0 = len(c.I.events)
    rec.eq("Rows", c.call("c21_lilrows", A), n)
    rec.eq("Cols", c.call("c21_lilcols", A), cols)
    D = c.obj(c.dense("Dout", c.dim("p"), c.dim("q")))
    c.call("c21_lil", A, D)
    size(c, rec, D, n, cols)


@ob("C21", "LilMatrix without size: Add")
def lil_unsized_add(c, rec):
    A = c.obj(c.ctor(NSP + "LilMatrix<double>", [], []))
    i, j, v = c.idx("r", P(4)), c.idx("s", P(4)), c.real("v")
    i2, j2, v2 = c.idx("r2", P(4)), c.idx("s2", P(4)), c.real("v2")
    c.ev0 = len(c.I.events)
    c.method(A, "Add", [i, j, v], ptypes=["int", "int", "double"])
    c.method(A, "Add", [i2, j2, v2], ptypes=["int", "int", "double"])
    rec.eq("Rows", c.call("c21_lilrows", A), ite(lt(i, i2), i2, i) + 1)
    rec.eq("Cols", c.call("c21_lilcols", A), ite(lt(j, j2), j2, j) + 1)


@ob("C21", "LilMatrix::SetSize then Add")
def lil_setsize(c, rec):
    A = c.obj(c.ctor(NSP + "LilMatrix<double>", [], []))
    n, m = c.dim("n", 1), c.dim("m", 1)
    i, j, v = c.idx("r", n), c.idx("s", m), c.real("v")
    c.ev0 = len(c.I.events)
    c.call("c21_lilsize", A, n, m, i, j, v)
    rec.eq("Rows", c.call("c21_lilrows", A), n)
    rec.eq("Cols", c.call("c21_lilcols", A), m)
