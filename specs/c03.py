"""C03: matrix-matrix products."""
from spec import *
from c02 import dget, size, spval, S

T = {"S": "SM", "D": "DM"}
PR = [
    # label, left, body using A, B, out; op on A, op on B, transposed result
    ("SparseMatrix::Mult(dense)", "S", "Mult", 0, 0, 0),
    ("SparseMatrix::MultAT(dense)", "S", "MultAT", 1, 0, 0),
    ("SparseMatrix::MultCT(dense)", "S", "MultCT", 0, 0, 1),
    ("DenseMatrix::Mult(dense)", "D", "Mult", 0, 0, 0),
    ("DenseMatrix::MultAT(dense)", "D", "MultAT", 1, 0, 0),
    ("DenseMatrix::MultBT(dense)", "D", "MultBT", 0, 1, 0),
    ("DenseMatrix::MultABT(dense)", "D", "MultABT", 1, 1, 0),
]


def product(label, L, name, ta, tb, tc, form, same=False, dlo=0):
    nm = "c03_%s%s%d%d" % (L, name, form, same)
    call = ("out = A.%s(%s);" if form else "A.%s(%s, out);") % (name, "A" if same else "B")
    probe(nm, "void", "const %s& A, const DM& B, DM& out" % T[L], call)

    def f(c, rec):
        n, k, m = c.dim("n", dlo), c.dim("k", dlo), c.dim("m", dlo)
        if same:
            # the product with itself
            k = n if ta == tb else k
            m = n
        ar, ac = (k, n) if ta else (n, k)
        br, bc = (m, k) if tb else (k, m)
        A = c.obj(c.sparse("A", ar, ac)) if L == "S" else c.obj(c.dense("A", ar, ac))
        B = c.obj(c.dense("B", br, bc))
        out = c.obj(c.dense("O", c.dim("p"), c.dim("q")))
        c.ev0 = len(c.I.events)
        c.call(nm, A, B, out)
        size(c, rec, out, *((m, n) if tc else (n, m)))
        i, j = c.idx("i", n), c.idx("j", m)

        def a(r, s):
            return c.sp("A", ar, r, s) if L == "S" else sel("A", (r + mul(s, ar),))

        def b(r, s):
            return sel("B", (r + mul(s, br),)) if not same else a(r, s)
        if L == "S":
            # through the stored entries: sum over the row of A (or over all rows for the transpose)
            if ta:
                spec = S(k, lambda s: mul(a(s, i), b(s, j)))
            else:
                lo = sel("A.p", (i,))
                spec = S(sel("A.p", (i + 1,)) - lo, lambda s: mul(sel("A.x", (lo + s,)), sel("B", (sel("A.j", (lo + s,)) + mul(j, br),))))
        else:
            spec = S(k, lambda s: mul(a(s, i) if ta else a(i, s), b(j, s) if tb else b(s, j)))
        rec.eq("entry", dget(c, out, *((j, i) if tc else (i, j))), spec)
        rec.eq("B unchanged", dget(c, B, *((j, i) if 0 else (c.idx("r", br), c.idx("s", bc)))), sel("B", (sym("r#") + mul(sym("s#"), br),)))
    add_ob("C03", label + (" returned" if form else "") + (" with itself" if same else "") + (" nonempty" if dlo else ""), f)


for p in PR:
    for form in (0, 1):
        product(*p, form)
        if p[1] == "D":
            product(*p, form, False, 1)
for p in PR[3:]:
    product(*p, 0, True)
    product(*p, 0, True, 1)


# --- sparse times sparse
probe("c03_spgemm", "void", "const SM& A, const SM& B, SM& out", "out = A.Mult(B);")
probe("c03_spgemm2", "void", "const SM& A, const SM& B, SM& out, IV& mark", "out = A.Mult(B, mark);")
probe("c03_spgemmi", "void", "const SMI& A, const SMI& B, SMI& out", "out = A.Mult<int, int>(B);")


def spgemm(nm, form="", same=False, et="double"):
    def f(c, rec):
        n, k, m = c.dim("n"), c.dim("k"), c.dim("m")
        if same:
            n = m = k
        A = c.obj(c.sparse("A", n, k, et))
        B = A if same else c.obj(c.sparse("B", k, m, et))
        b = "A" if same else "B"
        out = c.obj(c.ctor("linalgcpp::SparseMatrix<%s>" % et, [], []))
        args = [A, B, out]
        if form == "marker":
            args.append(c.obj(c.vec("mk", c.dim("w"), "int")))
        c.ev0 = len(c.I.events)
        c.call(nm, *args)
        size(c, rec, out, n, m)
        i, j = c.idx("i", n), c.idx("j", m)
        lo = sel("A.p", (i,))
        spec = S(sel("A.p", (i + 1,)) - lo, lambda s: mul(sel("A.x", (lo + s,)), c.sp(b, k, sel("A.j", (lo + s,)), j)))
        rec.eq("entry", spval(c, out, i, j), spec)
        if not same:
            rec.eq("first operand unchanged", spval(c, A, i, c.idx("l", k)), c.sp("A", n, i, sym("l#")))
    return f


add_ob("C03", "SparseMatrix::Mult(SparseMatrix)", spgemm("c03_spgemm"))
add_ob("C03", "SparseMatrix::Mult(SparseMatrix, marker)", spgemm("c03_spgemm2", "marker"))
add_ob("C03", "SparseMatrix::Mult(SparseMatrix) with itself", spgemm("c03_spgemm", same=True))
add_ob("C03", "SparseMatrix<int>::Mult(SparseMatrix<int>)", spgemm("c03_spgemmi", et="int"))
