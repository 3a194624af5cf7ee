"""C02: conversions, transposition and extraction preserve the matrix."""
from spec import *
from c01 import coo_make, block_make, CV, VV, NSP


def dget(c, D, i, j):
    return c.I.load(c.method(D, "operator()", [i, j], const=True), c.t("double"))


def S(n, f):
    k = fresh_var()
    return mk_sum(k, n, f(P(k)))


def size(c, rec, M, n, m):
    rec.eq("rows", c.method(M, "Rows", []), n)
    rec.eq("cols", c.method(M, "Cols", []), m)


# --- sparse -> dense
for nm, sig, body in (("c02_todense", "const SM& A, DM& out", "out = A.ToDense();"),
                      ("c02_todense2", "const SM& A, DM& out", "A.ToDense(out);"),
                      ("c02_tdense", "const SM& A, DM& out", "out = A.TransposeDense();"),
                      ("c02_tdense2", "const SM& A, DM& out", "A.TransposeDense(out);"),
                      ("c02_transpose", "const SM& A, SM& out", "out = A.Transpose();"),
                      ("c02_cootodense", "const CM& A, DM& out", "out = A.ToDense();"),
                      ("c02_cootodense2", "const CM& A, DM& out", "A.ToDense(out);"),
                      ("c02_cootosparse", "const CM& A, SM& out", "out = A.ToSparse();"),
                      ("c02_diag", "const SM& A, RV& out", "out = A.GetDiag();"),
                      ("c02_fromdiag", "const RV& d, SM& out", "out = SM(d);")):
    probe(nm, "void", sig, body)


def sparse_dense(label, nm, at):
    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.sparse("A", n, m))
        D = c.obj(c.dense("D", c.dim("p"), c.dim("q")))
        c.ev0 = len(c.I.events)
        c.call(nm, A, D)
        r, k = (m, n) if at else (n, m)
        size(c, rec, D, r, k)
        i, j = c.idx("i", r), c.idx("j", k)
        rec.eq("entry", dget(c, D, i, j), c.sp("A", n, j, i) if at else c.sp("A", n, i, j))
    add_ob("C02", label, f)


sparse_dense("SparseMatrix::ToDense()", "c02_todense", False)
sparse_dense("SparseMatrix::ToDense(out)", "c02_todense2", False)
sparse_dense("SparseMatrix::TransposeDense()", "c02_tdense", True)
sparse_dense("SparseMatrix::TransposeDense(out)", "c02_tdense2", True)


def coo_dense(label, nm):
    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A, ent = coo_make(c, n, m)
        D = c.obj(c.dense("D", c.dim("p"), c.dim("q")))
        c.ev0 = len(c.I.events)
        c.call(nm, A, D)
        size(c, rec, D, n, m)
        i, j = c.idx("i", n), c.idx("j", m)
        rec.eq("entry", dget(c, D, i, j), ent(i, j))
    add_ob("C02", label, f)


coo_dense("CooMatrix::ToDense()", "c02_cootodense")
coo_dense("CooMatrix::ToDense(out)", "c02_cootodense2")


def spval(c, M, i, j):
    """entry (i,j) of a sparse matrix object through its raw arrays"""
    ptr, col, dat = [c.method(M, g, [], const=True) for g in ("GetIndptr", "GetIndices", "GetData")]
    k = fresh_var()
    lo, hi = c.get(ptr, i), c.get(ptr, i + 1)
    TM.FACTS.vub[k] = hi - lo - 1
    return mk_sum(k, hi - lo, mul(c.get(dat, lo + P(k)), eq(c.get(col, lo + P(k)), j)))


probe("c02_liltodense", "void", "const LM& A, DM& out", "out = A.ToDense();")
probe("c02_liltodense2", "void", "const LM& A, DM& out", "A.ToDense(out);")
probe("c02_liltosparse", "void", "const LM& A, SM& out", "out = A.ToSparse();")


def lil_dense(label, nm):
    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.lil("L", n, m))
        D = c.obj(c.dense("D", c.dim("p"), c.dim("q")))
        c.ev0 = len(c.I.events)
        c.call(nm, A, D)
        size(c, rec, D, n, m)
        i, j = c.idx("i", n), c.idx("j", m)
        rec.eq("entry", dget(c, D, i, j), c.lil_entry("L", i, j))
    add_ob("C02", label, f)


lil_dense("LilMatrix::ToDense()", "c02_liltodense")
lil_dense("LilMatrix::ToDense(out)", "c02_liltodense2")


@ob("C02", "LilMatrix::ToSparse")
def lilsparse(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.lil("L", n, m))
    B = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
    c.ev0 = len(c.I.events)
    c.call("c02_liltosparse", A, B)
    size(c, rec, B, n, m)
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entry", spval(c, B, i, j), c.lil_entry("L", i, j))
    combined(c, rec, B, i)


def combined(c, rec, B, i):
    """a row of the result holds no column twice: repeated entries were combined into one"""
    ptr, col = [c.method(B, g, [], const=True) for g in ("GetIndptr", "GetIndices")]
    lo, hi = c.get(ptr, i), c.get(ptr, i + 1)
    k, h = fresh_var(), fresh_var()
    TM.FACTS.vub[k] = hi - lo - 1
    TM.FACTS.vub[h] = P(k) - 1
    rec.eq("columns stored twice",
           mk_sum(k, hi - lo, mk_sum(h, P(k), eq(c.get(col, lo + P(k)), c.get(col, lo + P(h))))), P(0))


@ob("C02", "SparseMatrix::Transpose")
def transpose(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    B = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
    c.ev0 = len(c.I.events)
    c.call("c02_transpose", A, B)
    size(c, rec, B, m, n)
    i, j = c.idx("i", m), c.idx("j", n)
    rec.eq("nnz", c.method(B, "nnz", []), sel("A.p", (n,)))
    rec.eq("entry", spval(c, B, i, j), c.sp("A", n, j, i))


@ob("C02", "CooMatrix::ToSparse")
def coosparse(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A, ent = coo_make(c, n, m)
    B = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
    c.ev0 = len(c.I.events)
    c.call("c02_cootosparse", A, B)
    size(c, rec, B, n, m)
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entry", spval(c, B, i, j), ent(i, j))
    combined(c, rec, B, i)


@ob("C02", "SparseMatrix::GetDiag")
def getdiag(c, rec):
    n = c.dim("n")
    A = c.obj(c.sparse("A", n, n))
    o = c.obj(c.vec("o", c.dim("q")))
    c.ev0 = len(c.I.events)
    c.call("c02_diag", A, o)
    i = c.idx("i", n)
    rec.eq("size", c.I.load(o).len, n)
    rec.eq("diag[i]", c.get(o, i), c.sp("A", n, i, i))


@ob("C02", "SparseMatrix(diagonal)")
def fromdiag(c, rec):
    n = c.dim("n")
    d = c.obj(c.vec("d", n))
    B = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
    c.ev0 = len(c.I.events)
    c.call("c02_fromdiag", d, B)
    size(c, rec, B, n, n)
    i, j = c.idx("i", n), c.idx("j", n)
    rec.eq("entry", spval(c, B, i, j), mul(eq(i, j), sel("d", (i,))))


# --- sparse extraction
probe("c02_sub", "void", "const SM& A, const IV& r, const IV& s, SM& out", "out = A.GetSubMatrix(r, s);")
probe("c02_sub2", "void", "const SM& A, const IV& r, const IV& s, IV& mk, SM& out", "out = A.GetSubMatrix(r, s, mk);")


def submat(label, nm, marker):
    def f(c, rec):
        n, m, p, q = c.dim("n", 1), c.dim("m", 1), c.dim("p"), c.dim("q")
        A = c.obj(c.sparse("A", n, m))
        rv = c.obj(c.vec("ri", p, "int", "index", n))
        c.model["dims"] = [d for d in c.model["dims"] if d[0] != "q#"]
        c.model["arrays"]["q#"] = ("fn", lambda mm, idx: mm.h("q") % (int(mm.ev(m)) + 1))
        cv = c.obj(c.vec("ci", q, "int", "distinct", m))
        c.F.intsel.add("ci")
        c.F.nonneg_sel.add("ci")
        c.F.ub["ci"] = lambda idxs: m - 1
        c.F.distinct["ci"] = lambda pre, off, k: True
        B = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
        args = [A, rv, cv]
        if marker:
            mk = c.obj(c.call("c02_fill", m + c.dim("x"), P(-1)))
            args.append(mk)
        c.ev0 = len(c.I.events)
        c.call(nm, *(args + [B]))
        size(c, rec, B, p, q)
        i, j = c.idx("i", p), c.idx("j", q)
        rec.eq("entry", spval(c, B, i, j), c.sp("A", n, sel("ri", (i,)), sel("ci", (j,))))
        rec.eq("A unchanged", c.get(c.method(A, "GetData", [], const=True), c.idx("k", sel("A.p", (n,)))), sel("A.x", (sym("k#"),)))
        if marker:
            rec.eq("marker restored", c.get(mk, c.idx("t", m)), P(-1))
    add_ob("C02", label, f)


probe("c02_fill", "IV", "int n, int v", "return IV(n, v);")
submat("SparseMatrix::GetSubMatrix(rows, cols)", "c02_sub", False)
submat("SparseMatrix::GetSubMatrix(rows, cols, marker)", "c02_sub2", True)

probe("c02_gi", "IV", "const SM& A, int r", "return A.GetIndices(r);")
probe("c02_gd", "RV", "const SM& A, int r", "return A.GetData(r);")
probe("c02_giv", "int", "const SM& A, int r, int k", "return A.GetIndicesView(r)[k];")
probe("c02_giv2", "int", "SM& A, int r, int k", "return A.GetIndicesView(r)[k];")
probe("c02_givn", "int", "const SM& A, int r", "return A.GetIndicesView(r).size();")
probe("c02_rs", "int", "const SM& A, int r", "return A.RowSize(r);")
probe("c02_nnz", "int", "const SM& A", "return A.nnz();")


@ob("C02", "SparseMatrix row access")
def rowaccess(c, rec):
    n, m = c.dim("n", 1), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    c.ev0 = len(c.I.events)
    r = c.idx("r", n)
    lo = sel("A.p", (r,))
    cnt = sel("A.p", (r + 1,)) - lo
    k = c.idx("k", cnt)
    gi, gd = c.obj(c.call("c02_gi", A, r)), c.obj(c.call("c02_gd", A, r))
    rec.eq("GetIndices(row) size", c.I.load(gi).len, cnt)
    rec.eq("GetData(row) size", c.I.load(gd).len, cnt)
    rec.eq("GetIndices(row)", c.get(gi, k), sel("A.j", (lo + k,)))
    rec.eq("GetData(row)", c.get(gd, k), sel("A.x", (lo + k,)))
    rec.eq("GetIndicesView(row) size", c.call("c02_givn", A, r), cnt)
    for s in ("", "2"):
        rec.eq("GetIndicesView(row)" + s, c.call("c02_giv" + s, A, r, k), sel("A.j", (lo + k,)))
    rec.eq("RowSize", c.call("c02_rs", A, r), cnt)
    rec.eq("nnz", c.call("c02_nnz", A), sel("A.p", (n,)))


# --- dense extraction and insertion
def D(i, j, n):
    return sel("D", (i + mul(j, n),))


def E(i, j, n):
    return sel("E", (i + mul(j, n),))


def dense_out(label, params, body, dims, val, pre=None, kinds=None, outdense=True):
    """out = extraction of D (n x m)"""
    nm = "c02d_" + "".join(ch if ch.isalnum() else "_" for ch in label)
    probe(nm, "void", "const DM& A, DM& out" + params, body)

    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m", 1)
        A = c.obj(c.dense("D", n, m))
        o = c.obj(c.dense("O", c.dim("op"), c.dim("oq")))
        args, dd, v = pre(c, n, m)
        c.ev0 = len(c.I.events)
        c.call(nm, A, o, *args)
        size(c, rec, o, *dd)
        i, j = c.idx("i", dd[0]), c.idx("j", dd[1])
        rec.eq("entry", dget(c, o, i, j), v(i, j))
        rec.eq("source unchanged", dget(c, A, c.idx("si", n), c.idx("sj", m)), D(sym("si#"), sym("sj#"), n))
    add_ob("C02", "DenseMatrix::" + label, f)


def rng(c, n, a, ln):
    """0 <= a < n, 0 <= len <= n - a"""
    s = c.idx(a, n)
    l = c.idx(ln, n - s + 1)
    return s, l


def p_sub(c, n, m):
    si, li = rng(c, n, "a", "la")
    sj, lj = rng(c, m, "b", "lb")
    return [si, sj, si + li, sj + lj], (li, lj), lambda i, j: D(si + i, sj + j, n)


def p_rows(c, n, m):
    si, li = rng(c, n, "a", "la")
    return [si, si + li], (li, m), lambda i, j: D(si + i, j, n)


def p_cols(c, n, m):
    sj, lj = rng(c, m, "b", "lb")
    return [sj, sj + lj], (n, lj), lambda i, j: D(i, sj + j, n)


def p_idx(c, n, m):
    p, q = c.dim("p"), c.dim("q")
    r = c.obj(c.vec("ri", p, "int", "index", n))
    s = c.obj(c.vec("ci", q, "int", "index", m))
    return [r, s], (p, q), lambda i, j: D(sel("ri", (i,)), sel("ci", (j,)), n)


def p_ridx(c, n, m):
    p = c.dim("p")
    r = c.obj(c.vec("ri", p, "int", "index", n))
    return [r], (p, m), lambda i, j: D(sel("ri", (i,)), j, n)


def p_t(c, n, m):
    return [], (m, n), lambda i, j: D(j, i, n)


dense_out("Transpose()", "", "out = A.Transpose();", None, None, p_t)
dense_out("Transpose(out)", "", "A.Transpose(out);", None, None, p_t)
dense_out("GetSubMatrix(range)", ", int a, int b, int x, int y", "out = A.GetSubMatrix(a, b, x, y);", None, None, p_sub)
dense_out("GetSubMatrix(range, out)", ", int a, int b, int x, int y", "A.GetSubMatrix(a, b, x, y, out);", None, None, p_sub)
dense_out("GetSubMatrix(rows, cols)", ", const IV& r, const IV& s", "out = A.GetSubMatrix(r, s);", None, None, p_idx)
dense_out("GetSubMatrix(rows, cols, out)", ", const IV& r, const IV& s", "A.GetSubMatrix(r, s, out);", None, None, p_idx)
dense_out("GetRow(range)", ", int a, int b", "out = A.GetRow(a, b);", None, None, p_rows)
dense_out("GetRow(range, out)", ", int a, int b", "A.GetRow(a, b, out);", None, None, p_rows)
dense_out("GetCol(range)", ", int a, int b", "out = A.GetCol(a, b);", None, None, p_cols)
dense_out("GetCol(range, out)", ", int a, int b", "A.GetCol(a, b, out);", None, None, p_cols)
dense_out("GetRow(rows)", ", const IV& r", "out = A.GetRow(r);", None, None, p_ridx)

probe("c02_getrowsout", "void", "const DM& A, const IV& r, DM& out", "A.GetRow(r, out);")


@ob("C02", "DenseMatrix::GetRow(rows, out)")
def getrowsout(c, rec):
    n, m, p = c.dim("n", 1), c.dim("m"), c.dim("p")
    A, o = c.obj(c.dense("D", n, m)), c.obj(c.dense("O", p, m))
    r = c.obj(c.vec("ri", p, "int", "index", n))
    c.ev0 = len(c.I.events)
    c.call("c02_getrowsout", A, r, o)
    size(c, rec, o, p, m)
    i, j = c.idx("i", p), c.idx("j", m)
    rec.eq("entry", dget(c, o, i, j), D(sel("ri", (i,)), j, n))


def dense_in(label, params, body, pre):
    """A (n x m) modified by another matrix/vector"""
    nm = "c02i_" + "".join(ch if ch.isalnum() else "_" for ch in label)
    probe(nm, "void", "DM& A" + params, body)

    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m", 1)
        A = c.obj(c.dense("D", n, m))
        args, v = pre(c, n, m)
        c.ev0 = len(c.I.events)
        c.call(nm, A, *args)
        size(c, rec, A, n, m)
        i, j = c.idx("i", n), c.idx("j", m)
        rec.eq("entry", dget(c, A, i, j), v(i, j))
    add_ob("C02", "DenseMatrix::" + label, f)


def inside(i, lo, ln):
    return mul(le(lo, i), lt(i, lo + ln))


def q_sub(t, full):
    def pre(c, n, m):
        si, li = rng(c, n, "a", "la")
        sj, lj = rng(c, m, "b", "lb")
        # with an explicit range the source may be larger than the range
        ei, ej = (c.dim("ei"), c.dim("ej")) if full else (P(0), P(0))
        B = c.obj(c.dense("E", lj + ej, li + ei) if t else c.dense("E", li + ei, lj + ej))
        args = [si, sj] + ([si + li, sj + lj] if full else []) + [B]

        def v(i, j):
            e = E(j - sj, i - si, lj + ej) if t else E(i - si, j - sj, li + ei)
            return ite(mul(inside(i, si, li), inside(j, sj, lj)), e, D(i, j, n))
        return args, v
    return pre


dense_in("SetSubMatrix(corner)", ", int a, int b, const DM& B", "A.SetSubMatrix(a, b, B);", q_sub(False, False))
dense_in("SetSubMatrix(range)", ", int a, int b, int x, int y, const DM& B", "A.SetSubMatrix(a, b, x, y, B);", q_sub(False, True))
dense_in("SetSubMatrixTranspose(corner)", ", int a, int b, const DM& B", "A.SetSubMatrixTranspose(a, b, B);", q_sub(True, False))
dense_in("SetSubMatrixTranspose(range)", ", int a, int b, int x, int y, const DM& B", "A.SetSubMatrixTranspose(a, b, x, y, B);", q_sub(True, True))


def q_rowblk(c, n, m):
    si, li = rng(c, n, "a", "la")
    B = c.obj(c.dense("E", li, m))
    return [si, B], lambda i, j: ite(inside(i, si, li), E(i - si, j, li), D(i, j, n))


def q_colblk(c, n, m):
    sj, lj = rng(c, m, "b", "lb")
    B = c.obj(c.dense("E", n, lj))
    return [sj, B], lambda i, j: ite(inside(j, sj, lj), E(i, j - sj, n), D(i, j, n))


def q_row(c, n, m):
    r = c.idx("r", n)
    return [r, c.obj(c.view("v", m))], lambda i, j: ite(eq(i, r), sel("v", (j,)), D(i, j, n))


def q_col(c, n, m):
    r = c.idx("r", m)
    return [r, c.obj(c.view("v", n))], lambda i, j: ite(eq(j, r), sel("v", (i,)), D(i, j, n))


def q_add(c, n, m):
    p, q = c.dim("p"), c.dim("q")
    r = c.obj(c.vec("ri", p, "int", "index", n))
    s = c.obj(c.vec("ci", q, "int", "index", m))
    B = c.obj(c.dense("E", p, q))
    return [r, s, B], lambda i, j: D(i, j, n) + S(q, lambda b: S(p, lambda a: mul(mul(eq(sel("ri", (a,)), i), eq(sel("ci", (b,)), j)), E(a, b, p))))


dense_in("SetRow(start, matrix)", ", int a, const DM& B", "A.SetRow(a, B);", q_rowblk)
dense_in("SetCol(start, matrix)", ", int a, const DM& B", "A.SetCol(a, B);", q_colblk)
dense_in("SetRow(row, vector)", ", int a, const VW& v", "A.SetRow(a, v);", q_row)
dense_in("SetCol(col, vector)", ", int a, const VW& v", "A.SetCol(a, v);", q_col)
dense_in("AddSubMatrix", ", const IV& r, IV& s, const DM& B", "A.AddSubMatrix(r, s, B);", q_add)


def dense_vec(label, ret, body, isrow, const="const "):
    nm = "c02v_" + "".join(ch if ch.isalnum() else "_" for ch in label)
    probe(nm, "void", const + "DM& A, int r, VD& out, VW& w", body)

    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m", 1)
        A = c.obj(c.dense("D", n, m))
        ln = m if isrow else n
        r = c.idx("r", n if isrow else m)
        o = c.obj(c.ctor("linalgcpp::Vector<double>", ["int", "double"], [c.dim("oq") if ret else ln, c.real("o")]))
        w = c.obj(c.view("w", ln))
        c.ev0 = len(c.I.events)
        c.call(nm, A, r, o, w)
        i = c.idx("i", ln)
        t = w if "view" in label else o
        rec.eq("size", c.view_size(t), ln)
        rec.eq("entry", c.view_get(t, i), D(r, i, n) if isrow else D(i, r, n))
    add_ob("C02", "DenseMatrix::" + label, f)


dense_vec("GetRow(row)", True, "out = A.GetRow(r);", True)
dense_vec("GetRow(row, out)", False, "A.GetRow(r, out);", True)
dense_vec("GetRow(row, view)", False, "A.GetRow(r, w);", True)
dense_vec("GetCol(col)", True, "out = A.GetCol(r);", False)
dense_vec("GetCol(col, view)", False, "A.GetCol(r, w);", False)
dense_vec("GetColView(col)", True, "out = A.GetColView(r);", False)
dense_vec("GetColView(col) mutable", False, "out = A.GetColView(r);", False, "")
dense_vec("GetCol(col, view) mutable source", False, "A.GetCol(r, w);", False, "")

probe("c02_ddiag", "void", "const DM& A, RV& out", "out = A.GetDiag();")
probe("c02_ddiag2", "void", "const DM& A, RV& out", "A.GetDiag(out);")


def ddiag(label, nm, ret):
    def f(c, rec):
        n = c.dim("n")
        A = c.obj(c.dense("D", n, n))
        o = c.obj(c.vec("o", c.dim("q") if ret else n))
        c.ev0 = len(c.I.events)
        c.call(nm, A, o)
        i = c.idx("i", n)
        rec.eq("size", c.I.load(o).len, n)
        rec.eq("diag[i]", c.get(o, i), D(i, i, n))
    add_ob("C02", label, f)


ddiag("DenseMatrix::GetDiag()", "c02_ddiag", True)
ddiag("DenseMatrix::GetDiag(out)", "c02_ddiag2", False)


# --- block matrices
probe("c02_bmt", "void", "const BM& A, BM& out", "out = A.Transpose();")
probe("c02_bmc", "void", "const BM& A, SM& out", "out = A.Combine();")
for g_ in ("GetIndptr", "GetIndices", "GetData"):
    probe("c02_bm" + g_, "const %s&" % ("RV" if g_ == "GetData" else "IV"), "const BM& A, int i, int j", "return A.GetBlock(i, j).%s();" % g_)


def bmval(c, M, i, j, r, k):
    ptr, col, dat = [c.I.load(x, c.t("std::vector<%s>" % t)) if isinstance(x, LV) else x
                     for x, t in ((c.call("c02_bm" + g, M, i, j), t) for g, t in (("GetIndptr", "int"), ("GetIndices", "int"), ("GetData", "double")))]
    e = fresh_var()
    lo, hi = c.get(ptr, r), c.get(ptr, r + 1)
    TM.FACTS.vub[e] = hi - lo - 1
    return mk_sum(e, hi - lo, mul(c.get(dat, lo + P(e)), eq(c.get(col, lo + P(e)), k)))


def transposes(c, rows, cols):
    """SparseMatrix::Transpose is decided by its own obligation; here a call on member (i,j) of the family B
    returns member (i,j) of a family Bt"""
    c.csr_facts("Bt", cols, rows)
    hits = []

    def f(full, this, args):
        o = c.I.load(this, full["cls"])
        k = fresh_var()
        e = c.get(o.f["indptr_@linalgcpp::SparseMatrix<double>"], P(k))
        found = set()
        TM.mentions(e, lambda x: isinstance(x, TM.Atom) and x.kind == "sel" and x.args[0] == "B.p" and found.add(x.args[1][:2]))
        if len(found) != 1:
            raise Undecided("which block is transposed")
        pre = found.pop()
        hits.append(pre)
        return c.sparse_pre("Bt", pre, cols(pre), rows(pre))
    for g in c.p.find(NSP + "SparseMatrix<double>::Transpose") or c.p.byq.get(NSP + "SparseMatrix::Transpose", []):
        if g.get("cls") is not None and c.p.unq(g["cls"]) == c.t(NSP + "SparseMatrix<double>"):
            c.I.contracts[g["id"]] = f
    return hits


def bmtrans(label, unset):
    def f(c, rec):
        R, C = c.dim("R", 1), c.dim("C", 1)
        A, ent = block_make(c, R, C, unset)
        rows = lambda pre: sel("ro", (pre[0] + 1,)) - sel("ro", (pre[0],))
        cols = lambda pre: sel("co", (pre[1] + 1,)) - sel("co", (pre[1],))
        hits = transposes(c, rows, cols)
        o = c.obj(c.ctor(NSP + "BlockMatrix<double>", [], []))
        c.ev0 = len(c.I.events)
        c.call("c02_bmt", A, o)
        size(c, rec, o, sel("co", (C,)), sel("ro", (R,)))
        i, j = c.idx("i", R), c.idx("j", C)
        r = c.idx("r", rows((i, j)))
        k = c.idx("k", cols((i, j)))
        if hits:
            want = c.spx("Bt", (i, j), k, r)
            if unset:
                want = mul(eq(sel("set", (i, j)), P(1)), want)
        else:
            want = ent(i, j, r, k)
        rec.eq("entry", bmval(c, o, j, i, k, r), want)
    add_ob("C02", label, f)


bmtrans("BlockMatrix::Transpose", False)
bmtrans("BlockMatrix::Transpose of unset blocks", True)


def bmcombine(label, blocks, **opts):
    def f(c, rec):
        R, C = (P(2), P(2)) if blocks else (c.dim("R", 1), c.dim("C", 1))
        A, ent = block_make(c, R, C)
        o = c.obj(c.ctor(NSP + "SparseMatrix<double>", [], []))
        c.ev0 = len(c.I.events)
        c.call("c02_bmc", A, o)
        size(c, rec, o, sel("ro", (R,)), sel("co", (C,)))
        i, j = (P(blocks[0]), P(blocks[1])) if blocks else (c.idx("i", R), c.idx("j", C))
        r = c.idx("r", sel("ro", (i + 1,)) - sel("ro", (i,)))
        k = c.idx("k", sel("co", (j + 1,)) - sel("co", (j,)))
        rec.eq("entry", spval(c, o, sel("ro", (i,)) + r, sel("co", (j,)) + k), ent(i, j, r, k))
    add_ob("C02", label, f, noevents=True, **opts)


bmcombine("BlockMatrix::Combine", None, thorough=True)
bmcombine("BlockMatrix::Combine of 2x2 blocks, block (0,1)", (0, 1), cost=50)
bmcombine("BlockMatrix::Combine of 2x2 blocks, block (1,0)", (1, 0), cost=50)


@ob("C02", "BlockMatrix::GetBlock")
def bmget(c, rec):
    R, C = c.dim("R", 1), c.dim("C", 1)
    A, ent = block_make(c, R, C)
    c.ev0 = len(c.I.events)
    i, j = c.idx("i", R), c.idx("j", C)
    r = c.idx("r", sel("ro", (i + 1,)) - sel("ro", (i,)))
    k = c.idx("k", sel("co", (j + 1,)) - sel("co", (j,)))
    rec.eq("entry", bmval(c, A, i, j, r, k), ent(i, j, r, k))


probe("c02_hstack", "void", "const std::vector<DM>& v, DM& out", "HStack(v, out);")
probe("c02_hstackr", "void", "const std::vector<DM>& v, DM& out", "out = HStack(v);")
probe("c02_sumrows", "int", "const std::vector<DM>& v", "return SumRows(v);")
probe("c02_sumcols", "int", "const std::vector<DM>& v", "return SumCols(v);")


def dlist(c, T, rows, cols):
    """a std::vector of T dense matrices, matrix t has rows(t) x cols(t) entries Q[t, i + j rows]"""
    c.arr("Q", "real")
    buf = c.I.fresh_buf("Q")
    c.I.fresh_gen(buf)
    c.I.blen0[buf] = T
    d = c.ctor(NSP + "DenseMatrix", [], [])
    for suf, leaf, dims in c.I.bufleaves(d.t):
        k = fresh_var()
        if suf:
            a = arr_sym("Q")
        elif leaf[-1] == "len":
            a = arr_lam((k,), mul(rows(P(k)), cols(P(k))))
        elif leaf[-1].startswith("rows_@"):
            a = arr_lam((k,), rows(P(k)))
        elif leaf[-1].startswith("cols_@"):
            a = arr_lam((k,), cols(P(k)))
        else:
            raise Missing("layout of DenseMatrix")
        c.I.st.heap[(buf + suf, leaf)] = a
    return c.obj(Vec(T, buf, (), d.t))


def hstack(nm):
    def f(c, rec):
        T, n = c.dim("T", 1), c.dim("n", 1)
        c.offsets("of", T)
        wid = lambda t: sel("of", (t + 1,)) - sel("of", (t,))
        v = dlist(c, T, lambda t: n, wid)
        o = c.obj(c.dense("O", c.dim("p"), c.dim("q")))
        c.ev0 = len(c.I.events)
        c.call(nm, v, o)
        size(c, rec, o, n, sel("of", (T,)))
        t, i = c.idx("t", T), c.idx("i", n)
        j = c.idx("j", wid(t))
        rec.eq("entry", dget(c, o, i, sel("of", (t,)) + j), sel("Q", (t, i + mul(j, n))))
    add_ob("C02", "HStack" + (" returned" if nm.endswith("r") else ""), f)


hstack("c02_hstack")
hstack("c02_hstackr")


@ob("C02", "SumRows and SumCols")
def sums(c, rec):
    T = c.dim("T")
    c.arr("hr", "index", P(5))
    c.arr("hc", "index", P(5))
    v = dlist(c, T, lambda t: sel("hr", (t,)), lambda t: sel("hc", (t,)))
    c.ev0 = len(c.I.events)
    rec.eq("rows", c.call("c02_sumrows", v), S(T, lambda t: sel("hr", (t,))))
    rec.eq("cols", c.call("c02_sumcols", v), S(T, lambda t: sel("hc", (t,))))
