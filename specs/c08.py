"""C08: calls with operands of the wrong size are rejected before anything is modified."""
from spec import *
from c01 import CV, VV, NSP


PRE = []


def pre(label, params, body, setup, clean=True, loops=False, **opts):
    """setup(c) -> (arguments, {what: required condition})
    loops: checks made element by element count as well (and may come after
    earlier elements were processed)"""
    nm = "c08_%d" % len(PRE)
    PRE.append(label)
    probe(nm, "void", params, body)

    def f(c, rec):
        args, req = setup(c)
        e0 = c.ev0 = len(c.I.events)
        c.I.watch = c.I.st.copy()
        try:
            c.call(nm, *args)
        except NoReturn:
            pass
        c.I.watch = None
        ok = P(1)
        sites = []
        for e in c.I.events[e0:]:
            if e["kind"] not in ("assert", "abort", "throw") or (e["loops"] and not loops):
                continue
            if clean and not loops and e.get("dirty"):
                continue
            b = bad_term(e)
            if e["loops"]:
                for t, n in reversed(e["loops"]):
                    if n is None:
                        raise Undecided("unknown bound")
                    b = mk_sum(t, n, b)
                b = 1 - eq(b, P(0))
            ok = mul(ok, 1 - b)
            sites.append(c.p.where(e["fn"], e["line"]) if e["fn"] else None)
        where = sites[0] if sites else None
        for what, cond in req.items():
            rec.eq("rejects %s" % what, mul(ok, 1 - cond), P(0), where=where)
    opts.setdefault("noevents", True)
    add_ob("C08", label, f, **opts)


def need(**kw):
    return {k.replace("_", " "): v for k, v in kw.items()}


# --- operators applied to vectors
def mk(kind):
    def f(c, n, m):
        if kind in ("SM", "SMI"):
            return c.obj(c.sparse("A", n, m, "int" if kind == "SMI" else "double"))
        if kind == "DM":
            return c.obj(c.dense("D", n, m))
        cls = {"CM": "CooMatrix<double>", "LM": "LilMatrix<double>"}[kind]
        return c.obj(c.ctor(NSP + cls, ["int", "int"], [n, m]))
    return f


def appl(at):
    def g(kind):
        def f(c):
            n, m = c.dim("n"), c.dim("m")
            A = mk(kind)(c, n, m)
            p, q = c.dim("p"), c.dim("q")
            x, y = c.obj(c.view("x", p)), c.obj(c.view("y", q))
            nin, nout = (n, m) if at else (m, n)
            return [A, x, y], need(input_size=eq(p, nin), output_size=eq(q, nout))
        return f
    return g


for at in (False, True):
    nm = "MultAT" if at else "Mult"
    for kind, t in (("SM", "SparseMatrix<double>"), ("SMI", "SparseMatrix<int>"), ("DM", "DenseMatrix"), ("CM", "CooMatrix"), ("LM", "LilMatrix")):
        pre("%s::%s(view, view)" % (t, nm), "const %s& A, const VW& x, VW y" % kind, "A.%s(x, y);" % nm, appl(at)(kind))


def appl1(at):
    def g(kind):
        def f(c):
            n, m = c.dim("n"), c.dim("m")
            A = mk(kind)(c, n, m)
            p = c.dim("p")
            return [A, c.obj(c.view("x", p))], need(input_size=eq(p, n if at else m))
        return f
    return g


for at in (False, True):
    nm = "MultAT" if at else "Mult"
    for kind, t in (("SM", "SparseMatrix<double>"), ("DM", "DenseMatrix"), ("CM", "CooMatrix"), ("LM", "LilMatrix")):
        pre("%s::%s(view)" % (t, nm), "const %s& A, const VW& x" % kind,
            ("A.%s(x);" if kind in ("SM", "DM") else "static_cast<const Operator&>(A).%s(x);") % nm, appl1(at)(kind))


def blk(at, op):
    def f(c):
        R, C = c.dim("R", 1), c.dim("C", 1)
        A = c.obj(c.ctor(NSP + ("BlockOperator" if op else "BlockMatrix<double>"),
                         ["std::vector<int>", "std::vector<int>"], [c.offsets("ro", R), c.offsets("co", C)]))
        p, q = c.dim("p"), c.dim("q")
        x, y = c.obj(c.view("x", p)), c.obj(c.view("y", q))
        n, m = sel("ro", (R,)), sel("co", (C,))
        nin, nout = (n, m) if at else (m, n)
        return [A, x, y], need(input_size=eq(p, nin), output_size=eq(q, nout))
    return f


for at in (False, True):
    nm = "MultAT" if at else "Mult"
    pre("BlockMatrix::%s(view, view)" % nm, "const BM& A, const VW& x, VW y", "A.%s(x, y);" % nm, blk(at, False))
    pre("BlockOperator::%s(view, view)" % nm, "const BlockOperator& A, const VW& x, VW y", "A.%s(x, y);" % nm, blk(at, True))


# --- products and sums of matrices
def two(ka, kb, names):
    """names: required equalities, n m the sizes of A, p q those of B"""
    def f(c):
        n, m, p, q = c.dim("n"), c.dim("m"), c.dim("p"), c.dim("q")
        A = mk(ka)(c, n, m)
        B = c.obj(c.dense("E", p, q)) if kb == "DM" else c.obj(c.sparse("B", p, q))
        o = c.obj(c.dense("O", c.dim("s"), c.dim("t")))
        env = dict(n=n, m=m, p=p, q=q)
        return [A, B, o], {"%s = %s" % (LONG[x], LONG[y]): eq(env[x], env[y]) for x, y in names}
    return f


LONG = {"n": "rows", "m": "cols", "p": "other rows", "q": "other cols"}
for t, k in (("SparseMatrix", "SM"), ("DenseMatrix", "DM")):
    for nm, req in (("Mult", ["mp"]), ("MultAT", ["np"])) + ((("MultCT", ["mp"]),) if k == "SM" else (("MultBT", ["mq"]), ("MultABT", ["nq"]))):
        pre("%s::%s(DenseMatrix, out)" % (t, nm), "const %s& A, const DM& B, DM& o" % k, "A.%s(B, o);" % nm, two(k, "DM", req))
        pre("%s::%s(DenseMatrix)" % (t, nm), "const %s& A, const DM& B, DM& o" % k, "A.%s(B);" % nm, two(k, "DM", req))
pre("DenseMatrix::operator+=", "DM& A, const DM& B, DM& o", "A += B;", two("DM", "DM", ["np", "mq"]))
pre("DenseMatrix::operator-=", "DM& A, const DM& B, DM& o", "A -= B;", two("DM", "DM", ["np", "mq"]))
pre("operator+(DenseMatrix, DenseMatrix)", "const DM& A, const DM& B, DM& o", "o = A + B;", two("DM", "DM", ["np", "mq"]))
pre("operator-(DenseMatrix, DenseMatrix)", "const DM& A, const DM& B, DM& o", "o = A - B;", two("DM", "DM", ["np", "mq"]))
pre("SparseMatrix::Mult(SparseMatrix)", "const SM& A, const SM& B, DM& o", "A.Mult(B);", two("SM", "SM", ["mp"]))


# --- vectors
def vv(et):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        return [c.obj(c.view("x", n, et)), c.obj(c.view("y", m, et)), c.real("a") if et == "double" else c.int("a")], \
            need(different_sizes=eq(n, m))
    return f


for et, V in (("double", "VW"), ("int", "VWI")):
    for nm, body in (("+=", "x += y;"), ("-=", "x -= y;"), ("*=", "x *= y;"),
                     ("Add(scale, view)", "x.Add(a, y);"), ("Sub(scale, view)", "x.Sub(a, y);"), ("Set(scale, view)", "x.Set(a, y);"),
                     ("Add(view)", "x.Add(y);"), ("Sub(view)", "x.Sub(y);"), ("Set(view)", "x.Set(y);"),
                     ("Mult", "x.Mult(y);"), ("= view", "x = y;"), ("= const view", "const %s& k = y; x = k;" % V)):
        pre("VectorView<%s> %s" % (et, nm), "%s& x, %s& y, %s a" % (V, V, et), body, vv(et))
pre("VectorView<double> /=", "VW& x, VW& y, double a", "x /= y;", vv("double"))


def three(c):
    n, m, k = c.dim("n"), c.dim("m"), c.dim("k")
    return [c.obj(c.view("x", n)), c.obj(c.view("y", m)), c.obj(c.view("z", k))], need(size_of_y=eq(n, m), size_of_z=eq(n, k))


pre("Mult(a, b, c, out)" if 0 else "linalgcpp::Add", "const VW& x, const VW& y, VW& z", "Add(2.0, x, 3.0, y, 4.0, z);", three) if 0 else None


def at(const):
    def f(c):
        n = c.dim("n")
        i = c.int("i")
        return [c.obj(c.view("x", n)), i], need(index_below_0=le(0, i), index_past_the_end=lt(i, n))
    return f


pre("VectorView::operator[]", "VW& x, int i", "x[i] = 1.0;", at(False))
pre("VectorView::operator[] const", "const VW& x, int i", "double v = x[i]; (void)v;", at(True))


# --- dense matrices
def ij(c):
    n, m = c.dim("n"), c.dim("m")
    i, j = c.int("i"), c.int("j")
    return [c.obj(c.dense("D", n, m)), i, j], need(row_below_0=le(0, i), row_past_the_end=lt(i, n), col_below_0=le(0, j), col_past_the_end=lt(j, m))


pre("DenseMatrix::operator()", "DM& A, int i, int j", "A(i, j) = 1.0;", ij)
pre("DenseMatrix::operator() const", "const DM& A, int i, int j", "double v = A(i, j); (void)v;", ij)


def line(row, vec):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        i = c.int("i")
        p = c.dim("p")
        ln, wid = (n, m) if row else (m, n)
        req = need(index_below_0=le(0, i), index_past_the_end=lt(i, ln))
        if vec:
            req.update(need(vector_size=eq(p, wid)))
        return [c.obj(c.dense("D", n, m)), i, c.obj(c.view("v", p))], req
    return f


LP = "DM& A, int i, VW& v"
pre("DenseMatrix::GetCol(col, view)", LP, "const DM& B = A; B.GetCol(i, v);", line(False, True))
pre("DenseMatrix::GetRow(row, view)", LP, "const DM& B = A; B.GetRow(i, v);", line(True, True))
pre("DenseMatrix::SetCol(col, view)", LP, "A.SetCol(i, v);", line(False, True))
pre("DenseMatrix::SetRow(row, view)", LP, "A.SetRow(i, v);", line(True, True))
pre("DenseMatrix::GetColView(col)", LP, "A.GetColView(i);", line(False, False))
pre("DenseMatrix::GetColView(col) const", LP, "const DM& B = A; B.GetColView(i);", line(False, False))


def sub(setter, t=False, corner=False):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        a, b, x, y = c.int("a"), c.int("b"), c.int("x"), c.int("y")
        B = c.obj(c.dense("E", c.dim("p"), c.dim("q")))
        r = need(first_row=le(0, a), first_col=le(0, b), last_row=le(x, n), last_col=le(y, m),
                 reversed_rows=le(a, x), reversed_cols=le(b, y))
        return [c.obj(c.dense("D", n, m)), a, b, x, y, B], r
    return f


SP = "DM& A, int a, int b, int x, int y, DM& B"
pre("DenseMatrix::GetSubMatrix(range, out)", SP, "const DM& C = A; C.GetSubMatrix(a, b, x, y, B);", sub(False))
pre("DenseMatrix::SetSubMatrix(range)", SP, "A.SetSubMatrix(a, b, x, y, B);", sub(True))
pre("DenseMatrix::SetSubMatrixTranspose(range)", SP, "A.SetSubMatrixTranspose(a, b, x, y, B);", sub(True))


def addsub(c):
    n, m, p, q, s, t = [c.dim(x) for x in "nmpqst"]
    return [c.obj(c.dense("D", n, m)), c.obj(c.vec("r", s, "int", "index", n)), c.obj(c.vec("cc", t, "int", "index", m)),
            c.obj(c.dense("E", p, q))], need(row_list_size=eq(s, p), column_list_size=eq(t, q))


pre("DenseMatrix::AddSubMatrix", "DM& A, const IV& r, IV& s, const DM& B", "A.AddSubMatrix(r, s, B);", addsub)


def getrows(c):
    n, m, p, q, s = [c.dim(x) for x in "nmpqs"]
    return [c.obj(c.dense("D", n, m)), c.obj(c.vec("r", s, "int", "index", n)), c.obj(c.dense("E", p, q))], \
        need(output_rows=eq(s, p), output_cols=eq(q, m))


pre("DenseMatrix::GetRow(rows, out)", "const DM& A, const IV& r, DM& B", "A.GetRow(r, B);", getrows)


def dctor(c):
    n, m, p = c.int("n"), c.int("m"), c.dim("p")
    return [n, m, c.obj(c.vec("w", p))], need(negative_rows=le(0, n), negative_cols=le(0, m), data_size=eq(p, mul(n, m)))


pre("DenseMatrix(rows, cols, data)", "int n, int m, const RV& w", "DM C(n, m, w);", dctor)


def square(kind):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        return [mk(kind)(c, n, m)], need(a_rectangular_matrix=eq(n, m))
    return f


pre("DenseMatrix::GetDiag", "const DM& A", "A.GetDiag();", square("DM"))
pre("DenseMatrix::Invert", "DM& A", "A.Invert();", square("DM"))
pre("SparseMatrix::GetDiag", "const SM& A", "A.GetDiag();", square("SM"))
pre("SparseMatrix::AddDiag(value)", "SM& A", "A.AddDiag(1.0);", square("SM"))


def dvec(kind, sq, rows, et="double", atleast=False):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        p = c.dim("p")
        k = n if rows else m
        req = need(size_of_the_factors=le(k, p) if atleast else eq(p, k))
        if sq:
            req.update(need(a_rectangular_matrix=eq(n, m)))
        return [mk(kind)(c, n, m), c.obj(c.vec("s", p, et))], req
    return f


for k, t in (("SM", "SparseMatrix"),):         # the dense forms take any indexable type
    for nm in ("ScaleRows", "ScaleCols", "InverseScaleRows", "InverseScaleCols"):
        pre("%s::%s" % (t, nm), "%s& A, const RV& s" % k, "A.%s(s);" % nm, dvec(k, False, "Rows" in nm))
pre("SparseMatrix::AddDiag(values)", "SM& A, const RV& s", "A.AddDiag(s);", dvec("SM", True, True, atleast=True))
pre("SparseMatrix::PermuteCols", "SM& A, const IV& s", "A.PermuteCols(s);", dvec("SM", False, False, "int"))


# --- sparse matrices
def sindex(n_ok, m_ok):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        i = c.int("i")
        r = need(negative_index=le(0, i))
        if n_ok:
            r.update(need(index_past_the_rows=lt(i, n)))
        if m_ok:
            r.update(need(index_past_the_columns=or_(eq(m, P(0)), lt(i, m)) if not n_ok else lt(i, m)))
        return [mk("SM")(c, n, m), i], r
    return f


SI = "SM& A, int i"
pre("SparseMatrix::EliminateRow(index)", SI, "A.EliminateRow(i);", sindex(True, False))
pre("SparseMatrix::EliminateCol(index)", SI, "A.EliminateCol(i);", sindex(False, True))
pre("SparseMatrix::EliminateRowCol(index)", SI, "A.EliminateRowCol(i);", sindex(True, True))
pre("SparseMatrix::RowSize", SI, "A.RowSize(i);", sindex(True, False))
pre("SparseMatrix::GetIndices(row)", SI, "A.GetIndices(i);", sindex(True, False))
pre("SparseMatrix::GetData(row)", SI, "A.GetData(i);", sindex(True, False))
pre("SparseMatrix::GetIndicesView(row)", SI, "A.GetIndicesView(i);", sindex(True, False))


def marker(sq, extra=False):
    def f(c):
        n, m, p = c.dim("n"), c.dim("m"), c.dim("p")
        r = need(short_marker=le(m, p))
        if sq:
            r.update(need(a_rectangular_matrix=eq(n, m)))
        a = [mk("SM")(c, n, m), c.obj(c.vec("mk", p, "int", "bool"))]
        if extra:
            s, t = c.dim("s"), c.dim("t")
            a += [c.obj(c.view("x", s)), c.obj(c.view("b", t))]
            r.update(need(size_of_x=eq(s, m), size_of_b=eq(t, n)))
        return a, r
    return f


pre("SparseMatrix::EliminateCol(marker)", "SM& A, const IV& k", "A.EliminateCol(k);", marker(False))
pre("SparseMatrix::EliminateRowCol(marker)", "SM& A, const IV& k", "A.EliminateRowCol(k);", marker(True))
pre("SparseMatrix::EliminateCol(marker, x, b)", "SM& A, const IV& k, const VW& x, VW b", "A.EliminateCol(k, x, b);", marker(False, True))


def sctor(c):
    p, k, d = c.dim("p"), c.dim("k"), c.dim("d")
    n, m = c.int("n"), c.int("m")
    return [c.obj(c.vec("ip", p, "int")), c.obj(c.vec("ij", k, "int")), c.obj(c.vec("ix", d)), n, m], \
        need(negative_rows=le(0, n), negative_cols=le(0, m), row_pointer_size=eq(p, n + 1), index_and_data_sizes=eq(k, d),
             first_row_pointer=eq(sel("ip", (P(0),)), P(0)))


pre("SparseMatrix(indptr, indices, data, rows, cols)", "const IV& p, const IV& j, const RV& x, int n, int m", "SM C(p, j, x, n, m);", sctor)


# --- assembling
def asm(kind):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        i, j = c.int("i"), c.int("j")
        return [mk(kind)(c, n, m), i, j, c.real("v")], need(negative_row=le(0, i), negative_column=le(0, j),
                                                           row_past_the_end=lt(i, n), column_past_the_end=lt(j, m))
    return f


def lists(kind, dense, swap=False, both=True):
    def f(c):
        n, m, s, t, p, q = [c.dim(x) for x in ("n", "m", "s", "t", "p", "q")]
        A = mk(kind)(c, n, m)
        r, k = c.obj(c.vec("r", s, "int", "index", n)), c.obj(c.vec("cc", t, "int", "index", m))
        if dense:
            return [A, r, k, c.obj(c.dense("E", p, q)), c.real("al")], need(row_list_size=eq(s, p), column_list_size=eq(t, q))
        return [A, r, k, c.obj(c.vec("w", p)), c.real("al")], need(row_list_size=eq(s, p), column_list_size=eq(t, p))
    return f


def listv(kind, rows):
    def f(c):
        n, m, s, p = [c.dim(x) for x in ("n", "m", "s", "p")]
        A = mk(kind)(c, n, m)
        r = c.obj(c.vec("r", s, "int", "index", n if rows else m))
        return [A, r, c.idx("k", m if rows else n), c.obj(c.view("w", p)), c.real("al")], need(list_size=eq(s, p))
    return f


for k, t in (("CM", "CooMatrix"), ("LM", "LilMatrix")):
    pre("%s::Add(i, j, value)" % t, "%s& A, int i, int j, double v" % k, "A.Add(i, j, v);", asm(k))
    pre("%s::AddSym(i, j, value)" % t, "%s& A, int i, int j, double v" % k, "A.AddSym(i, j, v);", asm(k))
    pre("%s::Add(rows, cols, matrix)" % t, "%s& A, const IV& r, const IV& k, const DM& B, double al" % k, "A.Add(r, k, B);", lists(k, True))
AP = "CM& A, const IV& r, const IV& k, const %s& B, double al"
pre("CooMatrix::Add(rows, cols, scale, matrix)", AP % "DM", "A.Add(r, k, al, B);", lists("CM", True))
pre("CooMatrix::Add(rows, cols, values)", AP % "RV", "A.Add(r, k, B);", lists("CM", False))
pre("CooMatrix::Add(rows, cols, scale, values)", AP % "RV", "A.Add(r, k, al, B);", lists("CM", False))
VP = "CM& A, const IV& r, int k, const VW& w, double al"
pre("CooMatrix::Add(rows, col, vector)", VP, "A.Add(r, k, w);", listv("CM", True))
pre("CooMatrix::Add(rows, col, scale, vector)", VP, "A.Add(r, k, al, w);", listv("CM", True))
pre("CooMatrix::Add(row, cols, vector)", VP, "A.Add(k, r, w);", listv("CM", False))
pre("CooMatrix::Add(row, cols, scale, vector)", VP, "A.Add(k, r, al, w);", listv("CM", False))


def perms(which):
    def f(c):
        n, m, s, t = [c.dim(x) for x in "nmst"]
        a = [mk("CM")(c, n, m), c.obj(c.vec("r", s, "int", "index", n)), c.obj(c.vec("cc", t, "int", "index", m))]
        r = {}
        if "r" in which:
            r["row permutation size"] = eq(s, n)
        if "c" in which:
            r["column permutation size"] = eq(t, m)
        return a, r
    return f


PP = "CM& A, const IV& r, const IV& k"
pre("CooMatrix::PermuteRows", PP, "A.PermuteRows(r);", perms("r"))
pre("CooMatrix::PermuteCols", PP, "A.PermuteCols(k);", perms("c"))
pre("CooMatrix::PermuteRowsCols", PP, "A.PermuteRowsCols(r, k);", perms("rc"))


# --- blocks
def setblock(op):
    def f(c):
        R, C = c.dim("R", 1), c.dim("C", 1)
        A = c.obj(c.ctor(NSP + ("BlockOperator" if op else "BlockMatrix<double>"),
                         ["std::vector<int>", "std::vector<int>"], [c.offsets("ro", R), c.offsets("co", C)]))
        i, j = c.idx("i", R), c.idx("j", C)
        n, m = c.dim("n"), c.dim("m")
        B = c.obj(c.sparse("B", n, m))
        return [A, i, j, B], need(block_rows=eq(n, sel("ro", (i + 1,)) - sel("ro", (i,))), block_cols=eq(m, sel("co", (j + 1,)) - sel("co", (j,))))
    return f


def blockindex(op, put):
    def f(c):
        R, C = c.dim("R", 1), c.dim("C", 1)
        A = c.obj(c.ctor(NSP + ("BlockOperator" if op else "BlockMatrix<double>"),
                         ["std::vector<int>", "std::vector<int>"], [c.offsets("ro", R), c.offsets("co", C)]))
        i, j = c.int("i"), c.int("j")
        B = c.obj(c.sparse("B", c.dim("n"), c.dim("m")))
        return [A, i, j, B], need(negative_row=le(0, i), row_past_the_end=lt(i, R), negative_column=le(0, j), column_past_the_end=lt(j, C))
    return f


def bvindex(c):
    R = c.dim("R", 1)
    off = c.offsets("of", R)
    A = c.obj(c.ctor(NSP + "BlockVector<double>", ["std::vector<int>"], [off]))
    i = c.int("i")
    return [A, i], need(negative_index=le(0, i), index_past_the_end=lt(i, R))


for k, t, op in (("BM", "BlockMatrix", False), ("BlockOperator", "BlockOperator", True)):
    pre("%s::SetBlock" % t, "%s& A, int i, int j, const SM& B" % k, "A.SetBlock(i, j, B);", setblock(op))
    pre("%s::SetBlock index" % t, "%s& A, int i, int j, const SM& B" % k, "A.SetBlock(i, j, B);", blockindex(op, True))
    pre("%s::GetBlock index" % t, "%s& A, int i, int j, const SM& B" % k, "A.GetBlock(i, j);", blockindex(op, False))
pre("BlockVector::GetBlock index", "BV& A, int i", "A.GetBlock(i);", bvindex)
pre("BlockVector::GetBlock index const", "const BV& A, int i", "A.GetBlock(i);", bvindex)


# --- solvers and what they are given
def rect(c, nm, n, m):
    return c.obj(c.sparse(nm, n, m))


def sop(pre_):
    """an operator that is not square, a preconditioner that does not fit it"""
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        a = [rect(c, "A", n, m)]
        r = need(square_operator=eq(n, m))
        if pre_:
            p, q = c.dim("p"), c.dim("q")
            a.append(rect(c, "B", p, q))
            r.update(need(square_preconditioner=eq(p, q), preconditioner_size=eq(p, n)))
        return a, r
    return f


def sol(pre_, apply_):
    def f(c):
        n = c.dim("n")
        a = [rect(c, "A", n, n)]
        if pre_:
            a.append(rect(c, "B", n, n))
        p, q = c.dim("p"), c.dim("q")
        a += [c.obj(c.view("x", p)), c.obj(c.view("y", q))]
        return a, need(size_of_b=eq(p, n), size_of_x=eq(q, n))
    return f


def setop(c):
    n, p, q = c.dim("n"), c.dim("p"), c.dim("q")
    return [rect(c, "A", n, n), rect(c, "B", p, q)], need(operator_rows=eq(p, n), operator_cols=eq(q, n))


for t, two in (("PCGSolver", False), ("PCGSolver", True), ("MINRESSolver", False), ("PMINRESSolver", True)):
    lab = "%s(operator%s)" % (t, ", preconditioner" if two else "")
    pre(lab, "const SM& A" + (", const SM& B" if two else ""), "%s s(A%s);" % (t, ", B" if two else ""), sop(two))
    par, arg = "const SM& A" + (", const SM& B" if two else ""), "A" + (", B" if two else "")
    pre(lab + "::Mult", par + ", const VW& x, VW y", "%s s(%s, 0); s.Mult(x, y);" % (t, arg), sol(two, True))
    pre(lab + "::SetOperator", "const SM& A, const SM& B", "%s s(A%s); s.SetOperator(B);" % (t, ", A" if two else ""), setop)


def sctor2(c):
    n, m, k = c.dim("n"), c.dim("m"), c.dim("k", 1)
    i = c.idx("i", k)
    ip = c.vec("ip", n + 1, "int")
    c.model["arrays"]["ip"] = ("fn", lambda mo, idx: 0 if idx[0] == 0 else mo.h("ip", idx) % 4)
    ij = c.vec("ij", k, "int")
    c.model["arrays"]["ij"] = ("fn", lambda mo, idx: mo.h("ij", idx) % 6 - 1)
    return [c.obj(ip), c.obj(ij), c.obj(c.vec("ix", k)), n, m], \
        need(negative_column=le(0, sel("ij", (i,))), column_past_the_end=lt(sel("ij", (i,)), m))


pre("SparseMatrix(indptr, indices, data, rows, cols) columns", "const IV& p, const IV& j, const RV& x, int n, int m", "SM C(p, j, x, n, m);", sctor2)
pre("SparseMatrix<int>(indptr, indices, data, rows, cols) columns", "const IV& p, const IV& j, const IV& x, int n, int m", "SMI C(p, j, x, n, m);",
    lambda c: (lambda a: ([a[0][0], a[0][1], c.obj(c.vec("iy", sym("k#"), "int")), a[0][3], a[0][4]], a[1]))(sctor2(c)))


# --- values that are not allowed
def zero(build):
    def f(c):
        a = c.real("a")
        return [build(c), a], need(a_zero_divisor=1 - eq(a, P(0)))
    return f


pre("VectorView<double> /= value", "VW& x, double a", "x /= a;", zero(lambda c: c.obj(c.view("x", c.dim("n")))))
pre("SparseMatrix::operator/=(value)", "SM& A, double a", "A /= a;", zero(lambda c: mk("SM")(c, c.dim("n"), c.dim("m"))))
pre("DenseMatrix::operator/=(value)", "DM& A, double a", "A /= a;", zero(lambda c: mk("DM")(c, c.dim("n"), c.dim("m"))))


def empty(build):
    def f(c):
        A, n = build(c)
        return [A], need(nothing_to_reduce=1 - eq(n, P(0)))
    return f


def emptyvec(c):
    n = c.dim("n")
    return c.obj(c.view("x", n)), n


def emptymat(c):
    n, m = c.dim("n"), c.dim("m")
    return mk("DM")(c, n, m), n * m


for nm in ("AbsMax", "Max", "Min", "AbsMin"):
    pre("linalgcpp::%s" % nm, "const VW& x", "double v = %s(x); (void)v;" % nm, empty(emptyvec))
for nm in ("Sum", "Max", "Min"):
    pre("DenseMatrix::%s" % nm, "const DM& A", "double v = A.%s(); (void)v;" % nm, empty(emptymat))
pre("linalgcpp::Add", "const VW& x, const VW& y, VW& z", "Add(2.0, x, 3.0, y, 4.0, z);", three)


def sizes(build, sized=True):
    def f(c):
        n, m = c.int("rows"), c.int("cols")
        return build(c) + [n, m], need(negative_rows=le(P(0), n), negative_columns=le(P(0), m))
    return f


CMT = "CooMatrix<double>"
pre("CooMatrix::SetSize", "CM& A, int n, int m", "A.SetSize(n, m);", sizes(lambda c: [mk("CM")(c, c.dim("n"), c.dim("m"))]))
pre("CooMatrix(rows, cols)", "int n, int m", "CM A(n, m);", sizes(lambda c: []))
pre("LilMatrix(rows, cols)", "int n, int m", "LM A(n, m);", sizes(lambda c: []))
pre("SparseMatrix(rows, cols)", "int n, int m", "SM A(n, m);", sizes(lambda c: []))
pre("DenseMatrix(rows, cols)", "int n, int m", "DM A(n, m);", sizes(lambda c: []))


def rowsview(c):
    n, m = c.dim("n"), c.dim("m")
    i = c.int("i")
    return [mk("SM")(c, n, m), i], need(index_below_0=le(P(0), i), index_past_the_end=lt(i, n))


pre("SparseMatrix::GetIndicesView(row) const", "const SM& A, int i", "A.GetIndicesView(i);", rowsview)


def submark(c):
    n, m, k = c.dim("n"), c.dim("m"), c.dim("k")
    r, s = c.dim("r"), c.dim("s")
    return [mk("SM")(c, n, m), c.obj(c.vec("rr", r, "int", "index", n)), c.obj(c.vec("ss", s, "int", "index", m)),
            c.obj(c.vec("mk", k, "int"))], need(a_marker_that_is_too_short=le(m, k))


pre("SparseMatrix::GetSubMatrix(rows, cols, marker)", "const SM& A, const IV& r, const IV& s, IV& k", "A.GetSubMatrix(r, s, k);", submark)


# --- values checked element by element
def scales(kind, rows, some=None):
    def f(c):
        n, m = c.dim("n", some == "n"), c.dim("m", some == "m")
        k = n if rows else m
        i = c.idx("i", k)
        A = mk(kind)(c, n, m)
        s = c.obj(c.vec("s", k, "double"))
        c.model["arrays"]["s"] = ("fn", lambda mo, idx: mo.h("s", idx) % 3)
        return [A, s], need(a_zero_scale=1 - eq(sel("s", (i,)), P(0)))
    return f


pre("SparseMatrix::InverseScaleRows values", "SM& A, const RV& s", "A.InverseScaleRows(s);", scales("SM", True), loops=True)


def badperm(c):
    n, m = c.dim("n"), c.dim("m")
    A = mk("SM")(c, n, m)
    s = c.obj(c.vec("s", m, "int"))
    c.model["arrays"]["s"] = ("fn", lambda mo, idx: mo.h("s", idx) % 6 - 1)
    i = c.idx("i", sel("A.p", (n,)))
    v = sel("s", (sel("A.j", (i,)),))
    return [A, s], need(a_negative_column=le(P(0), v), a_column_past_the_end=lt(v, m))


pre("SparseMatrix::PermuteCols values", "SM& A, const IV& s", "A.PermuteCols(s);", badperm, loops=True)


def subvec(c):
    n, k = c.dim("n"), c.dim("k")
    i = c.idx("i", k)
    s = c.obj(c.vec("s", k, "int"))
    c.model["arrays"]["s"] = ("fn", lambda mo, idx: mo.h("s", idx) % 7 - 2)
    v = sel("s", (i,))
    return [c.obj(c.view("x", n)), s, ], need(a_negative_index=le(P(0), v), an_index_past_the_end=lt(v, n))


pre("VectorView::GetSubVector(indices)", "const VW& x, const IV& s", "x.GetSubVector(s);", subvec, loops=True)


pre("DenseMatrix::InverseScaleRows values", "DM& A, const RV& s", "A.InverseScaleRows(s);", scales("DM", True, "m"), loops=True)
pre("DenseMatrix::InverseScaleCols values", "DM& A, const RV& s", "A.InverseScaleCols(s);", scales("DM", False, "n"), loops=True)


def stored(c):
    n, m = c.dim("n"), c.dim("m")
    A = mk("SM")(c, n, m)
    s = c.obj(c.vec("s", m, "double"))
    c.model["arrays"]["s"] = ("fn", lambda mo, idx: mo.h("s", idx) % 3)
    i = c.idx("i", sel("A.p", (n,)))
    return [A, s], need(a_zero_scale_of_a_stored_entry=1 - eq(sel("s", (sel("A.j", (i,)),)), P(0)))


pre("SparseMatrix::InverseScaleCols values", "SM& A, const RV& s", "A.InverseScaleCols(s);", stored, loops=True)


# --- the direct solver
def direct(c):
    n, m = c.dim("n"), c.dim("m")
    return [mk("SM")(c, n, m)], need(a_rectangular_matrix=eq(n, m))


pre("SparseSolver(A)", "const SM& A", "SparseSolver s(A);", direct)


# --- partitioning
def parts(c):
    n, m, k = c.dim("n"), c.dim("m"), c.int("parts")
    return [mk("SM")(c, n, m), k], need(no_parts=lt(P(0), k), more_parts_than_rows=le(k, n), a_rectangular_matrix=eq(n, m))


pre("Partition", "const SM& A, int k", "Partition(A, k);", parts)
pre("MakeAdjacencyInfo", "const SM& A", "MakeAdjacencyInfo<double, int>(A);", direct)


def nolist(c):
    n = c.dim("n")
    return [c.obj(c.vec("p", n, "int", "index", n))], need(an_empty_partition=1 - eq(n, P(0)))


pre("RemoveEmpty", "IV& p", "RemoveEmpty(p);", nolist)
