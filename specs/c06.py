"""C06: construction and resizing give the documented size and contents, and a vector keeps viewing its own storage."""
from spec import *
from c01 import CV, VV, NSP
from c02 import dget, S, size, spval
from c05 import Vector_, BlockVector_, Dense_


def reg(label, params, body, setup):
    """setup(c) -> (arguments, check(rec, args))"""
    nm = "c06_" + "".join(ch if ch.isalnum() else "_" for ch in label)
    probe(nm, "void", params, body)

    def f(c, rec):
        args, check = setup(c)
        c.ev0 = len(c.I.events)
        c.call(nm, *args)
        check(rec, args)
    add_ob("C06", label, f)


def vec_out(c, et="double"):
    """an existing vector of another size"""
    return c.obj(c.ctor(NSP + "Vector<%s>" % et, ["std::vector<%s>" % et], [c.vec("old", c.dim("p"), et)]))


def see_vec(c, rec, o, n, val, data=None):
    rec.eq("size", c.view_size(o), n)
    i = c.idx("i", n)
    rec.eq("entry", c.view_get(o, i), val(i))


for et in ("double", "int"):
    V = {"double": "VD", "int": "VI"}[et]
    VWt = {"double": "VW", "int": "VWI"}[et]
    num = lambda c, nm, et=et: c.real(nm) if et == "double" else c.int(nm)

    def v_size(c, et=et):
        n, o = c.dim("n"), vec_out(c, et)
        return [o, n], lambda rec, a: see_vec(c, rec, o, n, lambda i: P(0))
    reg("Vector<%s>(size)" % et, "%s& o, int n" % V, "%s C(n); swap(o, C);" % V, v_size)

    def v_val(c, et=et, num=num):
        n, o, v = c.dim("n"), vec_out(c, et), num(c, "v")
        return [o, n, v], lambda rec, a: see_vec(c, rec, o, n, lambda i: v)
    reg("Vector<%s>(size, value)" % et, "%s& o, int n, %s v" % (V, et), "%s C(n, v); swap(o, C);" % V, v_val)

    def v_view(c, et=et):
        n, o = c.dim("n"), vec_out(c, et)
        w = c.obj(c.view("w", n, et))
        return [o, w], lambda rec, a: see_vec(c, rec, o, n, lambda i: sel("w", (i,)))
    reg("Vector<%s>(view)" % et, "%s& o, const %s& w" % (V, VWt), "%s C(w); swap(o, C);" % V, v_view)
    reg("Vector<%s>(pointer, size)" % et, "%s& o, const %s& w" % (V, VWt), "%s C(w.begin(), w.size()); swap(o, C);" % V, v_view)
    reg("Vector<%s> = const view" % et, "%s& o, const %s& w" % (V, VWt), "o = w;", v_view)
    reg("Vector<%s> = view" % et, "%s& o, %s& w" % (V, VWt), "o = w;", v_view)
    reg("Vector<%s> = temporary view" % et, "%s& o, %s& w" % (V, VWt), "o = %s(w);" % VWt, v_view)

    def v_indep(c, et=et, num=num):
        n, o = c.dim("n", 1), vec_out(c, et)
        w = c.obj(c.view("w", n, et))
        q, v = c.idx("q", n), num(c, "v")
        return [o, w, q, v], lambda rec, a: see_vec(c, rec, o, n, lambda i: sel("w", (i,)))
    reg("Vector<%s>(view) is a copy" % et, "%s& o, %s& w, int q, %s v" % (V, VWt, et), "%s C(w); w[q] = v; swap(o, C);" % V, v_indep)
    reg("Vector<%s> = view is a copy" % et, "%s& o, %s& w, int q, %s v" % (V, VWt, et), "const %s& k = w; o = k; w[q] = v;" % VWt, v_indep)

    def v_std(c, et=et):
        n, o = c.dim("n"), vec_out(c, et)
        w = c.obj(c.vec("w", n, et))
        return [o, w], lambda rec, a: see_vec(c, rec, o, n, lambda i: sel("w", (i,)))
    reg("Vector<%s>(std::vector)" % et, "%s& o, const std::vector<%s>& w" % (V, et), "%s C(w); swap(o, C);" % V, v_std)

    def resize(fill):
        def f(c, et=et, num=num):
            p, n = c.dim("p"), c.dim("n")
            o = c.obj(c.ctor(NSP + "Vector<%s>" % et, ["std::vector<%s>" % et], [c.vec("old", p, et)]))
            v = num(c, "v")

            def check(rec, a):
                if fill:
                    see_vec(c, rec, o, n, lambda i: v)
                else:
                    see_vec(c, rec, o, n, lambda i: ite(lt(i, p), sel("old", (i,)), v))
            return [o, n, v], check
        return f
    reg("Vector<%s>::SetSize(size) then fill" % et, "%s& o, int n, %s v" % (V, et), "o.SetSize(n); o = v;", resize(True))
    reg("Vector<%s>::SetSize(size, value)" % et, "%s& o, int n, %s v" % (V, et), "o.SetSize(n, v);", resize(False))
    reg("Vector<%s>::SetSize(size, value) then fill" % et, "%s& o, int n, %s v" % (V, et), "o.SetSize(n, v); o = v;", resize(True))

    def resized_copy(c, et=et, num=num):
        p, n = c.dim("p"), c.dim("n")
        o = c.obj(c.ctor(NSP + "Vector<%s>" % et, ["std::vector<%s>" % et], [c.vec("old", p, et)]))
        v = num(c, "v")
        return [o, n, v], lambda rec, a: see_vec(c, rec, o, p, lambda i: sel("old", (i,)))
    reg("Vector<%s>: resizing a copy leaves the source" % et, "%s& o, int n, %s v" % (V, et),
        "%s C(o); C.SetSize(n); C = v;" % V, resized_copy)

    def data_view(c, et=et, num=num):
        p = c.dim("p", 1)
        o = c.obj(c.ctor(NSP + "Vector<%s>" % et, ["std::vector<%s>" % et], [c.vec("old", p, et)]))
        q, v, t = c.idx("q", p), num(c, "v"), c.obj(c.vec("t", p, et))

        def check(rec, a):
            i = c.idx("i", p)
            rec.eq("data", c.get(t, i), ite(eq(i, q), v, sel("old", (i,))))
        return [o, q, v, t], check
    reg("Vector<%s>::data shows what was written through the vector" % et,
        "%s& o, int q, %s v, std::vector<%s>& t" % (V, et, et), "o[q] = v; t = o.data();", data_view)


# --- block vectors
def bv(val):
    def f(c):
        R = c.dim("R", 1)
        off = c.offsets("of", R)
        n = sel("of", (R,))
        o = c.obj(c.ctor(NSP + "BlockVector<double>", [], []))
        v = c.real("v")
        w = c.obj(c.view("w", n))

        def check(rec, a):
            see_vec(c, rec, o, n, {"zero": lambda i: P(0), "val": lambda i: v, "data": lambda i: sel("w", (i,))}[val])
            b = c.idx("b", R)
            blk = c.obj(c.call("c06_block", o, b))
            ln = sel("of", (b + 1,)) - sel("of", (b,))
            rec.eq("block size", c.view_size(blk), ln)
            k = c.idx("k", ln)
            x = sel("of", (b,)) + k
            rec.eq("block entry", c.view_get(blk, k), {"zero": P(0), "val": v, "data": sel("w", (x,))}[val])
            blk = c.obj(c.call("c06_cblock", o, b))
            rec.eq("const block size", c.view_size(blk), ln)
            rec.eq("const block entry", c.view_get(blk, k), {"zero": P(0), "val": v, "data": sel("w", (x,))}[val])
        return [o, c.obj(off), v, w], check
    return f


probe("c06_block", "VW", "BV& A, int b", "return A.GetBlock(b);")
probe("c06_cblock", "VW", "const BV& A, int b", "VW w(const_cast<double*>(A.GetBlock(b).begin()), A.GetBlock(b).size()); return w;")
for val, body in (("zero", "BV C(of);"), ("val", "BV C(of, v);"), ("data", "BV C(w, of);")):
    reg("BlockVector(%s)" % {"zero": "offsets", "val": "offsets, value", "data": "view, offsets"}[val],
        "BV& o, const IV& of, double v, const VW& w", body + " swap(o, C);", bv(val))


def bv_write(c):
    R = c.dim("R", 1)
    off = c.offsets("of", R)
    n = sel("of", (R,))
    o = c.obj(c.ctor(NSP + "BlockVector<double>", ["const linalgcpp::VectorView<double> &", "std::vector<int>"],
                     [c.obj(c.view("w", n)), off]))
    b = c.idx("b", R)
    v = c.real("v")

    def check(rec, a):
        lo, hi = sel("of", (b,)), sel("of", (b + 1,))
        see_vec(c, rec, o, n, lambda i: ite(mul(le(lo, i), lt(i, hi)), v, sel("w", (i,))))
    return [o, b, v], check


reg("BlockVector::GetBlock writes through", "BV& o, int b, double v", "VW w = o.GetBlock(b); w = v;", bv_write)


# --- matrices
def dense(val, square=False):
    def f(c):
        n = c.dim("n")
        m = n if square else c.dim("m")
        o = c.obj(c.dense("old", c.dim("p"), c.dim("q")))
        w = c.obj(c.vec("w", mul(n, m)))
        v = c.real("v")

        def check(rec, a):
            size(c, rec, o, n, m)
            if val is None:
                return
            i, j = c.idx("i", n), c.idx("j", m)
            rec.eq("entry", dget(c, o, i, j), {"zero": P(0), "val": v, "data": sel("w", (i + mul(j, n),))}[val])
        return [o, n, m, w, v], check
    return f


DP = "DM& o, int n, int m, const RV& w, double v"
reg("DenseMatrix(size)", DP, "DM C(n); swap(o, C);", dense("zero", True))
reg("DenseMatrix(rows, cols)", DP, "DM C(n, m); swap(o, C);", dense("zero"))
reg("DenseMatrix(rows, cols, data)", DP, "DM C(n, m, w); swap(o, C);", dense("data"))
reg("DenseMatrix::SetSize(rows, cols)", DP, "o.SetSize(n, m);", dense(None))
reg("DenseMatrix::SetSize(rows, cols) then fill", DP, "o.SetSize(n, m); o = v;", dense("val"))
reg("DenseMatrix::SetSize(size) then fill", DP, "o.SetSize(n); o = v;", dense("val", True))
reg("DenseMatrix::SetSize(rows, cols, value) of an empty matrix", DP, "DM C; C.SetSize(n, m, v); swap(o, C);", dense("val"))
reg("DenseMatrix::SetSize(size, value) of an empty matrix", DP, "DM C; C.SetSize(n, v); swap(o, C);", dense("val", True))
reg("DenseMatrix::SetSize(rows, cols, value) then fill", DP, "o.SetSize(n, m, v); o = v;", dense("val"))


def sparse(et, square, body):
    def f(c):
        n = c.dim("n")
        m = n if square else c.dim("m")
        o = c.obj(c.sparse("old", c.dim("p"), c.dim("q"), et))

        def check(rec, a):
            size(c, rec, o, n, m)
            rec.eq("nnz", c.method(o, "nnz", []), P(0))
            i, j = c.idx("i", n), c.idx("j", m)
            rec.eq("entry", spval(c, o, i, j), P(0))
        return [o, n, m], check
    t = {"double": "SM", "int": "SMI"}[et]
    reg("SparseMatrix<%s>(%s)" % (et, "size" if square else "rows, cols"), "%s& o, int n, int m" % t, (body + " swap(o, C);") % t, f)


for et in ("double", "int"):
    sparse(et, True, "%s C(n);")
    sparse(et, False, "%s C(n, m);")


def csr(et):
    def f(c):
        n, m = c.dim("n"), c.dim("m")
        S_ = c.sparse("A", n, m, et)
        o = c.obj(c.sparse("old", c.dim("p"), c.dim("q"), et))
        A = c.obj(S_)
        ptr, col, dat = [c.method(A, g, [], const=True) for g in ("GetIndptr", "GetIndices", "GetData")]

        def check(rec, a):
            size(c, rec, o, n, m)
            rec.eq("nnz", c.method(o, "nnz", []), sel("A.p", (n,)))
            i, j = c.idx("i", n), c.idx("j", m)
            rec.eq("entry", spval(c, o, i, j), c.sp("A", n, i, j))
        return [o, ptr, col, dat, n, m], check
    t = {"double": "SM", "int": "SMI"}[et]
    reg("SparseMatrix<%s>(indptr, indices, data, rows, cols)" % et,
        "%s& o, const IV& p, const IV& j, const std::vector<%s>& x, int n, int m" % (t, et), "%s C(p, j, x, n, m); swap(o, C);" % t, f)


csr("double")
csr("int")


def assem(cls, t, square):
    def f(c):
        n = c.dim("n", 1)
        m = n if square else c.dim("m", 1)
        o = c.obj(c.ctor(NSP + "%s<double>" % cls, ["int", "int"], [c.dim("p"), c.dim("q")]))

        def check(rec, a):
            D = c.obj(c.dense("Dout", n, m))
            c.call("c05_coo" if t == "CM" else "c05_lil", o, D)
            size(c, rec, o, n, m)
            size(c, rec, D, n, m)
            i, j = c.idx("i", n), c.idx("j", m)
            rec.eq("entry", dget(c, D, i, j), P(0))
        return [o, n, m], check
    return f


for cls, t in (("CooMatrix", "CM"), ("LilMatrix", "LM")):
    reg("%s(size)" % cls, "%s& o, int n, int m" % t, "%s C(n); swap(o, C);" % t, assem(cls, t, True))
    reg("%s(rows, cols)" % cls, "%s& o, int n, int m" % t, "%s C(n, m); swap(o, C);" % t, assem(cls, t, False))
    reg("%s::SetSize of a default matrix" % cls, "%s& o, int n, int m" % t, "%s C; C.SetSize(n, m); swap(o, C);" % t, assem(cls, t, False))


def block(square):
    def f(c):
        R = c.dim("R", 1)
        C = R if square else c.dim("C", 1)
        ro = c.obj(c.offsets("ro", R))
        co = ro if square else c.obj(c.offsets("co", C))
        cn = "ro" if square else "co"
        o = c.obj(c.ctor(NSP + "BlockMatrix<double>", [], []))

        def check(rec, a):
            size(c, rec, o, sel("ro", (R,)), sel(cn, (C,)))
            for g, nm, k in (("c05_bmro", "ro", R), ("c05_bmco", cn, C)):
                off = c.call(g, o)
                ov = c.I.load(off) if isinstance(off, LV) else off
                rec.eq("offset count", ov.len, k + 1)
                x = c.idx(g[-2:], k + 1)
                rec.eq("offsets", c.get(ov, x), sel(nm, (x,)))
        return [o, ro, co], check
    return f


reg("BlockMatrix(offsets)", "BM& o, const IV& r, const IV& s", "BM C(r); swap(o, C);", block(True))
reg("BlockMatrix(row offsets, col offsets)", "BM& o, const IV& r, const IV& s", "BM C(r, s); swap(o, C);", block(False))


# --- block objects without blocks, block operators
probe("c06_boro", "const IV&", "const BlockOperator& A", "return A.GetRowOffsets();")
probe("c06_boco", "const IV&", "const BlockOperator& A", "return A.GetColOffsets();")
probe("c06_bvoff", "const IV&", "const BV& A", "return A.GetOffsets();")


def offsets_are(c, rec, what, off, n, val):
    ov = c.I.load(off) if isinstance(off, LV) else off
    rec.eq(what + ": number of offsets", ov.len, n)
    x = c.idx("x" + "".join(ch for ch in what if ch.isalnum()), n)
    rec.eq(what, c.get(ov, x), val(x))


for cls, cx, gs in (("BlockMatrix<double>", "BM", (("row offsets", "c05_bmro"), ("column offsets", "c05_bmco"))),
                    ("BlockOperator", "BlockOperator", (("row offsets", "c06_boro"), ("column offsets", "c06_boco"))),
                    ("BlockVector<double>", "BV", (("offsets", "c06_bvoff"),))):
    probe("c06_mk" + cx, cx, "", "return %s();" % cx)

    def empty(c, rec, cls=cls, cx=cx, gs=gs):
        o = c.obj(c.call("c06_mk" + cx))
        if cx == "BV":
            rec.eq("size", c.view_size(o), P(0))
        else:
            size(c, rec, o, P(0), P(0))
        for what, g in gs:
            offsets_are(c, rec, what, c.call(g, o), P(1), lambda x: P(0))
    add_ob("C06", "%s without blocks" % cls, empty)

for sq in (True, False):
    nm = "c06_bo" + ("s" if sq else "r")
    probe(nm, "BlockOperator", "const IV& r, const IV& k", "return BlockOperator(r);" if sq else "return BlockOperator(r, k);")

    def bo(c, rec, sq=sq, nm=nm):
        R, C = c.dim("R", 1), c.dim("C", 1)
        ro, co = c.obj(c.offsets("ro", R)), c.obj(c.offsets("co", C))
        c.ev0 = len(c.I.events)
        o = c.obj(c.call(nm, ro, co))
        a, b = ("ro", R), ("ro", R) if sq else ("co", C)
        size(c, rec, o, sel(a[0], (a[1],)), sel(b[0], (b[1],)))
        for what, g, (n_, k_) in (("row offsets", "c06_boro", a), ("column offsets", "c06_boco", b)):
            offsets_are(c, rec, what, c.call(g, o), k_ + 1, lambda x: sel(n_, (x,)))
    add_ob("C06", "BlockOperator(%s)" % ("offsets" if sq else "row offsets, column offsets"), bo)
