"""C14: printing shows exactly the entries an object holds."""
from spec import *
from c15 import Out, L, X
from c01 import NSP, coo_make, block_make
from c02 import size

OS = "std::ostream& os"
for et, V, VI_ in (("d", "VW", "RV"), ("i", "VWI", "IV")):
    probe("c14_view_" + et, "void", "const %s& x, const std::string& l, %s" % (V, OS), "x.Print(l, os);")
    probe("c14_put_" + et, "void", "const %s& x, %s" % (V, OS), "os << x;")
    probe("c14_std_" + et, "void", "const %s& x, %s" % (VI_, OS), "os << x;")
for nm, T in (("coo", "CM"), ("lil", "LM"), ("csr", "SM"), ("csri", "SMI"), ("dense", "DM"), ("block", "BM")):
    probe("c14_" + nm, "void", "const %s& A, const std::string& l, %s" % (T, OS), "A.Print(l, os);")
probe("c14_densewp", "void", "const DM& A, const std::string& l, %s, int w, int p" % OS, "A.Print(l, os, w, p);")
probe("c14_csrd", "void", "const SM& A, const std::string& l, %s" % OS, "A.PrintDense(l, os);")
probe("c14_blockd", "void", "const BM& A, const std::string& l, %s" % OS, "A.PrintDense(l, os);")


def f14(label, **opts):
    def deco(fn):
        add_ob("C14", label, fn, **opts)
        return fn
    return deco


LAB = "label"


def start(c, width=None, prec=6, fix=0):
    c.I.printing = (width, P(prec) if not isinstance(prec, Poly) else prec, P(fix))
    out = c.I.new_out()
    lab = c.obj(files_str(LAB))
    c.ev0 = len(c.I.events)
    return c.obj(out), lab


def files_str(t):
    import files
    return files.Str([(P(1), t)])


def finish(c, rec, lines, prec=6):
    """label line, `lines` lines of entries, an empty line"""
    o = Out(c)
    rec.eq("number of lines", o.lines, lines + 2)
    rec.eq("the last line is complete", o.tail, P(0))
    rec.eq("the label is on the first line", o.cnt(0), P(1))
    rec.eq("label", o.col(0, 0), c.I.word(LAB))
    rec.eq("the last line is empty", o.cnt(lines + 1), P(0))
    for k, v in (("prec", 6), ("fix", 0), ("width", 0)):
        rec.eq("formatting state of the stream is unchanged", c.I.sget(o.s, k), P(v))
    return o


for et in ("d", "i"):
    def view(c, rec, et=et):
        n = c.dim("n")
        x = c.obj(c.view("x", n, *(["int"] if et == "i" else [])))
        out, lab = start(c)
        c.call("c14_view_" + et, x, lab, out)
        o = finish(c, rec, n)
        i = c.idx("i", n)
        rec.eq("one entry on a line", o.cnt(i + 1), P(1))
        rec.eq("entry", o.col(i + 1, 0), sel("x", (i,)))
        rec.eq("source is unchanged", c.view_get(x, i), sel("x", (i,)))

    def put(c, rec, et=et):
        n = c.dim("n")
        x = c.obj(c.view("x", n, *(["int"] if et == "i" else [])))
        out, lab = start(c)
        c.call("c14_put_" + et, x, out)
        o = Out(c)
        i = c.idx("i", n)
        rec.eq("number of lines", o.lines, n + 2)
        rec.eq("first and last line are empty", o.cnt(0) + o.cnt(n + 1), P(0))
        rec.eq("one entry on a line", o.cnt(i + 1), P(1))
        rec.eq("entry", o.col(i + 1, 0), sel("x", (i,)))

    def std(c, rec, et=et):
        n = c.dim("n")
        x = c.obj(c.vec("x", n, *(["int", "int"] if et == "i" else [])))
        out, lab = start(c)
        c.call("c14_std_" + et, x, out)
        o = Out(c)
        i = c.idx("i", n)
        rec.eq("number of lines", o.lines, n + 2)
        rec.eq("first and last line are empty", o.cnt(0) + o.cnt(n + 1), P(0))
        rec.eq("one entry on a line", o.cnt(i + 1), P(1))
        rec.eq("entry", o.col(i + 1, 0), sel("x", (i,)))
    lb = " int" if et == "i" else ""
    add_ob("C14", "VectorView::Print" + lb, view)
    add_ob("C14", "operator<< of a vector" + lb, put)
    add_ob("C14", "operator<< of a std::vector" + lb, std)


def triple(c, rec, o, l, i, j, v, g=P(1)):
    """line l reads `(i, j) v`; g is the condition under which there is such a line"""
    is_ = lambda what, a, b: rec.eq(what, mul(g, a), mul(g, b))
    is_("six words on a line", o.cnt(l), P(6))
    for k, w in ((0, "("), (2, ","), (4, ")")):
        is_("punctuation", o.col(l, k), c.I.word(w))
    is_("row", o.col(l, 1), i)
    is_("column, in storage order", o.col(l, 3), j)
    is_("value, in storage order", o.col(l, 5), v)


@f14("CooMatrix::Print")
def coo(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A, ent = coo_make(c, n, m)
    nnz = P(c.dim("nnz"))
    out, lab = start(c)
    c.call("c14_coo", A, lab, out)
    o = finish(c, rec, nnz)
    t = c.idx("t", nnz)
    triple(c, rec, o, t + 1, sel("ci", (t,)), sel("cj", (t,)), sel("cv", (t,)))


def lines_of(c, rec, o, total, rows, tripl):
    """the lines as a whole: number of words, punctuation, and an arbitrary functional of the entries"""
    rec.eq("six words on a line", L(total, lambda l: mul(o.cnt(l + 1) - 6, o.cnt(l + 1) - 6)), P(0))
    for k, w in ((0, "("), (2, ","), (4, ")")):
        rec.eq("punctuation", L(total, lambda l: 1 - eq(o.col(l + 1, k), c.I.word(w))), P(0))
    Y = lambda j: sel("y", (j,))
    rec.eq("entries", L(total, lambda l: mul(o.col(l + 1, 5), mul(Y(o.col(l + 1, 1)), X(o.col(l + 1, 3))))), rows(Y, X))


for nm, et in (("csr", "double"), ("csri", "int")):
    @f14("SparseMatrix<%s>::Print" % et)
    def csr(c, rec, nm=nm, et=et):
        n, m = c.dim("R"), c.dim("C", 1)
        A = c.obj(c.sparse("A", n, m, et))
        out, lab = start(c)
        c.call("c14_" + nm, A, lab, out)
        o = finish(c, rec, sel("A.p", (n,)))

        def rows(y, x):
            a, b = fresh_var(), fresh_var()
            c.F.vub[a] = n - 1
            lo, hi = sel("A.p", (P(a),)), sel("A.p", (P(a) + 1,))
            c.F.vub[b] = hi - lo - 1
            return mk_sum(a, n, mk_sum(b, hi - lo, mul(sel("A.x", (lo + P(b),)), mul(y(P(a)), x(sel("A.j", (lo + P(b),)))))))
        lines_of(c, rec, o, sel("A.p", (n,)), rows, None)
        k = c.idx("k", sel("A.p", (n,)))
        rec.eq("column, in storage order", o.col(k + 1, 3), sel("A.j", (k,)))
        rec.eq("value, in storage order", o.col(k + 1, 5), sel("A.x", (k,)))


@f14("LilMatrix::Print")
def lil(c, rec):
    n, m = c.dim("R"), c.dim("C", 1)
    A = c.obj(c.lil("L", n, m))
    out, lab = start(c)
    c.call("c14_lil", A, lab, out)
    r = fresh_var()
    c.F.vub[r] = n - 1
    tot = mk_sum(r, n, sel("L.c", (P(r),)))
    o = finish(c, rec, tot)
    i = c.idx("i", n)
    k = c.idx("k", sel("L.c", (i,)))
    q = fresh_var()
    at = mk_sum(q, i, sel("L.c", (P(q),))) + k + 1
    triple(c, rec, o, at, i, sel("L.j", (i, k)), sel("L.x", (i, k)))


def dense_lines(c, rec, o, n, m, at):
    i, j = c.idx("i", n), c.idx("j", m)
    rec.eq("entries on a line", o.cnt(i + 1), m)
    rec.eq("entry", o.tok(i + 1, j), at(i, j))


def dense_print(label, probe_, extra):
    @f14(label)
    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m", 1)
        A = c.obj(c.dense("A", n, m))
        if extra:
            w, p = c.idx("w", P(20)), c.idx("p", P(20))
        else:
            w, p = P(8), P(4)
        out, lab = start(c, w, p, 1)
        c.call(probe_, A, lab, out, *([w, p] if extra else []))
        o = finish(c, rec, n)
        dense_lines(c, rec, o, n, m, lambda i, j: sel("A", (i + mul(j, n),)))


dense_print("DenseMatrix::Print", "c14_dense", False)
dense_print("DenseMatrix::Print with width and precision", "c14_densewp", True)


@f14("SparseMatrix::PrintDense")
def sparsedense(c, rec):
    n, m = c.dim("R", 1), c.dim("C", 1)
    A = c.obj(c.sparse("A", n, m))
    out, lab = start(c, P(8), P(4), 1)
    c.call("c14_csrd", A, lab, out)
    o = finish(c, rec, n)
    dense_lines(c, rec, o, n, m, lambda i, j: c.sp("A", n, i, j))


def lines_contract(c, cls, name, out):
    """the printing of the parts is decided by obligations of its own; here a part prints one line"""
    def f(full, this, args):
        I = c.I
        o = I.load(this, full["cls"]) if isinstance(this, LV) else this
        s = I.stream(args[1])
        I.put_str(s, I.as_str(args[0]))
        for x in out(c, c.obj(o)):
            I.put_tok(s, x)
        I.put_text(s, "\n")
        return None
    n = 0
    for g in c.p.byq.get(NSP + cls + "::" + name, []):
        if g.get("body"):
            c.I.contracts[g["id"]] = f
            n += 1
    if not n:
        raise Missing("%s::%s" % (cls, name))


def first(c, o):
    p, x = [c.I.load(r, c.t("std::vector<%s>" % t)) if isinstance(r, LV) else r
            for r, t in ((c.method(o, g, [], const=True), t) for g, t in (("GetIndptr", "int"), ("GetData", "double")))]
    return [c.get(p, P(1)), c.get(x, P(0))]


@f14("BlockMatrix::Print")
def block(c, rec):
    R, C = c.dim("R", 1), c.dim("C", 1)
    A, ent = block_make(c, R, C)
    out, lab = start(c)
    lines_contract(c, "SparseMatrix", "Print", first)
    c.call("c14_block", A, lab, out)
    o = Out(c)
    rec.eq("number of lines", o.lines, mul(R, C) + 1)
    rec.eq("the label is on the first line", o.cnt(0), P(1))
    rec.eq("label", o.col(0, 0), c.I.word(LAB))
    i, j = c.idx("i", R), c.idx("j", C)
    l = mul(i, C) + j + 1
    rec.eq("words of the block's line", o.cnt(l), P(8))
    for k, w in enumerate(["block", "(", i, ",", j, ")"]):
        rec.eq("block label", o.col(l, k), c.I.word(w) if isinstance(w, str) else w)
    rec.eq("the block is printed", o.tok(l, 6), sel("B.p", (i, j, P(1))))
    rec.eq("the block is printed", o.tok(l, 7), sel("B.x", (i, j, P(0))))


@f14("BlockMatrix::PrintDense")
def blockdense(c, rec):
    R, C = c.dim("R", 1), c.dim("C", 1)
    A, ent = block_make(c, R, C)
    n, m = c.dim("n", 1), c.dim("m", 1)
    Z = c.sparse("Z", n, m)
    hits = []

    def f(full, this, args):
        o = c.I.load(this, full["cls"]) if isinstance(this, LV) else this
        hits.append(o)
        return Z
    for g in c.p.byq.get(NSP + "BlockMatrix::Combine", []):
        if g.get("body"):
            c.I.contracts[g["id"]] = f
    out, lab = start(c, P(8), P(4), 1)
    c.call("c14_blockd", A, lab, out)
    if not hits:
        raise Undecided("not printed through Combine")
    rec.eq("the whole block matrix is combined", P(1 if len(hits) == 1 else 0), P(1))
    o = finish(c, rec, n)
    dense_lines(c, rec, o, n, m, lambda i, j: c.sp("Z", n, i, j))
