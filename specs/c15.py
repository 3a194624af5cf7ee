"""C15: text and binary files hold the matrix in the documented format."""
from spec import *

probe("c15_coomult", "void", "const CM& A, const VW& x, VW& y", "A.Mult(x, y);")
probe("c15_readtext", "RV", "const std::string& f", "return ReadText<double>(f);")
probe("c15_writetext", "void", "const RV& v, const std::string& f", "WriteText(v, f);")
probe("c15_readtexti", "std::vector<int>", "const std::string& f", "return ReadText<int>(f);")
probe("c15_writetexti", "void", "const std::vector<int>& v, const std::string& f", "WriteText(v, f);")
probe("c15_writetextv", "void", "const VW& v, const std::string& f", "WriteText(v, f);")
probe("c15_bwritei", "void", "const std::vector<int>& v, const std::string& f", "WriteBinary(v, f);")
probe("c15_breadi", "std::vector<int>", "const std::string& f", "return ReadBinaryVect<int>(f);")
probe("c15_readtabled", "SM", "const std::string& f", "return ReadTable<double>(f);")
probe("c15_writetabled", "void", "const SM& A, const std::string& f", "WriteTable(A, f);")
probe("c15_writecooi", "void", "const SMI& A, const std::string& f, bool s", "WriteCooList(A, f, s);")
probe("c15_writecsri", "void", "const SMI& A, const std::string& f", "WriteCSR(A, f);")
probe("c15_readcsri", "SMI", "const std::string& f", "return ReadCSR<int>(f);")
probe("c15_bwritemi", "void", "const SMI& A, const std::string& f", "WriteBinary(A, f);")
probe("c15_breadmi", "SMI", "const std::string& f", "return ReadBinaryMat<int>(f);")
probe("c15_readadj", "SM", "const std::string& f, bool s", "return ReadAdjList<double>(f, s);")
probe("c15_readgraph", "SM", "const std::string& f", "return ReadGraphList<double>(f);")
probe("c15_readcoo", "SM", "const std::string& f, bool s", "return ReadCooList<double>(f, s);")
probe("c15_readmtx", "SM", "const std::string& f", "return ReadMTX<double>(f);")
probe("c15_readmtxlist", "SM", "const std::string& f", "return ReadMTXList<double>(f);")
probe("c15_readtable", "SMI", "const std::string& f", "return ReadTable<int>(f);")
probe("c15_readcsr", "SM", "const std::string& f", "return ReadCSR<double>(f);")
probe("c15_writeadj", "void", "const SM& A, const std::string& f, bool s", "WriteAdjList(A, f, s);")
probe("c15_writecoo", "void", "const SM& A, const std::string& f, bool s", "WriteCooList(A, f, s);")
probe("c15_writemtx", "void", "const SM& A, const std::string& f", "WriteMTX(A, f);")
probe("c15_writetable", "void", "const SMI& A, const std::string& f", "WriteTable(A, f);")
probe("c15_writecsr", "void", "const SM& A, const std::string& f", "WriteCSR(A, f);")
probe("c15_bwrite", "void", "const RV& v, const std::string& f", "WriteBinary(v, f);")
probe("c15_bread", "RV", "const std::string& f", "return ReadBinaryVect<double>(f);")
probe("c15_bwritem", "void", "const SM& A, const std::string& f", "WriteBinary(A, f);")
probe("c15_breadm", "SM", "const std::string& f", "return ReadBinaryMat<double>(f);")
from c02 import S, size
import files
from files import Rows, Ragged, Text, Block
from c02 import spval
from c01 import NSP


def d(a, b):
    return eq(a, b)


def mx(f, n):
    k = fresh_var()
    return mk_ext("mx", k, n, P(0), f(P(k)))


def named(c):
    return c.obj(c.I.fname)


def f15(label, **opts):
    def deco(fn):
        add_ob("C15", label, fn, **opts)
        return fn
    return deco


def col(c, nm, kind="index", ub=None):
    c.arr(nm, kind, ub)
    return lambda l: sel(nm, (l,))


def tosparse(c):
    """the conversion of a coordinate matrix is decided by C02; here the coordinate matrix that is
    converted is looked at, through its sizes and its product with an arbitrary vector"""
    seen = []

    def f(full, this, args):
        I = c.I
        o = I.load(this) if isinstance(this, LV) else this
        q, u, I.quiet, I.unroll = I.quiet, I.unroll, True, 0
        try:
            ob = c.obj(o)
            r, k = c.method(ob, "Rows", []), c.method(ob, "Cols", [])
            y = c.obj(c.view("y", r))
            c.call("c15_coomult", ob, c.view("x", k), y)
            seen.append((r, k, lambda i: c.view_get(y, i)))
        finally:
            I.quiet, I.unroll = q, u
        return c.obj(c.sparse("Z", P(2), P(3)))
    for g in c.p.byq.get(NSP + "CooMatrix::ToSparse", []):
        if g.get("body"):
            c.I.contracts[g["id"]] = f
    return seen


def reads(label, probe_, sym, val, contrib):
    """text files of triples or pairs: contrib(i, j, line) is what a line adds to entry (i, j)"""
    @f15(label)
    def f(c, rec):
        n = c.dim("lines", 1)
        fi, fj = col(c, "fi", "index", P(5)), col(c, "fj", "index", P(6) if not sym else P(5))
        cols = [fi, fj]
        if val:
            cols.append(col(c, "fv", "real"))
        c.I.infile = [Rows(n, cols)]
        seen = tosparse(c)
        c.ev0 = len(c.I.events)
        args = [P(1 if sym == 1 else 0)] if "List" in label else []
        B = c.obj(c.call(probe_, named(c), *args))
        if len(seen) != 1:
            raise Undecided("one coordinate matrix")
        R, C, y = seen[0]
        r, k = mx(fi, n) + 1, mx(fj, n) + 1
        if sym:
            u = fresh_var()
            r = k = mk_ext("mx", u, n, P(0), app("max", fi(P(u)), fj(P(u)))) + 1
        size(c, rec, B, P(2), P(3))
        rec.eq("rows", R, r)
        rec.eq("cols", C, k)
        i = c.idx("i", R)
        rec.eq("entries", y(i), S(n, lambda l: contrib(i, l)))


X = lambda j: sel("x", (j,))


def L(n, f):
    k = fresh_var()
    TM.FACTS.vub[k] = n - 1
    return mk_sum(k, n, f(P(k)))


def one(i, l, v):
    a, b = sel("fi", (l,)), sel("fj", (l,))
    return mul(v, mul(d(a, i), X(b)))


def two(i, l, v):
    a, b = sel("fi", (l,)), sel("fj", (l,))
    return one(i, l, v) + mul(mul(v, 1 - d(a, b)), mul(d(b, i), X(a)))


V = lambda l: sel("fv", (l,))
reads("ReadAdjList", "c15_readadj", 0, False, lambda i, l: one(i, l, P(1)))
reads("ReadAdjList symmetric", "c15_readadj", 1, False, lambda i, l: two(i, l, P(1)))
reads("ReadCooList", "c15_readcoo", 0, True, lambda i, l: one(i, l, V(l)))
reads("ReadCooList symmetric", "c15_readcoo", 1, True, lambda i, l: two(i, l, V(l)))


@f15("ReadGraphList")
def readgraph(c, rec):
    """the graph Laplacian: every line i j with i < j is an edge"""
    n = c.dim("lines", 1)
    fi, fj = col(c, "fi", "index", P(5)), col(c, "fj", "index", P(5))
    c.I.infile = [Rows(n, [fi, fj])]
    seen = tosparse(c)
    c.ev0 = len(c.I.events)
    B = c.obj(c.call("c15_readgraph", named(c)))
    if len(seen) != 1:
        raise Undecided("one coordinate matrix")
    size(c, rec, B, P(2), P(3))
    R, C, y = seen[0]
    i = c.idx("i", R)

    def edge(l):
        a, b = fi(l), fj(l)
        return mul(lt(a, b), mul(d(a, i), X(a) - X(b)) + mul(d(b, i), X(b) - X(a)))
    rec.eq("entries", y(i), S(n, edge))


def mtx(label, probe_, header, sym, val):
    @f15(label)
    def f(c, rec):
        n = c.dim("lines")
        R, C = (c.dim("R", 1), c.dim("C", 1)) if not sym else [c.dim("R", 1)] * 2
        fi, fj = col(c, "fi", "index", R), col(c, "fj", "index", C)
        cols = [lambda l: fi(l) + 1, lambda l: fj(l) + 1]
        if val:
            cols.append(col(c, "fv", "real"))
        c.I.infile = [Text(header), Rows(P(1), [lambda l: R, lambda l: C, lambda l: n]), Rows(n, cols)]
        c.I.unroll = 8
        seen = tosparse(c)
        c.ev0 = len(c.I.events)
        B = c.obj(c.call(probe_, named(c)))
        if len(seen) != 1:
            raise Undecided("one coordinate matrix")
        size(c, rec, B, P(2), P(3))
        r, k, y = seen[0]
        rec.eq("rows", r, R)
        rec.eq("cols", k, C)
        i = c.idx("i", R)
        v = V if val else lambda l: P(1)
        rec.eq("entries", y(i), S(n, lambda l: (two if sym else one)(i, l, v(l))))


GEN = "%%MatrixMarket matrix coordinate real general"
SYM = "%%MatrixMarket matrix coordinate real symmetric"
for nm, pr, val in (("ReadMTX", "c15_readmtx", True), ("ReadMTXList", "c15_readmtxlist", False)):
    mtx(nm + " general", pr, [GEN], False, val)
    mtx(nm + " general, comments", pr, [GEN, "% made by hand", "%"], False, val)
    mtx(nm + " symmetric", pr, [SYM], True, val)
    mtx(nm + " symmetric, comments", pr, [SYM, "% made by hand"], True, val)


def readtable(label, probe_):
    f15(label)(lambda c, rec: readtable_(c, rec, probe_))


def readtable_(c, rec, probe_):
    n = c.dim("lines")
    C, J = "tc", "tj"
    c.F.intsel.update((C, J))
    c.F.nonneg_sel.update((C, J))
    c.model["arrays"][C] = ("fn", lambda m, idx: m.h(C, idx) % 4)
    c.model["arrays"][J] = ("index", P(6))
    c.I.infile = [Ragged(n, lambda l: sel(C, (l,)), lambda l, k: sel(J, (l, k)))]
    c.ev0 = len(c.I.events)
    M = c.obj(c.call(probe_, named(c)))
    rec.eq("rows", c.method(M, "Rows", []), n)
    total = S(n, lambda l: sel(C, (l,)))
    a, b = fresh_var(), fresh_var()
    c.F.vub[a] = n - 1
    c.F.vub[b] = sel(C, (P(a),)) - 1
    big = mk_ext("mx", a, n, P(0), mk_ext("mx", b, sel(C, (P(a),)), P(0), sel(J, (P(a), P(b)))))
    rec.eq("cols", c.method(M, "Cols", []), ite(eq(total, 0), P(0), big + 1))
    i = c.idx("i", n)
    ptr, jj, dat = [c.method(M, g, [], const=True) for g in ("GetIndptr", "GetIndices", "GetData")]
    rec.eq("entries of a row", c.get(ptr, i + 1) - c.get(ptr, i), sel(C, (i,)))
    k = c.idx("k", sel(C, (i,)))
    rec.eq("column", c.get(jj, c.get(ptr, i) + k), sel(J, (i, k)))
    rec.eq("value", c.get(dat, c.get(ptr, i) + k), P(1))


readtable("ReadTable", "c15_readtable")
readtable("ReadTable real", "c15_readtabled")


def readcsr(label, probe_, kind="real"):
    f15(label)(lambda c, rec: readcsr_(c, rec, probe_, kind))


def readcsr_(c, rec, probe_, kind):
    n, m = c.dim("R"), c.dim("C", 1)
    c.csr_facts("A", n, m)
    if kind == "int":
        c.arr("A.x", "int")
    nnz = sel("A.p", (n,))
    one_ = lambda f, k: Rows(k, [f])
    c.I.infile = [one_(lambda l: n, P(1)), one_(lambda l: m, P(1)), one_(lambda l: sel("A.p", (l,)), n + 1),
                  one_(lambda l: sel("A.j", (l,)), nnz), one_(lambda l: sel("A.x", (l,)), nnz)]
    c.ev0 = len(c.I.events)
    raw_is(c, rec, c.obj(c.call(probe_, named(c))), "A", n, m)


readcsr("ReadCSR", "c15_readcsr")
readcsr("ReadCSR int", "c15_readcsri", "int")


def raw_is(c, rec, M, nm, n, m):
    size(c, rec, M, n, m)
    nnz = sel(nm + ".p", (n,))
    rec.eq("nnz", c.method(M, "nnz", []), nnz)
    ptr, jj, dat = [c.method(M, g, [], const=True) for g in ("GetIndptr", "GetIndices", "GetData")]
    i, k = c.idx("i", n + 1), c.idx("k", nnz)
    rec.eq("row pointer", c.get(ptr, i), sel(nm + ".p", (i,)))
    rec.eq("column", c.get(jj, k), sel(nm + ".j", (k,)))
    rec.eq("value", c.get(dat, k), sel(nm + ".x", (k,)))


# ---------------------------------------------------------------- writing
class Out(object):
    def __init__(self, c):
        I = c.I
        if len(I.written) != 1:
            raise Undecided("one written file")
        self.s = I.written[0]
        d_ = I.stms[self.s.sid]
        self.d = d_
        self.lines = I.sget(self.s, "line")
        self.tail = I.sget(self.s, "col")
        self.words = I.sget(self.s, "all")
        self.tok = lambda l, k: read(I.harr(d_["tok"], ()), (P(l), P(k)))
        self.col = lambda l, k: read(I.harr(d_["tok"] + ".c%d" % k, ()), (P(l),))
        self.cnt = lambda l: read(I.harr(d_["cnt"], ()), (P(l),))
        self.all = lambda k: read(I.harr(d_["tok"] + ".f", ()), (P(k),))


def writes(label, probe_, val, base, sym, head=0, et="double"):
    """one line per stored entry: row, column and value"""
    @f15(label)
    def f(c, rec):
        n, m = c.dim("R"), c.dim("C", 1)
        if sym:
            m = n
        A = c.obj(c.sparse("A", n, m, et))
        c.I.infile = []
        c.ev0 = len(c.I.events)
        c.call(probe_, A, named(c), *([P(1 if sym else 0)] if "List" in label else []))
        o = Out(c)
        w = 3 if val else 2
        keep = lambda i, k: le(i, sel("A.j", (k,))) if sym else P(1)

        def rows(f):
            a, b = fresh_var(), fresh_var()
            c.F.vub[a] = n - 1
            lo, hi = sel("A.p", (P(a),)), sel("A.p", (P(a) + 1,))
            c.F.vub[b] = hi - lo - 1
            return mk_sum(a, n, mk_sum(b, hi - lo, mul(keep(P(a), lo + P(b)), f(P(a), lo + P(b)))))
        rec.eq("lines", o.lines - head, rows(lambda i, k: P(1)))
        rec.eq("the last line is complete", o.tail, P(0))
        if head == 2:
            for q, x in enumerate(["%%MatrixMarket", "matrix", "coordinate", "real", "general"]):
                rec.eq("banner", o.col(0, q), c.I.word(x))
            for q, x in enumerate([n, m, sel("A.p", (n,))]):
                rec.eq("sizes", o.col(1, q), x)
            rec.eq("sizes on one line", o.cnt(1), P(3))
        lines = o.lines - head
        rec.eq("numbers on a line", L(lines, lambda l: mul(o.cnt(l + head) - w, o.cnt(l + head) - w)), P(0))
        Y = lambda j: sel("y", (j,))

        def line(l):
            t = [o.col(l + head, k) for k in range(w)]
            return mul(t[2] if val else P(1), mul(Y(t[0] - base), X(t[1] - base)))
        rec.eq("entries", L(lines, line),
               rows(lambda r, k: mul(sel("A.x", (k,)) if val else P(1), mul(Y(r), X(sel("A.j", (k,)))))))


writes("WriteAdjList", "c15_writeadj", False, 0, False)
writes("WriteAdjList symmetric", "c15_writeadj", False, 0, True)
writes("WriteCooList", "c15_writecoo", True, 0, False)
writes("WriteCooList symmetric", "c15_writecoo", True, 0, True)
writes("WriteCooList int", "c15_writecooi", True, 0, False, 0, "int")
writes("WriteMTX", "c15_writemtx", True, 1, False, 2)


def writetable(c, rec, probe_, et):
    n, m = c.dim("R"), c.dim("C", 1)
    A = c.obj(c.sparse("A", n, m, et))
    c.I.infile = []
    c.ev0 = len(c.I.events)
    c.call(probe_, A, named(c))
    o = Out(c)
    rec.eq("lines", o.lines, n)
    rec.eq("the last line is complete", o.tail, P(0))
    i = c.idx("i", n)
    w = sel("A.p", (i + 1,)) - sel("A.p", (i,))
    rec.eq("numbers on a line", o.cnt(i), w)
    k = c.idx("k", w)
    rec.eq("column", o.tok(i, k), sel("A.j", (sel("A.p", (i,)) + k,)))


def writecsr(c, rec, probe_, et):
    n, m = c.dim("R"), c.dim("C", 1)
    A = c.obj(c.sparse("A", n, m, et))
    c.I.infile = []
    c.ev0 = len(c.I.events)
    c.call(probe_, A, named(c))
    o = Out(c)
    nnz = sel("A.p", (n,))
    rec.eq("count", o.words, n + 3 + 2 * nnz)
    rec.eq("rows", o.all(0), n)
    rec.eq("cols", o.all(1), m)
    i, k = c.idx("i", n + 1), c.idx("k", nnz)
    rec.eq("row pointer", o.all(2 + i), sel("A.p", (i,)))
    rec.eq("column", o.all(n + 3 + k), sel("A.j", (k,)))
    rec.eq("value", o.all(n + 3 + nnz + k), sel("A.x", (k,)))


for nm, pr, f_, et in (("WriteTable", "c15_writetable", writetable, "int"), ("WriteTable real", "c15_writetabled", writetable, "double"),
                       ("WriteCSR", "c15_writecsr", writecsr, "double"), ("WriteCSR int", "c15_writecsri", writecsr, "int")):
    f15(nm)(lambda c, rec, pr=pr, f_=f_, et=et: f_(c, rec, pr, et))


def writetext(label, probe_, view, et):
    @f15(label)
    def f(c, rec):
        n = c.dim("n")
        v = c.obj(c.view("v", n, et) if view else c.vec("v", n, et))
        c.I.infile = []
        c.ev0 = len(c.I.events)
        c.call(probe_, v, named(c))
        o = Out(c)
        rec.eq("count", o.words, n)
        i = c.idx("i", n)
        rec.eq("value", o.all(i), sel("v", (i,)))


writetext("WriteText", "c15_writetext", False, "double")
writetext("WriteText int", "c15_writetexti", False, "int")
writetext("WriteText view", "c15_writetextv", True, "double")


# ---------------------------------------------------------------- binary files
def blocks(c, rec, want):
    I = c.I
    if len(I.written) != 1:
        raise Undecided("one written file")
    bs = I.stms[I.written[0].sid]["blocks"]
    rec.eq("blocks", P(len(bs)), P(len(want)))
    for k, (b, (what, n, size_, f)) in enumerate(zip(bs, want)):
        rec.eq(what + ": count", b.n, n)
        rec.eq(what + ": bytes per value", P(b.size), P(size_))
        i = c.idx("i%d" % k, n)
        rec.eq(what, b.at(i), f(i))


def binm(n, m, size_):
    nnz = sel("A.p", (n,))
    return [("rows", P(1), 8, lambda l: n), ("cols", P(1), 8, lambda l: m), ("nnz", P(1), 8, lambda l: nnz),
            ("row pointer", n + 1, 4, lambda l: sel("A.p", (l,))), ("column", nnz, 4, lambda l: sel("A.j", (l,))),
            ("value", nnz, size_, lambda l: sel("A.x", (l,)))]


def binary(suffix, et, size_):
    kind = "real" if et == "double" else "int"
    lab = "" if et == "double" else " int"

    @f15("WriteBinary matrix" + lab)
    def bwritem(c, rec):
        n, m = c.dim("R"), c.dim("C", 1)
        A = c.obj(c.sparse("A", n, m, et))
        c.I.infile = []
        c.ev0 = len(c.I.events)
        c.call("c15_bwritem" + suffix, A, named(c))
        blocks(c, rec, binm(n, m, size_))

    @f15("ReadBinaryMat" + lab)
    def breadm(c, rec):
        n, m = c.dim("R"), c.dim("C", 1)
        c.csr_facts("A", n, m)
        if et == "int":
            c.arr("A.x", "int")
        c.I.infile = [Block(k, s, f) for _, k, s, f in binm(n, m, size_)]
        c.ev0 = len(c.I.events)
        raw_is(c, rec, c.obj(c.call("c15_breadm" + suffix, named(c))), "A", n, m)

    @f15("WriteBinary vector" + lab)
    def bwrite(c, rec):
        n = c.dim("n")
        v = c.obj(c.vec("v", n, et))
        c.I.infile = []
        c.ev0 = len(c.I.events)
        c.call("c15_bwrite" + suffix, v, named(c))
        blocks(c, rec, [("size", P(1), 8, lambda l: n), ("value", n, size_, lambda l: sel("v", (l,)))])

    @f15("ReadBinaryVect" + lab)
    def bread(c, rec):
        n = c.dim("n")
        col(c, "fv", kind)
        c.I.infile = [Block(P(1), 8, lambda l: n), Block(n, size_, lambda l: sel("fv", (l,)))]
        c.ev0 = len(c.I.events)
        v = c.obj(c.call("c15_bread" + suffix, named(c)))
        rec.eq("count", c.I.load(v).len, n)
        i = c.idx("i", n)
        rec.eq("value", c.get(v, i), sel("fv", (i,)))


binary("", "double", 8)
binary("i", "int", 4)


def readtext(label, probe_, kind):
    @f15(label)
    def f(c, rec):
        n = c.dim("lines")
        c.I.infile = [Rows(n, [col(c, "fv", kind)])]
        c.ev0 = len(c.I.events)
        v = c.obj(c.call(probe_, named(c)))
        rec.eq("count", c.I.load(v).len, n)
        i = c.idx("i", n)
        rec.eq("value", c.get(v, i), sel("fv", (i,)))


readtext("ReadText", "c15_readtext", "real")
readtext("ReadText int", "c15_readtexti", "int")


# ---------------------------------------------------------------- files that cannot be opened
def opens(label, probe_, obj, args, infile):
    @f15(label + ", file that cannot be opened", noevents=True)
    def f(c, rec):
        ok = eq(c.int("cannot"), 0)
        c.I.can_open = ok
        c.I.infile = infile(c)
        c.I.unroll = 8 if "MTX" in label else 0
        a = [obj(c)] if obj else []
        c.ev0 = len(c.I.events)
        pc = c.I.st.pc
        c.call(probe_, *(a + [named(c)] + [P(x) for x in args]))
        rec.eq("returns only if the file could be opened", c.I.st.pc, mul(pc, ok))


NONE = lambda c: []
for nm, pr, a in (("ReadText", "c15_readtext", []), ("ReadAdjList", "c15_readadj", [0]),
                  ("ReadCooList", "c15_readcoo", [0]), ("ReadGraphList", "c15_readgraph", []), ("ReadTable", "c15_readtable", [])):
    opens(nm, pr, None, a, NONE)
for nm, pr in (("ReadMTX", "c15_readmtx"), ("ReadMTXList", "c15_readmtxlist")):
    opens(nm, pr, None, [], lambda c: [Text([GEN]), Rows(P(1), [lambda l: P(3), lambda l: P(4), lambda l: P(0)])])
opens("ReadCSR", "c15_readcsr", None, [], lambda c: [Rows(P(3), [lambda l: ite(eq(l, 1), P(1), P(0))])])
opens("ReadBinaryMat", "c15_breadm", None, [], lambda c: [Block(P(1), 8, lambda l: P(0)), Block(P(1), 8, lambda l: P(1)),
      Block(P(1), 8, lambda l: P(0)), Block(P(1), 4, lambda l: P(0)), Block(P(0), 4, lambda l: P(0)), Block(P(0), 8, lambda l: P(0))])
opens("ReadBinaryVect", "c15_bread", None, [], lambda c: [Block(P(1), 8, lambda l: P(0)), Block(P(0), 8, lambda l: P(0))])
small = lambda et="double": lambda c: c.obj(c.sparse("A", c.dim("R"), c.dim("C", 1), et))
for nm, pr, o, a in (("WriteText", "c15_writetext", lambda c: c.obj(c.vec("v", c.dim("n"))), []),
                     ("WriteAdjList", "c15_writeadj", small(), [0]), ("WriteCooList", "c15_writecoo", small(), [0]),
                     ("WriteMTX", "c15_writemtx", small(), []), ("WriteTable", "c15_writetable", small("int"), []),
                     ("WriteCSR", "c15_writecsr", small(), []), ("WriteBinary matrix", "c15_bwritem", small(), []),
                     ("WriteBinary vector", "c15_bwrite", lambda c: c.obj(c.vec("v", c.dim("n"))), [])):
    opens(nm, pr, o, a, NONE)
