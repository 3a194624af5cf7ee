"""C04: vector arithmetic and scaling act entrywise as documented."""
from spec import *

X = lambda i: sel("x", (i,))
Y = lambda i: sel("y", (i,))
Z = lambda i: sel("z", (i,))


def S(n, f):
    k = fresh_var()
    return mk_sum(k, n, f(P(k)))


def inv(a):
    return app("inv", P(a))


# --- in-place operations on a view y (and an untouched x of the same size)
INPLACE = [
    # label, C++ body (y: view&, x: const view&, a: scalar), value of y[i], element types
    ("view += view", "y += x;", lambda i, a, n: Y(i) + X(i), "di"),
    ("view -= view", "y -= x;", lambda i, a, n: Y(i) - X(i), "di"),
    ("view *= view", "y *= x;", lambda i, a, n: mul(Y(i), X(i)), "di"),
    ("view *= scalar", "y *= a;", lambda i, a, n: mul(Y(i), a), "di"),
    ("view += scalar", "y += a;", lambda i, a, n: Y(i) + a, "di"),
    ("view -= scalar", "y -= a;", lambda i, a, n: Y(i) - a, "di"),
    ("view = scalar", "y = a;", lambda i, a, n: P(a), "di"),
    ("view = view", "y = x;", lambda i, a, n: X(i), "di"),
    ("Set(view)", "y.Set(x);", lambda i, a, n: X(i), "di"),
    ("Add(view)", "y.Add(x);", lambda i, a, n: Y(i) + X(i), "di"),
    ("Sub(view)", "y.Sub(x);", lambda i, a, n: Y(i) - X(i), "di"),
    ("Add(scalar, view)", "y.Add(a, x);", lambda i, a, n: Y(i) + mul(a, X(i)), "d"),
    ("Sub(scalar, view)", "y.Sub(a, x);", lambda i, a, n: Y(i) - mul(a, X(i)), "d"),
    ("Set(scalar, view)", "y.Set(a, x);", lambda i, a, n: mul(a, X(i)), "d"),
    ("SubAvg", "SubAvg(y);", lambda i, a, n: Y(i) - mul(S(n, Y), inv(n)), "d"),
    ("Normalize", "Normalize(y);", lambda i, a, n: mul(Y(i), inv(app("sqrt", S(n, lambda k: mul(Y(k), Y(k)))))), "d"),
    ("Normalize member", "y.Normalize();", lambda i, a, n: mul(Y(i), inv(app("sqrt", S(n, lambda k: mul(Y(k), Y(k)))))), "d"),
]


def reg(label, et, kind, body, f):
    nm = "c04_%s%s" % ("".join(ch if ch.isalnum() else "_" for ch in label), et)
    return nm


def scalar(c, et, name="a"):
    return c.int(name) if et == "i" else c.real(name)


T = {"d": "double", "i": "int"}
NUM = [0]


def newprobe(ret, params, body):
    NUM[0] += 1
    nm = "c04_%d" % NUM[0]
    probe(nm, ret, params, body)
    return nm


def inplace(label, body, val, et, owner):
    cls = ("Vector<%s>" if owner else "VectorView<%s>") % T[et]
    nm = newprobe("void", "%s& y, const VectorView<%s>& x, %s a" % (cls, T[et], T[et]), body)

    def f(c, rec):
        lo = 1 if label.startswith(("SubAvg", "Normalize")) else 0
        n = c.dim("n", lo)
        a = scalar(c, et)
        x = c.obj(c.view("x", n, T[et]))
        if label.startswith("Normalize"):
            # x != 0
            c.arr("y", "real")
            c.F.assume_ge0(P(0))
            c.pre.append(1 - eq(S(n, lambda k: mul(Y(k), Y(k))), 0))
        y = c.obj(c.view("y", n, T[et]))
        if owner:
            y = c.obj(c.ctor("linalgcpp::Vector<%s>" % T[et], ["const linalgcpp::VectorView<%s> &" % T[et]], [y]))
        c.ev0 = len(c.I.events)
        c.call(nm, y, x, a)
        i = c.idx("i", n)
        rec.eq("y[i]", c.view_get(y, i), val(i, a, n))
        rec.eq("size", c.view_size(y), n)
        rec.eq("x unchanged", c.view_get(x, i), X(i))
    add_ob("C04", "%s%s: %s" % (T[et], " vector" if owner else "", label), f)


for label, body, val, ets in INPLACE:
    for et in ets:
        for owner in (False, True):
            inplace(label, body, val, et, owner)


# --- divisions
def divide(label, body, val, et, byvec):
    nm = newprobe("void", "VectorView<%s>& y, const VectorView<%s>& x, %s a" % (T[et], T[et], T[et]), body)

    def f(c, rec):
        n = c.dim("n")
        a = scalar(c, et)
        x = c.obj(c.view("x", n, T[et]))
        y = c.obj(c.view("y", n, T[et]))
        if byvec:
            c.arr("x", "nonzero")
            k = fresh_var()
            c.pre.append(eq(mk_sum(k, n, eq(X(P(k)), 0)), 0))
            TM.FACTS.nonzero.add("x")
        else:
            c.model["arrays"]["a"] = ("nonzero",)
            c.pre.append(ne0(a))
            TM.FACTS.nonzero.add("a")
        c.ev0 = len(c.I.events)
        c.call(nm, y, x, a)
        i = c.idx("i", n)
        rec.eq("y[i]", c.view_get(y, i), val(i, a, n))
        rec.eq("x unchanged", c.view_get(x, i), X(i))
    add_ob("C04", "%s: %s" % (T[et], label), f)


divide("view /= view", "y /= x;", lambda i, a, n: mul(Y(i), inv(X(i))), "d", True)
divide("view /= scalar", "y /= a;", lambda i, a, n: mul(Y(i), inv(a)), "d", False)
divide("int view /= scalar", "y /= a;", lambda i, a, n: app("idiv", Y(i), a), "i", False)


# --- three-operand updates
def three(label, body, val):
    nm = newprobe("void", "const VW& x, const VW& y, VW& z, double a, double b, double g", body)

    def f(c, rec):
        n = c.dim("n")
        x, y, z = [c.obj(c.view(s, n)) for s in "xyz"]
        a, b, g = c.real("a"), c.real("b"), c.real("g")
        c.ev0 = len(c.I.events)
        c.call(nm, x, y, z, a, b, g)
        i = c.idx("i", n)
        rec.eq("z[i]", c.view_get(z, i), val(i, a, b, g))
        rec.eq("x unchanged", c.view_get(x, i), X(i))
        rec.eq("y unchanged", c.view_get(y, i), Y(i))
    add_ob("C04", label, f)


three("Add(alpha, x, beta, y, gamma, z)", "Add(a, x, b, y, g, z);", lambda i, a, b, g: mul(a, X(i)) + mul(b, Y(i)) + mul(g, Z(i)))
three("Add(x, y, z)", "Add(x, y, z);", lambda i, a, b, g: X(i) + Y(i))
three("Sub(x, y, z)", "Sub(x, y, z);", lambda i, a, b, g: X(i) - Y(i))


# --- reductions
def reduction(label, ret, body, val, et="d", lo=0):
    nm = newprobe(ret, "const VectorView<%s>& x, const VectorView<%s>& y" % (T[et], T[et]), "return %s;" % body)

    def f(c, rec):
        n = c.dim("n", lo)
        x, y = [c.obj(c.view(s, n, T[et])) for s in "xy"]
        c.ev0 = len(c.I.events)
        r = c.call(nm, x, y)
        rec.eq("value", r, val(n))
        i = c.idx("i", n)
        rec.eq("x unchanged", c.view_get(x, i), X(i))
    add_ob("C04", "%s: %s" % (T[et], label), f)


def MX(kind, f):
    def g(n):
        k = fresh_var()
        return mk_ext(kind, k, n, f(P(0)), f(P(k)))
    return g


AB = lambda i: app("abs", X(i))
for et in "di":
    reduction("Sum", T[et], "Sum(x)", lambda n: S(n, X), et)
    reduction("Sum member", T[et], "x.Sum()", lambda n: S(n, X), et)
    reduction("inner product operator", "double", "x * y", lambda n: S(n, lambda k: mul(X(k), Y(k))), et)
    reduction("InnerProduct", "double", "InnerProduct(x, y)", lambda n: S(n, lambda k: mul(X(k), Y(k))), et)
    reduction("Mult", T[et], "x.Mult(y)", lambda n: S(n, lambda k: mul(X(k), Y(k))), et)
    reduction("Mean", "double", "Mean(x)", lambda n: mul(S(n, X), inv(n)), et, 1)
    reduction("Max", T[et], "Max(x)", MX("mx", X), et, 1)
    reduction("Min", T[et], "Min(x)", MX("mn", X), et, 1)
    reduction("AbsMax", T[et], "AbsMax(x)", MX("mx", AB), et, 1)
    reduction("AbsMin", T[et], "AbsMin(x)", MX("mn", AB), et, 1)
    reduction("L2Norm", "double", "L2Norm(x)", lambda n: app("sqrt", S(n, lambda k: mul(X(k), X(k)))), et)
    reduction("L2Norm member", "double", "x.L2Norm()", lambda n: app("sqrt", S(n, lambda k: mul(X(k), X(k)))), et)


# --- equality
def equality(et):
    nm = newprobe("bool", "const VectorView<%s>& x, const VectorView<%s>& y" % (T[et], T[et]), "return x == y;")

    def same(c, rec):
        n = c.dim("n")
        x, y = [c.obj(c.view(s, n, T[et])) for s in "xy"]
        near = [Fraction(0)] * 12 + [Fraction(k, 10 ** 13) for k in (5, -5, 9, -9, 11, -11, 30, -30, 10 ** 6, -10 ** 6)] + [Fraction(1), Fraction(-1)]
        if et == "i":
            near = [0] * 6 + [1, -1]
        c.model["arrays"]["y"] = ("fn", lambda m, idx: m.value("x", idx) + near[m.h("near", idx) % len(near)])
        c.ev0 = len(c.I.events)
        r = c.call(nm, x, y)
        k = fresh_var()
        tol = Fraction(1, 10 ** 12)
        bad = mk_sum(k, n, lt(P(tol), app("abs", X(P(k)) - Y(P(k))), "r"))
        rec.eq("equal iff no entry differs by more than 1e-12", P(r), eq(bad, 0))
    add_ob("C04", "%s: operator== same size" % T[et], same)

    def refl(c, rec):
        n = c.dim("n")
        x = c.obj(c.view("x", n, T[et]))
        c.ev0 = len(c.I.events)
        r = c.call(nm, x, x)
        rec.eq("a vector equals itself", P(r), P(1))
    add_ob("C04", "%s: operator== reflexive" % T[et], refl)

    def size(c, rec):
        n, m = c.dim("n"), c.dim("m")
        x, y = c.obj(c.view("x", n, T[et])), c.obj(c.view("y", m, T[et]))
        c.pre.append(ne0(n - m))
        c.ev0 = len(c.I.events)
        r = c.call(nm, x, y)
        rec.eq("different sizes compare unequal", mul(P(r), ne0(n - m)), P(0))
    add_ob("C04", "%s: operator== different sizes" % T[et], size)


for et in "di":
    equality(et)


# --- value returning operators
def value(label, body, val, et="d", lo=0, nz=None):
    nm = newprobe("Vector<%s>" % T[et], "const Vector<%s>& x, const Vector<%s>& y, %s a" % (T[et], T[et], T[et]), "return %s;" % body)

    def f(c, rec):
        n = c.dim("n", lo)
        a = scalar(c, et)
        if nz == "a":
            c.model["arrays"]["a"] = ("nonzero",)
            TM.FACTS.nonzero.add("a")
        xs = []
        for s in "xy":
            v = c.obj(c.view(s, n, T[et]))
            xs.append(c.obj(c.ctor("linalgcpp::Vector<%s>" % T[et], ["const linalgcpp::VectorView<%s> &" % T[et]], [v])))
        if nz == "x":
            c.arr("x", "nonzero")
            TM.FACTS.nonzero.add("x")
        c.ev0 = len(c.I.events)
        r = c.obj(c.call(nm, xs[0], xs[1], a))
        i = c.idx("i", n)
        rec.eq("size", c.view_size(r), n)
        rec.eq("r[i]", c.view_get(r, i), val(i, a))
        rec.eq("x unchanged", c.view_get(xs[0], i), X(i))
        rec.eq("y unchanged", c.view_get(xs[1], i), Y(i))
    add_ob("C04", "%s: %s" % (T[et], label), f)


for et in "di":
    value("vector + vector", "x + y", lambda i, a: X(i) + Y(i), et)
    value("vector - vector", "x - y", lambda i, a: X(i) - Y(i), et)
    value("vector * scalar", "x * a", lambda i, a: mul(X(i), a), et)
    value("scalar * vector", "a * x", lambda i, a: mul(X(i), a), et)
value("vector / scalar", "x / a", lambda i, a: mul(X(i), inv(a)), "d", 0, "a")
value("scalar / vector", "a / x", lambda i, a: mul(inv(X(i)), a), "d", 0, "x")


# --- gathering
def gather(label, ret, body):
    nm = newprobe("void", "const VW& x, const IV& ind, VD& out", body)

    def f(c, rec):
        n, m = c.dim("n", 1), c.dim("m")
        x = c.obj(c.view("x", n))
        ind = c.obj(c.vec("ind", m, "int", "index", n))
        q = m if ret else c.dim("q")
        out = c.obj(c.ctor("linalgcpp::Vector<double>", ["int", "double"], [q, c.real("o")]))
        c.ev0 = len(c.I.events)
        c.call(nm, x, ind, out)
        i = c.idx("i", m)
        rec.eq("size", c.view_size(out), m)
        rec.eq("out[i]", c.view_get(out, i), X(sel("ind", (i,))))
    add_ob("C04", label, f)


gather("GetSubVector(indices)", False, "out = x.GetSubVector(ind);")
gather("GetSubVector(indices, out)", True, "x.GetSubVector(ind, out);")


# --- matrix scaling
def sm(c, nm, n, m, et="double"):
    return c.obj(c.sparse(nm, n, m, et))


def sparse_inplace(label, body, ent, diag=True, et="d", lo=0, square=False, nz=None):
    t = T[et]
    nm = newprobe("void", "SparseMatrix<%s>& A, %s a, const std::vector<%s>& s, const std::vector<int>& s2" % (t, t, t), body)

    def f(c, rec):
        n = c.dim("n", lo)
        m = n if square else c.dim("m", lo)
        A = sm(c, "A", n, m, t)
        a = scalar(c, et)
        if nz == "a":
            c.model["arrays"]["a"] = ("nonzero",)
            TM.FACTS.nonzero.add("a")
        sn = m if "Cols" in label else n
        s = c.obj(c.vec("s", sn, t))
        s2 = c.obj(c.vec("s2", sn, "int"))
        if nz == "s":
            c.arr("s", "nonzero")
            TM.FACTS.nonzero.add("s")
        c.ev0 = len(c.I.events)
        c.call(nm, A, a, s, s2)
        r = c.idx("r", n)
        k = c.idx("k", sel("A.p", (r + 1,)) - sel("A.p", (r,)))
        # the k-th stored entry of row r
        ptr, col, dat = [c.method(A, g, [], const=True) for g in ("GetIndptr", "GetIndices", "GetData")]
        g = lambda v, i: c.get(v, i)
        rec.eq("row start", g(ptr, r), sel("A.p", (r,)))
        rec.eq("column", g(col, sel("A.p", (r,)) + k), sel("A.j", (sel("A.p", (r,)) + k,)))
        rec.eq("entry", g(dat, sel("A.p", (r,)) + k), ent(r, sel("A.p", (r,)) + k, a))
        rec.eq("rows", c.method(A, "Rows", []), n)
        rec.eq("cols", c.method(A, "Cols", []), m)
    add_ob("C04", "SparseMatrix<%s> %s" % (t, label), f)


AX = lambda q: sel("A.x", (q,))
AJ = lambda q: sel("A.j", (q,))
SC = lambda i: sel("s", (i,))
for et in "di":
    sparse_inplace("*= scalar", "A *= a;", lambda r, q, a: mul(AX(q), a), et=et)
    sparse_inplace("ScaleRows", "A.ScaleRows(s);", lambda r, q, a: mul(AX(q), SC(r)), et=et)
    sparse_inplace("ScaleCols", "A.ScaleCols(s);", lambda r, q, a: mul(AX(q), SC(AJ(q))), et=et)
for nm_, sd, e_ in (("ScaleRows", "s", lambda r, q, a: mul(AX(q), SC(r))), ("ScaleCols", "s", lambda r, q, a: mul(AX(q), SC(AJ(q)))),
                    ("InverseScaleRows", "s", lambda r, q, a: mul(AX(q), inv(SC(r)))), ("InverseScaleCols", "s", lambda r, q, a: mul(AX(q), inv(SC(AJ(q)))))):
    sparse_inplace(nm_ + " by a diagonal matrix", "const SparseMatrix<double> diag(s); A.%s(diag);" % nm_, e_, nz=sd if "Inv" in nm_ else None)
for et in "di":
    sparse_inplace("matrix * scalar", "A = A * a;", lambda r, q, a: mul(AX(q), a), et=et)
    sparse_inplace("scalar * matrix", "A = a * A;", lambda r, q, a: mul(AX(q), a), et=et)
sparse_inplace("/= scalar", "A /= a;", lambda r, q, a: mul(AX(q), inv(a)), nz="a")
sparse_inplace("InverseScaleRows", "A.InverseScaleRows(s);", lambda r, q, a: mul(AX(q), inv(SC(r))), nz="s")
sparse_inplace("InverseScaleCols", "A.InverseScaleCols(s);", lambda r, q, a: mul(AX(q), inv(SC(AJ(q)))), nz="s")
idv = lambda x, y: app("idiv", x, y)
sparse_inplace("/= scalar", "A /= a;", lambda r, q, a: idv(AX(q), a), nz="a", et="i")
sparse_inplace("InverseScaleRows", "A.InverseScaleRows(s);", lambda r, q, a: idv(AX(q), SC(r)), nz="s", et="i")
sparse_inplace("InverseScaleCols", "A.InverseScaleCols(s);", lambda r, q, a: idv(AX(q), SC(AJ(q))), nz="s", et="i")
sparse_inplace("= scalar", "A = a;", lambda r, q, a: P(a), nz="a", et="i")
sparse_inplace("= scalar", "A = a;", lambda r, q, a: P(a), nz="a")


# --- diagonal shifts and reductions over matrices
def D(i, j, n):
    return sel("D", (i + mul(j, n),))


@ob("C04", "SparseMatrix AddDiag(scalar) shifts every stored diagonal entry")
def adddiag(c, rec):
    _diag(c, rec, "c04_adddiag1", lambda r: c.real("a"))


@ob("C04", "SparseMatrix AddDiag(vector) shifts every stored diagonal entry")
def adddiagv(c, rec):
    _diag(c, rec, "c04_adddiag2", lambda r: SC(r))


probe("c04_adddiag1", "void", "SM& A, double a, const RV& s", "A.AddDiag(a);")
probe("c04_adddiag2", "void", "SM& A, double a, const RV& s", "A.AddDiag(s);")


def _diag(c, rec, nm, val):
    n = c.dim("n")
    A = sm(c, "A", n, n)
    # every diagonal entry is stored exactly once
    a = c.real("a")
    s = c.obj(c.vec("s", n))
    c.ev0 = len(c.I.events)
    c.call(nm, A, a, s)
    r = c.idx("r", n)
    k = c.idx("k", sel("A.p", (r + 1,)) - sel("A.p", (r,)))
    q = sel("A.p", (r,)) + k
    dat = c.method(A, "GetData", [], const=True)
    rec.eq("entry", c.get(dat, q), AX(q) + mul(eq(AJ(q), r), val(r)))


def matred(label, ret, body, val, et="d", dense=False, lo=0):
    t = T[et]
    nm = newprobe(ret, "const %s& A" % ("DM" if dense else "SparseMatrix<%s>" % t), "return %s;" % body)

    def f(c, rec):
        n, m = c.dim("n", lo), c.dim("m", lo)
        A = c.obj(c.dense("D", n, m)) if dense else sm(c, "A", n, m, t)
        c.ev0 = len(c.I.events)
        rec.eq("value", c.call(nm, A), val(n, m))
    add_ob("C04", label, f)


for et in "di":
    matred("SparseMatrix<%s> Sum" % T[et], T[et], "A.Sum()", lambda n, m: S(sel("A.p", (n,)), AX), et)
    matred("SparseMatrix<%s> MaxNorm" % T[et], T[et], "A.MaxNorm()", lambda n, m: S(sel("A.p", (n,)), lambda q: app("abs", AX(q))), et)
DD = lambda q: sel("D", (q,))
matred("DenseMatrix Sum", "double", "A.Sum()", lambda n, m: S(mul(n, m), DD), dense=True, lo=1)
for kind, nm in (("mx", "Max"), ("mn", "Min")):
    def _g(kind):
        def g(n, m):
            k = fresh_var()
            return mk_ext(kind, k, mul(n, m), DD(P(0)), DD(P(k)))
        return g
    matred("DenseMatrix %s" % nm, "double", "A.%s()" % nm, _g(kind), dense=True, lo=1)


# --- dense matrices
def dense_inplace(label, body, val, vecs="", nz=None, lo=0):
    nm = newprobe("void", "DM& A, const DM& B, double a, const RV& s", body)

    def f(c, rec):
        n, m = c.dim("n", lo), c.dim("m", lo)
        A, B = c.obj(c.dense("D", n, m)), c.obj(c.dense("E", n, m))
        a = c.real("a")
        s = c.obj(c.vec("s", m if "Cols" in label else n))
        if nz:
            c.model["arrays"][nz] = ("nonzero",)
            TM.FACTS.nonzero.add(nz)
        c.ev0 = len(c.I.events)
        c.call(nm, A, B, a, s)
        i, j = c.idx("i", n), c.idx("j", m)
        e = sel("E", (i + mul(j, n),))
        rec.eq("rows", c.method(A, "Rows", []), n)
        rec.eq("cols", c.method(A, "Cols", []), m)
        rec.eq("A(i,j)", c.I.load(c.method(A, "operator()", [i, j], const=True), c.t("double")), val(D(i, j, n), e, a, i, j))
        rec.eq("B unchanged", c.I.load(c.method(B, "operator()", [i, j], const=True), c.t("double")), e)
    add_ob("C04", "DenseMatrix %s" % label, f)


dense_inplace("+= matrix", "A += B;", lambda d, e, a, i, j: d + e)
dense_inplace("-= matrix", "A -= B;", lambda d, e, a, i, j: d - e)
dense_inplace("*= scalar", "A *= a;", lambda d, e, a, i, j: mul(d, a))
dense_inplace("/= scalar", "A /= a;", lambda d, e, a, i, j: mul(d, inv(a)), nz="a")
dense_inplace("= scalar", "A = a;", lambda d, e, a, i, j: P(a))
dense_inplace("ScaleRows", "A.ScaleRows(s);", lambda d, e, a, i, j: mul(d, SC(i)))
dense_inplace("ScaleCols", "A.ScaleCols(s);", lambda d, e, a, i, j: mul(d, SC(j)))
dense_inplace("InverseScaleRows", "A.InverseScaleRows(s);", lambda d, e, a, i, j: mul(d, inv(SC(i))), nz="s")
dense_inplace("InverseScaleCols", "A.InverseScaleCols(s);", lambda d, e, a, i, j: mul(d, inv(SC(j))), nz="s")


def dense_value(label, body, val, nz=None):
    nm = newprobe("DM", "const DM& A, const DM& B, double a", "return %s;" % body)

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A, B = c.obj(c.dense("D", n, m)), c.obj(c.dense("E", n, m))
        a = c.real("a")
        if nz:
            c.model["arrays"][nz] = ("nonzero",)
            TM.FACTS.nonzero.add(nz)
        c.ev0 = len(c.I.events)
        r = c.obj(c.call(nm, A, B, a))
        i, j = c.idx("i", n), c.idx("j", m)
        e = sel("E", (i + mul(j, n),))
        rec.eq("rows", c.method(r, "Rows", []), n)
        rec.eq("cols", c.method(r, "Cols", []), m)
        rec.eq("r(i,j)", c.I.load(c.method(r, "operator()", [i, j], const=True), c.t("double")), val(D(i, j, n), e, a))
        rec.eq("A unchanged", c.I.load(c.method(A, "operator()", [i, j], const=True), c.t("double")), D(i, j, n))
    add_ob("C04", "DenseMatrix %s" % label, f)


dense_value("matrix + matrix", "A + B", lambda d, e, a: d + e)
dense_value("matrix - matrix", "A - B", lambda d, e, a: d - e)
dense_value("matrix * scalar", "A * a", lambda d, e, a: mul(d, a))
dense_value("scalar * matrix", "a * A", lambda d, e, a: mul(d, a))
dense_value("scalar / matrix", "a / A", lambda d, e, a: mul(a, inv(d)), nz="D")
dense_value("matrix / scalar", "A / a", lambda d, e, a: mul(d, inv(a)), nz="a")


# --- dense comparison
probe("c04_deq", "bool", "const DM& A, const DM& B", "return A == B;")


@ob("C04", "DenseMatrix operator==")
def dense_eq(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A, B = c.obj(c.dense("D", n, m)), c.obj(c.dense("E", n, m))
    near = [Fraction(0)] * 12 + [Fraction(k, 10 ** 13) for k in (5, -5, 9, -9, 11, -11, 30, -30)] + [Fraction(1), Fraction(-1)]
    c.model["arrays"]["E"] = ("fn", lambda m, idx: m.value("D", idx) + near[m.h("near", idx) % len(near)])
    c.ev0 = len(c.I.events)
    r = c.call("c04_deq", A, B)
    bad = S(m, lambda j: S(n, lambda i: lt(P(Fraction(1, 10 ** 12)), app("abs", D(i, j, n) - sel("E", (i + mul(j, n),))), "r")))
    rec.eq("equal iff no entry differs by more than 1e-12", P(r), eq(bad, 0))


@ob("C04", "DenseMatrix operator== different shapes")
def dense_eq2(c, rec):
    n, m, p, q = c.dim("n"), c.dim("m"), c.dim("p"), c.dim("q")
    A, B = c.obj(c.dense("D", n, m)), c.obj(c.dense("E", p, q))
    r = c.call("c04_deq", A, B)
    c.ev0 = len(c.I.events)
    rec.eq("different shapes compare unequal", mul(P(r), 1 - mul(eq(n, p), eq(m, q))), P(0))
