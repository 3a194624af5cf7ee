"""C01: applying an operator to a vector computes the matrix-vector product."""
from spec import *

VV = "linalgcpp::VectorView<%s>"
CV = "const linalgcpp::VectorView<%s> &"


def matvec(c, rec, A, n, m, ent, at, tin="double", tout="double", call=None, what="y"):
    """y = A x (or A^T x) observed at an arbitrary index"""
    nin, nout = (n, m) if at else (m, n)
    x, y = c.view("x", nin, tin), c.view("y", nout, tout)
    c.ev0 = len(c.I.events)
    call(c, c.obj(x), c.obj(y))
    i = c.idx("i", nout)
    k = fresh_var()
    e = ent(P(k), i) if at else ent(i, P(k))
    spec = mk_sum(k, nin, mul(e, sel("x", (P(k),))))
    rec.eq(what + "[i]", c.view_get(y, i), spec)


def sparse_ob(name, et, tin, tout, form):
    at = name == "MultAT"

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.sparse("A", n, m, et))
        ent = lambda i, j: c.sp("A", n, i, j)

        def call(c, x, y):
            if form == "tmpl":
                c.method(A, name, [x, y], ptypes=[CV % tin, VV % tout], targs=[tin, tout])
            else:
                c.method(A, name, [x, y], ptypes=[CV % tin, VV % tout], targs=[])
        matvec(c, rec, A, n, m, ent, at, tin, tout, call)
    return f


for et in ("double", "int"):
    for name in ("Mult", "MultAT"):
        add_ob("C01", "SparseMatrix<%s>::%s(view, view)" % (et, name), sparse_ob(name, et, "double", "double", "virt"))


def sparse_ret(name, et, tin):
    at = name == "MultAT"

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.sparse("A", n, m, et))
        nin, nout = (n, m) if at else (m, n)
        x = c.view("x", nin, tin)
        c.ev0 = len(c.I.events)
        y = c.method(A, "operator*" if name == "operator*" else name, [c.obj(x)], ptypes=[CV % tin])
        i = c.idx("i", nout)
        k = fresh_var()
        e = c.sp("A", n, P(k), i) if at else c.sp("A", n, i, P(k))
        rec.eq("size", c.view_size(y), nout)
        rec.eq("y[i]", c.view_get(y, i), mk_sum(k, nin, mul(e, sel("x", (P(k),)))))
    return f


for et in ("double", "int"):
    for name in ("Mult", "MultAT", "operator*"):
        add_ob("C01", "SparseMatrix<%s>::%s(view)" % (et, name), sparse_ret(name, et, et))


def coo_make(c, n, m, et="double", cls="CooMatrix"):
    nnz = c.dim("nnz")
    c.model.setdefault("zero_if", []).append((str(nnz), [str(n), str(m)]))
    c.arr("ci", "index", n)
    c.arr("cj", "index", m)
    c.arr("cv", "real" if et == "double" else "int")
    A = c.obj(c.ctor(NSP + "%s<%s>" % (cls, et), ["int", "int"], [n, m]))
    c.I.py_loop(nnz, lambda t: c.method(A, "Add", [sel("ci", (t,)), sel("cj", (t,)), sel("cv", (t,))],
                                        ptypes=["int", "int", et]))

    def ent(i, j):
        k = fresh_var()
        TM.FACTS.vub[k] = nnz - 1
        return mk_sum(k, nnz, mul(sel("cv", (P(k),)), mul(eq(sel("ci", (P(k),)), i), eq(sel("cj", (P(k),)), j))))
    return A, ent


NSP = "linalgcpp::"


def coo_ob(name, et):
    at = name == "MultAT"

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A, ent = coo_make(c, n, m, et)
        matvec(c, rec, A, n, m, ent, at, call=lambda c, x, y: c.method(A, name, [x, y], ptypes=[CV % "double", VV % "double"]))
    return f


for et in ("double", "int"):
    for name in ("Mult", "MultAT"):
        add_ob("C01", "CooMatrix<%s>::%s" % (et, name), coo_ob(name, et))


def lil_ob(name, et):
    at = name == "MultAT"

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.lil("L", n, m, et))
        matvec(c, rec, A, n, m, lambda i, j: c.lil_entry("L", i, j), at,
               call=lambda c, x, y: c.method(A, name, [x, y], ptypes=[CV % "double", VV % "double"]))
    return f


for et in ("double", "int"):
    for name in ("Mult", "MultAT"):
        add_ob("C01", "LilMatrix<%s>::%s" % (et, name), lil_ob(name, et))


def dense_ob(name, form):
    at = name == "MultAT"

    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.dense("A", n, m))
        ent = lambda i, j: sel("A", (i + mul(j, n),))
        nin, nout = (n, m) if at else (m, n)
        if form == "view":
            matvec(c, rec, A, n, m, ent, at, call=lambda c, x, y: c.method(A, name, [x, y], ptypes=[CV % "double", VV % "double"], targs=[]))
        else:
            x = c.view("x", nin)
            c.ev0 = len(c.I.events)
            y = c.method(A, name, [c.obj(x)], ptypes=[CV % "double"])
            i = c.idx("i", nout)
            k = fresh_var()
            e = ent(P(k), i) if at else ent(i, P(k))
            rec.eq("size", c.view_size(y), nout)
            rec.eq("y[i]", c.view_get(y, i), mk_sum(k, nin, mul(e, sel("x", (P(k),)))))
    return f


for form in ("view", "ret"):
    for name in ("Mult", "MultAT"):
        add_ob("C01", "DenseMatrix::%s (%s)" % (name, form), dense_ob(name, form))


def block_make(c, R, C, unset=False, et="double"):
    ro, co = c.offsets("ro", R), c.offsets("co", C)
    A = c.obj(c.ctor(NSP + "BlockMatrix<%s>" % et, ["std::vector<int>", "std::vector<int>"], [ro, co]))
    rows = lambda pre: sel("ro", (pre[0] + 1,)) - sel("ro", (pre[0],))
    cols = lambda pre: sel("co", (pre[1] + 1,)) - sel("co", (pre[1],))
    c.csr_facts("B", rows, cols)
    if unset:
        c.arr("set", "bool")

    def body_i(i):
        def body_j(j):
            def put():
                B = c.sparse_pre("B", (i, j), rows((i, j)), cols((i, j)), et)
                c.method(A, "SetBlock", [i, j, B])
                return None
            if unset:
                c.I.fork(eq(sel("set", (i, j)), P(1)), put, lambda: None)
            else:
                put()
        c.I.py_loop(C, body_j)
    c.I.py_loop(R, body_i)

    def ent(i, j, r, k):
        e = c.spx("B", (i, j), r, k)
        return mul(eq(sel("set", (i, j)), P(1)), e) if unset else e
    return A, ent


def block_ob(name, unset):
    at = name == "MultAT"

    def f(c, rec):
        R, C = c.dim("R"), c.dim("C")
        A, ent = block_make(c, R, C, unset)
        n, m = sel("ro", (R,)), sel("co", (C,))
        nin, nout = (n, m) if at else (m, n)
        x, y = c.view("x", nin), c.view("y", nout)
        c.ev0 = len(c.I.events)
        c.method(A, name, [c.obj(x), c.obj(y)], ptypes=[CV % "double", VV % "double"])
        if not at:
            i = c.idx("i", R)
            r = c.idx("r", sel("ro", (i + 1,)) - sel("ro", (i,)))
            j, k = fresh_var(), fresh_var()
            spec = mk_sum(j, C, mk_sum(k, sel("co", (P(j) + 1,)) - sel("co", (P(j),)),
                                       mul(ent(i, P(j), r, P(k)), sel("x", (sel("co", (P(j),)) + P(k),)))))
            rec.eq("y[i]", c.view_get(y, sel("ro", (i,)) + r), spec)
        else:
            j = c.idx("j", C)
            k = c.idx("k", sel("co", (j + 1,)) - sel("co", (j,)))
            i, r = fresh_var(), fresh_var()
            spec = mk_sum(i, R, mk_sum(r, sel("ro", (P(i) + 1,)) - sel("ro", (P(i),)),
                                       mul(ent(P(i), j, P(r), k), sel("x", (sel("ro", (P(i),)) + P(r),)))))
            rec.eq("y[j]", c.view_get(y, sel("co", (j,)) + k), spec)
    return f


for name in ("Mult", "MultAT"):
    for un in (False, True):
        add_ob("C01", "BlockMatrix::%s%s" % (name, " (unset blocks)" if un else ""), block_ob(name, un))


probe("c01_bocopy", "BlockOperator", "const BlockOperator& A", "BlockOperator B(A); return B;")
probe("c01_bomove", "void", "BlockOperator& A, bool at, const VW& x, VW& y", "BlockOperator B(std::move(A)); if (at) B.MultAT(x, y); else B.Mult(x, y);")
probe("c01_boswap", "void", "BlockOperator& A, BlockOperator& B", "swap(A, B);")
probe("c01_boget", "void", "const BlockOperator& A, int i, int j, bool at, const VW& x, VW& y",
      "if (at) A.GetBlock(i, j)->MultAT(x, y); else A.GetBlock(i, j)->Mult(x, y);")
probe("c01_bosquare", "BlockOperator", "const IV& o", "return BlockOperator(o);")


def blockop_get(at):
    """the block at a position is the operator that was put there"""
    def f(c, rec):
        R, C = c.dim("R", 1), c.dim("C", 1)
        ro, co = c.offsets("ro", R), c.offsets("co", C)
        A = c.obj(c.ctor(NSP + "BlockOperator", ["std::vector<int>", "std::vector<int>"], [ro, co]))
        c.op_family(lambda i: sel("ro", (i + 1,)) - sel("ro", (i,)), lambda j: sel("co", (j + 1,)) - sel("co", (j,)), C)
        c.I.py_loop(R, lambda i: c.I.py_loop(C, lambda j: c.method(A, "SetBlock", [i, j, c.op(i, j)]) and None))
        i, j = c.idx("i", R), c.idx("j", C)
        nr, nc = sel("ro", (i + 1,)) - sel("ro", (i,)), sel("co", (j + 1,)) - sel("co", (j,))
        nin, nout = (nr, nc) if at else (nc, nr)
        x, y = c.view("x", nin), c.obj(c.view("y", nout))
        c.ev0 = len(c.I.events)
        c.call("c01_boget", A, i, j, P(1 if at else 0), c.obj(x), y)
        r, k = c.idx("r", nout), fresh_var()
        e = c.op_entry(i, j, P(k), r) if at else c.op_entry(i, j, r, P(k))
        rec.eq("y", c.view_get(y, r), mk_sum(k, nin, mul(e, sel("x", (P(k),)))))
    return f


add_ob("C01", "BlockOperator::GetBlock, Mult", blockop_get(False))
add_ob("C01", "BlockOperator::GetBlock, MultAT", blockop_get(True))


def blockop_ob(name, unset, before=(), how=""):
    at = name == "MultAT"

    def f(c, rec):
        R, C = c.dim("R"), c.dim("C")
        ro = c.offsets("ro", R)
        if how == "square":
            C, CO = R, "ro"
            A = c.obj(c.call("c01_bosquare", c.obj(ro)))
        else:
            co, CO = c.offsets("co", C), "co"
            A = c.obj(c.ctor(NSP + "BlockOperator", ["std::vector<int>", "std::vector<int>"], [ro, co]))
        if unset:
            c.arr("set", "bool")
        c.op_family(lambda i: sel("ro", (i + 1,)) - sel("ro", (i,)), lambda j: sel(CO, (j + 1,)) - sel(CO, (j,)), C)

        def body_i(i):
            def body_j(j):
                def put():
                    c.method(A, "SetBlock", [i, j, c.op(i, j)])
                    return None
                if unset:
                    c.I.fork(eq(sel("set", (i, j)), P(1)), put, lambda: None)
                else:
                    put()
            c.I.py_loop(C, body_j)
        c.I.py_loop(R, body_i)
        n, m = sel("ro", (R,)), sel(CO, (C,))
        nin, nout = (n, m) if at else (m, n)
        x, y = c.view("x", nin), c.view("y", nout)
        for w, b in enumerate(before):
            ni, no = (n, m) if b == "MultAT" else (m, n)
            c.method(A, b, [c.obj(c.view("xb%d" % w, ni)), c.obj(c.view("yb%d" % w, no))], ptypes=[CV % "double", VV % "double"])
        c.ev0 = len(c.I.events)
        if how == "copy":
            A = c.obj(c.call("c01_bocopy", A))
        if how == "swap":
            B = c.obj(c.ctor(NSP + "BlockOperator", ["std::vector<int>", "std::vector<int>"], [c.offsets("so", c.dim("S")), c.offsets("to", c.dim("T"))]))
            c.call("c01_boswap", A, B)
            A = B
        if how == "move":
            y = c.obj(y)
            c.call("c01_bomove", A, P(1 if at else 0), c.obj(x), y)
        else:
            c.method(A, name, [c.obj(x), c.obj(y)], ptypes=[CV % "double", VV % "double"])
        i, j, r, k = [c.idx("i", R), fresh_var(), None, fresh_var()]
        if not at:
            r = c.idx("r", sel("ro", (i + 1,)) - sel("ro", (i,)))
            e = c.op_entry(i, P(j), r, P(k))
            if unset:
                e = mul(e, eq(sel("set", (i, P(j))), P(1)))
            spec = mk_sum(j, C, mk_sum(k, sel(CO, (P(j) + 1,)) - sel(CO, (P(j),)),
                                       mul(e, sel("x", (sel(CO, (P(j),)) + P(k),)))))
            rec.eq("y[i]", c.view_get(y, sel("ro", (i,)) + r), spec)
        else:
            j = c.idx("j", C)
            k = c.idx("k", sel(CO, (j + 1,)) - sel(CO, (j,)))
            i, r = fresh_var(), fresh_var()
            e = c.op_entry(P(i), j, P(r), k)
            if unset:
                e = mul(e, eq(sel("set", (P(i), j)), P(1)))
            spec = mk_sum(i, R, mk_sum(r, sel("ro", (P(i) + 1,)) - sel("ro", (P(i),)),
                                       mul(e, sel("x", (sel("ro", (P(i),)) + P(r),)))))
            rec.eq("y[j]", c.view_get(y, sel(CO, (j,)) + k), spec)
    return f


for name in ("Mult", "MultAT"):
    for un in (False, True):
        add_ob("C01", "BlockOperator::%s%s" % (name, " (unset blocks)" if un else ""), blockop_ob(name, un))
    for h in ("square", "copy", "move", "swap"):
        add_ob("C01", "BlockOperator::%s, %s" % (name, h), blockop_ob(name, False, how=h), noevents=True, cost=4)
    for b in ("Mult", "MultAT"):
        add_ob("C01", "BlockOperator::%s after %s" % (name, b), blockop_ob(name, False, (b,)), noevents=True, cost=5)


def oper_base(form, at):
    def f(c, rec):
        n, m = c.dim("n"), c.dim("m")
        A = c.obj(c.sparse("A", n, m))
        nin, nout = (n, m) if at else (m, n)
        x = c.view("x", nin)
        name = "MultAT" if at else "Mult"
        i = c.idx("i", nout)
        k = fresh_var()
        e = c.sp("A", n, P(k), i) if at else c.sp("A", n, i, P(k))
        spec = mk_sum(k, nin, mul(e, sel("x", (P(k),))))
        if form == "vec":
            q = c.dim("q")
            y = c.obj(c.ctor(NSP + "Vector<double>", ["int", "double"], [q, c.real("y0")]))
            c.ev0 = len(c.I.events)
            c.method(A, name, [c.obj(x), y], ptypes=[CV % "double", NSP + "Vector<double> &"], cls=NSP + "Operator")
        else:
            c.ev0 = len(c.I.events)
            y = c.method(A, name, [c.obj(x)], ptypes=[CV % "double"], cls=NSP + "Operator")
        rec.eq("size", c.view_size(y), nout)
        rec.eq("y[i]", c.view_get(y, i), spec)
    return f


for form in ("vec", "ret"):
    for at in (False, True):
        add_ob("C01", "Operator::%s (%s)" % ("MultAT" if at else "Mult", form), oper_base(form, at))


@ob("C01", "Operator::InnerProduct")
def inner(c, rec):
    n, m = c.dim("n"), c.dim("m")
    A = c.obj(c.sparse("A", n, m))
    x, y = c.view("x", m), c.view("y", n)
    c.ev0 = len(c.I.events)
    r = c.method(A, "InnerProduct", [c.obj(x), c.obj(y)], cls=NSP + "Operator")
    i, k = fresh_var(), fresh_var()
    rec.eq("y'Ax", r, mk_sum(i, n, mul(sel("y", (P(i),)), mk_sum(k, m, mul(c.sp("A", n, P(i), P(k)), sel("x", (P(k),)))))))
