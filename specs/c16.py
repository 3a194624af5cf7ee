"""C16: the iterative solvers perform the documented iteration."""
from spec import *
from c01 import CV, VV, NSP
import interp as IN

OPA, OPM = "A", "M"


def rle(a, b):
    return 1 - lt(b, a, "r")


def textbook(c, kind, b, x, n, rel, ab, steps, dot, pre):
    """iterates of the method: (solution entry function, iterations performed), `steps` at most"""
    A = lambda f: c.apply(OPA, f, n)
    M = (lambda f: c.apply(OPM, f, n)) if pre else (lambda f: f)
    D = lambda f, g: c.dot(dot, f, g, n)
    Ax = A(x)
    r = lambda i: b(i) - Ax(i)
    out = []      # (stopped after this many iterations, solution)

    def freeze(f):
        # keep closed forms small: a vector is its array
        a = c.content(f, n)
        return lambda i: read(a, (i,))
    if kind == "PCG":
        z = M(r)
        rz = D(z, r)
        tol = app("max", mul(mul(rz, rel), rel), mul(ab, ab))
        out.append((rle(rz, tol), x))
        p = z
        for k in range(steps):
            Ap = A(p)
            alpha = mul(rz, app("inv", D(p, Ap)))
            x = freeze(lambda i, x=x, p=p, alpha=alpha: x(i) + mul(alpha, p(i)))
            r = freeze(lambda i, r=r, Ap=Ap, alpha=alpha: r(i) - mul(alpha, Ap(i)))
            z = M(r)
            new = D(z, r)
            out.append((rle(new, tol), x))
            beta = mul(new, app("inv", rz))
            p = freeze(lambda i, z=z, p=p, beta=beta: z(i) + mul(beta, p(i)))
            rz = new
        return out
    # Lanczos vectors v (and u = M v), Givens rotations (c, s), search directions w
    v, vold = r, (lambda i: P(0))
    u = M(v)
    beta = app("sqrt", D(u, v))
    eta = beta
    tol = app("max", mul(mul(beta, rel), rel), mul(ab, ab))
    out.append((rle(beta, tol), x))
    c1 = c2 = P(1)
    s1 = s2 = P(0)
    w1 = w2 = lambda i: P(0)
    for k in range(steps):
        ib = app("inv", beta)
        v = freeze(lambda i, v=v, ib=ib: mul(v(i), ib))
        u = freeze(lambda i, u=u, ib=ib: mul(u(i), ib))
        q = A(u)
        alpha = D(u, q)
        vn = freeze(lambda i, q=q, v=v, o=vold, be=beta, al=alpha: q(i) - mul(be, o(i)) - mul(al, v(i)))
        delta = mul(c1, alpha) - mul(mul(c2, s1), beta)
        rho3 = mul(s2, beta)
        rho2 = mul(s1, alpha) + mul(mul(c2, c1), beta)
        un = M(vn)
        beta = app("sqrt", D(un, vn))
        rho1 = app("sqrt", mul(delta, delta) + mul(beta, beta))
        ir = app("inv", rho1)
        w = freeze(lambda i, u=u, a=w1, o=w2, ir=ir, r3=rho3, r2=rho2:
                   mul(ir, u(i) - mul(r3, o(i)) - mul(r2, a(i))))
        c2, c1 = c1, mul(delta, ir)
        x = freeze(lambda i, x=x, w=w, g=mul(c1, eta): x(i) + mul(g, w(i)))
        s2, s1 = s1, mul(beta, ir)
        eta = -mul(s1, eta)
        out.append((rle(app("abs", eta), tol), x))
        vold, v, u = v, vn, un
        w2, w1 = w1, w
    return out


def pick(out, steps, f):
    """value after the first stopping test that holds, or after all the steps"""
    r = f(steps, out[steps][1])
    for k in range(steps - 1, -1, -1):
        r = ite(out[k][0], f(k, out[k][1]), r)
    return r


def ext_dot(c, n):
    def f(I, args):
        v = [I.load(a) if isinstance(a, LV) else a for a in args]
        fs = []
        for x in v:
            p, k = I.viewparts(x)
            I.ev_access(p, k, "range_read")
            fs.append(I.range_read(p, None))
        return c.dot("Dot", fs[0], fs[1], n)
    return IN.ExtFn("Dot", f)


def inner(c, n):
    """InnerProduct is decided by C04; here it is the standard inner product of its operands"""
    def f(full, this, args):
        fs = []
        for a in args:
            x = c.I.load(a) if isinstance(a, LV) else a
            p, k = c.I.viewparts(x)
            c.I.ev_access(p, k, "range_read")
            fs.append(c.I.range_read(p, None))
        return c.dot("InnerProduct", fs[0], fs[1], n)
    k = 0
    for g in c.p.byq.get(NSP + "InnerProduct", []):
        if len(g["params"]) == 2 and (g.get("body")):
            c.I.contracts[g["id"]] = f
            k += 1
    if not k:
        raise Missing("InnerProduct")


def setup(c):
    n = c.dim("n")
    A, M = c.opaque_op(OPA, n), c.opaque_op(OPM, n)
    for nm in ("rel", "abs"):
        c.real(nm)
        c.model["arrays"][nm] = ("fn", lambda m, idx, nm=nm: (0, Fraction(1, 1000), Fraction(1, 4), Fraction(1, 2))[m.h(nm) % 4])
    c.I.unroll = 8
    TM.MAXSIZE = max(TM.MAXSIZE, 3000000)
    c.I.no_throw = True
    inner(c, n)
    return n, A, M


def workspace(c, s):
    """arbitrary contents of the work vectors, as an earlier solve leaves them"""
    v = c.I.load(s)

    def go(t):
        for k, ft in c.p.fields(t):
            x = v.f.get(k)
            yield k, x
    for k, x in list(go(v.t)):
        if isinstance(x, Obj):
            for k2, y in x.f.items():
                if isinstance(y, Vec):
                    nm = "junk." + k.split("@")[0]
                    c.arr(nm, "real")
                    c.I.st.heap[(y.buf, ())] = arr_sym(nm)
    nk = [k for k in v.f if k.split("@")[0] == "num_iter_"]
    if nk:
        v = v.set(nk[0], c.int("olditer"))
        c.I.storev(s, v)


probe("c16_iters", "int", "const Solver& S", "return S.GetNumIterations();")
probe("c16_mult", "void", "const Solver& S, const VW& b, VW& x", "S.Mult(b, x);")


def std_inner(c):
    g = [g for g in c.p.byq.get(NSP + "InnerProduct", []) if len(g["params"]) == 2 and g.get("body")
         and c.p.T(g["params"][0]["t"])["s"].find("<double>") > 0]
    if not g:
        raise Missing("InnerProduct")
    return IN.FnV(g[0])


def make(c, cls, pre, A, M, mi, rel, ab, D):
    """solver object through its full constructor"""
    nparam = (2 if pre else 1) + 5
    tid = c.t(NSP + cls)
    fs = [g for g in c.p.fn.values() if g.get("name") == "{ctor}" and g.get("cls") is not None and c.p.unq(g["cls"]) == tid
          and len(g["params"]) == nparam and (g.get("body") or g.get("inits"))]
    if len(fs) != 1:
        raise Missing("constructor of " + cls)
    return c.obj(c.I.construct(tid, fs[0], [A] + ([M] if pre else []) + [mi, rel, ab, P(0), D]))


def check(c, rec, kind, s, b, x, n, rel, ab, steps, dot, pre, what=""):
    want = textbook(c, kind, lambda i: sel("b", (i,)), lambda i: sel("x", (i,)), n, rel, ab, steps, dot, pre)
    i = c.idx("i" + what.replace(" ", "_"), n)
    rec.eq(what + "solution", c.view_get(x, i), pick(want, steps, lambda k, g: g(i)))
    if s is not None:
        rec.eq(what + "iterations reported", c.call("c16_iters", s), pick(want, steps, lambda k, g: P(k)))
    if b is not None:
        rec.eq(what + "right-hand side unchanged", c.view_get(c.obj(b), i), sel("b", (i,)))


KINDS = ("access", "range_read", "range_write", "contract", "uninit", "nullderef", "alloc")


def solve(cls, kind, pre, user, steps, way, thorough=False):
    def f(c, rec):
        n, A, M = setup(c)
        rel, ab = sym("rel"), sym("abs")
        D = ext_dot(c, n) if user else std_inner(c)
        mi, r0, a0 = (P(steps), rel, ab) if way == "ctor" else (P(77), P(5), P(5))
        s = make(c, cls, pre, A, M, mi, r0, a0, D)
        if way == "set":
            c.method(s, "SetMaxIter", [P(steps)])
            c.method(s, "SetRelTol", [rel])
            c.method(s, "SetAbsTol", [ab])
        workspace(c, s)
        b, x = c.view("b", n), c.obj(c.view("x", n))
        c.ev0 = len(c.I.events)
        c.call("c16_mult", s, c.obj(b), x)
        check(c, rec, kind, s, b, x, n, rel, ab, steps, "Dot" if user else "InnerProduct", pre)
    o = {"thorough": True} if thorough else {}
    add_ob("C16", "%s%s%s, %d steps%s" % (cls, " preconditioned" if pre and cls == "PCGSolver" else "",
           ", user Dot" if user else "", steps, ", settings changed" if way == "set" else ""), f, kinds=KINDS, **o)


def life(cls, kind, pre, nm, ptype, body):
    """a solver that was copied, moved, assigned or swapped acts as the original"""
    pn = "c16_%s_%s%d" % (nm.replace(" ", "_"), cls, pre)
    probe(pn, "int", "%s& S, %s& T, const VW& b, VW& x" % (ptype, ptype), body)

    def f(c, rec):
        n, A, M = setup(c)
        rel, ab = sym("rel"), sym("abs")
        s = make(c, cls, pre, A, M, P(2), rel, ab, ext_dot(c, n))
        B = c.opaque_op("B", n)
        t = make(c, cls, pre, B, B, P(1), P(1), P(1), std_inner(c))
        b, x = c.view("b", n), c.obj(c.view("x", n))
        r = c.call(pn, s, t, c.obj(b), x)
        want = textbook(c, kind, lambda i: sel("b", (i,)), lambda i: sel("x", (i,)), n, rel, ab, 2, "Dot", pre)
        i = c.idx("i", n)
        rec.eq("solution", c.view_get(x, i), pick(want, 2, lambda k, g: g(i)))
        rec.eq("iterations reported", r, pick(want, 2, lambda k, g: P(k)))
    add_ob("C16", "%s%s, %s" % (cls, " preconditioned" if pre and cls == "PCGSolver" else "", nm), f, kinds=KINDS)


def again(cls, kind, pre):
    """a second solve with one solver, after its operator or preconditioner was replaced"""
    def f(c, rec):
        n, A, M = setup(c)
        rel, ab = sym("rel"), sym("abs")
        B = c.opaque_op("B", n)
        s = make(c, cls, pre, B, B if cls == "PCGSolver" else M, P(2), rel, ab, ext_dot(c, n))
        b0, x0 = c.view("b0", n), c.obj(c.view("x0", n))
        if kind == "PCG":
            c.call("c16_mult", s, c.obj(b0), x0)
            if pre:
                c.method(s, "SetPreconditioner", [M])
        else:
            workspace(c, s)
        c.method(s, "SetOperator", [A])
        b, x = c.view("b", n), c.obj(c.view("x", n))
        c.call("c16_mult", s, c.obj(b), x)
        check(c, rec, kind, s, b, x, n, rel, ab, 2, "Dot", pre)
    add_ob("C16", "%s%s, second solve with another operator" % (cls, " preconditioned" if pre and cls == "PCGSolver" else ""), f, kinds=KINDS)


def free(fname, kind, pre, given):
    pn = "c16_free_%s%d" % (fname, given)
    par = "const Operator& A, %sconst VW& b, VW& x, int mi, double rt, double at" % ("const Operator& M, " if pre else "")
    call = "%s(A, %sb, %smi, rt, at)" % (fname, "M, " if pre else "", "x, " if given else "")
    if given:
        probe(pn, "void", par, call + ";")
    else:
        probe(pn, "VD", par, "return " + call + ";")

    def f(c, rec):
        n, A, M = setup(c)
        rel, ab = sym("rel"), sym("abs")
        if not given:
            # the initial guess is an arbitrary vector
            def rnd(full, this, args):
                v = c.I.load(args[0]) if isinstance(args[0], LV) else args[0]
                p, k = c.I.viewparts(v)
                c.arr("x", "real")
                c.I.range_write(p, k, lambda i: sel("x", (i,)))
            k = 0
            for g in c.p.byq.get(NSP + "Randomize", []):
                if g.get("body") and "VectorView" in c.p.T(g["params"][0]["t"])["s"]:
                    c.I.contracts[g["id"]] = rnd
                    k += 1
            if not k:
                raise Missing("Randomize")
        b, x = c.view("b", n), c.obj(c.view("x" if given else "unused", n))
        c.ev0 = len(c.I.events)
        r = c.call(pn, A, *([M] if pre else []), c.obj(b), x, P(2), rel, ab)
        o = x if given else c.obj(r)
        if not given:
            rec.eq("size", c.view_size(o), n)
        check(c, rec, kind, None, b, o, n, rel, ab, 2, "InnerProduct", pre)
    add_ob("C16", "%s(%s)" % (fname, "x" if given else "random guess"), f, kinds=KINDS)


for cls, kind, pre in (("PCGSolver", "PCG", False), ("PCGSolver", "PCG", True), ("MINRESSolver", "MINRES", False), ("PMINRESSolver", "MINRES", True)):
    for steps in (0, 1, 2, 3):
        solve(cls, kind, pre, True, steps, "ctor")
    if cls != "MINRESSolver":
        solve(cls, kind, pre, True, 4, "ctor", True)
    solve(cls, kind, pre, False, 1, "set")
    run = "X.Mult(b, x); return X.GetNumIterations();"
    for nm, body in (("copied", "%s X(S);" % cls), ("moved", "%s X(std::move(S));" % cls), ("copy assigned", "T = S; const %s& X = T;" % cls),
                     ("move assigned", "T = std::move(S); const %s& X = T;" % cls), ("swapped", "swap(S, T); const %s& X = T;" % cls)):
        life(cls, kind, pre, nm, cls, body + run)
    again(cls, kind, pre)
for fname, kind, pre in (("CG", "PCG", False), ("PCG", "PCG", True), ("MINRES", "MINRES", False), ("PMINRES", "MINRES", True)):
    free(fname, kind, pre, True)
    free(fname, kind, pre, False)
