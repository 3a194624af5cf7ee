"""Contracts of the UMFPACK entry points: the life of symbolic and numeric factors and which
matrix each of them stands for.  A factor is a heap cell; freeing it makes every pointer to it
stale, the solution is an uninterpreted function of mode, matrix and right-hand side."""
from interp import *
import interp as IN
from terms import *
import terms as TM
from lapack import Lapack

LIVE = "umfpack.live"


class Umfpack(Lapack):
    def __init__(self, prog):
        Lapack.__init__(self, prog)
        self.umf = {}
        self.u_reps = []
        self.st.store[LIVE] = P(0)

    def u_live(self, d):
        self.st.store[LIVE] = self.st.store.get(LIVE, P(0)) + d

    def u_matrix(self, fn, n, ap, ai, ax):
        """compressed matrix arguments of the right extent -> (offsets, indices, values, number)"""
        self.x_arr(fn, "Ap", ap, n + 1, "range_read")
        for nm, p in (("Ap", ap), ("Ai", ai), ("Ax", ax)):
            if not isinstance(p, Ptr) or p.buf is None:
                raise Undecided("%s: argument %s" % (fn, nm))
        a = self.content(ap)
        nz = read(a, (n,))
        self.x_arr(fn, "Ai", ai, nz, "range_read")
        self.x_arr(fn, "Ax", ax, nz, "range_read")
        return a, self.content(ai), self.content(ax), nz

    def u_same(self, fn, n, m1, m2):
        if all(x is y for x, y in zip(m1[:3], m2[:3])):
            self.x_need("%s: the matrix is the one that was factored" % fn, P(1))
            return
        q = P(1)
        for (x, y), cnt in zip(zip(m1[:3], m2[:3]), (n + 1, m1[3], m1[3])):
            if x is y:
                continue
            v = fresh_var()
            TM.FACTS.vub[v] = cnt - 1
            q = mul(q, eq(mk_sum(v, cnt, 1 - eq(read(x, (P(v),)), read(y, (P(v),)))), P(0)))
        self.x_need("%s: the matrix is the one that was factored" % fn, q)

    def u_controls(self, fn, control, info):
        if control is not None and not (isinstance(control, Ptr) and control.null.const == 1):
            self.x_arr(fn, "Control", control, P(20), "range_read")
        if info is not None and not (isinstance(info, Ptr) and info.null.const == 1):
            self.x_arr(fn, "Info", info, P(90), "range_write")

    def u_factor(self, fn, p, kind):
        if p is None or not isinstance(p, Ptr) or p.buf is None:
            self.x_need("%s: a %s factor" % (fn, kind), P(0))
            raise Undecided("factor argument %r" % (p,))
        r = self.umf.get(p.buf)
        self.x_need("%s: a %s factor" % (fn, kind), P(1 if r and r["kind"] == kind else 0))
        if p.null.const != 0:
            self.x_need("%s: the %s factor is not null" % (fn, kind), 1 - p.null)
        self.check_stale(p)
        if not r or r["kind"] != kind:
            raise Undecided("factor argument")
        return r

    def u_make(self, out, kind, n, mat):
        buf = self.fresh_buf("umf_" + kind)
        g = self.fresh_gen(buf)
        self.umf[buf] = dict(kind=kind, n=n, mat=mat)
        self.u_live(1)
        self.storev(self.u_cell(out), Ptr(buf, (), P(0), g))

    def u_cell(self, p):
        if isinstance(p, PtrL):
            return p.lv
        raise Undecided("handle argument %r" % (p,))

    def u_free(self, fn, p, kind):
        lv = self.u_cell(p)
        v = self.load(lv)
        if v is UNINIT:
            self.ev_record("uninit")
            raise Undecided("uninitialised handle")
        if not isinstance(v, Ptr):
            raise Undecided("handle %r" % (v,))
        if v.buf is not None and v.null.const != 1:
            r = self.umf.get(v.buf)
            self.x_need("%s: a %s factor" % (fn, kind), v.null if not (r and r["kind"] == kind) else P(1))
            live = 1 - v.null
            g = self.st.gens.get(v.buf)
            if g is not None and v.gen is not None and g is not v.gen:
                self.ev_record("stale", buf=v.buf, ptr=v, cond=mul(live, ne0(v.gen - g)))
            new = P(next(IN._cnt))
            self.st.gens[v.buf] = new if v.null.const == 0 else ite(v.null, g, new)
            self.u_live(0 - live)
        self.storev(lv, Ptr(None, (), P(0), None, P(1)))

    def x_umfpack_di_defaults(self, control):
        self.x_arr("umfpack_di_defaults", "Control", control, P(20), "range_write")
        self.range_write(control, P(20), lambda i: sel("umf.default", (i,)))

    def x_umfpack_di_symbolic(self, n, m, ap, ai, ax, out, control, info):
        fn = "umfpack_di_symbolic"
        n, m = self.x_scalar(n), self.x_scalar(m)
        self.x_need(fn + ": n_row > 0 and n_col > 0", and_(lt(P(0), n), lt(P(0), m)))
        mat = self.u_matrix(fn, m, ap, ai, ax)
        self.u_controls(fn, control, info)
        self.u_make(out, "symbolic", m, mat)
        return P(0)

    def x_umfpack_di_numeric(self, ap, ai, ax, symb, out, control, info):
        fn = "umfpack_di_numeric"
        r = self.u_factor(fn, symb, "symbolic")
        mat = self.u_matrix(fn, r["n"], ap, ai, ax)
        self.u_same(fn, r["n"], mat, r["mat"])
        self.u_controls(fn, control, info)
        self.u_make(out, "numeric", r["n"], mat)
        return P(0)

    def x_umfpack_di_free_symbolic(self, p):
        self.u_free("umfpack_di_free_symbolic", p, "symbolic")

    def x_umfpack_di_free_numeric(self, p):
        self.u_free("umfpack_di_free_numeric", p, "numeric")

    def x_umfpack_di_report_info(self, control, info):
        self.u_controls("umfpack_di_report_info", control, info)

    def x_umfpack_di_report_status(self, control, status):
        pass

    def x_umfpack_di_solve(self, sys, ap, ai, ax, x, b, num, control, info):
        fn = "umfpack_di_solve"
        sys = self.x_scalar(sys)
        r = self.u_factor(fn, num, "numeric")
        n = r["n"]
        mat = self.u_matrix(fn, n, ap, ai, ax)
        self.u_same(fn, n, mat, r["mat"])
        self.u_controls(fn, control, info)
        self.x_arr(fn, "B", b, n, "range_read")
        self.x_arr(fn, "X", x, n, "range_write")
        if x.buf == b.buf:
            self.x_need(fn + ": the output is not the right-hand side", P(0))
        # At and Aat are the same for real matrices
        mode = ite(eq(sys, P(2)), P(1), sys)
        # the solution belongs to the matrix the factor stands for
        self.set_content(x, self.u_solution(mode, n, r["mat"], self.content(b)), n)
        return P(0)

    def u_canon(self, a, cnt):
        """one representative per content: entries below cnt decide what the array stands for"""
        some = lt(P(0), cnt)
        for b, k in self.u_reps:
            if b is a:
                return b
            if k is cnt:
                v = fresh_var()
                TM.FACTS.vub[v] = cnt - 1
                if mul(some, read(a, (P(v),))) is mul(some, read(b, (P(v),))):
                    return b
        self.u_reps.append((a, cnt))
        return a

    def u_solution(self, mode, n, mat, rhs):
        mat = tuple(self.u_canon(a, k) for a, k in zip(mat[:3], (n + 1, mat[3], mat[3]))) + (mat[3],)
        rhs = self.u_canon(rhs, n)
        nm = "umfsolve<%d,%d,%d,%d,%d>" % (mode.uid, mat[0].uid, mat[1].uid, mat[2].uid, rhs.uid)
        if self.ctx is not None:
            def f(m, idx, mode=mode, n=n, mat=mat, rhs=rhs):
                k = int(m.ev(n))
                nz = int(m.ev(mat[3]))
                rd = lambda a, c: tuple(m.rd(a, (i,), {}) for i in range(min(max(c, 0), 64)))
                return m.h("umf", m.ev(mode), rd(mat[0], k + 1), rd(mat[1], nz), rd(mat[2], nz), rd(rhs, k),
                           tuple(int(i) for i in idx)) % 23 - 11
            self.ctx.model["arrays"][nm] = ("fn", f)
        return arr_sym(nm)
