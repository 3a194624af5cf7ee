"""Contracts and effects of the BLAS/LAPACK entry points /repo declares.

Each call is checked against the documented argument contract (character options,
leading dimensions, sizes of every array that is read or written, workspace length)
and its result is a closed form (dgemm) or an uninterpreted function of the exact
operands (factorisations): two results are equal when the operand contents are."""
from interp import *
import interp as IN
from terms import *
import terms as TM
from stdmodel import Std


class Lapack(Std):
    ctx = None

    # ---- arguments
    def x_scalar(self, a, t="int"):
        if isinstance(a, Poly):
            return a
        if isinstance(a, str):
            return P(ord(a))
        if isinstance(a, PtrL):
            v = self.load(a.lv)
        elif isinstance(a, Ptr) and a.buf is not None:
            self.ev_access(a)
            v = read(self.harr(a.buf, ()), a.pre + (a.off,))
        else:
            raise Undecided("scalar argument %r" % (a,))
        if not isinstance(v, Poly):
            if v is UNINIT:
                self.ev_record("uninit")
            raise Undecided("scalar argument value %r" % (v,))
        return v

    def x_char(self, a):
        if isinstance(a, Opq) and a.why.startswith("string:"):
            return a.why[7:8].upper()
        c = self.x_scalar(a).const
        if c is None:
            raise Undecided("character option")
        return chr(int(c)).upper()

    def x_set(self, a, v):
        if a is None:
            return
        if isinstance(a, PtrL):
            self.storev(a.lv, P(v))
        elif isinstance(a, Ptr) and a.buf is not None:
            self.range_write(a, P(1), lambda i: P(v))
        else:
            raise Undecided("output argument %r" % (a,))

    def x_need(self, name, cond):
        """a documented requirement of the call"""
        self.ev_record("contract", cond=cond, text=name)

    def x_opt(self, fn, nm, ch, allowed):
        if ch not in allowed:
            self.x_need("%s: option %s" % (fn, nm), P(0))
            raise Undecided("option %s=%r of %s" % (nm, ch, fn))

    def x_mat(self, fn, nm, p, r, c, ld, kind):
        """r x c column-major matrix with leading dimension ld"""
        self.x_need("%s: leading dimension of %s >= max(1, rows)" % (fn, nm), and_(le(P(1), ld), le(r, ld)))
        cnt = mul(mul(lt(P(0), r), lt(P(0), c)), mul(c - 1, ld) + r)
        self.x_arr(fn, nm, p, cnt, kind)

    def x_arr(self, fn, nm, p, cnt, kind):
        if p is None:
            return
        if isinstance(p, PtrL):
            self.x_need("%s: %s has %s elements" % (fn, nm, show(cnt)), le(cnt, P(1)))
            return
        if not isinstance(p, Ptr) or p.buf is None:
            self.x_need("%s: %s is not null" % (fn, nm), le(cnt, P(0)))
            return
        self.check_stale(p)
        self.ev_access(p, cnt, kind)

    def content(self, p):
        """contents of the array seen from p on"""
        a = arr_slice(self.harr(p.buf, ()), p.pre)
        return a if p.off.const == 0 else arr_shift(a, p.off)

    def opaque(self, tag, content, cnt, extra=()):
        """array whose entries are an unknown function of (content[0..cnt), extra)"""
        # the name depends on the entries [0, cnt) only
        cnt = P(cnt)
        v = var("n'op%d" % cnt.uid)
        TM.FACTS.vub.setdefault(v, cnt - 1)
        e = read(content, (P(v),))
        nm = "%s<%d,%s>" % (tag, e.uid if isinstance(e, Poly) else content.uid, ",".join(str(x.uid) for x in extra))
        if self.ctx is not None:
            def f(m, idx, content=content, cnt=cnt, extra=extra):
                n = int(m.ev(cnt))
                vals = tuple(m.rd(content, (k,), {}) for k in range(min(n, 64)))
                return m.h(tag, vals, tuple(m.ev(x) for x in extra), tuple(int(i) for i in idx)) % 23 - 11
            self.ctx.model["arrays"][nm] = ("fn", f)
        return arr_sym(nm)

    def set_content(self, p, arr, cnt):
        self.st.heap[(p.buf, ())] = arr_log(self.harr(p.buf, ()), (self._copyloop(p, arr, cnt),))

    def _copyloop(self, p, arr, cnt):
        v = fresh_var()
        TM.FACTS.vub[v] = cnt - 1
        return mk_loop(v, cnt, (("w", P(1), p.pre + (p.off + P(v),), read(arr, (P(v),))),))

    def extern_call(self, q, args, n, fn, fr):
        m = getattr(self, "x_" + q, None) if q.endswith("_") or q.startswith(("umfpack_", "METIS_")) else None
        if m is None:
            return self.foreign(q, args, n)
        return m(*args)

    # ---- BLAS
    def x_dgemm_(self, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc):
        ta, tb = self.x_char(ta), self.x_char(tb)
        self.x_opt("dgemm", "transA", ta, "NTC")
        self.x_opt("dgemm", "transB", tb, "NTC")
        m, n, k, lda, ldb, ldc, alpha, beta = [self.x_scalar(x) for x in (m, n, k, lda, ldb, ldc, alpha, beta)]
        ar, ac = (m, k) if ta == "N" else (k, m)
        br, bc = (k, n) if tb == "N" else (n, k)
        for nm, x in (("M", m), ("N", n), ("K", k)):
            self.x_need("dgemm: %s >= 0" % nm, le(P(0), x))
        self.x_mat("dgemm", "A", A, ar, ac, lda, "range_read")
        self.x_mat("dgemm", "B", B, br, bc, ldb, "range_read")
        self.x_mat("dgemm", "C", C, m, n, ldc, "range_write")
        if C.buf in (A.buf, B.buf):
            self.x_need("dgemm: output array is not an operand", P(0))
            raise Undecided("dgemm output aliases an operand")
        i, j, s = fresh_var(), fresh_var(), fresh_var()
        for v, b in ((i, m), (j, n), (s, k)):
            TM.FACTS.vub[v] = b - 1
        fa, fb = self.range_read(A, None), self.range_read(B, None)
        a = fa(P(i) + mul(P(s), lda)) if ta == "N" else fa(P(s) + mul(P(i), lda))
        b = fb(P(s) + mul(P(j), ldb)) if tb == "N" else fb(P(j) + mul(P(s), ldb))
        val = mul(alpha, mk_sum(s, k, mul(a, b)))
        if beta.const != 0:
            val = val + mul(beta, P(OLD))
        idx = C.pre + (C.off + P(i) + mul(P(j), ldc),)
        e = mk_loop(j, n, (mk_loop(i, m, (("w", P(1), idx, val),)),))
        self.st.heap[(C.buf, ())] = arr_log(self.harr(C.buf, ()), (e,))

    # ---- LAPACK: factorisations.  A workspace query (lwork == -1) returns a symbolic size.
    def x_query(self, fn, lwork, work, lo, *key):
        """-> True when this is a workspace query"""
        lw = self.x_scalar(lwork)
        nm = "ws.%s<%s>" % (fn, ",".join(str(x.uid) for x in key))
        TM.FACTS.intsel.add(nm)
        if self.ctx is not None:
            self.ctx.model["arrays"][nm] = ("fn", lambda m, idx: max(1, int(m.ev(lo))) + 3)
        w = sym(nm)
        if lw.const is None:
            self.x_need("%s: lwork >= %s" % (fn, show(lo)), le(lo, lw))
            self.x_need("%s: lwork >= 1" % fn, le(P(1), lw))
            self.x_arr(fn, "work", work, lw, "range_write")
            return False
        if lw.const == -1:
            self.x_set(work, w)
            return True
        self.x_need("%s: lwork >= %s" % (fn, show(lo)), and_(le(lo, lw), le(P(1), lw)))
        self.x_arr(fn, "work", work, lw, "range_write")
        return False

    def mn(self, a, b):
        return app("min", P(a), P(b))

    def mxx(self, a, b):
        return app("max", P(a), P(b))

    def x_info(self, info):
        self.x_set(info, 0)

    def x_dgesvd_(self, jobu, jobvt, m, n, A, lda, S, U, ldu, VT, ldvt, work, lwork, info):
        ju, jv = self.x_char(jobu), self.x_char(jobvt)
        self.x_opt("dgesvd", "jobu", ju, "ASON")
        self.x_opt("dgesvd", "jobvt", jv, "ASON")
        if ju == "O" and jv == "O":
            self.x_need("dgesvd: jobu and jobvt are not both 'O'", P(0))
        m, n, lda, ldu, ldvt = [self.x_scalar(x) for x in (m, n, lda, ldu, ldvt)]
        k = self.mn(m, n)
        self.x_need("dgesvd: ldu >= 1", le(P(1), ldu))
        self.x_need("dgesvd: ldvt >= 1", le(P(1), ldvt))
        if self.x_query("dgesvd", lwork, work, self.mxx(scale(k, 3) + self.mxx(m, n), scale(k, 5)), m, n):
            self.x_need("dgesvd: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(m, lda)))
            return
        self.x_mat("dgesvd", "A", A, m, n, lda, "range_write")
        self.x_arr("dgesvd", "S", S, k, "range_write")
        if ju in "AS":
            self.x_mat("dgesvd", "U", U, m, m if ju == "A" else k, ldu, "range_write")
        if jv in "AS":
            self.x_mat("dgesvd", "VT", VT, n if jv == "A" else k, n, ldvt, "range_write")
        if ju != "O" or jv != "N":
            raise Undecided("dgesvd mode")
        c = self.content(A)
        s = self.opaque("svd.S", c, mul(m, n), (m, n))
        u = self.opaque("svd.U", c, mul(m, n), (m, n))
        self.set_content(S, s, k)
        self.set_content(A, u, mul(m, n))
        self.x_info(info)

    def x_dgeqp3_(self, m, n, A, lda, jpvt, tau, work, lwork, info):
        m, n, lda = [self.x_scalar(x) for x in (m, n, lda)]
        k = self.mn(m, n)
        if self.x_query("dgeqp3", lwork, work, scale(n, 3) + 1, m, n):
            self.x_need("dgeqp3: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(m, lda)))
            return
        self.x_mat("dgeqp3", "A", A, m, n, lda, "range_write")
        self.x_arr("dgeqp3", "jpvt", jpvt, n, "range_write")
        self.x_arr("dgeqp3", "tau", tau, k, "range_write")
        c, jp = self.content(A), self.content(jpvt)
        f = self.opaque("qr.F", c, mul(m, n), (m, n, mk_sum0(n, lambda i: ne0(read(jp, (i,))))))
        t = self.opaque("qr.tau", c, mul(m, n), (m, n, mk_sum0(n, lambda i: ne0(read(jp, (i,))))))
        self.set_content(A, f, mul(m, n))
        self.set_content(tau, t, k)
        self.havoc(jpvt, n, "jpvt")
        self.x_info(info)

    def havoc(self, p, n, hint):
        self._hv = getattr(self, "_hv", 0) + 1
        nm = "%s~%d" % (hint, self._hv)
        if self.ctx is not None:
            self.ctx.model["arrays"][nm] = ("int",)
        self.set_content(p, arr_sym(nm), n)

    def x_dorgqr_(self, m, n, k, A, lda, tau, work, lwork, info):
        m, n, k, lda = [self.x_scalar(x) for x in (m, n, k, lda)]
        self.x_need("dorgqr: 0 <= N <= M", and_(le(P(0), n), le(n, m)))
        self.x_need("dorgqr: 0 <= K <= N", and_(le(P(0), k), le(k, n)))
        if self.x_query("dorgqr", lwork, work, n, m, n, k):
            self.x_need("dorgqr: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(m, lda)))
            return
        self.x_mat("dorgqr", "A", A, m, n, lda, "range_write")
        self.x_arr("dorgqr", "tau", tau, k, "range_read")
        c, t = self.content(A), self.content(tau)
        q = self.opaque("qr.Q", c, mul(m, n), (m, n, k, mk_sum0(k, lambda i: mul(i + 1, read(t, (i,))))))
        self.set_content(A, q, mul(m, n))
        self.x_info(info)

    def x_dgetrf_(self, m, n, A, lda, ipiv, info):
        m, n, lda = [self.x_scalar(x) for x in (m, n, lda)]
        k = self.mn(m, n)
        self.x_mat("dgetrf", "A", A, m, n, lda, "range_write")
        self.x_arr("dgetrf", "ipiv", ipiv, k, "range_write")
        c = self.content(A)
        f = self.opaque("lu.F", c, mul(m, n), (m, n))
        p = self.opaque("lu.P", c, mul(m, n), (m, n))
        self.set_content(A, f, mul(m, n))
        self.set_content(ipiv, p, k)
        self.x_info(info)

    def x_dgetri_(self, n, A, lda, ipiv, work, lwork, info):
        n, lda = [self.x_scalar(x) for x in (n, lda)]
        if self.x_query("dgetri", lwork, work, n, n):
            self.x_need("dgetri: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(n, lda)))
            return
        self.x_mat("dgetri", "A", A, n, n, lda, "range_write")
        self.x_arr("dgetri", "ipiv", ipiv, n, "range_read")
        c, t = self.content(A), self.content(ipiv)
        q = self.opaque("lu.I", c, mul(n, n), (n, mk_sum0(n, lambda i: mul(i + 1, read(t, (i,))))))
        self.set_content(A, q, mul(n, n))
        self.x_info(info)

    # ---- symmetric eigenproblem
    def x_dsytrd_(self, uplo, n, A, lda, d, e, tau, work, lwork, info):
        u = self.x_char(uplo)
        self.x_opt("dsytrd", "uplo", u, "UL")
        n, lda = [self.x_scalar(x) for x in (n, lda)]
        self.x_need("dsytrd: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(n, lda)))
        if self.x_query("dsytrd", lwork, work, P(1), n):
            return
        self.x_mat("dsytrd", "A", A, n, n, lda, "range_write")
        for nm, p, cnt in (("d", d, n), ("e", e, n - 1), ("tau", tau, n - 1)):
            self.x_arr("dsytrd", nm, p, cnt, "range_write")
        c = self.content(A)
        out = [(t, self.opaque("trd." + t + u, c, mul(n, n), (n,))) for t in ("A", "d", "e", "tau")]
        for (t, o), (p, cnt) in zip(out, ((A, mul(n, n)), (d, n), (e, n - 1), (tau, n - 1))):
            self.set_content(p, o, cnt)
        self.x_info(info)

    def x_dsterf_(self, n, d, e, info):
        n = self.x_scalar(n)
        self.x_arr("dsterf", "d", d, n, "range_write")
        self.x_arr("dsterf", "e", e, n - 1, "range_write")
        c, x = self.content(d), self.content(e)
        w = self.opaque("sterf.w", c, n, (n, mk_sum0(n - 1, lambda i: mul(i + 1, read(x, (i,))))))
        self.set_content(d, w, n)
        self.havoc(e, n - 1, "sterf.e")
        self.x_info(info)

    def x_dstein_(self, n, d, e, m, w, iblock, isplit, z, ldz, work, iwork, ifail, info):
        n, m, ldz = [self.x_scalar(x) for x in (n, m, ldz)]
        self.x_need("dstein: 0 <= M <= N", and_(le(P(0), m), le(m, n)))
        for nm, p, cnt in (("d", d, n), ("e", e, n - 1), ("w", w, m), ("iblock", iblock, n), ("isplit", isplit, P(1))):
            self.x_arr("dstein", nm, p, cnt, "range_read")
        self.x_mat("dstein", "Z", z, n, m, ldz, "range_write")
        for nm, p, cnt in (("work", work, scale(n, 5)), ("iwork", iwork, n), ("ifail", ifail, m)):
            self.x_arr("dstein", nm, p, cnt, "range_write")
        ib, sp = self.content(iblock), self.content(isplit)
        self.x_need("dstein: isplit[0] is the matrix size (one block)", eq(read(sp, (P(0),)), n))
        self.x_need("dstein: every eigenvalue wanted belongs to block 1", eq(mk_sum0(m, lambda i: ne0(read(ib, (i,)) - 1)), 0))
        c, x, ww = self.content(d), self.content(e), self.content(w)
        zz = self.opaque("stein.z", c, n, (n, m, mk_sum0(n - 1, lambda i: mul(i + 1, read(x, (i,)))),
                                           mk_sum0(m, lambda i: mul(i + 1, read(ww, (i,))))))
        self.set_content(z, zz, mul(n, m))
        self.havoc(work, scale(n, 5), "work")
        self.x_info(info)

    def x_dormtr_(self, side, uplo, trans, m, n, A, lda, tau, C, ldc, work, lwork, info):
        s, u, t = self.x_char(side), self.x_char(uplo), self.x_char(trans)
        self.x_opt("dormtr", "side", s, "LR")
        self.x_opt("dormtr", "uplo", u, "UL")
        self.x_opt("dormtr", "trans", t, "NT")
        m, n, lda, ldc = [self.x_scalar(x) for x in (m, n, lda, ldc)]
        nq = m if s == "L" else n
        self.x_need("dormtr: leading dimension of A >= max(1, rows)", and_(le(P(1), lda), le(nq, lda)))
        self.x_need("dormtr: leading dimension of C >= max(1, rows)", and_(le(P(1), ldc), le(m, ldc)))
        if self.x_query("dormtr" + s, lwork, work, n if s == "L" else m, m, n):
            return
        self.x_mat("dormtr", "A", A, nq, nq, lda, "range_read")
        self.x_arr("dormtr", "tau", tau, nq - 1, "range_read")
        self.x_mat("dormtr", "C", C, m, n, ldc, "range_write")
        a, ta, c = self.content(A), self.content(tau), self.content(C)
        q = self.opaque("ormtr" + s + u + t, c, mul(m, n),
                        (m, n, mk_sum0(mul(nq, nq), lambda i: mul(i + 1, read(a, (i,)))),
                         mk_sum0(nq - 1, lambda i: mul(i + 1, read(ta, (i,))))))
        self.set_content(C, q, mul(m, n))
        self.x_info(info)


def mk_sum0(n, f):
    k = fresh_var()
    return mk_sum(k, n, f(P(k)))
