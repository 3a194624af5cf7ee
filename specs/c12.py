"""C12: calls into BLAS and LAPACK respect their contracts, and the factorisation routines
return the LAPACK result for exactly the matrix they were given."""
from spec import *
from c02 import dget, size
from lapack import mk_sum0
import c03

probe("c12_svd", "RV", "DM& A", "return A.SVD();")
probe("c12_svd2", "RV", "const DM& A, DM& U", "return A.SVD(U);")
probe("c12_qr", "void", "DM& A", "A.QR();")
probe("c12_qr2", "void", "const DM& A, DM& Q", "A.QR(Q);")
probe("c12_inv", "void", "DM& A", "A.Invert();")
probe("c12_inv2", "void", "const DM& A, DM& B", "A.Invert(B);")


def vecof(c, I, n, et="double"):
    v = I.new_vec(c.t(et), P(n))
    return Ptr(v.buf, v.pre, 0)


def copyD(c, I, n, m):
    """a second array with the contents of the input matrix D"""
    buf = I.fresh_buf("D")
    I.st.heap[(buf, ())] = arr_sym("D")
    I.blen0[buf] = mul(n, m)
    return Ptr(buf, (), 0)


def at(I, p, i):
    return read(I.content(p), (i,))


def ref_svd(c, n, m):
    I = c.I
    A, S = copyD(c, I, n, m), vecof(c, I, app("min", n, m))
    I.x_dgesvd_("O", "N", n, m, A, n, S, None, P(1), None, P(1), None, sym("big"), None)
    return A, S


def ref_qr(c, n, m):
    I = c.I
    k = app("min", n, m)
    A, jp, tau = copyD(c, I, n, m), vecof(c, I, m, "int"), vecof(c, I, k)
    I.x_dgeqp3_(n, m, A, n, jp, tau, None, sym("big"), None)
    I.x_dorgqr_(n, k, k, A, n, tau, None, sym("big"), None)
    return A


def ref_inv(c, n):
    I = c.I
    A, ip = copyD(c, I, n, n), vecof(c, I, n, "int")
    I.x_dgetrf_(n, n, A, n, ip, None)
    I.x_dgetri_(n, A, n, ip, None, sym("big"), None)
    return A


def fact(label, nm, kind, out, lo=0):
    def f(c, rec):
        n = c.dim("n", lo)
        m = n if kind == "inv" else c.dim("m", lo)
        A = c.obj(c.dense("D", n, m))
        o = c.obj(c.dense("O", c.dim("p"), c.dim("q"))) if out else A
        c.ev0 = len(c.I.events)
        r = c.call(nm, A, o) if out else c.call(nm, A)
        ev1 = len(c.I.events)
        rows, cols = n, m
        if kind == "qr":
            cols = ite(mul(lt(P(0), n), lt(P(0), m)), app("min", n, m), m)
        size(c, rec, o, rows, cols)
        i, j = c.idx("i", n), c.idx("j", app("min", n, m))
        if out:
            rec.eq("the matrix itself is unchanged", dget(c, A, i, j), sel("D", (i + mul(j, n),)))
        got = dget(c, o, i, j)
        sv = c.obj(r) if kind == "svd" else None
        ss = c.I.load(sv) if sv else None
        q = c.I.quiet
        c.I.quiet = True
        if kind == "svd":
            rec.eq("number of singular values", ss.len, app("min", n, m))
            U, S = ref_svd(c, n, m)
            rec.eq("singular values", c.get(sv, j), at(c.I, S, j))
            rec.eq("U", got, at(c.I, U, i + mul(j, n)))
        elif kind == "qr":
            rec.eq("Q", got, at(c.I, ref_qr(c, n, m), i + mul(j, n)))
        else:
            rec.eq("inverse", got, at(c.I, ref_inv(c, n), i + mul(j, n)))
        c.I.quiet = q
    add_ob("C12", label, f)


fact("DenseMatrix::SVD()", "c12_svd", "svd", False)
fact("DenseMatrix::SVD(U)", "c12_svd2", "svd", True)
fact("DenseMatrix::QR()", "c12_qr", "qr", False)
fact("DenseMatrix::QR(Q)", "c12_qr2", "qr", True)
fact("DenseMatrix::Invert()", "c12_inv", "inv", False)
fact("DenseMatrix::Invert(inv)", "c12_inv2", "inv", True)


# --- symmetric eigenproblem
probe("c12_eig", "void", "EigenSolver& S, const DM& A, double tol, int k, EigenPair& out", "S.Solve(A, tol, k, out);")
probe("c12_eigmk", "EigenSolver", "", "return EigenSolver();")
probe("c12_pairmk", "EigenPair", "", "return EigenPair();")


probe("c12_evals", "const RV&", "const EigenPair& p", "return p.first;")
probe("c12_evects", "const DM&", "const EigenPair& p", "return p.second;")


probe("c12_eigr", "EigenPair", "EigenSolver& S, const DM& A, double tol, int k", "return S.Solve(A, tol, k);")
probe("c12_eigsr", "EigenPair", "EigenSolver& S, const SM& A, double tol, int k", "return S.Solve(A, tol, k);")
probe("c12_eigs", "void", "EigenSolver& S, const SM& A, double tol, int k, EigenPair& out", "S.Solve(A, tol, k, out);")


def sparse_as_dense(c, n):
    """a sparse matrix whose dense form (decided by C02) is D"""
    A = c.obj(c.sparse("A", n, n))

    def f(full, this, args):
        o = c.I.load(this, full["cls"]) if isinstance(this, LV) else this
        if len(args) != 0:
            raise Undecided("dense form in an existing matrix")
        c.hits = getattr(c, "hits", 0) + 1
        return c.dense("D", n, n)
    for g in c.p.byq.get("linalgcpp::SparseMatrix::ToDense", []):
        if g.get("body") and not g["params"]:
            c.I.contracts[g["id"]] = f
    return A


def eig(label, before, sparse=False, ret=False):
    def f(c, rec):
        I = c.I
        n = c.dim("n", 1)
        S = c.obj(c.call("c12_eigmk"))
        out = c.obj(c.call("c12_pairmk"))
        for b in range(before):
            n0 = c.dim("w%d" % b, 1)
            c.call("c12_eig", S, c.obj(c.dense("W%d" % b, n0, n0)), P(0), c.int("kw"), c.obj(c.call("c12_pairmk")))
        A = sparse_as_dense(c, n) if sparse else c.obj(c.dense("D", n, n))
        c.ev0 = len(I.events)
        if ret:
            out = c.obj(c.call("c12_eigsr" if sparse else "c12_eigr", S, A, c.real("tol"), c.int("kmax")))
        else:
            c.call("c12_eigs" if sparse else "c12_eig", S, A, c.real("tol"), c.int("kmax"), out)
        if sparse:
            rec.eq("the dense form of the matrix is used", P(getattr(c, "hits", 0)), P(1))
        ev1 = len(I.events)
        w = c.call("c12_evals", out)
        Z = c.call("c12_evects", out)
        q = I.quiet
        I.quiet = True
        X, d, e, tau, wr = copyD(c, I, n, n), vecof(c, I, n), vecof(c, I, n), vecof(c, I, n), vecof(c, I, n)
        I.x_dsytrd_("U", n, X, n, d, e, tau, None, sym("big"), None)
        I.set_content(wr, I.content(d), n)
        e2 = vecof(c, I, n)
        I.set_content(e2, I.content(e), n)
        I.x_dsterf_(n, wr, e2, None)
        i = c.idx("i", n)
        rec.eq("number of eigenvalues", I.load(w).len, n)
        rec.eq("eigenvalues", c.get(w, i), at(I, wr, i))
        m = c.method(Z, "Cols", [])
        rec.eq("eigenvector rows", c.method(Z, "Rows", []), n)
        K = ite(lt(sym("kmax"), P(0)), n, app("min", sym("kmax"), n))
        rec.true("1 <= eigenvectors <= max(1, min(max_evect, n))", and_(le(P(1), m), le(m, app("max", P(1), K))))
        tol = mul(at(I, wr, n - 1), sym("tol"))
        rec.true("stops at the limit or at the first eigenvalue above the tolerance",
                 1 - mul(lt(m, K), 1 - lt(tol, at(I, wr, m), "r")))
        rec.eq("every eigenvalue before the last one kept is within the tolerance",
               mk_sum0(m - 1, lambda t: lt(tol, at(I, wr, t + 1), "r")), 0)
        one = vecof(c, I, n, "int")
        I.range_write(one, n, lambda t: P(1))
        sp = vecof(c, I, P(1), "int")
        I.range_write(sp, P(1), lambda t: n)
        z = vecof(c, I, mul(n, m))
        I.x_dstein_(n, d, e, m, wr, one, sp, z, n, vecof(c, I, n), None, None, None)
        I.x_dormtr_("L", "U", "N", n, m, X, n, tau, z, n, None, sym("big"), None)
        j = c.idx("j", m)
        rec.eq("eigenvectors", dget(c, Z, i, j), at(I, z, i + mul(j, n)))
        I.quiet = q
        del I.events[ev1:]
    add_ob("C12", label, f)


eig("EigenSolver::Solve", 0)
eig("EigenSolver::Solve again", 1)
eig("EigenSolver::Solve, returned", 0, False, True)
eig("EigenSolver::Solve(sparse)", 0, True, False)
eig("EigenSolver::Solve(sparse), returned", 0, True, True)
