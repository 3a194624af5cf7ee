"""C13: the direct solver solves with its own matrix and owns its factorisation."""
from spec import *
from c02 import S, size
import umfpack
from umfpack import LIVE
from terms import read

SS = "SparseSolver"
probe("c13_make", "SparseSolver", "const SM& A", "return SparseSolver(A);")
probe("c13_none", "SparseSolver", "", "return SparseSolver();")
probe("c13_sort", "void", "SM& A", "A.SortIndices();")
probe("c13_mult", "void", "const SparseSolver& s, const VW& b, VW& x", "s.Mult(b, x);")
probe("c13_multat", "void", "const SparseSolver& s, const VW& b, VW& x", "s.MultAT(b, x);")
probe("c13_end", "void", "SparseSolver& s", "s.~SparseSolver();")
probe("c13_copy", "SparseSolver", "const SparseSolver& s", "return SparseSolver(s);")
probe("c13_move", "SparseSolver", "SparseSolver& s", "return SparseSolver(std::move(s));")
probe("c13_assign", "void", "SparseSolver& s, const SparseSolver& t", "s = t;")
probe("c13_massign", "void", "SparseSolver& s, SparseSolver& t", "s = std::move(t);")
probe("c13_swap", "void", "SparseSolver& s, SparseSolver& t", "swap(s, t);")
probe("c13_size", "int", "const SparseSolver& s", "return s.Rows() * 1000 + s.Cols();")
probe("c13_ap", "const IV&", "const SM& A", "return A.GetIndptr();")
probe("c13_ai", "const IV&", "const SM& A", "return A.GetIndices();")
probe("c13_ax", "const RV&", "const SM& A", "return A.GetData();")


class Sys(object):
    """a square matrix, its solver and what the solver has to return"""

    def __init__(self, c, nm):
        self.c, self.nm = c, nm
        self.n = c.dim("n" + nm, 1)
        self.A = c.obj(c.sparse(nm, self.n, self.n))
        q, c.I.quiet = c.I.quiet, True
        B = c.obj(c.sparse(nm, self.n, self.n))
        c.call("c13_sort", B)
        v = [c.I.load(c.call("c13_" + k, B)) for k in ("ap", "ai", "ax")]
        self.mat = tuple(c.I.content(Ptr(x.buf, x.pre, P(0))) for x in v) + (read(c.I.content(Ptr(v[0].buf, v[0].pre, P(0))), (self.n,)),)
        c.I.quiet = q

    def solver(self):
        return self.c.obj(self.c.call("c13_make", self.A))

    def solves(self, rec, what, s, how="mult", n=None):
        c, n = self.c, self.n
        k = len(rec.res)
        b, x = c.obj(c.view("b%d" % k, n)), c.obj(c.view("x%d" % k, n))
        c.call("c13_" + how, s, b, x)
        i = c.idx("i%d" % k, n)
        sol = c.I.u_solution(P(1 if how == "mult" else 0), n, self.mat, TM.arr_sym("b%d" % k))
        rec.eq(what, c.view_get(x, i), ite(lt(P(0), self.mat[3]), read(sol, (i,)), P(0)))
        rec.eq(what + ": right-hand side unchanged", c.view_get(b, i), sel("b%d" % k, (i,)))

    @property
    def held(self):
        return lt(P(0), self.mat[3])


def live(c):
    return c.I.st.store[LIVE]


def ob13(label):
    def deco(fn):
        def f(c, rec):
            c.ev0 = len(c.I.events)
            fn(c, rec)
        add_ob("C13", label, f)
        return f
    return deco


for HOW, TXT in (("mult", "Mult solves with the matrix"), ("multat", "MultAT solves with the transpose")):
    @ob13(TXT)
    def solve(c, rec, HOW=HOW):
        A = Sys(c, "A")
        s = A.solver()
        rec.eq("shape", c.call("c13_size", s), A.n * 1000 + A.n)
        A.solves(rec, "solution", s, HOW)
        A.solves(rec, "solution of a second system", s, HOW)
        rec.eq("one factorisation is held", live(c), A.held)
        c.call("c13_end", s)
        rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("copies are independent of their source")
def copies(c, rec):
    A = Sys(c, "A")
    s = A.solver()
    t = c.obj(c.call("c13_copy", s))
    A.solves(rec, "the copy solves", t)
    c.call("c13_end", s)
    A.solves(rec, "the copy solves after its source is gone", t)
    c.call("c13_end", t)
    rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("copies do not disturb their source")
def copies2(c, rec):
    A = Sys(c, "A")
    s = A.solver()
    t = c.obj(c.call("c13_copy", s))
    c.call("c13_end", t)
    A.solves(rec, "the source solves after its copy is gone", s)
    A.solves(rec, "the source solves the transpose", s, "multat")
    c.call("c13_end", s)
    rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("moving hands the factorisation over")
def moves(c, rec):
    A = Sys(c, "A")
    s = A.solver()
    t = c.obj(c.call("c13_move", s))
    rec.eq("the source is empty", c.call("c13_size", s), P(0))
    rec.eq("one factorisation is held", live(c), A.held)
    c.call("c13_end", s)
    rec.eq("shape", c.call("c13_size", t), A.n * 1000 + A.n)
    A.solves(rec, "the target solves after the source is gone", t)
    c.call("c13_end", t)
    rec.eq("nothing is held after destruction", live(c), P(0))


for HOW in ("assign", "massign"):
    @ob13({"assign": "copy assignment", "massign": "move assignment"}[HOW])
    def assigns(c, rec, HOW=HOW):
        A, B = Sys(c, "A"), Sys(c, "B")
        s, t = A.solver(), B.solver()
        c.call("c13_" + HOW, t, s)
        rec.eq("shape", c.call("c13_size", t), A.n * 1000 + A.n)
        rec.eq("the replaced factorisation is released", live(c), A.held * (2 if HOW == "assign" else 1))
        A.solves(rec, "the target solves with the new matrix", t)
        if HOW == "assign":
            A.solves(rec, "the source still solves", s)
        c.call("c13_end", s)
        A.solves(rec, "the target solves the transpose after the source is gone", t, "multat")
        c.call("c13_end", t)
        rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("assigning a solver to itself")
def selfassign(c, rec):
    A = Sys(c, "A")
    s = A.solver()
    c.call("c13_assign", s, s)
    A.solves(rec, "it still solves", s)
    c.call("c13_end", s)
    rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("swap exchanges both solvers")
def swaps(c, rec):
    A, B = Sys(c, "A"), Sys(c, "B")
    s, t = A.solver(), B.solver()
    c.call("c13_swap", s, t)
    rec.eq("shape of the first", c.call("c13_size", s), B.n * 1000 + B.n)
    rec.eq("shape of the second", c.call("c13_size", t), A.n * 1000 + A.n)
    B.solves(rec, "the first solves with the second's matrix", s)
    A.solves(rec, "the second solves with the first's matrix", t)
    c.call("c13_end", s)
    A.solves(rec, "the second solves after the first is gone", t, "multat")
    c.call("c13_end", t)
    rec.eq("nothing is held after destruction", live(c), P(0))


@ob13("a default constructed solver")
def default(c, rec):
    s = c.obj(c.call("c13_none"))
    rec.eq("shape", c.call("c13_size", s), P(0))
    rec.eq("nothing is held", live(c), P(0))
    A = Sys(c, "A")
    t = A.solver()
    c.call("c13_assign", s, t)
    A.solves(rec, "it solves after it was assigned", s)
    u = c.obj(c.call("c13_none"))
    c.call("c13_massign", s, u)
    rec.eq("shape after an empty solver was moved in", c.call("c13_size", s), P(0))
    c.call("c13_end", u)
    c.call("c13_end", t)
    c.call("c13_end", s)
    rec.eq("nothing is held after destruction", live(c), P(0))
