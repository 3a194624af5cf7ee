"""Obligation context: symbolic inputs built through the public constructors, calls
of library functions, observation through public accessors."""
import terms as TM
from terms import *
from interp import *
from metis import Metis
import interp as IN
from fractions import Fraction

NS = "linalgcpp::"


class Missing(Exception):
    """a public entry point the specification names does not exist (any more)"""


class NoReturn(Exception):
    """every path of the analysed call ends in an abort or exception"""


class SymStd(Metis):
    """symbolic operators: y = M x with an arbitrary matrix M"""

    def sym_method(self, fn, o, args, n):
        h = o.a
        name = fn["q"].split("::")[-1]
        if self.ctx.opaque_ops:
            return self.ctx.opaque_call(h, name, args, fn)
        if name in ("Rows", "Cols"):
            return sel("op.rows#" if name == "Rows" else "op.cols#", (h,))
        if name in ("Mult", "MultAT") and len(args) == 2:
            x, y = args
            x = self.load(x) if isinstance(x, LV) else x
            y = self.load(y) if isinstance(y, LV) else y
            px, nx = self.viewparts(x)
            py, ny = self.viewparts(y)
            rows, cols = sel("op.rows#", (h,)), sel("op.cols#", (h,))
            if name == "MultAT":
                rows, cols = cols, rows
            self.ev_record("symmult", h=h, op=name, nin=nx, nout=ny)
            k = fresh_var()
            fx = self.range_read(px, None)
            def val(i):
                m = sel("op.M", (h, i, P(k))) if name == "Mult" else sel("op.M", (h, P(k), i))
                return mk_sum(k, cols, mul(m, fx(P(k))))
            self.range_write(py, rows, val)
            return None
        raise Undecided("symbolic operator call " + fn["q"])

    def viewparts(self, o):
        d = o.f["data_@linalgcpp::VectorView<double>"]
        s = o.f["size_@linalgcpp::VectorView<double>"]
        return d, s


def spd(m, name, i, k, n):
    """sample entry of a symmetric, diagonally dominant matrix"""
    if i == k:
        return Fraction(2 + m.h(name, i) % 3)
    return Fraction(m.h(name, min(i, k), max(i, k)) % 5 - 2, 2 * max(n, 1))


class Ctx(object):
    def __init__(self, prog):
        self.p = prog
        self.F = TM.reset_facts()
        TM.MAXSIZE = 60000
        self.F.intsel.update(())
        self.I = SymStd(prog)
        self.I.ctx = self
        self.inputs = {}
        self.distinct = True     # no column is stored twice in a row
        self.model = {"dims": [], "arrays": {}}
        self.pre = []
        self.called = False
        self.opaque_ops = {}     # handle -> (name, size) of square operators that are known by their action only
        self.obs_ev = None       # events from here on happen while observing the result
        self.obs_facts = []      # facts that only hold for the observation indices
        self.obs_pre = []        # the observed index exists

    # ---- types
    def t(self, s):
        k = self.p.tkey.get((s, None))
        if k is None:
            raise Missing("type " + s)
        return k

    # ---- symbolic scalars
    def dim(self, name, lo=0):
        """a symbolic nonnegative integer"""
        nm = name + "#"
        p = sym(nm)
        self.model["dims"].append((nm, lo))
        if lo:
            TM.FACTS.assume_ge0(p - lo)
        return p

    def idx(self, name, n):
        """an index with 0 <= i < n"""
        nm = name + "#"
        p = sym(nm)
        self.F.ub[nm] = lambda idxs, n=n: n - 1
        self.model["arrays"][nm] = ("index", n)
        g0 = len(TM.FACTS.ge0)
        TM.FACTS.assume_ge0(n - 1 - p)
        for a in (x for m in n.t for x, _ in m):
            if a.kind == "app" and a.args[0] == "min" and n.t.get(((a, 1),)) == 1:
                for y in a.args[1:]:
                    TM.FACTS.assume_ge0(n - P(a) + y - 1 - p)
        if self.called:
            if self.obs_ev is None:
                self.obs_ev = len(self.I.events)
            self.obs_facts += TM.FACTS.ge0[g0:]
            self.obs_pre.append(le(1, n))
        else:
            self.pre.append(le(1, n))
        return p

    def real(self, name, kind="real"):
        self.model["arrays"][name] = (kind,)
        return sym(name)

    def int(self, name):
        self.F.intsel.add(name)
        self.model["arrays"][name] = ("int",)
        return sym(name)

    def arr(self, name, kind="real", ub=None):
        """declare a symbolic input array"""
        self.model["arrays"][name] = (kind, ub)
        if kind in ("int", "index", "bool"):
            self.F.intsel.add(name)
        if kind in ("index", "bool"):
            self.F.nonneg_sel.add(name)
        if kind in ("perm", "distinct"):
            self.F.intsel.add(name)
            self.F.nonneg_sel.add(name)
            self.F.injective.add(name)
        if kind in ("index", "perm", "distinct"):
            self.F.ub[name] = lambda idxs: ub - 1
        if kind == "bool":
            self.F.ub[name] = lambda idxs: P(1)
        return name

    # ---- values
    def vec(self, name, n, et="double", kind=None, ub=None):
        kind = kind or ("real" if et == "double" else "int")
        self.arr(name, kind, ub)
        buf = self.I.fresh_buf(name)
        self.I.fresh_gen(buf)
        self.I.blen0[buf] = n
        self.I.st.heap[(buf, ())] = arr_sym(name)
        return Vec(n, buf, (), self.t(et))

    def ptr(self, v):
        return Ptr(v.buf, v.pre, 0, self.I.st.gens.get(v.buf))

    def ctor(self, cls, ptypes, args):
        tid = self.t(cls)
        fs = [f for f in self.p.fn.values() if f.get("name") == "{ctor}" and f.get("cls") is not None
              and self.p.unq(f["cls"]) == tid and [self.p.T(x["t"])["s"] for x in f["params"]] == ptypes]
        if not fs:
            raise Missing("constructor %s(%s)" % (cls, ", ".join(ptypes)))
        return self.I.construct(tid, fs[0], args)

    def view(self, name, n, et="double"):
        v = self.vec(name, n, et)
        return self.ctor(NS + "VectorView<%s>" % et, [et + " *", "int"], [self.ptr(v), n])

    def view_of(self, v, et="double"):
        return self.ctor(NS + "VectorView<%s>" % et, [et + " *", "int"], [self.ptr(v), v.len])

    def csr_facts(self, name, rows, cols, prefix_ok=True):
        """declare the arrays of a well-formed compressed-row matrix"""
        P_, J, X = name + ".p", name + ".j", name + ".x"
        F = self.F
        F.intsel.update((P_, J))
        F.nonneg_sel.update((P_, J))
        F.monotone[P_] = True
        F.rewrite[P_] = lambda idxs: P(0) if idxs[-1].const == 0 else None
        F.ub[J] = (lambda idxs: cols(idxs[:-1]) - 1) if callable(cols) else (lambda idxs: cols - 1)
        F.elem.add(J)
        rw = rows if callable(rows) else (lambda pre: rows)
        F.partition[P_] = lambda pre: sel(P_, tuple(pre) + (rw(pre),))
        F.partition_n[P_] = rw
        F.ub[P_] = lambda idxs: sel(P_, idxs[:-1] + (rw(idxs[:-1]),)) if (idxs[-1] - rw(idxs[:-1])).const != 0 else None
        cw = cols if callable(cols) else (lambda pre: cols)
        F.zero_if[P_] = lambda idxs: (P(rw(idxs[:-1])), P(cw(idxs[:-1])))
        def inj(pre, off, n):
            # [off, off+n) is one row
            if len(off.t) != 1:
                return False
            (m, cf), = off.t.items()
            if cf != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "sel" or m[0][0].args[0] != P_:
                return False
            r = m[0][0].args[1][-1]
            return (sel(P_, tuple(pre) + (r + 1,)) - off - n).const == 0
        if self.distinct:
            F.distinct[J] = inj
        o = {"distinct": self.distinct}
        self.model["arrays"][P_] = ("csr.p", name, rows, cols, o)
        self.model["arrays"][J] = ("csr.j", name, rows, cols, o)
        self.model["arrays"][X] = ("csr.x", name, rows, cols, o)
        return P_, J, X

    def sparse(self, name, rows, cols, et="double"):
        P_, J, X = self.csr_facts(name, rows, cols)
        nnz = sel(P_, (rows,))
        vs = []
        for nm, n, e in ((P_, rows + 1, "int"), (J, nnz, "int"), (X, nnz, et)):
            buf = self.I.fresh_buf(nm)
            self.I.fresh_gen(buf)
            self.I.st.heap[(buf, ())] = arr_sym(nm)
            vs.append(Vec(n, buf, (), self.t(e)))
        if et == "int":
            self.F.intsel.add(X)
        return self.ctor(NS + "SparseMatrix<%s>" % et,
                         ["std::vector<int>", "std::vector<int>", "std::vector<%s>" % et, "int", "int"],
                         vs + [rows, cols])

    def lil(self, name, rows, cols, et="double", sized=True):
        """list-of-lists matrix with arbitrary rows (repeated columns allowed)"""
        C, J, X = name + ".c", name + ".j", name + ".x"
        F = self.F
        F.intsel.update((C, J))
        F.nonneg_sel.update((C, J))
        F.ub[J] = lambda idxs: cols - 1
        self.model["arrays"][C] = ("fn", lambda m, idx: m.h(C, idx) % 4 if m.ev(P(cols)) > 0 else 0)
        self.model["arrays"][J] = ("index", cols)
        self.model["arrays"][X] = ("real" if et == "double" else "int",)
        if et == "int":
            F.intsel.add(X)
        cls = NS + "LilMatrix<%s>" % et
        v = self.ctor(cls, ["int", "int"] if sized else [], [rows, cols] if sized else [])
        key = [k for k in v.f if isinstance(v.f[k], Vec)]
        if len(key) != 1:
            raise Missing("row storage of LilMatrix")
        e = v.f[key[0]]
        buf = self.I.fresh_buf(name)
        self.I.fresh_gen(buf)
        self.I.blen0[buf] = rows
        for suf, leaf, d in self.I.bufleaves(e.et):
            nm = {"len": C, "first": J, "second": X}.get(leaf[-1] if leaf else "")
            if nm is None:
                raise Missing("row storage of LilMatrix")
            self.I.st.heap[(buf + suf, leaf)] = arr_sym(nm)
        return v.set(key[0], Vec(rows, buf, (), e.et))

    def lil_entry(self, name, i, j):
        k = fresh_var()
        return mk_sum(k, sel(name + ".c", (i,)), mul(sel(name + ".x", (i, P(k))), eq(sel(name + ".j", (i, P(k))), j)))

    def sp(self, name, rows, i, j):
        """entry (i,j) of the sparse matrix `name` (duplicates summed)"""
        P_, J, X = name + ".p", name + ".j", name + ".x"
        k = fresh_var()
        lo, hi = sel(P_, (i,)), sel(P_, (i + 1,))
        return mk_sum(k, hi - lo, mul(sel(X, (lo + P(k),)), eq(sel(J, (lo + P(k),)), j)))

    def dense(self, name, rows, cols):
        self.arr(name, "real")
        buf = self.I.fresh_buf(name)
        self.I.fresh_gen(buf)
        self.I.st.heap[(buf, ())] = arr_sym(name)
        v = Vec(mul(rows, cols), buf, (), self.t("double"))
        return self.ctor(NS + "DenseMatrix", ["int", "int", "std::vector<double>"], [rows, cols, v])

    # ---- objects and calls
    def obj(self, v, hint="o"):
        if isinstance(v, LV):
            return v
        if self.I.st is None:
            raise NoReturn()
        return self.I.newloc(v, hint)

    def fn(self, q, cls=None, ptypes=None, nparams=None, const=None, targs=None):
        fs = self.p.find(NS + q if not q.startswith("::") else q[2:], cls=cls, ptypes=ptypes, nparams=nparams, const=const)
        fs = [f for f in fs if f.get("body") or f.get("inits")]
        if targs is not None:
            fs = [f for f in fs if [self.p.T(x)["s"] for x in (f.get("targs") or []) if isinstance(x, int)] == targs]
        if not fs:
            raise Missing("%s %s(%s)" % (cls or "", q, ", ".join(ptypes) if ptypes else "?"))
        return fs[0]

    def method(self, obj, name, args, ptypes=None, const=None, cls=None, targs=None):
        """call obj.name(args) resolving in the dynamic class and its bases"""
        v = self.I.load(obj)
        tid = v.t
        todo = [cls and self.t(cls) or tid]
        while todo:
            t = todo.pop(0)
            c = self.p.cls(t)
            if c is None:
                continue
            s = self.p.types[t]["s"]
            rec = self.p.types[t].get("rec", s)
            cand = [f for f in self.p.byq.get(rec + "::" + name, [])
                    if f.get("cls") is not None and self.p.unq(f["cls"]) == t and len(f["params"]) == len(args)
                    and (f.get("body") or f.get("inits"))]
            if ptypes is not None:
                cand = [f for f in cand if [self.p.T(x["t"])["s"] for x in f["params"]] == ptypes]
            if const is not None:
                cand = [f for f in cand if bool(f.get("const")) == const]
            if targs is not None:
                cand = [f for f in cand if [self.p.T(x)["s"] for x in (f.get("targs") or []) if isinstance(x, int)] == targs]
            if cand:
                if len(cand) > 1 and ptypes is None:
                    raise Missing("ambiguous %s::%s/%d: %s" % (s, name, len(args), [[self.p.T(x["t"])["s"] for x in f["params"]] for f in cand]))
                return self._ret(self.I.call(cand[0], obj, args))
            todo += c["bases"]
        raise Missing("%s::%s/%d %s" % (self.p.types[tid]["s"], name, len(args), ptypes))

    def call(self, name, *args):
        """call a probe (namespace vprobe)"""
        fs = self.p.byq.get("vprobe::" + name, [])
        if not fs:
            raise Missing("probe %s: %s" % (name, self.p.lost.get(name, "")))
        self.called = True
        return self._ret(self.I.call(fs[0], None, list(args)))

    def _ret(self, r):
        if self.I.st is None:
            raise NoReturn()
        return r

    def get(self, obj, i, et="double"):
        """element i of a vector-like object through its begin()"""
        v = self.I.load(obj) if isinstance(obj, LV) else obj
        if isinstance(v, Vec):
            return read(self.I.harr(v.buf, ()), v.pre + (i,))
        raise Missing("element access")

    def view_get(self, obj, i):
        """element i seen through VectorView::operator[] const"""
        lv = self.obj(obj)
        r = self.method(lv, "operator[]", [i], const=True)
        return self.I.load(r, self.elem_t(lv))

    def elem_t(self, lv):
        v = self.I.load(lv)
        for k, t in self.p.fields(v.t):
            if k.startswith("data_@linalgcpp::VectorView"):
                return self.p.elem(t)
        return self.t("double")

    def view_size(self, obj):
        return self.method(self.obj(obj), "size", [])

    # ---- block structured inputs
    def offsets(self, name, n):
        """symbolic nondecreasing offsets, n+1 of them, starting at 0 -> vector value"""
        F = self.F
        F.intsel.add(name)
        F.nonneg_sel.add(name)
        F.monotone[name] = True
        F.rewrite[name] = lambda idxs: P(0) if idxs[-1].const == 0 else None
        F.partition[name] = lambda pre: sel(name, (P(n),))
        F.partition_n[name] = lambda pre: P(n)
        F.ub[name] = lambda idxs: sel(name, (P(n),)) if (idxs[-1] - n).const != 0 else None
        self.model["arrays"][name] = ("offsets",)
        buf = self.I.fresh_buf(name)
        self.I.fresh_gen(buf)
        self.I.blen0[buf] = P(n) + 1
        self.I.st.heap[(buf, ())] = arr_sym(name)
        return Vec(P(n) + 1, buf, (), self.t("int"))

    def sparse_pre(self, name, pre, rows, cols, et="double"):
        """member `pre` of a family of sparse matrices declared with csr_facts"""
        P_, J, X = name + ".p", name + ".j", name + ".x"
        nnz = sel(P_, tuple(pre) + (rows,))
        vs = []
        for nm, n, e in ((P_, rows + 1, "int"), (J, nnz, "int"), (X, nnz, et)):
            buf = self.I.fresh_buf(nm)
            self.I.fresh_gen(buf)
            self.I.blen0[buf] = n
            self.I.st.heap[(buf, ())] = arr_sym(nm, tuple(pre))
            vs.append(Vec(n, buf, (), self.t(e)))
        return self.ctor(NS + "SparseMatrix<%s>" % et,
                         ["std::vector<int>", "std::vector<int>", "std::vector<%s>" % et, "int", "int"],
                         vs + [rows, cols])

    def spx(self, name, pre, i, j):
        """entry (i,j) of the family member `pre`"""
        P_, J, X = name + ".p", name + ".j", name + ".x"
        k = fresh_var()
        pre = tuple(pre)
        lo, hi = sel(P_, pre + (i,)), sel(P_, pre + (i + 1,))
        return mk_sum(k, hi - lo, mul(sel(X, pre + (lo + P(k),)), eq(sel(J, pre + (lo + P(k),)), j)))

    # ---- operators and inner products known only by their action
    def opaque_op(self, name, n):
        """square operator `name` of size n -> object; apply(f) is its action on the vector f"""
        h = P(len(self.opaque_ops) + 1)
        self.opaque_ops[h.const] = (name, n)
        t = self.t(NS + "Operator")
        f = {k: UNINIT for k, _ in self.p.fields(t)}
        for k in f:
            if k.split("@")[0] in ("rows_", "cols_"):
                f[k] = P(n)
        f["#h"] = h
        return self.obj(Obj(t, f), name)

    def content(self, f, n):
        k = fresh_var()
        TM.FACTS.vub[k] = n - 1
        return arr_lam([k], f(P(k)))

    def apply(self, name, f, n):
        arr = self.content(f, n)
        nm = "%s<%d>" % (name, arr.uid)

        def val(m, idx):
            d = int(m.ev(n))
            xs = m.memo.get(("vec", arr.uid))
            if xs is None:
                xs = m.memo[("vec", arr.uid)] = [m.rd(arr, (k,), {}) for k in range(d)]
            i = int(idx[0])
            return sum((spd(m, name, i, k, d) * x for k, x in enumerate(xs)), 0)
        self.model["arrays"][nm] = ("fn", val)
        return lambda i: sel(nm, (i,))

    def dot(self, name, f, g, n):
        a, b = self.content(f, n), self.content(g, n)
        if a.uid > b.uid:
            a, b = b, a
        nm = "%s<%d,%d>" % (name, a.uid, b.uid)

        def val(m, idx):
            d = int(m.ev(n))
            v = []
            for x in (a, b):
                if ("vec", x.uid) not in m.memo:
                    m.memo[("vec", x.uid)] = [m.rd(x, (k,), {}) for k in range(d)]
                v.append(m.memo[("vec", x.uid)])
            if name == "InnerProduct":
                return sum((x * y for x, y in zip(*v)), 0)
            return sum((spd(m, name, i, k, d) * x * y for i, x in enumerate(v[0]) for k, y in enumerate(v[1])), 0)
        self.model["arrays"][nm] = ("fn", val)
        return sel(nm)

    def opaque_call(self, h, name, args, fn):
        nm, n = self.opaque_ops[h.const]
        if name in ("Rows", "Cols"):
            return P(n)
        if name in ("Mult", "MultAT") and len(args) == 2:
            I = self.I
            x, y = [I.load(a) if isinstance(a, LV) else a for a in args]
            px, nx = I.viewparts(x)
            py, ny = I.viewparts(y)
            I.ev_record("contract", cond=and_(eq(nx, n), eq(ny, n)), text="operator applied to vectors of its size")
            if px.buf == py.buf:
                raise Undecided("operator applied in place")
            I.ev_access(px, n, "range_read")
            g = self.apply(nm if name == "Mult" else nm + "^T", I.range_read(px, None), n)
            I.range_write(py, P(n), g)
            return None
        raise Undecided("operator call " + fn["q"])

    # ---- symbolic operators
    def op_family(self, rows, cols, C):
        """operators op(i,j) with rows(i) x cols(j) entries op.M[h, r, k]; handles are never null"""
        F = self.F
        F.intsel.add("hd")
        F.nonneg_sel.add("hd")
        self.model["arrays"]["hd"] = ("fn", lambda m, idx: int(idx[0]) * 50 + int(idx[1]))
        self.model["arrays"]["op.M"] = ("real",)

        def which(h):
            q = h - 1
            if len(q.t) == 1:
                (m, cf), = q.t.items()
                if cf == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and m[0][0].args[0] == "hd":
                    return m[0][0].args[1]
            return None

        def mk(f, ax):
            def g(idxs):
                w = which(idxs[0])
                return None if w is None else f(w[ax])
            return g
        F.rewrite["op.rows#"] = mk(rows, 0)
        F.rewrite["op.cols#"] = mk(cols, 1)

        def val(f, ax):
            def g(m, idx):
                h = int(idx[0]) - 1
                if h < 0:
                    return 0
                return m.ev(f(P((h // 50, h % 50)[ax])))
            return g
        self.model["arrays"]["op.rows#"] = ("fn", val(rows, 0))
        self.model["arrays"]["op.cols#"] = ("fn", val(cols, 1))

    def op(self, i, j):
        return LV("h", sel("hd", (i, j)) + 1)

    def op_entry(self, i, j, r, k):
        return sel("op.M", (sel("hd", (i, j)) + 1, r, k))
