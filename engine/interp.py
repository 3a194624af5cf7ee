"""Abstract interpreter: maps the resolved AST of /repo to value graphs.

The abstract domain is a store of closed-form terms (terms.py).  Branches are
evaluated on both sides and joined with Iverson brackets; a loop is summarised
into closed form (trip count, induction variables, sums, last values, extrema,
single-scalar recurrences and array write logs).  No statement is executed on
concrete values and no path is enumerated.  Whatever has no closed form becomes
Unknown (or raises Undecided) and the obligation that needs it is undecided.
"""
from fractions import Fraction
import itertools
from terms import *
import terms as TM
import marker

_cnt = itertools.count(1)



def replace_in_entries(entries, amap):
    out = []
    for e in entries:
        if e[0] == "loop":
            v, n, sub = open_loop(e)
            out.append(mk_loop(v, replace_arrs(n, amap), replace_in_entries(sub, amap)))
        else:
            out.append(tuple(replace_arrs(x, amap) if isinstance(x, (Poly, tuple, Arr)) else x for x in e))
    return tuple(out)


def flat_args(x):
    """the direct array/term arguments of a node, looking through tuples"""
    out = []
    for y in x:
        if isinstance(y, tuple):
            out += flat_args(y)
        else:
            out.append(y)
    return out


class Undecided(Exception):
    pass


class LV(object):
    """lvalue: ('l', loc, path) | ('e', buf, idxs, path) | ('h', handle term)"""
    __slots__ = ("k", "a", "b", "c")

    def __init__(self, k, a, b=(), c=()):
        self.k, self.a, self.b, self.c = k, a, b, c

    def sub(self, key):
        if self.k == "l":
            return LV("l", self.a, self.b + (key,))
        if self.k == "e":
            return LV("e", self.a, self.b, self.c + (key,))
        raise Undecided("member of symbolic operator")

    def same(self, o):
        return isinstance(o, LV) and self.k == o.k and self.a == o.a and self.b == o.b and self.c == o.c

    def __repr__(self):
        return "LV%r" % ((self.k, self.a, self.b, self.c),)


class Ptr(object):
    __slots__ = ("buf", "pre", "off", "gen", "null")

    def __init__(self, buf, pre, off, gen=None, null=None):
        self.buf, self.pre, self.off, self.gen = buf, tuple(pre), P(off), None if gen is None else P(gen)
        self.null = null if null is not None else P(0)

    def at(self, off):
        return Ptr(self.buf, self.pre, off, self.gen, self.null)

    def eqv(self, o):
        return (isinstance(o, Ptr) and self.buf == o.buf and self.pre == o.pre and self.off is o.off
                and self.gen is o.gen and self.null is o.null)

    def __repr__(self):
        return "Ptr(%s%s+%s)" % (self.buf, list(self.pre) if self.pre else "", self.off)


class PtrL(object):
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def eqv(self, o):
        return isinstance(o, PtrL) and self.lv.same(o.lv)


class Vec(object):
    __slots__ = ("len", "buf", "pre", "et")

    def __init__(self, len_, buf, pre, et):
        self.len, self.buf, self.pre, self.et = P(len_), buf, tuple(pre), et

    def eqv(self, o):
        return isinstance(o, Vec) and self.len is o.len and self.buf == o.buf and self.pre == o.pre

    def __repr__(self):
        return "Vec(%s,len=%s)" % (self.buf, self.len)


class Obj(object):
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.t, f)

    def eqv(self, o):
        return isinstance(o, Obj) and self.t == o.t and self.f.keys() == o.f.keys() and all(same(v, o.f[k]) for k, v in self.f.items())

    def __repr__(self):
        return "Obj(%r)" % (self.f,)


class Clo(object):
    def __init__(self, node, fr):
        self.node, self.fr = node, fr

    def eqv(self, o):
        return self is o


class Opq(object):
    """an unmodelled value"""

    def __init__(self, why):
        self.why = why

    def eqv(self, o):
        return self is o

    def __repr__(self):
        return "Opq(%s)" % self.why


class FnV(object):
    def __init__(self, fn):
        self.fn = fn

    def eqv(self, o):
        return isinstance(o, FnV) and o.fn.get("id") == self.fn.get("id")


class ExtFn(object):
    """a function supplied by the user of the library: its effect is a Python function"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def eqv(self, o):
        return self is o


UNINIT = Opq("uninitialised")


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) or isinstance(b, Poly):
        return False
    return a.eqv(b) if hasattr(a, "eqv") else False


class St(object):
    __slots__ = ("store", "heap", "gens", "pc")

    def __init__(self):
        self.store, self.heap, self.gens, self.pc = {}, {}, {}, P(1)

    def copy(self):
        s = St()
        s.store, s.heap, s.gens, s.pc = dict(self.store), dict(self.heap), dict(self.gens), self.pc
        return s


class Fr(object):
    def __init__(self, fn, this=None):
        self.fn, self.this = fn, this
        self.env = {}
        self.outs = {"break": [], "continue": [], "return": []}
        self.ret = None
        self.parent = None
        self.dtors = []


def iter_int(x):
    return "q'%d" % next(_cnt) if x else "r'%d" % next(_cnt)


class Interp(object):
    watch = None        # state to compare with when an event is recorded

    def __init__(self, prog):
        self.p = prog
        self.st = St()
        self.events = []
        self.quiet = 0
        self.pcs = []
        self.blen0 = {}
        self.loops = []      # enclosing (t, N)
        self.depth = 0
        self.caps = {}
        self.frames = None       # record what calls of the library may not change
        self.no_throw = False    # what follows a check that throws is looked at for the case that it did not
        self.thrown = False
        self.unroll = 0          # follow loops with a known condition iteration by iteration, at most so many
        self.contracts = {}      # function id -> summary used instead of its body
        self.handles = {}
        self.line = None
        self.cur = []
        self.steps = 0
        self.symops = {}     # handle-kind hooks
        self.notes = []
        self.on_call = None
        self.callstack = []
        self._vt = {}
        self._dtors = {}
        self.touched = set()

    # ------------------------------------------------------------ helpers
    def ev_record(self, kind, **kw):
        if self.quiet:
            return
        pc = self.st.pc
        for q in self.pcs:
            pc = mul(pc, q)
        f = self.callstack[-1] if self.callstack else None
        kw.update(kind=kind, pc=pc, loops=list(self.loops), fn=f, line=self.line, seq=len(self.events))
        if self.watch is not None:
            kw["dirty"] = self.changed_since(self.watch)
        self.events.append(kw)

    def changed_since(self, st):
        """has anything that existed in state st been written since"""
        return any(self.st.store.get(k) is not v for k, v in st.store.items()) or \
            any(self.st.heap.get(k) is not v for k, v in st.heap.items())

    def fresh_buf(self, hint="b"):
        return "%s~%d" % (hint, next(_cnt))

    def fresh_gen(self, buf):
        g = P(next(_cnt))
        self.st.gens[buf] = g
        return g

    def check_stale(self, p):
        """record the use of a pointer/iterator into storage that was reallocated since"""
        g = self.st.gens.get(p.buf)
        if p.gen is not None and g is not None and g is not p.gen:
            p.buf in self.caps or self.ev_record("stale", buf=p.buf, ptr=p, cond=ne0(p.gen - g))

    def newloc(self, v, hint="x"):
        l = "%s%d" % (hint, next(_cnt))
        self.st.store[l] = v
        return LV("l", l)

    # ------------------------------------------------------------ type driven layout
    def bufleaves(self, et):
        """[(buffer suffix, leaf path, number of index dims beyond the outer)] for element type et"""
        p = self.p
        out = []

        def go(t, suf, path, dims):
            k = p.kind(t)
            if k in ("num", "ptr", "fnptr"):
                out.append((suf, path, dims))
            elif k == "vec":
                out.append((suf, path + ("len",), dims))
                go(p.elem(t), suf + "/" + ".".join(path), (), dims + 1)
            elif k in ("ours", "tuple", "pair"):
                fs = p.fields(t)
                if fs is None:
                    out.append((suf, path + ("?",), dims))
                    return
                for key, ft in fs:
                    go(ft, suf, path + (key,), dims)
            else:
                out.append((suf, path, dims))
        go(et, "", (), 1)
        return out

    def harr(self, buf, leaf):
        a = self.st.heap.get((buf, leaf))
        if a is None:
            a = mkarr("uninit", buf, leaf)
        return a

    def new_vec(self, et, n, zero=True, hint="v"):
        buf = self.fresh_buf(hint)
        self.fresh_gen(buf)
        for suf, leaf, d in self.bufleaves(et):
            self.st.heap[(buf + suf, leaf)] = arr_const(0, d) if zero else mkarr("uninit", buf + suf, leaf)
        if zero and self.p.kind(et) == "ours":
            v = self.default_value(et)
            self.const_fill(buf, et, v)
        return Vec(n, buf, (), et)

    def const_fill(self, buf, et, v):
        p = self.p

        def go(t, suf, path, dims, val):
            k = p.kind(t)
            if k in ("num", "ptr"):
                vs = [fresh_var() for _ in range(dims)]
                if isinstance(val, Poly):
                    self.st.heap[(buf + suf, path)] = arr_lam(vs, val)
                else:
                    self.st.heap[(buf + suf, path)] = self.ptr_arr(val, dims)
            elif k == "vec":
                if not isinstance(val, Vec):
                    raise Undecided("fill with opaque vector")
                vs = [fresh_var() for _ in range(dims)]
                self.st.heap[(buf + suf, path + ("len",))] = arr_lam(vs, val.len)
                nb = suf + "/" + ".".join(path)
                for s2, leaf, d in self.bufleaves(val.et):
                    ws = [fresh_var() for _ in range(dims + d)]
                    body = read(self.harr(val.buf + s2, leaf), val.pre + tuple(P(w) for w in ws[dims:]))
                    self.st.heap[(buf + nb + s2, leaf)] = arr_lam(ws, body)
            elif k in ("ours", "tuple", "pair"):
                for key, ft in p.fields(t):
                    go(ft, suf, path + (key,), dims, val.f.get(key, UNINIT) if isinstance(val, Obj) else UNINIT)
        go(et, "", (), 1, v)

    def ptr_arr(self, val, dims):
        if isinstance(val, Opq):
            return mkarr("uninit", "p%d" % next(_cnt), ())
        vs = [fresh_var() for _ in range(dims)]
        return arr_lam(vs, self.to_handle(val))

    def to_handle(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ptr) and v.null.const == 1:
            return P(0)
        if isinstance(v, PtrL):
            for h, lv in self.handles.items():
                if lv.same(v.lv):
                    return P(h)
            h = -1000 - len(self.handles)
            self.handles[h] = v.lv
            return P(h)
        raise Undecided("pointer stored in a container")

    def default_value(self, t, zero=True):
        """value-initialised object of type t"""
        p = self.p
        k = p.kind(t)
        if k == "num":
            return P(0) if zero else UNINIT
        if k in ("ptr", "fnptr"):
            return self.nullptr(t) if zero else UNINIT
        if k == "iter":
            return UNINIT
        if k == "vec":
            return self.new_vec(p.elem(t), 0)
        if k in ("tuple", "pair"):
            return Obj(p.unq(t), {key: self.default_value(ft, zero) for key, ft in p.fields(t)})
        if k == "ours":
            c = p.cls(t)
            if c is None:
                return Opq(p.ts(t)["s"])
            f = self.find_ctor(t, "defctor")
            return self.construct(t, f, [])
        return Opq(p.ts(t)["s"])

    def nullptr(self, t=None):
        if t is not None and self.is_oper_ptr(t):
            return P(0)
        return Ptr(None, (), 0, None, P(1))

    def is_oper_ptr(self, t):
        t = self.p.ts(t)
        return t["k"] == "ptr" and self.p.kind(t["to"]) == "ours"

    def find_ctor(self, t, flag):
        c = self.p.cls(t)
        if c is None:
            return None
        for m in c["methods"]:
            if m.get(flag) and not m.get("deleted"):
                f = self.p.fn.get(m["id"])
                return f if f is not None else m
        return None

    def blank(self, t):
        fs = self.p.fields(t)
        if fs is None:
            raise Undecided("layout of " + self.p.ts(t)["s"])
        return Obj(self.p.unq(t), {k: UNINIT for k, _ in fs})

    # ------------------------------------------------------------ load / store
    def load(self, lv, t=None):
        if lv.k == "l":
            v = self.st.store[lv.a]
            for key in lv.b:
                if isinstance(v, Opq):
                    return Opq(v.why)
                if isinstance(v, Vec):
                    raise Undecided("path into vector")
                v = v.f.get(key)
                if v is None:
                    raise Undecided("no field %s" % (key,))
            return v
        if lv.k == "e":
            return self.load_elem(lv.a, lv.b, lv.c, t)
        raise Undecided("load of symbolic operator")

    def load_elem(self, buf, idxs, path, t):
        p = self.p
        if t is None:
            raise Undecided("untyped element load")
        k = p.kind(t)
        if k == "num":
            return read(self.harr(buf, path), idxs)
        if k == "ptr":
            return read(self.harr(buf, path), idxs)
        if k == "vec":
            ln = read(self.harr(buf, path + ("len",)), idxs)
            return Vec(ln, buf + "/" + ".".join(path), idxs, p.elem(t))
        if k in ("ours", "tuple", "pair"):
            fs = p.fields(t)
            if fs is None:
                return Opq("element")
            return Obj(p.unq(t), {key: self.load_elem(buf, idxs, path + (key,), ft) for key, ft in fs})
        return Opq("element of type " + p.ts(t)["s"])

    def storev(self, lv, v, t=None):
        if lv.k == "l":
            if not lv.b:
                self.st.store[lv.a] = v
                return
            root = self.st.store[lv.a]
            self.st.store[lv.a] = self._upd(root, lv.b, v)
            return
        if lv.k == "e":
            self.store_elem(lv.a, lv.b, lv.c, v, t)
            return
        raise Undecided("store to symbolic operator")

    def _upd(self, root, path, v):
        if not path:
            return v
        if not isinstance(root, Obj):
            raise Undecided("store into opaque object")
        return root.set(path[0], self._upd(root.f.get(path[0]), path[1:], v))

    def store_elem(self, buf, idxs, path, v, t):
        p = self.p
        k = p.kind(t) if t is not None else ("num" if isinstance(v, Poly) else "?")
        if isinstance(v, Poly):
            self.st.heap[(buf, path)] = write(self.harr(buf, path), idxs, v)
        elif isinstance(v, Vec):
            self.st.heap[(buf, path + ("len",))] = write(self.harr(buf, path + ("len",)), idxs, v.len)
            nb = buf + "/" + ".".join(path)
            if nb == v.buf and tuple(v.pre) == tuple(idxs):
                return
            self.copy_contents(v, nb, idxs)
        elif isinstance(v, Obj):
            for key, ft in p.fields(v.t):
                self.store_elem(buf, idxs, path + (key,), v.f[key], ft)
        elif isinstance(v, (Ptr, PtrL)) and k == "ptr":
            self.st.heap[(buf, path)] = write(self.harr(buf, path), idxs, self.to_handle(v))
        elif v is UNINIT:
            self.st.heap[(buf, path)] = write(self.harr(buf, path), idxs, unknown("uninitialised value stored"))
        else:
            self.st.heap[(buf, path)] = write(self.harr(buf, path), idxs, unknown("opaque value stored: %r" % (v,)))

    def copy_contents(self, v, dbuf, dpre):
        for suf, leaf, d in self.bufleaves(v.et):
            a = arr_slice(self.harr(v.buf + suf, leaf), v.pre)
            if not dpre:
                self.st.heap[(dbuf + suf, leaf)] = a
            else:
                self.st.heap[(dbuf + suf, leaf)] = arr_log(self.harr(dbuf + suf, leaf), (("bulk", P(1), tuple(dpre), a),))

    def copy_value(self, v, t=None):
        if isinstance(v, Vec):
            b = self.fresh_buf("v")
            self.fresh_gen(b)
            self.copy_contents(v, b, ())
            return Vec(v.len, b, (), v.et)
        if isinstance(v, Obj):
            return Obj(v.t, {k: self.copy_value(x) for k, x in v.f.items()})
        return v

    # ------------------------------------------------------------ joins
    def mergeval(self, c, a, b, sa, sb, out):
        if same(a, b):
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            null = ite(c, a.null, b.null)
            if a.null.const == 1:
                return Ptr(b.buf, b.pre, b.off, b.gen, null)
            if b.null.const == 1:
                return Ptr(a.buf, a.pre, a.off, a.gen, null)
            if a.buf == b.buf and len(a.pre) == len(b.pre):
                return Ptr(a.buf, tuple(ite(c, x, y) for x, y in zip(a.pre, b.pre)), ite(c, a.off, b.off),
                           None if a.gen is None or b.gen is None else ite(c, a.gen, b.gen), null)
            return Opq("pointer to one of two buffers %r %r %r" % (c, a, b))
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.buf == b.buf and a.pre == b.pre:
                return Vec(ite(c, a.len, b.len), a.buf, a.pre, a.et)
            nb = self.fresh_buf("m")
            out.gens[nb] = P(next(_cnt))
            for suf, leaf, d in self.bufleaves(a.et):
                x = arr_slice(sa.heap.get((a.buf + suf, leaf), mkarr("uninit", a.buf, leaf)), a.pre)
                y = arr_slice(sb.heap.get((b.buf + suf, leaf), mkarr("uninit", b.buf, leaf)), b.pre)
                out.heap[(nb + suf, leaf)] = arr_ite(c, x, y)
            return Vec(ite(c, a.len, b.len), nb, (), a.et)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.f.keys() == b.f.keys():
            return Obj(a.t, {k: self.mergeval(c, a.f[k], b.f[k], sa, sb, out) for k in a.f})
        if isinstance(a, PtrL) and isinstance(b, PtrL):
            return ite(c, self.to_handle(a), self.to_handle(b))
        if isinstance(a, (PtrL, Poly)) and isinstance(b, (PtrL, Poly, Ptr)) or isinstance(b, (PtrL, Poly)) and isinstance(a, Ptr):
            try:
                return ite(c, self.to_handle(a), self.to_handle(b))
            except Undecided:
                pass
        if a is UNINIT or b is UNINIT:
            o = b if a is UNINIT else a
            if isinstance(o, Poly):
                return ite(c, a, b) if False else unknown("maybe uninitialised")
        if isinstance(a, LV) and isinstance(b, LV):
            if a.same(b):
                return a
        return Opq("join")

    def merge(self, c, a, b):
        """a under c, b under not c"""
        if a is None:
            return b
        if b is None:
            return a
        out = St()
        out.pc = a.pc + b.pc
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None or w is v:
                out.heap[k] = v
            else:
                out.heap[k] = arr_ite(c, v, w)
        for k, w in b.heap.items():
            if k not in out.heap:
                out.heap[k] = w
        for k, v in a.gens.items():
            w = b.gens.get(k, v)
            out.gens[k] = v if v is w else ite(c, v, w)
        for k, w in b.gens.items():
            if k not in out.gens:
                out.gens[k] = w
        for k, v in a.store.items():
            if k in b.store:
                out.store[k] = self.mergeval(c, v, b.store[k], a, b, out)
            else:
                out.store[k] = v
        for k, v in b.store.items():
            if k not in out.store:
                out.store[k] = v
        return out

    def fork(self, c, fthen, felse):
        """run both sides from the current state, join; each returns a value (or None)"""
        if c.const is not None:
            return fthen() if c.const != 0 else felse()
        s0 = self.st
        s1 = s0.copy()
        s1.pc = mul(s0.pc, c)
        self.st = s1
        self.thrown = False
        v1 = fthen()
        e1 = self.st
        t1, self.thrown = self.thrown and e1 is None, False
        s2 = s0.copy()
        s2.pc = mul(s0.pc, 1 - c)
        self.st = s2
        v2 = felse()
        e2 = self.st
        if self.no_throw and e1 is None and t1 and e2 is not None and (e2.pc - mul(s0.pc, 1 - c)).const == 0:
            e2.pc = s0.pc
        if self.no_throw and e2 is None and self.thrown and e1 is not None and (e1.pc - mul(s0.pc, c)).const == 0:
            e1.pc = s0.pc
        self.st = self.merge(c, e1, e2)
        if e1 is None:
            return v2
        if e2 is None:
            return v1
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        return self.mergeval(c, v1, v2, e1, e2, self.st)

    # ------------------------------------------------------------ statements
    def ex(self, s, fr):
        if self.st is None or s is None:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("step budget")
        if "l" in s:
            self.line = s["l"]
        m = getattr(self, "s_" + s["k"], None)
        if m is not None:
            m(s, fr)
        else:
            self.ev(s, fr)

    def s_CompoundStmt(self, s, fr):
        for x in s["c"]:
            if self.st is None:
                return
            self.ex(x, fr)

    def s_NullStmt(self, s, fr):
        pass

    def s_AttributedStmt(self, s, fr):
        for x in s.get("c", []):
            self.ex(x, fr)

    def s_DeclStmt(self, s, fr):
        for v in s["vars"]:
            self.decl(v, fr)

    def decl(self, v, fr):
        p = self.p
        t = v.get("t")
        if t is None:
            return
        T = p.T(t)
        init = v.get("init")
        if T["k"] in ("ref", "rref"):
            r = self.ev(init, fr)
            if not isinstance(r, LV):
                r = self.newloc(r)
            fr.env[v["id"]] = r
            return
        if init is None:
            if T["k"] == "array":
                b = self.fresh_buf("a")
                self.fresh_gen(b)
                val = Vec(T.get("n", 0), b, (), p.unq(T["to"]))
            else:
                val = UNINIT if p.kind(t) in ("num", "ptr") else self.default_value(t)
        else:
            val = self.ev(init, fr)
            if isinstance(val, LV):
                val = self.load(val, t)
            val = self.coerce(val, t)
        lv = fr.env[v["id"]] = self.newloc(val, (v.get("name") or "v") + "'")
        d = self.owner_dtor(t)
        if d is not None:
            fr.dtors.append((lv, d))

    def owner_dtor(self, t):
        """the destructor of a class that releases something itself"""
        if self.p.kind(t) != "ours" or self.is_ref(t):
            return None
        k = self.p.unq(t)
        if k not in self._dtors:
            self._dtors[k] = None
            for f in self.p.fn.values():
                if f.get("name") == "{dtor}" and f.get("cls") is not None and self.p.unq(f["cls"]) == k and (f.get("body") or {}).get("c"):
                    self._dtors[k] = f
        return self._dtors[k]

    def coerce(self, val, t):
        if isinstance(val, Poly) and self.p.ts(t)["k"] in ("int", "uint", "char") and not is_int(val):
            return val
        return val

    def s_IfStmt(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        if s.get("var"):
            self.ex(s["var"], fr)
        c = self.cond(s["cond"], fr)
        self.fork(c, lambda: self.ex(s["then"], fr), lambda: self.ex(s.get("else"), fr) if s.get("else") else None)

    def cond(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, LV):
            v = self.load(v, n.get("t"))
        if isinstance(v, Poly):
            if not is_bool(v):
                v = ne0(v)
            return v
        if isinstance(v, Ptr):
            return 1 - v.null
        if isinstance(v, PtrL):
            return P(1)
        self.notes.append("unknown condition line %s: %r" % (n.get("l"), v))
        return P(atom("app", "bool", unknown("condition: %r" % (v,))))

    def s_ReturnStmt(self, s, fr):
        if s.get("e") is not None:
            v = self.ev(s["e"], fr)
            rt = fr.fn.get("ret")
            if isinstance(v, LV) and not s["e"].get("lv") and not self.is_ref(rt):
                v = self.load(v, s["e"].get("t"))
            if not self.is_ref(rt) and isinstance(v, LV):
                v = self.load(v, rt)
            if self.st is None:
                return
        else:
            v = None
        if self.st is None:
            return
        self.st.store[("ret", id(fr))] = v
        fr.outs["return"].append(self.st)
        self.st = None

    def is_ref(self, t):
        return t is not None and self.p.T(t)["k"] in ("ref", "rref")

    def s_BreakStmt(self, s, fr):
        fr.outs["break"].append(self.st)
        self.st = None

    def s_ContinueStmt(self, s, fr):
        fr.outs["continue"].append(self.st)
        self.st = None

    def s_ForStmt(self, s, fr):
        if s.get("init"):
            self.ex(s["init"], fr)
        self.loop_node(s.get("cond"), s.get("body"), s.get("inc"), fr)

    def s_WhileStmt(self, s, fr):
        self.loop_node(s.get("cond"), s.get("body"), None, fr)

    def s_DoStmt(self, s, fr):
        # the first iteration, then a while loop
        st0, outer = self.st, self.st.pc
        self.pcs.append(outer)
        try:
            c, nxt, brks, rets, pre = self.step_of(None, s.get("body"), None, fr)(None)
        finally:
            self.pcs.pop()
        for b in brks + rets:
            b.pc = mul(outer, b.pc)
        fr.outs["return"] += rets
        self.st = nxt
        if nxt is not None:
            nxt.pc = mul(outer, nxt.pc)
            self.loop_node(s.get("cond"), s.get("body"), None, fr)
        for b in reversed(brks):
            self.st = b if self.st is None else self.merge(b.pc, b, self.st)

    def s_SwitchStmt(self, s, fr):
        raise Undecided("switch")

    def s_GotoStmt(self, s, fr):
        raise Undecided("goto")

    def s_CXXTryStmt(self, s, fr):
        raise Undecided("try")

    def s_CXXForRangeStmt(self, s, fr):
        for k in ("init", "range", "begin", "end"):
            if s.get(k):
                self.ex(s[k], fr)

        def body(fr):
            self.ex(s["var"], fr)
            self.ex(s["body"], fr)
        self.loop_node(s["cond"], body, s["inc"], fr)

    def loop_node(self, cond, body, inc, fr):
        self.loop(self.step_of(cond, body, inc, fr), fr)

    def step_of(self, cond, body, inc, fr):
        def step(t):
            sb, sc = fr.outs["break"], fr.outs["continue"]
            sr = fr.outs["return"]
            fr.outs["break"], fr.outs["continue"], fr.outs["return"] = [], [], []
            self.st.pc = P(1)
            try:
                c = self.cond(cond, fr) if cond is not None else P(1)
                pre = self.st.copy()
                if c.const == 0:
                    return c, None, [], [], pre
                if callable(body):
                    body(fr)
                else:
                    self.ex(body, fr)
                cur = self.st
                for s2 in reversed(fr.outs["continue"]):
                    cur = self.merge(s2.pc, s2, cur) if cur is not None else s2
                self.st = cur
                if cur is not None and inc is not None:
                    self.ex(inc, fr)
                return c, self.st, fr.outs["break"], fr.outs["return"], pre
            finally:
                fr.outs["break"], fr.outs["continue"], fr.outs["return"] = sb, sc, sr
        return step

    # ------------------------------------------------------------ loop summarisation
    def leaves(self, v, path=()):
        """flatten a store value into {path: leaf}"""
        if isinstance(v, Obj):
            out = {}
            for k, x in v.f.items():
                out.update(self.leaves(x, path + (k,)))
            return out
        if isinstance(v, Vec):
            return {path + ("#len",): v.len, path + ("#buf",): (v.buf, v.pre)}
        if isinstance(v, Ptr):
            out = {path + ("#off",): v.off, path + ("#null",): v.null, path + ("#pbuf",): (v.buf, v.pre)}
            if v.gen is not None:
                out[path + ("#gen",)] = v.gen
            return out
        return {path: v}

    def setleaf(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if k == "#len":
            return Vec(x, v.buf, v.pre, v.et)
        if k == "#off":
            return v.at(x)
        if k == "#buf":
            return Vec(v.len, x[0], x[1], v.et)
        if k == "#pbuf":
            return Ptr(x[0], x[1], v.off, v.gen, v.null)
        if k == "#gen":
            return Ptr(v.buf, v.pre, v.off, x, v.null)
        if k == "#null":
            return Ptr(v.buf, v.pre, v.off, v.gen, x)
        return v.set(k, self.setleaf(v.f[k], path[1:], x))

    def diff(self, a, b, out):
        """keys of locations existing in a whose value differs in b"""
        for k, v in a.store.items():
            w = b.store.get(k)
            if w is None or w is v:
                continue
            if isinstance(k, tuple):
                continue
            if same(v, w):
                continue
            la, lb = self.leaves(v), self.leaves(w)
            for p in set(la) | set(lb):
                x, y = la.get(p), lb.get(p)
                if x is y or (x is not None and y is not None and (same(x, y) or (not isinstance(x, Poly) and not isinstance(y, Poly) and x == y))):
                    continue
                if x is None or y is None:
                    out.setdefault(("s", k, "*"), None)
                else:
                    out.setdefault(("s", k, p), None)
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is not None and w is not v:
                out.setdefault(("h",) + k, None)
        for k, v in a.gens.items():
            if b.gens.get(k, v) is not v:
                out.setdefault(("g", k), None)

    def getkey(self, st, key):
        if key[0] == "h":
            return st.heap.get((key[1], key[2]))
        if key[0] == "s":
            if key[2] == "*":
                return st.store.get(key[1])
            v = st.store.get(key[1])
            return self.leaves(v).get(key[2])
        return st.gens.get(key[1])

    def setkey(self, st, key, x):
        if key[0] == "h":
            st.heap[(key[1], key[2])] = x
        elif key[0] == "s":
            if key[2] == "*":
                st.store[key[1]] = x
            else:
                st.store[key[1]] = self.setleaf(st.store[key[1]], key[2], x)
        else:
            st.gens[key[1]] = x

    def loop(self, step, fr=None, N=None, tvar=None):
        """step(t) runs one iteration from self.st (pc reset) and returns
        (cond, next state, break states, return states, state after cond)"""
        st0 = self.st
        outer_pc = st0.pc
        self.pcs.append(outer_pc)
        try:
            if self.unroll and N is None and fr is not None and self._unroll(step, fr, st0, outer_pc):
                return
            self._loop(step, fr, N, st0, outer_pc)
        finally:
            self.pcs.pop()

    def _unroll(self, step, fr, st0, outer_pc):
        """follow the iterations of a loop whose condition is known each time; False: the loop is not of that kind"""
        n0 = len(self.events)
        self.quiet += 1
        try:
            self.st = st0.copy()
            c = step(None)[0]
        finally:
            self.quiet -= 1
            self.st = st0
            del self.events[n0:]
        def real_test(x):
            return isinstance(x, Atom) and x.kind in ("lt0", "eq0") and not is_int(x.args[0])
        if c.const is None and not TM.mentions(c, real_test):
            return False
        here = P(1)              # condition under which this iteration is reached
        brk, ret = [], []
        end = None
        self.st = st0.copy()
        for it in range(self.unroll + 1):
            g = P(1)
            if it or c.const is None:
                s1, n1 = self.st, len(self.events)
                self.quiet += 1
                try:
                    self.st = s1.copy()
                    g = step(None)[0]
                finally:
                    self.quiet -= 1
                    self.st = s1
                    del self.events[n1:]
            self.pcs.append(mul(here, g))
            try:
                c, nxt, brks, rets, pre = step(None)
            finally:
                self.pcs.pop()
            if c.const is None and not TM.mentions(c, real_test):
                # e.g. the first of a symbolic number of iterations
                self.st = st0
                del self.events[n0:]
                return False
            if c.const is None:
                pre.pc = mul(here, 1 - c)
                brk.append(pre)
                here = mul(here, c)
            if c.const == 0:
                end = pre
                end.pc = here
                break
            for b in brks:
                b.pc = mul(here, b.pc)
                brk.append(b)
            for b in rets:
                b.pc = mul(outer_pc, mul(here, b.pc))
                ret.append(b)
            if nxt is None:
                break
            here = mul(here, nxt.pc)
            self.st = nxt
        else:
            raise Undecided("loop runs more than %d times" % self.unroll)
        fr.outs["return"] += ret
        for b in reversed(brk):
            end = b if end is None else self.merge(b.pc, b, end)
        if end is not None:
            end.pc = mul(outer_pc, end.pc)
        self.st = end
        return True

    def _loop(self, step, fr, N, st0, outer_pc):
        ev_quiet = self.quiet
        self.quiet += 1
        phi = {}          # key -> placeholder (Poly of var atom | Arr phi)
        raw = {}          # key -> atom / Arr

        def install(stx, vals):
            for k, v in vals.items():
                if v is not None:
                    self.setkey(stx, k, v)

        def mkphi(k):
            v0 = self.getkey(st0, k)
            if k[0] == "h":
                a = arr_phi("A'%d" % next(_cnt))
                raw[k] = a
                return a
            if isinstance(v0, Poly):
                a = var(("q'%d" if is_int(v0) else "r'%d") % next(_cnt))
                raw[k] = a
                return P(a)
            if v0 is UNINIT or isinstance(v0, Opq):
                a = var("r'%d" % next(_cnt))
                raw[k] = a
                return P(a)
            return None       # unmodelled

        phivals = {}
        t = fresh_var()
        bad = {}
        r = None
        try:
            for it in range(8):
                s = st0.copy()
                s.pc = P(1)
                install(s, phivals)
                self.st = s
                self.loops.append((t, None))
                try:
                    r = step(P(t))
                finally:
                    self.loops.pop()
                c, nxt, brks, rets, pre = r
                M = {}
                base = st0.copy()
                install(base, phivals)
                for x in [nxt] + brks + rets + [pre]:
                    if x is not None:
                        self.diff(base, x, M)
                new = [k for k in M if k not in phivals]
                if not new:
                    break
                adopted = set()
                for k in new:
                    if k[0] == "s" and k[1] not in adopted and self.adopt_null(st0, k, [nxt] + brks + rets + [pre]):
                        adopted.add(k[1])
                for k in new:
                    if k[0] == "s" and k[1] in adopted:
                        continue
                    phivals[k] = mkphi(k)
                    if phivals[k] is None:
                        bad[k] = "modified non-numeric location in loop"
            else:
                raise Undecided("loop footprint does not stabilise")

            def vals_of(stx):
                out = {}
                if stx is None:
                    return out
                for k in phivals:
                    out[k] = self.getkey(stx, k)
                return out

            # a placeholder whose sort turns out to be real
            after = vals_of(nxt)
            for k, a in list(raw.items()):
                if isinstance(a, Atom) and a.args[0].startswith("q'"):
                    v = after.get(k)
                    if isinstance(v, Poly) and not is_int(v):
                        na = var("r'%d" % next(_cnt))
                        raw[k] = na
                        phivals[k] = P(na)
                        it = -1
            if it == -1:
                s = st0.copy()
                s.pc = P(1)
                install(s, phivals)
                self.st = s
                self.loops.append((t, None))
                try:
                    r = step(P(t))
                finally:
                    self.loops.pop()
                c, nxt, brks, rets, pre = r
                after = vals_of(nxt)

            init = {k: self.getkey(st0, k) for k in phivals}
            # ---- induction variables
            sol = {}
            self.solve_ivs(raw, after, init, sol, t)
            smap = {raw[k]: v for k, v in sol.items()}
            c1 = subst(c, smap) if N is None else P(1)
            extra = P(0)
            if N is None:
                N, extra = self.trip(c1, t)
            if N is not None and sol:
                # second pass: known range and induction variables
                t2 = fresh_var()
                TM.FACTS.vub[t2] = N - 1
                ph2 = dict(phivals)
                tm = {t: P(t2)}
                for k in sol:
                    sol[k] = subst(sol[k], tm)
                    ph2[k] = sol[k]
                s = st0.copy()
                s.pc = P(1)
                install(s, ph2)
                self.st = s
                self.loops.append((t2, N))
                try:
                    r = step(P(t2))
                finally:
                    self.loops.pop()
                c, nxt, brks, rets, pre = r
                after = vals_of(nxt)
                extra = subst(extra, tm)
                t = t2
                c1 = c
            elif N is not None:
                t2 = fresh_var()
                TM.FACTS.vub[t2] = N - 1
                s = st0.copy()
                s.pc = P(1)
                install(s, phivals)
                self.st = s
                self.loops.append((t2, N))
                try:
                    r = step(P(t2))
                finally:
                    self.loops.pop()
                c, nxt, brks, rets, pre = r
                after = vals_of(nxt)
                extra = subst(extra, {t: P(t2)})
                t = t2
            # ---- the rest
            ivs = set(sol)
            asol = {}
            T = t
            fsol = None
            if nxt is not None:
                T = self.solve_rest(raw, after, init, sol, asol, t, ivs, bad)
                fsol, fasol = dict(sol), dict(asol)
                for k in sol:
                    sol[k] = subst(sol[k], {T: P(t)})
                for k in asol:
                    asol[k] = subst_arr(asol[k], {T: P(t)})
            else:
                for k in phivals:
                    if k in sol:
                        continue
                    if k[0] == "h":
                        asol[k] = init[k]
                    else:
                        sol[k] = init[k]

            def close_term(x):
                """replace placeholders by their closed forms at iteration t"""
                if isinstance(x, Poly):
                    x = replace_arrs(x, {raw[k]: a for k, a in asol.items() if k in raw},
                                     {raw[k]: v for k, v in sol.items() if k in raw})
                    return x
                if isinstance(x, Arr):
                    return replace_arrs(x, {raw[k]: a for k, a in asol.items() if k in raw},
                                        {raw[k]: v for k, v in sol.items() if k in raw})
                if isinstance(x, tuple):
                    return tuple(close_term(y) if isinstance(y, (Poly, tuple)) else y for y in x)
                return x
            unsolved = set(k for k in raw if k not in sol and k not in asol)
            if N is None:
                why = "no trip count at line %s" % self.line
                for k in list(raw):
                    if k not in ivs or True:
                        pass
                self.quiet = ev_quiet
                return self._loop_unknown(st0, phivals, brks, rets, fr, why, outer_pc)
            K = N
            bconds = []
            if extra.const != 0:
                bconds.append((close_term(extra), pre, "cond"))
            for b in brks:
                bconds.append((close_term(b.pc), b, "break"))
            for b in rets:
                bconds.append((close_term(b.pc), b, "return"))
            if bconds:
                anyb = P(0)
                for pc, b, kind in bconds:
                    anyb = anyb + mul(1 - anyb, pc)
                K = mk_ext("mn", t, N, N, ite(anyb, P(t), N))
            # ---- events: one recording pass over the symbolic iteration
            self.quiet = ev_quiet
            if not self.quiet:
                s = st0.copy()
                s.pc = P(1)
                install(s, phivals)
                for k, v in sol.items():
                    self.setkey(s, k, v)
                for k, a in asol.items():
                    self.setkey(s, k, a)
                TM.FACTS.vub[t] = N - 1
                self.st = s
                xc = close_term(extra)
                if bconds:
                    self.loops.append((t, ite(lt(K, N), K + 1, N)))
                    self.pcs.append(1 - xc)
                else:
                    self.loops.append((t, N))
                    self.pcs.append(P(1))
                try:
                    step(P(t))
                finally:
                    self.loops.pop()
                    self.pcs.pop()

            def at(x, k):
                if isinstance(x, Poly):
                    return subst(x, {t: k, T: k})
                if isinstance(x, Arr):
                    return subst_arr(x, {t: k, T: k})
                if isinstance(x, tuple):
                    return tuple(at(y, k) if isinstance(y, (Poly, tuple)) else y for y in x)
                return x

            def final(k):
                s = st0.copy()
                for key in phivals:
                    if key in sol:
                        self.setkey(s, key, at(sol[key] if fsol is None else fsol[key], k))
                    elif key in asol:
                        self.setkey(s, key, at(asol[key] if fsol is None else fasol[key], k))
                    elif key in bad and key not in raw:
                        self.setkey(s, key, None) if key[0] == "h" else self.poison(s, key, bad[key])
                    elif key[0] == "h":
                        self.setkey(s, key, mkarr("unk", "u%d" % next(_cnt), bad.get(key, "loop")))
                    else:
                        self.setkey(s, key, unknown("loop: %s" % bad.get(key, "no closed form")))
                return s

            end = final(K)
            end.pc = outer_pc
            rstate = None
            if bconds:
                broke = lt(K, N)
                if not anyb.unk and is_bool(anyb):
                    broke = ne0(mk_sum(t, N, anyb))
                for pc, b, kind in reversed(bconds):
                    hit = broke if len(bconds) == 1 else mul(broke, at(pc, K))
                    bs = st0.copy()
                    for key in phivals:
                        x = self.getkey(b, key)
                        if isinstance(x, (Poly, Arr, tuple)):
                            x = at(close_term(x), K)
                        if x is not None:
                            self.setkey(bs, key, x)
                    for key, x in b.store.items():
                        if isinstance(key, tuple) and key not in bs.store:
                            if isinstance(x, Poly):
                                x = at(close_term(x), K)
                            elif x is not None and not isinstance(x, (LV, Clo)):
                                x = Opq("return value from loop")
                            bs.store[key] = x
                    if kind == "return":
                        bs.pc = mul(outer_pc, hit)
                        fr.outs["return"].append(bs)
                        end.pc = end.pc - bs.pc
                    else:
                        pcsum = end.pc
                        bs.pc = P(0)
                        m = self.merge(hit, bs, end)
                        m.pc = pcsum
                        end = m
            self.st = end
        finally:
            self.quiet = ev_quiet

    def adopt_null(self, st0, key, states):
        """a pointer that is null before the loop and points into one buffer inside it:
        give the null pointer that buffer (the buffer of a null pointer is irrelevant)"""
        path = key[2]
        if path == "*":
            paths = [p for p in self.leaves(st0.store[key[1]]) if p and p[-1] == "#pbuf"]
        elif path and path[-1] in ("#pbuf", "#gen", "#null", "#off"):
            paths = [path[:-1] + ("#pbuf",)]
        else:
            return False
        done = False
        for path in paths:
            v = st0.store[key[1]]
            for k in path[:-1]:
                v = v.f.get(k) if isinstance(v, Obj) else None
            if not isinstance(v, Ptr) or v.null.const != 1 or v.buf is not None:
                continue
            for s in states:
                w = s.store.get(key[1]) if s is not None else None
                for k in path[:-1]:
                    w = w.f.get(k) if isinstance(w, Obj) else None
                if isinstance(w, Ptr) and w.buf is not None:
                    nv = Ptr(w.buf, w.pre, 0, P(0) if w.gen is not None else None, P(1))
                    st0.store[key[1]] = self.setleaf2(st0.store[key[1]], path[:-1], nv)
                    done = True
                    break
        return done

    def setleaf2(self, v, path, x):
        return x if not path else v.set(path[0], self.setleaf2(v.f[path[0]], path[1:], x))

    def poison(self, s, key, why):
        s.store[key[1]] = Opq(why)

    def _loop_unknown(self, st0, phivals, brks, rets, fr, why, outer_pc):
        self.notes.append(why)
        s = st0.copy()
        for key, v in phivals.items():
            if key[0] == "g":
                self.setkey(s, key, P(next(_cnt)))
            elif key[0] == "h":
                self.setkey(s, key, mkarr("unk", "u%d" % next(_cnt), why))
            elif v is None:
                self.poison(s, key, why)
            else:
                self.setkey(s, key, unknown(why))
        if rets:
            raise Undecided("return inside a loop without trip count: " + why)
        s.pc = outer_pc
        self.st = s

    def solve_ivs(self, raw, after, init, sol, t):
        for k, a in raw.items():
            if k[0] != "s" or not isinstance(a, Atom):
                continue
            v = after.get(k)
            if not isinstance(v, Poly) or not isinstance(init[k], Poly):
                continue
            d = v - P(a)
            if d.const is not None:
                sol[k] = init[k] + mul(P(t), d)

    def linear(self, p, t):
        """p = a*t + b, a const -> (a, b)"""
        a = Fraction(0)
        rest = {}
        for m, c in p.t.items():
            if any(t in x.free for x, e in m):
                if len(m) == 1 and m[0][0] is t and m[0][1] == 1:
                    a = c
                else:
                    return None
            else:
                rest[m] = c
        return a, TM._mkpoly(rest)

    def trip(self, c, t):
        """number of iterations while c(t); returns (N, extra break condition)"""
        if c.const == 1:
            return None, P(0)
        if c.const == 0:
            return P(0), P(0)
        if c.unk:
            return None, P(0)
        for m in c.t:
            for a, e in m:
                if t not in a.free:
                    continue
                if a.kind == "lt0" and a.args[1] == "i":
                    lin = self.linear(a.args[0], t)
                    if lin is None:
                        continue
                    k, b = lin
                    c0, c1 = assign(c, {a: 0}), assign(c, {a: 1})
                    if c0.const == 0 and k > 0:
                        rest = c1
                        n = app("pos", -b) if k == 1 else app("pos", app("idiv", -b + int(k) - 1, P(k)))
                    elif c1.const == 0 and k < 0:
                        rest = c0
                        # not (k t + b < 0)  <=>  -k t - b - 1 < 0
                        b2, k2 = -b - 1, -k
                        n = app("pos", -b2) if k2 == 1 else app("pos", app("idiv", -b2 + int(k2) - 1, P(k2)))
                    else:
                        continue
                    return n, 1 - rest
                if a.kind == "eq0":
                    lin = self.linear(a.args[0], t)
                    if lin is None:
                        continue
                    k, b = lin
                    c0, c1 = assign(c, {a: 0}), assign(c, {a: 1})
                    if c1.const == 0 and abs(k) == 1:
                        n = scale(b, Fraction(-1) / k)
                        if not nonneg(n):
                            self.notes.append("loop bound assumed >= 0: %s" % show(n))
                        return n, 1 - c0
        # condition independent of t and not const: while(flag) style
        return None, P(0)

    def solve_rest(self, raw, after, init, sol, asol, t, ivs, bad, T=None):
        again = T is None
        arrs = {k: a for k, a in raw.items() if k[0] == "h" and k not in asol}
        scal = {k: a for k, a in raw.items() if k[0] in "sg" and k not in sol}
        allraw = set(raw.values())
        # the closed forms hold at iterations 0..N: their index T may reach N while the body's t stays below
        T = T or fresh_var()
        if t in TM.FACTS.vub:
            TM.FACTS.vub[T] = TM.FACTS.vub[t] + 1
        tt = {T: P(t)}

        def closed(x):
            return replace_arrs(x, {raw[k]: subst_arr(a, tt) for k, a in asol.items()},
                                {raw[k]: subst(v, tt) for k, v in sol.items()})

        def deps(x, own=None):
            found = set()

            def pred(y):
                if y in allraw and y is not own:
                    found.add(y)
                return False
            mentions(x, pred)
            return found
        pend_s, pend_a = dict(scal), dict(arrs)
        for _ in range(len(raw) + 2):
            progress = False
            for k in list(pend_s):
                a = pend_s[k]
                v = after.get(k)
                if not isinstance(v, Poly):
                    bad[k] = "not numeric"
                    del pend_s[k]
                    continue
                v = closed(v)
                solved = set(raw[x] for x in sol) | set(raw[x] for x in asol)
                if deps(v, a) - solved:
                    continue
                x0 = init[k]
                r = self.recur(a, v, x0, t, T)
                if r is None:
                    bad[k] = "no closed form for scalar recurrence"
                    del pend_s[k]
                    continue
                sol[k] = r
                del pend_s[k]
                progress = True
            for k in list(pend_a):
                a = pend_a[k]
                v = after.get(k)
                if not isinstance(v, Arr):
                    bad[k] = "array lost"
                    del pend_a[k]
                    continue
                v = closed(v)
                solved = set(raw[x] for x in sol) | set(raw[x] for x in asol)
                if deps(v, a) - solved:
                    continue
                if "/has" in str(k):
                    v = self.grow_set(a, v)
                r = self.arr_recur(a, v, init[k], t, T)
                if r is None:
                    bad[k] = "loop-carried dependence through an array"
                    del pend_a[k]
                    continue
                asol[k] = r
                del pend_a[k]
                progress = True
            if not progress:
                break
        if pend_a and not pend_s:
            r = self.joint_cells({k: (raw[k], closed(after[k]), init[k]) for k in pend_a if isinstance(after.get(k), Arr)}, t, T)
            if r is not None and len(r) == len(pend_a):
                asol.update(r)
                pend_a = {}
        for k in list(pend_s) + list(pend_a):
            bad[k] = "mutually dependent recurrence"
        if self.recs:
            rest = [k for k in raw if k not in sol and k not in asol]
            if rest:
                nxt = {k: closed(after[k]) if isinstance(after.get(k), (Poly, Arr)) else None for k in rest}
                r = marker.rounds(self, rest, raw, nxt, init, t, T) if again else None
                sols, asols = ({}, {}) if r else (sol, asol)
                self.system(rest, raw, nxt, init, sols, asols, t, T, bad)
                if r:
                    mk = r.pop("marker")
                    if mk in asols:
                        r[mk] = asols[mk]
                    end = r.pop("end")
                    nxt = {k: replace_arrs(x, {}, end) if x is not None else x for k, x in nxt.items()}
                    for k, x in r.items():
                        bad.pop(k, None)
                        (asol if k[0] == "h" else sol)[k] = x
                    # what depends on them may have a closed form now
                    self.solve_rest(raw, nxt, init, sol, asol, t, ivs, bad, T)
        return T

    recs = True

    def system(self, ks, raw, after, init, sol, asol, t, T, bad):
        """no closed form: the locations stand for the states of a system of recurrences"""
        for k in ks:
            kind = Arr if k[0] == "h" else Poly
            if not isinstance(after[k], kind) or not isinstance(init[k], kind) or after[k].unk or init[k].unk:
                return
        own = set(raw[k] for k in ks)
        free, phis = set(), set()

        def pred(y):
            if isinstance(y, Arr) and y.kind == "phi" and y not in own:
                phis.add(y)
            return False
        for k in ks:
            free |= set(a for a in after[k].free if a is not t and a not in own)
            mentions(after[k], pred)
        free, phis = sorted(free, key=lambda a: a.uid), sorted(phis, key=lambda a: a.uid)
        sid = TM.new_system(t, [raw[k] for k in ks], [after[k] for k in ks], free, phis)
        args = tuple(init[k] for k in ks) + tuple(P(a) for a in free) + tuple(phis)
        for i, k in enumerate(ks):
            bad.pop(k, None)
            if k[0] == "h":
                asol[k] = mkarr("rec", sid, i, P(T), args)
            else:
                sol[k] = P(atom("app", "rec", sid, i, P(T), *args))

    def bare_use(self, x, base):
        """does x use one of the arrays other than by reading a cell of it"""
        def bare(y):
            args = getattr(y, "args", None)
            if args is None:
                return False
            if getattr(y, "kind", None) == "rd":
                args = args[1:]
            return any(z is b for z in flat_args(args) for b in base)
        return mentions(x, bare) or any(z is b for z in flat_args(x) for b in base)

    def joint_cells(self, todo, t, T):
        """arrays that depend on each other, each iteration writing only cells no other iteration
        reads or writes: every read sees the value from before the loop"""
        base = {a: A0 for a, v, A0 in todo.values()}
        k = fresh_var()
        if t in TM.FACTS.vub:
            TM.FACTS.vub[k] = TM.FACTS.vub[t]
        writes = {}
        for a, v, A0 in todo.values():
            if v.kind != "log" or v.args[0] is not a:
                return None
            for e in v.args[1]:
                if e[0] not in ("w", "bulk"):
                    return None
                if mentions(tuple(e[2]), lambda y: y in base):
                    return None
            writes[a] = [tuple(e[2]) for e in v.args[1]]
        rep = {}
        for a, v, A0 in todo.values():
            for b in base:
                for rd in self.self_reads(tuple(v.args[1]), b):
                    if rd in rep:
                        continue
                    for w in writes[b]:
                        g = P(1)
                        for x, y in zip(w, rd.args[1]):
                            g = mul(g, eq(subst(x, {t: P(k)}), y))
                        # another iteration k != t writing the cell read at iteration t
                        g = mul(g, 1 - eq(P(k), P(t)))
                        if g.const != 0:
                            return None
                    rep[rd] = True

        for a, v, A0 in todo.values():
            for e in v.args[1]:
                if self.bare_use(tuple(e[1:]), base):
                    return None
        out = {}
        for key, (a, v, A0) in todo.items():
            es = []
            for e in v.args[1]:
                e2 = (e[0], replace_arrs(e[1], base), tuple(e[2])) + tuple(replace_arrs(x, base) for x in e[3:])
                if mentions(e2[1:], lambda y: y in base):
                    return None
                es.append(e2)
            es = subst_entries(tuple(es), {t: P(k)})
            out[key] = arr_log(A0, (mk_loop(k, P(T), es),))
        return out

    def grow_set(self, a, v):
        """membership table (cells 0 or 1): inserting a key only when it is absent is inserting it"""
        if v.kind != "log" or v.args[0] is not a:
            return v
        out = []
        for e in v.args[1]:
            if e[0] == "w" and e[3].const == 1:
                at = atom("rd", a, e[2])
                g1 = replace_arrs(e[1], {}, {at: P(1)})
                g0 = replace_arrs(e[1], {}, {at: P(0)})
                if g1.const == 0:
                    e = ("w", g0) + tuple(e[2:])
            out.append(e)
        return arr_log(a, tuple(out))

    def recur(self, a, v, x0, t, T=None):
        """closed form at iteration t of x_{t+1} = v(x_t, t), x_0 = x0"""
        pa = P(a)
        if T is None:
            T = t
        if v is pa:
            return x0 if isinstance(x0, Poly) else None
        k = fresh_var()
        if t in TM.FACTS.vub:
            TM.FACTS.vub[k] = TM.FACTS.vub[t]
        d = v - pa
        if a not in d.free:
            if not isinstance(x0, Poly):
                return None
            return x0 + mk_sum(k, P(T), subst(d, {t: P(k)}))
        if a not in v.free:
            prev = subst(v, {t: P(T) - 1})
            if not isinstance(x0, Poly):
                return prev if True else None
            if subst(prev, {T: P(0)}) is x0:
                return prev
            return ite(lt(P(0), P(T)), prev, x0)
        if not isinstance(x0, Poly):
            return None
        # conditional overwrite: v = g*val + (1-g)*x, g and val free of x
        c1 = {}
        c0 = {}
        lin = True
        for m, c in v.t.items():
            n = [(x, e) for x, e in m if a in x.free]
            if not n:
                c0[m] = c
            elif len(n) == 1 and n[0][0] is a and n[0][1] == 1:
                c1[tuple(y for y in m if y[0] is not a)] = c
            else:
                lin = False
                break
        if lin:
            keep = TM._mkpoly(c1)
            g = 1 - keep
            if is_bool(g):
                # value whenever g: c0 (c0 = g*val)
                val = TM._mkpoly(c0)
                q = self.div_bool(val, g)
                if q is not None and t not in q.free:
                    s = mk_sum(k, P(T), subst(g, {t: P(k)}))
                    return ite(ne0(s), q, x0)
        # extremum
        r = self.match_ext(a, v)
        if r is not None:
            kind, e = r
            return mk_ext(kind, k, P(T), x0, subst(e, {t: P(k)}))
        acc = fresh_var("r" if not (is_int(v) and is_int(x0)) else "q")
        return mk_fold(k, acc, P(T), x0, subst(v, {t: P(k), a: P(acc)}))

    def div_bool(self, val, g):
        """val = g*q with q free of g's atoms -> q"""
        atoms = set(a for m in g.t for a, e in m)
        if len(atoms) > 6:
            return None
        for bits in itertools.product((1, 0), repeat=len(atoms)):
            env = dict(zip(atoms, bits))
            if assign(g, env).const == 1:
                q = assign(val, env)
                if mul(g, q) is val:
                    return q
        return None

    def match_ext(self, a, v):
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][0].kind == "app" and m[0][0].args[0] in ("max", "min"):
                x, y = m[0][0].args[1:]
                kind = "mx" if m[0][0].args[0] == "max" else "mn"
                if x is P(a) and a not in y.free:
                    return kind, y
                if y is P(a) and a not in x.free:
                    return kind, x
        # [x < e] * e + (1 - [x < e]) * x
        br = [b for m in v.t for b, e in m if b.kind == "lt0" and a in b.free]
        for b in set(br):
            hi, lo = assign(v, {b: 1}), assign(v, {b: 0})
            pa = P(a)
            for e, keep, pol in ((hi, lo, 1), (lo, hi, 0)):
                if keep is pa and a not in e.free:
                    d = b.args[0]
                    if (d - (pa - e)).const is not None:     # b = [x - e + k < 0]
                        return ("mx" if pol == 1 else "mn"), e
                    if (d - (e - pa)).const is not None:
                        return ("mn" if pol == 1 else "mx"), e
        return None

    def arr_recur(self, a, v, A0, t, T=None):
        """array at iteration t for A_{t+1} = v(A_t, t)"""
        if T is None:
            T = t
        if v is a:
            return A0
        if v.kind != "log" or v.args[0] is not a:
            if v.kind == "ite":
                return None
            return None
        entries = v.args[1]
        entries = self.own_cells(a, entries)
        if entries is None:
            return None
        # reads of other cells of the same array
        if self.mentions_arr(entries, a):
            entries2 = self.resolve_self_reads(a, entries, A0, t)
            if entries2 is None:
                r = self.joint_cells({0: (a, v, A0)}, t, T)
                return r and r[0]
            entries = entries2
        k = fresh_var()
        if t in TM.FACTS.vub:
            TM.FACTS.vub[k] = TM.FACTS.vub[t]
        es = subst_entries(entries, {t: P(k)})
        es = tuple((e[0], e[1], e[2], absorb_tail(e[3])) + tuple(e[4:]) if e[0] == "w" else e for e in es)
        return arr_log(A0, (mk_loop(k, P(T), es),))

    def mentions_arr(self, entries, a):
        return mentions(tuple(entries), lambda y: y is a)

    def own_cells(self, a, entries):
        """rd(A, idx) inside the write to A[idx] becomes OLD"""
        out = []
        for e in entries:
            if e[0] == "w":
                at = atom("rd", a, e[2])
                val = e[3]
                if mentions(val, lambda y: y is a):
                    if out:
                        # relative to what the earlier writes of this iteration left in the cell
                        d = val - read(arr_log(a, tuple(e2 for e2 in entries[:len(out)])), e[2])
                        if not mentions(d, lambda y: y is a):
                            val = P(OLD) + d
                        elif mentions(val, lambda y: y is at):
                            if any(self.may_alias(x, e[2]) for x in out):
                                return None
                            val = replace_arrs(val, {}, {at: P(OLD)})
                    else:
                        val = replace_arrs(val, {}, {at: P(OLD)})
                out.append(("w", e[1], e[2], val))
            elif e[0] == "loop":
                v, n, es = open_loop(e)
                sub = self.own_cells(a, es)
                if sub is None:
                    return None
                out.append(mk_loop(v, n, sub))
            else:
                out.append(e)
        return tuple(out)

    def may_alias(self, e, idx):
        if e[0] != "w" or len(e[2]) != len(idx):
            return True
        g = e[1]
        for x, y in zip(e[2], idx):
            g = mul(g, eq(x, y))
        return g.const != 0

    def self_reads(self, x, a):
        found = []

        def pred(y):
            if isinstance(y, Atom) and y.kind == "rd" and y.args[0] is a:
                found.append(y)
            return False
        mentions(x, pred)
        return found

    def resolve_self_reads(self, a, entries, A0, t):
        """replace rd(A_t, idx) when no earlier iteration wrote idx, or when exactly
        the previous iteration did (prefix recurrences)"""
        flat = []

        def flatten(es, binders):
            for e in es:
                if e[0] in ("w", "bulk"):
                    flat.append((binders, e))
                elif e[0] == "loop":
                    v, n, sub = open_loop(e)
                    if flatten(sub, binders + [(v, n)]) is False:
                        return False
                else:
                    return False
            return True
        if flatten(entries, []) is False:
            return None
        for binders, e in flat:
            if any(self.self_reads(i, a) for i in e[2]):
                return None
        guarded = any(self.self_reads(e[1], a) for _, e in flat)
        rep = {}
        k = fresh_var()
        TM.FACTS.vub[k] = P(t) - 1
        pend = []
        for binders, e in flat:
            for rd in self.self_reads((e[1], e[3]), a):
                idx = rd.args[1]
                hitcount = P(0)
                who = []
                for b2, w in flat:
                    ren = {v: P(fresh_var()) for v, n in b2}
                    if ren:
                        b2 = [(list(ren[v].free)[0], subst(subst(n, ren), {t: P(k)})) for v, n in b2]
                        for v, n in b2:
                            TM.FACTS.vub[v] = n - 1
                        w = subst_entries((w,), ren)[0]
                    g = subst(w[1], {t: P(k)}) if not guarded else P(1)
                    for x, y in zip(w[2], idx):
                        g = mul(g, eq(subst(x, {t: P(k)}), y))
                    if g.const == 0:
                        continue
                    h = g
                    ok = True
                    for v, n in reversed(b2):
                        h2 = delta_only(v, n, h)
                        if h2 is None:
                            ok = False
                            break
                        h = h2
                    if not ok:
                        return None
                    hs = delta_only(k, P(t), h)
                    if hs is None:
                        return None
                    if hs.const == 0:
                        continue
                    hitcount = hitcount + hs
                    who.append((b2, w))
                if hitcount.const == 0:
                    rep[rd] = read(A0, idx)
                else:
                    pend.append((rd, hitcount, who, binders, e))
        if pend:
            if len(flat) != 1 or len(pend) != 1 or guarded:
                return None
            rd, hit, who, binders, e = pend[0]
            if binders or e[1].const != 1 or e[0] != "w":
                return None
            # written cell idx(t); read cell must be idx(t-1)
            prev = tuple(subst(i, {t: P(t) - 1}) for i in e[2])
            if prev != rd.args[1]:
                return None
            psi = fresh_var("q" if is_int(e[3]) else "r")
            val = replace_arrs(e[3], {}, {rd: P(psi)})
            val = subst(val, {OLD: read(A0, e[2])})
            x0 = read(A0, tuple(subst(i, {t: P(0)}) for i in rd.args[1]))
            r = self.recur(psi, val, x0, t)
            if r is None:
                return None
            full = subst(val, {psi: r})
            return (("w", e[1], e[2], full),)
        base = {a: A0}
        for binders, e in flat:
            if self.bare_use(tuple(e[1:]), base):
                return None
        return replace_in_entries(entries, base)

    def py_loop(self, n, body):
        """for t in 0..n-1: body(t)  (body acts on self.st)"""
        def step(t):
            self.st.pc = P(1)
            body(t)
            return P(1), self.st, [], [], self.st
        self.loop(step, None, N=P(n))

    # ------------------------------------------------------------ calls
    def construct(self, t, fn, args):
        """new object of class type t via ctor fn; returns the object value"""
        lv = self.newloc(self.blank(t), "o")
        self.run_ctor(fn, lv, args, t)
        if self.st is None:
            return None
        return self.st.store.pop(lv.a)

    def run_ctor(self, fn, lv, args, t):
        p = self.p
        if fn is None:
            raise Undecided("no constructor for " + p.ts(t)["s"])
        full = p.fn.get(fn["id"], fn)
        if full.get("body") is None and not full.get("inits"):
            if full.get("copyctor") or full.get("movector"):
                return self.memberwise(lv, args[0], t, full.get("movector"))
            if full.get("defctor"):
                return self.default_members(lv, t)
            raise Undecided("constructor without body " + full.get("q", "?"))
        self.call(full, lv, args)

    def default_members(self, lv, t):
        c = self.p.cls(t)
        for b in c["bases"]:
            self.run_ctor(self.find_ctor(b, "defctor"), lv, [], b)
        for f in c["fields"]:
            key = f["name"] + "@" + self.p.types[c["t"]]["s"]
            if f.get("hasinit") and f.get("init") is not None:
                fr = Fr({"ret": None}, lv)
                v = self.rval(f["init"], fr)
            else:
                k = self.p.kind(f["t"])
                v = UNINIT if k in ("num", "ptr", "fnptr") else self.default_value(f["t"])
            self.storev(lv.sub(key), v, f["t"])

    def memberwise(self, lv, src, t, move):
        c = self.p.cls(t)
        for b in c["bases"]:
            m = self.find_ctor(b, "movector") if move else None
            m = m or self.find_ctor(b, "copyctor")
            self.run_ctor(m, lv, [src], b)
        for f in c["fields"]:
            key = f["name"] + "@" + self.p.types[c["t"]]["s"]
            k = self.p.kind(f["t"])
            if k == "ours":
                m = (self.find_ctor(f["t"], "movector") if move else None) or self.find_ctor(f["t"], "copyctor")
                self.storev(lv.sub(key), self.blank(f["t"]), f["t"])
                self.run_ctor(m, lv.sub(key), [src.sub(key)], f["t"])
            elif k == "vec" and move:
                v = self.load(src.sub(key), f["t"])
                self.storev(lv.sub(key), v, f["t"])
                self.storev(src.sub(key), self.new_vec(self.p.elem(f["t"]), 0), f["t"])
            else:
                self.storev(lv.sub(key), self.copy_value(self.load(src.sub(key), f["t"])), f["t"])

    def memberwise_assign(self, lv, src, t, move):
        c = self.p.cls(t)
        for b in c["bases"]:
            self.memberwise_assign(lv, src, b, move)
        for f in c["fields"]:
            key = f["name"] + "@" + self.p.types[c["t"]]["s"]
            k = self.p.kind(f["t"])
            if k == "ours":
                op = None
                for m in self.p.cls(f["t"])["methods"]:
                    if m["name"] == "operator=" and (m.get("moveasg") if move else m.get("copyasg")):
                        op = self.p.fn.get(m["id"], m)
                if op is not None and op.get("body"):
                    self.call(op, lv.sub(key), [src.sub(key)])
                else:
                    self.memberwise_assign(lv.sub(key), src.sub(key), f["t"], move)
            elif k == "vec":
                self.vec_assign(lv.sub(key), src.sub(key), f["t"], move)
            else:
                self.storev(lv.sub(key), self.copy_value(self.load(src.sub(key), f["t"])), f["t"])
        return lv

    def vec_assign(self, dst, src, t, move=False):
        v = self.load(src, t) if isinstance(src, LV) else src
        if isinstance(src, LV) and dst.same(src):
            return
        if not isinstance(v, Vec):
            raise Undecided("assign from opaque vector %r" % (v,))
        if (move or not isinstance(src, LV)) and dst.k == "l" and not v.pre:
            self.storev(dst, v, t)
            if isinstance(src, LV):
                self.storev(src, self.new_vec(v.et, 0), t)
            return
        if dst.k == "l":
            d = self.load(dst, t)
            if isinstance(d, Vec) and d.len is v.len:
                # same size: storage is reused
                self.copy_contents(v, d.buf, d.pre)
                return
            self.storev(dst, self.copy_value(v), t)
            return
        self.storev(dst, v, t)
        if move and isinstance(src, LV) and not src.same(dst):
            self.storev(src, self.new_vec(v.et, 0), t)

    def vtable(self, cls, fid):
        """final overrider of method fid in class type id cls"""
        key = (cls, fid)
        if key in self._vt:
            return self._vt[key]
        res = None
        c = self.p.cls(cls)
        order = []

        def bases(x):
            order.append(x)
            cc = self.p.cls(x)
            if cc:
                for b in cc["bases"]:
                    bases(b)
        bases(cls)
        for x in order:
            cc = self.p.cls(x)
            if cc is None:
                continue
            for m in cc["methods"]:
                if m["id"] == fid:
                    res = res or self.p.fn.get(fid, m)
                    break
                if fid in m.get("overrides", []) or self.overrides(m["id"], fid):
                    res = self.p.fn.get(m["id"], m)
                    break
            if res:
                break
        self._vt[key] = res
        return res

    def overrides(self, mid, fid, depth=0):
        f = self.p.fn.get(mid)
        ov = (f or {}).get("overrides") or []
        if fid in ov:
            return True
        return depth < 5 and any(self.overrides(o, fid, depth + 1) for o in ov)

    # ---- what a call may not change: const objects and const reference parameters
    def reach(self, v, t, out, mutable_too=True):
        """buffers an object owns or refers to"""
        if isinstance(v, LV):
            if v.k == "l":
                self.reach(self.load(v), t, out, mutable_too)
            elif v.k == "e":
                out.add(v.a.split("/")[0])
        elif isinstance(v, Vec):
            out.add(v.buf.split("/")[0])
        elif isinstance(v, Ptr):
            if v.buf is not None:
                out.add(v.buf.split("/")[0])
        elif isinstance(v, PtrL):
            self.reach(v.lv, t, out, mutable_too)
        elif isinstance(v, Obj):
            mut = () if mutable_too else self.mutables(v.t)
            for k, x in v.f.items():
                if k not in mut:
                    self.reach(x, None, out, mutable_too)

    def mutables(self, t):
        c = self.p.cls(t)
        out = set()
        if c is not None:
            for b in c["bases"]:
                out |= self.mutables(b)
            for f in c["fields"]:
                if f.get("mutable"):
                    out.add(f["name"] + "@" + self.p.types[c["t"]]["s"])
        return out

    def const_ref(self, t):
        s = self.p.T(t)["s"]
        return self.is_ref(t) and s.startswith("const ") and not s.endswith("&&")

    def frame_begin(self, full, this, args):
        keep, free, lists = [], set(), []
        isctor = full.get("name") == "{ctor}"
        if this is not None and this.k == "l" and not full.get("static"):
            if full.get("const"):
                keep.append(("the object", this))
            elif not isctor:
                self.reach(this, None, free)
        for prm, a in zip(full["params"], args):
            if isinstance(a, LV) and a.k == "l" and self.const_ref(prm["t"]):
                keep.append((prm.get("name") or "argument", a))
            elif isinstance(a, LV) and self.is_ref(prm["t"]) or not isinstance(a, LV) or \
                    "VectorView" in self.p.T(prm["t"])["s"] or self.p.kind(prm["t"]) == "ptr":
                self.reach(a, None, free)
        snap = []
        for nm, lv in keep:
            v = self.load(lv)
            bufs = set()
            self.reach(v, None, bufs, False)
            if isinstance(v, Obj):
                for k in self.mutables(v.t):
                    x = v.f.get(k)
                    if isinstance(x, Vec) and x.buf is not None and "/" not in x.buf:
                        # entries kept in a mutable list: may be reordered, but stand for the same matrix
                        lists.append((nm, k, lv, x, [(suf, leaf) for suf, leaf, d in self.bufleaves(x.et)]))
                    else:
                        self.reach(x, None, free)
            snap.append((nm, lv, v, bufs))
        return full, snap, free, dict(self.st.heap), lists

    def frame_end(self, fb):
        full, snap, free, heap, lists = fb
        if self.st is None:
            return
        for nm, lv, v, bufs in snap:
            now = self.load(lv)
            mut = self.mutables(v.t) if isinstance(v, Obj) else ()
            if isinstance(v, Obj) and isinstance(now, Obj):
                pairs = [(k.split("@")[0], v.f.get(k), now.f.get(k)) for k in v.f if k not in mut]
            else:
                pairs = [("", v, now)]
            for k, a, b in pairs:
                if a is b or same(a, b):
                    self.frames.append((full, nm, k, None, None, None))
                elif isinstance(a, Poly) and isinstance(b, Poly):
                    self.frames.append((full, nm, k, b, a, None))
                elif isinstance(a, Vec) and isinstance(b, Vec) and a.buf == b.buf:
                    self.frames.append((full, nm, k, b.len, a.len, None))
                else:
                    self.frames.append((full, nm, k, b, a, "changed"))
            for (buf, leaf), old in heap.items():
                root = buf.split("/")[0]
                if root in bufs and root not in free:
                    new = self.st.heap.get((buf, leaf))
                    if new is old:
                        self.frames.append((full, nm, "contents", None, None, None))
                    else:
                        self.frames.append((full, nm, "contents", new, old, (buf, leaf)))
        for nm, k, lv, x, leaves in lists:
            now = self.load(lv).f.get(k)
            old = [heap.get((x.buf + suf, leaf)) for suf, leaf in leaves]
            new = [self.st.heap.get((now.buf + suf, leaf)) for suf, leaf in leaves] if isinstance(now, Vec) else None
            k = k.split("@")[0]
            if new is not None and same(x.len, now.len) and all(a is b for a, b in zip(old, new)):
                self.frames.append((full, nm, k, None, None, None))
            else:
                self.frames.append((full, nm, k, (now, new), (x, old), "lists" if any(suf for suf, _ in leaves) else "list"))

    def call(self, fn, this, args, node=None):
        """invoke a function of the analysed program; args are LVs (references) or values"""
        if self.frames is None or self.quiet or not (not self.callstack or self.callstack[-1].get("q", "").startswith("vprobe::")):
            return self._call(fn, this, args, node)
        full = self.p.fn.get(fn["id"]) or fn
        if full.get("q", "").startswith("vprobe::"):
            return self._call(fn, this, args, node)
        fb = self.frame_begin(full, this, args)
        r = self._call(fn, this, args, node)
        self.frame_end(fb)
        return r

    def _call(self, fn, this, args, node=None):
        p = self.p
        full = p.fn.get(fn["id"]) or fn
        if full.get("body") is None and not full.get("inits"):
            return self.nobody(full, this, args)
        if full["id"] in self.contracts:
            self.touched.add(full["id"])
            return self.contracts[full["id"]](full, this, args)
        if self.depth > 40:
            raise Undecided("call depth (recursion?) at " + full["q"])
        self.touched.add(full["id"])
        fr = Fr(full, this)
        for prm, a in zip(full["params"], args):
            if self.is_ref(prm["t"]):
                if not isinstance(a, LV):
                    a = self.newloc(a, "tmp")
                fr.env[prm["id"]] = a
            else:
                if isinstance(a, LV):
                    a = self.load(a, prm["t"])
                lv = fr.env[prm["id"]] = self.newloc(a, (prm.get("name") or "p") + "'")
                d = self.owner_dtor(prm["t"])
                if d is not None:
                    fr.dtors.append((lv, d))
        self.depth += 1
        self.callstack.append(full)
        outer = self.st.pc
        self.pcs.append(outer)
        self.st.pc = P(1)
        line = self.line
        try:
            for ini in full.get("inits") or []:
                if self.st is None:
                    break
                self.ctor_init(ini, fr, full)
            if self.st is not None and full.get("body"):
                self.ex(full["body"], fr)
        finally:
            self.pcs.pop()
            self.callstack.pop()
            self.depth -= 1
            self.line = line
        cur = self.st
        key = ("ret", id(fr))
        for s in reversed(fr.outs["return"]):
            cur = s if cur is None else self.merge(s.pc, s, cur)
        self.st = cur
        if cur is None:
            return None
        cur.pc = mul(outer, cur.pc)
        rv = cur.store.pop(key, None)
        for lv, d in reversed(fr.dtors):
            if self.st is not None:
                self.call(d, lv, [])
        return rv

    def nobody(self, full, this, args):
        if full.get("name") == "operator=" and this is not None and len(args) == 1:
            t = full.get("cls")
            self.memberwise_assign(this, args[0], t, full.get("moveasg"))
            return this
        if full.get("pure") or full.get("virtual"):
            raise Undecided("pure virtual call " + full.get("q", "?"))
        raise Undecided("no body for " + full.get("q", full.get("name", "?")))

    def ctor_init(self, ini, fr, full):
        e = ini.get("e")
        this = fr.this
        if e is None:
            return
        if "field" in ini:
            key = ini["field"] + "@" + self.p.types[self.p.unq(full["cls"])]["s"]
            ft = None
            for k, t in self.p.fields(full["cls"]):
                if k == key:
                    ft = t
            if e["k"] == "New" and self.p.kind(e["t"]) == "ours":
                self.storev(this.sub(key), self.blank(e["t"]), ft)
                args = self.args(e["args"], fr)
                self.run_ctor(e["fn"], this.sub(key), args, e["t"])
                return
            v = self.rval(e, fr)
            if self.is_ref(ft):
                raise Undecided("reference member")
            self.storev(this.sub(key), v, ft)
            return
        # base or delegating constructor
        while e["k"] in ("Cast", "Mat") and "e" in e:
            e = e["e"]
        if e["k"] == "New":
            args = self.args(e["args"], fr)
            self.run_ctor(e["fn"], this, args, e["t"])
            return
        if e["k"] in ("ZeroInit", "InitList") and not e.get("args"):
            return
        raise Undecided("initialiser " + e["k"])

    # ------------------------------------------------------------ expressions
    def rval(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, LV) and not self.is_ref_node(n):
            v = self.load(v, n.get("t"))
        elif isinstance(v, LV):
            v = self.load(v, n.get("t"))
        return v

    def is_ref_node(self, n):
        return bool(n.get("lv"))

    def num(self, n, fr):
        v = self.rval(n, fr)
        if isinstance(v, Poly):
            return v
        if v is UNINIT:
            self.ev_record("uninit", node=n)
            return unknown("uninitialised read at line %s" % n.get("l"))
        if v is None:
            raise Undecided("void value")
        return unknown("opaque number %r" % (v,))

    def args(self, ns, fr):
        out = []
        for a in ns:
            v = self.ev(a, fr)
            if self.st is None:
                return out
            if not a.get("lv") and isinstance(v, LV):
                v = self.load(v, a.get("t"))
            out.append(v)
        return out

    def ev(self, n, fr):
        if self.st is None:
            return None
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("step budget")
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Undecided("expression kind %s line %s" % (n["k"], n.get("l")))
        if "l" in n:
            self.line = n["l"]
        return m(n, fr)

    def e_Int(self, n, fr):
        return P(int(n["v"]))

    def e_Char(self, n, fr):
        return P(int(n["v"]))

    def e_Bool(self, n, fr):
        return P(1 if n["v"] in (True, 1, "true", "1") else 0)

    def e_Float(self, n, fr):
        return P(Fraction(repr(float(n["v"]))))

    def e_Str(self, n, fr):
        return Opq("string:" + str(n.get("v", "")))

    def e_SourceLocExpr(self, n, fr):
        return Opq("loc")

    def e_Null(self, n, fr):
        return self.nullptr()

    def e_SizeOf(self, n, fr):
        return P(int(n.get("cv", 8)))

    def e_This(self, n, fr):
        return PtrL(fr.this)

    def e_Ref(self, n, fr):
        if "fn" in n and "d" not in n:
            return FnV(n["fn"])
        f = fr
        while f is not None:
            if n["d"] in f.env:
                return f.env[n["d"]]
            f = f.parent
        raise Undecided("unbound %s line %s" % (n.get("n"), n.get("l")))

    def e_Global(self, n, fr):
        if n.get("cv") is not None:
            try:
                return self.newloc(P(Fraction(repr(float(n["cv"])))))
            except ValueError:
                pass
        if str(n.get("q")).endswith("basic_string::npos"):
            return self.newloc(P((1 << 64) - 1))
        return self.newloc(Opq("global " + str(n.get("q"))))

    def e_Member(self, n, fr):
        if n.get("fn") is not None:
            return FnV(n["fn"])
        b = self.ev(n["base"], fr)
        if n.get("arrow"):
            b = self.deref(b, n)
        if not isinstance(b, LV):
            b = self.newloc(b, "tmp")
        if n.get("fc") is None:
            raise Undecided("member of foreign class")
        c = self.p.types[self.p.unq(n["fc"])]
        if c.get("rec") in ("std::pair",):
            return b.sub(n["n"])
        return b.sub(n["n"] + "@" + c["s"])

    def find_len(self, buf, pre=()):
        """current length of the vector owning buffer `buf` (None when not known)"""
        if pre or buf is None:
            return None
        found = []

        def go(v):
            if isinstance(v, Vec):
                if v.buf == buf and not v.pre:
                    found.append(v.len)
                    return True
            elif isinstance(v, Obj):
                for x in v.f.values():
                    if go(x):
                        return True
            return False
        if self.st is not None:
            for v in self.st.store.values():
                if go(v):
                    return found[0]
        return self.blen0.get(buf)

    def ev_access(self, p, cnt=None, kind="access"):
        if self.quiet:
            return
        if isinstance(p, Ptr) and p.buf is not None:
            if cnt is None:
                self.ev_record("access", buf=p.buf, idx=p.off, len=self.find_len(p.buf, p.pre))
            else:
                self.ev_record(kind, buf=p.buf, off=p.off, n=cnt, len=self.find_len(p.buf, p.pre))

    def deref(self, v, n=None):
        if isinstance(v, (FnV, ExtFn)):
            return v
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, PtrL):
            return v.lv
        if isinstance(v, Ptr):
            self.ev_access(v)
            if v.null.const == 1:
                self.ev_record("nullderef")
                raise Undecided("null dereference")
            self.check_stale(v)
            return LV("e", v.buf, v.pre + (v.off,), ())
        if isinstance(v, Poly):
            c = v.const
            if c is not None and int(c) in self.handles:
                return self.handles[int(c)]
            return LV("h", v)
        if v is UNINIT:
            self.ev_record("uninit", node=n)
            raise Undecided("dereference of an uninitialised pointer")
        raise Undecided("dereference of %r" % (v,))

    def e_Un(self, n, fr):
        op = n["op"]
        if op == "*":
            v = self.rval(n["e"], fr) if not n["e"].get("lv") else self.load(self.ev(n["e"], fr), n["e"]["t"])
            return self.deref(v, n)
        if op == "&":
            lv = self.ev(n["e"], fr)
            if isinstance(lv, FnV):
                return lv
            if lv.k == "e" and not lv.c:
                return Ptr(lv.a, lv.b[:-1], lv.b[-1], self.st.gens.get(lv.a))
            if lv.k == "h":
                return lv.a
            return PtrL(lv)
        if op in ("++", "--", "post++", "post--"):
            lv = self.ev(n["e"], fr)
            v = self.load(lv, n["e"]["t"])
            d = 1 if "++" in op else -1
            if isinstance(v, Ptr):
                nv = v.at(v.off + d)
            elif isinstance(v, Poly):
                nv = v + d
                self.narrow(nv, n["e"]["t"], n)
            else:
                nv = unknown("increment of %r" % (v,))
            self.storev(lv, nv, n["e"]["t"])
            return v if op.startswith("post") else lv
        if op in ("__extension__", "+"):
            return self.ev(n["e"], fr)
        v = self.num(n["e"], fr)
        if op == "-":
            return -v
        if op == "!":
            return 1 - (v if is_bool(v) else ne0(v))
        return unknown("unary " + op)

    def e_Bin(self, n, fr):
        op = n["op"]
        if op == "=":
            v = self.rval(n["b"], fr)
            lv = self.ev(n["a"], fr)
            if self.st is None:
                return None
            self.storev(lv, v, n["a"]["t"])
            return lv
        if op == ",":
            self.ev(n["a"], fr)
            return self.ev(n["b"], fr)
        if op in ("&&", "||"):
            a = self.cond(n["a"], fr)
            if op == "&&":
                r = self.fork(a, lambda: self.cond(n["b"], fr), lambda: P(0))
            else:
                r = self.fork(a, lambda: P(1), lambda: self.cond(n["b"], fr))
            return r
        a = self.rval(n["a"], fr)
        b = self.rval(n["b"], fr)
        return self.binop(op, a, b, n["a"]["t"], n["b"]["t"], n)

    def binop(self, op, a, b, ta, tb, n=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, PtrL) or isinstance(b, PtrL):
            return self.ptrop(op, a, b)
        if a is UNINIT or b is UNINIT:
            self.ev_record("uninit", node=n)
        if not isinstance(a, Poly):
            a = unknown("operand %r" % (a,))
        if not isinstance(b, Poly):
            b = unknown("operand %r" % (b,))
        p = self.p
        real = p.is_real(ta) or p.is_real(tb)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return mul(a, b)
        if op == "/":
            if real:
                return mul(a, app("inv", b))
            return app("idiv", a, b)
        if op == "%":
            if a.const is not None and b.const not in (None, 0) and a.const >= 0 and b.const > 0:
                return P(int(a.const) % int(b.const))
            return app("imod", a, b)
        s = "r" if real else "i"
        if op == "<":
            return lt(a, b, s)
        if op == ">":
            return lt(b, a, s)
        if op == "<=":
            return le(a, b, s)
        if op == ">=":
            return le(b, a, s)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return 1 - eq(a, b)
        if op in ("|", "&", "^"):
            if a.const is not None and b.const is not None and a.const >= 0 and b.const >= 0:
                x, y = int(a.const), int(b.const)
                return P(x | y if op == "|" else x & y if op == "&" else x ^ y)
            if TM.is_bool(a) and TM.is_bool(b):
                g = mul(a, b)
                return a + b - g if op == "|" else g if op == "&" else a + b - g - g
        return unknown("operator " + op)

    def ptrop(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if op == "+":
                return a.at(a.off + b)
            if op == "-":
                return a.at(a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and op == "+":
            return b.at(b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.buf is None or b.buf is None:
                # comparison with null
                if a.null.const == 1 and b.null.const == 1:
                    z = P(1)
                else:
                    z = a.null if b.buf is None else b.null
                if op == "==":
                    return z
                if op == "!=":
                    return 1 - z
            if a.buf == b.buf and a.pre == b.pre:
                if op == "-":
                    return a.off - b.off
                f = {"<": lambda: lt(a.off, b.off), ">": lambda: lt(b.off, a.off), "<=": lambda: le(a.off, b.off),
                     ">=": lambda: le(b.off, a.off), "==": lambda: eq(a.off, b.off), "!=": lambda: 1 - eq(a.off, b.off)}.get(op)
                if f:
                    return f()
            if op == "==":
                return P(0)
            if op == "!=":
                return P(1)
        if isinstance(a, (PtrL, Poly)) and isinstance(b, (PtrL, Poly, Ptr)) or isinstance(b, (PtrL, Poly)):
            ha, hb = self.to_handle(a), self.to_handle(b)
            if op == "==":
                return eq(ha, hb)
            if op == "!=":
                return 1 - eq(ha, hb)
        raise Undecided("pointer operation %s on %r %r" % (op, a, b))

    def e_Asg(self, n, fr):
        b = self.rval(n["b"], fr)
        lv = self.ev(n["a"], fr)
        if self.st is None:
            return None
        a = self.load(lv, n["a"]["t"])
        op = n["op"][:-1]
        ct = n.get("ct", n["a"]["t"])
        r = self.binop(op, a, b, ct if self.p.kind(n["a"]["t"]) == "num" else n["a"]["t"], n["b"]["t"], n)
        if isinstance(r, Poly) and self.p.ts(n["a"]["t"])["k"] in ("int", "uint", "char") and self.p.is_real(ct):
            r = app("trunc", r)
        elif isinstance(r, Poly):
            r = self.rounded(r, n["a"]["t"])
            if self.p.ts(n["a"]["t"])["k"] in ("int", "uint", "char"):
                self.narrow(r, n["a"]["t"], n)
        self.storev(lv, r, n["a"]["t"])
        return lv

    def e_Cond(self, n, fr):
        # assert(e): e ? void(0) : __assert_fail(...)
        bnode = n["b"]
        if bnode["k"] == "Call" and bnode.get("fn", {}).get("q") == "__assert_fail":
            c = self.cond(n["cond"], fr)
            self.ev_record("assert", cond=c, text=self.strip_str(bnode))
            if c.const == 0:
                self.st = None
            return None
        if n["a"]["k"] == "Call" and n["a"].get("fn", {}).get("q") == "__assert_fail":
            c = self.cond(n["cond"], fr)
            self.ev_record("assert", cond=1 - c, text="")
            return None
        c = self.cond(n["cond"], fr)
        if n.get("lv"):
            if c.const is None:
                a = [None]
                va = self.fork(c, lambda: self.load(self.ev(n["a"], fr), n["t"]), lambda: self.load(self.ev(n["b"], fr), n["t"]))
                return self.newloc(va)
            return self.ev(n["a"] if c.const else n["b"], fr)
        return self.fork(c, lambda: self.rval(n["a"], fr), lambda: self.rval(n["b"], fr))

    def strip_str(self, n):
        if isinstance(n, dict):
            if n.get("k") == "Str":
                return n["v"]
            for v in n.values():
                if isinstance(v, (dict, list)):
                    r = self.strip_str(v)
                    if r:
                        return r
        elif isinstance(n, list):
            for v in n:
                r = self.strip_str(v)
                if r:
                    return r
        return ""

    def e_Cast(self, n, fr):
        ck = n["ck"]
        if ck == "LValueToRValue":
            lv = self.ev(n["e"], fr)
            if self.st is None:
                return None
            if not isinstance(lv, LV):
                return lv
            v = self.load(lv, n["e"]["t"])
            return v
        if ck == "ToVoid":
            self.ev(n["e"], fr)
            return None
        if ck == "NullToPointer":
            return self.nullptr(n["t"])
        if ck == "ArrayToPointerDecay":
            if n["e"]["k"] == "Str":
                return self.ev(n["e"], fr)
            if n["e"]["k"] == "Un":
                return Opq("string")
            lv = self.ev(n["e"], fr)
            v = self.load(lv, n["e"]["t"])
            if isinstance(v, Vec):
                return Ptr(v.buf, v.pre, 0, None)
            return Opq("array")
        if ck == "FunctionToPointerDecay":
            return self.ev(n["e"], fr)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.num(n["e"], fr)
            return v if is_bool(v) else ne0(v)
        if ck == "PointerToBoolean":
            v = self.rval(n["e"], fr)
            if isinstance(v, Ptr):
                return 1 - v.null
            if isinstance(v, (PtrL, FnV)):
                return P(1)
            if isinstance(v, Poly):
                return ne0(v)
            return P(atom("app", "bool", unknown("pointer")))
        if ck == "FloatingToIntegral":
            return app("trunc", self.num(n["e"], fr))
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            v = self.rval(n["e"], fr)
            if v is UNINIT:
                self.ev_record("uninit", node=n)
                return unknown("uninitialised")
            if ck == "IntegralCast":
                self.narrow(v, n["t"], n)
                return v
            return self.rounded(v, n["t"])
        return self.ev(n["e"], fr)

    def isfloat(self, t):
        ts = self.p.ts(t)
        return ts["k"] == "double" and ts.get("w") == 32

    def rounded(self, v, t):
        """value held by a real of type t: single precision keeps less than the elements of the library have"""
        if isinstance(v, Poly) and self.isfloat(t) and not (v.const is not None and abs(v.const) < 2 ** 20):
            if not (len(v.t) == 1 and v.const is None and list(v.t.values())[0] == 1 and self._isf32(list(v.t)[0])):
                return app("f32", v)
        return v

    def _isf32(self, m):
        return len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "f32"

    def narrow(self, v, t, n):
        """a quantity without a fixed bound in an integer type shorter than int"""
        ts = self.p.ts(t)
        if ts["k"] in ("int", "uint", "char") and ts.get("w", 32) < 32 and isinstance(v, Poly) and self.unbounded(v):
            self.ev_record("narrow", node=n)

    def unbounded(self, v):
        for m, c in v.t.items():
            if len(m) != 1:
                continue
            a = m[0][0]
            if a.kind == "sel" and a.args[0].endswith("#"):
                return True
            if a.kind == "var":
                u = dict(self.loops).get(a)
                if u is None:
                    u = TM.FACTS.vub.get(a)
                if u is not None and u.const is None and self.unbounded(u):
                    return True
        return False

    def e_Mat(self, n, fr):
        v = self.ev(n["e"], fr)
        if self.st is None:
            return None
        if isinstance(v, LV):
            return v
        return self.newloc(v, "tmp")

    def e_ZeroInit(self, n, fr):
        return self.default_value(n["t"])

    def e_StdInitList(self, n, fr):
        return self.ev(n["e"], fr)

    def e_InitList(self, n, fr):
        p = self.p
        t = n["t"]
        k = p.kind(t)
        if p.ts(t)["k"] == "array":
            et = p.elem(t)
            v = self.new_vec(et, len(n["args"]), hint="il")
            for i, a in enumerate(n["args"]):
                self.store_elem(v.buf, (P(i),), (), self.rval(a, fr), et)
            return v
        if k == "num":
            return self.rval(n["args"][0], fr) if n["args"] else P(0)
        if k in ("ours", "pair", "tuple"):
            o = {}
            for (key, ft), a in zip(p.fields(t), n["args"]):
                o[key] = self.rval(a, fr)
            return Obj(p.unq(t), o)
        raise Undecided("initializer list")

    def e_Lambda(self, n, fr):
        return Clo(n, fr)

    def e_Throw(self, n, fr):
        self.ev_record("throw")
        self.st = None
        self.thrown = True
        return None

    def e_HeapNew(self, n, fr):
        raise Undecided("new")

    def e_Delete(self, n, fr):
        raise Undecided("delete")

    def e_Sub(self, n, fr):
        a = self.ev(n["base"], fr)
        if isinstance(a, LV):
            a = self.load(a, n["base"]["t"])
        i = self.rval(n["i"], fr)
        if isinstance(a, Poly) and isinstance(i, Ptr):
            a, i = i, a
        if isinstance(a, Vec):
            return LV("e", a.buf, a.pre + (i,), ())
        if isinstance(a, Ptr):
            return self.deref(a.at(a.off + i), n)
        raise Undecided("subscript of %r" % (a,))

    def e_New(self, n, fr):
        fn = n.get("fn") or {}
        q = fn.get("q", "")
        t = n["t"]
        k = self.p.kind(t)
        if len(n["args"]) == 1 and "(lambda at" in self.p.ts(t)["s"]:
            return self.rval(n["args"][0], fr)
        if k == "ours" and self.p.cls(t) is not None:
            args = self.args(n["args"], fr)
            if self.st is None:
                return None
            if n.get("elide") and args and not isinstance(args[0], LV):
                return args[0]
            full = self.p.fn.get(fn["id"], fn)
            # pass-by-value prvalue: copy/move construction of a temporary
            v = self.construct(t, full, args)
            return v
        return self.std_ctor(n, t, k, fr)

    def e_Call(self, n, fr):
        fn = n.get("fn")
        if fn is None:
            # call through pointer / closure
            cal = self.ev(n["callee"], fr)
            if isinstance(cal, LV):
                cal = self.load(cal, n["callee"]["t"])
            args = self.args(n["args"], fr)
            if isinstance(cal, FnV):
                return self.call(cal.fn, None, args)
            if isinstance(cal, ExtFn):
                return cal.f(self, args)
            raise Undecided("indirect call")
        q = fn["q"]
        if q == "__assert_fail" or q in ("abort", "exit", "std::terminate", "std::exit", "std::abort"):
            self.ev_record("abort")
            self.st = None
            return None
        if fn.get("m") and not fn.get("static"):
            return self.method_call(n, fn, fr)
        if (fn.get("ours") and not ("::" not in q and not (self.p.fn.get(fn["id"]) or {}).get("body"))) \
                or (fn["id"] in self.p.fn and self.p.fn[fn["id"]].get("body")):
            args = self.args(n["args"], fr)
            if self.st is None:
                return None
            return self.call(fn, None, args, n)
        return self.std_call(n, fn, fr)

    def method_call(self, n, fn, fr):
        onode = n["obj"]
        o = self.ev(onode, fr)
        if self.st is None:
            return None
        if n.get("arrow"):
            o = self.deref(o, n)
        if not isinstance(o, LV):
            o = self.newloc(o, "tmp")
        ot = onode.get("t")
        if n.get("arrow"):
            ot = self.p.unq(self.p.ts(ot)["to"]) if self.p.ts(ot)["k"] == "ptr" else self.p.elem(ot)
        return self.invoke(n, fn, o, ot, fr)

    def invoke(self, n, fn, o, ot, fr):
        if o.k == "h":
            args = self.args(n["args"], fr)
            return self.sym_method(fn, o, args, n)
        if o.k == "l":
            v = self.load(o, ot)
            if isinstance(v, Clo):
                args = self.args(n["args"], fr)
                return self.call_closure(v, args)
            if isinstance(v, Obj) and self.sym_obj(v):
                args = self.args(n["args"], fr)
                return self.sym_method(fn, LV("h", v.f["#h"]), args, n)
        if fn.get("ours") or self.p.cls(fn["cls"]) is not None:
            full = self.p.fn.get(fn["id"], fn)
            if fn.get("virt") and not n.get("qual"):
                dyn = None
                if o.k == "l":
                    v = self.load(o, ot)
                    if isinstance(v, Obj):
                        dyn = v.t
                if dyn is None:
                    dyn = self.p.unq(ot)
                f2 = self.vtable(dyn, fn["id"])
                if f2 is not None:
                    full = f2
            args = self.args(n["args"], fr)
            if self.st is None:
                return None
            return self.call(full, o, args, n)
        return self.std_method(n, fn, o, ot, fr)

    def sym_obj(self, v):
        return "#h" in v.f

    def sym_method(self, fn, o, args, n):
        raise Undecided("call on a symbolic operator: " + fn["q"])

    def call_closure(self, clo, args):
        op = None
        for f in clo.node["ops"]:
            if len(f["params"]) == len(args):
                op = f
        if op is None:
            raise Undecided("lambda arity")
        fr = Fr(op, clo.fr.this)
        fr.parent = clo.fr
        f = op
        for prm, a in zip(f["params"], args):
            if self.is_ref(prm["t"]):
                if not isinstance(a, LV):
                    a = self.newloc(a, "tmp")
                fr.env[prm["id"]] = a
            else:
                if isinstance(a, LV):
                    a = self.load(a, prm["t"])
                fr.env[prm["id"]] = self.newloc(a, "lp")
        outer = self.st.pc
        self.pcs.append(outer)
        self.st.pc = P(1)
        try:
            self.ex(f["body"], fr)
        finally:
            self.pcs.pop()
        cur = self.st
        for s in reversed(fr.outs["return"]):
            cur = s if cur is None else self.merge(s.pc, s, cur)
        self.st = cur
        if cur is None:
            return None
        cur.pc = mul(outer, cur.pc)
        return cur.store.pop(("ret", id(fr)), None)

    def callf(self, f, args):
        """call a functor value (closure / function pointer)"""
        if isinstance(f, LV):
            f = self.load(f)
        if isinstance(f, Clo):
            return self.call_closure(f, args)
        if isinstance(f, FnV):
            return self.call(f.fn, None, args)
        if isinstance(f, ExtFn):
            return f.f(self, args)
        raise Undecided("call of %r" % (f,))
