"""Closed-form terms: polynomials over interned atoms, bounded sums, arrays
given by write logs.  Everything is immutable and interned, so structural
equality is identity.

Atoms
  sel(name, idxs)        element of a symbolic input array / scalar input
  var(name)              bound placeholder (loop counter, phi, OLD)
  bv(h)                  closed bound variable (h = binder height)
  lt0(p, sort)           Iverson bracket [p < 0]
  eq0(p)                 Iverson bracket [p == 0]
  sum(n, body)           sum_{k=0}^{n-1} body            (binds bv(h))
  fold(n, init, body)    single scalar recurrence         (binds bv(h), bv(h+1))
  mx/mn(n, init, body)   running max / min
  rd(arr, idxs)          element of a write-log array that has no simpler form
  app(f, args...)        uninterpreted / interpreted function of its arguments
  unk(id, why)           unknown value
"""
from fractions import Fraction
import itertools
import math
import zlib
import time

_atoms = {}
_polys = {}
_arrs = {}
_uid = itertools.count(1)
_fresh = itertools.count(1)

EMPTY = frozenset()


class Budget(Exception):
    pass


class Atom(object):
    __slots__ = ("kind", "args", "uid", "free", "bvh", "bool_", "unk", "size")

    def __repr__(self):
        return show_atom(self)


class Poly(object):
    __slots__ = ("t", "uid", "free", "bvh", "unk", "size")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    @property
    def const(self):
        """the constant value or None"""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None


class Arr(object):
    __slots__ = ("kind", "args", "uid", "free", "bvh", "unk", "size")

    def __repr__(self):
        return show_arr(self)


def _meta(parts):
    free = EMPTY
    bvh = 0
    unk = False
    size = 1
    stack = list(parts)
    while stack:
        x = stack.pop()
        if isinstance(x, (Poly, Arr, Atom)):
            if x.free:
                free = free | x.free
            if x.bvh > bvh:
                bvh = x.bvh
            unk = unk or x.unk
            size += x.size
        elif isinstance(x, tuple):
            stack.extend(x)
    return free, bvh, unk, size


def key(x):
    if isinstance(x, (Poly, Arr, Atom)):
        return x.uid
    if isinstance(x, tuple):
        return tuple(key(y) for y in x)
    return ("c", x)


MAXSIZE = 60000


def atom(kind, *args):
    k = (kind, key(args))
    a = _atoms.get(k)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = args
    a.uid = next(_uid)
    free, bvh, unk, size = _meta(args)
    if size > MAXSIZE:
        raise Budget("term too large")
    if kind == "var":
        free = frozenset((a,))
    elif kind == "bv":
        free = frozenset((a,))
        bvh = max(bvh, 0)
    elif kind in ("sum", "mx", "mn"):
        h = args[0]
        free = frozenset(x for x in free if not (x.kind == "bv" and x.args[0] == h))
        bvh = h
    elif kind == "fold":
        h = args[0]
        free = frozenset(x for x in free if not (x.kind == "bv" and x.args[0] in (h, h + 1)))
        bvh = h + 1
    elif kind == "unk":
        unk = True
    a.free = free
    a.bvh = bvh
    a.unk = unk
    a.size = size
    a.bool_ = kind in ("lt0", "eq0") or (kind == "app" and args[0] in BOOLFN)
    _atoms[k] = a
    return a


BOOLFN = {"isnull", "bool", "has"}


def _mkpoly(d):
    d = {m: (c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items() if c}
    k = frozenset([(m, c) for m, c in d.items()])
    p = _polys.get(k)
    if p is not None:
        return p
    p = Poly()
    p.t = d
    p.uid = next(_uid)
    free = EMPTY
    bvh = 0
    unk = False
    size = 1
    for m in d:
        for a, e in m:
            if a.free:
                free = free | a.free
            bvh = max(bvh, a.bvh)
            unk = unk or a.unk
            size += a.size
    if size > MAXSIZE:
        raise Budget("term too large")
    p.free = free
    p.bvh = bvh
    p.unk = unk
    p.size = size
    _polys[k] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mkpoly({((x, 1),): 1})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return _mkpoly({(): x})
    if isinstance(x, float):
        return _mkpoly({(): Fraction(x)})
    raise TypeError(repr(x))


def var(name=None):
    return atom("var", name if name is not None else "v%d" % next(_fresh))


def fresh_var(hint="t"):
    return atom("var", "%s'%d" % (hint, next(_fresh)))


OLD = None


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(a):
    return _mkpoly({m: -c for m, c in a.t.items()})


def scale(a, k):
    return _mkpoly({m: c * k for m, c in a.t.items()})


_mulcache = {}


def mul(a, b):
    ca, cb = a.const, b.const
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    k = (a.uid, b.uid) if a.uid < b.uid else (b.uid, a.uid)
    r = _mulcache.get(k)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > 4000:
        raise Budget("polynomial product too large")
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            if m is None:
                continue
            q = guard_nested(m)
            if q is not None:
                for mm, cc in q.t.items():
                    d[mm] = d.get(mm, 0) + cc * c1 * c2
                continue
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    _mulcache[k] = r
    return r


_nbcache = {}


def nested_bools(x):
    """Iverson atoms occurring strictly inside x (capped)"""
    if isinstance(x, Poly):
        out = EMPTY
        for m in x.t:
            for a, e in m:
                if a.kind in ("lt0", "eq0"):
                    out = out | frozenset((a,))
                out = out | nested_bools(a)
        return out
    if isinstance(x, (Atom, Arr)):
        r = _nbcache.get(x.uid)
        if r is None:
            if x.size > 400:
                r = EMPTY
            else:
                r = EMPTY
                for y in x.args:
                    r = r | nested_bools(y)
            _nbcache[x.uid] = r
        return r
    if isinstance(x, tuple):
        out = EMPTY
        for y in x:
            out = out | nested_bools(y)
        return out
    return EMPTY


_nicache = {}


def nested_index(x):
    """elements of index arrays (whose existence implies a nonempty index range) inside x"""
    if isinstance(x, Poly):
        out = EMPTY
        for m in x.t:
            for a, e in m:
                out = out | nested_index(a)
        return out
    if isinstance(x, (Atom, Arr)):
        r = _nicache.get(x.uid)
        if r is None:
            r = EMPTY
            if x.size <= 400:
                if x.kind == "sel" and x.args[0] in FACTS.elem:
                    r = r | frozenset((FACTS.ub[x.args[0]](x.args[1]) + 1,))
                for y in x.args:
                    r = r | nested_index(y)
            _nicache[x.uid] = r
        return r
    if isinstance(x, tuple):
        out = EMPTY
        for y in x:
            out = out | nested_index(y)
        return out
    return EMPTY


_gncache = {}


def guard_nested(m):
    """g * f(.. g ..)  ->  g * f(.. 1 ..)"""
    if len(m) < 2:
        return None
    gs = [a for a, e in m if a.kind in ("lt0", "eq0")]
    if not gs:
        return None
    k = tuple((a.uid, e) for a, e in m)
    if k in _gncache:
        return _gncache[k]
    lts = [g for g in gs if g.kind == "lt0" and g.args[1] == "i"]
    if lts:
        for a, e in m:
            if a.kind == "sum" and any(g.args[0] is a.args[1] - 1 for g in lts):
                # a sum over [0, N) under N < 1
                _gncache[k] = P(0)
                return P(0)
    if FACTS.elem:
        es = [g for g in gs if g.kind == "eq0"]
        if es:
            for a, e in m:
                if a.kind == "eq0" or a.kind == "lt0":
                    continue
                for u in nested_index(a):
                    for g in es:
                        if u is g.args[0] or neg(u) is g.args[0]:
                            _gncache[k] = P(0)
                            return P(0)
    hit = {}
    for a, e in m:
        nb = nested_bools(a)
        if nb:
            for g in gs:
                if g in nb and a is not g:
                    hit.setdefault(a, []).append(g)
    r = None
    if hit:
        r = P(1)
        for a, e in m:
            q = replace_arrs(P(a), {}, {g: P(1) for g in hit[a]}) if a in hit else P(a)
            for _ in range(e):
                r = mul(r, q)
    _gncache[k] = r
    return r


_monocache = {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (tuple((a.uid, e) for a, e in m1), tuple((a.uid, e) for a, e in m2))
    if k in _monocache:
        return _monocache[k]
    r = _mono_mul(m1, m2)
    _monocache[k] = r
    return r


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        if a.bool_:
            d[a] = 1
    # x * inv(x) with x a single atom (x != 0 is a recorded precondition)
    for a in list(d):
        if a in d and a.kind == "app" and a.args[0] == "inv":
            p = a.args[1]
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in d:
                    b = m[0][0]
                    n = min(d[a], d[b])
                    for x in (a, b):
                        d[x] -= n
                        if not d[x]:
                            del d[x]
    bools = [a for a in d if a.kind in ("lt0", "eq0")]
    if len(bools) > 1:
        for i in range(len(bools)):
            for j in range(len(bools)):
                if i == j:
                    continue
                x, y = bools[i], bools[j]
                if x not in d or y not in d:
                    continue
                r = imply(x, y)
                if r == 1:
                    d.pop(y, None)
                elif r == 0:
                    return None
    # [a == b] * b  ->  [a == b] * a   for scalar inputs a, b
    for x in bools:
        if x in d and x.kind == "eq0":
            t = x.args[0].t
            if len(t) == 1:
                (m, c), = t.items()
                if m and all(y[0] in d for y in m):
                    return None                      # [p == 0] * p
            r = _rename_pair(x)
            if r is not None and r[0] in d:
                lo, hi = r[1], r[0]
                d[lo] = d.get(lo, 0) + d.pop(hi)
            if FACTS.zero_if:
                for y in d:
                    z = FACTS.zero_if.get(y.args[0]) if y.kind == "sel" else None
                    if z and any(q is x.args[0] or neg(q) is x.args[0] for q in z(y.args[1])):
                        return None
            for y in d:
                if y.kind == "sum" and (y.args[1] is x.args[0] or neg(y.args[1]) is x.args[0]):
                    return None                      # empty sum
    return tuple(sorted(d.items(), key=lambda ae: ae[0].uid))


def _rename_pair(x):
    """eq0(a - b) with scalar atoms a, b -> (atom to replace, replacement)"""
    t = x.args[0].t
    if len(t) != 2:
        return None
    (m1, c1), (m2, c2) = t.items()
    if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = m1[0][0], m2[0][0]
    for y in (a, b):
        if y.kind != "sel":
            return None
    return (a, b) if a.uid > b.uid else (b, a)


_implycache = {}


def imply(x, y):
    """1 if atom x true implies y true, 0 if implies y false, else None"""
    k = (x.uid, y.uid)
    if k in _implycache:
        return _implycache[k]
    r = _imply(x, y)
    _implycache[k] = r
    return r


def _imply(x, y):
    p, q = x.args[0], y.args[0]
    step = 1 if (x.kind == "eq0" or x.args[1] == "i") else 0
    d = (q - p).const
    s = (q + p).const
    if x.kind == "eq0":
        # p == 0
        if d is not None:
            v = d
        elif s is not None:
            v = s
        else:
            return None
        if y.kind == "lt0":
            return 1 if v < 0 else 0
        return 1 if v == 0 else 0
    # x: p < 0 (integers: p <= -1)
    ub = -1 if x.args[1] == "i" else None
    if d is not None:
        # q = p + d ; p<0
        if y.kind == "lt0":
            if d <= 0:
                return 1
            if ub is not None and d + ub < 0:
                return 1
            return None
        # q == 0 <=> p == -d
        if -d >= 0:
            return 0
        return None
    if s is not None:
        # q = s - p ; p<0 => q > s ; ints: q >= s+1
        lb = s + 1 if ub is not None else s
        if y.kind == "lt0":
            if lb >= 0:
                return 0
            return None
        if lb > 0 or (ub is None and s >= 0):
            return 0
        return None
    return None


# ---------------------------------------------------------------- facts

class Facts(object):
    """What is known about the symbolic inputs of the current obligation."""

    def __init__(self):
        self.nonneg_sel = set()      # names of arrays/scalars whose elements are >= 0
        self.monotone = {}           # name -> True: sel(name, pre+(i+1,)) >= sel(name, pre+(i,))
        self.rewrite = {}            # name -> function(idxs) -> Poly or None
        self.ge0 = []                # polys known to be >= 0
        self.partition = {}          # name -> function(prefix) -> number of cells, P[0]=0
        self.intsel = set()
        self.ub = {}                 # name -> function(idxs) -> Poly, an inclusive upper bound
        self.elem = set()            # index arrays: an element exists only if its range is nonempty
        self.distinct = {}           # name -> f(prefix, offset, count): injective on [offset, offset+count)
        self.nonzero = set()         # names of arrays/scalars whose elements are not 0
        self.zero_if = {}            # name -> f(idxs): polys; the element is 0 when one of them is 0
        self.vub = {}                # var atom -> inclusive upper bound
        self.version = 0
        self.injective = set()   # index arrays without repeated values
        self.sorted = False      # some range has been sorted

    def assume_ge0(self, p):
        self.ge0.append(P(p))
        self.forget()

    def forget(self):
        """the set of facts changed"""
        self.version += 1
        _nncache.clear()
        _mulcache.clear()
        _monocache.clear()
        _substcache.clear()
        _gncache.clear()

    def copy(self):
        f = Facts()
        f.nonneg_sel = set(self.nonneg_sel)
        f.monotone = dict(self.monotone)
        f.rewrite = dict(self.rewrite)
        f.ge0 = list(self.ge0)
        f.partition = dict(self.partition)
        f.intsel = set(self.intsel)
        f.ub = dict(self.ub)
        return f


FACTS = Facts()
_nncache = {}


def reset_facts(f=None):
    global FACTS
    FACTS = f or Facts()
    _nicache.clear()
    _nbcache.clear()
    _nncache.clear()
    _points[0] = None
    _mulcache.clear()
    _monocache.clear()
    _substcache.clear()
    _gncache.clear()
    return FACTS


def atom_nonneg(a):
    if a.bool_:
        return True
    if a.kind == "sel":
        return a.args[0] in FACTS.nonneg_sel or a.args[0].endswith("#")
    if a.kind == "app":
        if a.args[0] in ("pos", "abs", "sqrt", "rowof", "bsize", "srt", "clip"):
            return True
    if a.kind == "bv":
        return True
    if a.kind == "var":
        return a.args[0].startswith("t'") or a.args[0].startswith("n'")
    if a.kind == "sum":
        return nonneg(a.args[2])
    if a.kind == "mx":
        return nonneg(a.args[2])
    return False


def upper(a):
    if a.kind == "var":
        return FACTS.vub.get(a)
    if a.kind == "sel":
        f = FACTS.ub.get(a.args[0])
        return f(a.args[1]) if f else None
    if a.bool_:
        return P(1)
    if a.kind == "app" and a.args[0] == "srt":
        return a.args[2] - 1
    if a.kind == "app" and a.args[0] == "clip":
        return a.args[2] - 1
    return None


_nnbudget = [0]


class Point(object):
    """values for the atoms that satisfy every axiom nonneg() may use; a polynomial that is
    negative there cannot be shown to be nonnegative, so the search need not be tried"""

    def __init__(self, seed):
        self.seed = seed
        self.v = {}

    def rnd(self, x):
        return (x * 2654435761 + self.seed * 40503 + 12345 >> 7) & 0xffff

    def val(self, a):
        if a in self.v:
            return self.v[a]
        self.v[a] = None
        if a.kind == "mx":
            return None         # related to the values it ranges over
        if a.kind == "sel" and a.args[0] in FACTS.monotone:
            r = self.rnd(zlib.crc32(a.args[0].encode())) % 3
        else:
            r = self.rnd(a.uid)
            r = r % 2 if a.bool_ else (0, 1, 2, 3, 0, 5)[r % 6]
        u = upper(a)
        if u is not None:
            x = self.ev(u)
            if x is None or x < 0:
                return None
            if r == 5 or r > x:
                if r > x and a.kind == "sel" and a.args[0] in FACTS.monotone:
                    return None
                r = x
        self.v[a] = r
        return r

    def ev(self, p):
        if p.unk:
            return None
        s = 0
        for m, c in p.t.items():
            for a, e in m:
                x = self.val(a)
                if x is None:
                    return None
                if x == 0:
                    c = 0
                    break
                c = c * x ** e
            s += c
        return s

    def consistent(self):
        """values changed by repair still respect the upper bounds"""
        for a, r in list(self.v.items()):
            if r is not None:
                u = upper(a)
                if u is not None:
                    x = self.ev(u)
                    if x is None or r > x:
                        return False
        return True

    def repair(self, ge0):
        for _ in range(12):
            bad = False
            for f in ge0:
                x = self.ev(f)
                if x is None:
                    return False
                if x >= 0:
                    continue
                bad = True
                for m, c in f.t.items():
                    if len(m) == 1 and m[0][1] == 1 and not (m[0][0].kind == "sel" and m[0][0].args[0] in FACTS.monotone):
                        a = m[0][0]
                        if c < 0 and self.v[a] > 0 and self.rnd(a.uid + _) % 2:
                            self.v[a] = 0
                        elif c > 0 and not a.bool_:
                            u = upper(a)
                            if u is None or (self.ev(u) or 0) >= self.v[a] + 3:
                                self.v[a] += 3 if self.rnd(a.uid) % 2 else 1
            if not bad:
                return True
        return False


_points = [None, []]


def points():
    F = FACTS
    key = (id(F), tuple([f.uid for f in F.ge0]), len(F.vub), len(F.ub), len(F.monotone))
    if _points[0] == key:
        return _points[1]
    out = []
    for s in range(1, 21):
        q = Point(s)
        if q.repair(F.ge0) and all(q.ev(f) is not None and q.ev(f) >= 0 for f in F.ge0) and q.consistent():
            out.append(q)
            if len(out) == 9:
                break
    _points[0] = key
    _points[1] = out
    return out


def refuted(p):
    if FACTS.sorted:
        return False
    for q in points():
        x = q.ev(p)
        if x is not None and x < 0:
            return True
    return False


def nonneg(p, depth=4):
    k = (p.uid, depth)
    r = _nncache.get(k)
    if r is None:
        if depth == 4:
            _nnbudget[0] = 300
        else:
            _nnbudget[0] -= 1
            if _nnbudget[0] < 0:
                return False
        _nncache[k] = False
        if depth == 4 and p.const is None and refuted(p):
            return False
        r = _nonneg(p, depth)
        if r or _nnbudget[0] >= 0 or depth == 4:
            _nncache[k] = r
        else:
            del _nncache[k]
    return r


def _nonneg(p, depth):
    c = p.const
    if c is not None:
        return c >= 0
    if p.unk:
        return False
    bad = False
    for m, c in p.t.items():
        if c < 0:
            bad = True
            break
        if not all(atom_nonneg(a) or e % 2 == 0 for a, e in m):
            bad = True
            break
    if not bad:
        return True
    if FACTS.sorted and in_order(p):
        return True
    if depth <= 0:
        return False
    for m, c in p.t.items():
        if c > 0 and len(m) == 1 and m[0][0].kind == "mx" and m[0][1] == 1:
            # at least as large as each of the values it ranges over
            h, n, init, b = m[0][0].args
            rest = p - _mkpoly({m: c})
            for w in witnesses(h, b, rest):
                if nonneg(w, 1) and nonneg(n - 1 - w, 1) \
                        and nonneg(rest + scale(subst(b, {atom("bv", h): w}), c), depth - 1):
                    return True
    neg = [(m, c) for m, c in p.t.items() if c < 0]
    shared = [f for f in FACTS.ge0 if not p.t.keys().isdisjoint(f.t.keys())]
    for f in shared:
        # a negative term of p has to be covered by f
        if (FACTS.sorted or all(f.t.get(m, 0) <= c for m, c in neg)) and nonneg(p - f, 0):
            return True
    # monotone arrays: sel(P,i+1) - sel(P,i) >= 0
    neg_ = [(m, c) for m, c in p.t.items() if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel"]
    for m, c in neg_:
        a = m[0][0]
        if a.args[0] in FACTS.monotone:
            for m2, c2 in p.t.items():
                if c2 > 0 and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].kind == "sel" and m2[0][0].args[0] == a.args[0]:
                    b = m2[0][0]
                    if b.args[1][:-1] == a.args[1][:-1]:
                        dd = b.args[1][-1] - a.args[1][-1]
                        if nonneg(dd, depth - 1):
                            k = min(c2, -c)
                            if nonneg(p - scale(P(b) - P(a), k), depth - 1):
                                return True
    # replace an atom with negative coefficient by its upper bound
    for m, c in p.t.items():
        if c < 0:
            for a, e in m:
                u = upper(a) if e == 1 else None
                if u is None:
                    continue
                rest = tuple(x for x in m if x[0] is not a)
                if rest and not all(atom_nonneg(b) for b, _ in rest):
                    continue
                q = p - _mkpoly({m: c}) + mul(_mkpoly({rest: c}), u)
                if nonneg(q, depth - 1):
                    return True
    for f in shared:
        # only facts that share a term with p
        if nonneg(p - f, depth - 1):
            return True
    return False


def witnesses(h, body, other):
    """values of a bound variable for which body reads the same cell as other does"""
    bv = atom("bv", h)
    names = set()

    def own(y):
        if isinstance(y, Atom) and y.kind == "sel" and y.args[1] and y.args[1][-1] == P(bv):
            names.add((y.args[0], y.args[1][:-1]))
        return False
    mentions(body, own)
    out = []
    if names:
        for m in other.t:
            for a, e in m:
                if a.kind == "sel" and a.args[1] and (a.args[0], a.args[1][:-1]) in names and a.args[1][-1] not in out \
                        and not any(x.kind == "bv" for x in a.args[1][-1].free):
                    out.append(a.args[1][-1])
    return out[:3]


# ---------------------------------------------------------------- atoms

def sel(name, idxs=()):
    idxs = tuple(P(i) for i in idxs)
    rw = FACTS.rewrite.get(name)
    if rw is not None:
        r = rw(idxs)
        if r is not None:
            return r
    return P(atom("sel", name, idxs))


def sym(name):
    return sel(name, ())


def _content(p):
    """divide integer-style content: returns normalised poly with leading coeff positive"""
    g = 0
    l = 1
    for c in p.t.values():
        g = math.gcd(g, c.numerator)
        l = l * c.denominator // math.gcd(l, c.denominator)
    if g == 0:
        return p, 1
    k = Fraction(l, g)
    return scale(p, k), k


def _lead(p):
    return p.t[max(p.t, key=lambda m: (len(m) > 0, tuple((a.uid, e) for a, e in m)))]


def lt0(p, sort="i"):
    """[p < 0]"""
    c = p.const
    if c is not None:
        return P(1 if c < 0 else 0)
    if nonneg(p):
        return P(0)
    if CASES:
        b = case_atom(p)
        if b is not None:
            return mul(P(b), lt0(assign1(p, (b,)), sort)) + mul(1 - P(b), lt0(assign0(p, b), sort))
        r = one_hit(p, lambda x: lt0(x, sort))
        if r is not None:
            return r
    if sort == "i" and len(p.t) == 2 and () in p.t:
        # [c + k*b < 0]
        (m0, k), = [(m, c) for m, c in p.t.items() if m]
        if len(m0) == 1 and m0[0][0].bool_ and m0[0][1] == 1:
            c0 = p.t[()]
            b = P(m0[0][0])
            return mul(b, P(1 if c0 + k < 0 else 0)) + mul(1 - b, P(1 if c0 < 0 else 0))
    if sort == "i":
        if nonneg(-p - 1):
            return P(1)
        if len(p.t) == 2 and p.t.get(()) == -1:
            # x < 1 for x >= 0
            (m0, k), = [(m, c) for m, c in p.t.items() if m]
            if k == 1 and len(m0) == 1 and m0[0][1] == 1 and m0[0][0].kind == "sel" and not m0[0][0].args[1] \
                    and nonneg(p + 1):
                return eq0(p + 1)
        # canonical orientation
        q = -p - 1      # p<0  <=> !(q<0)
        if _lead(p) < 0:
            return 1 - P(atom("lt0", q, "i"))
        return P(atom("lt0", p, "i"))
    q, _ = _content(p)
    return P(atom("lt0", q, "r"))


def eq0(p):
    c = p.const
    if c is not None:
        return P(1 if c == 0 else 0)
    # boolean atom compared with constant
    if len(p.t) <= 2 and all(len(m) <= 1 for m in p.t):
        ms = [m for m in p.t if m]
        if len(ms) == 1 and ms[0][0][0].bool_ and ms[0][0][1] == 1:
            k = p.t[ms[0]]
            c0 = p.t.get((), Fraction(0))
            b = P(ms[0][0][0])
            r = P(0)
            if c0 == 0:
                r = r + (1 - b)
            if c0 + k == 0:
                r = r + b
            return r
    # g*q == 0 with q != 0  <=>  not g
    common = None
    for m in p.t:
        bs = set(a for a, e in m if a.bool_)
        common = bs if common is None else common & bs
        if not common:
            break
    if common:
        q = assign1(p, common)
        if not q.const == 0 and (nonneg(q - 1) or nonneg(-q - 1)) and is_int(q):
            g = P(1)
            for a in common:
                g = mul(g, P(a))
            return 1 - g
    if FACTS.nonzero and len(p.t) == 1:
        (m0, _), = p.t.items()
        if m0 and all(a.kind == "sel" and a.args[0] in FACTS.nonzero for a, e in m0):
            return P(0)
    if is_bool(p):
        return 1 - p
    if is_bool(-p):
        return 1 + p
    if nonneg(p - 1) or nonneg(-p - 1):
        if is_int(p):
            return P(0)
    b = case_atom(p)
    if b is not None:
        return mul(P(b), eq0(assign1(p, (b,)))) + mul(1 - P(b), eq0(assign0(p, b)))
    if len(p.t) == 1:
        (m0, _), = p.t.items()
        if len(m0) == 1 and m0[0][0].kind == "sum" and is_bool(m0[0][0].args[2]):
            # a count with a known hit
            h, n, body = m0[0][0].args
            own = set()

            def pred(y):
                if isinstance(y, Atom) and y.kind == "eq0":
                    own.add(y)
                return False
            mentions(body, pred)
            for y in own:
                for w in witnesses(h, body, y.args[0]):
                    if subst(body, {atom("bv", h): w}).const == 1 and nonneg(w) and nonneg(n - 1 - w):
                        return P(0)
    if CASES:
        r = one_hit(p, eq0)
        if r is not None:
            return r
    r = _radix(p)
    if r is None and FACTS.partition:
        r = _partition_eq(p)
    if r is not None:
        return mul(eq0(r[0]), eq0(r[1]))
    q, _ = _content(p)
    if _lead(q) < 0:
        q = -q
    return P(atom("eq0", q))


def case_atom(p):
    """a condition to split a comparison on: comparisons of conditional values are conditional comparisons"""
    bs = set(a for m in p.t for a, e in m if a.bool_)
    if not bs or len(bs) > CASES:
        return None
    return min(bs, key=lambda a: a.uid)


CASES = 0       # only while two summaries are compared: see refine


UNTIL = [0.0]
SPENT = [0.0]       # per obligation


def refine(p, depth=2):
    """rebuild p with conditionals moved outwards, and consider the cases of a condition on the inputs"""
    t0 = time.time()
    if SPENT[0] > 40:
        raise Budget("time")
    UNTIL[0] = t0 + 20
    try:
        return refine_(p, depth)
    finally:
        SPENT[0] += time.time() - t0


def refine_(p, depth):
    global CASES
    CASES = 2
    FACTS.forget()
    try:
        for _ in range(2):
            p = once(guard_subst(replace_arrs(p, {})))
        p = absorb_tail(p, True)
        if p.const is not None or depth == 0:
            return p
        cs, ps = {}, {}

        def pred(y):
            if isinstance(y, Atom) and not y.free and y.bvh == 0:
                if y.kind in ("eq0", "lt0"):
                    cs[y] = cs.get(y, 0) + 1
                elif y.kind == "app" and y.args[0] == "pos":
                    ps[y] = y
            return False
        mentions(p, pred)
        if ps:
            # max(x, 0) is x or 0
            a = min(ps, key=lambda y: (y.size, y.uid))
            x = a.args[1]
            c, yes, no = lt(P(0), x), {a: x}, {a: P(0)}
            fy, fn = [x - 1] if is_int(x) else [x], [-x]
        elif cs:
            b = max(cs, key=lambda y: (y.kind == "eq0", -y.size, -y.uid))
            c, yes, no, fy, fn = P(b), {b: P(1)}, {b: P(0)}, [], []
            if b.kind == "lt0" and b.args[1] == "i":
                fy, fn = [-b.args[0] - 1], [b.args[0]]
            elif b.kind == "eq0":
                fy = [b.args[0], -b.args[0]]
        else:
            return p
    finally:
        CASES = 0
        FACTS.forget()
    y = case(p, c, yes, fy, depth)
    if y.const != 0:
        return p
    return case(p, 1 - c, no, fn, depth)


def case(p, c, what, facts, depth):
    """p where the condition c holds"""
    old = FACTS.ge0
    FACTS.ge0 = old + facts
    FACTS.forget()
    try:
        q = replace_arrs(p, {}, what)
        r = refine_(q, depth - 1)
    finally:
        FACTS.ge0 = old
        FACTS.forget()
    return r if r.const == 0 else mul(c, r)


def one_hit(p, f):
    """comparison f of p = rest + sum over v of g(v)[X[v] == x], X without repetitions:
    at most one term of the sum counts"""
    groups = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sum":
            groups.setdefault(m[0][0].args[1], []).append((m, c))
    for n in sorted(groups, key=lambda z: z.uid):
        v = fresh_var()
        FACTS.vub[v] = n - 1
        body = P(0)
        for m, c in groups[n]:
            h, _, b = m[0][0].args
            body = body + scale(subst(b, {atom("bv", h): P(v)}), c)
        if not distinct_hit(v, n, body):
            continue
        common = None
        for m in body.t:
            s = frozenset(a for a, e in m if a.kind == "eq0" and v in a.free)
            common = s if common is None else common & s
        ms = set(m for m, c in groups[n])
        rest = _mkpoly({m: c for m, c in p.t.items() if m not in ms})
        d = P(1)
        for a in common:
            d = mul(d, P(a))
        if not distinct_hit(v, n, d):
            continue
        g = assign1(body, common)
        return mul(1 - mk_sum(v, n, d), f(rest)) + mk_sum(v, n, mul(d, f(g + rest)))
    return None


def once(p):
    """S = sum_v [X[v] == y] is 0 or 1 when X has no repetitions: S*S = S, S*[X[e] == y] = [X[e] == y],
    S * sum_v [X[v] == y] g(v) = sum_v [X[v] == y] g(v)"""
    out = {}
    changed = False
    for m, c in p.t.items():
        m2 = m
        for a, e in m:
            if a.kind != "sum" or a.args[2].const is not None or len(a.args[2].t) != 1:
                continue
            (bm, bc), = a.args[2].t.items()
            if bc != 1 or len(bm) != 1 or bm[0][0].kind != "eq0":
                continue
            v = fresh_var()
            n = a.args[1]
            FACTS.vub[v] = n - 1
            body = subst(a.args[2], {atom("bv", a.args[0]): P(v)})
            if not distinct_hit(v, n, body):
                continue
            if e > 1:
                m2 = tuple((x, 1 if x is a else f) for x, f in m2)
            for b, _ in m2:
                if b is a:
                    continue
                if b.kind == "sum" and b.args[1] is n:
                    w = subst(b.args[2], {atom("bv", b.args[0]): P(v)})
                    (d, _), = list(body.t)[0]
                    if all(any(x is d for x, _ in q) for q in w.t):
                        break
                if b.kind == "eq0":
                    es = []

                    def pred(y):
                        if isinstance(y, Atom) and y.kind == "sel" and y.args[1]:
                            es.append(y.args[1][-1])
                        return False
                    mentions(b, pred)
                    if any(subst(body, {v: x}) == P(b) and nonneg(x) and nonneg(n - 1 - x) for x in es):
                        break
            else:
                continue
            m2 = tuple(x for x in m2 if x[0] is not a)
        changed = changed or m2 is not m
        out[m2] = out.get(m2, 0) + c
    return _mkpoly({m: c for m, c in out.items() if c}) if changed else p


def nested_delta(v, n, body):
    """sum over v of F(v, [v == e]) with the condition buried inside bounds or indices:
    the sum without it, corrected at v = e"""
    if n.const is not None:
        return None
    for m in body.t:
        for a, e in m:
            if a.kind in ("lt0", "eq0") or v not in a.free:
                continue
            for b in sorted(nested_bools(a), key=lambda z: z.uid):
                if b.kind != "eq0" or v not in b.free:
                    continue
                x = solve_unit(b.args[0], v)
                if x is None or v in x.free or any(y.kind == "bv" for y in x.free):
                    continue
                if not nonneg(x) or not nonneg(n - 1 - x):
                    continue
                f0 = replace_arrs(body, {}, {b: P(0)})
                f1 = subst(replace_arrs(body, {}, {b: P(1)}), {v: x})
                return mk_sum(v, n, f0) + f1 - subst(f0, {v: x})
    return None


def assign0(p, b):
    return _mkpoly({m: c for m, c in p.t.items() if all(a is not b for a, e in m)})


def assign1(p, atoms):
    """p with the given bool atoms set to 1 (direct occurrences)"""
    d = {}
    for m, c in p.t.items():
        k = tuple(y for y in m if y[0] not in atoms)
        d[k] = d.get(k, 0) + c
    return _mkpoly(d)


def _partition_eq(p):
    """p = (P(a) + r) - (P(b) + s), r and s inside their cells: equal iff a == b and r == s"""
    plus = [(m[0][0], m) for m, c in p.t.items() if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and m[0][0].args[0] in FACTS.partition]
    minus = [(m[0][0], m) for m, c in p.t.items() if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and m[0][0].args[0] in FACTS.partition]
    for a, ma in plus:
        for b, mb in minus:
            if a.args[0] != b.args[0] or a.args[1][:-1] != b.args[1][:-1]:
                continue
            rest = p - P(a) + P(b)
            nm, ia, ib = a.args[0], a.args[1], b.args[1]
            wa = sel(nm, ia[:-1] + (ia[-1] + 1,)) - P(a)
            wb = sel(nm, ib[:-1] + (ib[-1] + 1,)) - P(b)
            # split rest = r - s into its positive and negative monomials
            r = _mkpoly({m: c for m, c in rest.t.items() if c > 0})
            s = _mkpoly({m: -c for m, c in rest.t.items() if c < 0})
            if nonneg(r) and nonneg(s) and nonneg(wa - 1 - r) and nonneg(wb - 1 - s):
                return ia[-1] - ib[-1], rest
    return None


def _radix(p):
    """p = q*s + r with |r| < s for some stride s: p == 0 <=> q == 0 and r == 0"""
    if len(p.t) < 2 or not is_int(p):
        return None
    coef = {}
    for m, c in p.t.items():
        if len(m) < 2:
            continue
        for a, e in m:
            if e == 1 and a.kind in ("var", "sel") and not a.bool_:
                rest = tuple(x for x in m if x[0] is not a)
                coef.setdefault(a, {})[rest] = c
    cands = {}
    for a, d in coef.items():
        # the full coefficient of a
        full = {}
        ok = True
        for m, c in p.t.items():
            h = [e for x, e in m if x is a]
            if h:
                if h[0] != 1 or any(a in x.free and x is not a for x, e in m):
                    ok = False
                rest = tuple(x for x in m if x[0] is not a)
                full[rest] = full.get(rest, 0) + c
        if not ok:
            continue
        f = _mkpoly(full)
        if f.const is not None or a in f.free:
            continue
        g = f
        if _lead(g) < 0:
            g = -g
        cands.setdefault(g.uid, (g, []))[1].append((a, 1 if g is f else -1))
    for g, vs in sorted(cands.values(), key=lambda x: -len(x[1])):
        q = P(0)
        for a, sg in vs:
            q = q + scale(P(a), sg)
        r = p - mul(q, g)
        # constant multiples of the stride
        lm = max(g.t, key=lambda m: (len(m), tuple(x[0].uid for x in m)))
        k = r.t.get(lm)
        if k:
            k = Fraction(k) / g.t[lm]
            if k.denominator == 1:
                q = q + int(k)
                r = r - scale(g, k)
        if q.const is not None:
            continue
        if nonneg(g - 1 - r) and nonneg(g - 1 + r):
            return q, r
    return None


def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.kind in ("bv", "lt0", "eq0"):
                continue
            if a.kind == "var" and not a.args[0].startswith("r"):
                continue
            if a.kind == "sel" and (a.args[0] in FACTS.intsel or a.args[0].endswith("#")):
                continue
            if a.kind == "app" and a.args[0] == "rec" and not SYSTEMS[a.args[1]][1][a.args[2]].args[0].startswith("r"):
                continue
            if a.kind == "app" and a.args[0] in ("pos", "trunc", "idiv", "imod", "rowof", "bsize", "srt", "clip"):
                continue
            if a.kind == "sum" and is_int(a.args[2]):
                continue
            if a.kind in ("mx", "mn") and is_int(a.args[2]) and is_int(a.args[3]):
                continue
            if a.kind == "app" and a.args[0] in ("abs", "max", "min") and all(is_int(x) for x in a.args[1:]):
                continue
            return False
    return True


_boolcache = {}


def is_bool(p):
    """syntactically 0/1 valued"""
    r = _boolcache.get(p.uid)
    if r is None:
        r = _is_bool(p)
        _boolcache[p.uid] = r
    return r


def _is_bool(p):
    c = p.const
    if c is not None:
        return c in (0, 1)
    atoms = set()
    for m, c in p.t.items():
        for a, e in m:
            if not a.bool_:
                return False
            atoms.add(a)
    if len(atoms) > 8:
        return False
    atoms = list(atoms)
    for bits in itertools.product((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, bits))
        v = Fraction(0)
        for m, c in p.t.items():
            x = c
            for a, e in m:
                if not env[a]:
                    x = 0
                    break
            v += x
        if v not in (0, 1):
            return False
    return True


def ne0(p):
    return 1 - eq0(p)


def lt(a, b, sort="i"):
    return lt0(P(a) - P(b), sort)


def le(a, b, sort="i"):
    return 1 - lt0(P(b) - P(a), sort)


def eq(a, b):
    return eq0(P(a) - P(b))


def and_(a, b):
    return mul(a, b)


def or_(a, b):
    return a + b - mul(a, b)


def not_(a):
    return 1 - a


def ite(c, a, b):
    if c.const is not None:
        return a if c.const != 0 else b
    if a is b:
        return a
    return mul(c, a) + mul(1 - c, b)


def app(f, *args):
    if f == "rec":
        return P(atom("app", f, *args))
    args = tuple(P(a) if isinstance(a, (int, Fraction)) else a for a in args)
    if f == "clip":
        # index x known to lie in [0, n)
        if nonneg(args[0]) and nonneg(args[1] - 1 - args[0]):
            return args[0]
    elif f == "srt":
        if args[1].const is not None and args[1].const <= 1:
            return P(0)
    elif f == "pos":
        p = sum_diff(args[0])
        args = (p,)
        c = p.const
        if c is not None:
            return P(max(c, 0))
        if nonneg(p):
            return p
        if nonneg(-p):
            return P(0)
    elif f == "inv":
        c = args[0].const
        if c is not None and c != 0:
            return P(Fraction(1) / c)
        # 1/(k*m) for a single monomial without Iverson atoms
        if len(args[0].t) == 1:
            (m, c), = args[0].t.items()
            if m and (len(m) > 1 or m[0][1] > 1 or c != 1):
                r = P(Fraction(1) / c)
                for a, e in m:
                    if a.bool_:
                        r = None
                        break
                    for _ in range(e):
                        r = mul(r, app("inv", P(a)))
                if r is not None:
                    return r
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "inv":
                return m[0][0].args[1]
    elif f == "abs":
        c = args[0].const
        if c is not None:
            return P(abs(c))
        if len(args[0].t) == 1:
            (m, c), = args[0].t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "absarg":
                return m[0][0].args[1]
        if nonneg(args[0]):
            return args[0]
        p = args[0]
        if _lead(p) < 0:
            p = -p
        args = (p,)
    elif f == "trunc":
        c = args[0].const
        if c is not None:
            return P(int(c))
        if is_int(args[0]):
            return args[0]
    elif f in ("max", "min"):
        a, b = args
        if a is b:
            return a
        if nonneg(a - b):
            return a if f == "max" else b
        if nonneg(b - a):
            return b if f == "max" else a
        if b.uid < a.uid:
            args = (b, a)
    elif f == "idiv":
        if args[1].const == 1:
            return args[0]
        if args[0].const is not None and args[1].const not in (None, 0):
            q = Fraction(args[0].const) / args[1].const
            return P(int(q))
        k = args[1].const
        if k is not None and k > 1 and k == int(k) and is_int(args[0]):
            # (k x + r) / k
            r = args[0].t.get((), 0) % k
            if all((Fraction(c) / k).denominator == 1 for m, c in args[0].t.items() if m) and (r == 0 or nonneg(args[0])):
                return scale(args[0] - r, Fraction(1) / k)
    elif f == "rowof" and isinstance(args[0], Arr) and args[0].kind == "sym":
        nm, pre = args[0].args
        x = args[1]
        for m, c in x.t.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and m[0][0].args[0] == nm and m[0][0].args[1][:-1] == tuple(pre):
                i = m[0][0].args[1][-1]
                lo = P(m[0][0])
                r = x - lo
                if nonneg(r) and nonneg(sel(nm, tuple(pre) + (i + 1,)) - lo - 1 - r):
                    return i
    elif f == "sqrt":
        c = args[0].const
        if c is not None and c in (0, 1):
            return P(c)
    return P(atom("app", f, *args))


# ---------------------------------------------------------------- binders

def close(v, body_parts):
    """choose a height and replace var v by bv(h) in the given parts"""
    _, bvh, _, _ = _meta(tuple(body_parts))
    h = bvh + 1
    b = P(atom("bv", h))
    return h, [subst_any(x, {v: b}) for x in body_parts]


DISTINCT_KEYS = []


def mk_sum(v, n, body):
    """sum_{v=0}^{n-1} body ; v is a var atom"""
    n = sum_diff(P(n))
    if body.const == 0:
        return P(0)
    c = n.const
    if c is not None and c <= 0:
        return P(0)
    if c == 1:
        return subst(body, {v: P(0)})
    body, v = in_range(v, n, body)
    if len(body.t) > 1 or not n.t or body.bvh:
        g = runs_once(n)
        if g and mentions(body, lambda y: y in g):
            body = replace_arrs(body, {}, g)
    if body.const == 0:
        return P(0)
    if v in body.free:
        r = DISTINCT_KEYS[0](v, n, body) if DISTINCT_KEYS else None
        if r is not None:
            return r
    if FACTS.partition and v in body.free:
        r = partition_delta(v, n, body)
        if r is not None:
            return r
    r = compaction(v, n, body)
    if r is not None:
        return r
    r = by_rows(v, n, body)
    if r is not None:
        return r
    if v in body.free:
        ss = sorts_of(body, v)
        if ss and len(set(a.args[1] for a in ss)) == 1 and ss[0].args[2] == n:
            # summing over a range in sorted order is summing over the range
            w = fresh_var()
            FACTS.vub[w] = n - 1
            q = replace_arrs(body, {}, {a: P(w) for a in ss})
            if v not in q.free:
                return mk_sum(w, n, q)
    if CASES:
        if time.time() > UNTIL[0]:
            raise Budget("time")
        mx1 = atom("app", "max", P(1), n) if n.const is None else None
        if mx1 is not None and mentions(body, lambda y: y is mx1):
            body = replace_arrs(body, {}, {mx1: n})
        r = nested_delta(v, n, body)
        if r is not None:
            return r
    if SPLIT:
        e = split_point(v, n, body)
        if e is not None:
            v1, v2 = fresh_var(), fresh_var()
            FACTS.vub[v1] = e - 1
            FACTS.vub[v2] = n - e - 1
            return mk_sum(v1, e, subst(body, {v: P(v1)})) + mk_sum(v2, n - e, subst(body, {v: P(v2) + e}))
    if CASES:
        body = once(body)
    body = times_positive(body)
    out = P(0)
    groups = {}
    for m, c in body.t.items():
        inside = tuple((a, e) for a, e in m if v in a.free)
        outside = tuple((a, e) for a, e in m if v not in a.free)
        groups.setdefault(inside, []).append((outside, c))
    # complementary conditionals: try to merge groups c*[g] and c*(1-[g]) is done by expansion already
    facs = {}
    for inside, outs in groups.items():
        d = {}
        for o, c in outs:
            d[o] = d.get(o, 0) + c
        facs[inside] = _mkpoly(d)
    if len(facs) > 1:
        out = telescope(v, n, facs)
    for inside, fac in facs.items():
        out = out + mul(fac, _sum_mono(v, n, inside))
    return out


def times_positive(p):
    """x*[x > 0] -> x  for x >= 0 (the product has been distributed over the monomials of x)"""
    if len(p.t) < 2:
        return p
    done = set()
    again = True
    while again:
        again = False
        for m, c in p.t.items():
            for a, e in m:
                if a.kind != "lt0" or e != 1 or len(a.args[0].t) < 2 or (a, m) in done:
                    continue
                done.add((a, m))
                x = neg(a.args[0])
                m0, c0 = next(iter(x.t.items()))
                # m = m0 * rest * a
                rest = list(m)
                rest.remove((a, e))
                ok = True
                for y in m0:
                    if y in rest:
                        rest.remove(y)
                    else:
                        ok = False
                        break
                if not ok:
                    continue
                co = _mkpoly({tuple(rest): Fraction(c) / c0})
                full = mul(mul(co, x), P(a))
                if all(p.t.get(k) == v for k, v in full.t.items()) and len(full.t) == len(x.t) and nonneg(x):
                    p = p - full + mul(co, x)
                    again = True
                    break
            if again:
                break
    return p


def telescope(v, n, facs):
    """sum_{v<n} f*(A(v+1) - A(v)) -> f*(A(n) - A(0)); removes the pairs it sums from facs"""
    out = P(0)
    for inside in list(facs):
        if inside not in facs or not any(a.kind in ("sel", "sum") for a, e in inside) or len(inside) > 3:
            continue
        A = _mkpoly({inside: 1})
        B = subst(A, {v: P(v) + 1})
        if len(B.t) != 1:
            continue
        (m, c), = B.t.items()
        if c != 1 or m is inside or m == inside or m not in facs or facs[m].t != neg(facs[inside]).t:
            continue
        if not nonneg(n):
            break
        f = facs.pop(m)
        facs.pop(inside)
        out = out + mul(f, subst(A, {v: n}) - subst(A, {v: P(0)}))
    return out


def sorts_of(x, v):
    """the positions a sort puts the v-th element from, occurring in x"""
    out = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "app" and y.args[0] == "srt" and y.args[3] == P(v) and y not in out:
            out.append(y)
        return False
    if FACTS.sorted:
        mentions(x, pred)
    return out


def in_order(p):
    """p = key(j-th in sorted order) - key(i-th) with i <= j"""
    ss = set(a for m in p.t for a in srt_in(m))
    if len(ss) != 2:
        return False
    for a in ss:
        for b in ss:
            if a is not b and a.args[1] is b.args[1] and a.args[2] is b.args[2] and nonneg(a.args[3] - b.args[3]) \
                    and nonneg(b.args[3]) and nonneg(a.args[2] - 1 - a.args[3]):
                K = a.args[1]
                if p == read(K, (P(a),)) - read(K, (P(b),)):
                    return True
    return False


def srt_in(x):
    out = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "app" and y.args[0] == "srt":
            out.append(y)
        return False
    mentions(x, pred)
    return out


def by_rows(v, n, body):
    """a sum over all stored entries in which the row of an entry occurs is a sum over the rows"""
    if len(n.t) != 1 or v not in body.free:
        return None
    (m, c), = n.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "sel" or m[0][0].args[0] not in FACTS.monotone:
        return None
    nm, pre, last = m[0][0].args[0], tuple(m[0][0].args[1][:-1]), m[0][0].args[1][-1]
    if v in n.free or sel(nm, pre + (P(0),)).const != 0:
        return None
    hit = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "app" and y.args[0] == "rowof" and y.args[2] == P(v) and \
                isinstance(y.args[1], Arr) and y.args[1].kind == "sym" and y.args[1].args[0] == nm and \
                tuple(y.args[1].args[1]) == pre:
            hit.append(y)
        return False
    mentions(body, pred)
    if not hit:
        return None
    i, k = fresh_var(), fresh_var()
    lo, hi = sel(nm, pre + (P(i),)), sel(nm, pre + (P(i) + 1,))
    FACTS.vub[i] = last - 1
    FACTS.vub[k] = hi - lo - 1
    q = subst(replace_arrs(body, {}, {a: P(i) for a in hit}), {v: lo + P(k)})
    return mk_sum(i, last, mk_sum(k, hi - lo, q))


def compaction(v, n, body):
    r = compacted(v, n, body)
    if r is None:
        return streamed(v, n, body)
    k, N, G, rep = r
    out = mul(G, replace_arrs(body, {}, rep))
    if v in out.free:
        return None
    return mk_sum(k, N, out)


def compacted(v, n, body):
    """sum over the kept entries of a compacted array is the sum over all entries times the keep
    condition: A[count of kept before k] := x(k) for each kept k, summed over A[0..count)"""
    if n.const is not None or not any(a.kind == "sum" for m in n.t for a, _ in m):
        return None
    n = sum_diff(n)
    rds = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "rd" and v in y.free:
            rds.append(y)
        return False
    mentions(body, pred)
    if not rds:
        return None
    N = None
    rep = {}
    for rd in rds:
        A, ix = rd.args
        if v in A.free or A.kind != "log" or len(A.args[1]) != 1 or A.args[1][0][0] != "loop":
            return None
        B = ix[-1] - P(v)
        if v in B.free or any(v in x.free for x in ix[:-1]):
            return None
        v1, n1, es = open_loop(A.args[1][0])
        if len(es) != 1:
            return None
        at = {}
        if es[0][0] == "loop":
            # rows stored one after the other: row r keeps F(r) entries and starts at the sum of F below r
            r, nr = v1, n1
            v1, n1, es = open_loop(es[0])
            if len(es) != 1 or es[0][0] != "w":
                return None
            g, wix, val = es[0][1:4]
            k1 = fresh_var()
            FACTS.vub[k1] = n1 - 1
            F = mk_sum(k1, n1, subst(g, {v1: P(k1)}))
            start = wix[-1] - mk_sum(k1, P(v1), subst(g, {v1: P(k1)}))
            k2 = fresh_var()
            FACTS.vub[k2] = P(r) - 1
            if start != mk_sum(k2, P(r), subst(F, {r: P(k2)})) or not nonneg(F):
                return None
            bs = set()

            def bounds(y):
                if isinstance(y, Atom) and y.kind == "sum" and y.args[1].bvh == 0:
                    bs.add(y.args[1])
                return False
            mentions(B, bounds)
            for x in sorted(bs, key=lambda z: z.uid):
                if B == subst(start, {r: x}) and nonneg(x) and nonneg(nr - 1 - x):
                    at = {r: x}
                    break
            if not at:
                return None
            g, val, n1 = subst(g, at), subst(val, at), subst(n1, at)
            wix = tuple(subst(x, at) for x in wix)
        elif es[0][0] == "w":
            g, wix, val = es[0][1:4]
        else:
            return None
        if len(wix) != len(ix) or tuple(wix[:-1]) != tuple(ix[:-1]):
            return None
        k1 = fresh_var()
        FACTS.vub[k1] = n1 - 1
        gs = subst(g, {v1: P(k1)})
        if mk_sum(k1, P(v1), gs) + B != wix[-1] or mk_sum(k1, n1, gs) != n:
            return None
        if N is None:
            k = fresh_var()
            FACTS.vub[k] = n1 - 1
            N, G = n1, subst(g, {v1: P(k)})
        elif n1 != N or subst(g, {v1: P(k)}) != G:
            return None
        rep[rd] = subst(val, {v1: P(k)})
    return k, N, G, rep


def count_entries(es):
    """number of cells a list of writers appends"""
    out = P(0)
    for e in es:
        if e[0] == "w":
            out = out + e[1]
        elif e[0] == "loop":
            v, n, sub = open_loop(e)
            out = out + mk_sum(v, n, count_entries(sub))
        else:
            return None
    return out


def streamed(v, n, body):
    """sum over cells 0..n-1 of arrays that were filled one cell after the other: sum over the appends"""
    if n.const is not None or STREAM[0] > 3:
        return None
    rds = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "rd" and v in y.free:
            rds.append(y)
        return False
    mentions(body, pred)
    if not rds:
        return None
    row = None
    for rd in rds:
        A, ix = rd.args
        if A.kind != "log" or v in A.free or ix[-1] != P(v) or any(v in x.free for x in ix[:-1]):
            return None
        if row is not None and row != tuple(ix[:-1]):
            return None
        row = tuple(ix[:-1])
    STREAM[0] += 1
    try:
        return stream_walk(v, n, body, rds, row)
    except NoStream:
        return None
    finally:
        STREAM[0] -= 1


STREAM = [0]


class NoStream(Exception):
    pass


def same_count(a, b):
    return a == b or sum_diff(a - b).const == 0


def streamed_ext(kind, v, n, init, body):
    """the largest or smallest of the cells of arrays that were filled one cell after the other"""
    rds = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "rd" and v in y.free:
            rds.append(y)
        return False
    mentions(body, pred)
    if not rds or n.const is not None or STREAM[0] > 3:
        return None
    row = tuple(rds[0].args[1][:-1])
    for rd in rds:
        A, ix = rd.args
        if A.kind != "log" or v in A.free or ix[-1] != P(v) or tuple(ix[:-1]) != row or any(v in x.free for x in row):
            return None
    STREAM[0] += 1
    try:
        if kind == "mx" and init == subst(body, {v: P(0)}) and init.const is None:
            # starts from the first cell: from 0 if there are only nonnegative cells
            neg = []
            r = stream_walk(v, n, body, rds, row, (kind, P(0), neg))
            if not neg:
                return ite(eq(n, 0), init, r)
        return stream_walk(v, n, body, rds, row, (kind, init, []))
    except NoStream:
        return None
    finally:
        STREAM[0] -= 1


def extreme(kind, init, neg, vals):
    """the largest (smallest) of init and of the values that are guarded by the given conditions"""
    op = "max" if kind == "mx" else "min"
    out = []
    neg += [q for g, q in vals if not nonneg(q)]
    for g, q in vals:
        if g.const == 0:
            continue
        if g.const != 1:
            h = 1 - g
            # unless a == b: nothing is lost if q is a value from before in that case
            if not any(eq(q, o) == h or mul(h, q - o).const == 0 for o in out):
                q = ite(g, q, init)
        out.append(q)
    r = None
    for q in out:
        r = q if r is None else app(op, r, q)
    return init if r is None else r


def stream_walk(v, n, body, rds, row, ext=None):
    # rows as variables, so that the position of a writer in its own row can be formed
    rv = tuple(fresh_var() for _ in row)
    for x in rv:
        FACTS.vub[x] = None

    def cell(e, cur):
        """guard of the writer for this row; its position has to be the running count"""
        ix = e[2]
        if len(ix) != len(row) + 1:
            raise NoStream()
        g = e[1]
        for x, y in zip(ix, rv):
            g = mul(g, eq(x, P(y)))
        at = subst(cur, {y: x for x, y in zip(ix, rv)})
        if not same_count(at, ix[-1]) and mul(e[1], at - ix[-1]).const != 0:
            raise NoStream()
        return g

    def cnt(es):
        out = P(0)
        for e in es:
            if e[0] == "w":
                g = e[1]
                for x, y in zip(e[2], rv):
                    g = mul(g, eq(x, P(y)))
                out = out + g
            elif e[0] == "loop":
                w, N, sub = open_loop(e)
                out = out + mk_sum(w, N, cnt(sub))
            else:
                raise NoStream()
        return out

    def walk(lists, cur):
        """lists: per read the entries (same shape) -> (sum, count so far)"""
        out = P(0)
        vals = []
        if len(set(len(x) for x in lists)) != 1:
            raise NoStream()
        for es in zip(*lists):
            if len(set(e[0] for e in es)) != 1:
                raise NoStream()
            if es[0][0] == "w":
                gs = [cell(e, cur) for e in es]
                if any(g != gs[0] for g in gs):
                    raise NoStream()
                rep = {rd: e[3] for rd, e in zip(rds, es)}
                if any(mentions(e[3], lambda y: y is OLD) for e in es):
                    raise NoStream()
                q = subst(replace_arrs(body, {}, rep), {v: cur})
                vals.append((gs[0], q))
                if not ext:
                    out = out + mul(gs[0], q)
                cur = cur + gs[0]
            elif es[0][0] == "loop":
                w = fresh_var()
                N = es[0][2]
                FACTS.vub[w] = N - 1
                if any(e[2] != N for e in es):
                    raise NoStream()
                subs = [subst_entries(e[3], {atom("bv", e[1]): P(w)}) for e in es]
                c = cnt(subs[0])
                w2 = fresh_var()
                FACTS.vub[w2] = P(w) - 1
                inner = walk(subs, cur + mk_sum(w2, P(w), subst(c, {w: P(w2)})))[0]
                if ext:
                    vals.append((P(1), mk_ext(ext[0], w, N, ext[1], inner)))
                else:
                    out = out + mk_sum(w, N, inner)
                cur = cur + mk_sum(w, N, c)
            else:
                raise NoStream()
        return extreme(ext[0], ext[1], ext[2], vals) if ext else out, cur

    lists = [rd.args[0].args[1] for rd in rds]
    start = first_cell(lists[0], rv)
    base = P(0)
    if start.const != 0:
        if not nonneg(start) or ext:
            raise NoStream()
        w = fresh_var()
        FACTS.vub[w] = start - 1
        back = {y: x for x, y in zip(row, rv)}
        rep = {rd: read(rd.args[0].args[0], tuple(row) + (P(w),)) for rd in rds}
        base = mk_sum(w, subst(start, back), subst(replace_arrs(body, {}, rep), {v: P(w)}))
    out, cur = walk(lists, start)
    back = {y: x for x, y in zip(row, rv)}
    if not same_count(subst(cur, back), n):
        # the cells that the first rounds of the loop append
        if ext or len(lists[0]) != 1 or lists[0][0][0] != "loop":
            raise NoStream()
        N = lists[0][0][2]
        for a in round_counts(n):
            if not nonneg(a) or not nonneg(N - a):
                continue
            out, cur = walk([(e[0][:2] + (a,) + e[0][3:],) for e in lists], start)
            if same_count(subst(cur, back), n):
                break
        else:
            raise NoStream()
    out = base + subst(out, back)
    if v in out.free or any(x in out.free for x in rv):
        raise NoStream()
    return out


def round_counts(n):
    """numbers of rounds that a number of cells may belong to"""
    out = []
    for m in n.t:
        for a, e in m:
            x = a.args[1] if a.kind == "sum" else a.args[1][-1] if a.kind == "sel" and a.args[1] else None
            if x is not None and x.const is None and x not in out:
                out.append(x)
    return out[:4]


def first_cell(es, rv):
    """position of the first append, as a function of the row"""
    mm = {}
    e = es[0]
    while e[0] == "loop":
        w, N, sub = open_loop(e)
        mm[w] = P(0)
        e = sub[0]
    if e[0] != "w":
        raise NoStream()
    if not rv:
        return subst(e[2][-1], mm)
    # the part of the position that is a plain function of the row
    ix = e[2][:-1]
    pos = subst(e[2][-1], mm)
    ix = tuple(subst(x, mm) for x in ix)
    return replace_any(pos, ix, rv)


def replace_any(pos, ix, rv):
    """pos with the row expressions ix replaced by the row variables (in reads at exactly that row)"""
    rep = {}

    def pred(y):
        if isinstance(y, Atom) and y.kind in ("rd", "sel"):
            k = y.args[1]
            if tuple(k[:len(ix)]) == tuple(ix) and len(k) == len(ix):
                rep[y] = read(y.args[0], tuple(P(x) for x in rv)) if y.kind == "rd" else sel(y.args[0], tuple(P(x) for x in rv))
        return False
    mentions(pos, pred)
    return replace_arrs(pos, {}, rep)


def sum_diff(p):
    """c*sum_{v<N+1} F(v) - c*sum_{v<N} F(v)  ->  c*F(N)   (N >= 0)"""
    sums = []
    for m in p.t:
        for a, e in m:
            if a.kind == "sum" and e == 1:
                sums.append((m, a))
    if len(sums) < 2:
        return p
    for m, a in sums:
        for m2, b in sums:
            if a is b or a.args[0] != b.args[0] or a.args[2] is not b.args[2] or (a.args[1] - b.args[1]).const != 1:
                continue
            if p.t.get(m, 0) != -p.t.get(m2, 0) or p.t.get(m, 0) == 0:
                continue
            if [x for x in m if x[0] is not a] != [x for x in m2 if x[0] is not b]:
                continue
            if not nonneg(b.args[1]):
                continue
            co = _mkpoly({tuple(x for x in m if x[0] is not a): p.t[m]})
            F = subst(b.args[2], {atom("bv", b.args[0]): b.args[1]})
            return sum_diff(p - mul(co, P(a) - P(b)) + mul(co, F))
    return p


def absorb_tail(p, ground=False):
    """sum_{v<N} F(v) + F(N)  ->  sum_{v<N+1} F(v)   (N >= 0)"""
    tried = set()
    for _ in range(8):
        for m, c in p.t.items():
            hit = None
            for a, e in m:
                if a.kind == "sum" and e == 1 and (a.free or ground) and nonneg(a.args[1]) and not (ground and (a, m) in tried):
                    hit = a
                    break
            if hit is None:
                continue
            h, N, body = hit.args
            v = fresh_var()
            FACTS.vub[v] = N
            F = subst(body, {atom("bv", h): P(v)})
            co = _mkpoly({tuple(x for x in m if x[0] is not hit): c})
            tail = mul(co, subst(F, {v: N}))
            if tail.t and all(p.t.get(m2) == c2 for m2, c2 in tail.t.items()) and m not in tail.t:
                p = p - tail - mul(co, P(hit)) + mul(co, mk_sum(v, N + 1, F))
                break
        else:
            break
    return p


SPLIT = True


def split_point(v, n, body):
    """e with 0 <= e <= n such that [v < e] or [v == e] occurs in body: the range splits there"""
    best = None
    for a in nested_bools(body):
        if v not in a.free:
            continue
        e = solve_unit(a.args[0], v)
        if e is None or v in e.free or any(x.kind == "bv" for x in e.free):
            continue
        if a.kind == "lt0":
            if a.args[1] != "i":
                continue
            if Fraction(_coef(a.args[0], v)) < 0:
                e = e + 1
        else:
            continue
        if (n - e).const == 0 or e.const == 0:
            continue
        if nonneg(e) and nonneg(n - e):
            if best is None or e.uid < best.uid:
                best = e
    return best


def _coef(p, v):
    return p.t.get(((v, 1),), 0)


def has_bracket_on(p, v):
    return v in p.free and any(a.kind in ("lt0", "eq0", "sum", "mx", "mn", "rd", "fold", "app") and v in a.free
                               for m in p.t for a, e in m)


def in_range(v, n, body):
    """simplify body knowing 0 <= v < n"""
    if not has_bracket_on(body, v) or v in FACTS.vub:
        return body, v
    v2 = fresh_var()
    FACTS.vub[v2] = n - 1
    return subst(body, {v: P(v2)}), v2


def solve_unit(p, v):
    """p linear in var atom v with coefficient +-1: returns e with p==0 <=> v==e, else None"""
    k = None
    rest = {}
    for m, c in p.t.items():
        hit = [a for a, e in m if v in a.free]
        if not hit:
            rest[m] = c
            continue
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1 and abs(c) == 1:
            k = c
        else:
            return None
    if k is None:
        return None
    return scale(_mkpoly(rest), Fraction(-1) / k)


def _sum_mono(v, n, m):
    """m: monomial (tuple) whose every atom depends on v"""
    if not m:
        return app("pos", n)
    for a, e in m:
        if a.kind == "eq0":
            s = solve_unit(a.args[0], v)
            if s is not None:
                rest = tuple(x for x in m if x[0] is not a)
                val = subst(_mkpoly({rest: Fraction(1)}), {v: s})
                return mul(mul(le(0, s), lt(s, n)), val)
    # exchange with an inner sum that pins v by an equation
    for a, e in m:
        if a.kind == "sum" and e == 1 and v not in a.args[1].free and pins(a.args[2], v):
            w, wn, wb = open_binder(a)
            rest = _mkpoly({tuple(x for x in m if x[0] is not a): Fraction(1)})
            return mk_sum(w, wn, mk_sum(v, n, mul(wb, rest)))
    # partition rule: [P(v) <= x][x < P(v+1)] * G(v)
    r = _partition_sum(v, n, m)
    if r is not None:
        return r
    body = _mkpoly({m: Fraction(1)})
    if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
        pn = app("pos", n)
        return scale(mul(pn, pn) - pn, Fraction(1, 2))
    return P(mk_binder("sum", v, n, body))


def pins(body, v, depth=0):
    """every monomial of body contains an equation (possibly under sums) that determines v"""
    if not body.t or depth > 4:
        return False
    for m in body.t:
        ok = False
        for a, e in m:
            if a.kind == "eq0" and v in a.free and solve_unit(a.args[0], v) is not None:
                ok = True
                break
            if a.kind == "sum" and e == 1 and v in a.free and v not in a.args[1].free and pins(a.args[2], v, depth + 1):
                ok = True
                break
        if not ok:
            return False
    return True


def mk_binder(kind, v, n, body):
    h, (b,) = close(v, [body])
    # reorder nested sums with independent ranges canonically
    if kind == "sum" and len(b.t) == 1:
        (m, c), = b.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sum":
            inner = m[0][0]
            ih, inn, ib = inner.args
            bvo = atom("bv", h)
            if bvo not in inn.free and inn.uid < n.uid:
                # swap: outer takes inner's range
                v1, v2 = fresh_var(), fresh_var()
                bb = subst(ib, {atom("bv", ih): P(v1), bvo: P(v2)})
                inner2 = mk_sum(v2, n, bb)
                h2, (b2,) = close(v1, [inner2])
                return atom("sum", h2, inn, b2)
    return atom(kind, h, n, b)


def _partition_sum(v, n, m):
    lts = [a for a, e in m if a.kind == "lt0" and a.args[1] == "i"]
    if not lts:
        return None
    # the bracket may occur in complemented form; only plain monomials are handled:
    # lower: not [x < P(v)]  appears expanded as (1 - [x-P(v) < 0]); handled by caller via expansion,
    # so here we look for  [x - P(v+1) < 0] * rest  and  [x - P(v) < 0] pairs are combined in partition_pair.
    return None


def open_binder(a):
    """returns (var, n, body) for a sum/mx/mn atom"""
    h, n, body = a.args[0], a.args[1], a.args[-1]
    v = fresh_var()
    FACTS.vub[v] = n - 1
    return v, n, subst(body, {atom("bv", h): P(v)})


def mk_fold(v, acc, n, init, body):
    """single-scalar recurrence: acc_0 = init; acc_{k+1} = body(acc_k, k)"""
    if n.const is not None and n.const <= 0:
        return init
    # acc' = acc + g*(x - acc) where g holds at most once
    pa = P(acc)
    d0 = subst(body, {acc: P(0)})
    if acc not in d0.free and FACTS.distinct:
        g = 1 - (subst(body, {acc: P(1)}) - d0)
        if acc not in g.free and is_bool(g) and (body - d0 - mul(pa, 1 - g)).const == 0 and distinct_hit(v, n, g):
            return mul(init, 1 - mk_sum(v, n, g)) + mk_sum(v, n, d0) if mul(d0, 1 - g).const == 0 else _fold(v, acc, n, init, body)
    return _fold(v, acc, n, init, body)


def _fold(v, acc, n, init, body):
    _, bvh, _, _ = _meta((body,))
    h = bvh + 1
    b = subst(body, {v: P(atom("bv", h)), acc: P(atom("bv", h + 1))})
    return P(atom("fold", h, n, init, b))


def mk_ext(kind, v, n, init, body):
    """mx/mn: max(init, max_k body)"""
    if n.const is not None and n.const <= 0:
        return init
    if v not in body.free and nonneg(n - 1):
        return app("max" if kind == "mx" else "min", init, body)
    r = streamed_ext(kind, v, n, init, body)
    if r is not None:
        return r
    h, (b,) = close(v, [body])
    return P(atom(kind, h, n, init, b))


# ---------------------------------------------------------------- substitution

_substcache = {}


def subst(p, m):
    if not p.free or not m:
        return p
    mm = {k: v for k, v in m.items() if k in p.free}
    if not mm:
        return p
    k = (p.uid, tuple(sorted((a.uid, v.uid) for a, v in mm.items())))
    r = _substcache.get(k)
    if r is not None:
        return r
    out = P(0)
    consts = {}
    for mono, c in p.t.items():
        fixed = []
        t = None
        for a, e in mono:
            if a.free and any(x in a.free for x in mm):
                q = subst_atom(a, mm)
                for _ in range(e if not a.bool_ else 1):
                    t = q if t is None else mul(t, q)
            else:
                fixed.append((a, e))
        if t is None:
            consts[mono] = consts.get(mono, 0) + c
        else:
            out = out + mul(_mkpoly({tuple(fixed): c}), t)
    if consts:
        out = out + _mkpoly(consts)
    _substcache[k] = out
    return out


_satom = {}


def subst_atom(a, mm):
    if a in mm:
        return mm[a]
    kind = a.kind
    if kind == "sel":
        return sel(a.args[0], tuple(subst(i, mm) for i in a.args[1]))
    if kind == "lt0":
        return lt0(subst(a.args[0], mm), a.args[1])
    if kind == "eq0":
        return eq0(subst(a.args[0], mm))
    if kind == "app":
        return app(a.args[0], *[subst_any(x, mm) for x in a.args[1:]])
    if kind == "rd":
        return read(subst_arr(a.args[0], mm), tuple(subst(i, mm) for i in a.args[1]))
    if kind == "sum":
        v, n, body = open_binder(a)
        n = subst(n, mm)
        FACTS.vub[v] = n - 1
        return mk_sum(v, n, subst(body, mm))
    if kind in ("mx", "mn"):
        h, n, init, body = a.args
        v = fresh_var()
        body = subst(body, {atom("bv", h): P(v)})
        return mk_ext(kind, v, subst(n, mm), subst(init, mm), subst(body, mm))
    if kind == "fold":
        h, n, init, body = a.args
        v, acc = fresh_var(), fresh_var("r")
        body = subst(body, {atom("bv", h): P(v), atom("bv", h + 1): P(acc)})
        return mk_fold(v, acc, subst(n, mm), subst(init, mm), subst(body, mm))
    return P(a)


def subst_any(x, mm):
    if isinstance(x, Poly):
        return subst(x, mm)
    if isinstance(x, Arr):
        return subst_arr(x, mm)
    if isinstance(x, tuple):
        return tuple(subst_any(y, mm) for y in x)
    return x


# ---------------------------------------------------------------- arrays

def mkarr(kind, *args):
    k = (kind, key(args))
    a = _arrs.get(k)
    if a is not None:
        return a
    a = Arr()
    a.kind = kind
    a.args = args
    a.uid = next(_uid)
    if kind == "log":
        free, bvh, unk, size = _meta_log(args)
    else:
        free, bvh, unk, size = _meta(args)
    if size > MAXSIZE:
        raise Budget("array term too large")
    if kind == "lam":
        hs = args[0]
        free = frozenset(x for x in free if not (x.kind == "bv" and x.args[0] in hs))
        bvh = max(hs) if hs else bvh
    if kind == "unk":
        unk = True
    a.free = free
    a.bvh = bvh
    a.unk = unk
    a.size = size
    _arrs[k] = a
    return a


def _meta_log(args):
    free, bvh, unk, size = _meta((args[0],))
    f2, b2, u2, s2 = _meta_entries(args[1])
    return free | f2, max(bvh, b2), unk or u2, size + s2


def _meta_entries(entries):
    free, bvh, unk, size = EMPTY, 0, False, 1
    for e in entries:
        if e[0] == "loop":
            f, b, u, s = _meta_entries(e[3])
            h = e[1]
            f = frozenset(x for x in f if not (x.kind == "bv" and x.args[0] == h))
            f2, b2, u2, s2 = _meta((e[2],))
            f, b, u, s = f | f2, max(b2, h), u or u2, s + s2
        elif e[0] == "w":
            f, b, u, s = _meta(e[1:])
            f = frozenset(x for x in f if x is not OLD)
        elif e[0] in ("bulk", "sort"):
            f, b, u, s = _meta(e[1:])
            if e[0] == "sort":
                hs = e[4]
                f = frozenset(x for x in f if not (x.kind == "bv" and x.args[0] in (hs, hs + 1)))
                b = max(b, hs + 1)
        else:
            raise AssertionError(e[0])
        free |= f
        bvh = max(bvh, b)
        unk = unk or u
        size += s
    return free, bvh, unk, size


OLD = atom("var", "OLD")


def arr_sym(name, prefix=()):
    return mkarr("sym", name, tuple(prefix))


def arr_const(c, dims=1):
    hs = tuple(range(1, dims + 1))
    return mkarr("lam", hs, P(c))


def arr_lam(vs, body):
    """vs: list of var atoms (one per index)"""
    h0 = body.bvh
    hs = tuple(h0 + 1 + i for i in range(len(vs)))
    body = subst(body, {v: P(atom("bv", h)) for v, h in zip(vs, hs)})
    return mkarr("lam", hs, body)


def arr_slice(src, prefix):
    if not prefix:
        return src
    if src.kind == "sym":
        return arr_sym(src.args[0], src.args[1] + tuple(prefix))
    if src.kind == "lam":
        hs, body = src.args
        k = len(prefix)
        vs = [fresh_var() for _ in hs]
        body = subst(body, {atom("bv", h): P(v) for h, v in zip(hs, vs)})
        body = subst(body, {v: p for v, p in zip(vs, prefix)})
        return arr_lam(vs[k:], body)
    return mkarr("slice", src, tuple(prefix))


def arr_shift(src, off):
    """b[x] = a[x + off] on the last index"""
    off = P(off)
    if off.const == 0:
        return src
    if src.kind == "lam" and len(src.args[0]) == 1:
        v = fresh_var()
        return arr_lam([v], read(src, (P(v) + off,)))
    return mkarr("shift", src, off)


def arr_log(base, entries):
    entries = tuple(e for e in entries if not (e[0] == "w" and e[1].const == 0))
    if not entries:
        return base
    if base.kind == "log":
        return mkarr("log", base.args[0], base.args[1] + entries)
    return mkarr("log", base, entries)


def arr_ite(c, a, b):
    if c.const is not None:
        return a if c.const != 0 else b
    if a is b:
        return a
    ba, ea = (a.args if a.kind == "log" else (a, ()))
    bb, eb = (b.args if b.kind == "log" else (b, ()))
    if ba is bb:
        k = 0
        while k < len(ea) and k < len(eb) and ea[k] == eb[k]:
            k += 1
        return arr_log(ba, ea[:k] + guard_entries(ea[k:], c) + guard_entries(eb[k:], 1 - c))
    return mkarr("ite", c, a, b)


def write(arr, idx, val, guard=None):
    return arr_log(arr, (("w", guard if guard is not None else P(1), tuple(idx), val),))


def subst_entries(entries, mm):
    out = []
    for e in entries:
        if e[0] == "w":
            out.append(("w", subst(e[1], mm), subst_any(e[2], mm), subst(e[3], mm)))
        elif e[0] == "loop":
            v, n, es = open_loop(e)
            out.append(mk_loop(v, subst(n, mm), subst_entries(es, mm)))
        else:
            out.append(tuple(subst_any(x, mm) if not isinstance(x, (str, int)) else x for x in e))
    return tuple(out)


def open_loop(e):
    h, n, es = e[1], e[2], e[3]
    v = fresh_var()
    FACTS.vub[v] = n - 1
    return v, n, subst_entries(es, {atom("bv", h): P(v)})


def runs_once(n):
    """what a body that is executed (n >= 1 times) may assume: atom -> value"""
    if n.const is not None or not n.t:
        return {}
    out = {}
    for q, val in ((eq0(n), 0), (lt0(neg(n)), 1)):
        if q.const is not None:
            continue
        c = q.t.get((), 0)
        rest = [(m, k) for m, k in q.t.items() if m]
        if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1 and rest[0][0][0][0].bool_:
            a, k = rest[0][0][0][0], rest[0][1]
            if (c, k) == (0, 1):
                out[a] = P(val)
            elif (c, k) == (1, -1):
                out[a] = P(1 - val)
    return out


def replace_entries(entries, g):
    out = []
    for e in entries:
        if e[0] == "w":
            w = replace_arrs(e[1], {}, g)
            if w.const == 0:
                continue
            out.append(("w", w, tuple(replace_arrs(x, {}, g) for x in e[2]), replace_arrs(e[3], {}, g)))
        elif e[0] == "loop":
            es = replace_entries(e[3], g)
            if es:
                out.append(("loop", e[1], replace_arrs(e[2], {}, g), es))
        else:
            out.append(e)
    return tuple(out)


def mk_loop(v, n, entries):
    n = sum_diff(n)
    if n.const is None and any(a.kind == "sum" for m in n.t for a, _ in m) and all(e[0] == "w" for e in entries):
        r = compacted(v, n, tuple(x for e in entries for x in e[1:]))
        if r is not None:
            k, N, G, rep = r
            es = tuple(("w", mul(G, replace_arrs(e[1], {}, rep)), tuple(replace_arrs(x, {}, rep) for x in e[2]), replace_arrs(e[3], {}, rep)) for e in entries)
            if not mentions(es, lambda y: y is v):
                v, n, entries = k, N, es
    g = runs_once(n)
    if g and mentions(entries, lambda y: y in g):
        entries = replace_entries(entries, g)
    _, bvh, _, _ = _meta_entries(entries)
    h = bvh + 1
    return ("loop", h, n, subst_entries(entries, {v: P(atom("bv", h))}))


def guard_entries(entries, g):
    if g.const == 1:
        return tuple(entries)
    out = []
    for e in entries:
        if e[0] in ("w", "bulk", "sort"):
            out.append((e[0], mul(e[1], g)) + tuple(e[2:]))
        else:
            v, n, es = open_loop(e)
            out.append(mk_loop(v, n, guard_entries(es, g)))
    return tuple(out)


def subst_arr(a, mm):
    if not a.free:
        return a
    mm = {k: v for k, v in mm.items() if k in a.free}
    if not mm:
        return a
    if a.kind == "sym":
        return arr_sym(a.args[0], tuple(subst(i, mm) for i in a.args[1]))
    if a.kind == "lam":
        hs, body = a.args
        vs = [fresh_var() for _ in hs]
        body = subst(body, {atom("bv", h): P(v) for h, v in zip(hs, vs)})
        return arr_lam(vs, subst(body, mm))
    if a.kind == "slice":
        return arr_slice(subst_arr(a.args[0], mm), tuple(subst(i, mm) for i in a.args[1]))
    if a.kind == "shift":
        return arr_shift(subst_arr(a.args[0], mm), subst(a.args[1], mm))
    if a.kind == "log":
        return arr_log(subst_arr(a.args[0], mm), subst_entries(a.args[1], mm))
    if a.kind == "ite":
        return arr_ite(subst(a.args[0], mm), subst_arr(a.args[1], mm), subst_arr(a.args[2], mm))
    if a.kind == "uninit":
        return a
    if a.kind == "phi":
        # array-valued placeholder: replaced through arrmap in subst_phi
        return a
    return mkarr(a.kind, *[subst_any(x, mm) for x in a.args])


def leaf_writes(entry, idx):
    """flatten a loop entry to [(binders, w)] with binders = [(var, n)] outermost first, or None"""
    if entry[0] == "w":
        return [([], entry)]
    if entry[0] == "bulk":
        k = len(entry[2])
        return [([], ("w", entry[1], entry[2], read(entry[3], idx[k:])))]
    if entry[0] == "loop":
        v, n, es = open_loop(entry)
        out = []
        for e in es:
            sub = leaf_writes(e, idx)
            if sub is None:
                return None
            for b, w in sub:
                out.append(([(v, n)] + b, w))
        return out
    return None


def add_delta(val):
    """val = OLD + d, d free of OLD -> d, else None"""
    d = val - P(OLD)
    if OLD in d.free:
        return None
    return d


_readcache = {}


def read(arr, idx):
    idx = tuple(P(i) for i in idx)
    k = arr.kind
    if k == "sym":
        return sel(arr.args[0], arr.args[1] + idx)
    if k == "lam":
        hs, body = arr.args
        return subst(body, {atom("bv", h): i for h, i in zip(hs, idx)})
    if k == "slice":
        return read(arr.args[0], arr.args[1] + idx)
    if k == "shift":
        return read(arr.args[0], idx[:-1] + (idx[-1] + arr.args[1],))
    if k == "ite":
        return ite(arr.args[0], read(arr.args[1], idx), read(arr.args[2], idx))
    if k == "log":
        ck = (arr.uid, tuple(i.uid for i in idx), FACTS.version)
        r = _readcache.get(ck)
        if r is None:
            r = _read_log(arr, idx)
            _readcache[ck] = r
        return r
    return P(atom("rd", arr, idx))


def _read_log(arr, idx):
    base, entries = arr.args
    e = entries[-1]
    restarr = arr_log(base, entries[:-1])
    if e[0] == "w":
        g = e[1]
        for a, b in zip(e[2], idx):
            g = mul(g, eq(a, b))
            if g.const == 0:
                break
        if g.const == 0:
            return read(restarr, idx)
        if OLD not in e[3].free and g.const == 1:
            return e[3]
        rest = read(restarr, idx)
        v = subst(e[3], {OLD: rest})
        return ite(g, v, rest)
    if e[0] == "loop":
        lw = leaf_writes(e, idx)
        if lw is not None:
            # drop writes that cannot touch idx
            live = []
            for b, w in lw:
                g = w[1]
                for x, y in zip(w[2], idx):
                    g = mul(g, eq(x, y))
                if g.const == 0:
                    continue
                live.append((b, w, g))
            if not live:
                return read(restarr, idx)
            deltas = [add_delta(w[3]) for b, w, g in live]
            if all(d is not None for d in deltas):
                r = read(restarr, idx)
                for (b, w, g), d in zip(live, deltas):
                    t = mul(g, d)
                    for v, n in reversed(b):
                        t = mk_sum(v, n, t)
                    r = r + t
                return r
            if len(live) == 1:
                b, w, g = live[0]
                u = stacked_hit(b, w, idx)
                if u is not None:
                    return u
                u = unique_hit(b, g, w[3])
                if u is not None:
                    cnt, val = u
                    rest = read(restarr, idx)
                    val = subst(val, {OLD: rest})
                    return val + mul(1 - cnt, rest)
    elif e[0] == "bulk":
        g = e[1]
        k = len(e[2])
        for a, b in zip(e[2], idx):
            g = mul(g, eq(a, b))
        if g.const == 0:
            return read(restarr, idx)
        v = read(e[3], idx[k:])
        if g.const == 1:
            return v
        return ite(g, v, read(restarr, idx))
    return P(atom("rd", arr, idx))


def stacked_hit(binders, w, idx):
    """rows of lengths c(0), c(1), ... written one behind the other, read at an element of row a"""
    if len(binders) != 2 or w[1].const != 1 or OLD in w[3].free:
        return None
    (v1, n1), (v2, n2) = binders
    if any(x != y for x, y in zip(w[2][:-1], idx[:-1])) or any(v1 in x.free or v2 in x.free for x in w[2][:-1]):
        return None
    q = fresh_var()

    def before(a):
        FACTS.vub[q] = a - 1
        return mk_sum(q, a, subst(n2, {v1: P(q)}))
    base = w[2][-1] - P(v2) - before(P(v1))
    if v1 in base.free or v2 in base.free:
        return None
    cand = []

    def pred(y):
        if isinstance(y, Atom) and y.kind == "sum" and y.args[1].bvh == 0 and y.args[1] not in cand:
            cand.append(y.args[1])
        return False
    mentions(idx[-1], pred)
    for a in [P(0)] + cand[:4]:
        r = idx[-1] - base - before(a)
        if nonneg(a) and nonneg(n1 - 1 - a) and nonneg(r) and nonneg(subst(n2, {v1: a}) - 1 - r):
            return subst(w[3], {v1: a, v2: r})
    return None


def unique_hit(binders, g, val):
    """Given hit condition g (product containing index equations) over binders,
    eliminate every binder by solving an equation; returns (count, guarded value)."""
    cnt = g
    va = mul(g, val)
    # iterate: innermost first, then outer
    for v, n in reversed(binders):
        if v not in cnt.free:
            # every iteration would hit: last one wins -> not unique
            return None
        nc = delta_only(v, n, cnt)
        nv = delta_only(v, n, va)
        if nc is None or nv is None:
            if not distinct_hit(v, n, cnt):
                return None
            nc, nv = mk_sum(v, n, cnt), mk_sum(v, n, va)
        cnt, va = nc, nv
    return cnt, va


def distinct_hit(v, n, body):
    """at most one v in the range satisfies the guard: every term carries [X[..v..] == x]
    for an index array X known to be injective on that range"""
    if not FACTS.distinct:
        return False
    common = None
    for m in body.t:
        s = set(a for a, e in m if a.kind == "eq0" and v in a.free)
        common = s if common is None else common & s
        if not common:
            return False
    for a in common:
        p = a.args[0]
        hit = [(m, c) for m, c in p.t.items() if any(v in x.free for x, e in m)]
        if len(hit) != 1:
            continue
        m, c = hit[0]
        if abs(c) != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "sel":
            continue
        name, idxs = m[0][0].args
        while name in FACTS.injective and len(idxs) == 1 and len(idxs[0].t) == 1:
            # injective relabelling of another index array
            (m1, c1), = idxs[0].t.items()
            if c1 != 1 or len(m1) != 1 or m1[0][1] != 1 or m1[0][0].kind != "sel":
                break
            name, idxs = m1[0][0].args
        ss = sorts_of(idxs, v)
        if ss and all(x.args[2] == n for x in ss):
            idxs = replace_arrs(tuple(idxs), {}, {x: P(v) for x in ss})
        f = FACTS.distinct.get(name)
        if f is None or any(v in i.free for i in idxs[:-1]):
            continue
        off = idxs[-1] - P(v)
        if v in off.free:
            continue
        if f(idxs[:-1], off, n):
            return True
        # modulo the other equations of the guard
        for b in common:
            if b is a:
                continue
            for w in list(n.free):
                q = solve_unit(b.args[0], w) if w in b.free else None
                if q is not None and f(idxs[:-1], off, subst(n, {w: q})):
                    return True
    return False


def delta_only(v, n, body):
    """sum over v by delta elimination / partition rule only; None when a real sum remains"""
    r = partition_delta(v, n, body)
    if r is not None:
        return r
    out = P(0)
    for m, c in body.t.items():
        hit = None
        for a, e in m:
            if a.kind == "eq0" and v in a.free:
                s = solve_unit(a.args[0], v)
                if s is not None:
                    hit = (a, s)
                    break
        if hit is None:
            return None
        a, s = hit
        rest = tuple(x for x in m if x[0] is not a)
        val = subst(_mkpoly({rest: c}), {v: s})
        out = out + mul(mul(le(0, s), lt(s, n)), val)
    return out


def partition_delta(v, n, body):
    """body = ([P(v) <= x] [x < P(v+1)]) * G(v) expanded over Iverson atoms.
    With P a partition (P(0)=0, monotone) exactly one v hits for 0<=x<P(n)."""
    # find candidate atoms A=[x - P(v+1) < 0] style
    cands = set()
    for m in body.t:
        for a, e in m:
            if a.kind == "lt0" and v in a.free:
                cands.add(a)
    if len(cands) < 2:
        return None
    info = []
    for a in sorted(cands, key=lambda y: y.uid):
        r = _bracket(a, v)
        if r is None:
            continue
        info.append((a,) + r)
    for a, pa, xa, off_a, pol_a in info:
        for b, pb, xb, off_b, pol_b in info:
            # a: [x < P(v+1)]  ; b: [x < P(v)]  (pol True => bracket is exactly that)
            if a is b or pa != pb or xa is not xb or off_a != off_b + 1:
                continue
            # with P a partition: v < row <=> (A,B) = (0,0), v == row <=> (1,0), v > row <=> (1,1)
            b00 = assign(body, {a: 0 if pol_a else 1, b: 0 if pol_b else 1})
            b11 = assign(body, {a: 1 if pol_a else 0, b: 1 if pol_b else 0})
            if b00 is not b11:
                continue
            G = assign(body, {a: 1 if pol_a else 0, b: 0 if pol_b else 1}) - b00
            name, prefix = pa
            cells = FACTS.partition.get(name)
            if cells is None:
                continue
            row = app("rowof", arr_sym(name, prefix), xa)
            base = off_b   # P(v+off_b): v = row - off_b
            vv = row - base
            g = mul(le(0, xa), lt(xa, cells(prefix)))
            # all cells lie in the summed range when range is the full partition
            if (n - FACTS.partition_n[name](prefix)).const == 0 and base == 0:
                inr = P(1)
            else:
                inr = mul(le(0, vv), lt(vv, n))
            r = mul(mul(g, inr), subst(G, {v: vv}))
            return r if not b00.t else r + mk_sum(v, n, b00)
    return None


def assign(p, m):
    d = {}
    for mono, c in p.t.items():
        x = c
        keep = []
        for a, e in mono:
            if a in m:
                if not m[a]:
                    x = 0
                    break
            else:
                keep.append((a, e))
        if x:
            k = tuple(keep)
            d[k] = d.get(k, 0) + x
    return _mkpoly(d)


def _bracket(a, v):
    """a = [p<0]; p = +-(x - P(v+off)) (+ const).  Returns ((name,prefix), x, off, polarity)
    with polarity True: a == [x < P(v+off)], False: a == 1-[x < P(v+off)]"""
    p = a.args[0]
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and v in m[0][0].free and abs(c) == 1:
            s = m[0][0]
            name, idxs = s.args
            if name not in FACTS.partition:
                return None
            off = (idxs[-1] - P(v)).const
            if off is None or any(v in i.free for i in idxs[:-1]):
                return None
            rest = _mkpoly({mm: cc for mm, cc in p.t.items() if mm != m})
            if v in rest.free:
                return None
            if c == -1:
                # rest - P < 0  <=> x < P with x = rest
                return (name, idxs[:-1]), rest, off, True
            # P + rest < 0 <=> P < -rest <=> P <= -rest-1 <=> not(-rest-1 < P)
            x = -rest - 1
            return (name, idxs[:-1]), x, off, False
    return None


Facts.partition_n = {}


# ---------------------------------------------------------------- array placeholders

SYSTEMS = {}


def new_system(t, raw, after, free, phis):
    """state variables raw become after in iteration t; free and phis are parameters"""
    sid = len(SYSTEMS) + 1
    SYSTEMS[sid] = (t, raw, after, free, phis)
    return sid


_phis = {}


def phis_of(x):
    """array placeholders in x"""
    r = _phis.get(x.uid)
    if r is None:
        r = set()

        def pred(y):
            if isinstance(y, Arr) and y.kind == "phi":
                r.add(y)
            return False
        mentions(x, pred)
        r = _phis[x.uid] = tuple(sorted(r, key=lambda a: a.uid))
    return r


def arr_phi(name):
    return mkarr("phi", name)


def replace_arrs(x, amap, vmap=None, memo=None):
    """rebuild x replacing array placeholders (amap: Arr->Arr) and atoms (vmap)"""
    if memo is None:
        memo = {}
    vmap = vmap or {}

    def go(y):
        if isinstance(y, Poly):
            if y.uid in memo:
                return memo[y.uid]
            out = P(0)
            for m, c in y.t.items():
                t = P(c)
                for a, e in m:
                    q = goa(a)
                    for _ in range(e):
                        t = mul(t, q)
                out = out + t
            memo[y.uid] = out
            return out
        if isinstance(y, Arr):
            return goarr(y)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y

    def goa(a):
        k = ("a", a.uid)
        if k in memo:
            return memo[k]
        r = goa_(a)
        memo[k] = r
        return r

    def goa_(a):
        if a in vmap:
            return vmap[a]
        kd = a.kind
        if kd == "sel":
            return sel(a.args[0], go(a.args[1]))
        if kd == "lt0":
            return lt0(go(a.args[0]), a.args[1])
        if kd == "eq0":
            return eq0(go(a.args[0]))
        if kd == "app":
            return app(a.args[0], *[go(z) for z in a.args[1:]])
        if kd == "rd":
            return read(goarr(a.args[0]), go(a.args[1]))
        if kd == "sum":
            v, n, body = open_binder(a)
            n = go(n)
            FACTS.vub[v] = n - 1
            return mk_sum(v, n, go(body))
        if kd in ("mx", "mn"):
            h, n, init, body = a.args
            v = fresh_var()
            body = subst(body, {atom("bv", h): P(v)})
            return mk_ext(kd, v, go(n), go(init), go(body))
        if kd == "fold":
            h, n, init, body = a.args
            v, acc = fresh_var(), fresh_var("r")
            body = subst(body, {atom("bv", h): P(v), atom("bv", h + 1): P(acc)})
            return mk_fold(v, acc, go(n), go(init), go(body))
        return P(a)

    def goents(es):
        out = []
        for e in es:
            if e[0] == "loop":
                v, n, sub = open_loop(e)
                n = go(n)
                FACTS.vub[v] = n - 1
                out.append(mk_loop(v, n, goents(sub)))
            else:
                out.append(tuple(go(z) if not isinstance(z, (str, int)) else z for z in e))
        return tuple(out)

    def goarr(a):
        if a in amap:
            return amap[a]
        k = ("r", a.uid)
        if k in memo:
            return memo[k]
        if a.kind == "sym":
            r = arr_sym(a.args[0], go(a.args[1]))
        elif a.kind == "lam":
            hs, body = a.args
            vs = [fresh_var() for _ in hs]
            body = subst(body, {atom("bv", h): P(v) for h, v in zip(hs, vs)})
            r = arr_lam(vs, go(body))
        elif a.kind == "slice":
            r = arr_slice(goarr(a.args[0]), go(a.args[1]))
        elif a.kind == "shift":
            r = arr_shift(goarr(a.args[0]), go(a.args[1]))
        elif a.kind == "log":
            r = arr_log(goarr(a.args[0]), goents(a.args[1]))
        elif a.kind == "ite":
            r = arr_ite(go(a.args[0]), goarr(a.args[1]), goarr(a.args[2]))
        elif a.kind in ("phi", "uninit", "unk"):
            r = a
        else:
            r = mkarr(a.kind, *[go(x) for x in a.args])
        memo[k] = r
        return r

    return go(x)


def mentions(x, pred, memo=None):
    """does x contain an atom/array satisfying pred"""
    if memo is None:
        memo = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, (Poly, Arr, Atom)):
            if y.uid in memo:
                continue
            memo.add(y.uid)
            if isinstance(y, Poly):
                for m in y.t:
                    for a, e in m:
                        stack.append(a)
                continue
            if pred(y):
                return True
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return False


def guard_subst(p, rounds=4):
    """use every guard [a == e] (a a scalar input) inside the rest of its monomial"""
    for _ in range(rounds):
        out = P(0)
        changed = False
        for m, c in p.t.items():
            mono = _mkpoly({m: c})
            for x, e in m:
                if x.kind != "eq0":
                    continue
                r = _scalar_eq(x)
                if r is None:
                    continue
                a, val = r
                rest = _mkpoly({tuple(y for y in m if y[0] is not x): c})
                if not mentions(rest, lambda y: y is a):
                    continue
                mono = mul(P(x), replace_arrs(rest, {}, {a: val}))
                changed = True
                break
            out = out + mono
        p = out
        if not changed:
            break
    return p


def _scalar_eq(x):
    p = x.args[0]
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.kind == "sel" and not a.args[1]:
                rest = _mkpoly({mm: cc for mm, cc in p.t.items() if mm is not m})
                if mentions(rest, lambda y: y is a):
                    continue
                if best is None or a.uid > best[0].uid:
                    best = (a, scale(rest, Fraction(-1) / c))
    return best


# ---------------------------------------------------------------- unknowns

def unknown(why):
    return P(atom("unk", "u%d" % next(_fresh), why))


def unk_reason(x):
    res = []

    def pred(y):
        if y.kind == "unk" and len(y.args) > 1:
            res.append(str(y.args[1]))
        return False
    mentions(x, pred)
    return res[0] if res else "unknown"


# ---------------------------------------------------------------- printing

def show(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0])):
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            s = show_atom(a, depth)
            f.append(s if e == 1 else "%s^%d" % (s, e))
        out.append("*".join(f))
    return " + ".join(out)


def show_atom(a, depth=0):
    if depth > 12:
        return "..."
    d = depth + 1
    k = a.kind
    if k == "sel":
        if not a.args[1]:
            return a.args[0]
        return "%s[%s]" % (a.args[0], ",".join(show(i, d) for i in a.args[1]))
    if k == "var":
        return a.args[0]
    if k == "bv":
        return "k%d" % a.args[0]
    if k == "lt0":
        return "[%s < 0]" % show(a.args[0], d)
    if k == "eq0":
        return "[%s == 0]" % show(a.args[0], d)
    if k == "sum":
        return "SUM(k%d<%s: %s)" % (a.args[0], show(a.args[1], d), show(a.args[2], d))
    if k in ("mx", "mn"):
        return "%s(k%d<%s,%s: %s)" % (k, a.args[0], show(a.args[1], d), show(a.args[2], d), show(a.args[3], d))
    if k == "fold":
        return "FOLD(k%d<%s, acc=k%d from %s: %s)" % (a.args[0], show(a.args[1], d), a.args[0] + 1, show(a.args[2], d), show(a.args[3], d))
    if k == "rd":
        return "%s[%s]" % (show_arr(a.args[0], d), ",".join(show(i, d) for i in a.args[1]))
    if k == "app":
        return "%s(%s)" % (a.args[0], ", ".join(show(x, d) if isinstance(x, Poly) else show_arr(x, d) if isinstance(x, Arr) else str(x) for x in a.args[1:]))
    if k == "unk":
        return "?%s" % a.args[0]
    return "%s%r" % (k, a.args)


def show_entries(es, d):
    out = []
    for e in es:
        if e[0] == "w":
            g = "" if e[1].const == 1 else "if %s: " % show(e[1], d)
            out.append("%s[%s] := %s" % (g, ",".join(show(i, d) for i in e[2]), show(e[3], d)))
        elif e[0] == "loop":
            out.append("for k%d<%s {%s}" % (e[1], show(e[2], d), show_entries(e[3], d)))
        else:
            out.append(e[0])
    return "; ".join(out)


def show_arr(a, depth=0):
    if depth > 12:
        return "..."
    d = depth + 1
    if a.kind == "sym":
        return a.args[0] + ("[%s]" % ",".join(show(i, d) for i in a.args[1]) if a.args[1] else "")
    if a.kind == "lam":
        return "\\%s.%s" % (",".join("k%d" % h for h in a.args[0]), show(a.args[1], d))
    if a.kind == "log":
        return "<%s | %s>" % (show_arr(a.args[0], d), show_entries(a.args[1], d))
    if a.kind == "slice":
        return "%s[%s,..]" % (show_arr(a.args[0], d), ",".join(show(i, d) for i in a.args[1]))
    if a.kind == "shift":
        return "shift(%s,%s)" % (show_arr(a.args[0], d), show(a.args[1], d))
    return "%s%r" % (a.kind, a.args)


def instances(p, cands):
    """use what a condition on a whole range says about a given position of it.
    cands: (i, n) with 0 <= i < n.  [no k<n has g(k)] also says that not g(i),
    [all k<n have g(k)] that g(i), [max f <= c] that f(i) <= c"""
    def bit(x):
        return x.const is None and len(x.t) == 1 and list(x.t.values())[0] == 1 and all(a.kind in ("lt0", "eq0") for a, _ in list(x.t)[0])

    def facts(a):
        L = a.args[0]
        out = []
        if a.kind == "eq0" and len(L.t) == 1:
            # a product is zero if the factor that can be zero is
            m = [y for y, _ in list(L.t)[0] if not nonneg(P(y) - 1)]
            if len(m) == 1:
                L = P(m[0])
        for m, c in L.t.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            x = m[0][0]
            if x.kind not in ("sum", "mx", "mn"):
                continue
            v, n, body = open_binder(x)
            rest = L - scale(P(x), c)
            if mentions(rest, lambda y: y is x):
                continue
            for i, k in cands:
                if not (nonneg(n - k) or n is k):
                    continue
                g = subst(body, {v: i})
                if x.kind == "sum":
                    if a.kind == "eq0" and bit(body):
                        if rest.const == 0:
                            out.append(1 - g)
                        elif scale(rest, Fraction(-1) / c) is n or (scale(rest, Fraction(-1) / c) - n).const == 0:
                            out.append(g)
                elif a.kind == "lt0":
                    # [rest + c x < 0]: a larger (smaller) x makes it false
                    h = lt0(rest + scale(g, c), a.args[1])
                    if (x.kind == "mx") == (c > 0):
                        out.append(h)
                    else:
                        out.append((None, h))
        return out
    r = P(0)
    for m, c in p.t.items():
        q = P(c)
        for a, e in m:
            y = P(a)
            if a.kind in ("lt0", "eq0") and not a.free:
                for f in facts(a):
                    if isinstance(f, tuple):
                        # h implies a
                        y = f[1] + mul(y, 1 - f[1])
                    else:
                        y = mul(y, f)
            for _ in range(e):
                q = mul(q, y)
        r = r + q
    return r
