"""Refutation of term identities: two closed forms that are not structurally
equal are separated by a sample assignment of the symbolic inputs (a
Schwartz-Zippel style identity test on the *terms*; nothing of /repo runs)."""
from fractions import Fraction
import math
import random
import struct
import zlib
import terms as TM
from terms import Poly, Atom, Arr, P, OLD, guard_subst


class CannotEval(Exception):
    pass


class Cells(object):
    """an array at one point of a recurrence"""
    def __init__(self, m, arr, env, phi):
        self.m, self.arr, self.env, self.phi, self.memo = m, arr, env, phi, {}

    def get(self, idx):
        v = self.memo.get(idx)
        if v is None:
            m = self.m
            save, m.phi = m.phi, self.phi
            try:
                v = self.memo[idx] = m.rd(self.arr, idx, self.env)
            finally:
                m.phi = save
        return v


class Model(object):
    phi = {}

    def cells(self, x, env):
        if x.kind == "phi":
            return self.phi[x]
        ps = TM.phis_of(x)
        k = ("cells", x.uid, tuple((a.uid, env[a]) for a in sorted(x.free, key=lambda a: a.uid) if a in env),
             tuple(id(self.phi[p]) for p in ps))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = Cells(self, x, dict(env), {p: self.phi[p] for p in ps})
        return r

    def state(self, sid, i, n, args, env):
        """state variable i of a system of recurrences after n rounds"""
        t, raw, after, free, phis = TM.SYSTEMS[sid]
        n = _int(self.ev(n, env))
        self.limit(n)
        vals = [self.cells(x, env) if isinstance(x, Arr) else self.ev(x, env) for x in args]
        k = ("sys", sid, tuple(id(v) if isinstance(v, Cells) else v for v in vals))
        st = self.memo.get(k)
        if st is None:
            st = self.memo[k] = [vals[:len(raw)]]
        while len(st) <= n:
            cur = st[-1]
            e2 = dict(zip(free, vals[len(raw):]))
            p2 = dict(zip(phis, vals[len(raw) + len(free):]))
            e2[t] = Fraction(len(st) - 1)
            for a, v in zip(raw, cur):
                (p2 if isinstance(a, Arr) else e2)[a] = v
            new = []
            self.memo.setdefault('keep', []).append(p2)
            save, self.phi = self.phi, p2
            try:
                for a, v, x in zip(raw, cur, after):
                    new.append(v if x is a else Cells(self, x, e2, p2) if isinstance(x, Arr) else self.ev(x, e2))
            finally:
                self.phi = save
            st.append(new)
        return st[max(n, 0)][i]

    def __init__(self, spec, seed, small=4, special=False):
        self.spec = spec
        self.seed = seed
        self.rng = random.Random(seed)
        self.dims = {}
        self.cache = {}
        self.csr = {}
        self.memo = {}
        self.special = special
        self.frac = seed % 4 == 1
        for nm, lo in spec["dims"]:
            hi = small
            self.dims[nm] = lo + self.rng.choice([0, 1, 1, 2, 2, 3, 3, 4][: 4 + small])
        for nm, ds in spec.get("zero_if", ()):
            if any(self.dims[d] == 0 for d in ds):
                self.dims[nm] = 0
        self.fuel = 400000

    # ---- values of symbolic inputs
    def h(self, *k):
        return zlib.crc32(repr((self.seed,) + k).encode())

    tiny = False

    def realval(self, name, idx):
        x = self.h(name, idx)
        if self.special and x % 5 == 0:
            return Fraction(0)
        if self.tiny and x % 5 == 1:
            return Fraction(1 if x & 64 else -1, 10 ** (3, 5, 7, 9, 11, 13, 15, 17)[(x >> 8) % 8])
        v = (x >> 4) % 19 - 9
        if self.frac and (x >> 12) % 2 and not _intname(self, name):
            return Fraction(4 * v + 1 + (x >> 13) % 3, 4) + (Fraction(1, 1000) if (x >> 15) % 2 else 0)
        return Fraction(v if v else 10)

    forced = {}

    def force(self, a, v):
        """give a plain input a value; everything drawn from it is drawn again"""
        name, idx = a.args[0], tuple(_int(self.ev(i)) for i in a.args[1])
        if not idx and name in self.dims:
            if v < dict(self.spec["dims"])[name] or v > 40:
                return False
            self.dims[name] = int(v)
        else:
            s = self.spec["arrays"].get(name)
            if s is None or s[0] not in ("int", "real") or v.denominator != 1 or (idx and abs(v) > 40):
                return False
            self.forced = dict(self.forced)
            self.forced[(name, idx)] = v
        self.cache, self.csr, self.memo = {}, {}, {}
        return True

    def steer(self, p, rng):
        """move plain inputs so that the guards of one product of p hold"""
        ms = [m for m in p.t if any(a.kind in ("lt0", "eq0") for a, e in m)]
        if not ms:
            return
        gs = [a for a, e in rng.choice(ms) if a.kind in ("lt0", "eq0") and not a.free]
        for _ in range(2):
            rng.shuffle(gs)
            for g in gs:
                try:
                    if self.eva(g, {}) != 0:
                        continue
                    L = g.args[0]
                    xs = [(m[0][0], c) for m, c in L.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sel" and c in (1, -1)]
                    rng.shuffle(xs)
                    for a, c in xs:
                        v = self.eva(a, {})
                        if self.force(a, v - (self.ev(L) + (g.kind == "lt0")) / c):
                            break
                except CannotEval:
                    continue

    def value(self, name, idx):
        if not idx and name in self.dims:
            return Fraction(self.dims[name])
        k = (name, idx)
        if k in self.forced:
            return self.forced[k]
        if k in self.cache:
            return self.cache[k]
        a = self.spec["arrays"].get(name)
        v = None
        if a is None:
            v = self.realval(name, idx)
        elif a[0] == "real":
            self.tiny = self.special and self.seed % 2
            v = self.realval(name, idx)
            self.tiny = False
        elif a[0] == "pos":
            v = abs(self.realval(name, idx)) + 1
        elif a[0] == "nonzero":
            v = self.realval(name, idx) or Fraction(3)
        elif a[0] == "int":
            v = Fraction(self.h(name, idx) % 9 - 4)
        elif a[0] == "bool":
            v = Fraction((self.h(name, idx) >> 3) % 2)
        elif a[0] == "index":
            n = a[1](tuple(P(i) for i in idx)) if callable(a[1]) else a[1]
            n = int(self.ev(n))
            if n <= 0:
                if not idx:
                    raise CannotEval("empty index range")
                v = Fraction(0)
            elif not idx:
                # single indices are drawn so that they often coincide
                u = self.h(name, idx)
                v = Fraction((self.h("pool", 0) if u % 8 < 3 else self.h("pool", 1) if u % 8 < 6 else u >> 3) % n)
            else:
                v = Fraction(self.h(name, idx) % n)
        elif a[0].startswith("csr."):
            v = self.csrval(name, a, idx)
        elif a[0] == "fn":
            v = a[1](self, idx)
            v = v if isinstance(v, float) else Fraction(v)
        elif a[0] == "offsets":
            # nondecreasing offsets starting at 0
            n = int(idx[-1])
            if n < 0:
                v = Fraction(-1)
            else:
                v = Fraction(sum(self.h(name, idx[:-1], q) % 3 for q in range(n)))
        elif a[0] == "perm":
            n = int(self.ev(a[1]))
            key = ("perm", name)
            if key not in self.cache:
                l = list(range(n))
                random.Random(self.h(name)).shuffle(l)
                self.cache[key] = l
            i = int(idx[0])
            l = self.cache[key]
            v = Fraction(l[i]) if 0 <= i < n else Fraction(-7)
        elif a[0] == "distinct":
            # distinct indices below a[1]
            n = int(self.ev(a[1]))
            key = ("perm", name)
            if key not in self.cache:
                l = list(range(n))
                random.Random(self.h(name)).shuffle(l)
                self.cache[key] = l
            i = int(idx[0])
            l = self.cache[key]
            v = Fraction(l[i]) if 0 <= i < n else Fraction(n)
        else:
            raise CannotEval("model of " + name)
        self.cache[k] = v
        return v

    def csrval(self, name, a, idx):
        kind, base, rows, cols = a[:4]
        pre, i = idx[:-1], int(idx[-1])
        key = (base, pre)
        if key not in self.csr:
            pp = tuple(P(x) for x in pre)
            r = int(self.ev(rows(pp) if callable(rows) else rows))
            c = int(self.ev(cols(pp) if callable(cols) else cols))
            rng = random.Random(self.h("csr", base, pre))
            opts = a[4] if len(a) > 4 else {}
            ptr, js = [0], []
            for _ in range(max(r, 0)):
                cnt = rng.choice([0, 1, 1, 2, 2, 3]) if c > 0 else 0
                if opts.get("distinct", True):
                    row = rng.sample(range(c), min(cnt, c))
                    if opts.get("sorted"):
                        row.sort()
                else:
                    row = [rng.randrange(c) for _ in range(cnt)]
                js += row
                ptr.append(len(js))
            self.csr[key] = (ptr, js)
        ptr, js = self.csr[key]
        if kind == "csr.p":
            if 0 <= i < len(ptr):
                return Fraction(ptr[i])
            return Fraction(-3 if i < 0 else ptr[-1] + 1)
        if kind == "csr.j":
            if 0 <= i < len(js):
                return Fraction(js[i])
            return Fraction(self.h(name, idx) % 7 - 1)
        return self.realval(name, idx)

    # ---- evaluation
    def ev(self, p, env=None):
        env = env or {}
        closed = not p.free
        if closed:
            k = p.uid if not self.phi or not TM.phis_of(p) else (p.uid, id(self.phi))
            if k in self.memo:
                return self.memo[k]
        self.fuel -= 1
        if self.fuel < 0:
            raise CannotEval("fuel")
        tot = Fraction(0)
        for m, c in p.t.items():
            x = c
            for a, e in sorted(m, key=lambda ae: _cost(ae[0])):
                v = self.eva(a, env)
                if v == 0:
                    x = 0
                    break
                x = x * v ** e if e != 1 else x * v
            tot = tot + x
        if closed:
            self.memo[k] = tot
        return tot

    def eva(self, a, env):
        kd = a.kind
        if kd == "sel":
            return self.value(a.args[0], tuple(_int(self.ev(i, env)) for i in a.args[1]))
        if kd in ("bv", "var"):
            if a in env:
                return env[a]
            raise CannotEval("free variable %r" % (a,))
        if not a.free:
            k = ("a", a.uid) if not self.phi or not TM.phis_of(a) else ("a", a.uid, id(self.phi))
            if k in self.memo:
                return self.memo[k]
            v = self._eva(a, env)
            self.memo[k] = v
            return v
        return self._eva(a, env)

    def _eva(self, a, env):
        kd = a.kind
        if kd == "lt0":
            v = self.ev(a.args[0], env)
            if isinstance(v, float) and abs(v) < 1e-9:
                raise CannotEval("borderline comparison")
            return Fraction(1 if v < 0 else 0)
        if kd == "eq0":
            v = self.ev(a.args[0], env)
            if isinstance(v, float):
                return Fraction(1 if abs(v) < 1e-12 else 0)
            return Fraction(1 if v == 0 else 0)
        if kd == "sum":
            h, n, body = a.args
            n = _int(self.ev(n, env))
            b = TM.atom("bv", h)
            e2 = dict(env)
            tot = Fraction(0)
            self.limit(n)
            for k in range(n):
                e2[b] = Fraction(k)
                tot = tot + self.ev(body, e2)
            return tot
        if kd in ("mx", "mn"):
            h, n, init, body = a.args
            n = _int(self.ev(n, env))
            v = self.ev(init, env)
            b = TM.atom("bv", h)
            e2 = dict(env)
            self.limit(n)
            for k in range(n):
                e2[b] = Fraction(k)
                x = self.ev(body, e2)
                v = max(v, x) if kd == "mx" else min(v, x)
            return v
        if kd == "fold":
            h, n, init, body = a.args
            n = _int(self.ev(n, env))
            v = self.ev(init, env)
            b, acc = TM.atom("bv", h), TM.atom("bv", h + 1)
            e2 = dict(env)
            self.limit(n)
            for k in range(n):
                e2[b] = Fraction(k)
                e2[acc] = v
                v = self.ev(body, e2)
            return v
        if kd == "app":
            return self.evapp(a, env)
        if kd == "rd":
            return self.rd(a.args[0], tuple(_int(self.ev(i, env)) for i in a.args[1]), env)
        raise CannotEval("%s %s" % (kd, a.args[-1] if kd == "unk" else ""))

    def limit(self, n):
        if n > 200:
            raise CannotEval("range too long")

    def evapp(self, a, env):
        f = a.args[0]
        if f == "rowof":
            arr, x = a.args[1], _int(self.ev(a.args[2], env))
            name, pre = arr.args
            pre = tuple(_int(self.ev(i, env)) for i in pre)
            for r in range(0, 60):
                if self.value(name, pre + (r,)) <= x < self.value(name, pre + (r + 1,)):
                    return Fraction(r)
            return Fraction(-1)
        if f == "absarg":
            return self.absarg(a.args[1], env)
        if f == "srt":
            n, k = _int(self.ev(a.args[2], env)), _int(self.ev(a.args[3], env))
            self.limit(n)
            keys = [self.rd(a.args[1], (i,), env) for i in range(n)]
            if not 0 <= k < n:
                raise CannotEval("sorted position outside the range")
            return Fraction(sorted(range(n), key=lambda i: keys[i])[k])
        if f == "clip":
            return max(min(self.ev(a.args[1], env), self.ev(a.args[2], env) - 1), Fraction(0))
        if f == "rec":
            return self.state(a.args[1], a.args[2], a.args[3], a.args[4:], env)
        xs = [self.ev(x, env) if isinstance(x, Poly) else x for x in a.args[1:]]
        if f == "pos":
            return max(xs[0], Fraction(0))
        if f == "inv":
            if xs[0] == 0:
                raise CannotEval("division by zero")
            return 1 / xs[0] if isinstance(xs[0], float) else Fraction(1) / xs[0]
        if f == "abs":
            return abs(xs[0])
        if f == "f32":
            return Fraction(struct.unpack("f", struct.pack("f", float(xs[0])))[0])
        if f == "trunc":
            return Fraction(int(xs[0]))
        if f == "max":
            return max(xs)
        if f == "min":
            return min(xs)
        if f == "idiv":
            if xs[1] == 0:
                raise CannotEval("division by zero")
            q = abs(xs[0]) // abs(xs[1])
            return Fraction(q if (xs[0] >= 0) == (xs[1] > 0) else -q)
        if f == "imod":
            if xs[1] == 0:
                raise CannotEval("division by zero")
            q = abs(xs[0]) // abs(xs[1])
            q = q if (xs[0] >= 0) == (xs[1] > 0) else -q
            return Fraction(xs[0] - q * xs[1])
        if f == "sqrt":
            if xs[0] < 0:
                raise CannotEval("sqrt of negative")
            r = math.isqrt(int(xs[0])) if not isinstance(xs[0], float) and xs[0].denominator == 1 else None
            if r is not None and r * r == xs[0]:
                return Fraction(r)
            return math.sqrt(xs[0])
        if f == "bool":
            return Fraction(1 if xs[0] != 0 else 0)
        raise CannotEval("function " + str(f))

    def absarg(self, p, env):
        """the element selected by an extremum over magnitudes (the first one)"""
        def inner(q):
            if len(q.t) == 1 and q.const in (None, 0) or len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return m[0][0]
            raise CannotEval("absarg")
        a = inner(p)
        if a.kind == "app" and a.args[0] == "abs":
            return self.ev(a.args[1], env)
        if a.kind not in ("mx", "mn"):
            raise CannotEval("absarg")
        h, n, init, body = a.args
        n = _int(self.ev(n, env))
        b = TM.atom("bv", h)
        best, arg = self.ev(init, env), None
        e2 = dict(env)
        self.limit(n)
        for k in range(n):
            e2[b] = Fraction(k)
            x = self.ev(body, e2)
            if (x > best if a.kind == "mx" else x < best) or (arg is None and x == best):
                best, arg = x, k
        if arg is None:
            raise CannotEval("absarg")
        e2[b] = Fraction(arg)
        return self.ev(inner(body).args[1], e2)

    # ---- arrays given by write logs
    def rd(self, arr, idx, env):
        k = arr.kind
        if k == "phi" and arr in self.phi:
            return self.phi[arr].get(idx)
        if k == "rec":
            return self.state(arr.args[0], arr.args[1], arr.args[2], arr.args[3], env).get(idx)
        if k == "sym":
            return self.value(arr.args[0], tuple(_int(self.ev(i, env)) for i in arr.args[1]) + idx)
        if k == "lam":
            hs, body = arr.args
            e2 = dict(env)
            for h, i in zip(hs, idx):
                e2[TM.atom("bv", h)] = Fraction(i)
            return self.ev(body, e2)
        if k == "slice":
            return self.rd(arr.args[0], tuple(_int(self.ev(i, env)) for i in arr.args[1]) + idx, env)
        if k == "shift":
            return self.rd(arr.args[0], idx[:-1] + (idx[-1] + _int(self.ev(arr.args[1], env)),), env)
        if k == "ite":
            return self.rd(arr.args[1] if self.ev(arr.args[0], env) != 0 else arr.args[2], idx, env)
        if k == "log":
            base, entries = arr.args
            hits = []
            self.collect(entries, idx, env, hits)
            # apply newest-first until an absolute write is found
            stack = []
            for val, e2 in reversed(hits):
                stack.append((val, e2))
                if not isinstance(val, tuple) and OLD not in val.free:
                    break
                if isinstance(val, tuple):
                    break
            else:
                cur = None
                v = None
                if not stack or True:
                    v = self.rd(base, idx, env)
                for val, e2 in reversed(stack):
                    e3 = dict(e2)
                    e3[OLD] = v
                    v = self.ev(val, e3)
                return v
            v = None
            for val, e2 in reversed(stack):
                if isinstance(val, tuple):
                    v = self.rd(val[0], val[1], e2)
                    continue
                e3 = dict(e2)
                if v is not None:
                    e3[OLD] = v
                v = self.ev(val, e3)
            return v
        raise CannotEval("array " + k)

    def collect(self, entries, idx, env, out):
        for e in entries:
            self.fuel -= 1
            if self.fuel < 0:
                raise CannotEval("fuel")
            if e[0] == "w":
                if all(self.ev(i, env) == x for i, x in zip(e[2], idx)) and self.ev(e[1], env) != 0:
                    out.append((e[3], dict(env)))
            elif e[0] == "bulk":
                k = len(e[2])
                if all(self.ev(i, env) == x for i, x in zip(e[2], idx)) and self.ev(e[1], env) != 0:
                    out.append(((e[3], idx[k:]), dict(env)))
            elif e[0] == "loop":
                n = _int(self.ev(e[2], env))
                self.limit(n)
                b = TM.atom("bv", e[1])
                e2 = dict(env)
                for k in range(n):
                    e2[b] = Fraction(k)
                    self.collect(e[3], idx, e2, out)
            else:
                raise CannotEval("entry " + e[0])


def _cost(a):
    return {"lt0": 0, "eq0": 0, "sel": 1, "bv": 0}.get(a.kind, 2)


def _intname(m, name):
    s = m.spec["arrays"].get(name)
    return name in TM.FACTS.intsel or s is not None and s[0] not in ("real", "csr.x")


def _int(v):
    if isinstance(v, float):
        if v != int(v):
            raise CannotEval("non-integer index")
        return int(v)
    if v.denominator != 1:
        raise CannotEval("non-integer index")
    return int(v)


def differ(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) > 1e-9 * (1 + abs(a) + abs(b))
    return a != b


def models(ctx, count=90, seed=1):
    for s in range(count):
        yield Model(ctx.model, seed * 1000 + s, special=(s % 3 == 2))


def compare(ctx, lhs, rhs, assume=(), count=90, seed=1, observing=True, steer=0):
    """-> ('proved', None) | ('violation', witness) | ('agree', n) | ('undecided', why)"""
    lhs, rhs = TM.sum_diff(lhs), TM.sum_diff(rhs)
    if lhs is rhs:
        return "proved", None
    try:
        if not (lhs.unk or rhs.unk) and (TM.sum_diff(lhs - rhs).const == 0 or guard_subst(lhs - rhs).const == 0):
            return "proved", None
    except TM.Budget:
        pass
    if lhs.unk or rhs.unk:
        return "undecided", TM.unk_reason(lhs if lhs.unk else rhs)
    n = 0
    why = ""
    for m in models(ctx, count, seed):
        try:
            if any(m.ev(x) == 0 for x in list(ctx.pre) + (ctx.obs_pre if observing else []) + list(assume)):
                continue
            a, b = m.ev(lhs), m.ev(rhs)
        except CannotEval as e:
            why = str(e)
            continue
        except RecursionError:
            why = "recursion"
            continue
        n += 1
        if differ(a, b):
            return "violation", describe(m, a, b)
    try:
        d = lhs - rhs
        if not steer and d.size > 400 and TM.mentions(d, lambda y: getattr(y, "kind", None) == "rec" or getattr(y, "kind", None) == "app" and y.args[0] == "rec"):
            raise TM.Budget("recurrence")
        d = TM.refine(d)
        if d.const != 0:
            cands = [(TM.sym(nm), P(a[1])) for nm, a in ctx.model["arrays"].items()
                     if a[0] == "index" and not callable(a[1]) and nm.endswith("#")]
            if cands and len(d.t) < 60:
                e = TM.instances(d, cands)
                if e is not d:
                    d = TM.guard_subst(e) if e.const is None else e
                    if d.const is None:
                        d = TM.refine(d)
        if d.const == 0 and n >= 3:
            return "proved", None
    except (TM.Budget, RecursionError):
        d = None
    if d is not None and steer:
        # the inputs that separate the two terms may satisfy several equations at once
        for m in models(ctx, steer, seed + 7):
            try:
                m.steer(d, random.Random(m.seed))
                if any(m.ev(x) == 0 for x in list(ctx.pre) + (ctx.obs_pre if observing else []) + list(assume)):
                    continue
                a, b = m.ev(lhs), m.ev(rhs)
            except (CannotEval, RecursionError):
                continue
            n += 1
            if differ(a, b):
                return "violation", describe(m, a, b)
    if n < 3:
        return "undecided", why or "no sample satisfies the preconditions"
    return "agree", n


def describe(m, a, b):
    d = {k.rstrip("#"): int(v) for k, v in m.dims.items()}
    for (nm, idx), v in m.cache.items():
        if nm.endswith("#") and not idx:
            d[nm.rstrip("#")] = int(v)
    for (nm, pre), (ptr, js) in m.csr.items():
        d[nm + (str([int(x) for x in pre]) if pre else "")] = {"row_starts": ptr, "columns": js}
    vals = {}
    for k, v in m.cache.items():
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and len(vals) < 40:
            vals["%s%s" % (k[0], [int(x) for x in k[1]])] = str(v)
    return {"sizes": d, "inputs": vals, "got": str(a), "expected": str(b)}
