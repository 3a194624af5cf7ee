"""Recurrences over arrays in which every round meets a stream of keys and does
something the first time a key comes up (marker arrays of sparse products).

The transition of one item is known; whether an item is the first of its key
follows from the values the marker can hold: its initial value, a value stored in
an earlier round, or the one stored in this round.  D is the number of different
keys of a round and K the p-th of them in the order in which they come up."""
from fractions import Fraction
import terms as TM
from terms import P, Poly, Arr, atom, var, fresh_var, mul, eq, read, mk_sum, mk_loop, arr_log, replace_arrs, mentions, subst, sel

KEYS = {}       # name of D -> (name of K, binders, key, parameters)


def rec_of(x):
    if isinstance(x, Arr):
        return (x.args[0], x.args[1], x.args[2], x.args[3]) if x.kind == "rec" else None
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "rec":
            a = m[0][0].args
            return a[1], a[2], a[3], a[4:]
    return None


def uses(x, own):
    return mentions(x, lambda y: y in own)


def flatten(ks, raw, after):
    """-> (keys of the components, start values, binders, placeholders, values after one item)"""
    groups = {}
    for k in ks:
        r = rec_of(after[k])
        if r:
            groups.setdefault((r[0], r[2].uid, tuple(x.uid for x in r[3])), {})[r[1]] = (k, r)
    if len(groups) != 1:
        return None
    (g,) = groups.values()
    sid, _, N, args = list(g.values())[0][1]
    t, sraw, safter, free, phis = TM.SYSTEMS[sid]
    nc = len(sraw)
    keys = [g[i][0] if i in g else None for i in range(nc)]
    start = list(args[:nc])
    binders = []
    names = list(sraw)
    own = set(sraw)
    while True:
        vm = {a: x for a, x in zip(free, args[nc:]) if P(a) is not x}
        am = {a: x for a, x in zip(phis, args[nc + len(free):]) if a is not x}
        if uses(N, own):
            return None
        v = fresh_var()
        TM.FACTS.vub[v] = N - 1
        binders.append((v, N))
        vm[t] = P(v)
        after = [replace_arrs(x, am, vm) for x in safter]
        rs = [rec_of(x) for x in after]
        if all(rs) and len(set((r[0], r[2].uid, tuple(x.uid for x in r[3])) for r in rs)) == 1:
            sid, _, N, args = rs[0]
            t, raw2, after2, free, phis = TM.SYSTEMS[sid]
            if len(raw2) != nc:
                return None
            pos = [r[1] for r in rs]
            for c in range(nc):
                x = args[pos[c]]
                if x is not (names[c] if isinstance(names[c], Arr) else P(names[c])):
                    return None
            am2 = {raw2[pos[c]]: names[c] for c in range(nc) if isinstance(names[c], Arr)}
            vm2 = {raw2[pos[c]]: P(names[c]) for c in range(nc) if not isinstance(names[c], Arr)}
            safter = [replace_arrs(after2[pos[c]], am2, vm2) for c in range(nc)]
            continue
        return keys, start, binders, names, after


def rounds(I, ks, raw, after, init, t, T):
    """-> {key: closed form at round T} for the counter and the arrays filled along the way"""
    f = flatten(ks, raw, after)
    if f is None:
        return None
    keys, start, binders, names, leaf = f
    own = set(names)
    top = set(raw[k] for k in ks)
    cT = [c for c, a in enumerate(names) if not isinstance(a, Arr)]
    if len(cT) != 1:
        return None
    cT = cT[0]
    tau = P(names[cT])
    g = leaf[cT] - tau
    if not TM.is_bool(g) or g.const is not None:
        return None
    logs = {}
    for c, a in enumerate(names):
        if c == cT:
            continue
        x = leaf[c]
        if x.kind != "log" or x.args[0] is not a or any(e[0] != "w" or len(e[2]) != 1 for e in x.args[1]):
            return None
        logs[c] = x.args[1]
    cM = [c for c, es in logs.items() if len(es) == 1 and es[0][1] is g and not uses(es[0][2][0], own)
          and mentions(g, lambda y: y.kind == "rd" and y.args[0] is names[c] and y.args[1] == es[0][2])]
    if len(cM) != 1:
        return None
    cM = cM[0]
    key, w = logs[cM][0][2][0], logs[cM][0][3]
    mark = atom("rd", names[cM], (key,))
    x = var("n'mk")
    xx = var("q'mk")
    gx = replace_arrs(g, {}, {mark: P(xx)})
    if uses(gx, own) or uses(key, top) or any(uses(n, top) for _, n in binders):
        return None
    # ---- the counter at the start of the round
    s = fresh_var()
    local = {}
    if keys[cT] is None or start[cT] is not P(raw[keys[cT]]) or not isinstance(init[keys[cT]], Poly):
        return None
    kT = keys[cT]
    Ts = init[kT] + P(s)

    def at(y, x=None, tv=None, rnd=None):
        m = {raw[kT]: Ts}
        if x is not None:
            m[xx] = x
        if tv is not None:
            m[names[cT]] = tv
        if rnd is not None:
            m[t] = rnd
        return subst(y, m)
    p, a, b = fresh_var(), fresh_var(), fresh_var()
    # a key met before in this round
    wown = at(w, tv=Ts + P(p))
    if uses(wown, own | top) or at(gx, wown).const != 0:
        return None
    # a key last met in an earlier round, or never
    if keys[cM] is not None and start[cM] is raw[keys[cM]]:
        if uses(w, {raw[kT]}):
            return None
        wold = at(w, tv=Ts - 1 - P(b), rnd=P(t) - 1 - P(a))
        if at(gx, wold).const != 1:
            return None
        A0 = init[keys[cM]]
    elif keys[cM] is None and not uses(start[cM], top):
        A0 = start[cM]
    else:
        return None
    if at(gx, read(A0, (key,))).const != 1:
        return None
    # ---- different keys of a round
    D, K, first = names_of(I, binders, key)
    if any(q in top for q in D.free):
        return None
    TM.FACTS.vub[p] = D - 1
    kp = K(P(p))

    def met(v):
        """value v of the item that brings up the p-th key"""
        return kp if v is key else subst(v, {bv: first(i, P(p)) for i, (bv, _) in enumerate(binders)})
    out = {"marker": keys[cM], "end": {list(list(after[kT].t)[0])[0][0]: P(raw[kT]) + D}}
    r = fresh_var()
    TM.FACTS.vub[r] = P(T) - 1
    tot = mk_sum(r, P(T), subst(D, {t: P(r)}))
    out[kT] = init[kT] + tot
    for c, es in logs.items():
        if c == cM:
            continue
        if keys[c] is None or start[c] is not raw[keys[c]]:
            return None
        e0 = [e for e in es if e[1] is g]
        e1 = [e for e in es if e[1] is not g]
        if len(e0) != 1 or len(e1) > 1 or e0[0][2][0] is not tau or uses(e0[0][3], own | top):
            return None
        v = met(e0[0][3])
        if e1:
            e = e1[0]
            pos = e[2][0]
            old = P(atom("rd", names[c], (pos,)))
            if (e[1] + g).const != 1 or pos is not P(mark) or w is not tau:
                return None
            v2 = e[3] - old
            if TM.OLD in e[3].free:
                v2 = e[3] - P(TM.OLD)
            if uses(v2, own | top) or TM.OLD in v2.free:
                return None
            y = mul(v2, eq(key, kp))
            for bv, n in reversed(binders):
                y = mk_sum(bv, n, y)
            v = y + met(e0[0][3] - v2)
        sr = subst(tot, {T: P(t)})
        ent = mk_loop(p, D, (("w", P(1), (init[kT] + sr + P(p),), v),))
        r = fresh_var()
        TM.FACTS.vub[r] = P(T) - 1
        out[keys[c]] = arr_log(init[keys[c]], (mk_loop(r, P(T), TM.subst_entries((ent,), {t: P(r)})),))
    return out


def names_of(I, binders, key):
    F = TM.FACTS
    bs = [v for v, _ in binders]
    par = sorted((set(key.free) | set(a for _, n in binders for a in n.free)) - set(bs), key=lambda a: a.uid)
    pv = [var("n'par%d" % i) for i in range(len(par))]
    cb = [var("n'bnd%d" % i) for i in range(len(binders))]
    mm = {a: P(v) for a, v in zip(par, pv)}
    mm.update({a: P(v) for a, v in zip(bs, cb)})
    for a, v in list(zip(par, pv)) + list(zip(bs, cb)):
        F.vub[v] = subst(F.vub[a], mm) if a in F.vub else None
        if F.vub[v] is None:
            del F.vub[v]
    nb = [(v, subst(n, mm)) for v, (_, n) in zip(cb, binders)]
    nk = subst(key, mm)
    q = TM.app("item", nk)
    for v, n in reversed(nb):
        q = mk_sum(v, n, q)
    d, k = "keys%d" % q.uid, "key%d" % q.uid
    F.nonneg_sel.add(d)
    F.intsel.update((d, k))
    if TM.nonneg(nk):
        F.nonneg_sel.add(k)
    if len(nk.t) == 1 and list(nk.t.values())[0] == 1:
        (m,) = nk.t
        u = TM.upper(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if u is not None and not u.free:
            F.ub[k] = lambda idxs: u
    KEYS[d] = (k, nb, nk, pv)
    F.forget()

    def items(m, idx):
        ck = ("items", d, idx)
        r = m.memo.get(ck)
        if r is not None:
            return r
        seen, where = [], []
        env = {v: x for v, x in zip(pv, idx)}

        def go(i, env, ps):
            if i == len(nb):
                y = m.ev(nk, env)
                if y not in seen:
                    seen.append(y)
                    where.append(ps)
                return
            n = m.ev(nb[i][1], env)
            m.limit(n)
            for j in range(int(n)):
                go(i + 1, {**env, nb[i][0]: Fraction(j)}, ps + (j,))
        go(0, env, ())
        m.memo[ck] = (seen, where)
        return seen, where
    np = len(pv)

    def pick(i):
        def f(m, idx):
            seen, where = items(m, tuple(idx[:np]))
            p = int(idx[np])
            if not 0 <= p < len(seen):
                return -1
            return seen[p] if i is None else where[p][i]
        return f
    if I.ctx is not None:
        A = I.ctx.model["arrays"]
        A[d] = ("fn", lambda m, idx: len(items(m, tuple(idx[:np]))[0]))
        A[k] = ("fn", pick(None))
        for i in range(len(nb)):
            A["%s.%d" % (k, i)] = ("fn", pick(i))
            F.intsel.add("%s.%d" % (k, i))
            F.nonneg_sel.add("%s.%d" % (k, i))
    ps = tuple(P(a) for a in par)
    D = sel(d, ps)
    return D, lambda p: sel(k, ps + (p,)), lambda i, p: sel("%s.%d" % (k, i), ps + (p,))


def vanishes(h, binders, key, c):
    """is every term of h a sum over the items with key c only"""
    for m, _ in h.t.items():
        if not any(zero_sum(a, binders, key, c) for a, e in m):
            return False
    return True


def zero_sum(a, binders, key, c):
    if a.kind == "eq0" and not binders:
        return a is list(eq(key, c).t)[0][0][0]
    if a.kind != "sum" or not binders:
        return False
    (v, n), rest = binders[0], binders[1:]
    v2, n2, body = TM.open_binder(a)
    if n2 is not n:
        return False
    mm = {v: P(v2)}
    sub = [(x, subst(y, mm)) for x, y in rest]
    return vanishes(body, sub, subst(key, mm), c)


def distinct_keys(v, n, body):
    """sum over the different keys of a round of something that depends on one key c only:
    what it is for c, if c comes up at all"""
    if len(n.t) != 1:
        return None
    (m, c), = n.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "sel" or m[0][0].args[0] not in KEYS:
        return None
    kn, nb, nk, pv = KEYS[m[0][0].args[0]]
    par = m[0][0].args[1]
    ka = atom("sel", kn, tuple(par) + (P(v),))
    out = P(0)
    for mo, co in body.t.items():
        hit = None
        for a, e in mo:
            if a.kind == "eq0":
                x = TM.solve_unit(subst(replace_arrs(a.args[0], {}, {ka: P(var("q'ky"))}), {}), var("q'ky"))
                if x is not None and v not in x.free:
                    hit = (a, x)
                    break
        if hit is None:
            return None
        h = P(co)
        for a, e in mo:
            if a is not hit[0]:
                y = replace_arrs(P(a), {}, {ka: hit[1]})
                for _ in range(e):
                    h = mul(h, y)
        if v in h.free:
            return None
        mm = {p: x for p, x in zip(pv, par)}
        bs = [(b, subst(y, mm)) for b, y in nb]
        key = subst(nk, mm)
        if not vanishes(h, bs, key, hit[1]):
            s = eq(key, hit[1])
            for b, y in reversed(bs):
                s = mk_sum(b, y, s)
            h = mul(h, TM.ne0(s))
        out = out + h
    return out


TM.DISTINCT_KEYS.append(distinct_keys)
