"""Obligations: a property is decided by a set of obligations; each builds symbolic inputs,
summarises library functions and compares the summary with an independent specification."""
import time
import traceback
import terms as TM
from terms import *
import interp as IN
from interp import *
from ctx import Ctx, Missing, NoReturn
import evalm
from program import probe

REG = []         # (prop, label, fn, opts)


def ob(prop, label, **opts):
    """register an obligation.  opts: anchors=[qualified names] for reporting"""
    def deco(fn):
        REG.append((prop, label, fn, opts))
        return fn
    return deco


def add_ob(prop, label, fn, **opts):
    REG.append((prop, label, fn, opts))


def bad_term(e):
    """term that is nonzero for some iteration/state iff the event is a violation; None: not decidable"""
    k = e["kind"]
    pc = e["pc"]
    if k == "assert":
        return mul(pc, 1 - e["cond"])
    if k == "contract":
        return mul(pc, 1 - e["cond"])
    if k == "stale":
        return mul(pc, e["cond"])
    if k in ("abort", "throw", "nullderef", "uninit", "narrow"):
        return pc
    if k == "access":
        if e.get("len") is None:
            return None
        i, n = e["idx"], e["len"]
        return mul(pc, 1 - mul(le(P(0), i), lt(i, n)))
    if k in ("range_write", "range_read"):
        if e.get("len") is None:
            return None
        o, c, n = e["off"], e["n"], e["len"]
        return mul(mul(pc, lt(P(0), c)), 1 - mul(le(P(0), o), le(o + c, n)))
    if k in ("alloc", "reserve"):
        return mul(pc, lt(e["n"], P(0)))
    if k == "nonempty":
        return mul(pc, le(e["n"], P(0)))
    if k == "nullcopy":
        return mul(pc, lt(P(0), e["n"]))
    if k == "symmult":
        h = e["h"]
        r, c = sel("op.rows#", (h,)), sel("op.cols#", (h,))
        if e["op"] == "MultAT":
            r, c = c, r
        return mul(pc, 1 - mul(eq(e["nin"], c), eq(e["nout"], r)))
    return None


EVTEXT = {
    "contract": "library call breaks its documented contract",
    "assert": "assertion fails on a valid input", "abort": "abort reached on a valid input",
    "throw": "exception thrown on a valid input", "nullderef": "null pointer dereferenced",
    "narrow": "quantity without a fixed bound kept in an integer type shorter than int",
    "stale": "pointer/iterator into reallocated storage used", "uninit": "uninitialised value used",
    "access": "index outside the storage", "range_write": "write past the storage",
    "range_read": "read past the storage", "alloc": "negative allocation size",
    "reserve": "negative reserve size", "nonempty": "extremum of an empty range dereferenced",
    "nullcopy": "copy from a null range", "symmult": "operator applied to vectors of the wrong size",
}


class Rec(object):
    """collects the verdicts of one obligation"""

    def __init__(self, c, label):
        self.c = c
        self.label = label
        self.res = []      # dict(what, verdict, detail)
        self.n = 0
        self.seed = 1
        self.count = 60

    def put(self, what, verdict, detail=None, where=None):
        self.res.append({"what": what, "verdict": verdict, "detail": detail, "where": where})

    def eq(self, what, got, spec, assume=(), where=None):
        """the observed closed form equals the specified one"""
        if isinstance(got, (int, bool)):
            got = P(int(got))
        if not isinstance(got, Poly):
            self.put(what, "undecided", "observation is %r" % (got,), where)
            return
        spec = P(spec)
        try:
            v, w = evalm.compare(self.c, got, spec, assume, self.count, self.seed, steer=60)
        except RecursionError:
            v, w = "undecided", "term too deep"
        d = {"got": TM.show(got)[:600], "spec": TM.show(spec)[:600]} if v != "proved" else {}
        if w:
            d["witness" if v == "violation" else "info"] = w
        self.put(what, v, d, where)

    def true(self, what, cond, assume=(), where=None):
        self.eq(what, cond if isinstance(cond, Poly) else P(1 if cond else 0), P(1), assume, where)

    def fail(self, what, why, where=None):
        self.put(what, "violation", {"witness": why}, where)

    def ok(self, what, detail=None, where=None):
        self.put(what, "proved", detail, where)

    def und(self, what, why, where=None):
        self.put(what, "undecided", why, where)


def check_events(c, rec, kinds=None, since=0, assume=(), only=None):
    """no abort, out-of-range access, ... on the inputs of the obligation"""
    tot, und = {}, {}
    evs = c.I.events[since:]
    split = max(0, c.obs_ev - since) if c.obs_ev is not None else len(evs)
    facts = TM.FACTS.ge0
    try:
        # what happened before an index was picked to look at the result holds without that index
        if c.obs_facts:
            ids = set(id(x) for x in c.obs_facts)
            TM.FACTS.ge0 = [x for x in facts if id(x) not in ids]
            TM.FACTS.forget()
        _check_events(c, rec, kinds, evs[:split], assume, only, tot, und, False)
    finally:
        if c.obs_facts:
            TM.FACTS.ge0 = facts
            TM.FACTS.forget()
    _check_events(c, rec, kinds, evs[split:], assume, only, tot, und, True)
    rec.events = {"checked": tot, "undecided": und}
    return tot, und


def _check_events(c, rec, kinds, events, assume, only, tot, und, observing):
    for e in events:
        k = e["kind"]
        if kinds is not None and k not in kinds:
            continue
        if only and not only(e):
            continue
        b = bad_term(e)
        if b is None:
            und[k] = und.get(k, 0) + 1
            continue
        tot[k] = tot.get(k, 0) + 1
        if b.const == 0:
            continue
        f = e["fn"]
        where = c.p.where(f, e["line"]) if f else None
        nm = "%s: %s" % (f["q"] if f else "?", EVTEXT.get(k, k))
        try:
            for t, n in reversed(e["loops"]):
                if n is None:
                    raise TM.Budget("unknown bound")
                b = mk_sum(t, n, b)
        except TM.Budget:
            und[k] = und.get(k, 0) + 1
            continue
        if b.const == 0:
            continue
        v, w = evalm.compare(c, b, P(0), assume, rec.count, rec.seed, observing)
        if v == "violation":
            rec.put(nm, "violation", {"witness": w, "event": k, "text": str(e.get("text", ""))[:200]}, where)
        elif v == "agree":
            und[k + " (not refuted)"] = und.get(k + " (not refuted)", 0) + 1
        elif v == "undecided":
            und[k] = und.get(k, 0) + 1


def judge_frames(c, rec):
    """const objects and const reference arguments hold after the call what they held before"""
    seen = set()
    for full, nm, k, new, old, why in c.I.frames:
        what = "%s: %s%s unchanged" % (full["q"].replace("linalgcpp::", ""), nm, " (%s)" % k if k else "")
        where = c.p.where(full, full.get("line"))
        if new is None and old is None:
            if (what, where) not in seen:
                seen.add((what, where))
                rec.ok(what, None, where)
            continue
        if why == "lists":
            # per row: number of entries, column and value of each
            (v1, a1), (v0, a0) = new, old
            seen.add((what, where, len(seen)))
            if not isinstance(v1, IN.Vec) or any(a is None or len(a) != 3 or not all(isinstance(x, TM.Arr) for x in a) for a in (a0, a1)):
                rec.und(what, "stored lists", where)
                continue
            rec.eq(what, v1.len, v0.len, where=where)
            r = c.idx("fe%d" % len(seen), v0.len)
            seen.add((what, where, len(seen)))
            for a in (a0, a1):
                p = c.idx("fe%d" % len(seen), read(a[0], (r,)))
                seen.add((what, where, len(seen)))
                pos = read(a[1], (r, p))
                tot = []
                for b in (a0, a1):
                    k = TM.fresh_var()
                    tot.append(TM.mk_sum(k, read(b[0], (r,)), mul(read(b[2], (r, P(k))), TM.eq(read(b[1], (r, P(k))), pos))))
                rec.eq(what, tot[1], tot[0], where=where)
            continue
        if why == "list":
            (v1, a1), (v0, a0) = new, old
            seen.add((what, where, len(seen)))
            if not isinstance(v1, IN.Vec) or any(a is None or len(a) != 3 or not all(isinstance(x, TM.Arr) for x in a) for a in (a0, a1)):
                rec.und(what, "stored list", where)
                continue
            # the sum of the entries at the position of any entry, of the old and of the new list
            for v, a in ((v0, a0), (v1, a1)):
                p = c.idx("fe%d" % len(seen), v.len)
                seen.add((what, where, len(seen)))
                pos = [read(x, (p,)) for x in a[:2]]
                tot = []
                for w, b in ((v0, a0), (v1, a1)):
                    k = TM.fresh_var()
                    e = [read(x, (P(k),)) for x in b]
                    tot.append(TM.mk_sum(k, w.len, mul(e[2], mul(TM.eq(e[0], pos[0]), TM.eq(e[1], pos[1])))))
                rec.eq(what, tot[1], tot[0], where=where)
            continue
        if isinstance(why, tuple):
            buf, leaf = why
            n = c.I.find_len(buf, ())
            if n is None or "/" in buf or not isinstance(new, TM.Arr):
                rec.und(what, "nested storage", where)
                continue
            i = c.idx("fr%d" % len(seen), n)
            seen.add((what, where, len(seen)))
            try:
                rec.eq(what, read(new, (i,)), read(old, (i,)), where=where)
            except (TM.Budget, IN.Undecided) as e:
                rec.und(what, str(e), where)
        elif why == "changed":
            rec.und(what, "%r became %r" % (old, new), where)
        else:
            rec.eq(what, new, old, where=where)


def run_ob(prog, entry, seed=1, count=60, frames=False):
    prop, label, fn, opts = entry
    t0 = time.time()
    TM.SPENT[0] = 0.0
    if opts.get("rule"):
        rec = Rec(None, label)
        try:
            fn(prog, rec)
        except Exception as e:
            rec.und("analysis", "internal: %s" % str(e)[:300])
        return {"prop": prop, "label": label, "res": rec.res, "events": {}, "fns": [], "ids": [], "wall": round(time.time() - t0, 3)}
    c = Ctx(prog)
    rec = Rec(c, label)
    rec.seed, rec.count = seed, count
    out = {"prop": prop, "label": label}
    c.rec = rec
    c.distinct = prop != "C01"
    rec.events = {}
    c.ev0 = 0
    if frames:
        return run_frames(c, rec, fn, out, t0)
    try:
        fn(c, rec)
        if not opts.get("noevents"):
            check_events(c, rec, since=c.ev0, kinds=opts.get("kinds"))
    except NoReturn:
        n0 = len(rec.res)
        if not opts.get("noevents"):
            check_events(c, rec, since=c.ev0)
        if not any(x["verdict"] == "violation" for x in rec.res[n0:]):
            rec.put("analysis", "undecided", "no path returns")
    except Missing as e:
        rec.put("entry point", "missing", str(e))
    except TimeoutError as e:
        rec.put("analysis", "undecided", "time limit")
    except Exception as e:
        if isinstance(e, (Undecided, TM.Budget, RecursionError)):
            rec.put("analysis", "undecided", "%s: %s" % (type(e).__name__, str(e)[:300]))
        elif isinstance(e, evalm.CannotEval):
            rec.put("analysis", "undecided", "eval: %s" % e)
        else:
            rec.put("analysis", "undecided", "internal: %s: %s" % (type(e).__name__, str(e)[:200]))
            out["trace"] = traceback.format_exc()[-1500:]
        # what was met on the way still has to be in order
        if c.ev0 and not opts.get("noevents") and not isinstance(e, RecursionError):
            try:
                check_events(c, rec, since=c.ev0, kinds=opts.get("kinds"))
            except TimeoutError:
                pass
            except Exception:
                pass
    out["res"] = rec.res
    out["events"] = rec.events
    out["ids"] = [i for i in c.I.touched if i in prog.fn]
    out["fns"] = sorted(set(prog.fn[i]["q"] for i in c.I.touched if i in prog.fn))
    out["wall"] = round(time.time() - t0, 3)
    return out


def run_frames(c, rec, fn, out, t0):
    c.I.frames = []
    c.rec = Rec(c, rec.label)
    mute = Rec(c, rec.label)
    mute.eq = mute.true = lambda *a, **k: None
    try:
        fn(c, mute)
    except (NoReturn, Missing, Undecided, TM.Budget, RecursionError, evalm.CannotEval, TimeoutError):
        pass
    except Exception as e:
        rec.und("analysis", "internal: %s" % str(e)[:200])
    try:
        if c.I.st is not None:
            judge_frames(c, rec)
    except (Undecided, TM.Budget, RecursionError, evalm.CannotEval, TimeoutError) as e:
        rec.und("analysis", str(e)[:200])
    out["res"] = rec.res
    out["events"] = {}
    out["ids"] = [i for i in c.I.touched if i in c.p.fn]
    out["fns"] = sorted(set(full["q"] for full, *_ in c.I.frames))
    out["wall"] = round(time.time() - t0, 3)
    return out
