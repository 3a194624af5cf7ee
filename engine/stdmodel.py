"""Models of the standard-library operations /repo uses, over the abstract domain."""
from interp import *
import interp as IN
from terms import *
import terms as TM


class MapIt(object):
    """result of map::find / end(): the container, the key and whether the key is present"""
    __slots__ = ("who", "key", "h")

    def __init__(self, who, key, h):
        self.who, self.key, self.h = who, key, h

    def eqv(self, o):
        return isinstance(o, MapIt) and self.who == o.who and self.key == o.key and self.h == o.h


class Std(Interp):

    # ---------------------------------------------------------------- helpers
    def vget(self, lv, t):
        v = self.load(lv, t)
        if not isinstance(v, Vec):
            raise Undecided("opaque vector %r" % (v,))
        return v

    def vset(self, lv, v, t):
        self.storev(lv, v, t)

    def relen(self, lv, t, v, n):
        """change the length, contents untouched"""
        nv = Vec(n, v.buf, v.pre, v.et)
        if lv.k == "e":
            p = lv.c + ("len",)
            self.st.heap[(lv.a, p)] = write(self.harr(lv.a, p), lv.b, P(n))
        else:
            self.storev(lv, nv, t)
        return nv

    def val(self, a, t=None):
        if isinstance(a, LV):
            return self.load(a, t)
        return a

    def elem_at(self, ptr, et):
        lv = LV("e", ptr.buf, ptr.pre + (ptr.off,), ())
        return self.load(lv, et)

    def rangelen(self, b, e):
        if not isinstance(b, Ptr) or not isinstance(e, Ptr):
            raise Undecided("iterator range %r %r" % (b, e))
        if b.buf != e.buf or b.pre != e.pre:
            if b.null.const == 1 and e.null.const == 1:
                return P(0)
            raise Undecided("iterator range over two buffers")
        for p in (b,):
            self.check_stale(p)
        return e.off - b.off

    def range_read(self, b, et):
        """function i -> element value of b[i] in the current state (scalars)"""
        arr = arr_slice(self.harr(b.buf, ()), b.pre)
        return lambda i: read(arr, (b.off + i,))

    def range_write(self, b, n, f, et=None):
        """b[i] := f(i) for 0 <= i < n (f gives the new value from the old state)"""
        v = fresh_var()
        TM.FACTS.vub[v] = n - 1
        self.ev_access(b, n, "range_write")
        a = self.harr(b.buf, ())
        val = f(P(v))
        self.st.heap[(b.buf, ())] = arr_log(a, (mk_loop(v, n, (("w", P(1), b.pre + (b.off + P(v),), val),)),))

    def range_copy_elems(self, dbuf, dpre, doff, src, n, et):
        """element-wise copy for any element type"""
        for suf, leaf, d in self.bufleaves(et):
            sa = self.harr(src.buf + suf, leaf)
            v = fresh_var()
            TM.FACTS.vub[v] = n - 1
            tgt = self.harr(dbuf + suf, leaf)
            idx = tuple(dpre) + (P(doff) + P(v),)
            if d == 1:
                val = read(sa, src.pre + (src.off + P(v),))
                e = ("w", P(1), idx, val)
            else:
                e = ("bulk", P(1), idx, arr_slice(sa, src.pre + (src.off + P(v),)))
            self.st.heap[(dbuf + suf, leaf)] = arr_log(tgt, (mk_loop(v, n, (e,)),))

    def vec_from_range(self, b, e, et):
        n = self.rangelen(b, e)
        out = self.new_vec(et, n, zero=False)
        for suf, leaf, d in self.bufleaves(et):
            if b.buf is None:
                self.st.heap[(out.buf + suf, leaf)] = arr_const(0, d)
                continue
            a = arr_slice(self.harr(b.buf + suf, leaf), b.pre)
            if b.off.const == 0:
                self.st.heap[(out.buf + suf, leaf)] = a
            elif d == 1:
                self.st.heap[(out.buf + suf, leaf)] = arr_shift(a, b.off)
            else:
                vs = [fresh_var() for _ in range(d)]
                self.st.heap[(out.buf + suf, leaf)] = arr_lam(vs, read(a, (P(vs[0]) + b.off,) + tuple(P(x) for x in vs[1:])))
        return out

    def fill_vec(self, et, n, v):
        out = self.new_vec(et, n, zero=False)
        self.const_fill(out.buf, et, v)
        return out

    # ---------------------------------------------------------------- constructors
    def std_ctor(self, n, t, k, fr):
        p = self.p
        fn = n.get("fn") or {}
        if k == "vec":
            args = n["args"]
            real = [a for a in args if not self._is_alloc(a)]
            et = p.elem(t)
            if not real:
                return self.new_vec(et, 0)
            a0 = real[0]
            t0 = a0.get("t")
            k0 = p.kind(t0)
            if k0 == "vec":
                src = self.ev(a0, fr)
                if self.st is None:
                    return None
                if not isinstance(src, LV):
                    return src
                v = self.vget(src, t0)
                mv = bool(fn.get("movector")) or p.T(fn["params"][0])["k"] == "rref" if fn.get("params") else a0.get("lv") == 2
                if mv:
                    if src.k == "l" and not v.pre:
                        self.storev(src, self.new_vec(v.et, 0), t0)
                        return v
                    nv = self.copy_value(v)
                    self.storev(src, self.new_vec(v.et, 0), t0)
                    return nv
                return self.copy_value(v)
            if a0["k"] == "StdInitList" or "initializer_list" in p.ts(t0)["s"]:
                v = self.ev(a0, fr)
                if isinstance(v, LV):
                    v = self.load(v, a0["t"])
                if isinstance(v, Vec):
                    return Vec(v.len, v.buf, v.pre, et)
                raise Undecided("initializer list vector")
            if k0 in ("iter", "ptr") and len(real) == 2:
                b, e = self.rval(real[0], fr), self.rval(real[1], fr)
                return self.vec_from_range(b, e, et)
            if k0 == "num":
                c = self.num(a0, fr)
                self.ev_record("alloc", n=c)
                if len(real) == 1:
                    return self.new_vec(et, c)
                v = self.ev(real[1], fr)
                v = self.val(v, real[1].get("t"))
                return self.fill_vec(et, c, v)
            raise Undecided("vector constructor")
        if k in ("tuple", "pair"):
            fs = p.fields(t)
            args = n["args"]
            if len(args) == 1 and p.kind(args[0]["t"]) in ("tuple", "pair"):
                v = self.rval(args[0], fr)
                if isinstance(v, Obj):
                    o = {}
                    for (k1, _), (k2, _2) in zip(fs, p.fields(args[0]["t"])):
                        o[k1] = self.copy_value(v.f[k2])
                    return Obj(p.unq(t), o)
                return v
            if not args:
                return self.default_value(t)
            o = {}
            for (key, ft), a in zip(fs, args):
                v = self.ev(a, fr)
                if self.is_ref(ft):
                    o[key] = v if isinstance(v, LV) else self.newloc(v)
                else:
                    o[key] = self.copy_value(self.val(v, a.get("t")))
            return Obj(p.unq(t), o)
        if k == "iter":
            args = n["args"]
            if args:
                return self.rval(args[0], fr)
            return UNINIT
        for a in n.get("args", []):
            try:
                self.ev(a, fr)
            except Undecided:
                pass
            if self.st is None:
                return None
        return Opq(p.ts(t)["s"])

    def _is_alloc(self, a):
        while a.get("k") in ("Mat", "Cast"):
            a = a["e"]
        return a.get("k") == "New" and (a.get("fn") or {}).get("q", "").startswith("std::allocator") or \
            "allocator" in self.p.ts(a["t"])["s"].split("<")[0] if a.get("t") is not None else False

    # ---------------------------------------------------------------- methods
    def std_method(self, n, fn, o, ot, fr):
        q = fn["q"]
        p = self.p
        name = q.split("::")[-1]
        k = p.kind(ot)
        if k == "vec":
            return self.vec_method(name, n, fn, o, ot, fr)
        if k == "iter":
            return self.iter_method(name, n, o, ot, fr)
        if "_Node_iterator" in p.ts(ot)["s"] or "_Rb_tree" in p.ts(ot)["s"]:
            v = self.load(o, ot)
            if isinstance(v, MapIt) and v.who is not None and name in ("operator*", "operator->"):
                self.ev_record("assert", cond=ne0(v.h), text="iterator dereferenced is not end()")
                lv = self.newloc(Obj(p.T(n["t"])["to"] if p.T(n["t"])["k"] in ("ptr", "ref") else n["t"], {"first": v.key, "second": self.load(v.who[2], v.who[3])}), "mapnode")
                return PtrL(lv) if name == "operator->" else lv
        if k == "tuple" and p.is_map(ot):
            return self.map_method(name, n, fn, o, ot, fr)
        if k in ("tuple", "pair") and name == "operator=":
            src = self.rval(n["args"][0], fr)
            dst = self.load(o, ot)
            if not isinstance(src, Obj) or not isinstance(dst, Obj):
                raise Undecided("tuple assignment")
            ft = dict(p.fields(ot))
            sk = [x for x, _ in p.fields(n["args"][0]["t"])]
            for key, s in zip([x for x, _ in p.fields(ot)], sk):
                d = dst.f[key]
                v = src.f[s]
                if isinstance(d, LV):
                    tt = p.unq(ft[key])
                    if isinstance(v, Vec):
                        self.vec_assign(d, v, tt, True)
                    else:
                        self.storev(d, v, tt)
                else:
                    self.storev(o.sub(key), v, ft[key])
            return o
        if q.startswith("std::allocator"):
            return None
        args = self.args(n["args"], fr)
        return self.foreign(q, args, n, o, ot)

    def foreign(self, q, args, n, o=None, ot=None):
        """unmodelled library operation: opaque result; anything passed by non-const
        reference is forgotten"""
        self.ev_record("foreign", q=q, args=args)
        T = self.p.T(n["t"]) if n.get("t") is not None else None
        for a, an in zip(args, n["args"]):
            if isinstance(a, LV) and an.get("lv") and a.k == "l":
                t = self.p.T(an["t"])
                pt = (n["fn"].get("params") or [])
                isconst = t.get("q")
                if not isconst and self.p.kind(an["t"]) == "num":
                    self.storev(a, unknown("result of " + q), an["t"])
        if T is None or T["k"] == "void":
            return None
        if n.get("lv"):
            if o is not None and self.p.kind(n["t"]) == "other":
                return o
            return self.newloc(Opq(q))
        if self.p.kind(n["t"]) == "num":
            return unknown("result of " + q)
        return Opq(q)

    def vec_method(self, name, n, fn, o, ot, fr):
        p = self.p
        A = n["args"]
        et = p.elem(ot)
        if name in ("operator[]", "at"):
            i = self.num(A[0], fr)
            v = self.vget(o, ot)
            self.ev_record("access", buf=v.buf, idx=i, len=v.len)
            return LV("e", v.buf, v.pre + (i,), ())
        if name == "size":
            return self.vget(o, ot).len
        if name == "empty":
            return eq(self.vget(o, ot).len, P(0))
        if name in ("begin", "cbegin", "data"):
            v = self.vget(o, ot)
            return Ptr(v.buf, v.pre, 0, self.st.gens.get(v.buf))
        if name in ("end", "cend"):
            v = self.vget(o, ot)
            return Ptr(v.buf, v.pre, v.len, self.st.gens.get(v.buf))
        if name in ("back", "front"):
            v = self.vget(o, ot)
            i = v.len - 1 if name == "back" else P(0)
            self.ev_record("access", buf=v.buf, idx=i, len=v.len)
            return LV("e", v.buf, v.pre + (i,), ())
        if name == "capacity":
            v = self.vget(o, ot)
            if v.buf not in self.caps:
                # any vector may have spare room: at least its size, beyond that arbitrary
                self.caps[v.buf] = v.len + self.ctx.dim("spare room of %s" % v.buf)
            c = self.caps[v.buf]
            return ite(lt(c, v.len), v.len, c)
        if name in ("reserve", "shrink_to_fit"):
            for a in A:
                self.ev_record("reserve", n=self.num(a, fr))
            v = self.vget(o, ot)
            self.fresh_gen(v.buf)
            return None
        if name == "clear":
            v = self.vget(o, ot)
            self.relen(o, ot, v, P(0))
            return None
        if name in ("resize", "assign"):
            v = self.vget(o, ot)
            if name == "assign" and p.kind(A[0]["t"]) != "num":
                b, e = self.rval(A[0], fr), self.rval(A[1], fr)
                nv = self.vec_from_range(b, e, et)
                self.vec_assign(o, nv, ot)
                return None
            c = self.num(A[0], fr)
            fv = self.val(self.ev(A[1], fr), A[1].get("t")) if len(A) > 1 else None
            self.ev_record("alloc", n=c)
            if name == "resize" and c is v.len:
                return None
            src = self.fill_vec(et, c, fv) if fv is not None else self.new_vec(et, c)
            start = P(0) if name == "assign" else v.len
            cnt = c - start
            if name == "assign" or v.len.const == 0:
                self.copy_contents(src, v.buf, v.pre)
            else:
                # elements [len, c) become the fill value
                self.range_copy_elems(v.buf, v.pre, start, Ptr(src.buf, (), start), app("pos", cnt), et)
            g0 = self.st.gens.get(v.buf)
            g1 = self.fresh_gen(v.buf)
            if g0 is not None:
                # shrinking keeps every remaining element in place
                self.st.gens[v.buf] = ite(lt(v.len, c), g1, g0)
            self.relen(o, ot, v, c)
            return None
        if name in ("push_back", "emplace_back", "emplace_front", "push_front"):
            v = self.vget(o, ot)
            if len(A) == 1 and p.unq(A[0]["t"]) == et or p.kind(et) == "num":
                val = self.rval(A[0], fr) if A else self.default_value(et)
                if isinstance(val, LV):
                    val = self.load(val, et)
                val = self.copy_value(val)
            elif p.kind(et) in ("tuple", "pair"):
                o2 = {}
                for (key, ft), a in zip(p.fields(et), A):
                    o2[key] = self.rval(a, fr)
                val = Obj(et, o2)
            elif p.kind(et) == "ours":
                raise Undecided("emplace_back of object")
            else:
                val = self.rval(A[0], fr)
            v = self.vget(o, ot)
            self.store_elem(v.buf, v.pre + (v.len,), (), val, et)
            self.fresh_gen(v.buf)
            self.relen(o, ot, v, v.len + 1)
            if n.get("lv"):
                return LV("e", v.buf, v.pre + (v.len,), ())
            return None
        if name == "operator=":
            src = self.ev(A[0], fr)
            mv = fn.get("params") and p.T(fn["params"][0])["k"] == "rref"
            if "initializer_list" in p.ts(A[0]["t"])["s"]:
                raise Undecided("assign from initializer list")
            self.vec_assign(o, src, ot, mv)
            return o
        if name == "swap":
            b = self.ev(A[0], fr)
            self.swap(o, b, ot)
            return None
        if name == "pop_back":
            v = self.vget(o, ot)
            self.relen(o, ot, v, v.len - 1)
            return None
        if name == "erase":
            its = [self.rval(a, fr) for a in A]
            v = self.vget(o, ot)
            if len(its) == 2 and isinstance(its[0], tuple) and its[0][0] == "removed":
                _, buf, keep, nkept = its[0]
                for (suf, leaf), a in keep.items():
                    if v.pre:
                        a = arr_log(self.harr(v.buf + suf, leaf), (("bulk", P(1), tuple(v.pre), a),))
                    self.st.heap[(v.buf + suf, leaf)] = a
                self.fresh_gen(v.buf)
                self.relen(o, ot, v, nkept)
                return Ptr(v.buf, v.pre, nkept)
            if len(its) == 2 and isinstance(its[0], Ptr) and isinstance(its[1], Ptr) and its[1].off is v.len:
                self.relen(o, ot, v, its[0].off)
                return its[0]
            raise Undecided("erase")
        if name == "sort" and not A:
            # list::sort: stable, by the element's order (pairs: first component decides the
            # positions; entries with equal first components are exchangeable up to their value order)
            v = self.vget(o, ot)
            if p.kind(et) in ("pair", "tuple"):
                (key, ft) = list(p.fields(et))[0]
            elif p.kind(et) == "num":
                key, ft = None, et
            else:
                raise Undecided("list sort")
            if p.kind(ft) != "num":
                raise Undecided("list sort")
            h = fresh_var()
            TM.FACTS.sorted = True
            at = app("clip", P(h), v.len)
            e = LV("e", v.buf, v.pre + (at,), ())
            K = arr_lam((h,), self.load(e.sub(key) if key is not None else e, ft))
            self.sort_leaves(v.buf, v.pre, P(0), v.len, K, et)
            return None
        raise Undecided("vector::" + name)

    def map_method(self, name, n, fn, o, ot, fr):
        """associative container with integer keys: key set, element count, value table"""
        p = self.p
        A = n["args"]
        fs = dict(p.fields(ot))
        if name == "operator=":
            src = self.rval(A[0], fr)
            self.storev(o, self.copy_value(src), ot)
            return o
        if name == "size":
            return self.load(o.sub("n"), fs["n"])
        if name == "empty":
            return eq(self.load(o.sub("n"), fs["n"]), P(0))
        if name in ("end", "cend"):
            return MapIt(None, P(0), P(0))
        if name in ("find", "count", "operator[]", "at"):
            key = self.num(A[0], fr)
            has = self.load(o.sub("has"), fs["has"])
            val = self.load(o.sub("val"), fs["val"])
            it = p.elem(fs["has"])
            hlv = LV("e", has.buf, has.pre + (key,), ())
            vlv = LV("e", val.buf, val.pre + (key,), ())
            h = self.load(hlv, it)
            if name == "find":
                return MapIt((o, ot, vlv, p.elem(fs["val"])), key, h)
            if name == "count":
                return h
            if name == "at":
                self.ev_record("assert", cond=ne0(h), text="key present in map::at")
                return vlv
            cnt = self.load(o.sub("n"), fs["n"])
            self.storev(o.sub("n"), cnt + 1 - h, fs["n"])
            self.storev(hlv, P(1), it)
            return vlv
        raise Undecided("map::" + name)

    def iter_method(self, name, n, o, ot, fr):
        p = self.p
        v = self.load(o, ot)
        A = n["args"]
        if name in ("operator*", "operator->"):
            lv = self.deref(v, n)
            if name == "operator->":
                return PtrL(lv)
            return lv
        if not isinstance(v, Ptr):
            raise Undecided("iterator %r" % (v,))
        if name in ("operator++", "operator--"):
            d = 1 if name == "operator++" else -1
            nv = v.at(v.off + d)
            self.storev(o, nv, ot)
            return v if A else o
        if name in ("operator+", "operator-"):
            x = self.rval(A[0], fr)
            if isinstance(x, Ptr):
                return v.off - x.off
            return v.at(v.off + x if name == "operator+" else v.off - x)
        if name in ("operator+=", "operator-="):
            x = self.num(A[0], fr)
            self.storev(o, v.at(v.off + x if name == "operator+=" else v.off - x), ot)
            return o
        if name == "operator[]":
            return self.deref(v.at(v.off + self.num(A[0], fr)))
        if name == "operator=":
            self.storev(o, self.rval(A[0], fr), ot)
            return o
        if name == "base":
            return v
        raise Undecided("iterator " + name)

    # ---------------------------------------------------------------- free functions
    def swap(self, a, b, t):
        if a.same(b):
            return
        va, vb = self.load(a, t), self.load(b, t)
        if a.k == "e" or b.k == "e":
            if isinstance(va, Vec):
                va = self.copy_value(va)
            if isinstance(vb, Vec):
                vb = self.copy_value(vb)
        self.storev(a, vb, t)
        self.storev(b, va, t)

    def std_call(self, n, fn, fr):
        q = fn["q"]
        name = q.split("::")[-1]
        m = getattr(self, "f_" + name, None)
        if q.startswith("std::") or q.startswith("__gnu_cxx::") or "::" not in q:
            if name.startswith("operator"):
                r = self.std_operator(name, n, fn, fr)
                if r is not NotImplemented:
                    return r
            elif m is not None:
                return m(n, fn, fr)
        args = self.args(n["args"], fr)
        if self.st is None:
            return None
        return self.extern_call(q, args, n, fn, fr)

    def extern_call(self, q, args, n, fn, fr):
        return self.foreign(q, args, n)

    def std_operator(self, name, n, fn, fr):
        A = n["args"]
        kinds = [self.p.kind(a["t"]) for a in A]
        if name in ("operator==", "operator!=") and any("_Node_iterator" in self.p.ts(a["t"])["s"] or "_Rb_tree" in self.p.ts(a["t"])["s"] for a in A):
            a, b = [self.rval(x, fr) for x in A]
            if isinstance(a, MapIt) and isinstance(b, MapIt):
                r = eq(a.h, P(0)) if b.who is None else eq(b.h, P(0)) if a.who is None else None
                if r is not None:
                    return r if name == "operator==" else 1 - r
            raise Undecided("map iterator comparison")
        if any(k == "iter" for k in kinds):
            vs = [self.rval(a, fr) for a in A]
            return self.ptrop(name[len("operator"):], vs[0], vs[1])
        return NotImplemented

    def f_move(self, n, fn, fr):
        v = self.ev(n["args"][0], fr)
        return v

    f_forward = f_move
    f_as_const = f_move

    def f_begin(self, n, fn, fr):
        return self._be(n, fr, "begin")

    def f_end(self, n, fn, fr):
        return self._be(n, fr, "end")

    f_cbegin = f_begin
    f_cend = f_end

    def _be(self, n, fr, which):
        a = n["args"][0]
        o = self.ev(a, fr)
        t = a["t"]
        k = self.p.kind(t)
        if k == "vec":
            v = self.vget(o, t) if isinstance(o, LV) else o
            return Ptr(v.buf, v.pre, P(0) if which == "begin" else v.len, self.st.gens.get(v.buf))
        if k == "ours":
            if not isinstance(o, LV):
                o = self.newloc(o)
            const = self.p.T(t).get("q")
            c = self.p.cls(t)
            todo = [c]
            while todo:
                c = todo.pop(0)
                cand = [m for m in c["methods"] if m["name"] == which]
                if cand:
                    cc = [m for m in cand if bool(m.get("const")) == bool(const)] or cand
                    return self.call(self.p.fn[cc[0]["id"]], o, [])
                todo += [self.p.cls(b) for b in c["bases"]]
        if self.p.ts(t)["k"] == "array":
            v = self.load(o, t)
            return Ptr(v.buf, v.pre, P(0) if which == "begin" else v.len)
        raise Undecided("begin/end of " + self.p.ts(t)["s"])

    def f_swap(self, n, fn, fr):
        a, b = self.ev(n["args"][0], fr), self.ev(n["args"][1], fr)
        self.swap(a, b, n["args"][0]["t"])
        return None

    def f_get(self, n, fn, fr):
        o = self.ev(n["args"][0], fr)
        i = None
        for x in fn.get("targs") or []:
            if isinstance(x, str) and x.lstrip("#").isdigit():
                i = int(x.lstrip("#"))
                break
            if isinstance(x, dict):
                i = int(x.get("v", x.get("n", 0)))
                break
        if i is None:
            raise Undecided("std::get index")
        fs = self.p.fields(n["args"][0]["t"])
        key, ft = fs[i]
        if not isinstance(o, LV):
            o = self.newloc(o)
        if o.k == "l":
            v = self.load(o)
            if isinstance(v, Obj) and isinstance(v.f.get(key), LV):
                return v.f[key]
        return o.sub(key)

    def f_tie(self, n, fn, fr):
        o = {}
        for i, a in enumerate(n["args"]):
            o[str(i)] = self.ev(a, fr)
        return Obj(self.p.unq(n["t"]), o)

    def f_make_tuple(self, n, fn, fr):
        o = {}
        for i, a in enumerate(n["args"]):
            v = self.ev(a, fr)
            o[str(i)] = self.copy_value(self.val(v, a["t"]))
        return Obj(self.p.unq(n["t"]), o)

    def f_make_pair(self, n, fn, fr):
        vs = [self.copy_value(self.rval(a, fr)) for a in n["args"]]
        return Obj(self.p.unq(n["t"]), {"first": vs[0], "second": vs[1]})

    def _it(self, n, i, fr):
        return self.rval(n["args"][i], fr)

    def _et(self, n, i):
        return self.p.elem(n["args"][i]["t"])

    def f_fill(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        v = self.rval(n["args"][2], fr)
        if isinstance(v, Opq):
            v = unknown("fill value")
        cnt = self.rangelen(b, e)
        if b.buf is None:
            return None
        if not isinstance(v, Poly):
            raise Undecided("fill with objects")
        et = self._et(n, 0)
        if self.p.ts(et)["k"] in ("int", "uint") and not is_int(v):
            v = app("trunc", v)
        v = self.rounded(v, et)
        self.range_write(b, cnt, lambda i: v)
        return None

    def f_fill_n(self, n, fn, fr):
        b = self._it(n, 0, fr)
        cnt = self.num(n["args"][1], fr)
        v = self.rval(n["args"][2], fr)
        if not isinstance(v, Poly):
            raise Undecided("fill with objects")
        self.range_write(b, app("pos", cnt), lambda i: v)
        return b.at(b.off + cnt)

    def f_copy(self, n, fn, fr):
        b, e, d = self._it(n, 0, fr), self._it(n, 1, fr), self._it(n, 2, fr)
        cnt = self.rangelen(b, e)
        if not isinstance(d, Ptr):
            raise Undecided("copy to %r" % (d,))
        if b.buf is None or d.buf is None:
            self.ev_record("nullcopy", n=cnt)
            return d
        if d.buf == b.buf and d.pre == b.pre and d.off is b.off:
            return d.at(d.off + cnt)
        et = self._et(n, 0)
        self.stale(d)
        self.ev_access(d, cnt, "range_write")
        self.ev_access(b, cnt, "range_read")
        dt = self._et(n, 2)
        if self.p.kind(et) == "num":
            f = self.range_read(b, et)
            v = fresh_var()
            TM.FACTS.vub[v] = cnt - 1
            x = f(P(v))
            if self.p.ts(dt)["k"] in ("int", "uint") and self.p.is_real(et):
                x = app("trunc", x)
            x = self.rounded(x, dt)
            self.st.heap[(d.buf, ())] = arr_log(self.harr(d.buf, ()), (mk_loop(v, cnt, (("w", P(1), d.pre + (d.off + P(v),), x),)),))
        else:
            self.range_copy_elems(d.buf, d.pre, d.off, b, cnt, et)
        return d.at(d.off + cnt)

    def f_copy_n(self, n, fn, fr):
        b, d = self._it(n, 0, fr), self._it(n, 2, fr)
        cnt = self.num(n["args"][1], fr)
        et = self._et(n, 0)
        self.range_copy_elems(d.buf, d.pre, d.off, b, app("pos", cnt), et)
        return d.at(d.off + cnt)

    def stale(self, p):
        self.check_stale(p)

    def f_iota(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        v = self.num(n["args"][2], fr)
        self.range_write(b, self.rangelen(b, e), lambda i: v + i)
        return None

    def f_accumulate(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        init = self.num(n["args"][2], fr)
        cnt = self.rangelen(b, e)
        if b.buf is None:
            return init
        et = self._et(n, 0)
        f = self.range_read(b, et)
        v = fresh_var()
        if len(n["args"]) == 4:
            fun = self.ev(n["args"][3], fr)
            acc = var("r'%d" % next(IN._cnt))
            x = self.val(self.callf(fun, [P(acc), f(P(v))]))
            r = self.recur(acc, x, init, v)
            if r is None:
                return unknown("accumulate")
            return subst(r, {v: cnt})
        it = n["t"]
        if self.p.ts(it)["k"] in ("int", "uint", "char", "bool") and self.p.is_real(et):
            acc = fresh_var("q")
            return mk_fold(v, acc, cnt, init, app("trunc", P(acc) + f(P(v))))
        if self.isfloat(it):
            acc = var("r'%d" % next(IN._cnt))
            return mk_fold(v, acc, cnt, init, app("f32", P(acc) + f(P(v))))
        return init + mk_sum(v, cnt, f(P(v)))

    def f_inner_product(self, n, fn, fr):
        b, e, d = self._it(n, 0, fr), self._it(n, 1, fr), self._it(n, 2, fr)
        init = self.num(n["args"][3], fr)
        cnt = self.rangelen(b, e)
        if b.buf is None or d.buf is None:
            return init
        f, g = self.range_read(b, self._et(n, 0)), self.range_read(d, self._et(n, 2))
        self.ev_access(d, cnt, "range_read")
        self.ev_access(b, cnt, "range_read")
        if len(n["args"]) > 4:
            raise Undecided("inner_product with operations")
        v = fresh_var()
        x = mul(f(P(v)), g(P(v)))
        if self.p.ts(n["t"])["k"] in ("int", "uint") and (self.p.is_real(self._et(n, 0)) or self.p.is_real(self._et(n, 2))):
            acc = fresh_var("q")
            return mk_fold(v, acc, cnt, init, app("trunc", P(acc) + x))
        if self.isfloat(n["t"]):
            acc = var("r'%d" % next(IN._cnt))
            return mk_fold(v, acc, cnt, init, app("f32", P(acc) + x))
        return init + mk_sum(v, cnt, x)

    def f_transform(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        et = self._et(n, 0)
        if len(n["args"]) == 4:
            d = self._it(n, 2, fr)
            fun = self.ev(n["args"][3], fr)
            b2 = None
        else:
            b2 = self._it(n, 2, fr)
            d = self._it(n, 3, fr)
            fun = self.ev(n["args"][4], fr)
        dt = self._et(n, len(n["args"]) - 2)
        if d.buf is None or b.buf is None:
            return d

        def body(t):
            args = [self.newloc(self.elem_at(b.at(b.off + t), et))]
            if b2 is not None:
                args.append(self.newloc(self.elem_at(b2.at(b2.off + t), self._et(n, 2))))
            r = self.val(self.callf(fun, args), None)
            if self.st is not None:
                self.store_elem(d.buf, d.pre + (d.off + t,), (), r, dt)
        self.py_loop(cnt, body)
        return d.at(d.off + cnt)

    def f_for_each(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        fun = self.ev(n["args"][2], fr)

        def body(t):
            self.callf(fun, [LV("e", b.buf, b.pre + (b.off + t,), ())])
        self.py_loop(cnt, body)
        return fun

    def f_generate(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        fun = self.ev(n["args"][2], fr)
        et = self._et(n, 0)

        def body(t):
            r = self.val(self.callf(fun, []))
            self.store_elem(b.buf, b.pre + (b.off + t,), (), r, et)
        self.py_loop(cnt, body)

    def f_partial_sum(self, n, fn, fr):
        b, e, d = self._it(n, 0, fr), self._it(n, 1, fr), self._it(n, 2, fr)
        cnt = self.rangelen(b, e)
        f = self.range_read(b, self._et(n, 0))
        v, w = fresh_var(), fresh_var()
        TM.FACTS.vub[v] = cnt - 1
        TM.FACTS.vub[w] = P(v)
        val = mk_sum(w, P(v) + 1, f(P(w)))
        self.st.heap[(d.buf, ())] = arr_log(self.harr(d.buf, ()), (mk_loop(v, cnt, (("w", P(1), d.pre + (d.off + P(v),), val),)),))
        return d.at(d.off + cnt)

    def _ext(self, n, fr, kind):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        if b.buf is None:
            raise Undecided("extremum of an empty range")
        et = self._et(n, 0)
        if self.p.kind(et) != "num":
            raise Undecided("extremum of objects")
        f = self.range_read(b, et)
        v = fresh_var()
        self.ev_record("nonempty", n=cnt)
        if len(n["args"]) == 3:
            fun = self.ev(n["args"][2], fr)
            x, y = var("r'cx%d" % next(IN._cnt)), var("r'cy%d" % next(IN._cnt))
            c = self.val(self.callf(fun, [P(x), P(y)]))
            if not isinstance(c, Poly):
                raise Undecided("comparator")
            # c must be [f(x) < f(y)]
            for fn2 in (lambda z: z, lambda z: app("abs", z), lambda z: -z, lambda z: -app("abs", z)):
                if lt(fn2(P(x)), fn2(P(y)), "r") is c or lt(fn2(P(x)), fn2(P(y)), "i") is c:
                    ext = mk_ext(kind, v, cnt, fn2(f(P(0))), fn2(f(P(v))))
                    fx = fn2(P(x))
                    if fx is P(x):
                        val = ext
                    elif fx is app("abs", P(x)):
                        val = app("absarg", ext)
                    elif fx is -P(x):
                        val = -ext
                    else:
                        val = app("absarg", -ext)
                    break
            else:
                # not a comparison of keys: the scan itself, kept as a recurrence over the best index so far
                it, best = fresh_var(), var("r'fb%d" % next(IN._cnt))
                cand, cur = f(P(it) + 1), f(P(best))
                step = subst(c, {x: cand, y: cur} if kind == "mn" else {x: cur, y: cand})
                b = mk_fold(it, best, cnt - 1, P(0), ite(step, P(it) + 1, P(best)))
                val = f(b)
        else:
            val = mk_ext(kind, v, cnt, f(P(0)), f(P(v)))
        buf = self.fresh_buf("x")
        self.st.heap[(buf, ())] = arr_const(0)
        self.st.heap[(buf, ())] = write(self.harr(buf, ()), (P(0),), val)
        return Ptr(buf, (), 0)

    def f_max_element(self, n, fn, fr):
        return self._ext(n, fr, "mx")

    def f_min_element(self, n, fn, fr):
        return self._ext(n, fr, "mn")

    def f_max(self, n, fn, fr):
        if not n["args"]:
            return self.limit(n, "max")
        a, b = self.num2(n, fr)
        r = app("max", a, b)
        return self.newloc(r) if n.get("lv") else r

    def f_epsilon(self, n, fn, fr):
        return self.limit(n, "epsilon")

    def f_lowest(self, n, fn, fr):
        return self.limit(n, "lowest")

    def f_min(self, n, fn, fr):
        if not n["args"]:
            return self.limit(n, "min")
        a, b = self.num2(n, fr)
        r = app("min", a, b)
        return self.newloc(r) if n.get("lv") else r

    def limit(self, n, which):
        """std::numeric_limits<T>::min/max/lowest/epsilon"""
        t = self.p.T(n["t"])["s"]
        big = {"int": 2 ** 31 - 1, "double": Fraction(repr(1.7976931348623157e308))}.get(t)
        if big is None:
            raise Undecided("numeric limit of " + t)
        if which == "max":
            return P(big)
        if which == "min":
            return P(-2 ** 31 if t == "int" else Fraction(repr(2.2250738585072014e-308)))
        return P(-big if which == "lowest" else Fraction(repr(2.220446049250313e-16)))

    def num2(self, n, fr):
        if len(n["args"]) != 2:
            raise Undecided("max/min with comparator")
        out = []
        for a in n["args"]:
            v = self.rval(a, fr)
            if not isinstance(v, Poly):
                v = unknown("operand")
            out.append(v)
        return out

    def _un(self, n, fr):
        v = self.rval(n["args"][0], fr)
        return v if isinstance(v, Poly) else unknown("operand")

    def f_fabs(self, n, fn, fr):
        return app("abs", self._un(n, fr))

    f_abs = f_fabs

    def f_sqrt(self, n, fn, fr):
        return app("sqrt", self._un(n, fr))

    def f_hypot(self, n, fn, fr):
        xs = [self.rval(a, fr) for a in n["args"]]
        if not all(isinstance(x, Poly) for x in xs):
            return unknown("operand")
        return app("sqrt", sum((mul(x, x) for x in xs), P(0)))

    def f_remove_if(self, n, fn, fr):
        """keeps, in order, the elements for which the predicate is false"""
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        fun = self.ev(n["args"][2], fr)
        et = self._et(n, 0)
        if b.off.const != 0:
            raise Undecided("remove_if on a subrange")
        v = fresh_var()
        TM.FACTS.vub[v] = cnt - 1
        lv = LV("e", b.buf, b.pre + (P(v),), ())
        c = self.val(self.callf(fun, [lv]))
        if not isinstance(c, Poly):
            raise Undecided("predicate")
        keep = 1 - (c if is_bool(c) else ne0(c))
        w = fresh_var()
        pos = mk_sum(w, P(v), subst(keep, {v: P(w)}))
        total = mk_sum(w, cnt, subst(keep, {v: P(w)}))
        out = {}
        for suf, leaf, d in self.bufleaves(et):
            a = arr_slice(self.harr(b.buf + suf, leaf), b.pre)
            if d != 1:
                raise Undecided("remove_if on nested vectors")
            out[(suf, leaf)] = arr_log(mkarr("uninit", "removed", leaf),
                                       (mk_loop(v, cnt, (("w", keep, (pos,), read(a, (P(v),))),)),))
        return ("removed", b.buf, out, total)

    def f_sort(self, n, fn, fr):
        b, e = self._it(n, 0, fr), self._it(n, 1, fr)
        cnt = self.rangelen(b, e)
        et = self._et(n, 0)
        if b.buf is None:
            return None
        self.ev_access(b, cnt, "range_write")
        x, y = fresh_var(), fresh_var()
        if len(n["args"]) == 3:
            fun = self.ev(n["args"][2], fr)
            c = self.val(self.callf(fun, [LV("e", b.buf, b.pre + (b.off + P(z),), ()) for z in (x, y)]))
        elif self.p.kind(et) == "num":
            f = self.range_read(b, et)
            c = lt(f(P(x)), f(P(y)), "i" if self.p.ts(et)["k"] in ("int", "uint", "char", "bool") else "r")
        else:
            raise Undecided("sort of objects")
        key = key_compare(c, x, y)
        if key is None:
            raise Undecided("comparator is not a key comparison")
        TM.FACTS.sorted = True
        h = fresh_var()
        K = arr_lam((h,), subst(key, {x: app("clip", P(h), cnt)}))
        self.sort_leaves(b.buf, b.pre, b.off, cnt, K, et)
        return None

    def sort_leaves(self, buf, pre, off, cnt, K, et):
        """[off, off+cnt) rearranged by the stable sorting permutation of the keys K"""
        k = fresh_var()
        TM.FACTS.vub[k] = cnt - 1
        src = app("srt", K, cnt, P(k))
        for suf, leaf, d in self.bufleaves(et):
            if d != 1:
                raise Undecided("sort of nested vectors")
            a = self.harr(buf + suf, leaf)
            old = read(a, pre + (off + src,))
            self.st.heap[(buf + suf, leaf)] = arr_log(a, (mk_loop(k, cnt, (("w", P(1), pre + (off + P(k),), old),)),))
        return None


def key_compare(c, x, y):
    """c = [key(x) < key(y)] -> key(x)"""
    if not isinstance(c, Poly):
        return None
    p = None
    for q, orient in ((c, 1), (1 - c, -1)):
        if len(q.t) == 1:
            (m, cf), = q.t.items()
            if cf == 1 and len(m) == 1 and m[0][0].kind == "lt0":
                p = m[0][0].args[0] if orient == 1 else -m[0][0].args[0] - 1
                if orient == -1 and m[0][0].args[1] != "i":
                    return None
    if p is None:
        return None
    kx = TM._mkpoly({m: cf for m, cf in p.t.items() if any(x in a.free for a, _ in m)})
    if y in kx.free or p - kx + subst(kx, {x: P(y)}) != P(0):
        return None
    return kx
