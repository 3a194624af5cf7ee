"""Files and string streams: a text file is a sequence of lines of tokens, a binary file a sequence
of typed blocks.  Reading consumes tokens (or lines, or blocks) in order and fails behind the last
one; writing appends them, and keeps track of separators and of the precision of real numbers."""
from interp import *
import interp as IN
from terms import *
import terms as TM
from umfpack import Umfpack

SIZES = {"double": 8, "int": 4, "unsigned long": 8, "long": 8, "unsigned int": 4, "float": 4, "char": 1, "bool": 1}
STREAMS = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_istringstream", "std::basic_stringstream",
           "std::basic_ostringstream", "std::basic_fstream", "std::basic_istream", "std::basic_ostream", "std::basic_ios",
           "std::basic_iostream", "std::ios_base")


NCOL = 6            # columns of the written lines that have arrays of their own


class Stm(object):
    """a stream object; its state is in the store under its own keys"""

    def __init__(self, sid):
        self.sid = sid

    def eqv(self, o):
        return self is o

    def __repr__(self):
        return "stream%d" % self.sid


class Str(object):
    """a string: alternatives (condition, text)"""

    def __init__(self, alts):
        self.alts = alts

    @property
    def text(self):
        return self.alts[0][1] if len(self.alts) == 1 else None

    def eqv(self, o):
        return isinstance(o, Str) and len(o.alts) == len(self.alts) and \
            all(a is c and b == d for (a, b), (c, d) in zip(self.alts, o.alts))


class Arg(object):
    """the caller's file name"""

    def eqv(self, o):
        return self is o


class Content(object):
    """the text collected in a string stream"""

    def __init__(self, stm):
        self.stm = stm

    def eqv(self, o):
        return isinstance(o, Content) and o.stm is self.stm


class Line(object):
    """a line of numbers of an input file"""

    def __init__(self, seg, line):
        self.seg, self.line = seg, line

    def eqv(self, o):
        return isinstance(o, Line) and o.seg is self.seg and o.line is self.line


class Text(object):
    """segment: lines of text, known literally"""
    per = 1

    def __init__(self, lines):
        self.lines = lines
        self.n = P(len(lines))


class Rows(object):
    """segment: n lines of the numbers cols[0](line), cols[1](line), ..."""

    def __init__(self, n, cols):
        self.n, self.cols, self.per = P(n), cols, len(cols)

    def token(self, line, c):
        return self.cols[c](line)


class Ragged(object):
    """segment: n lines; line l holds token(l, 0) ... token(l, count(l) - 1)"""
    per = 1

    def __init__(self, n, count, tok):
        self.n, self.count, self.tok = P(n), count, tok


class Block(object):
    """segment of a binary file: n values of one scalar type"""
    per = 1

    def __init__(self, n, size, at):
        self.n, self.size, self.at = P(n), size, at


class Files(Umfpack):
    def __init__(self, prog):
        Umfpack.__init__(self, prog)
        self.infile = None           # segments of the file that is read
        self.fname = Arg()
        self.can_open = P(1)
        self.stms = {}
        self.written = []            # streams that were opened for writing
        self.printing = None         # (width, precision) that printed real numbers must have

    # ---------------------------------------------------------------- strings
    def loop(self, step, fr=None, N=None, tvar=None):
        for sid, d in self.stms.items():
            if d["dir"] == "in" and "stm%d.seg" % sid in self.st.store and self.sget(Stm(sid), "seg").const is not None:
                self.inseg(Stm(sid))
        return Umfpack.loop(self, step, fr, N, tvar)

    def mergeval(self, c, a, b, sa, sb, out):
        if isinstance(a, (Str, Opq)) and isinstance(b, (Str, Opq)):
            a, b = self.as_str(a), self.as_str(b)
        if isinstance(a, Str) and isinstance(b, Str) and not same(a, b):
            if len(a.alts) + len(b.alts) <= 6:
                return Str([(mul(c, x), s) for x, s in a.alts] + [(mul(1 - c, x), s) for x, s in b.alts])
        return Umfpack.mergeval(self, c, a, b, sa, sb, out)

    def as_str(self, v):
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Opq) and v.why.startswith("string:"):
            return Str([(P(1), v.why[7:])])
        return v

    def strval(self, node, fr):
        return self.as_str(self.ev(node, fr))

    def is_stream(self, t):
        return self.p.ts(t).get("rec") in STREAMS

    def isstr(self, t):
        return self.p.kind(t) == "string"

    # ---------------------------------------------------------------- stream state
    def sget(self, s, k):
        return self.st.store["stm%d.%s" % (s.sid, k)]

    def sset(self, s, k, v):
        self.st.store["stm%d.%s" % (s.sid, k)] = v

    def stream(self, v):
        if isinstance(v, LV):
            v = self.load(v)
        if not isinstance(v, Stm):
            raise Undecided("stream %r" % (v,))
        return v

    def new_in(self, segs, is_open=P(1)):
        s = Stm(next(IN._cnt))
        self.stms[s.sid] = dict(dir="in", segs=segs, open=is_open)
        for k in ("seg", "pos", "bad", "pend"):
            self.sset(s, k, P(0))
        return s

    def new_out(self, is_open=P(1), tmp=False):
        s = Stm(next(IN._cnt))
        b = "out%d" % s.sid
        self.stms[s.sid] = dict(dir="out", open=is_open, tok=b, cnt=b + ".n", blocks=[])
        for k, v in (("line", 0), ("col", 0), ("all", 0), ("sep", 1), ("prec", 6), ("bin", 0), ("width", 0), ("fix", 0)):
            self.sset(s, k, P(v))
        self.st.heap[(b, ())] = arr_const(0, 2)
        for k in range(NCOL):
            self.st.heap[(b + ".c%d" % k, ())] = arr_const(0, 1)
        self.st.heap[(b + ".n", ())] = arr_const(0, 1)
        self.st.heap[(b + ".f", ())] = arr_const(0, 1)
        if not tmp:
            self.written.append(s)
        return s

    # ---------------------------------------------------------------- reading
    def inseg(self, s):
        i = self.sget(s, "seg").const
        if i is None:
            raise Undecided("position in the file")
        segs = self.stms[s.sid]["segs"]
        i = int(i)
        while i < len(segs) - 1 and not isinstance(segs[i], Block) and (self.sget(s, "pos") - segs[i].n * segs[i].per).const == 0:
            i += 1
            self.sset(s, "seg", P(i))
            self.sset(s, "pos", P(0))
        return segs[i] if i < len(segs) else None

    def split(self, pos, k):
        """pos = k * line + column -> (line, column) or None"""
        if k == 1:
            return pos, 0
        t, r = {}, 0
        for m, c in pos.t.items():
            if not m:
                r = c % k
                if (c - r) != 0:
                    t[m] = Fraction(c - r) / k
            elif (Fraction(c) / k).denominator == 1:
                t[m] = Fraction(c) / k
            else:
                return None
        return TM._mkpoly(t), int(r)

    def upto(self, pos, S):
        """pos <= number of tokens of the segment"""
        lr = self.split(pos, S.per)
        if lr is None:
            return le(pos, S.n * S.per)
        return le(lr[0], S.n) if lr[1] == 0 else lt(lr[0], S.n)

    def is_open(self, s):
        """condition under which the stream is open, given that this point is reached"""
        o = self.stms[s.sid]["open"]
        if o.const is None and any(mul(q, o) == q for q in [self.st.pc] + self.pcs):
            return P(1)
        return o

    def stm_ok(self, s):
        ok = self.is_open(s)
        S = self.inseg(s)
        bad = self.sget(s, "bad")
        if S is None:
            return mul(ok, mul(1 - bad, le(self.sget(s, "pos"), P(0))))
        return mul(ok, mul(1 - bad, self.upto(self.sget(s, "pos"), S)))

    def advance(self, s, S, pos):
        last = len(self.stms[s.sid]["segs"]) - 1
        i = int(self.sget(s, "seg").const)
        if i < last and (pos - S.n * S.per).const == 0:
            self.sset(s, "seg", P(i + 1))
            pos = P(0)
        self.sset(s, "pos", pos)

    def get_token(self, s, lv, t):
        S = self.inseg(s)
        pos = self.sget(s, "pos")
        num = self.p.kind(t) == "num"
        if not num:
            raise Undecided("reading a %s" % self.p.ts(t)["s"])
        if S is None:
            self.sset(s, "pos", pos + 1)
            return
        if self.sget(s, "bad").const == 1:
            return
        if isinstance(S, Text):
            self.sset(s, "bad", P(1))
            self.storev(lv, P(0), t)
            return
        if isinstance(S, Ragged) or isinstance(S, Block):
            raise Undecided("token of a line of unknown length")
        lr = self.split(pos, S.per)
        if lr is None:
            self.storev(lv, unknown("token"), t)
        else:
            has = mul(self.is_open(s), mul(1 - self.sget(s, "bad"), lt(lr[0], S.n)))
            v = S.token(lr[0], lr[1])
            if not self.p.is_real(t) and not is_int(v):
                v = app("trunc", v)
            old = self.load(lv, t)
            if has.const == 1:
                self.storev(lv, v, t)
            else:
                self.storev(lv, ite(has, v, old) if isinstance(old, Poly) else unknown("maybe uninitialised"), t)
        self.sset(s, "pend", P(1))
        self.advance(s, S, pos + 1)

    def get_line(self, s, lv, t):
        S = self.inseg(s)
        pos = self.sget(s, "pos")
        pend = self.sget(s, "pend").const
        if pend is None:
            raise Undecided("position in the line")
        if pend:
            self.sset(s, "pend", P(0))
            self.storev(lv, Str([(P(1), "")]), t)
            return
        if S is None:
            self.sset(s, "pos", pos + 1)
            self.storev(lv, Str([(P(1), "")]), t)
            return
        if isinstance(S, Text):
            k = int(pos.const)
            self.storev(lv, Str([(P(1), S.lines[k])]), t)
            self.advance(s, S, pos + 1)
            return
        lr = self.split(pos, S.per)
        if lr is None:
            self.storev(lv, Opq("line"), t)
        elif lr[1]:
            raise Undecided("rest of a line")
        else:
            self.storev(lv, Line(S, lr[0]), t)
        self.advance(s, S, pos + S.per)

    # ---------------------------------------------------------------- writing
    def put_num(self, s, v, t):
        if not isinstance(v, Poly):
            if v is UNINIT:
                self.ev_record("uninit")
            raise Undecided("written value %r" % (v,))
        d = self.stms[s.sid]
        if self.printing:
            w, pr, fx = self.printing
            if self.p.is_real(t):
                self.x_need("entries are printed with the expected precision", eq(self.sget(s, "prec"), pr))
                self.x_need("entries are printed in the expected notation", eq(self.sget(s, "fix"), fx))
                if w is not None:
                    self.x_need("entries are printed with the expected width", eq(self.sget(s, "width"), w))
            if w is None:
                self.x_need("printed numbers are separated", self.sget(s, "sep"))
            self.sset(s, "width", P(0))
            return self.put_tok(s, v)
        self.x_need("numbers in the file are separated", self.sget(s, "sep"))
        if self.p.is_real(t):
            self.x_need("real numbers are written with at least 16 digits", le(P(16), self.sget(s, "prec")))
        self.put_tok(s, v)

    def put_tok(self, s, v):
        d = self.stms[s.sid]
        line, col = self.sget(s, "line"), self.sget(s, "col")
        if col.const is not None and col.const < NCOL:
            b = d["tok"] + ".c%d" % int(col.const)
            self.st.heap[(b, ())] = write(self.harr(b, ()), (line,), v)
        else:
            self.st.heap[(d["tok"], ())] = write(self.harr(d["tok"], ()), (line, col), v)
        at = self.sget(s, "all")
        self.st.heap[(d["tok"] + ".f", ())] = write(self.harr(d["tok"] + ".f", ()), (at,), v)
        self.sset(s, "all", at + 1)
        self.sset(s, "col", col + 1)
        self.sset(s, "sep", P(0))

    def word(self, w):
        """number that stands for a word"""
        h = 7
        for ch in w:
            h = (h * 131 + ord(ch)) % (1 << 40)
        return P(-1000000 - h)

    def put_text(self, s, text):
        d = self.stms[s.sid]
        w = ""
        for ch in text + "\0":
            if self.printing and ch in "(),":
                # punctuation stands for itself
                if w:
                    self.put_tok(s, self.word(w))
                    w = ""
                self.put_tok(s, self.word(ch))
                self.sset(s, "sep", P(1))
                continue
            if ch in " \t\n\0":
                if w:
                    self.x_need("words in the file are separated", self.sget(s, "sep"))
                    self.put_tok(s, self.word(w))
                    w = ""
                if ch == "\n":
                    line = self.sget(s, "line")
                    self.st.heap[(d["cnt"], ())] = write(self.harr(d["cnt"], ()), (line,), self.sget(s, "col"))
                    self.sset(s, "line", line + 1)
                    self.sset(s, "col", P(0))
                if ch != "\0":
                    self.sset(s, "sep", P(1))
            else:
                w += ch

    def put_content(self, s, src):
        """what was collected in another stream is written to this one"""
        a, b = self.stms[src.sid], self.stms[s.sid]
        n, k = self.sget(src, "line"), self.sget(src, "col")
        keys = [""] + [".c%d" % q for q in range(NCOL)]
        if n.const == 0 and k.const is not None and k.const <= NCOL:
            for q in range(int(k.const)):
                self.put_tok(s, read(self.harr(a["tok"] + ".c%d" % q, ()), (P(0),)))
            self.sset(s, "sep", self.sget(src, "sep"))
            return
        if any(self.sget(s, q).const != 0 for q in ("line", "col", "all")) or self.loops:
            raise Undecided("text appended to other text")
        for q in keys + [".n", ".f"]:
            self.st.heap[(b["tok"] + q, ())] = self.harr(a["tok"] + q, ())
        for q in ("line", "col", "all", "sep"):
            self.sset(s, q, self.sget(src, q))

    def put_str(self, s, v):
        if isinstance(v, Content):
            return self.put_content(s, v.stm)
        if not isinstance(v, Str):
            raise Undecided("written string %r" % (v,))
        if v.text is not None:
            return self.put_text(s, v.text)
        if all(x.strip(" \t") == "" for _, x in v.alts):
            c = P(0)
            for q, x in v.alts:
                if x:
                    c = c + q
            self.sset(s, "sep", ite(c, P(1), self.sget(s, "sep")))
            return

        def rest(alts):
            if len(alts) == 1:
                self.put_text(s, alts[0][1])
            else:
                self.fork(alts[0][0], lambda: self.put_text(s, alts[0][1]), lambda: rest(alts[1:]))
        rest(v.alts)

    # ---------------------------------------------------------------- binary blocks
    def block_arg(self, a, nb, fr):
        """pointer argument, its element type and the number of elements"""
        p = self.p
        x = a
        while x.get("k") == "Cast" and p.ts(x["e"]["t"])["k"] in ("ptr", "array"):
            x = x["e"]
        et = p.elem(x["t"])
        size = SIZES.get(p.ts(et)["s"].replace("const ", ""))
        if size is None:
            raise Undecided("size of %s" % p.ts(et)["s"])
        v = self.rval(a, fr)
        n = self.num(nb, fr)
        n = TM.scale(n, Fraction(1, size))
        if any(Fraction(c).denominator != 1 for c in n.t.values()):
            self.x_need("whole elements are transferred", P(0))
        return v, et, size, n

    def block_ptr(self, v, n, kind):
        if isinstance(v, PtrL):
            self.x_need("%s one element" % kind, eq(n, P(1)))
        elif isinstance(v, Ptr) and v.buf is not None:
            self.ev_access(v, n, kind)
            self.check_stale(v)
        elif isinstance(v, Ptr):
            self.x_need("nothing is transferred through a null pointer", le(n, P(0)))
        else:
            raise Undecided("transfer address %r" % (v,))

    def put_block(self, s, A, fr):
        v, et, size, n = self.block_arg(A[0], A[1], fr)
        self.block_ptr(v, n, "range_read")
        if self.loops:
            raise Undecided("binary output in a loop")
        if isinstance(v, PtrL):
            x = self.load(v.lv, et)
            if not isinstance(x, Poly):
                raise Undecided("written value")
            at = lambda i, x=x: x
        elif v.buf is None:
            at = lambda i: P(0)
        else:
            at = self.range_read(v, et)
        d = self.stms[s.sid]
        self.sset(s, "bin", self.sget(s, "bin") + 1)
        d["blocks"] = d["blocks"][:] + [Block(n, size, at)]
        d["real%d" % (len(d["blocks"]) - 1)] = self.p.is_real(et)

    def get_block(self, s, A, fr):
        v, et, size, n = self.block_arg(A[0], A[1], fr)
        self.block_ptr(v, n, "range_write")
        S = self.inseg(s)
        if self.loops:
            raise Undecided("binary input in a loop")
        if not isinstance(S, Block) or self.sget(s, "pos").const != 0:
            self.x_need("the blocks are read as they are documented", P(0))
            raise Undecided("position in the binary file")
        self.x_need("the values of the block are read with their type", P(1 if S.size == size else 0))
        self.x_need("the whole block is read", eq(S.n, n))
        if isinstance(v, PtrL):
            self.storev(v.lv, S.at(P(0)), et)
        elif v.buf is not None:
            self.range_write(v, n, lambda i: S.at(i))
        self.sset(s, "seg", self.sget(s, "seg") + 1)

    # ---------------------------------------------------------------- hooks
    def std_ctor(self, n, t, k, fr):
        rec = self.p.ts(t).get("rec")
        A = [a for a in n["args"] if not self._is_alloc(a)]
        if k == "string":
            if not A:
                return Str([(P(1), "")])
            if self.isstr(A[0]["t"]) or self.p.ts(A[0]["t"])["k"] in ("ptr", "array"):
                v = self.strval(A[0], fr)
                if len(A) == 1 or isinstance(v, Arg):
                    return v
            return Opq("string")
        if rec in STREAMS:
            args = [self.ev(a, fr) for a in A]
            if self.st is None:
                return None
            if rec in ("std::basic_istringstream", "std::basic_stringstream") and A and self.isstr(A[0]["t"]):
                v = self.as_str(args[0])
                if isinstance(v, Line):
                    S = v.seg
                    if isinstance(S, Ragged):
                        return self.new_in([Rows(S.count(v.line), [lambda c, S=S, l=v.line: S.tok(l, c)])])
                    return self.new_in([Rows(P(1), [lambda c, S=S, l=v.line, k=k: S.token(l, k) for k in range(S.per)])])
                if isinstance(v, Str) and v.text is not None:
                    return self.new_in([Text([v.text])] if v.text.strip() else [])
                return Opq("string stream")
            if self.printing and rec in ("std::basic_stringstream", "std::basic_ostringstream") and not A:
                return self.new_out(tmp=True)
            if rec in ("std::basic_ifstream", "std::basic_ofstream"):
                if not A:
                    return Opq("closed stream")
                return self.open(rec, self.as_str(args[0]), A[1:])
            return Opq("stream")
        return Umfpack.std_ctor(self, n, t, k, fr)

    def modes(self, node):
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "Global":
                    out.add(str(x.get("q")).split("::")[-1])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(node)
        return out

    def open(self, rec, name, modes):
        if self.infile is None:
            return Opq("file")
        self.x_need("the named file is opened", P(1 if name is self.fname else 0))
        ms = self.modes(modes)
        if rec == "std::basic_ifstream":
            self.x_need("a file that is read is not opened for writing", P(0 if ms & {"out", "trunc", "app"} else 1))
            return self.new_in(self.infile, self.can_open)
        self.x_need("a file that is written starts empty", P(0 if ms & {"app", "in", "ate"} else 1))
        return self.new_out(self.can_open)

    def std_method(self, n, fn, o, ot, fr):
        name = fn["q"].split("::")[-1]
        A = n["args"]
        if self.isstr(ot):
            v = self.as_str(o) if isinstance(o, LV) else o
            if name in ("c_str", "data") and isinstance(v, (Arg, Str)):
                return v
            if isinstance(v, Str) and v.text is not None:
                if name in ("size", "length"):
                    return P(len(v.text))
                if name == "empty":
                    return P(0 if v.text else 1)
                if name in ("operator[]", "at", "front"):
                    i = self.num(A[0], fr).const if A else 0
                    if i is not None:
                        return self.newloc(P(ord(v.text[int(i)]) if i < len(v.text) else 0))
                if name == "find":
                    w = self.strval(A[0], fr)
                    if isinstance(w, Str) and w.text is not None:
                        i = v.text.find(w.text)
                        return P(i) if i >= 0 else P((1 << 64) - 1)
            if isinstance(v, Line):
                # a line of numbers
                if name in ("size", "length") and not isinstance(v.seg, Ragged):
                    return P(3)
                if name == "empty":
                    return eq(v.seg.count(v.line), 0) if isinstance(v.seg, Ragged) else P(0)
                if name in ("size", "length"):
                    # one digit numbers, one space in between
                    n = v.seg.count(v.line)
                    return n + n - (1 - eq(n, 0))
                if name in ("operator[]", "at", "front") and not isinstance(v.seg, Ragged):
                    return self.newloc(P(ord("1")))
                if name == "find":
                    w = self.strval(A[0], fr)
                    if isinstance(w, Str) and w.text is not None and any(ch.isalpha() or ch == "%" for ch in w.text):
                        return P((1 << 64) - 1)
            if name == "operator=":
                v = self.strval(A[0], fr)
                if isinstance(v, (Str, Line, Arg)):
                    self.storev(o, v, ot)
                    return o
        elif self.is_stream(ot):
            v = self.load(o) if isinstance(o, LV) else o
            if isinstance(v, Stm):
                r = self.stream_method(v, name, n, fn, o, fr)
                if r is not NotImplemented:
                    return r
                raise Undecided("stream operation " + name)
        return Umfpack.std_method(self, n, fn, o, ot, fr)

    def stream_method(self, s, name, n, fn, o, fr):
        A = n["args"]
        d = self.stms[s.sid]
        if name == "is_open":
            return self.is_open(s)
        if name in ("close", "flush"):
            return o if name == "flush" else None
        if name == "precision":
            if d["dir"] == "out" and A:
                self.sset(s, "prec", self.num(A[0], fr))
            return P(6)
        if d["dir"] == "in":
            if name in ("operator bool", "good"):
                return self.stm_ok(s)
            if name in ("operator!", "fail"):
                return 1 - self.stm_ok(s)
            if name == "operator>>" and len(A) == 1:
                lv = self.ev(A[0], fr)
                if not isinstance(lv, LV):
                    raise Undecided("target of a read")
                self.get_token(s, lv, A[0]["t"])
                return o
            if name == "read":
                self.get_block(s, A, fr)
                return o
        else:
            if name == "str" and not A and self.printing:
                return Content(s)
            if name == "width" and A:
                self.sset(s, "width", self.num(A[0], fr))
                return P(0)
            if name in ("operator bool", "good"):
                return self.is_open(s)
            if name in ("operator!", "fail"):
                return 1 - self.is_open(s)
            if name == "operator<<" and len(A) == 1:
                return self.put_arg(s, A[0], fr, o)
            if name == "write":
                self.put_block(s, A, fr)
                return o
        return NotImplemented

    def put_arg(self, s, a, fr, o):
        p = self.p
        t = a["t"]
        ts = p.ts(t)
        if "endl" in str(a.get("q", "")) or a.get("k") in ("FnRef", "Cast") and "endl" in repr(a)[:2000] and p.kind(t) != "num":
            self.put_text(s, "\n")
            return o
        if p.kind(t) == "num" and ts["k"] == "char":
            c = self.num(a, fr).const
            if c is None:
                raise Undecided("written character")
            self.put_text(s, chr(int(c)))
            return o
        if p.kind(t) == "num":
            v = self.rval(a, fr)
            self.put_num(s, v, t)
            return o
        if self.printing and "ios_base" in ts["s"]:
            for q, k in (("std::fixed", 1), ("std::scientific", 2), ("std::defaultfloat", 0), ("std::hexfloat", 3)):
                if q in repr(a):
                    self.sset(s, "fix", P(k))
                    return o
            for q in ("left", "right", "internal"):
                if "std::" + q in repr(a):
                    return o
        if self.isstr(t) or ts["k"] in ("ptr", "array"):
            self.put_str(s, self.strval(a, fr))
            return o
        for q, k in (("_Setprecision", "prec"), ("_Setw", "width")):
            if q in ts["s"]:
                x = a
                while x.get("k") in ("Cast", "Mat"):
                    x = x["e"]
                if x.get("k") == "Call" and x.get("args"):
                    self.sset(s, k, self.num(x["args"][0], fr))
                    return o
        raise Undecided("written object of type " + ts["s"])

    def std_call(self, n, fn, fr):
        q = fn["q"]
        name = q.split("::")[-1]
        A = n["args"]
        if name in ("operator<<", "operator>>", "getline") and len(A) >= 2 and self.is_stream(A[0]["t"]):
            o = self.ev(A[0], fr)
            if self.st is None:
                return None
            v = self.load(o) if isinstance(o, LV) else o
            if isinstance(v, Stm):
                d = self.stms[v.sid]
                if name == "getline":
                    lv = self.ev(A[1], fr)
                    if len(A) != 2 or d["dir"] != "in":
                        raise Undecided("getline")
                    self.get_line(v, lv, A[1]["t"])
                    return o
                if name == "operator>>" and d["dir"] == "in":
                    lv = self.ev(A[1], fr)
                    self.get_token(v, lv, A[1]["t"])
                    return o
                if name == "operator<<" and d["dir"] == "out":
                    return self.put_arg(v, A[1], fr, o)
                raise Undecided("stream operation " + name)
        if name == "operator+" and A and self.isstr(n["t"]):
            vs = [self.strval(a, fr) for a in A]
            if all(isinstance(v, Str) and v.text is not None for v in vs):
                return Str([(P(1), vs[0].text + vs[1].text)])
            return Opq("string")
        if name in ("operator==", "operator!=") and len(A) == 2 and any(self.isstr(a["t"]) for a in A):
            vs = [self.strval(a, fr) for a in A]
            if all(isinstance(v, Str) and v.text is not None for v in vs):
                r = P(1 if vs[0].text == vs[1].text else 0)
                return r if name == "operator==" else 1 - r
        return Umfpack.std_call(self, n, fn, fr)
