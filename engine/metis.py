"""Contract of the METIS entry points that are used: extents of the arrays, and a partition that is
an unknown assignment of the vertices to the requested parts."""
import re
from interp import *
import interp as IN
from terms import *
import terms as TM
from files import Files

NOPTIONS = P(40)


def option(name):
    """position of an option, from the installed header"""
    with open("/usr/include/metis.h") as f:
        s = f.read()
    i = s.index("METIS_OPTION_PTYPE")
    s = s[s.rindex("{", 0, i) + 1:]
    s = re.sub(r"/\*.*?\*/", "", s[:s.index("}")], flags=re.S)
    return P([x.strip() for x in s.split(",")].index("METIS_OPTION_" + name))


class Metis(Files):
    def __init__(self, prog):
        Files.__init__(self, prog)
        self.metis = []

    def m_null(self, p):
        return p is None or isinstance(p, Ptr) and (p.buf is None or p.null.const == 1)

    def m_opt(self, fn, nm, p, cnt):
        """optional array -> contents or None"""
        if self.m_null(p):
            return None
        if isinstance(p, Ptr) and p.null.const != 0:
            raise Undecided("%s: %s" % (fn, nm))
        self.x_arr(fn, nm, p, cnt, "range_read")
        if isinstance(p, PtrL):
            v = self.x_scalar(p)
            a = fresh_var()
            return arr_lam((a,), v)
        return self.content(p)

    def x_METIS_SetDefaultOptions(self, options):
        self.x_arr("METIS_SetDefaultOptions", "options", options, NOPTIONS, "range_write")
        self.range_write(options, NOPTIONS, lambda i: P(-1))
        return P(1)

    def x_METIS_PartGraphKway(self, *args):
        return self.m_part("METIS_PartGraphKway", *args)

    def x_METIS_PartGraphRecursive(self, *args):
        return self.m_part("METIS_PartGraphRecursive", *args)

    def m_part(self, fn, nvtxs, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tpwgts, ubvec, options, objval, part):
        n, nc, np = self.x_scalar(nvtxs), self.x_scalar(ncon), self.x_scalar(nparts)
        self.x_need(fn + ": there are vertices", le(P(1), n))
        self.x_need(fn + ": one balancing constraint", eq(nc, P(1)))
        self.x_need(fn + ": there are parts", le(P(1), np))
        x = self.m_opt(fn, "xadj", xadj, n + 1)
        if x is None:
            raise Undecided(fn + " without a graph")
        m = read(x, (n,))
        r = dict(n=n, parts=np, xadj=x, m=m)
        r["adjncy"] = self.m_opt(fn, "adjncy", adjncy, m)
        r["adjwgt"] = self.m_opt(fn, "adjwgt", adjwgt, m)
        r["vwgt"] = self.m_opt(fn, "vwgt", vwgt, mul(n, nc))
        r["vsize"] = self.m_opt(fn, "vsize", vsize, n)
        r["tpwgts"] = self.m_opt(fn, "tpwgts", tpwgts, mul(np, nc))
        r["ub"] = None if self.m_null(ubvec) else self.x_scalar(ubvec)
        r["options"] = self.m_opt(fn, "options", options, NOPTIONS)
        self.x_arr(fn, "objval", objval, P(1), "range_write")
        self.x_arr(fn, "part", part, n, "range_write")
        self.metis.append(r)
        nm = "metis.part%d" % len(self.metis)
        if self.ctx is not None:
            self.ctx.arr(nm, "index", np)
        r["name"] = nm
        self.range_write(part, n, lambda i: sel(nm, (i,)))
        return P(1)
