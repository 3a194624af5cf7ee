"""C18: the public interface is complete: headers stand alone, every declared operation is
defined exactly once, every documented instantiation and every public call compiles."""
import concurrent.futures as cf
import os
import decls
import program
from spec import add_ob

INST = ["VectorView<double>", "VectorView<int>", "Vector<double>", "Vector<int>", "BlockVector<double>", "BlockVector<int>",
        "SparseMatrix<double>", "SparseMatrix<int>", "CooMatrix<double>", "CooMatrix<int>", "LilMatrix<double>", "LilMatrix<int>",
        "BlockMatrix<double>", "BlockMatrix<int>"]


def err(e):
    return "%s:%d: %s" % e


def headers_alone(prog, rec):
    hs = decls.headers()
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda h: decls.syntax('#include "%s"\n#include "%s"\n' % (h, h), "h_" + os.path.basename(h).replace(".", "_")), hs))
    finally:
        decls.done()
    for h, r in zip(hs, res):
        nm = os.path.relpath(h, program.REPO)
        if r:
            rec.fail(nm + " compiles on its own", [err(e) for e in r[:5]], "%s:%d" % r[0][:2])
        else:
            rec.ok(nm + " compiles on its own", None, nm + ":1")


add_ob("C18", "headers", headers_alone, rule=True)


def instantiations(prog, rec):
    head = decls.umbrella()
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda t: decls.syntax(head + "template class linalgcpp::%s;\n" % t,
                                                     "i_" + t.replace("<", "_").replace(">", "")), INST))
    finally:
        decls.done()
    for t, r in zip(INST, res):
        if r:
            rec.fail("every member of %s compiles" % t, [err(e) for e in r[:5]], "%s:%d" % r[0][:2])
        else:
            rec.ok("every member of %s compiles" % t)


add_ob("C18", "instantiations", instantiations, rule=True)


def definitions(prog, rec):
    try:
        hdr, srcs = decls.everything()
    finally:
        decls.done()
    defined = {}
    for s, ds in srcs.items():
        for x in ds:
            # an inline definition in a source is of no use to the callers elsewhere
            if x["kind"] == "fn" and x["here"] and not x["templ"] and not x["inl"] and x["ext"]:
                defined.setdefault(x["m"], []).append((s, x))
    bysig = {}
    for x in hdr:
        if x["kind"] == "fn" and x["def"]:
            bysig.setdefault((x["q"], x["np"]), []).append(x)
    seen = set()
    for x in hdr:
        if x["kind"] == "var":
            if x["here"] and not x["inl"] and not x["templ"] and x["ext"]:
                rec.fail("variable %s may be included from several sources" % x["q"], "a definition in a header that is not inline", decls.rel(x))
            continue
        if x["deleted"] or x["defaulted"] or x["pure"]:
            continue
        key = x["sig"]
        if x["here"] and not x["templ"]:
            # a definition in a header
            if not x["inl"] and x["ext"]:
                rec.fail("%s may be included from several sources" % key, "a definition in a header that is not inline", decls.rel(x))
            elif key not in seen:
                rec.ok("%s is defined" % key, None, decls.rel(x))
            seen.add(key)
            continue
        if key in seen:
            continue
        seen.add(key)
        ok = x["def"]
        why = "no definition is visible in the headers"
        if not ok and x["templ"] and x["friend"]:
            ok = bool(bysig.get((x["q"], x["np"])))
        if not ok and not x["templ"] and not x["inl"]:
            ok = bool(defined.get(x["m"]))
            why = "no source defines it"
        elif not ok and not x["templ"]:
            why = "inline, but not defined in the headers"
        if ok:
            rec.ok("%s is defined" % key, None, decls.rel(x))
        else:
            rec.fail("%s is defined" % key, why, decls.rel(x))
    # one definition per program
    for m, l in defined.items():
        ext = [(s, x) for s, x in l if x["ext"] and not x["inl"]]
        where = set(x["file"] + ":%d" % x["line"] for _, x in ext)
        if len(ext) > 1 and len(set(s for s, _ in ext)) > 1 and len(where) > 1:
            rec.fail("%s is defined once" % ext[0][1]["sig"], "defined at " + ", ".join(sorted(where)), decls.rel(ext[1][1]))


add_ob("C18", "definitions", definitions, rule=True)


def calls(prog, rec):
    if prog is None:
        rec.und("public calls", "the sources do not parse")
        return
    for n, text in program.PROBES.items():
        what = "a caller compiles: " + text[:160]
        if n in prog.lost:
            rec.fail(what, prog.lost[n])
        else:
            rec.ok(what)


add_ob("C18", "public calls", calls, rule=True)
