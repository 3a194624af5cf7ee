"""Declarations, definitions and linkage of everything in the public headers (clang AST)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import program


def headers():
    out = []
    for d in ("include", "modules/partition/include", "modules/sparsesolver/include"):
        p = os.path.join(program.REPO, d)
        if os.path.isdir(p):
            out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith((".hpp", ".h"))]
    return out


def scratch():
    d = os.path.join(program.BUILD, "decls-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def flags():
    return ["-std=gnu++17", "-xc++"] + program.includes() + ["-resource-dir", program.resource_dir()]


def syntax(text, name):
    """-> list of (file, line, message) of the errors of one translation unit"""
    d = scratch()
    src = os.path.join(d, name + ".cpp")
    with open(src, "w") as f:
        f.write(text)
    r = subprocess.run(["clang++-18", "-fsyntax-only", "-w", "-ferror-limit=20"] + flags() + [src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = []
    for m in re.finditer(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stdout, re.M):
        out.append((os.path.relpath(m.group(1), program.REPO) if m.group(1).startswith(program.REPO + "/") else os.path.basename(m.group(1)),
                    int(m.group(2)), m.group(3)))
    if r.returncode and not out:
        out.append(("?", 0, r.stdout[-300:]))
    return out


def table(src, name):
    out = os.path.join(scratch(), name + ".json")
    r = subprocess.run([os.path.join(program.BUILD, "decls"), out, os.path.realpath(program.REPO) + "/", src, "--"] + flags() + ["-w"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise program.ToolError("declarations of %s: %s" % (src, r.stdout[-500:]))
    with open(out) as f:
        return json.load(f)


def umbrella():
    return "".join('#include "%s"\n' % os.path.basename(h) for h in headers() if os.path.basename(h) != "utilities.hpp") + '#include "utilities.hpp"\n'


def everything():
    """(declarations seen from the headers, per source: its declarations)"""
    src = os.path.join(scratch(), "all.cpp")
    with open(src, "w") as f:
        f.write(umbrella())
    jobs = [(src, "all")] + [(s, "src%d" % i) for i, s in enumerate(program.repo_sources())]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: table(*j), jobs))
    return res[0], dict(zip([j[0] for j in jobs[1:]], res[1:]))


def done():
    shutil.rmtree(scratch(), ignore_errors=True)


def rel(x):
    return "%s:%d" % (os.path.relpath(x["file"], os.path.realpath(program.REPO)), x["line"])
