"""run.py PROPERTY: decide one property on the current tree of /repo.

Every obligation of the property is evaluated by the abstract interpreter (specs/*.py)
or by a structural rule over the extracted program (rules/*.py).  Exit 0: nothing
refuted.  Exit 1: VIOLATION lines.  Exit 2: the analysis itself is broken (sources do
not parse, every entry point vanished, nothing decided)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "specs")]
sys.setrecursionlimit(20000)
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import signal
import time
import program
import spec

prog = None
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
LIMIT = 150 if TIER == "quick" else 700
FRAMES = False
COUNT = 60 if TIER == "quick" else 400

ACCESS = ("access", "range_write", "range_read", "alloc", "reserve", "nonempty", "nullcopy", "nullderef", "stale", "uninit", "narrow")


class Slow(Exception):
    pass


def one(i):
    def h(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(LIMIT)
    try:
        r = spec.run_ob(prog, spec.REG[i], SEED, COUNT, FRAMES)
    except TimeoutError:
        e = spec.REG[i]
        r = {"prop": e[0], "label": e[1], "res": [{"what": "analysis", "verdict": "undecided", "detail": "time limit", "where": None}],
             "events": {}, "fns": [], "wall": LIMIT}
    finally:
        signal.alarm(0)
    return i, r


def worker(inq, outq):
    while True:
        i = inq.get()
        if i is None:
            return
        outq.put(("start", i, os.getpid()))
        outq.put(("done",) + one(i))


def run_all(idx):
    """run obligations in a pool of forked workers; a worker that dies loses only its obligation"""
    ctx = mp.get_context("fork")
    n = min(8, max(1, os.cpu_count() or 1), max(1, len(idx)))
    inq, outq = ctx.Queue(), ctx.Queue()
    ps = {}
    for i in idx:
        inq.put(i)
    for _ in range(n):
        inq.put(None)

    def spawn():
        p = ctx.Process(target=worker, args=(inq, outq), daemon=True)
        p.start()
        ps[p.pid] = [p, None]
    for _ in range(n):
        spawn()
    out = {}
    import queue
    while len(out) < len(idx):
        try:
            m = outq.get(timeout=2)
        except queue.Empty:
            for pid, (p, cur) in list(ps.items()):
                if not p.is_alive():
                    del ps[pid]
                    if cur is not None and cur not in out:
                        e = spec.REG[cur]
                        out[cur] = {"prop": e[0], "label": e[1], "events": {}, "fns": [], "wall": 0,
                                    "res": [{"what": "analysis", "verdict": "undecided", "detail": "worker ended (memory)", "where": None}]}
                        inq.put(None)
                        spawn()
            if not ps:
                break
            continue
        if m[0] == "start":
            if m[2] in ps:
                ps[m[2]][1] = m[1]
        else:
            out[m[1]] = m[2]
    for pid, (p, _) in ps.items():
        if p.is_alive():
            p.join(1)
            if p.is_alive():
                p.terminate()
    return out


def known():
    out = []
    fn = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[len("finding:"):].split(" :: ")[0].split(" | ") if "=" in x)
                d = {k.strip(): v.strip() for k, v in d.items()}
                d["text"] = line.split(" :: ", 1)[1].strip() if " :: " in line else ""
                out.append(d)
    return out


def main():
    global prog, FRAMES
    pid = sys.argv[1]
    FRAMES = pid == "C09"
    t0 = time.time()
    for f in sorted(glob.glob(os.path.join(ROOT, "specs", "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    try:
        prog = program.load()
    except Exception as e:
        if pid != "C18":
            print("ANALYSIS-BROKEN: %s" % str(e)[:2000])
            return 2
        # the compile witnesses themselves still decide
        prog = None
    bounds = pid == "C11"
    if FRAMES:
        idx = [i for i, e in enumerate(spec.REG) if e[0] not in ("C07", "C08") and not e[3].get("rule")]
    else:
        idx = [i for i, e in enumerate(spec.REG)
               if e[0] == pid or (bounds and not e[3].get("rule") and not e[3].get("noevents"))]
    if TIER == "quick":
        idx = [i for i in idx if not spec.REG[i][3].get("thorough")]
    # long obligations first
    idx.sort(key=lambda i: -spec.REG[i][3].get("cost", 0))
    if not idx:
        print("ANALYSIS-BROKEN: no obligations for %s" % pid)
        return 2
    res = run_all(idx)
    kn = [k for k in known() if k.get("property") == pid]
    tally, viol, known_hit, und, miss, samples, fns, evs = {}, [], [], [], [], [], set(), {}
    nob = 0
    for i in sorted(res):
        r = res[i]
        fns.update(r["fns"])
        for k, v in (r["events"].get("checked") or {}).items():
            if bounds and k not in ACCESS:
                continue
            evs[k] = evs.get(k, 0) + v
            if bounds:
                u = r["events"].get("undecided") or {}
                open_ = min(v, u.get(k, 0) + u.get(k + " (not refuted)", 0))
                nob += v
                tally["proved"] = tally.get("proved", 0) + v - open_
                if open_:
                    tally["not refuted"] = tally.get("not refuted", 0) + open_
                    und.append("%s :: %s: %d site(s) not refuted" % (r["label"], k, open_))
                elif len(samples) < 6 and v:
                    samples.append("%s :: %d %s site(s)" % (r["label"], v, k))
        for x in r["res"]:
            ev = (x.get("detail") or {}).get("event") if isinstance(x.get("detail"), dict) else None
            if bounds and spec.REG[i][0] != pid and ev not in ACCESS:
                continue
            nob += 1
            v = x["verdict"]
            tally[v] = tally.get(v, 0) + 1
            name = "%s :: %s" % (r["label"], x["what"])
            if v == "violation":
                k = [k for k in kn if k["label"] == r["label"] and x["what"].startswith(k["what"])
                     and (not k.get("text_has") or k["text_has"] in json.dumps(x.get("detail"), default=str))]
                (known_hit if k else viol).append((name, x, r, k))
            elif v == "missing":
                miss.append(name + ": " + str(x["detail"]))
            elif v != "proved":
                und.append(name + ": " + (x["detail"] if isinstance(x["detail"], str) else v))
            elif len(samples) < 6:
                samples.append(name)
    nev = sum(evs.values())
    os.makedirs(os.path.join(ROOT, "evidence", "replays", pid), exist_ok=True)
    seen = set()
    for name, x, r, k in known_hit:
        t = k[0]["text"] or name
        if t not in seen:
            seen.add(t)
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for name, x, r, k in viol:
        h = hashlib.sha1(name.encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "evidence", "replays", pid, h + ".json")
        json.dump({"property": pid, "obligation": r["label"], "what": x["what"], "where": x.get("where"),
                   "detail": x.get("detail"), "functions": r["fns"]}, open(path, "w"), indent=1, default=str)
        d = x.get("detail") or {}
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  rule: %s" % name)
        print("  at:   %s" % (x.get("where") or "see functions in the replay file"))
        for key in ("text", "got", "spec", "witness"):
            if isinstance(d, dict) and d.get(key):
                print("  %-8s %s" % (key + ":", json.dumps(d[key], default=str)[:700]))
    dis = tally.get("proved", 0)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
          "coverage": {
              "explanation": "obligations over the resolved program of /repo, decided by abstract interpretation "
                             "(closed-form summaries compared with an independent specification) or by a structural rule; "
                             "'discharged' = normal forms equal or rule satisfied; 'agree/undecided' obligations give no verdict "
                             "and never alarm",
              "obligations": nob, "discharged": dis, "verdicts": tally,
              "groups": len(idx), "runtime_condition_sites": evs, "site_total": nev,
              "functions_analysed": sorted(fns), "samples": samples,
              "undecided": und[:60], "missing": miss[:40],
              "known_findings": [n for n, _, _, _ in known_hit],
              "library_functions_extracted": len(prog.fn) if prog else 0},
          "assumptions": ["real arithmetic for double, mathematical integers for int (no rounding/overflow)",
                          "standard library behaves as modelled in engine/stdmodel.py",
                          "clang 18 front end resolves the sources as g++ does"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations in %d groups, %d discharged, %d undecided, %d missing, %d sites, %d functions, %.1fs"
          % (pid, nob, len(idx), dis, len(und), len(miss), nev, len(fns), time.time() - t0))
    for m in miss[:10]:
        print("  missing: " + m[:200])
    if viol:
        return 1
    if dis == 0:
        print("ANALYSIS-BROKEN: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
