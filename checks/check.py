"""Runs one rule set over /repo's current sources and reports.  usage: check.py PROPERTY"""
import importlib, json, multiprocessing as mp, os, sys, time, traceback, signal

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
T0 = time.time()
LIMIT = float(os.environ.get("SA_LIMIT", "800"))


def run(a):
    name, task, root, exts = a
    t = time.time()
    sys.setrecursionlimit(20000)
    from sa.prep import Broken
    M = importlib.import_module("sa.rules." + name)
    try:
        r = M.work(task, root, exts)
        return task, r, None, time.time() - t
    except Broken as e:
        return task, [], "cannot analyse: %s" % e, time.time() - t
    except Exception:
        return task, [], "analysis error: " + traceback.format_exc()[-1500:], time.time() - t


def known(prop):
    """keys of the findings recorded for the property"""
    r = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                k, _, d = l.split(" ", 2)[2].partition(" :: ")
                r[k.strip()] = d.strip()
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    M = importlib.import_module("sa.rules." + prop.lower())
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf, rpf = os.path.join(ev, prop + ".json"), os.path.join(ev, prop + ".violation.json")
    for f in (evf, rpf):
        if os.path.exists(f):
            os.unlink(f)
    os.environ["SA_TIER"] = tier
    from sa import gens
    root, exts = gens.sessions()
    tasks = M.tasks(root, exts)
    obs, und, times = [], [], {}
    pool = mp.Pool(min(8, max(1, len(tasks))), maxtasksperchild=1)
    pend = [(t, pool.apply_async(run, ((prop.lower(), t, root, exts),))) for t in tasks]
    for t, r in pend:
        left = LIMIT - (time.time() - T0)
        try:
            task, res, err, dt = r.get(max(left, 0.01))
            times[M.name(task)] = round(dt, 1)
            obs += res
            if err:
                und.append((M.name(task), err))
        except mp.TimeoutError:
            und.append((M.name(t), "time limit"))
    pool.terminate()
    pool.join()
    obs += M.finish(obs) if hasattr(M, "finish") else []
    kn = known(prop)
    bad = [o for o in obs if o["ok"] is False]
    good = [o for o in obs if o["ok"] is True]
    unk = [o for o in obs if o["ok"] is None]
    listed = [o for o in bad if o["key"] in kn]
    new = [o for o in bad if o["key"] not in kn]
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o["key"], kn[o["key"]]))
    for n, e in und:
        print("undecided: %s: %s" % (n, e.strip()[-600:]))
    for o in unk:
        print("undecided: %s: %s: %s" % (o["inst"], o["rule"], o["detail"][:300]))
    samples = [dict(rule=o["rule"], instance=o["inst"], facts=o["n"], verdict="holds") for o in good[:: max(1, len(good) // 12)][:12]]
    cov = {
        "explanation": M.EXPLAIN,
        "analysed": {"units": len(tasks), "units_undecided": len(und), "instances": len(obs)},
        "obligations": len(obs), "discharged": len(good), "undecided": len(unk), "violated": len(bad), "facts": sum(o["n"] for o in obs),
        "rules": sorted(set(o["rule"] for o in obs)), "samples": samples, "unit_seconds": times,
        "undecided_list": [{"unit": n, "why": e[-300:]} for n, e in und] + [{"unit": o["inst"], "why": o["detail"][:300]} for o in unk],
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": getattr(M, "ASSUME", []),
               "wall_s": round(time.time() - T0, 1), "violations": len(new)}, open(evf, "w"), indent=1)
    if new:
        json.dump([dict(o) for o in new], open(rpf, "w"), indent=1)
        for o in new[:20]:
            print("%s%s: %s: %s" % (o["where"] + ": " if o["where"] else "", o["rule"], o["inst"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rpf, ROOT)))
        return 1
    if len(good) < M.FLOOR:
        print("analysis broken: only %d of at least %d expected obligations could be decided" % (len(good), M.FLOOR))
        return 2
    print("%s: %d obligations hold (%d facts, %d units), %d undecided, %.0f s" % (prop, len(good), cov["facts"], len(tasks), len(unk) + len(und), time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
