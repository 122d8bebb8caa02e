#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] : decide one property of the current tree by static analysis.
check.py --all : every property (development)."""
import fnmatch, importlib, json, multiprocessing, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules"), HERE]
sys.setrecursionlimit(100000)
import build as mirbuild
from absint import Engine, Program, Unsupported
import absint, paths
import registry

P = None  # the resolved program, inherited by forked workers


def unit_list(prog):
    """every entry point of every contract, split by message variant"""
    out, missing = [], []
    for crate, entry, argn, enum in registry.ENTRIES:
        fn = prog.find(crate, entry)
        if fn is None:
            missing.append("%s::%s" % (crate, entry))
            continue
        vs = [None]
        if enum:
            a = prog.adts.get("%s::%s" % (crate, enum))
            if a is None:
                missing.append("%s::%s" % (crate, enum))
                continue
            vs = [v["n"] for v in a["vs"]]
        for v in vs:
            u = paths.Unit(crate, entry, v)
            u.argnames = argn
            if fn.body["argc"] != len(argn):
                missing.append("%s::%s takes %d arguments" % (crate, entry, fn.body["argc"]))
            out.append(u)
    return out, missing


def work(job):
    """analyse one unit and run the given properties' rules on it"""
    u, props, thorough = job
    t0 = time.time()
    res = {"unit": u.name, "ctx": {}, "error": None, "props": props}
    try:
        e = Engine(P)
        e.event_ok = not set(props) & registry.EVENTS
        e.keep_refusals = bool(set(props) & registry.REFUSE)
        if thorough:
            e.heavy_at = registry.thorough_heavy(u)
        fn = P.find(u.crate, u.entry)
        ps = paths.analyse(e, u, fn)
        res["paths"] = {"ok": sum(1 for p in ps if p.ok), "err": sum(1 for p in ps if p.ok is False), "other": sum(1 for p in ps if p.ok is None)}
        res["functions"] = sorted(e.stats["functions"]) if isinstance(e.stats["functions"], set) else []
        res["calls"] = e.stats["calls"]
        res["opaque"] = e.stats["opaque"]
        res["analysis_s"] = round(time.time() - t0, 2)
        for pid in props:
            c = registry.Ctx(pid, u)
            c.prog, c.engine = P, e
            try:
                for f in registry.RULES[pid]:
                    f(c, u, ps)
            except Exception:
                c.violations["x"] = {"key": "%s|%s|not-analysable" % (pid, u.name), "what": traceback.format_exc(), "paths": 0}
            res["ctx"][pid] = {"ob": c.obligations, "counts": c.counts, "violations": list(c.violations.values())}
    except Unsupported as ex:
        res["error"] = "analysis: %s" % ex
    except Exception as ex:
        res["error"] = traceback.format_exc()
    res["s"] = round(time.time() - t0, 2)
    return res


def main():
    global P
    a = sys.argv[1:]
    thorough = "--thorough" in a
    only = [x for x in a if not x.startswith("--")]
    props = sorted(registry.RULES) + sorted(x for x in registry.GLOBAL if x not in registry.RULES) if "--all" in a else only
    props = sorted(set(props))
    if "--units" in a:
        pat = only[0]
        props = only[1:] or props
    t0 = time.time()
    tier = "thorough" if thorough else os.environ.get("VERIF_TIER", "quick")
    d, h = mirbuild.mir()
    P = Program(d)
    tb = time.time() - t0
    units, missing = unit_list(P)
    jobs = []
    for u in units:
        ps = [p for p in props if p in registry.RULES and registry.wants(p, u)]
        for ev in sorted(set(map(registry.mode, ps))):  # one analysis with the events of the responses, one without
            es = [p for p in ps if registry.mode(p) == ev]
            if es:
                jobs.append((u, es, thorough))
    jobs.sort(key=lambda j: -registry.weight(j[0]))
    results = []
    if jobs:
        with multiprocessing.Pool(min(8, max(2, os.cpu_count() or 2))) as pool:
            for r in pool.imap_unordered(work, jobs):
                results.append(r)
    bad = 0
    for pid in props:
        bad |= report(pid, tier, units, missing, results, h, tb, t0)
    return bad


def report(pid, tier, units, missing, results, h, tb, t0):
    viol, counts, ob, us, fns, calls, npaths = [], {}, 0, [], set(), 0, {"ok": 0, "err": 0, "other": 0}
    rs = [r for r in results if pid in r["ctx"] or r["error"] and pid in r["props"]]
    for r in rs:
        if r["error"]:
            if pid in registry.RULES:
                viol.append({"key": "%s|%s|not-analysable" % (pid, r["unit"]), "what": r["error"], "paths": 0})
            continue
        c = r["ctx"][pid]
        us.append({"unit": r["unit"], "paths": r["paths"], "obligations": c["ob"]})
        ob += c["ob"]
        for k, v in c["counts"].items():
            counts[k] = counts.get(k, 0) + v
        viol += c["violations"]
        fns |= set(r["functions"])
        calls += r["calls"]
        for k, v in r["paths"].items():
            npaths[k] += v
    for f in registry.GLOBAL.get(pid, ()):
        c = registry.Ctx(pid, None)
        c.prog, c.engine = P, Engine(P)
        try:
            f(c, P)
        except Exception:
            c.violations["x"] = {"key": "%s|program|not-analysable" % pid, "what": traceback.format_exc(), "paths": 0}
        ob += c.obligations
        for k, v in c.counts.items():
            counts[k] = counts.get(k, 0) + v
        viol += list(c.violations.values())
    for m in missing:
        if any(m.startswith(x) for x in registry.CRATES[pid]):
            viol.append({"key": "%s|anchor|%s" % (pid, m), "what": "entry point or message type not found: " + m, "paths": 0})
    for k, n in registry.FLOORS.get(pid, {}).items():
        if counts.get(k, 0) < n:
            viol.append({"key": "%s|floor|%s" % (pid, k), "what": "%s: %d instances found, at least %d expected" % (k, counts.get(k, 0), n), "paths": 0})
    known = registry.known(HERE, pid)
    new = [v for v in viol if v["key"] not in known]
    for v in viol:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": registry.LEVEL.get(pid, "other"),
        "coverage": {
            "explanation": registry.EXPLAIN.get(pid, "path-sensitive abstract interpretation of the compiled program's MIR; the rule is evaluated on every path of every listed entry point"),
            "program_hash": h,
            "entry_points": us, "paths": npaths, "functions_analysed": len(fns), "calls_resolved": calls,
            "obligations": ob, "instances": counts, "mir_build_s": round(tb, 1),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not new:
        rp = None
    else:
        rp = os.path.join(HERE, "evidence", pid + ".violation.json")
        json.dump({"property": pid, "violations": new}, open(rp, "w"), indent=1)
        ev["coverage"]["violation_keys"] = [v["key"] for v in new][:50]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        for v in new[:12]:
            print("  %s: %s" % (v["key"], str(v["what"])[:700]))
            for x in v.get("effects", [])[:4]:
                print("      effect: " + x[:200])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s units=%d paths=%d obligations=%d %.1fs" % (pid, len(us), sum(npaths.values()), ob, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except mirbuild.BuildError as ex:
        print("error: " + str(ex))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
