#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: run.py PROPERTY [--tier quick|thorough]

Exports the type-checked program (monomorphic MIR of the harness' instantiation of the public API) from /repo's working tree,
runs the abstract interpreter on every entry point the property quantifies over, and evaluates the property's rules on every
final abstract state. Exit 0: no violation; exit 1 and a VIOLATION line: a rule is contradicted by a feasible path."""
import sys, os, json, time, subprocess, shutil, collections, tempfile, traceback, multiprocessing as mp

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "rules")]
REPO = os.environ.get("VERIF_REPO", "/repo")


def export(what=None):
    b = os.path.join(V, "build")
    os.makedirs(b, exist_ok=True)
    out = os.path.join(b, "h-%d.json" % os.getpid())
    tgt = os.path.join(b, "target-%d" % os.getpid()) if os.environ.get("VERIF_ISOLATE") else os.path.join(b, "target")
    err = ""
    for attempt in (0, 1):
        if attempt:
            tgt = os.path.join(b, "target-%d" % os.getpid())
        r = subprocess.run(["bash", os.path.join(V, "tools/export.sh"), out, tgt] + ([what] if what else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        err = r.stdout[-3000:]
        if r.returncode == 0:
            break
    if attempt or os.environ.get("VERIF_ISOLATE"):
        shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0:
        return None, err
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    return d, err


P = None
CACHE = {}


def work(t):
    t0 = time.time()
    import tasks as T
    try:
        r = T.run(P, t)
    except BaseException as x:
        r = dict(states=0, cases=0, widened=0, viol=[], undec=[(str(t[1]), "*", "internal: %r %s" % (x, traceback.format_exc()[-1500:]))], extra={})
    r["task"] = t
    r["t"] = time.time() - t0
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    import props
    all_tasks = props.tasks(tier)
    if prop not in all_tasks:
        print("unknown property", prop)
        return 2
    viol = []
    results = []
    d, err = export(props.EXPORT.get(prop))
    counts = {}
    if d is None:
        viol.append(dict(key="export", where="harness", msg="the public API this property quantifies over no longer type-checks with /repo's source", detail=err))
    else:
        import prog, tasks
        global P
        P = prog.Prog(d)
        ts = all_tasks[prop]
        tasks.configure(tier)
        missing = [t for t in ts if not tasks.present(P, t)]
        for t in missing:
            viol.append(dict(key="missing:%s" % (t[1],), where=str(t[1]), msg="entry point is missing from the analysed program"))
        ts = [t for t in ts if t not in missing]
        ts = sorted(ts, key=lambda t: -tasks.cost(t))
        counts["functions_in_program"] = len(P.fns)
        limit = 780 if tier == "quick" else 3300
        tmp = tempfile.TemporaryDirectory()
        tasks.CLAIMS = tmp.name
        with tmp, mp.get_context("fork").Pool(min(8, max(1, len(ts))), maxtasksperchild=1) as pool:
            pend = [(t, pool.apply_async(work, (t,))) for t in ts]
            for t, a in pend:
                left = limit - (time.time() - t0)
                try:
                    results.append(a.get(max(1, left)))
                except mp.TimeoutError:
                    results.append(dict(states=0, cases=0, widened=0, viol=[], undec=[(str(t[1]), "*", "time budget")], extra={}, task=t, t=left))
            pool.terminate()
    known = load_known(prop)
    seen = set()
    new = []
    for r in results:
        for v in r["viol"]:
            viol.append(v)
    for v in viol:
        k = v["key"]
        if k in seen:
            continue
        seen.add(k)
        if any(kf in k for kf in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
            continue
        new.append(v)
    rp = os.path.join(ev, "replay")
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, "%s.json" % prop)
    if new:
        with open(path, "w") as f:
            json.dump(new, f, indent=1, default=repr)
        for v in new[:12]:
            print("%s: %s" % (v.get("where"), v["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif os.path.exists(path):
        os.remove(path)
    write_evidence(prop, tier, seed, results, viol, new, counts, time.time() - t0, ev)
    return 1 if new else 0


def load_known(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s key=" % prop):
                out.append(l.split("key=", 1)[1].split(" :: ")[0])
    return out


def write_evidence(prop, tier, seed, results, viol, new, counts, wall, ev):
    import props
    und = [(r["task"][1], u) for r in results for u in r["undec"]]
    c = collections.Counter("%s [%s] %s" % (n, u[1], u[2][:160]) for n, u in und)
    reached = set()
    extra = {}
    for r in results:
        for k, v in r.get("extra", {}).items():
            if isinstance(v, (set, frozenset)):
                extra.setdefault(k, set()).update(v)
            elif isinstance(v, int):
                extra[k] = extra.get(k, 0) + v
            elif isinstance(v, list):
                extra.setdefault(k, []).extend(v)
    cov = dict(explanation=props.EXPLAIN.get(prop, props.EXPLAIN["*"]),
               tasks=len(results),
               abstract_final_states=sum(r["states"] for r in results),
               cases_decided=sum(r["cases"] for r in results),
               states_from_widened_loops=sum(r["widened"] for r in results),
               undecided_cases=len(und),
               undecided=[{"case": k, "count": n} for k, n in c.most_common(20)],
               violations=[v["key"] for v in viol][:50],
               per_task=[dict(task="%s:%s" % (r["task"][0], r["task"][1]), aspects=list(r["task"][2]) if len(r["task"]) > 2 else [], states=r["states"],
                              cases=r["cases"], undecided=len(r["undec"]), seconds=round(r["t"], 2)) for r in results])
    cov.update(counts)
    for k, v in extra.items():
        if isinstance(v, set):
            v = sorted(v)
            cov[k + "_count"] = len(v)
            cov[k] = v[:400]
        else:
            cov[k] = v
    with open(os.path.join(ev, "%s.json" % prop), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 2)), f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
