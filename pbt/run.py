"""Runner: python run.py Cxx [--tier T] [--replay FILE] [--law NAME]"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("FF_REPO", "/repo")

sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
# Hypothesis lives in the tooling venv; everything else comes from ours
for extra in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",
              "/opt/venv/lib/python3.12/site-packages"):
    if extra not in sys.path and os.path.isdir(extra):
        sys.path.append(extra)

from core import HarnessError, execute, search  # noqa: E402

BUDGET = {"quick": 240.0, "thorough": 3600.0}
HARD = {"quick": 480.0, "thorough": 5400.0}


def load(prop):
    import ff

    src = os.path.realpath(os.path.join(REPO, "src"))
    if not os.path.realpath(ff.__file__).startswith(src + os.sep):
        raise HarnessError("ff comes from " + ff.__file__)
    mod = importlib.import_module("laws_" + prop.lower())
    return mod.R


def child(prop, law, tier, seed, shard, out, cur):
    """One worker process: searches one shard of one law."""
    try:
        import resource

        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        R = load(prop)
        law = next(l for l in R.laws if l.name == law)

        def current(case):
            with open(cur, "w") as f:
                json.dump(case, f)

        res = search(prop, law, tier, seed, shard, BUDGET[tier], current)
    except BaseException:  # noqa: B902
        res = {"law": law if isinstance(law, str) else law.name,
               "shard": shard, "error": traceback.format_exc()[-3000:],
               "evaluations": 0, "nontrivial": [], "samples": [],
               "labels": {}, "stopped_early": False, "seconds": 0,
               "failure": None}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


FAST = bool(os.environ.get("PBT_FAST"))  # stop at the first failure


def run_jobs(jobs, tier, seed, prop, scratch):
    """Run the (law, shard) jobs on all cores; returns their results."""
    ctx = mp.get_context("fork")
    ncpu = int(os.environ.get("PBT_CPUS") or min(8, os.cpu_count() or 1))
    todo = list(enumerate(jobs))
    live, results = {}, []
    while todo or live:
        if FAST and any(r["failure"] for r in results):
            for v in live.values():
                v[0].kill()
            break
        while todo and len(live) < ncpu:
            i, (law, shard) = todo.pop(0)
            out = os.path.join(scratch, "r%d.json" % i)
            cur = os.path.join(scratch, "c%d.json" % i)
            p = ctx.Process(target=child,
                            args=(prop, law.name, tier, seed, shard, out, cur))
            p.start()
            live[i] = (p, time.time(), law, shard, out, cur)
        time.sleep(0.02)
        for i in list(live):
            p, t0, law, shard, out, cur = live[i]
            hung = p.is_alive() and time.time() - t0 > HARD[tier]
            if hung:
                p.kill()
                p.join()
            elif p.is_alive():
                continue
            del live[i]
            p.join()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
                continue
            case = None
            if os.path.exists(cur):
                try:
                    with open(cur) as f:
                        case = json.load(f)
                except ValueError:
                    pass
            r = {"law": law.name, "shard": shard, "evaluations": 0,
                 "nontrivial": [], "samples": [], "labels": {},
                 "stopped_early": hung, "seconds": time.time() - t0,
                 "error": None, "failure": None}
            if p.exitcode is not None and -p.exitcode in (6, 7, 8, 11) and case:
                r["failure"] = {"case": case, "kind": "crash", "history": [],
                                "message": "process died, signal %d"
                                % -p.exitcode}
            else:
                r["error"] = "worker ended without a result (exit %s)%s" % (
                    p.exitcode, ", out of time" if hung else "")
            results.append(r)
    return results


def reproduces(prop, lawname, cases):
    """Does replaying these cases in a fresh process end in a failure?"""
    def go(q):
        R = load(prop)
        law = next(l for l in R.laws if l.name == lawname)
        bad = None
        for c in cases:
            bad = execute(law, c, {})
            if bad:
                break
        q.put(bad)

    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=go, args=(q,))
    p.start()
    try:
        bad = q.get(timeout=300)
    except Exception:
        bad = ("crash", "replay gave no answer")
    p.join(5)
    if p.is_alive():
        p.kill()
    return bad


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    bad = reproduces(prop, data["law"], data["cases"])
    if bad:
        print("%s: law %s fails: %s" % (prop, data["law"], bad[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: law %s holds on the replayed cases" % (prop, data["law"]))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in BUDGET else "quick"
    if a.replay:
        return replay(prop, a.replay)

    t0 = time.time()
    scratch = os.environ["PBT_SCRATCH"]
    R = load(prop)
    laws = [l for l in R.laws if not a.law or l.name == a.law]
    scale = 2 if tier == "quick" else 8
    for l in laws:
        if l.known is None:
            l.shards = l.shards * scale if l.thorough >= 100 else l.shards
    jobs = [(l, s) for l in laws for s in range(l.shards)]
    # the sharded (expensive) laws first
    jobs.sort(key=lambda j: -j[0].shards)
    results = run_jobs(jobs, tier, a.seed, prop, scratch)

    errors = [r for r in results if r["error"]]
    known = {k["law"]: k for k in known_findings(prop)}
    violations, found_known = [], []
    edir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen_laws = set()
    for r in sorted(results, key=lambda r: (r["law"], r["shard"])):
        f = r["failure"]
        if not f or r["law"] in seen_laws:
            continue
        law = next(l for l in R.laws if l.name == r["law"])
        if law.known is not None and law.name in known and (
                known[law.name]["failure"] in f["message"]):
            found_known.append(known[law.name])
            continue
        seen_laws.add(r["law"])
        cases = [f["case"]]
        if f["kind"] not in ("timeout", "crash"):
            if not reproduces(prop, r["law"], cases):
                # only fails after the cases before it: replay the history
                cases = f["history"] or cases
        path = os.path.join(rdir, "%s-%s.json" % (prop, r["law"]))
        with open(path, "w") as g:
            json.dump({"property": prop, "law": r["law"], "cases": cases,
                       "message": f["message"], "seed": a.seed}, g, indent=1)
        violations.append({"law": r["law"], "replay": path,
                           "message": f["message"]})

    per, samples, labels, total, nt = {}, [], {}, 0, 0
    for l in laws:
        rs = [r for r in results if r["law"] == l.name]
        hashes = set()
        for r in rs:
            hashes.update(r["nontrivial"])
            for k, v in r["labels"].items():
                d = labels.setdefault(l.name, {})
                d[k] = d.get(k, 0) + v
        n = sum(r["evaluations"] for r in rs)
        total += n
        nt += len(hashes)
        per[l.name] = {"evaluations": n, "distinct_nontrivial": len(hashes),
                       "rule": l.rule, "seconds": round(sum(
                           r["seconds"] for r in rs), 1),
                       "stopped_early": any(r["stopped_early"] for r in rs)}
        for r in rs:
            for s in r["samples"][:1]:
                if len(samples) < 40:
                    samples.append({"law": l.name, "case": s})
                break
            if rs and rs[0]["samples"]:
                break
    ev = {"property": prop, "tier": tier, "seed": a.seed,
          "level": "exploration",
          "coverage": {
              "evaluations": total, "distinct_nontrivial": nt,
              "rule": "cases are drawn by the seeded Hypothesis strategy of "
                      "each law; a case is non-trivial by its law's rule (see "
                      "laws.*.rule), counted once per distinct case",
              "samples": samples, "laws": per, "labels": labels},
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations),
          "assumptions": ["numpy/scipy/networkx linear algebra and graph "
                          "primitives used by the oracles are correct"]}
    if not a.law:
        with open(os.path.join(edir, prop + ".json"), "w") as g:
            json.dump(ev, g, indent=1)
    print("%s: %d cases (%d distinct non-trivial), %d laws, %.1f s"
          % (prop, total, nt, len(laws), time.time() - t0))
    for k in found_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in violations:
        print("law %s: %s" % (v["law"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if violations:
        return 1
    if errors:
        for r in errors:
            print("ERROR in law %s:\n%s" % (r["law"], r["error"]),
                  file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:  # noqa: B902
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code) if code == 2 else sys.exit(code)
