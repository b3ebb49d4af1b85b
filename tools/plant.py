"""Try planted bugs: python3 tools/plant.py SPEC.py [ID ...] [-j N] [--keep]

SPEC.py defines PLANTS, a list of dicts with id, property, needs, breaks, edits [(file, old, new)] and demo (python text).
Each is applied to a scratch copy of /repo; the demonstration, the stable tests and the property's quick check are run on
it.  A change that passes the tests and whose demonstration tells it from the clean tree is written to seeded/<id>/
whether or not the check catches it.  Results are appended to /tmp/pl/results.jsonl."""
import argparse, json, os, runpy, shutil, subprocess, sys, time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "f0bf3d7"
WORK = "/tmp/pl"


def env(copy=None):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    if copy:
        e["PYTHONPATH"] = copy + "/src"
        e["FF_REPO"] = copy
    return e


def run(cmd, cwd, e, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable_failures(copy, tmp):
    xml = tmp + "/report.xml"
    run([PY, "-m", "pytest", "tests", "-m", "", "-q", "-p", "no:cacheprovider", "--timeout=60",
         "-o", "junit_family=xunit2", "--junitxml=" + xml], copy, env(copy), 1200)
    good = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if c.find("skipped") is None and c.find("failure") is None and c.find("error") is None:
            good.add(c.get("classname") + "::" + c.get("name"))
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - good)


def plant(p, keep=False, tests=True):
    pid = p["id"]
    tmp = f"{WORK}/{pid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    copy = tmp + "/repo"
    res = dict(id=pid, property=p["property"])
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in p["edits"]:
            path = f"{copy}/src/ff/{f}.py"
            src = open(path).read()
            if src.count(old) != 1:
                res["error"] = f"edit matches {src.count(old)} times: {old[:60]!r}"
                return res
            open(path, "w").write(src.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        # removed lines must be lines of the original repository
        removed = subprocess.run(["git", "diff", "-U0"], cwd=copy, capture_output=True, text=True).stdout
        import re
        cur, n_removed = None, 0
        for l in removed.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and int(m[2] or 1):
                a, n = int(m[1]), int(m[2] or 1)
                n_removed += n
                b = subprocess.run(["git", "blame", "-s", "-L", f"{a},{a+n-1}", "HEAD", "--", cur], cwd=copy,
                                   capture_output=True, text=True).stdout
                bad = [x for x in b.splitlines() if BASE not in x[:9]]
                if bad:
                    res["error"] = f"changes lines of a fix: {bad}"
                    return res
        if not n_removed:
            res["error"] = "removes no original line"
            return res
        os.makedirs(tmp + "/s")
        open(tmp + "/s/patch.diff", "w").write(diff)
        open(tmp + "/s/demo.py", "w").write(p["demo"].lstrip("\n"))
        open(tmp + "/s/demo.sh", "w").write(
            "#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n"
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]),
                  open(tmp + "/s/meta.json", "w"), indent=1)
        rc0, out0 = run(["bash", tmp + "/s/demo.sh"], "/repo", env(), 300)
        rc1, out1 = run(["bash", tmp + "/s/demo.sh"], copy, env(copy), 300)
        res.update(demo_clean=rc0, demo_patched=rc1)
        if rc0 or not rc1:
            res["error"] = "demo does not tell: " + (out0 if rc0 else out1)[-600:]
            return res
        res["demo_says"] = out1.strip().splitlines()[-1][:200] if out1.strip() else ""
        t = time.time()
        rc, out = run(["./check", p["property"], "--tier", "quick"], ROOT, env(copy), 900)
        res.update(check=rc, check_s=round(time.time() - t), says=[l for l in out.splitlines() if l.startswith("VIOLATION")] or out[-300:])
        if tests:
            bad = stable_failures(copy, tmp)
            res["tests_broken"] = bad
            if bad:
                res["error"] = f"breaks {len(bad)} tests"
                return res
        dest = f"{ROOT}/seeded/{pid}"
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(tmp + "/s", dest)
        os.chmod(dest + "/demo.sh", 0o755)
        res["kept"] = True
        return res
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-tests", action="store_true")
    a = ap.parse_args()
    plants = runpy.run_path(a.spec)["PLANTS"]
    if a.ids:
        plants = [p for p in plants if p["id"] in a.ids]
    os.makedirs(WORK, exist_ok=True)
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda p: plant(p, a.keep, not a.no_tests), plants):
            print(json.dumps(r), flush=True)
            open(WORK + "/results.jsonl", "a").write(json.dumps(r) + "\n")


main()
