"""Plant bugs: python3 tools/plant.py BUGS.py [id ...]   (BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])
         or: python3 tools/plant.py --rerun [id ...]    (re-run the checks against the kept bugs)
Every bug is made in a scratch copy of /repo; a bug that builds, passes the stable tests and has a working demo is kept in seeded/<id>."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\n# run with the repository as working directory\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")


def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def check(prop, w):
    rc, out = sh(["./run.sh", prop], V, VERIF_REPO=w, VERIF_EVIDENCE=w)
    lines = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return rc, lines, out


def tests(w):
    r = os.path.join(w, "junit.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--deselect", "tests/test_di_pca.py", "--junitxml=" + r], w, PYTHONPATH=w)
    o = os.path.join(w, "o.json")
    sh(["python3", "/opt/vp/results.py", o, "junit:" + r], w)
    return STABLE - set(json.load(open(o))["passed"])


def one(b):
    w = copy()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"REJECTED old text occurs {s.count(old)} times in {f}"
            # deleted lines have to be lines of the original repository
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], w)
        orig = False
        for f in {e[0] for e in b["edits"]}:
            _, base = sh(["git", "show", f"{BASE}:{f}"], w)
            bl = set(base.splitlines())
            _, fd = sh(["git", "diff", "-U0", f], w)
            gone = [l[1:] for l in fd.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
            if not gone or not all(l in bl for l in gone):
                return b["id"], f"REJECTED changes lines that are not original in {f}: {[l for l in gone if l not in bl]}"
        sd = os.path.join(w, ".demo")
        os.makedirs(sd)
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
        open(os.path.join(sd, "demo.py"), "w").write(b["demo"])
        for f in b.get("files", ()):
            shutil.copy(os.path.join(V, f), sd)
        rc, out = sh(["bash", os.path.join(sd, "demo.sh")], "/repo", 300)
        if rc:
            return b["id"], f"REJECTED demo fails on the clean tree: {out[-600:]}"
        rc, out = sh(["bash", os.path.join(sd, "demo.sh")], w, 300)
        if rc == 0 or rc == 124:
            return b["id"], f"REJECTED demo passes with the bug ({rc})"
        if "ImportError" in out or "SyntaxError" in out or ("AssertionError" not in out and not b.get("raises")):
            return b["id"], f"REJECTED demo fails otherwise: {out[-600:]}"
        miss = tests(w)
        if miss:
            return b["id"], f"REJECTED tests fail: {sorted(miss)[:3]}"
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for f in ("demo.sh", "demo.py", *map(os.path.basename, b.get("files", ()))):
            shutil.copy(os.path.join(sd, f), os.path.join(d, f))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return b["id"], result(b["property"], w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def result(prop, w):
    if not os.path.exists(os.path.join(V, "checks", prop.lower() + ".py")):
        return "no check yet"
    rc, lines, out = check(prop, w)
    own = [l for l in lines if f"property={prop} " in l]
    if rc == 1 and own:
        return "caught by " + prop
    return f"MISSED (exit {rc}) {out[-300:] if rc != 0 else ''}"


def rerun(i):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    w = copy()
    try:
        rc, out = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], w)
        if rc:
            return i, "patch does not apply"
        return i, result(m["property"], w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--rerun":
        ids = a[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
        fn, todo = rerun, ids
    else:
        B = runpy.run_path(a[0])["BUGS"]
        fn, todo = one, [b for b in B if len(a) == 1 or b["id"] in a[1:]]
    rf = os.path.join(V, "tools", "seeded_results.json")
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(fn, todo):
            print(i, r, flush=True)
            if not r.startswith("REJECTED"):
                res = json.load(open(rf)) if os.path.exists(rf) else {}
                res[i] = r.split("\n")[0][:120]
                json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
