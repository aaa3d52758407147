"""Plants a bug: plant(id, property, edits, demo, needs, breaks) writes seeded/<id>/ after confirming everything in /repo's tree
(patch applied and undone again).  Run by hand; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
REPO = os.environ.get("PLANT_REPO", "/repo")
OUT = os.environ.get("PLANT_OUT", "/verif/seeded")
TEST = os.environ.get("PLANT_TEST", "/opt/vp/test.sh")
DEMO = '''#!/bin/sh
# run with cwd /repo (or a copy of it)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 MPLBACKEND=Agg
unset FLEE_TYPE_CHECK
w=$(mktemp -d) || exit 9
trap 'rm -rf "$w"' EXIT
cd "$w" && REPO="$PYTHONPATH" %s /opt/venv/bin/python "$here/demo.py"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, edits, demo, needs, breaks, mpi=0):
    assert not sh("git -C " + REPO + " status --short").stdout.strip()
    d = OUT + "/" + id
    tmp = tempfile.mkdtemp()
    try:
        base = sh("git -C " + REPO + " rev-list --max-parents=0 HEAD").stdout.strip()
        orig = False
        for path, prs in edits.items():
            f = os.path.join(REPO, path); s = open(f).read()
            for p in prs:
                n = p[2] if len(p) > 2 else 1
                if s.count(p[0]) != n: print(id, "EDIT MISMATCH", s.count(p[0]), p[0]); return False
                for line in range(s[:s.index(p[0])].count("\n") + 1, s[:s.index(p[0])].count("\n") + p[0].rstrip("\n").count("\n") + 2):
                    bl = sh("git -C " + REPO + " blame -l -L %d,%d HEAD -- %s" % (line, line, path)).stdout.lstrip("^")
                    orig = orig or bl[:30] == base[:30]
                s = s.replace(p[0], p[1])
            open(f, "w").write(s)
        if not orig: print(id, "NOT ORIGINAL LINES")
        patch = sh("git -C " + REPO + " diff").stdout
        sh("git -C " + REPO + " checkout -- .")
        open(tmp + "/patch.diff", "w").write(patch)
        open(tmp + "/demo.py", "w").write(demo)
        open(tmp + "/demo.sh", "w").write(DEMO % (("OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none timeout 200 mpirun --oversubscribe -np %d" % mpi) if mpi else "OMPI_MCA_btl=self timeout 200"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if a.returncode: print(id, "DEMO FAILS ON CLEAN", a.returncode, a.stdout[-500:], a.stderr[-1500:]); return False
        r = sh("git -C " + REPO + " apply %s/patch.diff" % tmp)
        if r.returncode: print(id, "patch", r.stderr); return False
        b = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if b.returncode == 0: print(id, "DEMO PASSES WITH BUG"); return False
        t = sh("bash %s %s/t.json" % (TEST, tmp))
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(tmp + "/t.json"))
        sh("git -C " + REPO + " checkout -- .")
        stable = set(base.get("stable") or base.get("passed")); bad = stable - set(got.get("passed", []))
        if bad: print(id, "TESTS", sorted(bad)[:5]); return False
        os.remove(tmp + "/t.json")
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        print(id, "planted; demo:", (b.stdout + b.stderr).strip().splitlines()[-1:])
        return True
    finally:
        sh("git -C " + REPO + " checkout -- .")
        shutil.rmtree(tmp)
