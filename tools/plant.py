#!/usr/bin/env python3
"""plant.py FILE.py: plants the bugs described by bug(...) calls in FILE.py as /verif/seeded/<id>, after confirming each in a scratch copy.
plant.py --run [id...]: applies each bug in a scratch copy and runs the check of its property."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$t/overlay.json"
timeout 120 go test -vet=off -overlay "$t/overlay.json" -count=1 -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def scratch():
    t = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", t + "/repo"])
    return t

def bug(id, prop, pkg, edits, demo, needs, breaks):
    if ONLY and id not in ONLY: return
    t = scratch()
    try:
        r = t + "/repo"
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(r + "/" + f, "w").write(s.replace(old, new))
        d = ROOT + "/" + id
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(demo.lstrip())
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        o = sh("gofmt -l " + " ".join(f for f, _, _ in edits) + "; go build ./... && go vet ./... && go test -count=1 ./... ", r)
        bad = []
        if o.returncode: bad.append("build/test: " + o.stdout[-600:])
        a = sh(d + "/demo.sh", "/repo")
        if a.returncode: bad.append("demo fails on the unchanged tree: " + a.stdout[-600:])
        b = sh(d + "/demo.sh", r)
        if not b.returncode: bad.append("demo passes with the patch")
        elif "FAIL" not in b.stdout or "build failed" in b.stdout: bad.append("demo does not run: " + b.stdout[-600:])
        if bad:
            shutil.rmtree(d)
            print(id, "REJECTED", "\n  ".join(bad)); return
        c = subprocess.run(["./run.sh", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(id, prop, "caught" if c.returncode == 1 and v else "MISSED", c.returncode, (v or c.stdout.splitlines()[-1:])[0][:150] if c.stdout else "")
    finally:
        shutil.rmtree(t)

def run(ids):
    from concurrent.futures import ThreadPoolExecutor
    def one(id):
        d = ROOT + "/" + id
        prop = json.load(open(d + "/meta.json"))["property"]
        t = scratch()
        try:
            subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=t + "/repo")
            c = subprocess.run(["./run.sh", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=t + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            return "%-22s %s %s %s" % (id, prop, "caught" if c.returncode == 1 and v else "MISSED", c.returncode)
        finally:
            shutil.rmtree(t)
    with ThreadPoolExecutor(4) as ex:
        for l in ex.map(one, ids or sorted(os.listdir(ROOT))): print(l, flush=True)

ONLY = None
if __name__ == "__main__":
    if sys.argv[1] == "--run": run(sys.argv[2:])
    else:
        ONLY = sys.argv[2:]
        exec(open(sys.argv[1]).read())
