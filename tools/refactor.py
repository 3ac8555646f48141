#!/usr/bin/env python3
"""refactor.py [-each] NAME...: applies behaviour preserving changes (tools/refactor/*.py: ref(id, [(file, old, new)...])) to a scratch copy and runs all checks,
which have to stay quiet. All changes are applied together unless -each is given."""
import json, os, shutil, subprocess, sys, tempfile, glob
REFS = []
def ref(id, *edits): REFS.append((id, edits))
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(here + "/refactor/*.py")):
    exec(open(f).read())
args = sys.argv[1:]
each = "-each" in args
props = [a[2:] for a in args if a.startswith("-p")]
args = [a for a in args if not a.startswith("-")]
refs = [r for r in REFS if not args or any(r[0].startswith(a) for a in args)]
def sh(cmd, cwd): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def go(rs):
    t = tempfile.mkdtemp(prefix="refactor", dir="/tmp")
    try:
        r = t + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", r])
        for id, edits in rs:
            for e in edits:
                f, old, new = e[0], e[-2], e[-1]
                s = open(r + "/" + f).read()
                if e[1] == "re:": # (file, "re:", pattern, replacement)
                    import re
                    t2, n = re.subn(e[2], e[3], s, flags=re.M)
                    if n < 1: print(id, "does not apply", e[2]); return
                    open(r + "/" + f, "w").write(t2)
                    continue
                a, b = 0, len(s)
                if len(e) == 4: # (file, start of the function, old, new): every occurrence in that function
                    if s.count("\n" + e[1]) != 1: print(id, "no such function", e[1]); return
                    a = s.index("\n" + e[1]); b = s.index("\n}\n", a) + 3
                n = s[a:b].count(old)
                if n < 1 or n > 1 and len(e) == 3: print(id, "does not apply", n, repr(old)); return
                open(r + "/" + f, "w").write(s[:a] + s[a:b].replace(old, new) + s[b:])
        o = sh("go build ./... && go vet ./... && go test -count=1 ./...", r)
        if o.returncode: print([x[0] for x in rs], o.stdout[-1500:]); return
        shutil.copytree("/verif", t + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.mkdir(t + "/verif/evidence")
        for p in props or ["C%02d" % i for i in range(1, 30)]:
            c = subprocess.run(["timeout", "800", "/tmp/checker", "-prop", p, "-verif", t + "/verif", "-repo", r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            und = [l for l in c.stdout.splitlines() if "UNDECIDED" in l or "not decided" in l and not l.strip().endswith(" 0")]
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "violation:" in l or l.startswith("  !")]
            if und: print([n[:300] for n in json.load(open(t + "/verif/evidence/%s.json" % p)).get("notes", [])][:4] or open(t + "/verif/evidence/%s.json" % p).read()[:1500])
            if c.returncode or und or "0 violations" not in c.stdout: print(",".join(x[0] for x in rs)[:80], p, c.returncode, "\n   ".join(und[:4]))
            if c.returncode:
                print(c.stdout[:200])
                print("\n".join(l[:400] for l in open(t + "/verif/evidence/%s.violations.txt" % p).read().splitlines()[:12]))
    finally:
        if os.environ.get('KEEP'): print('kept', t)
        else: shutil.rmtree(t)
if each:
    for x in refs: go([x])
else: go(refs)
