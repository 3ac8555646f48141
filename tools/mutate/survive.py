#!/usr/bin/env python3
"""survive.py MUTANTS OUT [JOBS] [LIMIT]: the mutants (in a fixed random order) that build and pass the tests of /repo."""
import json, os, random, shutil, subprocess, sys, threading
muts = [json.loads(l) for l in open(sys.argv[1])]
out, jobs = sys.argv[2], int(sys.argv[3])
limit = int(sys.argv[4]) if len(sys.argv) > 4 else len(muts)
random.Random(7).shuffle(muts)
muts = muts[:limit]
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)['n'])
lock = threading.Lock()
it = iter([(i, m) for i, m in enumerate(muts) if i not in done])
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
f = open(out, 'a')
def work(w):
    d = '/tmp/mut/w%d' % w
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    while True:
        with lock:
            try: i, m = next(it)
            except StopIteration: return
        p = os.path.join(d, m['File'])
        src = open(os.path.join('/repo', m['File']), 'rb').read()
        open(p, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        try:
            r = subprocess.run('go build ./... && go test -vet=off -timeout 20s ./...', shell=True, cwd=d, env=ENV,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90).returncode
        except subprocess.TimeoutExpired:
            r = 99
        open(p, 'wb').write(src)
        with lock:
            m['n'] = i; m['survives'] = r == 0
            f.write(json.dumps(m) + '\n'); f.flush()
ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
