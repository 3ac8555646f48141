#!/usr/bin/env python3
"""check.py SURVIVORS OUT JOBS: for each mutant that survives the tests, the first check that reports it."""
import json, os, re, shutil, subprocess, sys, threading, time
src_file, out, jobs = sys.argv[1], sys.argv[2], int(sys.argv[3])
CHECKER = os.environ.get('CHECKER', '/tmp/checker')
ORDER = {
 'parser/lexer.go': 'C16 C20 C19 C22',
 'parser/parser.go': 'C20 C19 C17 C21 C18 C22',
 'parser/expression.go': 'C01 C02 C03 C04 C05 C29 C10 C08 C09 C11',
 'parser/reader.go': 'C28 C29 C24 C16 C20',
 'parser/issues.go': 'C07 C20 C24',
 'parser/workflow.go': 'C01 C02 C03 C04 C21 C22 C17 C20',
 'parser/factory.go': 'C02 C01 C03 C10 C08 C09 C17',
 'parser/label.go': 'C05 C02 C11 C12 C20',
 'validator/': 'C11 C07 C14 C09 C12 C13 C05 C15',
 'literal/': 'C23 C13', 'pn/': 'C04 C03 C07 C15', 'parse/': 'C15 C07', 'json/': 'C15',
}
FUNCS = {'Heredoc': 'C26 C19 C20', 'EPP': 'C28 C19', 'interpolate': 'C27 C19 C20', 'String': 'C27 C19 C20 C22', 'Escape': 'C27 C26', 'append': 'C27 C26',
 'Float': 'C24 C20', 'Int': 'C24 C20', 'Digit': 'C24 C16', 'Number': 'C24 C20', 'NamedAccess': 'C19 C27', 'isRegexp': 'C16', 'skipWhite': 'C16 C20 C28'}
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)['n'])
lock = threading.Lock(); f = open(out, 'a'); taken = set(done)
def nxt():
    with lock:
        for l in open(src_file):
            try: m = json.loads(l)
            except ValueError: continue
            if m['survives'] and m['n'] not in taken and not (m['File'].endswith('issues.go') and 'swap' in m['Kind']):
                taken.add(m['n']); return m
def work(w):
    d, v = '/tmp/mut/c%d' % w, '/tmp/mut/v%d' % w
    shutil.rmtree(d, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', d], check=True)
    os.makedirs(v + '/evidence', exist_ok=True); shutil.copy('/verif/known_findings.txt', v)
    idle = 0
    while True:
        m = nxt()
        if m is None:
            idle += 1
            if idle > 40: return
            time.sleep(15); continue
        idle = 0
        p = os.path.join(d, m['File']); src = open(os.path.join('/repo', m['File']), 'rb').read()
        open(p, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        name = m['File'][2:]
        order = next(ORDER[k] for k in ORDER if name == k or (k.endswith('/') and name.startswith(k)))
        order = order.split()
        if name == 'parser/lexer.go':
            for k in FUNCS:
                if k in m['Func']: order = FUNCS[k].split(); break
        if name == 'parser/parser.go' and ('swap arg' in m['Kind'] or 'operator -' in m['Kind'] or 'number' in m['Kind']):
            order = ['C19'] + [c for c in order if c != 'C19']
        m['caught'] = ''; m['slow'] = []
        t0 = time.time()
        for c in order:
            try:
                r = subprocess.run([CHECKER, '-prop', c, '-repo', d, '-verif', v], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired:
                m['slow'].append(c); continue
            if r.returncode == 1 and b'VIOLATION property=' + c.encode() in r.stdout:
                m['caught'] = c; break
            if r.returncode not in (0, 1): m['slow'].append(c + ' exit %d' % r.returncode)
        m['secs'] = int(time.time() - t0)
        open(p, 'wb').write(src)
        with lock: f.write(json.dumps(m) + '\n'); f.flush()
ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
