#!/usr/bin/env python3
"""survivors.py OUT [WORKERS]: which mutants of /repo pass the existing tests (development tool)."""
import os, subprocess, sys, json, shutil, threading, queue
out, workers = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 8
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOTOOLCHAIN='local')
lines = subprocess.run(['/tmp/mutate', 'list', '/repo'], capture_output=True, text=True).stdout.splitlines()
q = queue.Queue()
done = set()
if os.path.exists(out):
    done = {json.loads(l)['n'] for l in open(out)}
for l in lines:
    n, rest = l.split(' ', 1)
    if int(n) not in done: q.put((int(n), rest))
f = open(out, 'a'); lock = threading.Lock()
def work(w):
    d = f'/tmp/mutwork/{w}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    while True:
        try: n, rest = q.get_nowait()
        except queue.Empty: break
        subprocess.run('git checkout -q -- .', shell=True, cwd=d)
        r = subprocess.run(['/tmp/mutate', 'apply', d, str(n)], capture_output=True, text=True)
        res = 'ok'
        if r.returncode: res = 'noapply'
        elif subprocess.run('git diff --quiet', shell=True, cwd=d).returncode == 0: res = 'same'
        elif subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True).returncode: res = 'nobuild'
        elif subprocess.run(['go', 'test', '-vet=off', '-count=1', '-timeout', '30s', './...'], cwd=d, env=ENV, capture_output=True).returncode: res = 'killed'
        else: res = 'survives'
        with lock:
            f.write(json.dumps({'n': n, 'what': rest, 'result': res}) + '\n'); f.flush()
    shutil.rmtree(d, ignore_errors=True)
os.makedirs('/tmp/mutwork', exist_ok=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
