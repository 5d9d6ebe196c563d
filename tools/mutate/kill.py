#!/usr/bin/env python3
"""kill.py MUT.jsonl OUT.jsonl: which checks report the surviving mutants (development tool)."""
import json, os, subprocess, sys, shutil
src, out = sys.argv[1], sys.argv[2]
ORDER = 'C25 C06 C12 C03 C13 C05 C02 C01 C26 C04 C10 C14 C20 C16 C24 C17 C18 C19 C21 C22 C23 C15 C08 C07'.split()
FIRST = {'builder/builder.go': 'C19 C26 C25 C05', 'parser': 'C12', 'lexer': 'C13 C12', 'token': 'C13 C12', 'format': 'C17 C04', 'stmt/set': 'C25 C09 C21',
         'stmt/where': 'C07 C06', 'stmt/having': 'C07 C06', 'stmt/infix': 'C06 C22 C25', 'stmt/on': 'C06 C25 C12', 'stmt/subquery': 'C14 C25', 'stmt/comment': 'C20', 'stmt/conflict': 'C21',
         'builder/select': 'C08 C26 C25 C12', 'builder/insert': 'C08 C21 C16', 'builder/update': 'C08 C25', 'builder/delete': 'C08 C25', 'stmt/expression': 'C22 C23 C16 C25', 'types': 'C15 C02'}
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOTOOLCHAIN='local', VERIF_BUDGET_S=os.environ.get('MUT_BUDGET', '60'))
done = {json.loads(l)['n'] for l in open(out)} if os.path.exists(out) else set()
ms = [json.loads(l) for l in open(src)]
ms = [m for m in ms if m['result'] == 'survives' and m['n'] not in done]
if len(sys.argv) > 3: ms = [m for m in ms if m['n'] in {int(a) for a in sys.argv[3].split(',')}]
d = os.environ.get('MUT_DIR', '/tmp/mutkill'); verif = os.environ.get('MUT_VERIF', '/verif')
shutil.rmtree(d, ignore_errors=True); subprocess.run(['cp', '-a', os.environ.get('MUT_REPO', '/repo'), d], check=True)
f = open(out, 'a')
for m in ms:
    subprocess.run('git checkout -q -- .', shell=True, cwd=d)
    subprocess.run(['/tmp/mutate', 'apply', d, str(m['n'])])
    s = d + '-build'; shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
    open(s + '/go.mod', 'w').write(open(verif + '/mc/go.mod').read().replace('=> /repo', '=> ' + d))
    shutil.copy(verif + '/mc/go.sum', s + '/go.sum')
    r = subprocess.run(['go', 'build', '-modfile', s + '/go.mod', '-o', s + '/mc', '.'], cwd=verif + '/mc', env=ENV, capture_output=True, text=True)
    res, line = None, ''
    if r.returncode: res = 'nobuild ' + r.stderr[-300:]
    else:
        first = [c for k, v in FIRST.items() if m['what'].startswith(k) for c in v.split() if c != 'C09']
        for c in first + [c for c in os.environ.get('MUT_ORDER', ' '.join(ORDER)).split() if c not in first]:
            r = subprocess.run([s + '/mc', 'check', '-verif', s, '-property', c, '-tier', 'quick'], env=dict(ENV, MC_KNOWN=verif + '/known_findings.txt'), capture_output=True, text=True)
            if r.returncode == 1:
                res = c; line = r.stdout[:300]; break
            if r.returncode: res = f'{c} rc={r.returncode}'; line = (r.stdout + r.stderr)[-300:]; break
    if res is None:
        for c in os.environ.get('MUT_HOOKED', 'C09 C11').split():
            r = subprocess.run(['bash', verif + '/run.sh', 'check', '-property', c, '-tier', 'quick'], env=dict(ENV, MC_REPO=d, MC_OUT=s), capture_output=True, text=True)
            if r.returncode == 1: res = c; break
    diff = '' if res else subprocess.run('git diff -U2', shell=True, cwd=d, capture_output=True, text=True).stdout
    f.write(json.dumps({'n': m['n'], 'what': m['what'], 'killed': res, 'line': line, 'diff': diff}) + '\n'); f.flush()
shutil.rmtree(d, ignore_errors=True)
