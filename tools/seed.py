#!/usr/bin/env python3
"""Makes and validates planted bugs.

  seed.py make SPEC.py      SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (Go test body)
  seed.py check ID...       runs the check of the property against the planted bug (in a scratch copy)
  seed.py validate ID...    re-validates: applies, builds, tests pass, demo 0 / nonzero
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'b4d3f82'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on this history, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 . || exit 1
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV, **kw)

def copy():
    d = tempfile.mkdtemp(prefix='seedrepo-')
    sh(['cp', '-a', '/repo/.', d], '/')
    sh('git checkout -q -- .', d)
    return d

def tests(d):
    r = sh('go test -json -vet=off -count=1 ./...', d)
    passed = set(); failed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e.get('Action') in ('pass', 'fail'):
            (passed if e['Action'] == 'pass' else failed).add(e['Package'] + '/' + e['Test'])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - passed) + sorted(failed & stable), r

def validate(ident, verbose=True):
    sd = f'{V}/seeded/{ident}'
    d = copy(); errs = []
    try:
        r = sh(['bash', f'{sd}/demo.sh'], d)
        if r.returncode != 0: errs.append('demo fails on the unchanged tree:\n' + r.stdout + r.stderr)
        r = sh(['git', 'apply', f'{sd}/patch.diff'], d)
        if r.returncode != 0: errs.append('does not apply: ' + r.stderr); return errs
        # original lines only
        diff = sh('git diff -U0', d).stdout
        fixed = 0; orig = 0; cur = None
        for l in diff.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: cur = m.group(1)
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    b = sh(f'git blame -s -L{k},{k} HEAD -- {cur}', d).stdout
                    if b.lstrip('^').startswith(BASE): orig += 1
                    else: fixed += 1
        if orig == 0: errs.append('changes no original line')
        if fixed: errs.append(f'note: {fixed} changed lines come from fix commits')
        r = sh('go build ./...', d)
        if r.returncode != 0: errs.append('does not build: ' + r.stderr); return errs
        bad, r = tests(d)
        if bad: errs.append('tests fail: ' + ', '.join(bad[:6]))
        r = sh(['bash', f'{sd}/demo.sh'], d)
        if r.returncode == 0: errs.append('demo passes with the patch')
        elif '--- FAIL' not in r.stdout and 'DATA RACE' not in r.stdout: errs.append('demo does not fail as a test: ' + r.stdout[-800:] + r.stderr[-800:])
    finally:
        shutil.rmtree(d)
    return errs

def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for s in g['seeds']:
        d = copy()
        try:
            ok = True
            for f, old, new in s['edits']:
                t = open(f'{d}/{f}').read()
                if t.count(old) != 1:
                    print(s['id'], f'edit of {f}: {t.count(old)} occurrences of', old[:60]); ok = False; break
                open(f'{d}/{f}', 'w').write(t.replace(old, new))
            if not ok: continue
            sh('gofmt -w $(git diff --name-only)', d)
            diff = sh('git diff', d).stdout
        finally:
            shutil.rmtree(d)
        sd = f"{V}/seeded/{s['id']}"
        os.makedirs(sd, exist_ok=True)
        open(f'{sd}/patch.diff', 'w').write(diff)
        open(f'{sd}/demo.sh', 'w').write(s.get('demo_sh', DEMO))
        imports = s.get('imports', [])
        body = s['demo']
        std = ''.join(f'\t"{i}"\n' for i in imports)
        go = f'package loukoum_test\n\nimport (\n{std}\t"testing"\n\n'
        for name, path in [('loukoum', 'github.com/ulule/loukoum/v3'), ('builder', 'github.com/ulule/loukoum/v3/builder'), ('stmt', 'github.com/ulule/loukoum/v3/stmt'), ('types', 'github.com/ulule/loukoum/v3/types'), ('parser', 'github.com/ulule/loukoum/v3/parser'), ('lexer', 'github.com/ulule/loukoum/v3/lexer'), ('token', 'github.com/ulule/loukoum/v3/token'), ('format', 'github.com/ulule/loukoum/v3/format')]:
            if re.search(rf'\b{name}\.', body):
                go += f'\t{name} "{path}"\n' if name == 'loukoum' else f'\t"{path}"\n'
        go += ')\n\n' + body
        open(f'{sd}/demo_test.go', 'w').write(go)
        sh(['gofmt', '-w', f'{sd}/demo_test.go'], V)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{sd}/meta.json', 'w'), indent=1)
        e = validate(s['id'])
        print(s['id'], 'OK' if not e else e)

def check(ids, tier='quick'):
    for i in ids:
        sd = f'{V}/seeded/{i}'
        meta = json.load(open(f'{sd}/meta.json'))
        d = copy(); out = tempfile.mkdtemp(prefix='seedout-')
        try:
            r = sh(['git', 'apply', f'{sd}/patch.diff'], d)
            env = dict(os.environ, MC_REPO=d, MC_OUT=out)
            r = subprocess.run(['bash', f'{V}/run.sh', 'check', '-property', meta['property'], '-tier', tier], cwd=V, env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode} ' + (r.stdout + r.stderr)[-400:], flush=True)
            if '-v' in sys.argv: print(r.stdout[-3000:])
        finally:
            shutil.rmtree(d); shutil.rmtree(out)

if __name__ == '__main__':
    args = [a for a in sys.argv[2:] if a != '-v']
    allids = sorted(os.listdir(f'{V}/seeded')) if os.path.isdir(f'{V}/seeded') else []
    if sys.argv[1] == 'make': make(args[0])
    elif sys.argv[1] == 'check': check(args or allids)
    elif sys.argv[1] == 'validate':
        for i in args or allids: print(i, validate(i) or 'OK', flush=True)
