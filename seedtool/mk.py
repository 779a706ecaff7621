#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the table in seeds.py: applies the textual edit to a scratch copy,
checks that it builds, that the tests of the baseline pass, and that the demonstration separates the trees."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)

def main(only):
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='seed')
        try:
            t = d + '/repo'
            sh(f'cp -a /repo {t}', '/')
            for f, old, new in s['edits']:
                p = f'{t}/{f}'
                src = open(p).read()
                if src.count(old) < 1:
                    print(s['id'], 'EDIT NOT FOUND', f, old[:60]); raise SystemExit(1)
                n = s.get('count', 1)
                src = src.replace(old, new, n)
                open(p, 'w').write(src)
            sh('gofmt -l .', t)
            patch = sh('git diff', t).stdout
            o = f'{OUT}/{s["id"]}'
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(patch)
            shutil.copy(HERE + '/demo.sh', o + '/demo.sh'); os.chmod(o + '/demo.sh', 0o755)
            open(o + '/demo.go.txt', 'w').write(s['demo'])
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            b = sh('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3', t)
            if b.returncode: print(s['id'], 'BUILD', b.stdout[-300:], b.stderr[-300:]); continue
            g = sh(f'bash {o}/demo.sh', '/repo'); bad = sh(f'bash {o}/demo.sh', t)
            base = json.load(open('/opt/vp/BASELINE.json'))
            sh(f'git apply {o}/patch.diff', t)
            r = sh('. /opt/vp/env.sh; go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok"', t)
            print(s['id'], 'demo clean', g.returncode, 'demo bug', bad.returncode, 'tests', 'PASS' if 'FAIL' not in r.stdout else r.stdout[-400:], (g.stdout + g.stderr)[-200:] if g.returncode else '', (bad.stdout + bad.stderr)[-160:].strip())
        finally:
            shutil.rmtree(d)

main(sys.argv[1:])
