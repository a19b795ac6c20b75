#!/usr/bin/env python3
"""seed.py ID...: validates seeded/ID in /repo (applies, builds, stable tests pass, demo 0/!=0), then undoes it.
   --check: also runs the property's quick check, --all: every check (catch matrix)."""
import sys, os, subprocess, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def run(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) or None
def tests():
    o = tempfile.mktemp()
    run('bash', '/opt/vp/test.sh', o)
    d = json.load(open(o)); os.unlink(o)
    return set(d['passed']), set(d['failed'])
def main():
    av = sys.argv[1:]; ids = [a for a in av if not a.startswith('-')]
    assert run('git', '-C', R, 'status', '--porcelain').stdout.strip() == '', 'dirty'
    head, _ = tests()
    for i in ids:
        d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json')); ok = True
        r0 = run('bash', d + '/demo.sh', cwd=R, timeout=300)
        try:
            a = run('git', '-C', R, 'apply', d + '/patch.diff')
            if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
            p, f = tests()
            miss = head - p
            r1 = run('bash', d + '/demo.sh', cwd=R, timeout=300)
            good = r0.returncode == 0 and r1.returncode != 0 and not miss
            print(i, 'OK' if good else 'BAD', 'demo %d/%d' % (r0.returncode, r1.returncode), 'broken tests: %s' % sorted(miss)[:4] if miss else '', '' if good else (r0.stdout + r1.stdout)[-600:], flush=True)
            if '--check' in av or '--all' in av:
                ps = ['C%02d' % k for k in range(1, 24)] if '--all' in av else [meta['property']]
                res = []
                for c in ps:
                    q = run('python3', 'run.py', c, '--quick', cwd=V)
                    res.append('%s=%s' % (c, {0: '-', 1: 'CAUGHT'}.get(q.returncode, 'ERR%d' % q.returncode)))
                    if q.returncode == 1 and '-v' in av: print(q.stdout[-1500:])
                print('   ', ' '.join(res), flush=True)
        finally:
            run('git', '-C', R, 'checkout', '--', '.')
main()
