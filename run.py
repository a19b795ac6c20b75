#!/usr/bin/env python3
"""Runs one check: builds the explorer for a property together with the library sources of
/repo's working tree (in a scratch directory), explores, replays any failing case alone and
only then reports it, and writes evidence/<id>.json.

  run.py C01                     quick exploration (VERIF_TIER=thorough or --thorough: deep one)
  run.py C01 --replay FILE       rebuild and re-run one recorded case

exit 0: held on everything explored.  exit 1: violation (VIOLATION line).  exit 2: no answer."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'mc'))
from checks import CHECKS, ASSUME  # noqa

BASE = ['-std=c++17', '-DBOOST_URL_NO_LIB', '-I' + REPO + '/include', '-I' + V + '/mc', '-pthread', '-w']
SAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
OPT = ['-O2', '-g1', '-D_GLIBCXX_ASSERTIONS']

# memory accesses and synchronisation become calls of the hooks in mc/sched.cpp
INSTR = ['-O1', '-fsanitize=thread', '-mstringop-strategy=libcall', '-fno-builtin']
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy memmove memset memcmp memchr strlen malloc calloc __cxa_allocate_exception '
        '__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock').split())]

def cut(t):
    return ''.join(l[:1500] + '\n' for l in t.splitlines()[-40:])

class Broken(Exception):
    pass

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)

def compile_all(jobs, timeout=600):
    """jobs: list of command lines, run in parallel; returns list of (rc, output)"""
    env = dict(os.environ)
    for k in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CPATH', 'CPLUS_INCLUDE_PATH'):
        env.pop(k, None)
    ps = []
    for c in jobs:
        f = tempfile.TemporaryFile(mode='w+', errors='replace')
        ps.append((subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=env), f))
    out = []
    for p, f in ps:
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); rc = 124
        f.seek(0)
        out.append((rc, f.read()))
    return out

def check_deps(dfiles):
    for d in dfiles:
        if os.path.exists(d) and re.search(r'/usr/include/boost/url(/|\.hpp)', open(d).read()):
            raise Broken('headers of the installed Boost.URL were used')

def build(chk, tmp):
    flags = BASE + (SAN if chk.get('san') else OPT) + chk.get('flags', [])
    srcs = [os.path.join(V, 'mc', chk['src']), os.path.join(V, 'mc', 'rt.cpp')]
    if chk.get('instr'):
        srcs.append(os.path.join(V, 'mc', 'sched.cpp'))
    if not chk.get('header_only'):
        srcs.append(REPO + '/src/src.cpp')
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append(['g++'] + flags + (INSTR if chk.get('instr') and s in srcs[:1] + [REPO + '/src/src.cpp'] else []) + ['-MD', '-c', s, '-o', o])
    for (rc, out), s in zip(compile_all(jobs), srcs):
        if rc:
            raise Broken('compiling %s failed:\n%s' % (s, out[-4000:]))
    check_deps([o[:-2] + '.d' for o in objs])
    exe = os.path.join(tmp, 'explore')
    (rc, out), = compile_all([['g++'] + flags + objs + (WRAP if chk.get('instr') else []) + ['-o', exe]])
    if rc:
        raise Broken('linking failed:\n' + out[-4000:])
    return exe

def sanenv():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    return e

def explore(exe, tmp, thorough, extra, limit):
    out = os.path.join(tmp, 'out.json'); rep = os.path.join(tmp, 'case.replay')
    for f in (out, rep, rep + '.task'):
        if os.path.exists(f): os.unlink(f)
    cmd = [exe, '--out', out, '--replay-out', rep] + (['--thorough'] if thorough else []) + extra
    r = sh(cmd, limit, env=sanenv(), cwd=tmp)
    d = json.load(open(out)) if os.path.exists(out) else {}
    return r.returncode, r.stdout, d, rep

def save_replay(pid, rep):
    dst = os.path.join(V, 'evidence', 'replay'); os.makedirs(dst, exist_ok=True)
    p = os.path.join(dst, pid + '.replay')
    shutil.copyfile(rep, p)
    return p

def evidence(pid, chk, thorough, d, wall, viol, note=None):
    cov = {'states': d.get('states', 0), 'transitions': d.get('transitions', 0),
           'traces_validated_against_impl': d.get('traces', 0), 'samples': d.get('samples', [])[:24],
           'exhaustive': bool(d.get('complete')) and not viol, 'cases': d.get('cases', 0),
           'outcomes': d.get('outcomes', {}), 'spaces': d.get('jobs', []), 'shards': d.get('tasks', 0)}
    if d.get('extra'): cov.update(d['extra'])
    if note: cov['note'] = note
    e = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
         'level': chk.get('level', 'model_checking'), 'coverage': cov, 'assumptions': ASSUME + chk.get('assume', []),
         'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1); f.write('\n')

def known(pid):
    p = os.path.join(V, 'known_findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                r.append(l[len('known: '):])
    return r

def violation(pid, chk, thorough, d, t0, why, rep):
    why = why[:1500]
    evidence(pid, chk, thorough, d, time.time() - t0, 1, why)
    print(why)
    print('VIOLATION property=%s replay=%s' % (pid, rep))
    return 1

def run_std(pid, chk, thorough, tmp, replay, t0):
    try:
        exe = build(chk, tmp)
    except Broken as b:
        if chk.get('compile_is_property'):
            p = os.path.join(tmp, 'c'); open(p, 'w').write('# the public interface this property needs does not compile\n' + str(b))
            return violation(pid, chk, thorough, {}, t0, str(b)[-1500:], save_replay(pid, p))
        raise
    if replay:
        r = sh([exe, '--replay', replay, '--hang', '120', '--replay-out', os.path.join(tmp, 'x')], 3600, env=sanenv(), cwd=tmp)
        print(r.stdout, end='')
        return r.returncode
    limit = 3 * 3600 if thorough else 780
    extra = ['--hang', '120' if thorough else '40']
    for attempt in range(3):
        rc, out, d, rep = explore(exe, tmp, thorough, extra, limit)
        sys.stdout.write(cut(out)); sys.stdout.flush()
        if rc == 0:
            evidence(pid, chk, thorough, d, time.time() - t0, 0)
            for k in known(pid):
                print('KNOWN-FINDING: ' + k)
            return 0
        if rc == 1 and os.path.exists(rep):
            why = next((l for l in out.splitlines() if l.startswith('MC-FAIL')), 'violation')
            # replay the failing case alone, then its whole shard, before believing it
            for f in (rep, rep + '.task'):
                r = sh([exe, '--replay', f, '--hang', '90', '--replay-out', os.path.join(tmp, 'x')], 400, env=sanenv(), cwd=tmp)
                sys.stdout.write(cut(r.stdout))
                if r.returncode == 1:
                    return violation(pid, chk, thorough, d, t0, why, save_replay(pid, f))
        print('attempt %d gave no reproducible answer (exit %d), again with fewer workers' % (attempt + 1, rc))
        extra = ['--hang', '150', '--workers', '3']
    raise Broken('no reproducible outcome')

def main():
    av = sys.argv[1:]
    pid = av[0]
    thorough = '--thorough' in av or os.environ.get('VERIF_TIER') == 'thorough'
    if '--quick' in av: thorough = False
    replay = os.path.abspath(av[av.index('--replay') + 1]) if '--replay' in av else None
    chk = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % pid)
    try:
        if 'runner' in chk:
            import importlib
            return importlib.import_module(chk['runner']).run(pid, chk, thorough, tmp, replay, t0, sys.modules[__name__])
        return run_std(pid, chk, thorough, tmp, replay, t0)
    except Broken as b:
        print('ERROR %s' % b)
        return 2
    except subprocess.TimeoutExpired as b:
        print('ERROR timeout %s' % b)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
