"""C21: builds the digest program in every configuration and compares, block by block."""
import os, subprocess, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEADERS = ['url.hpp'] + ['url/%s.hpp' % h for h in 'basic_url config error host_type scheme static_pool static_url url url_base url_view urls'.split()]

def configs(repo, thorough):
    lib = [repo + '/src/src.cpp']
    D = ['-DBOOST_URL_NO_LIB']
    c = [
        # name, compiler, flags, sources, shared
        ('library, -O2, assertions, c++17', 'g++', D + ['-std=c++17', '-O2'], lib, False),
        ('header-only, -O2, c++17', 'g++', D + ['-std=c++17', '-O2', '-DBOOST_URL_HEADER_ONLY'], [], False),
        ('stand-alone, -O2, c++17', 'g++', D + ['-std=c++17', '-O2', '-DBOOST_URL_STANDALONE'], lib, False),
        ('library, -O2, NDEBUG, c++11', 'g++', D + ['-std=c++11', '-O2', '-DNDEBUG'], lib, False),
        ('library, -O0, c++14', 'g++', D + ['-std=c++14', '-O0'], lib, False),
        ('library, -O3, NDEBUG, c++20, unsigned char', 'g++', D + ['-std=c++20', '-O3', '-DNDEBUG', '-funsigned-char'], lib, False),
        ('library, clang -O2, c++17', 'clang++', D + ['-std=c++17', '-O2'], lib, False),
        ('shared library, hidden visibility, c++17', 'g++', ['-DBOOST_URL_NO_LIB', '-DBOOST_URL_DYN_LINK', '-fPIC', '-fvisibility=hidden', '-std=c++17', '-O2'], lib, True),
        ('header-only, -O0, c++11, no SSE2', 'g++', D + ['-std=c++11', '-O0', '-DBOOST_URL_HEADER_ONLY', '-DBOOST_URL_NO_SSE2'], [], False),
        ('stand-alone header-only style, -O3, NDEBUG, c++20', 'g++', D + ['-std=c++20', '-O3', '-DNDEBUG', '-DBOOST_URL_STANDALONE'], lib, False),
        ('header-only, clang -O3, NDEBUG, c++20', 'clang++', D + ['-std=c++20', '-O3', '-DNDEBUG', '-DBOOST_URL_HEADER_ONLY'], [], False),
        ('library, -O2, stack pattern-initialised', 'g++', D + ['-std=c++17', '-O2', '-ftrivial-auto-var-init=pattern'], lib, False),
    ]
    if thorough:
        c += [
            ('stand-alone, clang -O0, c++17', 'clang++', D + ['-std=c++17', '-O0', '-DBOOST_URL_STANDALONE'], lib, False),
            ('library, -Os, c++17, no strict aliasing', 'g++', D + ['-std=c++17', '-Os', '-fno-strict-aliasing'], lib, False),
            ('library, -O2 -flto, NDEBUG', 'g++', D + ['-std=c++17', '-O2', '-flto', '-DNDEBUG'], lib, False),
        ]
    return c

def run(pid, chk, thorough, tmp, replay, t0, R):
    cs = configs(R.REPO, thorough)
    repo_inc = R.REPO + '/include/boost/'
    inc = ['-I' + R.REPO + '/include', '-I' + V + '/mc', '-w', '-MD']
    jobs, deps, second = [], [], []
    for i, (name, cxx, fl, lib, shared) in enumerate(cs):
        exe = os.path.join(tmp, 'd%d' % i)
        o = exe + '.o'
        jobs.append([cxx] + fl + inc + ['-c', V + '/mc/digest.cpp', '-o', o]); deps.append(exe + '.d')
        o2 = exe + '.tu2.o'
        jobs.append([cxx] + fl + inc + ['-c', V + '/mc/tu2.cpp', '-o', o2]); deps.append(exe + '.tu2.d')
        objs = [o, o2]
        if lib:
            jobs.append([cxx] + fl + (['-DBOOST_URL_SOURCE'] if shared else []) + inc + ['-c', lib[0], '-o', exe + '.lib.o']); deps.append(exe + '.lib.d')
            if shared:
                second.append([cxx] + fl + ['-shared', exe + '.lib.o', '-o', exe + '.so'])
                objs.append(exe + '.so')
            else:
                objs.append(exe + '.lib.o')
        else:
            second.append(['true'])
        cs[i] = cs[i] + (exe, [cxx] + fl + objs + (['-Wl,-rpath,' + tmp] if shared else []) + ['-o', exe])
    # every public header on its own, in the configurations that differ in what they include
    heads = 0
    for i in (0, 1, 2, 3, 6):
        for h in HEADERS:
            if os.path.exists(repo_inc + h):
                t = os.path.join(tmp, 'h%d.cpp' % len(jobs)); open(t, 'w').write('#include <boost/%s>\n#include <boost/%s>\n' % (h, h))
                jobs.append([cs[i][1]] + cs[i][2] + ['-I' + R.REPO + '/include', '-w', '-fsyntax-only', t]); heads += 1
    names = {j: c[0] for j, c in enumerate(cs)}
    def fail(why):
        p = os.path.join(tmp, 'c21.txt'); open(p, 'w').write(why + '\n')
        return R.violation(pid, chk, thorough, {}, t0, why[-3000:], R.save_replay(pid, p))
    # compile everything, at most 16 at a time
    base_bad = None
    for k in range(0, len(jobs), 16):
        for (rc, out), j in zip(R.compile_all(jobs[k:k + 16]), jobs[k:k + 16]):
            if rc:
                return fail('does not compile: %s\n%s' % (' '.join(j), out[-2000:]))
    R.check_deps(deps)
    for (rc, out), j in zip(R.compile_all(second), second):
        if rc: return fail('shared library does not link: %s' % out[-2000:])
    for (rc, out), c in zip(R.compile_all([c[6] for c in cs]), cs):
        if rc: return fail('configuration "%s" does not link: %s' % (c[0], out[-2000:]))
    deep = ['--deep'] if thorough else []
    def go(c, extra, limit):
        try:
            r = subprocess.run([c[5]] + deep + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, cwd=tmp)
            return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
        except subprocess.TimeoutExpired:
            return 'timeout', '', ''
    if replay:
        print(open(replay).read()); return 1
    # run: a pool of 8 processes over (configuration, slice)
    from concurrent.futures import ThreadPoolExecutor
    S = 4
    tasks = [(i, s) for s in range(S) for i in range(len(cs))]
    res = {}
    limit = 7200 if thorough else 400
    with ThreadPoolExecutor(8) as ex:
        for (i, s), r in zip(tasks, ex.map(lambda t: go(cs[t[0]], [str(S), str(t[1])], limit), tasks)):
            res[i, s] = r
    digest = []
    for i in range(len(cs)):
        d = {}
        for s in range(S):
            for l in res[i, s][1].splitlines():
                f = l.split()
                if len(f) == 3: d[int(f[0])] = (int(f[1]), f[2])
        digest.append(d)
    def crash_text(i, s):
        rc, out, err = res[i, s]
        return 'configuration "%s" ends with %s: %s' % (names[i], rc, err[-600:])
    bad = [(i, s) for (i, s) in tasks if res[i, s][0] != 0]
    blocks = sorted(set(b for d in digest for b in d))
    diff = [b for b in blocks if len(set(d.get(b) for d in digest)) > 1]
    ncases = sum(digest[0].get(b, (0, ''))[0] for b in blocks)
    data = {'cases': ncases, 'states': ncases, 'transitions': sum(sum(x[0] for x in d.values()) for d in digest), 'traces': len(blocks) * (len(cs) - 1),
            'complete': True, 'outcomes': {'configurations': len(cs), 'headers compiled alone': heads, 'distinct digests': len(set(d[b][1] for d in digest for b in d))},
            'jobs': [c[0] for c in cs], 'tasks': len(tasks), 'samples': []}
    if len(bad) == len(tasks):
        # every configuration fails the same way: identical behaviour is not refuted by this check
        kinds = set(str(res[t][0]) for t in tasks)
        if len(kinds) == 1 and not diff:
            print('every configuration stops in the same way (%s); compared up to there' % kinds.pop())
            R.evidence(pid, chk, thorough, data, time.time() - t0, 0, 'all configurations stop at the same point')
            return 0
    if bad:
        # confirm, then report which configurations stop and which do not
        i, s = bad[0]
        again = go(cs[i], [str(S), str(s)], limit)
        if again[0] == 0: raise R.Broken('configuration "%s" failed once and then passed' % names[i])
        return fail('configurations differ: ' + crash_text(i, s) + '; others: ' + ', '.join('%s=%s' % (names[j], res[j, s][0]) for j in range(len(cs)) if res[j, s][0] == 0))
    if diff:
        b = diff[0]
        groups = {}
        for i, d in enumerate(digest): groups.setdefault(d.get(b), []).append(i)
        big = max(groups.values(), key=len); other = next(g for g in groups.values() if g is not big)
        i, j = big[0], other[0]
        x = go(cs[i], ['--dump', str(b)], limit)[1].splitlines(); y = go(cs[j], ['--dump', str(b)], limit)[1].splitlines()
        for l, m in zip(x, y):
            if l != m:
                return fail('configurations differ on block %d:\n  %s:\n    %s\n  %s:\n    %s' % (b, names[i], l[:3000], names[j], m[:3000]))
        raise R.Broken('digests of block %d differ but the records do not' % b)
    x = go(cs[0], ['--dump', str(blocks[-2])], limit)[1].splitlines(); data['samples'] = [l[:300] for l in x[:2]] + [l[:300] for l in go(cs[0], ['--dump', str(blocks[300])], limit)[1].splitlines()[:3]]
    R.evidence(pid, chk, thorough, data, time.time() - t0, 0)
    print('C21: %d configurations agree on %d blocks, %d cases' % (len(cs), len(blocks), ncases))
    return 0
