"""Concrete search: builds the harness in /verif/replay against /repo's current headers and runs random and
structured histories (bounded; never counted as proof).  Also the replay step for failed proof obligations."""
import os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, 'replay')
REPO = os.environ.get('VP_REPO', '/repo')
SPARSE, STABLE, DENSE, MULTI = list(range(0, 4)), list(range(4, 8)), list(range(8, 12)), list(range(20, 24))
SINGLE = SPARSE + STABLE + DENSE
NAMES = ['sparse_set', 'ordered_sparse_set', 'sparse_map', 'ordered_sparse_map', 'stable_set', 'ordered_stable_set', 'stable_map', 'ordered_stable_map',
         'dense_set', 'ordered_dense_set', 'dense_map', 'ordered_dense_map']
NAMES = {i: n for i, n in enumerate(NAMES)}
NAMES.update({20: 'dense_multiset<2>', 21: 'dense_multiset<3>', 22: 'dense_multimap<2>', 23: 'dense_multimap<3>'})
CONTS = {'C01': SPARSE + STABLE, 'C02': DENSE, 'C03': SINGLE + MULTI, 'C04': [1, 3, 5, 7, 9, 11], 'C05': MULTI, 'C06': SINGLE + MULTI, 'C07': SINGLE + MULTI,
         'C08': STABLE, 'C09': STABLE, 'C10': SINGLE + MULTI, 'C12': SINGLE + MULTI, 'C13': SINGLE + MULTI, 'C14': SINGLE + MULTI, 'C15': SINGLE + MULTI, 'C16': SINGLE + MULTI}
SAN = ['-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']
CFG = {'debug-simd': ['g++', '-std=c++17', '-DPROP=0'] + SAN,
       'release-combined': ['clang++-18', '-std=c++20', '-DNDEBUG', '-DPROP=1'] + SAN,
       'debug-portable': ['clang++-18', '-std=c++17', '-DTPP_NO_SIMD', '-DPROP=0'] + SAN,
       'release-portable': ['g++', '-std=c++20', '-DTPP_NO_SIMD', '-DNDEBUG', '-DPROP=1'] + SAN}
GROUPCFG = {'sse2': ['g++', '-std=c++17', '-O1', '-w'], 'ssse3': ['g++', '-std=c++17', '-O1', '-w', '-mssse3'], 'portable': ['clang++-18', '-std=c++17', '-O1', '-w', '-DTPP_NO_SIMD'],
            'release-sse2': ['clang++-18', '-std=c++20', '-O1', '-w', '-DNDEBUG'], 'release-portable': ['g++', '-std=c++20', '-O1', '-w', '-DNDEBUG', '-DTPP_NO_SIMD']}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=0')


def plan(prop, thorough):
    """-> list of (label, compile argv tail, config argv)"""
    if prop == 'C11':
        return [('meta_block', ['group.cpp'], n, c) for n, c in GROUPCFG.items()]
    cs, jobs = CONTS[prop], []
    full = thorough or len(cs) <= 8
    for k, c in enumerate(cs):
        src = ['-DCONT=%d' % c, 'multi.cpp' if c >= 20 else 'single.cpp', 'common.cpp']
        for n, a in CFG.items():
            if n == 'release-portable' and not thorough: continue
            if not full and n == 'release-combined' and (c ^ (c >> 1) ^ (c >> 2)) & 1: continue
            if not full and n == 'debug-portable' and not (c ^ (c >> 1) ^ (c >> 2)) & 1: continue
            jobs.append((NAMES[c], src, n, a))
    return jobs


def one(job, prop, seed, count, secs, tmp, stop):
    name, src, cfg, argv = job
    r = {'container': name, 'config': cfg, 'histories': 0, 'ops': 0, 'checks': 0}
    if stop['v']: return dict(r, status='skipped')
    exe = os.path.join(tmp, re.sub(r'\W', '_', name + cfg))
    cmd = argv + ['-I' + os.path.join(REPO)] + src + ['-o', exe]
    try:
        p = subprocess.run(cmd, cwd=SRC, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return dict(r, status='build-timeout')
    r['build'] = ' '.join(cmd)
    if p.returncode: return dict(r, status='build-failed', output=p.stderr[:6000])
    if stop['v']: return dict(r, status='skipped')
    run = [exe, prop, str(seed), str(count), str(secs)]
    r['run'] = ' '.join(run)
    try:
        p = subprocess.run(run, capture_output=True, text=True, errors='replace', timeout=secs + 60, env=ENV)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return dict(r, status='fail', output='FAIL kind=hang container=%s (no answer)\n%s' % (name, (e.stdout or b'')[-3000:]))
    finally:
        try: os.unlink(exe)
        except OSError: pass
    m = re.search(r'DONE histories=(\d+) ops=(\d+) checks=(\d+)', out)
    if m and p.returncode == 0:
        r.update(histories=int(m[1]), ops=int(m[2]), checks=int(m[3]))
        return dict(r, status='ok')
    stop['v'] = True
    if 'FAIL ' not in out: out = 'FAIL kind=crash container=%s exit=%d\n' % (name, p.returncode) + out
    return dict(r, status='fail', output=out[-60000:] + '\n--- stderr\n' + err[:8000])


def search(prop, seed, thorough, scale=1.0):
    """-> (failure or None, results).  Build problems are reported in the results."""
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    stop, res = {'v': False}, []
    jobs = plan(prop, thorough)
    count, secs = (200000, 120) if thorough else (2500, 12 * scale)
    if prop == 'C11': count, secs = (2000000, 100) if thorough else (60000, 60)
    try:
        with ThreadPoolExecutor(8) as ex:
            for f in as_completed([ex.submit(one, j, prop, seed, count, secs, tmp, stop) for j in jobs]):
                res.append(f.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    fails = [r for r in res if r['status'] == 'fail']
    return (fails[0] if fails else None), res
