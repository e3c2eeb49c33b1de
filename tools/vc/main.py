"""main.py PROPERTY|ALL OUT.json [key=value...]: generates the obligations of the property from /repo's current headers and
discharges them.  Runs as its own process (python3-vt)."""
import json, os, sys, time, traceback, signal, shutil, tempfile
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry
from core import discharge, learn_core, keys, Unsupported
import z3

_G = {}


def vacuity(gname, unit, prop, deadline):
    """smoke test: at the end of the unit and around each of its loops some path has hypotheses that are not refutable"""
    import copy, re
    from core import formulas, latest, run_solver
    g = _G[gname]; d = registry.GROUPS[gname]
    points = {}
    for o in unit_ctx(gname, unit).obls:
        if o.goal is None or getattr(o, 'pure', False): continue
        if not re.match(r'ensures|.*loop: ', o.name): continue
        k = 'ensures' if o.name.startswith('ensures') else o.name.split(': ')[0] + (' on entry' if 'on entry' in o.name else ' in the body')
        points.setdefault(k, {}).setdefault(tuple(x.get_id() for x in o.hyps.pc), o)
    out = []
    for k, paths in points.items():
        t0, alive = time.time(), False
        for o in list(paths.values())[::-1]:
            o2 = copy.copy(o); o2.goal = z3.BoolVal(False)
            try: fs, n = formulas(o2, d.W, sel=latest(o.hyps.facts))
            except Unsupported: alive = True; break
            if time.time() > deadline or run_solver('f', fs, 2500) != 'unsat': alive = True; break
        key = '%s/%s: not vacuous: %s' % (gname, registry.unit_name(unit), k)
        out.append((key, [prop], 'proved' if alive else 'failed: the hypotheses contradict each other on every path', 'smoke test (not refuted in 2.5 s)', time.time() - t0, 0, ''))
    return out


_C = {}


def unit_ctx(gname, unit):
    """the executed unit (a worker keeps the last few)"""
    k = (gname, unit)
    if k not in _C:
        while len(_C) >= 4: _C.pop(next(iter(_C)))
        ctx = _G[gname]['group'].unit(*unit)
        keys(ctx.obls)
        _C[k] = ctx
    return _C[k]


def task(t):
    """one unit (or a slice of its obligations) -> [(key, tags, status, back end, seconds, instances, strategy)]
    pick: only these obligations; skip: these have tasks of their own"""
    gname, unit, part, nparts, prop, ms, deadline, pick, skip = t
    out, info = [], {}
    label = '%s/%s' % (gname, registry.unit_name(unit))
    try:
        t0 = time.time()
        g = _G[gname]
        ctx = unit_ctx(gname, unit)
        info = {'label': label, 'exec': time.time() - t0, 'total': len(ctx.obls), 'part': part}
        if pick == 'vacuity': return info, vacuity(gname, unit, prop, deadline)
        for k, o in enumerate(ctx.obls):
            if pick is not None and o.key not in pick or o.key in skip: continue
            if pick is None and k * nparts // len(ctx.obls) != part: continue
            if prop != 'ALL' and prop not in registry.tags_of(o): continue
            key = gname + '/' + o.key
            if time.time() > deadline:
                out.append((key, list(o.tags), 'undecided: out of time', '', 0.0, 0, '')); continue
            hint = g['hints'].get(o.key)
            if _G['learn'] == 'fresh' and isinstance(hint, str) and hint[1:2] == 'c': hint = None
            try: r = discharge(o, g['W'], ms, hint)
            except Exception as e: r = ('undecided: %s: %s' % (type(e).__name__, str(e)[:300]), '', 0.0, 0, '')
            if _G['learn'] and r[0] == 'proved' and r[2] > 0.15 and isinstance(r[4], str):
                try:
                    need = None
                    if r[4][1:] in ('f', 'b'):
                        need = learn_core(o, g['W'], r[4][0], r[4][1], min(ms, 20000))
                        if need is not None: need = [r[4], need]
                    elif r[4][1:2] in ('c', 'i', 's'): need = learn_cases(o, g['W'], r[4][0], 60000)
                    if need is not None:
                        x = discharge(o, g['W'], ms, need)
                        if x[0] == 'proved' and x[2] < r[2]: r = x
                except Exception: pass
            out.append((key, list(o.tags)) + tuple(r))
    except Exception as e:
        tb = traceback.format_exc().strip().split('\n')
        out.append((label, ['*'], 'undecided: %s: %s' % (type(e).__name__, str(e)[:400]), '', 0.0, 0, ''))
        info = {'label': label, 'exec': 0, 'total': 0, 'part': part, 'trace': tb[-6:]}
    return info, out


def build(name):
    try: return name, registry.GROUPS[name].make(), None
    except Exception as e: return name, None, '%s: %s' % (type(e).__name__, str(e)[:600])


def run(prop, ms=30000, budget=560, stop=6, only=None, procs=None, learn=False, deep=1, vac=0):
    _G['learn'] = learn
    t0 = time.time()
    deadline = t0 + budget
    procs = procs or os.cpu_count() or 4
    names = [n for n, d in registry.GROUPS.items() if d.covers(prop, deep)]
    if only: names = [n for n in registry.GROUPS if any(x == n or x.startswith(n + '/') for x in only)]
    res = {'property': prop, 'groups': {}, 'obligations': [], 'failed': [], 'units': [], 'selfcheck': None}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: built = list(ex.map(build, names))
    tasks = []
    for name, g, err in built:
        d = registry.GROUPS[name]
        if err:
            res['failed'].append({'key': name, 'status': 'undecided: the model of this configuration could not be built: ' + err}); continue
        hf = os.path.join(HERE, 'hints', name + '.json')
        hints = json.load(open(hf)) if os.path.exists(hf) else {}
        _G[name] = {'group': g, 'hints': hints, 'W': d.W}
        res['groups'][name] = {'flags': g.flags, 'command': g.cmd, 'about': d.about, 'functions': g.under_contract() if hasattr(g, 'under_contract') else []}
        wt = registry.weights(name)
        for u in g.units():
            lab = registry.unit_name(u)
            if only and not any(x == name or (name + '/' + lab).startswith(x) for x in only): continue
            if deep and vac: tasks.append((3, (name, u, 0, 1, prop, ms, deadline, 'vacuity', ())))
            w = wt.get(lab, {})
            slow = {k: v[0] for k, v in w.get('slow', {}).items() if prop == 'ALL' or prop in v[1]}
            slow = {k: v for k, v in slow.items() if v >= 4}
            for k, v in slow.items(): tasks.append((v, (name, u, 0, 1, prop, ms, deadline, {k}, ())))
            t = (w.get('time', {}).get(prop, 0.3) if prop != 'ALL' else sum(w.get('time', {}).values()) or 1.0) - sum(slow.values())
            n = 8 if not w and not d.W == 0 else max(1, min(8, int(t / 8)))
            for k in range(n): tasks.append((t / n, (name, u, k, n, prop, ms, deadline, None, frozenset(slow))))
    tasks.sort(key=lambda x: -x[0])
    import toint
    res['selfcheck'] = toint.selfcheck() or 'passed'
    bad = 0
    pool = mp.get_context('fork').Pool(max(1, min(procs, len(tasks))), maxtasksperchild=None)
    try:
        it = pool.imap_unordered(task, [t for _, t in tasks])
        n = 0
        while n < len(tasks):
            try: info, out = it.next(timeout=max(1.0, deadline + 60 - time.time()))
            except mp.TimeoutError:
                res['failed'].append({'key': 'prover', 'status': 'undecided: out of time'}); break
            n += 1
            if info.get('trace'): res.setdefault('traces', []).append(info)
            res['units'].append(info)
            for o in out:
                res['obligations'].append(o)
                if o[2] != 'proved':
                    bad += 1
                    res['failed'].append({'key': o[0], 'status': o[2]})
            if stop and bad >= stop: res['stopped'] = True; break
    finally:
        pool.terminate(); pool.join()
    res['wall'] = time.time() - t0
    return res


def main():
    prop, outf = sys.argv[1:3]
    kw = {}
    only = []
    learn = False
    for a in sys.argv[3:]:
        k, _, v = a.partition('=')
        if k == 'learn': learn = v or True
        elif k == 'only': only.append(v)
        else: kw[k] = float(v) if '.' in v else int(v)
    try: res = run(prop, only=only or None, learn=learn, **kw)
    except Exception as e:
        res = {'property': prop, 'groups': {}, 'obligations': [], 'units': [], 'failed': [{'key': 'prover', 'status': 'undecided: %s: %s' % (type(e).__name__, str(e)[:500])}],
               'traces': [traceback.format_exc()[-1500:]]}
    with open(outf, 'w') as f: json.dump(res, f)
    if learn: registry.learn(res)
    nf = len(res['failed'])
    print('%s: %d obligations, %d failed, %.0f s' % (prop, len(res['obligations']), nf, res.get('wall', 0)))
    for f in res['failed'][:40]: print('  FAILED', f['key'][:150], '|', f['status'][:200])


if __name__ == '__main__': main()
