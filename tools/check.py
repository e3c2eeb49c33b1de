#!/usr/bin/env python3
"""check.py PROPERTY: decides one property; exit 0 or exit 1 with a VIOLATION line."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import replay
HERE = replay.HERE


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    rfile = os.path.join(HERE, 'evidence', 'replays', prop + '.txt')
    if os.path.exists(rfile): os.unlink(rfile)
    proof = None
    try:
        import prove
        proof = prove.run(prop, tier)
    except ImportError:
        pass
    fail, res = replay.search(prop, seed * 1000003 % 2000000011 + 1, tier == 'thorough')
    hist = sum(r['histories'] for r in res)
    bf = [r for r in res if r['status'] in ('build-failed', 'build-timeout')]
    failed = (proof or {}).get('failed', [])
    lines, status = [], 0
    if fail:
        status = 1
        lines = ['property %s violated by the real code' % prop, 'container: %s   configuration: %s' % (fail['container'], fail['config']),
                 'build (in /verif/replay): ' + fail.get('build', ''), 'run: ' + fail.get('run', ''), ''] + \
                (['failed proof obligations:'] + failed + [''] if failed else []) + [fail['output']]
        tail = ''
    elif failed:
        status = 1
        lines = ['property %s: proof obligations failed, the concrete search found no failing input' % prop] + failed
        tail = ' no-failing-input-found'
    elif bf and len(bf) == len([r for r in res if r['status'] != 'skipped']):
        status = 1
        lines = ['property %s: the code no longer compiles against the harness, nothing could be decided' % prop, bf[0].get('output', '')]
        tail = ' no-failing-input-found'
    cov = {'evaluations': hist, 'distinct_nontrivial': hist,
           'rule': 'bounded part: random and structured histories of operations on the real containers (distinct seeds; each checked after every step against a reference model); non-trivial: at least one operation executed',
           'operations': sum(r['ops'] for r in res), 'observations': sum(r['checks'] for r in res),
           'samples': [{k: r[k] for k in ('container', 'config', 'status', 'histories', 'ops')} for r in res][:40],
           'build_problems': ['%s/%s' % (r['container'], r['config']) for r in bf]}
    level = 'exploration'
    if proof:
        level = proof.get('level', 'proof')
        cov.update(proof['coverage'])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': (proof or {}).get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': status}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if status:
        with open(rfile, 'w') as f: f.write('\n'.join(lines) + '\n')
        print('\n'.join(lines)[:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, rfile, tail))
    else:
        print('%s: held on everything explored (%d histories%s, %.0f s)' % (prop, hist, ', %s obligations discharged' % cov['discharged'] if 'discharged' in cov else '', ev['wall_s']))
    sys.exit(status)


main()
