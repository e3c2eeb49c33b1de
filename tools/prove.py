"""Runs the deductive verifier for one property and turns its result into evidence."""
import json, os, subprocess, sys, tempfile, collections
HERE = os.path.dirname(os.path.abspath(__file__))
VC = os.path.join(HERE, 'vc')

ASSUME = [
    'user-supplied equality is an equivalence, the hash function respects it, copies are equal to their source, and none of these callbacks throws or re-enters the container (C17 is not claimed)',
    'allocation either succeeds, returning a fresh block of at most 2^47 bytes, or ends the operation; tables hold fewer than 2^47 elements, so the 64-bit counters do not wrap',
    'arguments do not refer into the container unless the operation says so; destination tables are distinct from sources except for self-assignment and self-swap, which have units of their own',
    'meta-axioms about finite counting: the number of occupied / empty / deleted bytes of a table is fixed by its bytes, changes by one when one byte changes, is zero exactly when there is no such byte, and agrees for bytewise equal tables',
    'triangular probing visits every window of a power-of-two table exactly once (proved by Lean in tools/lean/Probe.lean, checked by the runs for C01 and C12)',
    'the semantics this verifier gives to the LLVM IR instructions that occur (tools/vc/sym.py), clang 18 as front end, and the encoding of bit-vector terms as integers (its mask lemma is re-proved by z3 on every run)',
    'library functions outside /repo used through assumed contracts: operator new/delete behind the allocator, std::is_permutation, std::out_of_range; memory intrinsics have built-in semantics',
]


def run(prop, tier):
    out = None
    try:
        fd, out = tempfile.mkstemp(prefix='vp_prove'); os.close(fd)
        cmd = ['python3-vt', os.path.join(VC, 'main.py'), prop, out, 'budget=%d' % (560 if tier == 'quick' else 3000), 'ms=%d' % (30000 if tier == 'quick' else 120000), 'deep=%d' % (tier != 'quick'), 'vac=%d' % (tier != 'quick')]
        sys.path.insert(0, VC)
        lean = lean_start() if prop in LEAN else None
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700 if tier == 'quick' else 3400, start_new_session=True)
        except subprocess.TimeoutExpired: return trouble(prop, 'the prover ran out of time')
        try: r = json.load(open(out))
        except Exception: return trouble(prop, 'the prover gave no answer: ' + p.stdout.decode('utf-8', 'replace')[-800:])
        if lean is not None:
            why = lean_end(lean)
            for t in ('cover', 'cover_small', 'aligned'):
                r['obligations'].append(['lean/Probe: ' + t, [prop], 'undecided: ' + why if why else 'proved', '' if why else 'Lean 4', 0.0, 0, ''])
            if why: r['failed'].append({'key': 'lean/Probe: cover', 'status': 'undecided: ' + why})
        if not r['groups'] and not r['failed']: return None
        return report(prop, r)
    except Exception as e:
        return trouble(prop, '%s: %s' % (type(e).__name__, e))
    finally:
        if out and os.path.exists(out): os.unlink(out)


LEAN = {'C01', 'C12'}


def lean_start():
    try: return subprocess.Popen(['lean', os.path.join(HERE, 'lean', 'Probe.lean')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    except Exception as e: return str(e)


def lean_end(p):
    """-> None or what went wrong"""
    if isinstance(p, str): return p
    try: out = p.communicate(timeout=300)[0].decode('utf-8', 'replace')
    except Exception as e:
        p.kill(); return '%s: %s' % (type(e).__name__, e)
    if p.returncode or 'error' in out or 'sorry' in out: return out[-400:]
    for t in ('cover', 'cover_small', 'aligned'):
        if "'%s' depends on axioms: [propext, Classical.choice, Quot.sound]" % t not in out: return 'unexpected axioms: ' + out[-400:]
    return None


def trouble(prop, why):
    return {'level': 'proof', 'coverage': {'obligations': 1, 'discharged': 0, 'checker_cmd': 'python3-vt tools/vc/main.py %s OUT.json' % prop, 'trusted_base': [], 'prover': why},
            'failed': [why], 'assumptions': ASSUME}


def report(prop, r):
    obl = [o for o in r['obligations'] if ': not vacuous: ' not in o[0]]
    smoke = len(r['obligations']) - len(obl)
    done = [o for o in obl if o[2] == 'proved']
    back = collections.Counter(o[3] for o in done)
    units = {}
    for o in obl:
        u = o[0].split(': ')[0]
        x = units.setdefault(u, [0, 0, 0.0]); x[0] += 1; x[1] += o[2] == 'proved'; x[2] += o[4]
    slow = sorted(done, key=lambda o: -o[4])[:3]
    cov = {'obligations': len(obl) + sum(not any(f['key'] == o[0] for o in obl) for f in r['failed']), 'discharged': len(done),
           'checker_cmd': 'python3-vt tools/vc/main.py %s OUT.json' % prop,
           'trusted_base': ['clang 18 (C++ to LLVM IR) and opt mem2reg/sroa', 'tools/vc (symbolic executor and obligation generator)', 'z3 4.x through its Python binding', 'Lean 4 kernel for tools/lean/Probe.lean'],
           'backends': dict(back), 'solver_time_s': round(sum(o[4] for o in obl), 1), 'prover_wall_s': round(r.get('wall', 0), 1),
           'functions_under_contract': {u: {'obligations': x[0], 'discharged': x[1], 'seconds': round(x[2], 1)} for u, x in sorted(units.items())},
           'configurations': {g: {'about': d['about'], 'flags': d['flags'], 'command': d['command']} for g, d in r['groups'].items()},
           'slowest': [{'obligation': o[0], 'seconds': round(o[4], 1), 'by': o[3]} for o in slow],
           'selfcheck': r.get('selfcheck'), 'vacuity_smoke_tests': smoke,
           'explanation': 'every obligation is generated on this run from the LLVM IR of /repo\'s current headers; the contracts this property\'s proof uses at call sites are discharged under the properties their obligations are tagged with'}
    failed = ['%s: %s' % (f['key'], f['status']) for f in r['failed']]
    for t in r.get('traces', []): failed.append('  (%s) %s' % (t.get('label', ''), ' | '.join(t.get('trace', []))[-600:] if isinstance(t, dict) else t))
    return {'level': 'proof', 'coverage': cov, 'failed': failed, 'assumptions': ASSUME}
