"""The verified configurations: which compiled instances, which functions under contract, which properties."""
import json, os
import group
import meta
import densegroup
HERE = os.path.dirname(os.path.abspath(__file__))


class G:
    """props: decided over this configuration on every run; deep: only in the thorough tier"""
    def __init__(self, make, props, about, W=16, deep=()): self.make, self.props, self.about, self.W, self.deep = make, set(props), about, W, set(deep)
    def covers(self, prop, deep): return prop in self.props or deep and prop in self.deep


PORT = ['-DTPP_NO_SIMD']
SW = ('C01', 'C03', 'C06', 'C07', 'C10', 'C12', 'C13', 'C14', 'C15', 'C16')
GROUPS = {
    'meta-sse2': G(lambda: meta.MetaGroup([], 16), ('C11',), 'metadata groups of 16 with SSE2'),
    'meta-ssse3': G(lambda: meta.MetaGroup(['-mssse3'], 16), ('C11',), 'metadata groups of 16 with SSSE3'),
    'meta-portable': G(lambda: meta.MetaGroup(PORT, 8), ('C11',), 'portable metadata groups of 8 (SSE2 detection switched off)', 8),
    'map': G(lambda: group.SwissGroup([], is_map=True), SW, 'sparse_map, clang x86-64 debug build (separate metadata and node buffers), SSE2 metadata groups of 16'),
    'set': G(lambda: group.SwissGroup([], is_map=False), ('C06', 'C07', 'C13', 'C14', 'C15', 'C16'), 'sparse_set, clang x86-64 debug build (separate metadata and node buffers), SSE2 metadata groups of 16', deep=SW),
}
ST = SW + ('C08', 'C09')
for _n, _m in (('smap', True), ('sset', False)):      # not decided completely yet: run on request only (only=sset)
    GROUPS[_n] = G(lambda m=_m: group.SwissGroup([], is_map=m, stable=True), (), 'stable_%s, clang x86-64 debug build, SSE2 metadata groups of 16' % ('map' if _m else 'set'))
D1 = ('C02', 'C03', 'C06', 'C07', 'C10', 'C12', 'C13', 'C14', 'C15', 'C16')
for _n, _k, _q, _t in (('dset', 1, D1, 'dense_set'), ('dmap', 0, (), 'dense_map')):
    GROUPS[_n] = G(lambda k=_k: densegroup.DenseGroup([], k), _q, _t + ', clang x86-64 debug build', 0)


def unit_name(u): return u[0] + (':' + u[1] if u[1] else '')


ALIAS = {'mem': 'C12', 'term': 'C12'}


def tags_of(o): return {ALIAS.get(t, t) for t in o.tags or ('C12',)}


def weights(name):
    f = os.path.join(HERE, 'hints', name + '.weights.json')
    return json.load(open(f)) if os.path.exists(f) else {}


def learn(res):
    """remember which strategy discharged what (order of attempts only; nothing is ever assumed from it)"""
    d = {}
    for o in res['obligations']:
        g, _, key = o[0].partition('/')
        d.setdefault(g, []).append((key,) + tuple(o[1:]))
    os.makedirs(os.path.join(HERE, 'hints'), exist_ok=True)
    for g, l in d.items():
        hf = os.path.join(HERE, 'hints', g + '.json')
        h = json.load(open(hf)) if os.path.exists(hf) else {}
        w = weights(g)
        seen, slow = {}, {}
        for key, tags, st, be, secs, n, strat in l:
            if strat: h[key] = strat
            u = key.split(': ')[0]
            u = u[:-1].replace(' (', ':', 1) if u.endswith(')') else u
            for t in {ALIAS.get(t, t) for t in tags or ('C12',)}:
                x = seen.setdefault(u, {})
                x[t] = x.get(t, 0) + secs
            if secs >= 3: slow.setdefault(u, {})[key] = [round(secs, 1), sorted({ALIAS.get(t, t) for t in tags or ('C12',)})]
        for u, x in seen.items(): w[u] = {'time': {t: round(s, 1) for t, s in x.items()}, 'slow': slow.get(u, {})}
        json.dump(h, open(hf, 'w'), indent=0, sort_keys=True)
        json.dump(w, open(os.path.join(HERE, 'hints', g + '.weights.json'), 'w'), indent=0, sort_keys=True)
