"""Contracts and the discharge of obligations."""
import re, time, itertools, subprocess, tempfile, os
import toint, rawint
from sym import *
from sym import _cnt

PF = z3.Function('P', B64, B64, B64, B64)     # P(cap, hash, idx): position of the probe window with accumulated step idx
TI = z3.Function('TI', B64, B64, B64, B64)    # TI(cap, hash, slot): idx of a window that contains the slot (exists: Lean lemma)


def skolem(dom, k):
    """k-th skolem constant of an obligation (the names differ from all those made by fresh)"""
    n = dom if isinstance(dom, str) else '%s_%s' % dom
    s = DSORT.get(dom if isinstance(dom, str) else dom[0], B64)
    return z3.Const('sk_%s!sk%d' % (n, k), s)


def parts(x):
    return x if isinstance(x, tuple) else (x, [])


def conj(*l):
    l = [x for x in l if x is not None]
    return z3.And(*l) if l else z3.BoolVal(True)


def collect(apps, e, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.eq(PF): apps['P'].append(x)
            elif d.eq(TI): apps['T'].append(x)
            st.extend(x.children())


def uniq(l):
    out, ids = [], set()
    for x in l:
        if x.get_id() not in ids: ids.add(x.get_id()); out.append(x)
    return out


def probe_axioms(forms, W, align=False):
    """instances of the definition of P and of the covering lemma (every slot lies in exactly one probe window) for the applications that occur"""
    out, seen, done = [], set(), set()
    apps = {'P': [], 'T': []}
    for _ in range(3):
        n0 = len(seen)
        for f in forms + out: collect(apps, f, seen)
        P, T = uniq(apps['P']), uniq(apps['T'])
        for t in T:
            if ('T', t.get_id()) in done: continue
            done.add(('T', t.get_id()))
            c, h, s = t.children()
            out.append(z3.Implies(z3.And(pow2m1(c), z3.ULE(s, c)), z3.And(win_idx(c, t, W), z3.ULT((s - PF(c, h, t)) & c, W))))
        for p in P:
            if ('P', p.get_id()) not in done:
                done.add(('P', p.get_id()))
                c, h, i = p.children()
                out.append(z3.Implies(pow2m1(c), z3.ULE(p, c)))
                out.append(z3.Implies(i == 0, p == z3.LShR(h, 7) & c))
                if align: out.append(z3.Implies(z3.And(pow2m1(c), z3.UGE(c, W - 1), i & (W - 1) == 0), ((p - (z3.LShR(h, 7) & c)) & c) & (W - 1) == 0))
            for t in T:
                if ('U', p.get_id(), t.get_id()) in done: continue
                done.add(('U', p.get_id(), t.get_id()))
                c, h, i = p.children()
                c2, h2, s = t.children()
                if not c.eq(c2) or i.eq(t): continue
                cond = [pow2m1(c), z3.ULE(s, c), win_idx(c, i, W), z3.ULT((s - p) & c, W)]
                if not h.eq(h2): cond.append(h == h2)
                out.append(z3.Implies(z3.And(*cond), t == i))
        if len(seen) == n0: break
    return out


def pow2m1(c): return c & (c + 1) == 0


def win_idx(c, i, W):
    """i is the index of a probe window"""
    return z3.And(i & (W - 1) == 0, z3.ULE(i, c), z3.Implies(z3.UGE(c, W - 1), z3.ULE(i, c - (W - 1))), z3.Implies(z3.ULT(c, W - 1), i == 0))


class Contract:
    """name; tags; pre(ctx, st, a) -> [(name, fact)]; havoc(ctx, st, a) -> list of (st, ret); post(ctx, st0, st, ret, a) -> [(name, fact, tags)]"""
    name = ''
    tags = ()

    def pre(self, ctx, st, a): return []
    def havoc(self, ctx, st, a): return [(st, None)]
    def post(self, ctx, st0, st, ret, a): return []

    def __call__(self, ctx, st, f, args):
        a = self.bind(ctx, st, f, args)
        pre = self.pre(ctx, st, a)
        if self.name in getattr(ctx, 'forbid', ()) and st.g.get('@in'): pre = [('this call is never reached', z3.BoolVal(False), ctx.forbid_tags)]
        for nm, q, tg in pre: ctx.oblige(st, q, 'call of %s requires: %s' % (self.name, nm), tg)
        if any(z3.is_expr(q) and z3.is_false(q) for _, q, _ in pre): return []        # the obligation says that this call is never reached
        st0 = st.copy()
        res = []
        for s, r in self.havoc(ctx, st, a):
            for nm, q, tg in self.post(ctx, st0, s, r, a): s.add(q)
            res.append((s, r))
        return res

    def bind(self, ctx, st, f, args): return args


# ---------------------------------------------------------------------- discharge
def latest(facts):
    """the last fact of every name and domain: facts about superseded states are left out in the first attempts"""
    last = {}
    for n, q in enumerate(facts): last[(q.name, tuple(map(str, q.doms)))] = n
    return sorted(last.values())


_MC = {}
_INST, _SIMP = {}, {}


def simp(t):
    i = t.get_id()
    r = _SIMP.get(i)
    if r is None:
        if len(_SIMP) > 400000: _SIMP.clear()
        r = _SIMP[i] = (t, z3.simplify(t))
    return r[1]


def instance(q, tup):
    """instance of a fact (shared between obligations) -> (formula, [(domain, term)])"""
    key = (id(q),) + tuple(t.get_id() for t in tup)
    r = _INST.get(key)
    if r is None:
        if len(_INST) > 300000: _INST.clear()
        f, ex = parts(q.fn(*tup))
        r = _INST[key] = (f, [(d, simp(t)) for d, t in ex], q, tup)
    return r[0], r[1]


def conjuncts(l):
    out = []
    for x in l:
        if z3.is_and(x): out += conjuncts(x.children())
        else: out.append(x)
    return out


def mentions_counts(x):
    k = x.get_id()
    if k in _MC and _MC[k][0].eq(x): return _MC[k][1]
    seen, st, r = set(), [x], False
    while st and not r:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y):
            if y.num_args() == 0 and re.search(r'(^|[.])n[OED]!', y.decl().name()): r = True
            st.extend(y.children())
    _MC[k] = (x, r)
    return r


def formulas(o, W, rounds=2, cap=6000, sel=None, narrow=False, nocounts=False, owners=None):
    """quantifier-free formula list, unsatisfiable only if the obligation is shown by this instantiation (sel: indices of the facts used)"""
    st = o.hyps
    terms = {k: list(v) for k, v in st.terms.items()}
    ids = {k: set(t.get_id() for t in v) for k, v in terms.items()}

    def add(dom, t):
        t = simp(t)
        if t.get_id() not in ids.setdefault(dom, set()):
            ids[dom].add(t.get_id()); terms.setdefault(dom, []).append(t)
    g = o.goal
    own = {}
    if isinstance(g, Q):
        sk = [skolem(d, k) for k, d in enumerate(g.doms)]
        f, ex = parts(g.fn(*sk))
        for d, t in list(zip(g.doms, sk)) + list(ex) + list(g.gex(*sk) if g.gex is not None else []):
            add(d, t)
            own.setdefault(d, []).append(z3.simplify(t))
    else: f = g
    if narrow and not own: raise Unsupported('no goal terms')
    pc = list(st.pc)
    if nocounts: pc = [x for x in conjuncts(pc) if not mentions_counts(x)]
    out = pc + [z3.Not(f)]
    done = set()
    n = 0
    facts = [(k, st.facts[k]) for k in (sel if sel is not None else range(len(st.facts))) if not (nocounts and st.facts[k].name == 'counts')]
    for r in range(rounds):
        snapshot = {k: list(v) for k, v in terms.items()}
        new = []
        for qi, q in facts:
            for tup in itertools.product(*[(own if narrow and len(q.doms) > 1 else snapshot).get(d, []) for d in q.doms]):
                key = (qi,) + tuple(t.get_id() for t in tup)
                if key in done: continue
                done.add(key)
                if q.guard is not None and not q.guard(*tup): continue
                f, ex = instance(q, tup)
                new.append(f); n += 1
                if owners is not None: owners.append(qi)
                if r < rounds - 1:
                    for d, t in ex: add(d, t)
                if n > (cap if W else 25000): raise Unsupported('too many instances in %s: %s' % (o.fn, o.name))
        out += new
        if all(len(snapshot.get(k, [])) == len(v) for k, v in terms.items()): break
    if W: out += probe_axioms(out, W, st.g.get('align', False))
    return out, n


def solve_int(fs, ms):
    g = toint.translate(fs)
    s = z3.SimpleSolver() if ms < 0 else z3.Solver()
    s.set('timeout', abs(ms))
    s.add(*g)
    return str(s.check())


def solve_bv(fs, ms):
    try: s = z3.SolverFor('QF_AUFBV'); s.set('timeout', ms); s.add(*fs); return str(s.check())
    except z3.Z3Exception: pass
    s = z3.Solver(); s.set('timeout', ms); s.add(*fs)
    return str(s.check())


def consts_in(fs, names):
    seen, st, out = set(), list(fs), {}
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().name() in names: out[x.decl().name()] = x
            st.extend(x.children())
    return [out[k] for k in sorted(out)]


def fact_names(facts, sel):
    """names of facts that are stable under renumbering -> {name: index}"""
    n, out = {}, {}
    for k in sel:
        x = re.sub(r'\d+', '', facts[k].name)
        n[x] = n.get(x, 0) + 1
        out['%s#%d' % (x, n[x])] = k
    return out


def core_bv(rest, owned, ms):
    s = z3.SolverFor('QF_AUFBV'); s.set('timeout', ms)
    s.add(*rest)
    lits = {}
    for who, f in owned:
        if who not in lits: lits[who] = z3.Bool('use!%d' % who)
        s.add(z3.Implies(lits[who], f))
    if s.check(*lits.values()) != z3.unsat: return None
    u = {str(x) for x in s.unsat_core()}
    return [w for w, l in lits.items() if str(l) in u]


def learn_core(o, W, mode, how, ms):
    """which facts the proof needs (only a hint for later runs)"""
    facts = o.hyps.facts
    sel = list(range(len(facts))) if mode == 'B' else latest(facts)
    owners = []
    nc = mode in 'NC'
    fs, n = formulas(o, W, sel=sel, narrow=mode == 'N', nocounts=nc, owners=owners)
    base = len(list(o.hyps.pc) if not nc else [x for x in conjuncts(o.hyps.pc) if not mentions_counts(x)]) + 1
    owned = list(zip(owners, fs[base:base + n]))
    rest = fs[:base] + fs[base + n:]
    r = rawint.core(rest, owned, ms) if how == 'f' else core_bv(rest, owned, ms)
    if r is None: return None
    names = {v: k for k, v in fact_names(facts, sel).items()}
    return sorted(names[k] for k in r if k in names)


def learn_cases(o, W, mode, ms):
    """the same for a proof by capacity cases -> [strategy, facts needed] or None"""
    facts = o.hyps.facts
    sel = list(range(len(facts))) if mode == 'B' else latest(facts)
    owners = []
    nc = mode in 'NC'
    fs, n = formulas(o, W, sel=sel, narrow=mode == 'N', nocounts=nc, owners=owners)
    npc = len(list(o.hyps.pc) if not nc else [x for x in conjuncts(o.hyps.pc) if not mentions_counts(x)])
    base = npc + 1
    need = set()
    for name, combo, gs in case_list(fs, o, W, npc):
        owned, rest = list(zip(owners, gs[base:base + n])), gs[:base] + gs[base + n:]
        r = None
        for k in 'bf':
            try: r = core_bv(rest, owned, ms) if k == 'b' else rawint.core(rest, owned, ms)
            except Exception: r = None
            if r is not None: break
        if r is None: return None
        need |= set(r)
    names = {v: k for k, v in fact_names(facts, sel).items()}
    need = sorted(need)
    fs, n = formulas(o, W, sel=need, narrow=mode == 'N', nocounts=nc)
    for k in 'bfi':
        t0 = time.time()
        if run_solver(k, fs, 3000) == 'unsat': return [mode + k, sorted(names[x] for x in need)]
    r, _, plan = cases(fs, o, W, ms, npc)
    return [mode + 'c' + plan, sorted(names[x] for x in need)] if r == 'unsat' else None


class Hyp:
    """formula sets of an obligation, from few to all hypotheses; leaving hypotheses out is sound"""
    def __init__(self, o, W): self.o, self.W, self.d, self.why = o, W, {}, ''
    MODES = 'NCAB'

    def get(self, m):
        if m in self.d: return self.d[m]
        o, r = self.o, None
        sel = latest(o.hyps.facts)
        multi = isinstance(o.goal, Q) and len(o.goal.doms) > 1
        ok = {'N': multi, 'C': True, 'A': True, 'B': len(sel) != len(o.hyps.facts)}[m]
        if ok:
            try: r = formulas(o, self.W, sel=None if m == 'B' else sel, narrow=m == 'N', nocounts=m in 'NC')
            except Unsupported as e: self.why = str(e)
        if m == 'C' and r is not None and mentions_counts(r[0][self.npc(r[0])]): r = None
        self.d[m] = r
        return r

    def npc(self, fs):
        # the negated goal follows the path condition
        return len([x for x in conjuncts(self.o.hyps.pc) if not mentions_counts(x)])


def solve_fast(fs, ms):
    return rawint.check(fs, ms)


def run_solver(k, fs, ms):
    return {'f': lambda: solve_fast(fs, ms), 'i': lambda: solve_int(fs, ms), 's': lambda: solve_int(fs, -ms), 'b': lambda: solve_bv(fs, ms)}[k]()


NAMES = {'f': 'z3 (integer encoding)', 'i': 'z3 (integer encoding)', 's': 'z3 (integer encoding)', 'b': 'z3 (bit-vectors)', 'c': 'z3 (capacity cases)'}


def case_list(fs, o, W, npc):
    caps = consts_in(fs, {str(c) for c in o.hyps.terms.get('cap', [])})
    small = [k for k in (0, 1, 3, 7) if k < W - 1]
    for combo in itertools.product(*[small + [None]] * len(caps)):
        gs = fs
        sub = [(c, bv(k)) for c, k in zip(caps, combo) if k is not None]
        if sub: gs = [z3.substitute(f, *sub) for f in gs]
        gs = gs + [z3.UGE(c, W - 1) for c, k in zip(caps, combo) if k is None]
        if sub and z3.is_false(z3.simplify(z3.And(*gs[:npc]))): continue
        yield ', '.join('%s = %s' % (c, k) for c, k in zip(caps, combo)), combo, gs


def cases(fs, o, W, ms, npc, plan=None):
    """split by the small capacities -> (result, failing case, plan)"""
    caps = consts_in(fs, {str(c) for c in o.hyps.terms.get('cap', [])})
    if not caps: return 'unknown', '', ''
    used = ''
    for k, (name, combo, gs) in enumerate(case_list(fs, o, W, npc)):
        order = [('b', min(ms, 4000)), ('i', ms), ('b', ms)] if None not in combo else [('i', ms), ('s', ms), ('b', ms)]
        if plan is not None:
            if k >= len(plan): return 'unknown', name, ''
            order = [(plan[k], ms)]
        r = 'unknown'
        for x, t in order:
            if x == 's' and r == 'sat': continue
            r = run_solver(x, gs, t)
            if r == 'unsat': used += x; break
        if r != 'unsat': return r, name, ''
    return 'unsat', '', used


def discharge(o, W, ms=30000, hint=None):
    """-> (status, backend, seconds, instances, strategy)"""
    t0 = time.time()
    if o.goal is None: return ('proved', 'syntactic', 0.0, 0, '')
    el = lambda: time.time() - t0
    if getattr(o, 'pure', False):     # no quantified facts, bit-vectors only
        fs = list(o.hyps.pc) + [z3.Not(o.goal)]
        r = solve_bv(fs, ms)
        return ({'unsat': 'proved', 'sat': 'failed', 'unknown': 'undecided'}[r], NAMES['b'], el(), 0, '')
    H = Hyp(o, W)
    if isinstance(hint, list):         # [strategy, facts needed]
        hint, need = hint
        try:
            nm = fact_names(o.hyps.facts, list(range(len(o.hyps.facts))) if hint[0] == 'B' else latest(o.hyps.facts))
            if all(x in nm for x in need):
                fs, n = formulas(o, W, sel=sorted(nm[x] for x in need), narrow=hint[0] == 'N', nocounts=hint[0] in 'NC')
                if hint[1:2] == 'c':
                    npc = len(o.hyps.pc) if hint[0] not in 'NC' else len([x for x in conjuncts(o.hyps.pc) if not mentions_counts(x)])
                    if cases(fs, o, W, min(ms, 12000), npc, hint[2:])[0] == 'unsat': return ('proved', NAMES['c'], el(), n, [hint, need])
                elif run_solver(hint[1], fs, min(ms, 8000)) == 'unsat': return ('proved', NAMES[hint[1]], el(), n, [hint, need])
        except Unsupported: pass
    if hint:
        x = H.get(hint[0])
        if x:
            fs, n = x
            if hint[1] == 'z':
                if z3.is_false(z3.simplify(z3.And(*fs))): return ('proved', 'z3 simplifier', el(), n, hint)
            elif hint[1] == 'c':
                if cases(fs, o, W, ms, min(len(o.hyps.pc), H.npc(fs)), hint[2:])[0] == 'unsat': return ('proved', NAMES['c'], el(), n, hint)
            elif run_solver(hint[1], fs, ms) == 'unsat': return ('proved', NAMES[hint[1]], el(), n, hint)
    sets = []
    for m in H.MODES:
        x = H.get(m)
        if x is None: continue
        fs, n = x
        sets.append((m, fs, n))
        if z3.is_false(z3.simplify(z3.And(*fs))): return ('proved', 'z3 simplifier', el(), n, m + 'z')
        if not W:
            if run_solver('f', fs, min(ms, 3000)) == 'unsat': return ('proved', NAMES['f'], el(), n, m + 'f')
            continue
        if run_solver('f', fs, min(ms, 2500)) == 'unsat': return ('proved', NAMES['f'], el(), n, m + 'f')
        if run_solver('i', fs, min(ms, 2500)) == 'unsat': return ('proved', NAMES['i'], el(), n, m + 'i')
        if len(fs) < 3000 and run_solver('b', fs, min(ms, 4000)) == 'unsat': return ('proved', NAMES['b'], el(), n, m + 'b')
    case, r = '', 'unknown'
    for k, (m, fs, n) in enumerate(sets if not W else []):
        for b in 'fb':
            r = run_solver(b, fs, ms if b == 'f' or k == len(sets) - 1 else min(ms, 6000))
            if r == 'unsat': return ('proved', NAMES[b], el(), n, m + b)
    for k, (m, fs, n) in enumerate(sets if W else []):
        r, case, plan = cases(fs, o, W, ms if k == len(sets) - 1 or m == 'N' else min(ms, 8000), min(len(o.hyps.pc), H.npc(fs)))
        if r == 'unsat': return ('proved', NAMES['c'], el(), n, m + 'c' + plan)
    for m, fs, n in sets if W else []:
        if run_solver('b', fs, min(ms, 10000)) == 'unsat': return ('proved', NAMES['b'], el(), n, m + 'b')
    if not sets: return ('undecided: ' + H.why, '', el(), 0, '')
    return ({'sat': 'failed', 'unknown': 'undecided'}[r] + (' [%s]' % case if case else ''), 'z3', el(), sets[-1][2], '')


_OBL = None


def _work(k):
    obls, W, ms, hints = _OBL
    try: return k, discharge(obls[k], W, ms, hints.get(obls[k].key))
    except Exception as e: return k, ('undecided: %s' % str(e)[:200], '', 0.0, 0, '')


def keys(obls):
    """stable names of obligations: unit, text, occurrence"""
    n = {}
    for o in obls:
        k = o.fn + ': ' + o.name
        n[k] = n.get(k, 0) + 1
        o.key = '%s #%d' % (k, n[k])


def discharge_all(obls, W, ms=30000, procs=8, cb=None, hints=None):
    """parallel discharge; -> list of results"""
    global _OBL
    import multiprocessing as mp
    keys(obls)
    hints = hints or {}
    _OBL = (obls, W, ms, hints)
    res = [None] * len(obls)
    todo = []
    for k, o in enumerate(obls):
        if o.goal is None: res[k] = ('proved', 'syntactic', 0.0, 0, '')
        else: todo.append(k)
    todo.sort(key=lambda k: 'c' not in hints.get(obls[k].key, 'c'))
    if todo:
        with mp.get_context('fork').Pool(min(procs, len(todo))) as p:
            for k, r in p.imap_unordered(_work, todo):
                res[k] = r
                if cb: cb(obls[k], r)
    return res
