"""Contracts of the public operations of the open-addressing containers (driver swiss.cpp)."""
from swissops import *
from sym import _cnt


class EraseNodes(Contract):
    name = 'erase_nodes'

    def __init__(self, sw): self.sw = sw
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'old': Snap(self.sw, st, args[0].r)}
    def pre(self, ctx, st, a): return self.sw.inv_goals(st, a['T'])

    def havoc(self, ctx, st, a):
        sw, T, o = self.sw, a['T'], a['old']
        st.mem[(T.name, sw.o_size, 64)] = bv(0)
        if o.m is not None: self.sw.clear_life(ctx, st, o.n); self.sw.havoc_cells(ctx, st, False)
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        sw, T, o = self.sw, a['T'], a['old']
        l = [('the size is zero', sw.t_size(st, T) == 0, ('C03', 'C06', 'C07'))]
        if o.m is not None:
            if ctx.proving is self:
                l.append(('the buffers stay', z3.BoolVal(sw.t_meta(st, T) is o.m and sw.t_nodes(st, T) is o.n and sw.t_cap(st, T).eq(o.cap)), ('C07', 'C12')))
                l.append(('bookkeeping is not changed', z3.BoolVal(st.mem[(o.m.name, 0, 8)].eq(o.st.mem[(o.m.name, 0, 8)])), ('C12',)))
            l.append(('every element is destroyed', sw.none_alive(st, o.n, o.cap, o.m.grp), ('C07',)))
            l += sw.frame(o.st, st, [o.n], [])
        return l


class EraseLoop(LoopSpec):
    name = 'destruction loop'

    def __init__(self, sw): self.sw = sw

    def start(self, ctx, f, st, entry, h):
        c = const_entry(None, entry, 0)
        o = ctx.unit['old']
        self.down = False
        if len(c) != 1 and o.m is not None:
            c = [d for d, v in entry.items() if z3.is_bv(v) and v.size() == 64 and z3.simplify(v).eq(z3.simplify(o.cap))]
            self.down = True
        if len(c) != 1: raise Unsupported('destruction loop not recognised')
        self.i = c[0]

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        o, i = a['old'], ph[self.i]
        if o.m is None: return [('nothing to do', i == 0, ())]
        st.term(('slot', o.m.grp), i); st.term(('raw', o.m.grp), i)
        return [('position', z3.ULE(i, o.cap), ('C12', 'C07'))] + [('remaining ' + nm, q, ('C07',)) for nm, q in sw.life(st, o.m, o.n, o.cap, lambda s: z3.And(z3.ULT(s, i) if self.down else z3.ULE(i, s), o.occ(s)))] + sw.frame(o.st, st, [o.n], [o.n])

    def measure(self, ctx, st, ph, entry): return ph[self.i] if self.down else ~ph[self.i]


def sum3(sw, st, m): return sw.cnt(st, m, 'nO') + sw.cnt(st, m, 'nE') + sw.cnt(st, m, 'nD')


class CopyData(Contract):
    """copy_data / move_data: T has no elements, its metadata may be stale"""
    def __init__(self, sw, move): self.sw, self.move, self.name = sw, move, 'move_data' if move else 'copy_data'
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'O': args[1].r, 'old': Snap(self.sw, st, args[0].r), 'src': Snap(self.sw, st, args[1].r)}

    def pre(self, ctx, st, a):
        sw, T, O, o = self.sw, a['T'], a['O'], a['old']
        l = [('the source %s' % nm, q, tg) for nm, q, tg in sw.inv_goals(st, O)]
        l.append(('two different tables', z3.BoolVal(T is not O and (o.m is None or o.m is not a['src'].m)), ('C06', 'C12')))
        if o.m is None: l.append(('the destination is empty', conj(z3.BoolVal(o.n is None), o.size == 0, o.cap == 0), ('C06', 'C12')))
        else:
            o.n.grp = o.m.grp
            f = fz(st)
            l += [('the destination is empty', conj(o.size == 0, pow2m1(o.cap), o.m.n == o.cap + sw.W, o.n.n == o.cap), ('C06', 'C12')),
                  ('the counters of the destination', conj(sum3(sw, st, o.m) == o.cap, *[z3.ULE(sw.cnt(st, o.m, c), o.cap) for c in ('nO', 'nE', 'nD')]), ('C06',)), ('the metadata mirror of the destination', sw.f_shape(st, o.m, o.cap), ('C06', 'C12')),
                  ('no element is overwritten', sw.none_alive(st, o.n, o.cap, o.m.grp), ('C07',))]
        return l

    def havoc(self, ctx, st, a):
        sw, T, o, src = self.sw, a['T'], a['old'], a['src']
        # the buffers may have been replaced
        if o.m is not None: st.live[o.m.name] = st.live[o.n.name] = False
        cap = fresh('capacity', B64)
        if o.m is None and src.m is None: return [(st, None)]
        outs = []
        if o.m is None:      # an empty source leaves a table without buffers alone
            s2 = st.copy(); s2.add(src.size == 0)
            outs.append((s2, None))
            st.add(src.size != 0)
        st.mem[(T.name, sw.o_cap, 64)] = cap
        st.term('cap', cap)
        sw.fresh_buffers(ctx, st, T, cap)
        for k in (sw.o_size, sw.o_ne): st.mem[(T.name, k, 64)] = fresh('num', B64)
        if self.move and src.m is not None:
            self.havoc_src(ctx, st, a)
        sw.havoc_cells(ctx, st, False)
        outs.append((st, None))
        for s, r in outs:
            sw.assume_inv(ctx, s, T)
            if self.move: sw.assume_inv(ctx, s, a['O'])
        return outs

    def havoc_src(self, ctx, st, a):
        sw, O, src = self.sw, a['O'], a['src']
        for k in list(st.mem):
            if k[0] in (src.m.name, src.n.name): st.mem[k] = ctx.havoc_like(st.mem[k], '%s.%s' % (k[0], k[1]))
        for k in (sw.o_size, sw.o_ne): st.mem[(O.name, k, 64)] = fresh('num', B64)

    def post(self, ctx, st0, st, ret, a):
        sw, T, O = self.sw, a['T'], a['O']
        new, src = Snap(sw, st, T), a['src']
        l = []
        if ctx.proving is self:
            l += sw.inv(st, T)
            if self.move: l += [('the source: ' + nm, q, tg) for nm, q, tg in sw.inv(st, O)]
        l += [('the size is that of the source', new.size == src.size, ('C03', 'C06')), ('the elements are those of the source', q_same(src, new), ('C06', 'C01'))]
        if self.move: l.append(('the source is empty', sw.t_size(st, O) == 0, ('C06', 'C03')))
        l += sw.frame(a['old'].st, st, [a['old'].n], [new.n])
        return l

    def finish(self, ctx, st, a):
        """counting: pointwise equal metadata has equal counts"""
        sw, T, src = self.sw, a['T'], a['src']
        new = Snap(sw, st, T)
        if new.m is None or src.m is None: return
        m0, m1 = src.st.mem[(src.m.name, 0, 8)], st.mem[(new.m.name, 0, 8)]
        eq = Q('metadata copied', [('slot', new.m.grp)], lambda s: (z3.Implies(z3.ULT(s, new.cap), z3.Select(m1, s) == z3.Select(m0, s)), [(('slot', src.m.grp), s), (('raw', src.m.grp), s), (('raw', new.m.grp), s)]))
        if ctx.dry: return
        if st.g.get('@copied') is None: return
        for c in ('nO', 'nE', 'nD'): st.mem[(new.m.name, c)] = fresh(c, B64)
        st.term(('slot', new.m.grp), bv(0))
        ctx.oblige(st, eq, 'the metadata equals that of the source', ('C06', 'C03', 'C12'))
        st.add(eq)
        for c in ('nO', 'nE', 'nD'): st.add(st.mem[(new.m.name, c)] == src.st.mem[(src.m.name, c)])
        sw.witness(st, new.m, new.cap)


class CopyLoop(LoopSpec):
    name = 'copying loop'

    def __init__(self, sw, move): self.sw, self.move = sw, move

    def start(self, ctx, f, st, entry, h):
        c = const_entry(None, entry, 0)
        if len(c) != 1: raise Unsupported('copying loop not recognised')
        self.i = c[0]
        sw, a = self.sw, ctx.unit
        st.g['@copied'] = True
        m, n = sw.t_meta(st, a['T']), sw.t_nodes(st, a['T'])
        if m is not None: n.grp = m.grp

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        T, src, i = a['T'], a['src'], ph[self.i]
        if src.m is None: return [('nothing to do', i == 0, ())]
        m, n, cap = sw.t_meta(st, T), sw.t_nodes(st, T), sw.t_cap(st, T)
        if m is None: return [('the destination has buffers', z3.BoolVal(False), ('C12',))]
        st = fz(st)
        sg, dg = ('slot', src.m.grp), ('slot', m.grp)
        for g in (src.m.grp, m.grp):
            st.term(('slot', g), i); st.term(('raw', g), i)
        raw0 = lambda s: sw.raw(src.st, src.m, s)
        both = lambda s: [(sg, s), (dg, s), (('raw', m.grp), s), (('raw', src.m.grp), s)] + sw.exs(st, n, s) + sw.exs(src.st, src.n, s)

        def meta(s): return z3.Implies(z3.ULT(s, cap), sw.raw(st, m, s) == z3.If(z3.ULT(s, i), raw0(s), bv(EMPTY, 8))), both(s)

        def mir(q):
            b = sw.raw(st, m, q)
            return z3.Implies(z3.ULT(q, cap + sw.W), conj(z3.Implies(q == cap, b == bv(SENT, 8)),
                              z3.Implies(z3.And(q != cap, z3.ULE(q, 2 * cap)), b == sw.raw(st, m, q & cap)),
                              z3.Implies(z3.UGT(q, 2 * cap), b == bv(EMPTY, 8))))

        def elem(s):
            src_occ = z3.And(z3.ULT(s, cap), occ(raw0(s)))
            o = src.st
            kv = sw.keyv(st, n, s) == sw.keyv(o, src.n, s)
            l = [kv, sw.hashv(st, n, s) == sw.hashv(o, src.n, s), sw.cur(st, n, cls(sw.keyv(o, src.n, s))) == s]
            if sw.is_map: l.append(sw.mapv(st, n, s) == sw.mapv(o, src.n, s))
            return z3.Implies(z3.And(z3.ULT(s, i), src_occ), conj(*l)), both(s)

        l = [('position', conj(z3.ULE(i, cap), cap == src.cap, m.n == cap + sw.W, n.n == cap), ('C12', 'C06')),
             ('copied metadata', Q('copied metadata', [dg], meta), ('C06', 'C12', 'C01')), ('metadata mirror', Q('mirror', [('raw', m.grp)], mir, gex=lambda q: [(('raw', m.grp), q & cap), (('slot', m.grp), q & cap)]), ('C01', 'C12', 'C06')),
             ('copied elements', Q('copied elements', [dg], elem), ('C06', 'C01')), *[(nm, q, ('C07',)) for nm, q in sw.life(st, m, n, cap, lambda s: z3.And(z3.ULT(s, i), occ(raw0(s))), both)], *sw.frame(a['old'].st, st, [a['old'].n], [n])]
        if self.move:
            if sw.stable: raise Unsupported('element-wise move of a node-based table')
            def rest(s):
                l = [sw.hashv(st, src.n, s) == sw.hashv(src.st, src.n, s), sw.keyv(st, src.n, s) == sw.keyv(src.st, src.n, s)]
                if sw.is_map: l.append(sw.mapv(st, src.n, s) == sw.mapv(src.st, src.n, s))
                al = sw.alive_are(st, src.n, s, z3.And(z3.ULE(i, s), occ(raw0(s))))
                return z3.Implies(z3.ULT(s, src.cap), conj(z3.Implies(z3.ULE(i, s), conj(*l)), al)), both(s)
            l.append(('remaining elements', Q('remaining elements', [sg], rest), ('C06', 'C07')))
        return l

    def measure(self, ctx, st, ph, entry): return ~ph[self.i] if ctx.unit['src'].m is not None else None


class MergeLoop(LoopSpec):
    """merge: the elements of the source are visited in slot order"""
    name = 'merging loop'

    def __init__(self, sw, e): self.sw, self.e = sw, e

    def start(self, ctx, f, st, entry, h):
        sw, e = self.sw, self.e
        self.T, self.O = e.tabs
        self.t1, self.o1 = Snap(sw, st, self.T), Snap(sw, st, self.O)
        self.rec = None
        defs = {o.d: o for b in f.blocks.values() for o in b if o.d} if hasattr(f.blocks, 'values') else {}
        for o in f.blocks[h]:           # the iterator that the loop condition looks at
            if o.op != 'load': continue
            v = o.a[0][1] if o.a and o.a[0][0] == 'v' else None
            while v in defs and defs[v].op in ('getelementptr', 'bitcast') and v not in self.env: v = defs[v].a[0][1]
            p = self.env.get(v)
            if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'rec' and p.r.name not in (self.T.name, self.O.name): self.rec = p.r.name; break
        self.ph = [d for d, v in entry.items() if isinstance(v, Ptr) and v.r in (self.o1.m, self.o1.n)]
        if self.rec is None and not self.ph: raise Unsupported('merging loop not recognised')
        o = self.o1
        if o.m is None: return
        self.pre = z3.Function('prefix!%d' % next(_cnt), B64, B64)
        self.r0 = o.st.mem[(o.m.name, 0, 8)]
        st.add(self.pre(bv(0)) == 0, self.pre(o.cap) == o.size)
        if self.t1.m is not None: self.t1.n.grp = self.t1.m.grp

    def its(self, st, ph):
        l = [ph[d] for d in self.ph]
        if self.rec is not None: l += [st.mem.get((self.rec, 0, 64)), st.mem.get((self.rec, 8, 64))]
        return l

    def pos(self, st, ph):
        for p in self.its(st, ph):
            if isinstance(p, Ptr) and p.r in (self.o1.m, self.o1.n) and p.r is not None: return p.i
        return None

    def havoc(self, ctx, st):
        for T, s in ((self.T, self.t1), (self.O, self.o1)):
            if s.m is not None: self.sw.witness(st, s.m, self.sw.t_cap(st, T))

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, T, O, t1, o1 = self.sw, self.T, self.O, self.t1, self.o1
        C9 = ('C09', 'C12')
        if o1.m is None: return [('there is nothing to merge', z3.BoolVal(all(isinstance(x, Ptr) and x.r is None for x in self.its(st, ph) if x is not None)), C9)]
        if sw.t_meta(st, T) is not t1.m or sw.t_nodes(st, T) is not t1.n or sw.t_meta(st, O) is not o1.m or sw.t_nodes(st, O) is not o1.n:
            return [('the reserved room is enough', z3.BoolVal(False), C9)]
        p = self.pos(st, ph)
        if p is None: return [('the iterator stays in the source', z3.BoolVal(False), C9)]
        t, o = Snap(sw, st, T), Snap(sw, st, O)
        for g in {o1.m.grp} | ({t1.m.grp} if t1.m is not None else set()): st.term(('slot', g), p); st.term(('raw', g), p)
        c0 = cls(sw.keyv(o1.st, o1.n, p)); st.term('key', c0)
        st.term('key', cls(sw.keyv(st, o.n, p)))
        for d, x in sw.exs(o1.st, o1.n, p): st.term(d, x)
        pre = self.pre
        # definitional instances and monotonicity of the counts of occupied slots
        st.add(z3.Implies(z3.ULT(p, o1.cap), pre(p + 1) == pre(p) + z3.If(occ(z3.Select(self.r0, p)), bv(1), bv(0))), z3.Implies(z3.ULE(p, o1.cap), z3.ULE(pre(p), o1.size)),
               z3.Implies(z3.And(z3.ULT(p, o1.cap), occ(z3.Select(self.r0, p))), z3.ULT(pre(p), o1.size)))
        q = getattr(self, 'last', None)
        if q is not None: st.add(z3.Implies(z3.And(z3.ULT(q, p), z3.ULE(p, o1.cap)), z3.ULE(pre(q + 1), pre(p))))
        ptrs = [st.mem[(X.name, k, 64)] for X, s in ((T, t1), (O, o1)) if s.m is not None for k in (sw.o_meta, sw.o_nodes)]
        l = [('position', conj(z3.ULE(p, o1.cap), *[x.i == p for x in self.its(st, ph) if isinstance(x, Ptr)], *[x.i == 0 for x in ptrs], z3.Implies(p != o1.cap, o.occ(p)), z3.Implies(p != o1.cap, o1.occ(p))), C9),
             ('the source stays in place', conj(o.cap == o1.cap, o.m.n == o1.m.n), C9)]
        if t1.m is not None: l.append(('the reserved room is enough', conj(t.cap == t1.cap, z3.ULE(o1.size - pre(p), t.ne)), C9))
        l += [('the destination: ' + nm, x, tg) for nm, x, tg in sw.inv(st, T)] + [('the source: ' + nm, x, tg) for nm, x, tg in sw.inv(st, O)]

        def content(c):
            seen = z3.And(o1.has(c), z3.ULT(o1.pos(c), p))
            a = conj(t.has(c) == z3.Or(t1.has(c), seen), z3.Implies(t1.has(c), t.elem(t.pos(c)) == t1.elem(t1.pos(c))) if t1.m is not None else None,
                     z3.Implies(z3.And(z3.Not(t1.has(c)), seen), t.elem(t.pos(c)) == o1.elem(o1.pos(c))) if t.m is not None else None)
            b = conj(o.has(c) == z3.And(o1.has(c), z3.Or(z3.ULE(p, o1.pos(c)), t1.has(c))), z3.Implies(o.has(c), conj(o.pos(c) == o1.pos(c), o.elem(o.pos(c)) == o1.elem(o1.pos(c)))))
            return z3.And(a, b), t.terms(c) + o.terms(c) + t1.terms(c) + o1.terms(c)
        l.append(('elements visited so far are in the destination, conflicting ones stay', Q('merged', ['key'], content), ('C09', 'C08')))
        l += sw.frame(t1.st, st, [t1.n, o1.n], [t1.n, o1.n], True)
        return l

    def step(self, ctx, f, st, old, new, entry):
        h = list(st.g['@hdr'].values())[-1]
        self.last = self.pos(h[0], h[1]) if self.o1.m is not None else None

    def measure(self, ctx, st, ph, entry):
        p = self.pos(st, ph)
        return ~p if p is not None and self.o1.m is not None else None


# ------------------------------------------------------------------ operations
class Op:
    """one operation of the driver; tables: names of the table arguments"""
    def __init__(self, name, tables, variants, build, tags=()):
        self.name, self.tables, self.variants, self.build, self.tags = name, tables, variants, build, tags


class Env:
    """state of the proof of one operation"""
    def __init__(self, ctx, sw, st, variant):
        self.ctx, self.sw, self.st, self.variant = ctx, sw, st, variant
        self.tabs, self.args, self.old, self.handles, self.nodes, self.loop = [], [], {}, [], [], None

    def table(self, name, ro=False, null=None):
        v = self.variant.split('/')
        if null is None: null = v[len(self.tabs)] == 'null'
        p = self.sw.table(self.ctx, self.st, name, null=null, ro=ro)
        self.sw.assume_inv(self.ctx, self.st, p.r)
        self.tabs.append(p.r); self.args.append(p)
        self.old[p.r] = Snap(self.sw, self.st, p.r)
        return p.r

    def uninit(self, name):
        T = Region(name, 'rec', self.sw.T_size, meta={'table': True, 'strict': True}); self.st.regs[name] = T; self.st.live[name] = True
        self.tabs.append(T); self.args.append(Ptr(T, None, 0))
        return T

    def key(self, name='key', ro=True):
        p = self.sw.arg_obj(self.ctx, self.st, name, ro); self.args.append(p)
        v = self.st.mem[(name, 'v', 0)]
        for o in self.old.values():
            for d, t in o.terms(cls(v)): self.st.term(d, t)
        return v

    def pair(self, name, ro=True):
        """argument of insert"""
        r = Region(name, 'rec', 8 * len(self.sw.objs), meta={'ro': ro}); self.st.regs[name] = r; self.st.live[name] = True
        vs = []
        for k in range(len(self.sw.objs)):
            self.st.mem[(name, 'v', 8 * k)] = fresh(name, V); self.st.mem[(name, 'al', 8 * k)] = z3.BoolVal(True)
            vs.append(self.st.mem[(name, 'v', 8 * k)])
        self.args.append(Ptr(r, None, 0))
        self.st.term('key', cls(vs[0]))
        for o in self.old.values():
            for d, t in o.terms(cls(vs[0])): self.st.term(d, t)
        return vs + [None] * (2 - len(vs))

    def num(self, name='n'):
        x = fresh(name, B64); self.args.append(x); return x

    def out(self, name='out'):
        p = self.sw.out_rec(self.ctx, self.st, name, 16); self.args.append(p); return p.r

    def node(self, name, full=True):
        """a node handle (full: holding an element, None: possibly)"""
        sw, st = self.sw, self.st
        p = sw.out_rec(self.ctx, st, name, 8); self.args.append(p)
        i = fresh(name, B64)
        st.mem[(name, 0, 64)] = Ptr(st.regs['cells'], i, 0)
        al = conj(sw.blk(st, i), sw.ow(st, i) == 0, *[z3.Select(st.mem[('cells', 'al', o)], i) for o in sw.objs])
        st.add(z3.And(i != 0, al) if full else z3.Implies(i != 0, al))
        st.term(('slot', 'cells'), i)
        for h in self.handles: st.add(z3.Or(i == 0, i != h))
        self.handles.append(i); self.nodes.append(name)
        vs = [z3.Select(st.mem[('cells', 'v', o)], i) for o in sw.objs]
        c = cls(vs[0]); st.term('key', c)
        for o in self.old.values():
            for d, t in o.terms(c): st.term(d, t)
        return [i] + vs

    def no_node(self, name):
        self.nodes.append(name)
        p = self.sw.out_rec(self.ctx, self.st, name, 8); self.args.append(p)
        return p.r

    def held(self, s):
        """elements in the handles"""
        l = [s.mem.get((n, 0, 64)) for n in self.nodes]
        return [x.i for x in l if isinstance(x, Ptr) and x.r is not None]

    def iter_arg(self, T, name='it', end_ok=True):
        """a valid iterator into T"""
        sw, st = self.sw, self.st
        p = sw.out_rec(self.ctx, st, name, 16); self.args.append(p)
        p.r.x['ro'] = True
        o = self.old[T]
        q = fresh(name, B64)
        sw.set_iter(st, p.r, o, q)
        if o.m is None: return q
        st.add(z3.ULE(q, o.cap))
        st.add(z3.Implies(q != o.cap, occ(sw.raw(st, o.m, q))) if end_ok else z3.And(q != o.cap, occ(sw.raw(st, o.m, q))))
        st.term(('slot', o.m.grp), q); st.term(('raw', o.m.grp), q)
        return q


def first_occ(new, p, q, name='skipped'):
    """q is the first occupied slot at or after p, or the capacity"""
    if new.m is None: return [('the end is returned', q == 0, None)]
    g = new.m.grp
    return [('the iterator names a stored element or the end', conj(z3.ULE(p, q), z3.ULE(q, new.cap), z3.Implies(q != new.cap, new.occ(q))), None),
            ('no element is skipped', Q(name, [('slot', g)], lambda s: (z3.Implies(conj(z3.ULE(p, s), z3.ULT(s, q)), z3.Not(new.occ(s))), [(('raw', g), s)])), None)]


def ops(sw):
    """-> {name: Op}"""
    M = sw.is_map
    R = {}

    def op(name, tables=('T',), variants=('buf', 'null')):
        def deco(f): R[name] = Op(name, tables, variants, f)
        return deco

    def T0(e, ro=False): return e.table('T', ro)

    # -------------------------------------------------- lookup
    @op('op_contains')
    def _(e):
        T = T0(e, True); k = e.key()
        return lambda s, r: [('the result says whether the key is stored', to_bool(r) == e.old[T].has(cls(k)), ('C01',))] + unchanged(e, s, T)

    def find(e):
        T = T0(e, True); k = e.key(); o = e.out()
        return lambda s, r: at_iter(e, s, T, o, e.old[T].posn(cls(k)), ('C01', 'C03')) + unchanged(e, s, T)
    op('op_find')(find); op('op_cfind')(find)

    @op('op_size')
    def _(e):
        T = T0(e, True)
        return lambda s, r: [('size', r == e.old[T].size, ('C03',))] + unchanged(e, s, T)

    @op('op_empty')
    def _(e):
        T = T0(e, True)
        return lambda s, r: [('empty', to_bool(r) == (e.old[T].size == 0), ('C03',))] + unchanged(e, s, T)

    @op('op_bucket_count')
    def _(e):
        T = T0(e, True)
        return lambda s, r: [('bucket count', r == e.old[T].cap, ('C10',))] + unchanged(e, s, T)

    @op('op_capacity')
    def _(e):
        T = T0(e, True)
        return lambda s, r: [('capacity', r == sw.maxsize(e.old[T].cap), ('C10',))] + unchanged(e, s, T)

    # -------------------------------------------------- iteration
    def begin(e):
        T = T0(e, True); o = e.out()

        def post(s, r):
            q, l = sw.get_iter(s, o, e.old[T])
            return retag(l, ('C03',)) + retag(first_occ(e.old[T], bv(0), q) if q is not None else [], ('C03',)) + unchanged(e, s, T)
        return post
    op('op_begin')(begin); op('op_cbegin')(begin)

    def end(e):
        T = T0(e, True); o = e.out()
        return lambda s, r: at_iter(e, s, T, o, e.old[T].cap, ('C03',)) + unchanged(e, s, T)
    op('op_end')(end); op('op_cend')(end)

    @op('op_next', variants=('buf',))
    def _(e):
        T = T0(e, True); e.args.clear(); q0 = e.iter_arg(T, 'it', end_ok=False)
        it = e.args[0].r; it.x['ro'] = False

        def post(s, r):
            q, l = sw.get_iter(s, it, e.old[T])
            return retag(l, ('C03',)) + retag(first_occ(e.old[T], q0 + 1, q) if q is not None else [], ('C03', 'C14')) + unchanged(e, s, T)
        return post

    @op('op_ieq')
    def _(e):
        T = T0(e, True); e.args.clear(); a = e.iter_arg(T, 'a'); b = e.iter_arg(T, 'b')
        return lambda s, r: [('iterators are equal if they name the same position', to_bool(r) == (a == b), ('C03',))]

    def deref(k):
        def f(e):
            T = T0(e, True); e.args.clear(); q = e.iter_arg(T, 'it', end_ok=False)
            return lambda s, r: elem_ptr(e, s, T, r, k, q, ('C03', 'C01'))
        return f
    op('op_key', variants=('buf',))(deref(0))
    if M: op('op_val', variants=('buf',))(deref(1))

    # -------------------------------------------------- insertion
    def insert(hint=False, how='emplace', movearg=False, ret='pair'):
        def f(e):
            T = T0(e)
            h = e.iter_arg(T, 'hint') if hint else None
            if how in ('insert',) or not M: k, v = e.pair('value', not movearg) if M else (e.key('value', not movearg), None)
            elif how == 'index': k = e.key('key', not movearg); v = DEFV
            else: k = e.key('key', not movearg); v = e.key('val', not movearg)
            o = e.out() if ret in ('pair', 'iter') else None

            def post(s, r):
                old, new = e.old[T], Snap(sw, s, T)
                c = cls(k); had = old.has(c)
                s.term('key', c)
                for d, t in new.terms(c): s.term(d, t)
                keep_k = old.keyv(c) if old.m is not None else None
                keep_v = old.mapv(c) if old.m is not None and M else None
                kv = k if keep_k is None else z3.If(had, keep_k, k)
                mv = None
                if M: mv = v if keep_v is None or how == 'assign' else z3.If(had, keep_v, v)
                l = [('exactly the key of the argument is added', q_update(old, new, c, z3.BoolVal(True), kv, mv), ('C01', 'C13', 'C15', 'C03') if hint else ('C01', 'C13', 'C03')),
                     ('the size grows by one for a new key only', new.size == old.size + z3.If(had, bv(0), bv(1)), ('C03', 'C13'))]
                l += q_ids(old, new)
                if ret == 'pair': l.append(('the result says whether the element was inserted', to_bool(r) == z3.Not(had), ('C13',)))
                if ret in ('pair', 'iter'): l += at_iter(e, s, T, o, None, ('C03', 'C13', 'C15') if hint else ('C03', 'C13'), key=c)
                else: l += elem_ptr(e, s, T, r, 1, None, ('C13', 'C03'), key=c)
                if how in ('emplace', 'insert', 'index') and old.m is not None:
                    l.append(('a present key leaves the capacity alone', z3.Implies(had, new.cap == old.cap), ('C13',)))
                if how == 'try' and movearg:
                    l.append(('arguments are left alone if the key is present', z3.Implies(had, conj(s.mem[('key', 'v', 0)] == k, s.mem[('val', 'v', 0)] == v)), ('C13',)))
                if old.m is not None and not z3.is_false(had):
                    l.append(('reserved room is used without growing', z3.Implies(z3.UGT(old.ne, 0), new.cap == old.cap), ('C10',)))
                return l + table_inv(e, s, T)
            return post
        return f
    if M:
        op('op_try_emplace')(insert(how='try')); op('op_try_emplace_m')(insert(how='try', movearg=True)); op('op_try_emplace_h')(insert(True, 'try', ret='iter'))
        op('op_emplace')(insert()); op('op_emplace_h')(insert(True, ret='iter'))
        op('op_insert_or_assign')(insert(how='assign')); op('op_insert_or_assign_m')(insert(how='assign', movearg=True)); op('op_insert_or_assign_h')(insert(True, 'assign', ret='iter'))
        op('op_index')(insert(how='index', ret='ref')); op('op_index_m')(insert(how='index', movearg=True, ret='ref'))

        def at(e):
            T = T0(e, True); k = e.key()
            return lambda s, r: ([('at throws for an absent key', e.old[T].has(cls(k)), ('C13',))] + elem_ptr(e, s, T, r, 1, e.old[T].posn(cls(k)), ('C13',)) if r != 'throw' else [('at throws for an absent key only', z3.Not(e.old[T].has(cls(k))), ('C13',))]) + unchanged(e, s, T)
        op('op_at')(at); op('op_cat')(at)
    else:
        op('op_emplace')(insert()); op('op_emplace_h')(insert(True, ret='iter'))
    op('op_insert')(insert(how='insert')); op('op_insert_m')(insert(how='insert', movearg=True)); op('op_insert_h')(insert(True, 'insert', ret='iter'))

    # -------------------------------------------------- erasure
    def erased(e, s, T, o, c, p):
        """postcondition of erasing the element with key class c at position p (if it is there)"""
        old, new = e.old[T], Snap(sw, s, T)
        had = old.has(c)
        s.term('key', c)
        l = [('exactly the named key is removed', q_update(old, new, c, z3.BoolVal(False)), ('C01', 'C14', 'C03')), ('the size shrinks by one if the key was stored', new.size == old.size - z3.If(had, bv(1), bv(0)), ('C03', 'C14')),
             ('the capacity stays', new.cap == old.cap, ('C10', 'C14'))]
        l += q_ids(old, new, c)
        q, l2 = sw.get_iter(s, o, new)
        l += retag(l2, ('C14',))
        if q is not None and new.m is not None:
            s.term(('slot', new.m.grp), q); s.term(('raw', new.m.grp), q)
            l.append(('the successor or the end is returned', conj(z3.Implies(z3.Not(had), q == new.cap), z3.Implies(had, z3.And(z3.ULT(p, q), z3.ULE(q, new.cap), z3.Implies(q != new.cap, new.occ(q))))), ('C14', 'C03')))
            if old.m is not None:
                g0, g1 = ('slot', old.m.grp), ('slot', new.m.grp)
                ex = lambda x: [(g0, x), (g1, x), (('raw', old.m.grp), x), (('raw', new.m.grp), x)]
                l.append(('no element between the erased one and the successor', Q('skipped', [g0], lambda x: (z3.Implies(conj(had, z3.ULT(p, x), z3.ULT(x, q)), z3.Not(old.occ(x))), ex(x))), ('C14',)))
                o0, n0 = old.st, new.st
                same = lambda x: conj(*[z3.Implies(old.occ(x), y) for y in [sw.keyv(n0, new.n, x) == sw.keyv(o0, old.n, x)] + ([sw.mapv(n0, new.n, x) == sw.mapv(o0, old.n, x)] if M else [])])
                l.append(('the other elements stay where they are', Q('others', [g0], lambda x: (z3.Implies(z3.And(z3.ULT(x, old.cap), x != p), conj(new.occ(x) == old.occ(x), same(x))), ex(x))), ('C14',)))
        elif q is not None: l.append(('the end is returned', q == 0, ('C14',)))
        return l + table_inv(e, s, T)

    @op('op_erase')
    def _(e):
        T = T0(e); k = e.key(); o = e.out()
        return lambda s, r: erased(e, s, T, o, cls(k), e.old[T].pos(cls(k)))

    @op('op_erase_at', variants=('buf',))
    def _(e):
        T = T0(e); q = e.iter_arg(T, 'pos', end_ok=False); o = e.out()
        old = e.old[T]
        c = cls(sw.keyv(e.st, old.n, q)); e.st.term('key', c)
        return lambda s, r: erased(e, s, T, o, c, q)

    @op('op_clear')
    def _(e):
        T = T0(e)

        def post(s, r):
            new = Snap(sw, s, T)
            return [('no key is left', Q('empty', ['key'], lambda c: (z3.Not(new.has(c)), new.terms(c))), ('C01', 'C03')), ('the size is zero', new.size == 0, ('C03',)), ('the capacity stays', new.cap == e.old[T].cap, ('C10',))] + table_inv(e, s, T)
        return post

    # -------------------------------------------------- node handles
    def handle_is(e, s, name, want, tags, what):
        """the handle holds the element want (None: nothing)"""
        p = s.mem.get((name, 0, 64))
        if not isinstance(p, Ptr) or p.r is not None and (p.r.name != 'cells' or p.o): return [(what, z3.BoolVal(False), tags)]
        i = p.i if p.r is not None else bv(0)
        s.term(('slot', 'cells'), i)
        return [(what, i == (bv(0) if want is None else want), tags)]

    def same_elem(e, s, i, vals, tags, cond=True):
        s.term(('slot', 'cells'), i)
        return [('the element in the handle is unchanged', z3.Implies(cond, conj(sw.blk(s, i), sw.ow(s, i) == 0, *[z3.Select(s.mem[('cells', 'al', o)], i) for o in sw.objs], *[z3.Select(s.mem[('cells', 'v', o)], i) == v for o, v in zip(sw.objs, vals)])), tags)]

    if sw.stable:
        C9 = ('C09', 'C07')

        def extract(at):
            def f(e):
                T = T0(e)
                old = e.old[T]
                if at: q = e.iter_arg(T, 'pos', end_ok=False); k = None; c = cls(sw.keyv(e.st, old.n, q)); e.st.term('key', c)
                else: k = e.key(); c = cls(k)
                h = e.no_node('handle')

                def post(s, r):
                    new = Snap(sw, s, T)
                    had = old.has(c)
                    s.term('key', c)
                    i = old.elem(old.pos(c)) if old.m is not None else bv(0)
                    l = [('exactly the named key is removed', q_update(old, new, c, z3.BoolVal(False)), ('C09', 'C01', 'C14')), ('the size shrinks by one if the key was stored', new.size == old.size - z3.If(had, bv(1), bv(0)), ('C03', 'C09')),
                         ('the capacity stays', new.cap == old.cap, ('C10',))] + q_ids(old, new, c)
                    l += handle_is(e, s, 'handle', z3.If(had, i, bv(0)), ('C09', 'C08'), 'the extracted element itself is handed over')
                    if old.m is not None: l += same_elem(e, s, i, [old.keyv(c)] + ([old.mapv(c)] if M else []), ('C09', 'C08'), had)
                    return l + table_inv(e, s, T)
                return post
            return f
        op('op_extract')(extract(False)); op('op_extract_at', variants=('buf',))(extract(True))

        def node_in(hint=False, assign=False):
            def f(e):
                T = T0(e)
                old = e.old[T]
                if hint: e.iter_arg(T, 'hint')
                h, *vals = e.node('node')
                o = e.out()
                rest = e.no_node('rest') if not hint and not assign else None

                def post(s, r):
                    new = Snap(sw, s, T)
                    c = cls(vals[0]); had = old.has(c)
                    s.term('key', c)
                    for d, t in new.terms(c): s.term(d, t)
                    own = lambda x, y: x if old.m is None or assign else z3.If(had, y, x)
                    kv = own(vals[0], old.keyv(c) if old.m is not None else None)
                    mv = own(vals[1], old.mapv(c) if old.m is not None else None) if M else None
                    l = [('exactly the key of the node is added', q_update(old, new, c, z3.BoolVal(True), kv, mv), ('C09', 'C01', 'C13') + (('C15',) if hint else ())), ('the size grows by one for a new key only', new.size == old.size + z3.If(had, bv(0), bv(1)), ('C03', 'C09'))]
                    l += q_ids(old, new, c if assign else None)
                    if not hint: l.append(('the result says whether the element was inserted', to_bool(r) == z3.Not(had), ('C09', 'C13')))
                    l += at_iter(e, s, T, o, None, ('C09', 'C13', 'C03'), key=c)
                    if new.m is not None: l.append(('the element of the node itself is taken over', z3.Implies(z3.BoolVal(True) if assign else z3.Not(had), new.elem(new.pos(c)) == h), ('C09', 'C08')))
                    if rest is not None: l += handle_is(e, s, 'node', None, C9, 'the node is emptied') + handle_is(e, s, 'rest', z3.If(had, h, bv(0)), C9, 'a conflicting node is returned')
                    else: l += handle_is(e, s, 'node', z3.If(z3.And(had, z3.BoolVal(not assign)), h, bv(0)), C9, 'a conflicting node keeps its element')
                    if not assign: l += same_elem(e, s, h, vals, ('C09', 'C08'), had)
                    return l + table_inv(e, s, T)
                return post
            return f
        op('op_insert_node')(node_in()); op('op_insert_node_h')(node_in(True))
        if M: op('op_assign_node')(node_in(assign=True)); op('op_assign_node_h')(node_in(True, True))

        @op('op_merge', ('T', 'O'), ('buf/buf', 'buf/null', 'null/buf', 'null/null'))
        def _(e):
            T = e.table('T'); O = e.table('O')
            e.loop = lambda nested: MergeLoop(sw, e)
            e.ctx.forbid, e.ctx.forbid_tags = ('do_rehash', 'rehash_deleted'), ('C09', 'C12')      # there is room for every element before the first is moved

            def post(s, r):
                a, b, x, y = e.old[T], e.old[O], Snap(sw, s, T), Snap(sw, s, O)

                def content(c):
                    l = [x.has(c) == z3.Or(a.has(c), b.has(c)), y.has(c) == z3.And(a.has(c), b.has(c))]
                    if a.m is not None: l.append(z3.Implies(a.has(c), same_value(a, x, c)))
                    if b.m is not None and x.m is not None: l.append(z3.Implies(z3.And(z3.Not(a.has(c)), b.has(c)), same_value(b, x, c)))
                    if b.m is not None: l.append(z3.Implies(y.has(c), same_value(b, y, c)))
                    return conj(*l), a.terms(c) + b.terms(c) + x.terms(c) + y.terms(c)

                def ids(c):
                    l = []
                    if a.m is not None: l.append(z3.Implies(a.has(c), x.elem(x.pos(c)) == a.elem(a.pos(c))))
                    if b.m is not None and x.m is not None: l.append(z3.Implies(z3.And(z3.Not(a.has(c)), b.has(c)), x.elem(x.pos(c)) == b.elem(b.pos(c))))
                    if b.m is not None: l.append(z3.Implies(y.has(c), y.elem(y.pos(c)) == b.elem(b.pos(c))))
                    return conj(*l), a.terms(c) + b.terms(c) + x.terms(c) + y.terms(c)
                return [('the destination has the elements of both, conflicting ones stay in the source', Q('merged', ['key'], content), ('C09',)), ('the elements themselves are moved', Q('merged', ['key'], ids), ('C09', 'C08'))] + table_inv(e, s, T) + table_inv(e, s, O)
            return post

        V1 = ('any',)

        @op('op_node_move', variants=V1)
        def _(e):
            e.no_node('a'); h, *vals = e.node('b', None)
            return lambda s, r: handle_is(e, s, 'a', h, C9, 'the element is taken over') + handle_is(e, s, 'b', None, C9, 'the source is emptied') + same_elem(e, s, h, vals, C9, h != 0)

        @op('op_node_assign', variants=V1)
        def _(e):
            g, *_v = e.node('a', None); h, *vals = e.node('b', None)
            return lambda s, r: handle_is(e, s, 'a', h, C9, 'the element is taken over') + handle_is(e, s, 'b', None, C9, 'the source is emptied') + same_elem(e, s, h, vals, C9, h != 0)

        @op('op_node_swap', variants=V1)
        def _(e):
            g, *va = e.node('a', None); h, *vb = e.node('b', None)
            return lambda s, r: handle_is(e, s, 'a', h, C9, 'the element is taken over') + handle_is(e, s, 'b', g, C9, 'the element is taken over') + same_elem(e, s, h, vb, C9, h != 0) + same_elem(e, s, g, va, C9, g != 0)

        @op('op_node_empty', variants=V1)
        def _(e):
            h, *vals = e.node('a', None)
            return lambda s, r: [('empty', to_bool(r) == (h == 0), C9)] + handle_is(e, s, 'a', h, C9, 'the handle is not changed')

        @op('op_node_dtor', variants=V1)
        def _(e):
            h, *vals = e.node('a', None)
            e.nodes.remove('a')
            return lambda s, r: []

    # -------------------------------------------------- capacity
    def resize(which):
        def f(e):
            T = T0(e); n = e.num()

            def post(s, r):
                old, new = e.old[T], Snap(sw, s, T)
                l = [('the elements are the same', q_same(old, new), ('C10', 'C01')), ('the size is the same', new.size == old.size, ('C10', 'C03'))]
                l += q_ids(old, new)
                if which == 'reserve': l.append(('there is room for the reserved number of elements', z3.ULE(n, new.size + new.ne), ('C10',)))
                else: l.append(('there are at least as many buckets as requested', z3.ULE(n, new.cap), ('C10',)))
                return l + table_inv(e, s, T)
            return post
        return f
    op('op_reserve')(resize('reserve')); op('op_rehash')(resize('rehash'))

    # -------------------------------------------------- construction, destruction, transfer
    def fresh_table(e, s, T):
        new = Snap(sw, s, T)
        return [('no element is stored', Q('empty', ['key'], lambda c: (z3.Not(new.has(c)), new.terms(c))), ('C06', 'C10')), ('the size is zero', new.size == 0, ('C03',))] + table_inv(e, s, T)

    @op('op_ctor', variants=('new',))
    def _(e):
        T = e.uninit('T')
        return lambda s, r: fresh_table(e, s, T)

    @op('op_ctor_n', variants=('new',))
    def _(e):
        T = e.uninit('T'); n = e.num()
        e.st.term('cap', n)
        return lambda s, r: fresh_table(e, s, T) + [('there are at least as many buckets as requested', z3.ULE(n, sw.t_cap(s, T)), ('C10',))]

    @op('op_dtor')
    def _(e):
        T = T0(e)
        e.tabs.remove(T)
        return lambda s, r: []

    def empty_src(e, s, O): return [('the source is left empty', conj(sw.t_size(s, O) == 0), ('C06',))]

    def copy(e):
        e.tabs_new = True
        T = e.uninit('T'); O = e.table('O', True, null=e.variant == 'null')
        return lambda s, r: [('the copy has the elements of the source', q_same(e.old[O], Snap(sw, s, T)), ('C06', 'C01')), ('the sizes agree', sw.t_size(s, T) == e.old[O].size, ('C06', 'C03'))] + table_inv(e, s, T) + unchanged(e, s, O)
    op('op_copy')(copy)

    def move(e):
        T = e.uninit('T'); O = e.table('O', null=e.variant == 'null')
        return lambda s, r: [('the elements of the source are taken over', q_same(e.old[O], Snap(sw, s, T)), ('C06', 'C01')), *q_ids(e.old[O], Snap(sw, s, T)), ('the sizes agree', sw.t_size(s, T) == e.old[O].size, ('C06', 'C03'))] + table_inv(e, s, T) + table_inv(e, s, O) + moved_from(e, s, O)
    op('op_move')(move)

    def moved_from(e, s, O):
        return [('the source is empty', sw.t_size(s, O) == 0, ('C06', 'C03'))]

    V2 = ('buf/buf', 'buf/null', 'null/buf', 'null/null', 'self')

    def assign(mv):
        def f(e):
            if e.variant == 'self':
                T = e.table('T', null=False); e.args.append(e.args[0])
                return lambda s, r: [('self-assignment changes nothing', q_same(e.old[T], Snap(sw, s, T)), ('C06',)), ('the sizes agree', sw.t_size(s, T) == e.old[T].size, ('C06', 'C03'))] + table_inv(e, s, T)
            T = e.table('T'); O = e.table('O', not mv)

            def post(s, r):
                l = [('the destination has the elements of the source', q_same(e.old[O], Snap(sw, s, T)), ('C06', 'C01')), ('the sizes agree', sw.t_size(s, T) == e.old[O].size, ('C06', 'C03'))] + table_inv(e, s, T)
                if not mv: return l + unchanged(e, s, O)
                l += q_ids(e.old[O], Snap(sw, s, T))
                return l + [('the source: ' + a, b, c) for a, b, c in table_inv(e, s, O)] + moved_from(e, s, O)
            return post
        return f
    op('op_assign', ('T', 'O'), V2)(assign(False)); op('op_assign_m', ('T', 'O'), V2)(assign(True))

    @op('op_swap', ('T', 'O'), V2)
    def _(e):
        if e.variant == 'self':
            T = e.table('T', null=False); e.args.append(e.args[0])
            return lambda s, r: [('self-swap changes nothing', q_same(e.old[T], Snap(sw, s, T)), ('C06',))] + table_inv(e, s, T)
        T = e.table('T'); O = e.table('O')
        return lambda s, r: [('the first has the elements of the second', q_same(e.old[O], Snap(sw, s, T)), ('C06',)), *q_ids(e.old[O], Snap(sw, s, T)), *q_ids(e.old[T], Snap(sw, s, O)), ('the second has the elements of the first', q_same(e.old[T], Snap(sw, s, O)), ('C06',)),
                             ('the sizes are exchanged', conj(sw.t_size(s, T) == e.old[O].size, sw.t_size(s, O) == e.old[T].size), ('C06', 'C03'))] + table_inv(e, s, T) + table_inv(e, s, O)

    def eq(neg):
        def f(e):
            if e.variant == 'self': T = e.table('T', True, null=False); e.args.append(e.args[0]); O = T
            else: T = e.table('T', True); O = e.table('O', True)
            e.ctx.unit = {'eq': (e.old[T], e.old[O]), 'res': []}
            A, a, b = z3.Const('contents_agree', z3.BoolSort()), e.old[T].size, e.old[O].size
            e.st.add(z3.Implies(A, a == b), z3.Implies(z3.And(a == 0, b == 0), A))       # what it means that the contents agree

            def post(s, r):
                E = z3.Const('contents_agree', z3.BoolSort())
                return [('the comparison is decided by the contents', to_bool(r) == (z3.Not(E) if neg else E), ('C16',))] + unchanged(e, s, T) + (unchanged(e, s, O) if O is not T else [])
            return post
        return f
    op('op_eq', ('T', 'O'), V2)(eq(False)); op('op_neq', ('T', 'O'), V2)(eq(True))
    return R


def retag(l, tags): return [(a, b, c if c else tags) for a, b, c in l]


def table_inv(e, s, T): return e.sw.inv_goals(s, T)


def unchanged(e, s, T):
    sw, o = e.sw, e.old[T]
    if s.g.get(('inv', T.name)) == sw.sig(s, T): return [('the table is not changed', z3.BoolVal(True), ('C01', 'C06', 'C16'))]
    n = Snap(sw, s, T)
    return [('the elements are not changed', q_same(o, n), ('C01', 'C06', 'C16')), ('the size is not changed', n.size == o.size, ('C03',))] + table_inv(e, s, T)


def at_iter(e, s, T, o, q, tags, key=None):
    """the iterator in o names position q (or the position of key)"""
    new = Snap(e.sw, s, T)
    i, l = e.sw.get_iter(s, o, new)
    l = retag(l, tags)
    if i is None: return l
    if key is not None:
        if new.m is None: return [('the element is stored', z3.BoolVal(False), tags)]
        l.append(('the iterator names the element', conj(new.has(key), i == new.pos(key)), tags))
    else: l.append(('the iterator names the element or the end', i == q, tags))
    return l


def elem_ptr(e, s, T, r, k, q, tags, key=None):
    """r points to object k of the element at position q"""
    sw, new = e.sw, Snap(e.sw, s, T)
    if not isinstance(r, Ptr) or new.m is None: return [('a reference to the element is returned', z3.BoolVal(False), tags)]
    if key is not None: q = new.pos(key)
    return [('a reference to the element is returned', sw.is_elem(s, new, r, k, q), tags)] + ([('the element is stored', new.has(key), tags)] if key is not None else [])
