"""Contracts of the operations of the open-addressing tables."""
from swiss import *
from sym import _cnt


class Snap:
    """the contents of a table in one state"""
    def __init__(self, sw, st, T):
        self.sw, self.T = sw, T
        self.m, self.n, self.cap = sw.t_meta(st, T), sw.t_nodes(st, T), sw.t_cap(st, T)
        self.size, self.ne = sw.t_size(st, T), sw.t_ne(st, T)
        self.st = fz(st)

    def pos(self, c): return self.cap if self.m is None else self.sw.cur(self.st, self.n, c)
    def has(self, c): return z3.BoolVal(False) if self.m is None else self.sw.has(self.st, None, c, self.m, self.n, self.cap)
    def keyv(self, c): return self.sw.keyv(self.st, self.n, self.pos(c))
    def mapv(self, c): return self.sw.mapv(self.st, self.n, self.pos(c))
    def terms(self, c): return [] if self.m is None else [(('slot', self.m.grp), self.pos(c)), (('raw', self.m.grp), self.pos(c))] + self.sw.exs(self.st, self.n, self.pos(c))
    def elem(self, s): return self.sw.elem(self.st, self.n, s)
    def occ(self, s): return z3.BoolVal(False) if self.m is None else z3.And(z3.ULT(s, self.cap), occ(self.sw.raw(self.st, self.m, s)))
    def posn(self, c): return z3.If(self.has(c), self.pos(c), self.cap)


def same_value(a, b, c):
    """the element with key c is the same in both (given that both have it)"""
    if a.m is None or b.m is None: return z3.BoolVal(True)
    l = [a.keyv(c) == b.keyv(c)]
    if a.sw.is_map: l.append(a.mapv(c) == b.mapv(c))
    return conj(*l)


def q_ids(a, b, k=None, name='identity'):
    """elements of both (with another key than k) are the same objects; [] where elements have no identity"""
    if not a.sw.stable or a.m is None or b.m is None: return []
    def fn(c):
        return z3.Implies(conj(a.has(c), b.has(c), c != k if k is not None else None), a.elem(a.pos(c)) == b.elem(b.pos(c))), a.terms(c) + b.terms(c)
    return [('the elements stay where they are in memory', Q(name, ['key'], fn), ('C08',))]


def q_same(a, b, name='contents', extra=None):
    """b holds the same elements as a"""
    def fn(c):
        return conj(b.has(c) == a.has(c), z3.Implies(a.has(c), same_value(a, b, c))), a.terms(c) + b.terms(c)
    return Q(name, ['key'], fn)


def q_update(a, b, k, has_k, keyval=None, mapval=None, name='contents'):
    """b = a except for key class k, for which has_k holds afterwards and the values are as given"""
    def fn(c):
        l = [b.has(c) == z3.If(c == k, has_k, a.has(c)), z3.Implies(z3.And(c != k, a.has(c)), same_value(a, b, c))]
        if keyval is not None and b.m is not None: l.append(z3.Implies(z3.And(c == k, has_k), b.keyv(c) == keyval))
        if mapval is not None and b.m is not None: l.append(z3.Implies(z3.And(c == k, has_k), b.mapv(c) == mapval))
        return conj(*l), a.terms(c) + b.terms(c)
    return Q(name, ['key'], fn)


# ------------------------------------------------------------------ iterators
class NextOccupied(Contract):
    name = 'next_occupied'

    def __init__(self, sw): self.sw = sw

    def bind(self, ctx, st, f, args):
        p = args[0]
        a = {'it': p, 'm': st.mem.get((p.r.name, p.o, 64)), 'n': st.mem.get((p.r.name, p.o + 8, 64))}
        return a

    def pre(self, ctx, st, a):
        sw, m, n = self.sw, a['m'], a['n']
        if not (isinstance(m, Ptr) and m.r is not None and m.r.x.get('role') == 'meta' and isinstance(n, Ptr) and n.r is not None): return [('the iterator points into a table', z3.BoolVal(False), ('C12',))]
        cap = m.r.n - sw.W
        return [('the iterator is in range', z3.And(z3.ULE(m.i, cap), pow2m1(cap)), ('C12',)), ('metadata and node agree', z3.And(n.i == m.i, z3.BoolVal(n.o == 0)), ('C03', 'C14')),
                ('metadata mirror', sw.f_shape(st, m.r, cap), ('C12',)), ('legal metadata', sw.f_legal(st, m.r, cap), ('C12',))]

    def havoc(self, ctx, st, a):
        q = fresh('next', B64)
        it = a['it']
        st.mem[(it.r.name, it.o, 64)] = Ptr(a['m'].r, q, 0)
        st.mem[(it.r.name, it.o + 8, 64)] = Ptr(a['n'].r, q, 0)
        st.term(('slot', a['m'].r.grp), q); st.term(('raw', a['m'].r.grp), q)
        a['q'] = q
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        sw, p = self.sw, a['m'].i
        m = a['m'].r
        cap = m.n - sw.W
        r1, r2 = st.mem.get((a['it'].r.name, a['it'].o, 64)), st.mem.get((a['it'].r.name, a['it'].o + 8, 64))
        arr = st.mem[(m.name, 0, 8)]
        ok = isinstance(r1, Ptr) and isinstance(r2, Ptr) and r1.r is m and r2.r is a['n'].r and r2.o == 0
        if not ok: return [('the iterator stays in its table', z3.BoolVal(False), ('C03',))]
        q = r1.i
        return [('the iterator stops at a stored element or at the end', conj(z3.ULE(p, q), z3.ULE(q, cap), r2.i == q, z3.Implies(q != cap, occ(z3.Select(arr, q)))), ('C03', 'C14', 'C12')),
                ('no element is skipped', Q('skipped', [('raw', m.grp)], lambda s: z3.Implies(z3.And(z3.ULE(p, s), z3.ULT(s, q)), avail(z3.Select(arr, s)))), ('C03', 'C14'))]


class NextLoop(LoopSpec):
    """loop of next_occupied"""
    name = 'scan for the next element'

    def __init__(self, sw): self.sw = sw

    def ptrs(self, ctx, st, ph):
        a = ctx.unit
        k1, k2 = (a['it'].r.name, a['it'].o, 64), (a['it'].r.name, a['it'].o + 8, 64)
        l = [v for v in ph.values() if isinstance(v, Ptr)]
        m = [v for v in l if v.r is a['m'].r]; n = [v for v in l if v.r is a['n'].r]
        return (m[0] if m else st.mem[k1]), (n[0] if n else st.mem[k2])

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        m, p = a['m'].r, a['m'].i
        cap = m.n - sw.W
        r1, r2 = self.ptrs(ctx, st, ph)
        if r1.r is not m or r2.r is not a['n'].r: return [('the iterator stays in its table', z3.BoolVal(False), ('C03',))]
        arr = st.mem[(m.name, 0, 8)]
        st.term(('raw', m.grp), r1.i); st.term(('slot', m.grp), r1.i)
        return [('position', conj(z3.ULE(p, r1.i), z3.ULE(r1.i, cap), r2.i == r1.i, z3.BoolVal(r2.o == 0)), ('C03', 'C12', 'C14')),
                ('no element is skipped', Q('skipped', [('raw', m.grp)], lambda s: z3.Implies(z3.And(z3.ULE(p, s), z3.ULT(s, r1.i)), avail(z3.Select(arr, s)))), ('C03', 'C14'))]

    def measure(self, ctx, st, ph, entry): return ~self.ptrs(ctx, st, ph)[0].i


# ------------------------------------------------------------------ rehashing
class DoRehash(Contract):
    name = 'do_rehash'

    def __init__(self, sw): self.sw = sw
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'n': args[1], 'old': Snap(self.sw, st, args[0].r)}

    def pre(self, ctx, st, a):
        sw = self.sw
        return sw.inv_goals(st, a['T']) + [('the new capacity is valid and sufficient', conj(pow2m1(a['n']), a['n'] != 0, z3.ULE(a['old'].size, sw.maxsize(a['n']))), ('C10', 'C12', 'C01'))]

    def havoc(self, ctx, st, a):
        sw, T, o = self.sw, a['T'], a['old']
        if o.m is not None: st.live[o.m.name] = st.live[o.n.name] = False
        sw.havoc_cells(ctx, st, True)
        st.mem[(T.name, sw.o_cap, 64)] = a['n']
        st.term('cap', a['n'])
        sw.fresh_buffers(ctx, st, T, a['n'])
        st.mem[(T.name, sw.o_ne, 64)] = fresh('num_empty', B64)
        sw.assume_inv(ctx, st, T)
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        sw, T = self.sw, a['T']
        new = Snap(sw, st, T)
        l = []
        if ctx.proving is self: l += sw.inv(st, T)
        m = new.m
        l += [('the capacity is as requested', conj(new.cap == a['n'], new.size == a['old'].size, sw.cnt(st, m, 'nD') == 0, new.ne == sw.maxsize(new.cap) - new.size), ('C10', 'C12')),
              ('the elements are the same', q_same(a['old'], new), ('C01', 'C10', 'C03'))] + q_ids(a['old'], new) + sw.frame(a['old'].st, st, [a['old'].n], [new.n], True)
        if ctx.proving is self and a['old'].m is not None:
            l.append(('the old buffers are released', z3.BoolVal(not st.live.get(a['old'].m.name) and not st.live.get(a['old'].n.name)), ('C07',)))
        return l


class RelocateLoop(LoopSpec):
    """do_rehash: moves the elements of the old buffers to the new ones"""
    name = 'relocation loop'

    def __init__(self, sw): self.sw = sw

    def start(self, ctx, f, st, entry, h):
        sw, a = self.sw, ctx.unit
        c = const_entry(None, entry, 0)
        if len(c) != 1: raise Unsupported('relocation loop not recognised')
        self.i = c[0]
        o = a['old']
        if o.m is None: return
        self.pre = z3.Function('prefix!%d' % next(_cnt), B64, B64)
        # definition of the prefix counts of occupied slots
        r0 = o.st.mem[(o.m.name, 0, 8)]
        st.add(self.pre(bv(0)) == 0, self.pre(o.cap) == o.size)
        self.r0 = r0
        m1, n1 = sw.t_meta(st, a['T']), sw.t_nodes(st, a['T'])
        n1.grp = m1.grp
        st.term('cap', sw.t_cap(st, a['T']))

    def havoc(self, ctx, st):
        if ctx.unit['old'].m is None: return
        T = ctx.unit['T']
        self.sw.witness(st, self.sw.t_meta(st, T), self.sw.t_cap(st, T))

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        o, T = a['old'], a['T']
        if o.m is None: return [('nothing to do', ph[self.i] == 0, ())]
        i = ph[self.i]
        m, n, cap = sw.t_meta(st, T), sw.t_nodes(st, T), sw.t_cap(st, T)
        st.term(('slot', o.m.grp), i); st.term(('raw', o.m.grp), i)
        # definitional instances
        st.add(z3.Implies(z3.ULT(i, o.cap), self.pre(i + 1) == self.pre(i) + z3.If(occ(z3.Select(self.r0, i)), bv(1), bv(0))),
               z3.Implies(z3.ULE(i, o.cap), z3.ULE(self.pre(i), o.size)), z3.Implies(z3.And(z3.ULT(i, o.cap), occ(z3.Select(self.r0, i))), z3.ULT(self.pre(i), o.size)))
        nO, nE, nD = (sw.cnt(st, m, c) for c in ('nO', 'nE', 'nD'))
        new = Snap(sw, st, T)

        def content(c):
            return conj(new.has(c) == z3.And(o.has(c), z3.ULT(o.pos(c), i)), z3.Implies(new.has(c), same_value(o, new, c))), o.terms(c) + new.terms(c)

        st = fz(st)

        def rest(s):
            return z3.Implies(conj(z3.ULT(s, o.cap), z3.ULE(i, s)), sw.same_slot(o.st, o.n, s, st, o.n, s)), sw.exs(o.st, o.n, s)
        g = ('slot', o.m.grp)
        return [('progress', z3.ULE(i, o.cap), ('C01', 'C12')),
                ('new table geometry', conj(cap == a['n'], m.n == cap + sw.W, n.n == cap), ('C12',)),
                ('counters', conj(nD == 0, nO == self.pre(i), nE == cap - self.pre(i), z3.ULE(nO, cap)), ('C03', 'C12')),
                ('metadata mirror', sw.f_shape(st, m, cap), ('C01', 'C12')), ('legal metadata', sw.f_legal(st, m, cap), ('C01', 'C12')),
                ('occupied slots', sw.f_occ(st, m, n, cap), ('C01', 'C03')), ('probe windows', sw.f_win(st, m, n, cap), ('C01',)),
                *[(nm, q, ('C07',)) for nm, q in sw.f_life(st, m, n, cap)],
                ('moved elements', Q('moved elements', ['key'], content), ('C01', 'C03', 'C10')),
                ('remaining elements', Q('remaining elements', [g], rest), ('C01', 'C07', 'C10')),
                *[('remaining ' + nm, q, ('C07',)) for nm, q in sw.life(st, o.m, o.n, o.cap, lambda s: z3.And(z3.ULE(i, s), occ(z3.Select(self.r0, s))), lambda s: [(g, s), (('raw', o.m.grp), s)])],
                *q_ids(o, new), *sw.frame(o.st, st, [o.n], [o.n, n], True)]

    def measure(self, ctx, st, ph, entry): return ~ph[self.i] if ctx.unit['old'].m is not None else None


# ------------------------------------------------------------------ in-place reclaiming
def converted(b): return z3.If(occ(b), bv(DEL, 8), bv(EMPTY, 8))


class RehashDeleted(Contract):
    name = 'rehash_deleted'

    def __init__(self, sw): self.sw = sw
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'old': Snap(self.sw, st, args[0].r)}

    def pre(self, ctx, st, a):
        return self.sw.inv_goals(st, a['T']) + [('the table has more than one group', z3.UGT(a['old'].cap, self.sw.W), ('C12',))]

    def havoc(self, ctx, st, a):
        sw, T = self.sw, a['T']
        m, n = sw.t_meta(st, T), sw.t_nodes(st, T)
        for k in list(st.mem):
            if k[0] in (m.name, n.name): st.mem[k] = ctx.havoc_like(st.mem[k], '%s.%s' % (k[0], k[1]))
        sw.havoc_cells(ctx, st, True)
        st.mem[(T.name, sw.o_ne, 64)] = fresh('num_empty', B64)
        sw.assume_inv(ctx, st, T)
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        sw, T = self.sw, a['T']
        new = Snap(sw, st, T)
        l = sw.inv(st, T) if ctx.proving is self else []
        return l + [('capacity and size stay', conj(z3.BoolVal(new.m is a['old'].m and new.n is a['old'].n), new.cap == a['old'].cap, new.size == a['old'].size, sw.cnt(st, new.m, 'nD') == 0, new.ne == sw.maxsize(new.cap) - new.size), ('C10', 'C12')),
                    ('the elements are the same', q_same(a['old'], new), ('C01', 'C10', 'C03'))] + q_ids(a['old'], new) + sw.frame(a['old'].st, st, [a['old'].n], [new.n], True)


class ConvertLoop(LoopSpec):
    name = 'conversion loop'

    def __init__(self, sw): self.sw = sw

    def start(self, ctx, f, st, entry, h):
        c = const_entry(None, entry, 0)
        if len(c) != 1: raise Unsupported('conversion loop not recognised')
        self.i = c[0]

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        o, W = a['old'], sw.W
        m, cap, i = o.m, o.cap, ph[self.i]
        r0, r1 = o.st.mem[(m.name, 0, 8)], st.mem[(m.name, 0, 8)]

        def conv(q): return z3.Implies(z3.ULT(q, cap + W), z3.Select(r1, q) == z3.If(z3.ULT(q, i), converted(z3.Select(r0, q)), z3.Select(r0, q)))
        st.term(('raw', m.grp), i)
        return [('position', conj(i & (W - 1) == 0, z3.ULE(i, cap + 1)), ('C12', 'C01')), ('converted bytes', Q('converted bytes', [('raw', m.grp)], conv), ('C01', 'C12', 'C03'))]

    def measure(self, ctx, st, ph, entry): return ~ph[self.i]


class ReclaimInv(LoopSpec):
    """loops of the relocation phase; outer: over the slots, inner: until the slot has been settled"""
    def __init__(self, sw, outer=None): self.sw, self.outer, self.name = sw, outer, 'reclaiming loop' if outer is None else 'settling loop'

    def start(self, ctx, f, st, entry, h):
        sw, a = self.sw, ctx.unit
        o, m, n, cap = a['old'], a['old'].m, a['old'].n, a['old'].cap
        st.g['align'] = True        # the windows are aligned relative to the first one: needed to compare block indices
        if self.outer is None:
            c = const_entry(None, entry, 0)
            if len(c) != 1: raise Unsupported('reclaiming loop not recognised')
            self.i = c[0]
            r0, r1 = o.st.mem[(m.name, 0, 8)], st.mem[(m.name, 0, 8)]
            ctx.oblige(st, Q('conversion', [('slot', m.grp)], lambda s: (z3.Implies(z3.ULT(s, cap), z3.Select(r1, s) == converted(z3.Select(r0, s))), [(('raw', m.grp), s)])), 'occupied slots become deleted, all others empty', ('C01', 'C12', 'C03'))
            # counting: the slots of the converted array correspond one to one
            nO, nE, nD = fresh('nO', B64), fresh('nE', B64), fresh('nD', B64)
            st.mem[(m.name, 'nO')], st.mem[(m.name, 'nE')], st.mem[(m.name, 'nD')] = nO, nE, nD
            st.add(nO == 0, nD == o.size, nE == cap - o.size)
        else:
            hd = list(st.g['@hdr'].values())
            self.iv = hd[-1][1][self.outer.i]

    def havoc(self, ctx, st):
        sw, T = self.sw, ctx.unit['T']
        sw.witness(st, sw.t_meta(st, T), sw.t_cap(st, T))

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a, W = self.sw, ctx.unit, self.sw.W
        o = a['old']; m, n, cap = o.m, o.n, o.cap
        i = ph[self.i] if self.outer is None else self.iv
        st = fz(st)
        st.term(('slot', m.grp), i); st.term(('raw', m.grp), i)
        nO, nE, nD = (sw.cnt(st, m, c) for c in ('nO', 'nE', 'nD'))
        raw = lambda s: sw.raw(st, m, s)
        live = lambda s: z3.And(z3.ULT(s, cap), raw(s) != bv(EMPTY, 8))

        def slot(s):
            c = cls(sw.keyv(st, n, s))
            return z3.Implies(live(s), conj(sw.hashv(st, n, s) == Hc(c), sw.cur(st, n, c) == s, z3.Implies(occ(raw(s)), raw(s) == h2of(Hc(c))))), [(('raw', m.grp), s)] + sw.exs(st, n, s)

        def has(c): return z3.And(live(sw.cur(st, n, c)), cls(sw.keyv(st, n, sw.cur(st, n, c))) == c)

        def content(c):
            s = sw.cur(st, n, c)
            l = [sw.keyv(st, n, s) == o.keyv(c)] + ([sw.mapv(st, n, s) == o.mapv(c)] if sw.is_map else [])
            if sw.stable: l.append(sw.elem(st, n, s) == o.elem(o.pos(c)))
            return conj(has(c) == o.has(c), z3.Implies(has(c), conj(*l))), o.terms(c) + [(('slot', m.grp), s)] + sw.exs(st, n, s)

        def done(s): return z3.Implies(z3.ULT(s, i), raw(s) != bv(DEL, 8)), [(('raw', m.grp), s)]
        l = [('position', z3.ULE(i, cap), ('C12',))] if self.outer is None else [('the slot is unsettled', raw(i) == bv(DEL, 8), ('C12', 'C01'))]
        l += [('counters', conj(nO + nD == o.size, nE == cap - o.size, z3.ULE(nO, cap), z3.ULE(nD, cap)), ('C03', 'C12')),
              ('metadata mirror', sw.f_shape(st, m, cap), ('C01', 'C12')), ('legal metadata', sw.f_legal(st, m, cap), ('C01', 'C12')),
              ('live slots', Q('live slots', [('slot', m.grp)], slot), ('C01', 'C03')), *[(nm, q, ('C07',)) for nm, q in sw.life(st, m, n, cap, live)],
              *sw.frame(o.st, st, [n], [n], True), ('contents', Q('contents', ['key'], content), ('C01', 'C03', 'C10') + (('C08',) if sw.stable else ())), ('settled slots', Q('settled', [('slot', m.grp)], done), ('C01', 'C12')),
              ('settled elements cannot be missed', sw.f_win(st, m, n, cap, what=lambda b: z3.Not(avail(b))), ('C01',))]
        return l

    def measure(self, ctx, st, ph, entry):
        if self.outer is None: return ~ph[self.i]
        return self.sw.cnt(st, ctx.unit['old'].m, 'nD')
