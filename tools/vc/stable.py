"""Node-based (stable) swiss tables: every element is a heap object of its own, the nodes hold its address.

Heap objects are numbered (0: null). Ghost state: blk (allocated), ow/os (the node region and the slot that hold the address; ow 0: none)."""
from swiss import *
from sym import _cnt

CL = 'cells'
ID = ('slot', CL)
KEYS = ('blk', 'ow', 'os')


class StableSwiss(Swiss):
    def __init__(self, ls, W=16, is_map=True, ordered=False):
        Swiss.__init__(self, ls, W, is_map, True, ordered)

    def node_layout(self, ls):
        n, f, s = find_layout(ls, r'(struct|class) tpp::_detail::stable_node<[^:]*>$|(struct|class) tpp::_detail::stable_node<')
        self.S = s
        self.o_ptr, self.o_hash = off(f, 'm_ptr'), off(f, 'm_hash')
        self.objs = [0, 8] if self.is_map else [0]
        self.cellS = 8 * len(self.objs)

    # ---- heap objects
    def begin_state(self, st):
        r = Region(CL, 'arr', self.cellS, bv(0), CL, {'role': 'cell'})
        st.regs[CL] = r; st.live[CL] = True
        for o in self.objs:
            st.mem[(CL, 'v', o)] = fresh('cell.v', z3.ArraySort(B64, V)); st.mem[(CL, 'al', o)] = fresh('cell.al', z3.ArraySort(B64, z3.BoolSort()))
        for k, t in zip(KEYS, (z3.BoolSort(), B64, B64)): st.mem[(CL, k)] = fresh('cell.' + k, z3.ArraySort(B64, t))
        st.add(z3.Not(self.blk(st, bv(0))))

    def blk(self, st, i): return z3.Select(st.mem[(CL, 'blk')], i)
    def ow(self, st, i): return z3.Select(st.mem[(CL, 'ow')], i)
    def os(self, st, i): return z3.Select(st.mem[(CL, 'os')], i)
    def cells(self): return [(CL, 'v', o) for o in self.objs] + [(CL, 'al', o) for o in self.objs] + [(CL, k) for k in KEYS]
    def cell_ok(self, st, p): return z3.And(p.i != 0, self.blk(st, p.i))
    def rid(self, n): return n.x['rid']

    def vp_alloc(self, ctx, st, f, a):
        n, sz = z3.simplify(a[0]), z3.simplify(a[1]).as_long()
        if z3.is_bv_value(n) and n.as_long() == 1 and sz == self.cellS:
            i = fresh('cell', B64)
            st.add(i != 0, z3.Not(self.blk(st, i)))
            st.mem[(CL, 'blk')] = z3.Store(st.mem[(CL, 'blk')], i, z3.BoolVal(True))
            st.mem[(CL, 'ow')] = z3.Store(st.mem[(CL, 'ow')], i, bv(0))
            for o in self.objs: st.mem[(CL, 'al', o)] = z3.Store(st.mem[(CL, 'al', o)], i, z3.BoolVal(False))
            st.term(ID, i)
            return [(st, Ptr(st.regs[CL], i, 0))]
        return Swiss.vp_alloc(self, ctx, st, f, a)

    def vp_dealloc(self, ctx, st, f, a):
        p = a[0]
        if isinstance(p, Ptr) and p.r is not None and p.r.x.get('role') == 'cell':
            sz = z3.simplify(a[2]).as_long()
            ctx.oblige(st, conj(self.cell_ok(st, p), z3.BoolVal(p.o == 0 and sz == self.cellS), a[1] == 1), 'only allocated elements are released, once and with their size', TAG_LIFE)
            ctx.oblige(st, conj(*[z3.Not(z3.Select(st.mem[(CL, 'al', o)], p.i)) for o in self.objs]), 'no live element in released memory', TAG_LIFE)
            st.mem[(CL, 'blk')] = z3.Store(st.mem[(CL, 'blk')], p.i, z3.BoolVal(False))
            st.term(ID, p.i)
            return [(st, None)]
        return Swiss.vp_dealloc(self, ctx, st, f, a)

    # ---- nodes
    def node_arrays(self, st, r, empty):
        r.x['ptrs'] = {self.o_ptr: CL}; r.x['rid'] = bv(next(_cnt) + 1)
        st.mem[(r.name, self.o_ptr, 64)] = fresh(r.name + '.ptr', z3.ArraySort(B64, B64))
        st.mem[(r.name, self.o_hash, 64)] = fresh(r.name + '.hash', z3.ArraySort(B64, B64))
        st.mem[(r.name, 'cur')] = fresh(r.name + '.cur', z3.ArraySort(K, B64))
        if empty:      # no element belongs to new memory
            f = fz(st)
            st.add(Q('new memory ' + r.name, [ID], lambda i: self.ow(f, i) != self.rid(r)))

    def elem(self, st, n, s): return z3.Select(st.mem[(n.name, self.o_ptr, 64)], s)
    def keyv(self, st, n, s): return z3.Select(st.mem[(CL, 'v', self.objs[0])], self.elem(st, n, s))
    def mapv(self, st, n, s): return z3.Select(st.mem[(CL, 'v', self.objs[1])], self.elem(st, n, s))
    def exs(self, st, n, s): return [(ID, self.elem(st, n, s))]

    def same_slot(self, st0, n0, s0, st1, n1, s1):
        return conj(self.hashv(st0, n0, s0) == self.hashv(st1, n1, s1), self.elem(st0, n0, s0) == self.elem(st1, n1, s1))

    def holds(self, st, n, s):
        i = self.elem(st, n, s)
        return conj(i != 0, self.blk(st, i), self.ow(st, i) == self.rid(n), self.os(st, i) == s, *[z3.Select(st.mem[(CL, 'al', o)], i) for o in self.objs])

    def on_ptr_store(self, ctx, st, p, old, t):
        if p.o != self.o_ptr: return
        n, s = p.r, p.i
        ow, os = (CL, 'ow'), (CL, 'os')
        t = z3.simplify(t)
        null = z3.is_bv_value(t) and t.as_long() == 0
        mine = z3.And(self.ow(st, old) == self.rid(n), self.os(st, old) == s)
        st.mem[ow] = z3.Store(st.mem[ow], old, z3.If(mine, bv(0), self.ow(st, old)))
        st.term(ID, old)
        if null: return
        st.term(ID, t)
        st.mem[ow] = z3.Store(st.mem[ow], t, self.rid(n))
        st.mem[os] = z3.Store(st.mem[os], t, s)
        c = cls(z3.Select(st.mem[(CL, 'v', 0)], t))
        k = (n.name, 'cur')
        st.mem[k] = z3.Store(st.mem[k], c, z3.If(z3.Select(st.mem[(CL, 'al', 0)], t), s, z3.Select(st.mem[k], c)))
        st.term('key', c)

    def on_value(self, ctx, st, p, v):
        if p.r.x.get('role') != 'cell' or p.o != 0: return
        c = cls(v)
        st.term('key', c)
        for n, r in st.regs.items():
            if r.x.get('role') == 'nodes' and st.live.get(n):
                k = (n, 'cur')
                st.mem[k] = z3.Store(st.mem[k], c, z3.If(self.ow(st, p.i) == self.rid(r), self.os(st, p.i), z3.Select(st.mem[k], c)))

    # ---- lifetimes
    def life(self, st, m, n, cap, pred, terms=None):
        st = fz(st)
        terms = terms or (lambda s: [(('raw', m.grp), s)])

        def own(i):
            s = self.os(st, i)
            return z3.Implies(z3.And(self.blk(st, i), self.ow(st, i) == self.rid(n)), conj(z3.ULT(s, cap), self.elem(st, n, s) == i, pred(s))), [(('slot', m.grp), s)] + terms(s)
        return [('element lifetimes', Q('lifetimes', [('slot', m.grp)], lambda s: (z3.Implies(z3.And(z3.ULT(s, cap), pred(s)), self.holds(st, n, s)), terms(s) + self.exs(st, n, s)))),
                ('every element is held', Q('held ' + n.name, [ID], own))]

    def none_alive(self, st, n, cap, g):
        f = fz(st)
        return Q('none alive ' + n.name, [ID], lambda i: z3.Not(z3.And(self.blk(f, i), self.ow(f, i) == self.rid(n))))

    def clear_life(self, ctx, st, n):
        k = (n.name, self.o_ptr, 64)
        st.mem[k] = fresh(n.name + '.ptr', z3.ArraySort(B64, B64))

    def no_leak(self, st, ns, handles=()):
        f = fz(st)
        return [('no element is leaked', Q('no leak', [ID], lambda i: z3.Implies(self.blk(f, i), z3.Or(*[self.ow(f, i) == self.rid(n) for n in ns], *[i == h for h in handles]))), ('C07',))]

    def sig(self, st, T):
        return Swiss.sig(self, st, T) + tuple(st.mem[k].get_id() for k in self.cells())

    # ---- what functions leave alone
    def havoc_cells(self, ctx, st, moves):
        for k in self.cells():
            if not moves or k[1] in ('ow', 'os'): st.mem[k] = fresh('cell.' + str(k[1]), st.mem[k].sort())

    def frame(self, s0, st, olds, news, moves=False):
        """elements that are not held by olds stay as they are; the others are gone or held by news; moves: no element is constructed, changed or destroyed"""
        s0, st = fz(s0), fz(st)
        olds, news = [n for n in olds if n is not None], [n for n in news if n is not None]
        ks = self.cells()
        if all(s0.mem[k].eq(st.mem[k]) for k in ks) and all(n in news for n in olds): return []
        k = next(_cnt)
        stay = [k for k in ks if k[1] not in ('ow', 'os')]

        def fn(i):
            keep = z3.And(z3.Select(s0.mem[(CL, 'blk')], i), *[z3.Select(s0.mem[(CL, 'ow')], i) != self.rid(n) for n in olds])
            same = lambda l: conj(*[z3.Select(st.mem[k], i) == z3.Select(s0.mem[k], i) for k in l])
            return conj(z3.Implies(keep, same(ks)), z3.Implies(z3.And(self.blk(st, i), z3.Not(keep)), z3.Or(*[self.ow(st, i) == self.rid(n) for n in news])))
        l = [('other elements are left alone', Q('frame%d' % k, [ID], fn), ('C07', 'C08', 'C12'))]
        if moves: l.append(('no element is constructed, changed or destroyed', Q('moves%d' % k, [ID], lambda i: conj(*[z3.Select(st.mem[k], i) == z3.Select(s0.mem[k], i) for k in stay])), ('C08', 'C07', 'C01')))
        return l

    # ---- views
    def is_elem(self, st, snap, p, k, q):
        if p.r is None or p.r.x.get('role') != 'cell' or p.o != self.objs[k]: return z3.BoolVal(False)
        return p.i == self.elem(st, snap.n, q)
