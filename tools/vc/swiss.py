"""Swiss tables: data invariant, contracts of the functions of swiss_table, loop invariants."""
from base import *
from sym import _cnt

EMPTY, DEL, SENT = 0x80, 0xFE, 0xFF


def occ(b): return z3.Extract(7, 7, b) == 0
def avail(b): return b < bv(0xFF, 8)            # signed: empty and deleted
def h2of(h): return z3.Extract(7, 0, h) & bv(0x7F, 8)


class Swiss(Model):
    def __init__(self, ls, W=16, is_map=True, stable=False, ordered=False):
        Model.__init__(self)
        self.W, self.is_map, self.stable, self.ordered = W, is_map, stable, ordered
        n, f, s = find_layout(ls, r'class tpp::_detail::swiss_table<')
        self.o_size, self.o_ne = off(f, 'm_size'), off(f, 'm_num_empty')
        self.o_cap, self.o_meta, self.o_nodes = off(f, 'capacity'), off(f, 'm_metadata'), off(f, 'm_nodes')
        self.T_size = s
        self.node_layout(ls)
        self.nT, self.share = 0, None

    def node_layout(self, ls):
        n, f, s = find_layout(ls, r'struct tpp::_detail::packed_node<|class tpp::_detail::packed_node<')
        self.S = s
        self.o_hash = off(f, 'hash')
        self.objs = [0, 8] if self.is_map else [0]

    # ---------------------------------------------------------------- regions
    def new_region(self, ctx, st, n, sz, empty=True):
        k = next(_cnt)
        g = self.share if self.share is not None else k
        if sz == 1:
            r = Region('meta%d' % k, 'arr', 1, n, g, {'role': 'meta', 'heap': True})
            st.regs[r.name] = r
            st.mem[(r.name, 0, 8)] = fresh(r.name, z3.ArraySort(B64, B8))
            for c in ('nO', 'nE', 'nD'): st.mem[(r.name, c)] = fresh(c, B64)
            return r
        if sz == self.S:
            r = Region('nodes%d' % k, 'arr', self.S, n, g, {'role': 'nodes', 'heap': True})
            st.regs[r.name] = r
            self.node_arrays(st, r, empty=empty)
            return r
        raise Unsupported('allocation of %d-byte elements' % sz)

    def node_arrays(self, st, r, empty):
        for o in self.objs:
            st.mem[(r.name, 'v', o)] = fresh(r.name + '.v%d' % o, z3.ArraySort(B64, V))
            st.mem[(r.name, 'al', o)] = z3.K(B64, z3.BoolVal(False)) if empty else fresh(r.name + '.al%d' % o, z3.ArraySort(B64, z3.BoolSort()))
        st.mem[(r.name, self.o_hash, 64)] = fresh(r.name + '.hash', z3.ArraySort(B64, B64))
        st.mem[(r.name, 'cur')] = fresh(r.name + '.cur', z3.ArraySort(K, B64))

    def table(self, ctx, st, name, null=False, ro=False):
        """a table object in an arbitrary state that satisfies the invariant"""
        self.nT += 1
        g = 't%d' % self.nT
        T = Region(name, 'rec', self.T_size, meta={'table': True, 'ro': ro, 'strict': True}); st.regs[name] = T; st.live[name] = True
        if null:
            st.mem[(name, self.o_size, 64)] = bv(0); st.mem[(name, self.o_ne, 64)] = bv(0); st.mem[(name, self.o_cap, 64)] = bv(0)
            st.mem[(name, self.o_meta, 64)] = NULL; st.mem[(name, self.o_nodes, 64)] = NULL
            return Ptr(T, None, 0)
        st.mem[(name, self.o_size, 64)] = fresh(name + '.size', B64)
        st.mem[(name, self.o_ne, 64)] = fresh(name + '.num_empty', B64)
        cap = fresh(name + '.cap', B64); st.term('cap', cap)
        st.mem[(name, self.o_cap, 64)] = cap
        self.fresh_buffers(ctx, st, T, cap)
        return Ptr(T, None, 0)

    def fresh_buffers(self, ctx, st, T, cap):
        m = self.new_region(ctx, st, cap + self.W, 1)
        n = self.new_region(ctx, st, cap, self.S, empty=False)
        for r in (m, n): st.live[r.name] = True
        st.add(z3.ULE(cap + self.W, bv(1 << 47)), z3.ULE(cap, bv((1 << 47) // self.S)))
        st.mem[(T.name, self.o_meta, 64)] = Ptr(m, bv(0), 0); st.mem[(T.name, self.o_nodes, 64)] = Ptr(n, bv(0), 0)

    def maxsize(self, c):
        r = c - z3.LShR(c, 3)
        return r if self.W != 8 else z3.If(c == 7, bv(6), r)

    # ---------------------------------------------------------------- views
    def t_cap(self, st, T): return st.mem[(T.name, self.o_cap, 64)]
    def t_size(self, st, T): return st.mem[(T.name, self.o_size, 64)]
    def t_ne(self, st, T): return st.mem[(T.name, self.o_ne, 64)]
    def t_meta(self, st, T): return st.mem[(T.name, self.o_meta, 64)].r
    def t_nodes(self, st, T): return st.mem[(T.name, self.o_nodes, 64)].r
    def raw(self, st, m, q): return z3.Select(st.mem[(m.name, 0, 8)], q)
    def keyv(self, st, n, s): return z3.Select(st.mem[(n.name, 'v', self.objs[0])], s)
    def mapv(self, st, n, s): return z3.Select(st.mem[(n.name, 'v', self.objs[1])], s)
    def hashv(self, st, n, s): return z3.Select(st.mem[(n.name, self.o_hash, 64)], s)
    def cur(self, st, n, c): return z3.Select(st.mem[(n.name, 'cur')], c)
    def tix(self, st, n, cap, s): return TI(cap, Hc(cls(self.keyv(st, n, s))), s)
    def cnt(self, st, m, c): return st.mem[(m.name, c)]

    def has(self, st, T, c, m=None, n=None, cap=None):
        """the key class c is stored in the table"""
        if m is None: m, n, cap = self.t_meta(st, T), self.t_nodes(st, T), self.t_cap(st, T)
        if m is None: return z3.BoolVal(False)
        s = self.cur(st, n, c)
        return z3.And(z3.ULT(s, cap), occ(self.raw(st, m, s)), cls(self.keyv(st, n, s)) == c)

    # ---------------------------------------------------------------- the invariant
    def f_shape(self, st, m, cap):
        st = fz(st)
        W = self.W

        def mir(q):
            b = self.raw(st, m, q)
            return z3.Implies(z3.ULT(q, cap + W),
                              conj(z3.Implies(q == cap, b == bv(SENT, 8)),
                                   z3.Implies(z3.And(q != cap, z3.ULE(q, 2 * cap)), b == self.raw(st, m, q & cap)),
                                   z3.Implies(z3.UGT(q, 2 * cap), b == bv(EMPTY, 8))))
        return Q('mirror', [('raw', m.grp)], mir, gex=lambda q: [(('raw', m.grp), q & cap), (('slot', m.grp), q & cap)])

    def f_legal(self, st, m, cap):
        st = fz(st)
        def fn(s):
            b = self.raw(st, m, s)
            return z3.Implies(z3.ULT(s, cap), z3.Or(occ(b), b == EMPTY, b == DEL)), [(('raw', m.grp), s)]
        return Q('legal', [('slot', m.grp)], fn)

    def slot_ok(self, st, m, n, cap, s, member=None):
        """everything the invariant says about an occupied slot by itself"""
        W = self.W
        c = cls(self.keyv(st, n, s)); h = Hc(c)
        return conj(self.hashv(st, n, s) == h, self.raw(st, m, s) == h2of(h), self.cur(st, n, c) == s)

    def f_occ(self, st, m, n, cap):
        st = fz(st)
        def fn(s):
            return z3.Implies(z3.And(z3.ULT(s, cap), occ(self.raw(st, m, s))), self.slot_ok(st, m, n, cap, s)), [(('raw', m.grp), s)] + self.exs(st, n, s)
        return Q('occupied slots', [('slot', m.grp)], fn)

    def f_win(self, st, m, n, cap, what=None):
        st = fz(st)
        W = self.W

        def fn(s, i, q):
            b = self.raw(st, m, q)
            return z3.Implies(conj(z3.ULT(s, cap), occ(self.raw(st, m, s)), z3.ULT(i, self.tix(st, n, cap, s)), i & (W - 1) == 0, z3.ULT(q - PF(cap, Hc(cls(self.keyv(st, n, s))), i), W)),
                              b != EMPTY if what is None else what(b))
        return Q('probe windows', [('slot', m.grp), ('pidx', m.grp), ('raw', m.grp)], fn, gex=lambda s, i, q: [(('raw', m.grp), s), (('raw', m.grp), q & cap), (('slot', m.grp), q & cap)] + self.exs(st, n, s))

    def life(self, st, m, n, cap, pred, terms=None):
        """exactly the slots with pred hold a live element"""
        st = fz(st)
        terms = terms or (lambda s: [(('raw', m.grp), s)])
        return [('element lifetimes', Q('lifetimes', [('slot', m.grp)], lambda s: (z3.Implies(z3.ULT(s, cap), self.alive_are(st, n, s, pred(s))), terms(s))))]

    def f_life(self, st, m, n, cap):
        f = fz(st)
        return self.life(f, m, n, cap, lambda s: occ(self.raw(f, m, s)))

    def same_slot(self, st0, n0, s0, st1, n1, s1):
        """the node has the same contents"""
        return conj(self.hashv(st0, n0, s0) == self.hashv(st1, n1, s1), *[z3.Select(st0.mem[(n0.name, 'v', k)], s0) == z3.Select(st1.mem[(n1.name, 'v', k)], s1) for k in self.objs])

    # hooks of the node-based tables
    def exs(self, st, n, s): return []
    def frame(self, s0, st, olds, news, moves=False): return []
    def havoc_cells(self, ctx, st, moves): pass
    def begin_state(self, st): pass
    def no_leak(self, st, ns, handles=()): return []

    def none_alive(self, st, n, cap, g):
        f = fz(st)
        return Q('none alive', [('slot', g)], lambda s: z3.Implies(z3.ULT(s, cap), z3.Not(self.any_alive(f, n, s))))

    def i_num(self, st, T, m, n, cap):
        nO, nE, nD = (self.cnt(st, m, c) for c in ('nO', 'nE', 'nD'))
        mx = self.maxsize(cap)
        return conj(pow2m1(cap), m.n == cap + self.W, n.n == cap, nO == self.t_size(st, T), nE == self.t_ne(st, T) + (cap - mx), nO + nE + nD == cap,
                    z3.ULE(nO, cap), z3.ULE(nE, cap), z3.ULE(nD, cap), z3.ULE(self.t_ne(st, T), mx), z3.ULE(self.t_size(st, T) + self.t_ne(st, T), mx))

    def inv(self, st, T, life=True):
        m, n, cap = self.t_meta(st, T), self.t_nodes(st, T), self.t_cap(st, T)
        if m is None or n is None:
            return [('an empty table has no elements', conj(z3.BoolVal(m is None and n is None), cap == 0, self.t_size(st, T) == 0, self.t_ne(st, T) == 0), ())]
        m.x['slots'] = n.grp = m.grp       # slot terms of both regions are shared
        l = [('sizes and counters', self.i_num(st, T, m, n, cap), ('C03', 'C10', 'C12')), ('metadata mirror', self.f_shape(st, m, cap), ('C01', 'C12')), ('legal metadata', self.f_legal(st, m, cap), ('C01', 'C12')),
             ('occupied slots', self.f_occ(st, m, n, cap), ('C01', 'C03')), ('probe windows', self.f_win(st, m, n, cap), ('C01',))]
        if life: l += [(nm, q, ('C07',)) for nm, q in self.f_life(st, m, n, cap)]
        return l

    def sig(self, st, T):
        m, n = self.t_meta(st, T), self.t_nodes(st, T)
        l = [st.mem.get((T.name, o, 64)) for o in (self.o_size, self.o_ne, self.o_cap)]
        if m is not None and n is not None:
            l += [v for k, v in sorted(((k, v) for k, v in st.mem.items() if k[0] in (m.name, n.name)), key=lambda x: str(x[0])) if z3.is_expr(v)]
        return (m and m.name, n and n.name) + tuple(x.get_id() if z3.is_expr(x) else None for x in l)

    def inv_goals(self, st, T):
        """the invariant as an obligation; trivial where nothing has been touched since it was last established"""
        if st.g.get(('inv', T.name)) == self.sig(st, T): return [('the table satisfies its invariant', z3.BoolVal(True), ('C01', 'C12'))]
        return self.inv(st, T)

    def assume_inv(self, ctx, st, T):
        for nm, q, tg in self.inv(st, T): st.add(q)
        st.g[('inv', T.name)] = self.sig(st, T)
        m = self.t_meta(st, T)
        if m is not None: self.witness(st, m, self.t_cap(st, T))

    def witness(self, st, m, cap):
        """meaning of the counters: a non-zero count has a slot"""
        g = m.grp
        for c, pr in (('nE', lambda b: b == EMPTY), ('nD', lambda b: b == DEL), ('nO', occ)):
            e = fresh('wit_' + c, B64)
            st.add(z3.Implies(self.cnt(st, m, c) != 0, z3.And(z3.ULT(e, cap), pr(self.raw(st, m, e)))))
            st.term(('slot', g), e); st.term(('raw', g), e)
            st.g[('wit', m.name, c)] = e
        z = bv(0)
        st.add(Q('counts', [('slot', g)], self.count_fact(st, m, cap)))

    def count_fact(self, st, m, cap):
        nO, nE, nD = (self.cnt(st, m, c) for c in ('nO', 'nE', 'nD'))
        a = st.mem[(m.name, 0, 8)]

        def fn(s):
            b = z3.Select(a, s)
            return z3.Implies(z3.ULT(s, cap), conj(z3.Implies(occ(b), nO != 0), z3.Implies(b == EMPTY, nE != 0), z3.Implies(b == DEL, nD != 0)))
        return fn

    # ---------------------------------------------------------------- bulk writes
    def fill(self, ctx, st, p, b, n):
        m = p.r
        if m.x.get('role') != 'meta': raise Unsupported('fill of ' + m.name)
        ctx.oblige(st, z3.And(z3.ULE(p.i, m.n), z3.ULE(n, m.n - p.i)), 'filled bytes lie inside ' + m.name, TAG_MEM)
        a0 = st.mem[(m.name, 0, 8)]
        a1 = fresh(m.name, z3.ArraySort(B64, B8))
        st.mem[(m.name, 0, 8)] = a1
        st.add(Q('filled', [('raw', m.grp)], lambda q: z3.Select(a1, q) == z3.If(z3.And(z3.ULE(p.i, q), z3.ULT(q - p.i, n)), b, z3.Select(a0, q))))
        bs = z3.simplify(b)
        for c in ('nO', 'nE', 'nD'): st.mem[(m.name, c)] = fresh(c, B64)
        whole = z3.And(p.i == 0, n == m.n)
        if z3.is_bv_value(bs) and bs.as_long() == EMPTY:       # counting: every slot is empty
            cap = m.n - self.W
            st.add(z3.Implies(whole, conj(st.mem[(m.name, 'nO')] == 0, st.mem[(m.name, 'nD')] == 0, st.mem[(m.name, 'nE')] == cap)))

    def auto_loop(self, ctx, f, h):
        fl = fill_pattern(f, h)
        return FillLoop(fl) if fl else None

    # ---------------------------------------------------------------- events
    def on_value(self, ctx, st, p, v):
        if p.r.x.get('role') == 'nodes' and p.o == self.objs[0]:
            c = cls(v); k = (p.r.name, 'cur')
            st.mem[k] = z3.Store(st.mem[k], c, p.i)
            st.term('key', c)

    def on_meta_store(self, ctx, st, r, q, old, new):
        ncap = r.n - self.W
        ins = z3.ULT(q, ncap)
        for c, pr in (('nO', occ), ('nE', lambda b: b == EMPTY), ('nD', lambda b: b == DEL)):
            k = (r.name, c); n0 = st.mem[k]
            was, now = z3.And(ins, pr(old)), z3.And(ins, pr(new))
            st.add(z3.Implies(was, n0 != 0), z3.ULE(n0, ncap))
            st.mem[k] = z3.simplify(n0 + z3.If(z3.And(now, z3.Not(was)), bv(1), z3.If(z3.And(was, z3.Not(now)), bv(-1), bv(0))))
        if z3.is_bv(q): st.term(('slot', r.grp), q)

    # ---------------------------------------------------------------- elements and iterators
    def any_alive(self, st, n, s): return z3.Or(*[z3.Select(st.mem[(n.name, 'al', o)], s) for o in self.objs])
    def alive_are(self, st, n, s, b): return conj(*[z3.Select(st.mem[(n.name, 'al', o)], s) == b for o in self.objs])
    def clear_life(self, ctx, st, n):
        for o in self.objs: st.mem[(n.name, 'al', o)] = fresh(n.name + '.al', z3.ArraySort(B64, z3.BoolSort()))

    def set_iter(self, st, rec, snap, q):
        st.mem[(rec.name, 0, 64)] = Ptr(snap.m, q, 0) if snap.m is not None else NULL
        st.mem[(rec.name, 8, 64)] = Ptr(snap.n, q, 0) if snap.n is not None else NULL
        if snap.m is None: st.add(q == 0)

    def get_iter(self, st, rec, snap):
        """-> (position, obligations)"""
        a, b = st.mem.get((rec.name, 0, 64)), st.mem.get((rec.name, 8, 64))
        ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is snap.m and b.r is snap.n and b.o == 0
        if not ok: return None, [('the iterator belongs to the table', z3.BoolVal(False), None)]
        if snap.m is None: return bv(0), []
        st.term(('slot', snap.m.grp), a.i); st.term(('raw', snap.m.grp), a.i)
        return a.i, [('metadata and node agree', a.i == b.i, None)]

    def is_elem(self, st, snap, p, k, q):
        return z3.BoolVal(False) if p.r is not snap.n or p.o != self.objs[k] else p.i == q

    def perm_args(self, ctx, st, a):
        fl = []
        for x in a:
            if isinstance(x, Ptr) and x.r is not None and x.r.kind == 'rec': fl += [st.mem.get((x.r.name, x.o + d, 64)) for d in (0, 8)]      # passed in memory
            else: fl.append(x)
        a = fl
        if len(a) != 8 or not all(isinstance(x, Ptr) for x in a): return None
        return [((a[0], a[1]), (a[2], a[3])), ((a[4], a[5]), (a[6], a[7]))]

    def iter_of(self, it, snap): return it[0].r is snap.m and it[1].r is snap.n
    def iter_pos(self, it): return it[0].i if it[0].r is not None else bv(0)

    def owned(self, st, T):
        return [r for r in (self.t_meta(st, T), self.t_nodes(st, T)) if r is not None]

    def mask_lanes(self, w):
        return list(range(self.W)) if self.W == 16 else [7 + 8 * j for j in range(8)]

    def on_free(self, ctx, st, r):
        if r.x.get('role') == 'nodes':
            ctx.oblige(st, self.none_alive(st, r, r.n, r.grp), 'no live element in released memory', TAG_LIFE)


# -------------------------------------------------------------------- contracts
class FindNode(Contract):
    name = 'find_node'

    def __init__(self, sw): self.sw = sw
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'k': args[1], 'h': args[2]}

    def pre(self, ctx, st, a):
        sw = self.sw
        c = cls(sw.value(ctx, st, a['k']))
        return sw.inv_goals(st, a['T']) + [('the hash belongs to the key', a['h'] == Hc(c), ('C01',)), ('the key is alive', sw.is_alive(ctx, st, a['k']), ('C07',))]

    def havoc(self, ctx, st, a): 
        r = fresh('found', B64)
        m = self.sw.t_meta(st, a['T'])
        if m is None: return [(st, bv(0))]
        st.term(('slot', m.grp), r)
        return [(st, r)]

    def post(self, ctx, st0, st, ret, a):
        sw, T = self.sw, a['T']
        c = cls(sw.value(ctx, st, a['k']))
        st.term('key', c)
        if sw.t_meta(st, T) is None: return [('the end position is returned', ret == 0, ('C01',))]
        s = sw.cur(st, sw.t_nodes(st, T), c)
        for d, t in [(('slot', sw.t_meta(st, T).grp), s)] + sw.exs(st, sw.t_nodes(st, T), s): st.term(d, t)
        return [('the position of the key, or the end position if it is not stored', ret == z3.If(sw.has(st, T, c), s, sw.t_cap(st, T)), ('C01', 'C03', 'C13', 'C14'))]


class FindAvailable(Contract):
    name = 'find_available'

    def __init__(self, sw): self.sw = sw
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'h': args[1]}

    def pre(self, ctx, st, a):
        sw, T = self.sw, a['T']
        m, n, cap = sw.t_meta(st, T), sw.t_nodes(st, T), sw.t_cap(st, T)
        if m is None: return [('the table has buffers', z3.BoolVal(False), ('C12',))]
        n.grp = m.grp
        return [('probe geometry', z3.And(pow2m1(cap), cap != 0, m.n == cap + sw.W), ('C12',)), ('metadata mirror', sw.f_shape(st, m, cap), ('C12',)),
                ('an available slot exists', z3.Or(z3.ULT(cap, sw.W - 1), sw.cnt(st, m, 'nE') != 0, sw.cnt(st, m, 'nD') != 0), ('C12',))]

    def havoc(self, ctx, st, a):
        r = fresh('avail', B64)
        m = self.sw.t_meta(st, a['T'])
        st.term(('slot', m.grp), r); st.term(('raw', m.grp), r)
        return [(st, r)]

    def post(self, ctx, st0, st, ret, a):
        sw, T, W = self.sw, a['T'], self.sw.W
        m, cap = sw.t_meta(st, T), sw.t_cap(st, T)
        t = TI(cap, a['h'], ret)
        b = sw.raw(st, m, ret)
        arr = st.mem[(m.name, 0, 8)]

        def win(i, q):
            return z3.Implies(conj(z3.ULT(i, t), i & (W - 1) == 0, z3.ULT(q - PF(cap, a['h'], i), W)), z3.Not(avail(z3.Select(arr, q))))

        def none(s):
            return z3.Implies(z3.And(ret == cap, z3.ULT(s, cap)), z3.Not(avail(z3.Select(arr, s)))), [(('raw', m.grp), s + cap + 1)]
        return [('an available slot', conj(z3.ULE(ret, cap), z3.Implies(ret != cap, avail(b)), z3.Implies(ret == cap, z3.ULT(cap, W - 1))), ('C01', 'C12')),
                ('no available slot in earlier windows', Q('earlier windows', [('pidx', m.grp), ('raw', m.grp)], win), ('C01',)),
                ('the sentinel only if nothing is available', Q('full', [('slot', m.grp)], none), ('C01', 'C12'))]


# -------------------------------------------------------------------- loops of the probing functions
def const_entry(phis, entry, n):
    return [d for d, v in entry.items() if z3.is_bv(v) and v.size() == 64 and z3.is_bv_value(z3.simplify(v)) and z3.simplify(v).as_long() == n]


class ProbeOuter(LoopSpec):
    """windows are visited in probe order"""
    def __init__(self, sw, kind): self.sw, self.kind, self.name = sw, kind, kind + ' probe loop'

    def start(self, ctx, f, st, entry, h):
        self.idx = const_entry(None, entry, 0)
        self.pos = [d for d, v in entry.items() if z3.is_bv(v) and v.size() == 64 and d not in self.idx]
        if len(self.idx) != 1 or len(self.pos) != 1: raise Unsupported('probe loop of %s not recognised' % f.base)
        self.idx, self.pos = self.idx[0], self.pos[0]

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a, W = self.sw, ctx.unit, self.sw.W
        T = a['T']
        m, n, cap = sw.t_meta(st, T), sw.t_nodes(st, T), sw.t_cap(st, T)
        i, p = ph[self.idx], ph[self.pos]
        st.term(('pidx', m.grp), i)
        l = [('window position', conj(win_idx(cap, i, W), p == PF(cap, a['h'], i)), ('C01', 'C12'))]
        e = [st.g.get(('wit', m.name, c)) for c in (('nE',) if self.kind == 'lookup' else ('nE', 'nD'))]
        l.append(('a window with an %s slot lies ahead' % ('empty' if self.kind == 'lookup' else 'available'),
                  z3.Implies(z3.UGE(cap, W - 1), z3.Or(*[z3.And(sw.cnt(st, m, c) != 0, z3.ULE(i, TI(cap, a['h'], w))) for c, w in zip(('nE', 'nD'), e)])), ('C12',)))
        if self.kind == 'lookup':
            c = a['c']
            s = sw.cur(st, n, c)
            l.append(('the key is not in an earlier window', z3.Implies(sw.has(st, T, c), z3.ULE(i, TI(cap, a['h'], s))), ('C01',)))
        else:
            arr = st.mem[(m.name, 0, 8)]
            l.append(('no available slot in earlier windows', Q('earlier windows', [('pidx', m.grp), ('raw', m.grp)],
                      lambda j, q: z3.Implies(conj(z3.ULT(j, i), j & (W - 1) == 0, z3.ULT(q - PF(cap, a['h'], j), W)), z3.Not(avail(z3.Select(arr, q))))), ('C01',)))
        return l

    def step(self, ctx, f, st, old, new, entry):
        sw, a = self.sw, ctx.unit
        m, cap = sw.t_meta(st, a['T']), sw.t_cap(st, a['T'])
        i = old[self.idx]
        st.add(PF(cap, a['h'], i + sw.W) == ((PF(cap, a['h'], i) + i + sw.W) & cap))    # definition of the probe sequence

    def measure(self, ctx, st, ph, entry): return ~ph[self.idx]


class MatchLoop(LoopSpec):
    """candidates of one window"""
    name = 'candidate loop'

    def __init__(self, sw): self.sw = sw

    def start(self, ctx, f, st, entry, h):
        c = [d for d, v in entry.items() if z3.is_bv(v) and v.size() == 64]
        if len(c) != 1: raise Unsupported('candidate loop of %s not recognised' % f.base)
        self.m = c[0]
        hd = list(st.g['@hdr'].values())[-1][1]
        self.outer = [s for s in ctx.outer_specs if isinstance(s, ProbeOuter)][0]
        self.p = hd[self.outer.pos]

    def inv(self, ctx, f, st, ph, entry, st0):
        sw, a = self.sw, ctx.unit
        T = a['T']
        n, cap = sw.t_nodes(st, T), sw.t_cap(st, T)
        E, M = entry[self.m], ph[self.m]
        l = [('only candidates remain', M & ~E == 0, ('C01', 'C12'))]
        cs = []
        for j, ln in enumerate(sw.mask_lanes(64)):
            s = (self.p + j) & cap
            cs.append(z3.Implies(z3.And(z3.Extract(ln, ln, E) == 1, z3.Extract(ln, ln, M) == 0), cls(sw.keyv(st, n, s)) != a['c']))
        l.append(('rejected candidates have other keys', conj(*cs), ('C01',)))
        return l

    def measure(self, ctx, st, ph, entry): return ph[self.m]


# -------------------------------------------------------------------- fill loops
def fill_pattern(f, h):
    """loop that stores one constant byte at consecutive addresses: (phi, kind, store op, compare op, exit, body) or None"""
    L = f.analyse()[h]
    if any(g != h and g in L for g in f.loops) or len(L) > 2: return None
    ops = [o for b in L for o in f.blocks[b]]
    st = [o for o in ops if o.op == 'store']
    if len(st) != 1 or any(o.op in ('call', 'invoke', 'load', 'memcpy') for o in ops): return None
    phis = [o for o in ops if o.op == 'phi']
    allowed = {'phi', 'store', 'getelementptr', 'add', 'sub', 'icmp', 'br'}
    if any(o.op not in allowed for o in ops): return None
    s = st[0]
    if s.a[0][0] != 'c' or str(s.ty) != str(Ty('i', None, 8)): return None
    cmps = [o for o in ops if o.op == 'icmp']
    brs = [o for o in ops if o.op == 'br' and o.a]
    if len(cmps) != 1 or len(brs) != 1 or brs[0].a[0] != ('v', cmps[0].d) or brs[0] not in f.blocks[h]: return None
    defs = {o.d: o for o in ops if o.d}
    if s.a[1][0] != 'v': return None
    tgt = s.a[1][1]
    for ph in phis:
        back = [v for v, l in ph.x if l in L]
        if len(back) != 1 or back[0][0] != 'v' or back[0][1] not in defs: return None
        inc = defs[back[0][1]]
        up = None
        if inc.op == 'getelementptr' and inc.a[0] == ('v', ph.d) and len(inc.x) == 1 and inc.x[0][1] == ('c', '1') and str(inc.ty) == str(Ty('i', None, 8)): up = 1
        elif inc.op == 'add' and inc.a[0] == ('v', ph.d) and inc.a[1] == ('c', '1'): up = 1
        elif inc.op == 'add' and inc.a[0] == ('v', ph.d) and inc.a[1] == ('c', '-1'): up = -1
        elif inc.op == 'sub' and inc.a[0] == ('v', ph.d) and inc.a[1] == ('c', '1'): up = -1
        if up is None: return None
        ph_up = up
        defs['up ' + ph.d] = up
    addr = None
    if tgt in [p.d for p in phis] and defs['up ' + tgt] == 1: addr = ('ptr', tgt)
    elif tgt in defs and defs[tgt].op == 'getelementptr' and len(defs[tgt].x) == 1 and defs[tgt].x[0][1][0] == 'v' and defs[tgt].a[0][0] == 'v' and defs[tgt].a[0][1] not in defs and str(defs[tgt].ty) == str(Ty('i', None, 8)):
        ix = defs[tgt].x[0][1][1]
        if ix in [p.d for p in phis] and defs['up ' + ix] == 1: addr = ('idx', ix, defs[tgt].a[0])
    if addr is None: return None
    c, br = cmps[0], brs[0]
    ins = [l in L for l in br.x]
    if sum(ins) != 1: return None
    return {'addr': addr, 'cmp': c, 'br': br, 'store': s, 'cont': 0 if ins[0] else 1, 'phis': [p.d for p in phis], 'up': {p.d: defs['up ' + p.d] for p in phis}, 'blocks': L}


class FillLoop(LoopSpec):
    """summary of a fill loop: n iterations write n consecutive bytes"""
    name = 'fill'

    def __init__(self, fl): self.fl = fl

    def emit(self, ctx, st, e1, p, n): ctx.cfg.fill(ctx, st, p, ctx.val(st, e1, self.fl['store'].a[0], self.fl['store'].ty), n)

    def summarise(self, ctx, f, st, env, h, prev):
        fl = self.fl
        e1 = dict(env)
        entry, _ = ctx.enter_phis(f, st, e1, h, prev, False)
        c = fl['cmp']
        a = [x for x in c.a]
        lv = [x[1] if x[0] == 'v' and x[1] in entry else None for x in a]
        if (lv[0] is None) == (lv[1] is None): raise Unsupported('fill loop condition')
        k = 0 if lv[0] is not None else 1
        ph, bound = lv[k], a[1 - k]
        pred = c.x
        if k == 1: pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
        bnd = ctx.val(st, e1, bound, c.ty)
        cur = entry[ph]
        up = fl['up'][ph]
        want = ('ne', 'ult') if fl['cont'] == 0 else ('eq', 'uge')
        if up == -1: want = ('ne', 'ugt') if fl['cont'] == 0 else ('eq', 'ule')
        if pred not in want: raise Unsupported('fill loop condition')
        if isinstance(cur, Ptr):
            if not isinstance(bnd, Ptr) or cur.r is not bnd.r: raise Unsupported('fill loop bounds')
            x, y = cur.i, bnd.i
        else: x, y = cur, bnd
        if up == -1: x, y = y, x
        if pred in ('ne', 'eq'): ctx.oblige(st, z3.ULE(x, y), 'the fill loop terminates', TAG_MEM); n = y - x; st.add(z3.ULE(x, y))
        else: n = z3.If(z3.ULT(x, y), y - x, bv(0))
        if up == -1 and pred in ('ugt', 'ule') and not (z3.is_bv_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0): raise Unsupported('fill loop bounds')
        n = z3.simplify(n)
        if fl['addr'][0] == 'ptr': p = entry[fl['addr'][1]]
        else:
            b = ctx.val(st, e1, fl['addr'][2], PTR); p = Ptr(b.r, b.i + entry[fl['addr'][1]], b.o) if b.r is not None else b
        if p.r is None: ctx.oblige(st, n == 0, 'fill of a null pointer', TAG_MEM)
        else:
            if not st.live.get(p.r.name): ctx.oblige(st, False, 'fill of released memory', TAG_MEM)
            self.emit(ctx, st, e1, p, n)
        for d, v in entry.items():
            e1[d] = Ptr(v.r, v.i + n, v.o) if isinstance(v, Ptr) and v.r is not None else (v if isinstance(v, Ptr) else z3.simplify(v + n * bv(fl['up'][d], v.size()) if v.size() == 64 else fresh('phi', v.sort())))
        ex = fl['br'].x[1 - fl['cont']]
        return [(st, e1, ex, h)]
