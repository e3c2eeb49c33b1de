"""Dense tables: elements in one array, bucket chains of indices.  Data invariant, ghost state, contracts, loop invariants.

Ghost state per key J (stored with the element buffer): bk: slot -> bucket whose chain contains the slot (npos: none),
rank: slot -> Real, strictly increasing along every chain, cur: key class -> slot that carries it, dang: a slot whose link is
about to be copied.  Every write of a link location updates the ghosts (store below); what the updates mean is established by
the invariant, which relates the ghosts to the memory and is an obligation at the end of every function."""
from base import *
from sym import _cnt
from swiss import FillLoop, const_entry

NP = bv((1 << 64) - 1)
D, BK = ('slot', 'd'), ('slot', 'bkt')
UREM = z3.Function('remainder', B64, B64, B64)
R = z3.RealSort()


class Dense(Model):
    def __init__(self, ls, kind, ordered=False):
        Model.__init__(self)
        self.kind, self.K, self.ordered = kind, (1 if kind < 2 else 2), ordered
        self.is_map = kind in (0, 3)
        n, f, s = find_layout(ls, r'class tpp::_detail::dense_table<')
        self.o_size, self.o_dcap, self.o_ssize = off(f, 'm_dense_size'), off(f, 'm_dense_capacity'), off(f, 'm_sparse_size')
        self.o_sparse, self.o_dense, self.o_mlf = off(f, 'm_sparse'), off(f, 'm_dense'), off(f, 'm_max_load_factor')
        self.T_size = s
        n, f, s = [x for x in ls if x[0].startswith('struct tpp::_detail::dense_table_traits<') and x[0].endswith('::bucket_node')][0]
        self.S = s
        K = self.K
        self.o_hash = [off(f, 'm_hash', False) + 8 * j if any(x[2] == 'm_hash' for x in f) else off(f, 'hash') + 8 * j for j in range(K)] if any(x[2] in ('m_hash', 'hash') for x in f) else None
        self.o_next = [off(f, 'next') + 8 * j for j in range(K)]
        ob = {0: [0, 8], 1: [0], 2: [8, 0], 3: [8, 0, 16]}[kind]       # std::tuple stores its elements in reverse
        if self.o_hash is None: self.o_hash = [self.o_next[0] - 8 * K + 8 * j for j in range(K)]
        self.keyo = ob[:K]
        self.objs = ob
        self.valo = ob[K] if self.is_map else None
        self.nT = 0
        self.P = 'C02' if K == 1 else 'C05'

    # ---------------------------------------------------------------- regions
    def new_region(self, ctx, st, n, sz):
        k = next(_cnt)
        if sz == 8 * self.K:
            r = Region('sparse%d' % k, 'arr', sz, n, 'bkt', {'role': 'sparse', 'heap': True})
            st.regs[r.name] = r
            for j in range(self.K): st.mem[(r.name, 8 * j, 64)] = fresh(r.name, z3.ArraySort(B64, B64))
            return r
        if sz == self.S:
            r = Region('nodes%d' % k, 'arr', sz, n, 'd', {'role': 'nodes', 'heap': True})
            st.regs[r.name] = r
            self.node_arrays(st, r, True)
            return r
        raise Unsupported('allocation of %d-byte elements' % sz)

    def node_arrays(self, st, r, empty):
        for o in self.objs:
            st.mem[(r.name, 'v', o)] = fresh(r.name + '.v%d' % o, z3.ArraySort(B64, V))
            st.mem[(r.name, 'al', o)] = z3.K(B64, z3.BoolVal(False)) if empty else fresh(r.name + '.al%d' % o, z3.ArraySort(B64, z3.BoolSort()))
        for j in range(self.K):
            st.mem[(r.name, self.o_hash[j], 64)] = fresh(r.name + '.hash', z3.ArraySort(B64, B64))
            st.mem[(r.name, self.o_next[j], 64)] = fresh(r.name + '.next', z3.ArraySort(B64, B64))
            st.mem[(r.name, 'bk', j)] = z3.K(B64, NP) if empty else fresh(r.name + '.bk', z3.ArraySort(B64, B64))
            st.mem[(r.name, 'rank', j)] = fresh(r.name + '.rank', z3.ArraySort(B64, R))
            st.mem[(r.name, 'cur', j)] = fresh(r.name + '.cur', z3.ArraySort(K, B64))
            st.mem[(r.name, 'dang', j)] = NP

    def table(self, ctx, st, name, null='buf', ro=False):
        """a table in an arbitrary state that satisfies the invariant; null: which buffers there are"""
        kind = null if isinstance(null, str) else ('null' if null else 'buf')
        self.nT += 1
        T = Region(name, 'rec', self.T_size, meta={'table': True, 'ro': ro, 'strict': True}); st.regs[name] = T; st.live[name] = True
        m = st.mem
        m[(name, self.o_mlf, 32)] = FloatV('mlf')
        has_s, has_d = kind in ('buf', 'sparse'), kind in ('buf', 'dense')
        m[(name, self.o_size, 64)] = fresh(name + '.size', B64) if kind == 'buf' else bv(0)
        m[(name, self.o_dcap, 64)] = fresh(name + '.dense_cap', B64) if has_d else bv(0)
        m[(name, self.o_ssize, 64)] = fresh(name + '.buckets', B64) if has_s else bv(0)
        m[(name, self.o_sparse, 64)] = NULL; m[(name, self.o_dense, 64)] = NULL
        if has_s: self.set_sparse(ctx, st, T, m[(name, self.o_ssize, 64)])
        if has_d: self.set_dense(ctx, st, T, m[(name, self.o_dcap, 64)])
        return Ptr(T, None, 0)

    def set_sparse(self, ctx, st, T, n):
        r = self.new_region(ctx, st, n, 8 * self.K); st.live[r.name] = True
        st.add(z3.ULE(n, bv((1 << 47) // (8 * self.K))))
        st.mem[(T.name, self.o_sparse, 64)] = Ptr(r, bv(0), 0)
        return r

    def set_dense(self, ctx, st, T, n):
        r = self.new_region(ctx, st, n, self.S); st.live[r.name] = True
        self.node_arrays(st, r, False)
        st.add(z3.ULE(n, bv((1 << 47) // self.S)))
        st.mem[(T.name, self.o_dense, 64)] = Ptr(r, bv(0), 0)
        return r

    # ---------------------------------------------------------------- views
    def t_size(self, st, T): return st.mem[(T.name, self.o_size, 64)]
    def t_cap(self, st, T): return st.mem[(T.name, self.o_ssize, 64)]
    def t_dcap(self, st, T): return st.mem[(T.name, self.o_dcap, 64)]
    def t_sparse(self, st, T): return st.mem[(T.name, self.o_sparse, 64)].r
    def t_nodes(self, st, T): return st.mem[(T.name, self.o_dense, 64)].r
    def head(self, st, P, J, b): return z3.Select(st.mem[(P.name, 8 * J, 64)], b)
    def nxt(self, st, n, J, s): return z3.Select(st.mem[(n.name, self.o_next[J], 64)], s)
    def hsh(self, st, n, J, s): return z3.Select(st.mem[(n.name, self.o_hash[J], 64)], s)
    def bk(self, st, n, J, s): return z3.Select(st.mem[(n.name, 'bk', J)], s)
    def rank(self, st, n, J, s): return z3.Select(st.mem[(n.name, 'rank', J)], s)
    def cur(self, st, n, J, c): return z3.Select(st.mem[(n.name, 'cur', J)], c)
    def obj(self, st, n, o, s): return z3.Select(st.mem[(n.name, 'v', o)], s)
    def keyv(self, st, n, J, s): return self.obj(st, n, self.keyo[J], s)
    def alive_are(self, st, n, s, b): return conj(*[z3.Select(st.mem[(n.name, 'al', o)], s) == b for o in self.objs])
    def owned(self, st, T): return [r for r in (self.t_sparse(st, T), self.t_nodes(st, T)) if r is not None]

    def has(self, st, n, J, c):
        s = self.cur(st, n, J, c)
        return z3.And(self.bk(st, n, J, s) != NP, cls(self.keyv(st, n, J, s)) == c)

    # ---------------------------------------------------------------- the invariant
    def f_head(self, st, n, P, B, J):
        st = fz(st)
        return Q('heads %d %s' % (J, n), [BK], lambda b: (z3.Implies(z3.ULT(b, B), z3.Or(self.head(st, P, J, b) == NP, self.bk(st, n, J, self.head(st, P, J, b)) == b)), [(D, self.head(st, P, J, b))]))

    def slot_ok(self, st, n, P, B, N, J, s):
        c = cls(self.keyv(st, n, J, s))
        b, x = self.bk(st, n, J, s), self.nxt(st, n, J, s)
        h = self.head(st, P, J, b)
        return conj(z3.ULT(s, N), b == UREM(self.hsh(st, n, J, s), B), z3.ULT(b, B), self.hsh(st, n, J, s) == Hc(c), self.cur(st, n, J, c) == s,
                    h != NP, self.rank(st, n, J, h) <= self.rank(st, n, J, s),
                    z3.Or(x == NP, z3.And(self.bk(st, n, J, x) == b, self.rank(st, n, J, s) < self.rank(st, n, J, x))))

    def f_slot(self, st, n, P, B, N, J):
        st = fz(st)

        def fn(s):
            b = self.bk(st, n, J, s)
            return z3.Implies(b != NP, z3.And(self.slot_ok(st, n, P, B, N, J, s), self.alive_are(st, n, s, True))), [(D, self.nxt(st, n, J, s)), (D, self.head(st, P, J, b)), (BK, b)]
        return Q('chained slots %d %s' % (J, n), [D], fn)

    def f_order(self, st, n, J):
        st = fz(st)

        def fn(s, t):
            rs, rt, x = self.rank(st, n, J, s), self.rank(st, n, J, t), self.nxt(st, n, J, s)
            return z3.Implies(conj(s != t, self.bk(st, n, J, s) != NP, self.bk(st, n, J, s) == self.bk(st, n, J, t)),
                              conj(rs != rt, z3.Implies(rs < rt, z3.And(x != NP, self.rank(st, n, J, x) <= rt))))
        return Q('order of the chains %d %s' % (J, n), [D, D], fn, guard=lambda s, t: not s.eq(t))

    def chain_facts(self, st, n, P, B, N, J):
        P0 = self.P
        l = [('heads of the chains (key %d)' % J, self.f_head(st, n, P, B, J), (P0, 'C12')), ('links, hashes and keys of the chained elements (key %d)' % J, self.f_slot(st, n, P, B, N, J), (P0, 'C12')),
             ('order of the chains (key %d)' % J, self.f_order(st, n, J), (P0, 'C12'))]
        return l

    def inv(self, st, T):
        P, n, B, N, cap = self.t_sparse(st, T), self.t_nodes(st, T), self.t_cap(st, T), self.t_size(st, T), self.t_dcap(st, T)
        P0 = self.P
        l = [('sizes', conj(z3.ULE(N, cap), z3.BoolVal(True) if n is None else n.n == cap, z3.BoolVal(True) if P is None else z3.And(P.n == B, B != 0), cap == 0 if n is None else None, B == 0 if P is None else None), ('C03', 'C10', 'C12'))]
        if n is None or P is None: l.append(('a table without buffers has no elements', N == 0, ('C03', 'C12', P0)))
        if P is not None:
            for J in range(self.K):
                if n is None:
                    a = st.mem[(P.name, 8 * J, 64)]
                    l.append(('all chains are empty', Q('heads %d' % J, [BK], lambda b, a=a: z3.Implies(z3.ULT(b, B), z3.Select(a, b) == NP)), (P0, 'C12')))
                else: l += self.chain_facts(st, n, P, B, N, J)
        if n is not None:
            f = fz(st)
            l.append(('every element is in its chains', Q('membership %s' % n, [D], lambda s: z3.Implies(z3.ULT(s, N), conj(*[self.bk(f, n, J, s) != NP for J in range(self.K)]))), (P0, 'C03')))
            if P is None: l += self.unchained(st, DSnap(self, st, T))
            l.append(('element lifetimes', self.f_life(st, n, N), ('C07',)))
            l.append(('no link is left dangling', conj(*[st.mem[(n.name, 'dang', J)] == NP for J in range(self.K)]), (P0, 'C12')))
        return l

    def unchained(self, st, S):
        f = fz(st)
        if S.n is None: return []
        return [('no element is in a chain', Q('membership 2 %s' % S.n, [D], lambda s: conj(*[self.bk(f, S.n, J, s) == NP for J in range(self.K)])), (self.P,))]

    def f_life(self, st, n, N):
        f = fz(st)
        return Q('lifetimes %s' % n, [D], lambda s: z3.Implies(z3.ULT(s, n.n), self.alive_are(f, n, s, z3.ULT(s, N))))

    def sig(self, st, T):
        P, n = self.t_sparse(st, T), self.t_nodes(st, T)
        nm = {x.name for x in (P, n) if x is not None} | {T.name}
        l = [(k, v) for k, v in st.mem.items() if k[0] in nm]
        return (P and P.name, n and n.name) + tuple((str(k), v.get_id() if z3.is_expr(v) else None) for k, v in sorted(l, key=lambda x: str(x[0])))

    def inv_goals(self, st, T):
        if st.g.get(('inv', T.name)) == self.sig(st, T): return [('the table satisfies its invariant', z3.BoolVal(True), (self.P, 'C12'))]
        return self.inv(st, T)

    def assume_inv(self, ctx, st, T):
        for nm, q, tg in self.inv(st, T): st.add(q)
        st.g[('inv', T.name)] = self.sig(st, T)

    # ---------------------------------------------------------------- ghost updates
    def owner_table(self, st, P):
        for r in st.regs.values():
            if r.x.get('table') and st.live.get(r.name):
                p = st.mem.get((r.name, self.o_sparse, 64))
                if isinstance(p, Ptr) and p.r is P: return r
        return None

    def store(self, ctx, st, p, v, ty):
        """hook of the executor: the ghost effect of writing a link"""
        if p.r.kind != 'arr' or ty.k != 'i' or ty.n != 64: return False
        role = p.r.x.get('role')
        if role == 'sparse':
            J, T = p.o // 8, self.owner_table(st, p.r)
            n = self.t_nodes(st, T) if T is not None else None
            if n is None: return False
            x, bucket, own, g = self.head(st, p.r, J, p.i), p.i, None, z3.BoolVal(True)
        elif role == 'nodes' and p.o in self.o_next:
            J, n = self.o_next.index(p.o), p.r
            dang = st.mem[(n.name, 'dang', J)]
            x, bucket, own = self.nxt(st, n, J, p.i), self.bk(st, n, J, p.i), p.i
            g = z3.And(bucket != NP, dang != p.i)
            if not dang.eq(NP): st.mem[(n.name, 'dang', J)] = z3.simplify(z3.If(dang == p.i, NP, dang))
        else: return False
        v = to_bv(v, 64)
        st.term(BK, bucket)
        for t in (x, v, own): st.term(D, t) if t is not None else None

        known = []
        dec = lambda c: self.decide(ctx, st, c, J, (own, x, v), known)
        g = dec(g)
        if z3.is_false(g): return False
        m = st.mem
        kb, kr, kc, kd = (n.name, 'bk', J), (n.name, 'rank', J), (n.name, 'cur', J), (n.name, 'dang', J)
        act = z3.And(g, dec(x != v))
        xe, ve = dec(x == NP), dec(v == NP)
        bkx = z3.Select(m[kb], x)
        unlink = z3.And(z3.Not(xe), self.nxt(st, n, J, x) == v) if not z3.is_true(xe) else z3.BoolVal(False)
        append = xe
        before = z3.And(z3.Not(xe), z3.Not(ve), self.nxt(st, n, J, v) == x, z3.Not(unlink))
        repl = conj(z3.Not(xe), z3.Not(ve), z3.Not(unlink), z3.Not(before))
        drop = z3.simplify(z3.And(act, z3.Not(xe), z3.Or(unlink, repl, ve)))
        link = z3.simplify(z3.And(act, z3.Not(ve), z3.Not(unlink)))
        if not z3.is_false(drop):
            m[kb] = z3.Store(m[kb], x, z3.If(drop, NP, bkx))
        if not z3.is_false(link):
            r = fresh('rank', R)
            ro = self.rank(st, n, J, own) if own is not None else None
            rx = self.rank(st, n, J, x)
            c = []
            if ro is not None: c += [z3.Implies(append, ro < r), z3.Implies(z3.And(before, ro < rx), ro < r)]
            c += [z3.Implies(before, r < rx), z3.Implies(repl, r == rx)]
            st.add(z3.Implies(link, z3.simplify(conj(*c))))
            nv = self.nxt(st, n, J, v) == self.nxt(st, n, J, x)
            key = cls(self.keyv(st, n, J, v))
            st.term('key', key)
            if z3.is_true(link):
                m[kb] = z3.Store(m[kb], v, z3.simplify(z3.If(repl, bkx, bucket)))
                m[kr] = z3.Store(m[kr], v, r); m[kc] = z3.Store(m[kc], key, v)
            else:
                m[kb] = z3.Store(m[kb], v, z3.If(link, z3.If(repl, bkx, bucket), z3.Select(m[kb], v)))
                m[kr] = z3.Store(m[kr], v, z3.If(link, r, z3.Select(m[kr], v)))
                m[kc] = z3.Store(m[kc], key, z3.If(link, v, z3.Select(m[kc], key)))
            d = z3.simplify(z3.And(link, repl))
            if not z3.is_false(d): m[kd] = z3.If(d, z3.If(nv, NP, v), m[kd])
        return False

    def decide(self, ctx, st, c, J, slots, known):
        """the condition, or its value if the path condition and the facts about the given slots decide it"""
        c = z3.simplify(c)
        r = ctx.decided(st, c)
        if r is None and not ctx.dry:
            if not known:
                known.append(st.copy())
                for q in st.facts:
                    if len(q.doms) == 1 and q.doms[0] == D and (q.name.startswith('membership') or q.name.startswith('chained slots %d' % J)):
                        for t in slots:
                            if t is not None: known[0].pc.append(z3.simplify(instance(q, (z3.simplify(t),))[0]))
            r = ctx.decided(known[0], c)
        return c if r is None else z3.BoolVal(r)

    def on_value(self, ctx, st, p, v):
        if p.r.x.get('role') != 'nodes': return
        for J in range(self.K):
            if p.o != self.keyo[J]: continue
            c = cls(v); k = (p.r.name, 'cur', J)
            st.term('key', c)
            i = self.decide(ctx, st, self.bk(st, p.r, J, p.i) != NP, J, (p.i,), [])
            if not z3.is_false(i): st.mem[k] = z3.Store(st.mem[k], c, z3.If(i, p.i, z3.Select(st.mem[k], c)))

    def fill_links(self, ctx, st, p, vals, n):
        """n consecutive bucket heads are set to constants"""
        P = p.r
        if P.x.get('role') != 'sparse' or p.o != 0 or sorted(vals) != [8 * j for j in range(self.K)]: raise Unsupported('fill of ' + P.name)
        ctx.oblige(st, z3.And(z3.ULE(p.i, P.n), z3.ULE(n, P.n - p.i)), 'filled buckets lie inside ' + P.name, TAG_MEM)
        T = self.owner_table(st, P)
        nd = self.t_nodes(st, T) if T is not None else None
        whole = z3.simplify(z3.And(p.i == 0, n == P.n))
        for j in range(self.K):
            a0 = st.mem[(P.name, 8 * j, 64)]
            if z3.is_true(whole): st.mem[(P.name, 8 * j, 64)] = z3.K(B64, vals[8 * j])
            else:
                a1 = st.mem[(P.name, 8 * j, 64)] = fresh(P.name, z3.ArraySort(B64, B64))
                st.add(Q('filled', [BK], lambda q, a1=a1, a0=a0, j=j: z3.Select(a1, q) == z3.If(z3.And(z3.ULE(p.i, q), z3.ULT(q - p.i, n)), vals[8 * j], z3.Select(a0, q))))
            if nd is not None and z3.is_true(z3.simplify(vals[8 * j] == NP)):
                k = (nd.name, 'bk', j)
                st.mem[k] = z3.K(B64, NP) if z3.is_true(whole) else z3.If(whole, z3.K(B64, NP), st.mem[k])
                st.mem[(nd.name, 'dang', j)] = NP

    def fill(self, ctx, st, p, b, n):
        if z3.is_bv(n) and p.r.x.get('role') == 'sparse' and z3.is_true(z3.simplify(b == bv(0xFF, 8))):     # memset of all bits
            k = z3.simplify(z3.UDiv(n, bv(8 * self.K)))
            ctx.oblige(st, n == k * bv(8 * self.K), 'whole buckets are filled', TAG_MEM)
            return self.fill_links(ctx, st, p, {8 * j: NP for j in range(self.K)}, k)
        raise Unsupported('fill')

    def auto_loop(self, ctx, f, h):
        fl = link_fill(f, h, ctx.mod)
        return LinkFill(fl) if fl else None

    def urem(self, ctx, st, a, b):
        st.add(z3.Implies(b != 0, z3.ULT(UREM(a, b), b)))
        return UREM(a, b)

    def copy_fields(self, ctx, st, d, s, k):
        t = Ty('i', None, 64)
        if k % 8 or d.r is None or s.r is None: return False
        ok = set(self.o_hash + self.o_next)
        for p in (d, s):
            if p.r.x.get('role') == 'nodes' and not all(p.o + o in ok for o in range(0, k, 8)): raise Unsupported('bytes of an element are copied')
        vs = [ctx.load(st, Ptr(s.r, s.i, s.o + o), t) for o in range(0, k, 8)]
        for o, v in zip(range(0, k, 8), vs): ctx.store(st, Ptr(d.r, d.i, d.o + o), v, t)
        return True

    def on_free(self, ctx, st, r):
        if r.x.get('role') == 'nodes':
            for o in self.objs:
                al = st.mem[(r.name, 'al', o)]
                ctx.oblige(st, Q('no live element', [D], lambda s, al=al: z3.Implies(z3.ULT(s, r.n), z3.Not(z3.Select(al, s)))), 'no live element in released memory', TAG_LIFE)

    # ---------------------------------------------------------------- iterators
    def set_iter(self, st, rec, snap, q):
        st.mem[(rec.name, 0, 64)] = Ptr(snap.n, q, 0) if snap.n is not None else NULL
        if snap.n is None: st.add(q == 0)

    def get_iter(self, st, rec, snap):
        a = st.mem.get((rec.name, 0, 64))
        ok = isinstance(a, Ptr) and a.r is snap.n and a.o == 0
        if not ok: return None, [('the iterator belongs to the table', z3.BoolVal(False), None)]
        if snap.n is None: return bv(0), []
        st.term(D, a.i)
        return a.i, []

    def perm_args(self, ctx, st, a):
        fl = []
        for x in a:
            if isinstance(x, Ptr) and x.r is not None and x.r.kind == 'rec': fl.append(st.mem.get((x.r.name, x.o, 64)))
            else: fl.append(x)
        if len(fl) != 4 or not all(isinstance(x, Ptr) for x in fl): return None
        return [(fl[0], fl[1]), (fl[2], fl[3])]


# -------------------------------------------------------------------- fill loops
def link_fill(f, h, mod):
    """loop that stores constants into every element of a range: description or None"""
    L = f.analyse()[h]
    if any(g != h and g in L for g in f.loops) or len(L) > 3: return None
    ops = [o for b in L for o in f.blocks[b]]
    allowed = {'phi', 'store', 'getelementptr', 'add', 'sub', 'icmp', 'br'}
    if any(o.op not in allowed for o in ops): return None
    sts = [o for o in ops if o.op == 'store']
    phis = [o for o in ops if o.op == 'phi']
    cmps, brs = [o for o in ops if o.op == 'icmp'], [o for o in ops if o.op == 'br' and o.a]
    if not sts or len(cmps) != 1 or len(brs) != 1 or brs[0].a[0] != ('v', cmps[0].d) or brs[0] not in f.blocks[h]: return None
    defs = {o.d: o for o in ops if o.d}

    def const_gep(o):
        """constant byte offset of a getelementptr, or None"""
        tot, cur = 0, None
        for n, (t, v) in enumerate(o.x):
            if v[0] != 'c': return None
            if n == 0: tot += int(v[1]) * mod.size(o.ty); cur = o.ty
            else:
                rt = mod.resolve(cur)
                if rt.k == 'struct': d, cur = mod.field(rt, int(v[1])); tot += d
                else: cur = rt.a; tot += int(v[1]) * mod.size(cur)
        return tot
    up, step, base = {}, 0, None
    for ph in phis:
        back = [v for v, l in ph.x if l in L]
        if len(back) != 1 or back[0][0] != 'v' or back[0][1] not in defs: return None
        inc = defs[back[0][1]]
        if inc.op == 'getelementptr' and inc.a[0] == ('v', ph.d):
            k = const_gep(inc)
            if k is None or k <= 0 or base is not None: return None
            up[ph.d], step, base = 1, k, ph.d
        elif inc.op == 'add' and inc.a[0] == ('v', ph.d) and inc.a[1] in (('c', '1'), ('c', '-1')): up[ph.d] = int(inc.a[1][1])
        elif inc.op == 'sub' and inc.a[0] == ('v', ph.d) and inc.a[1] == ('c', '1'): up[ph.d] = -1
        else: return None
    if base is None: return None
    vals = {}
    for s in sts:
        a = s.a[1]
        if a == ('v', base): o = 0
        elif a[0] == 'v' and a[1] in defs and defs[a[1]].op == 'getelementptr' and defs[a[1]].a[0] == ('v', base): o = const_gep(defs[a[1]])
        else: return None
        if s.a[0][0] != 'c' or o is None or str(s.ty) != str(Ty('i', None, 64)): return None
        vals[o] = s
    ins = [l in L for l in brs[0].x]
    if sum(ins) != 1: return None
    return {'addr': ('ptr', base), 'cmp': cmps[0], 'br': brs[0], 'store': sts[0], 'cont': 0 if ins[0] else 1, 'phis': list(up), 'up': up, 'blocks': L, 'step': step, 'vals': vals}


class LinkFill(FillLoop):
    def emit(self, ctx, st, e1, p, n):
        fl = self.fl
        if p.r.kind != 'arr' or fl['step'] != p.r.S: raise Unsupported('fill loop step')
        ctx.cfg.fill_links(ctx, st, p, {o: to_bv(ctx.val(st, e1, s.a[0], s.ty), 64) for o, s in fl['vals'].items()}, n)


# -------------------------------------------------------------------- states of a table
class DSnap:
    def __init__(self, dn, st, T):
        self.dn, self.T = dn, T
        self.P, self.n = dn.t_sparse(st, T), dn.t_nodes(st, T)
        self.cap, self.size, self.dcap = dn.t_cap(st, T), dn.t_size(st, T), dn.t_dcap(st, T)
        self.st = fz(st)

    def pos(self, J, c): return bv(0) if self.n is None else self.dn.cur(self.st, self.n, J, c)
    def has(self, J, c): return z3.BoolVal(False) if self.n is None else self.dn.has(self.st, self.n, J, c)
    def posn(self, J, c): return z3.If(self.has(J, c), self.pos(J, c), self.size)
    def obj(self, o, s): return self.dn.obj(self.st, self.n, o, s)
    def key(self, J, s): return self.dn.keyv(self.st, self.n, J, s)
    def terms(self, J, c): return [] if self.n is None else [(D, self.pos(J, c))]
    def terms_all(self, c): return [t for J in range(self.dn.K) for t in self.terms(J, c)]


def q_same(a, b, name='contents'):
    dn = a.dn

    def fn(c):
        l = []
        for J in range(dn.K):
            l.append(b.has(J, c) == a.has(J, c))
            if a.n is not None and b.n is not None: l.append(z3.Implies(a.has(J, c), conj(*[b.obj(o, b.pos(J, c)) == a.obj(o, a.pos(J, c)) for o in dn.objs])))
        return conj(*l), a.terms_all(c) + b.terms_all(c)
    return Q('%s %d' % (name, next(_cnt)), ['key'], fn)


def q_update(a, b, gone=None, added=None, assign=None, name='contents'):
    """b = a without the elements whose keys are `gone` (class per key, condition) and with the element `added` (condition, objects by offset);
    assign = (condition, class, value): the mapped value of that key is replaced"""
    dn = a.dn

    def fn(c):
        l = []
        for J in range(dn.K):
            h = a.has(J, c)
            if gone is not None: h = z3.And(h, z3.Not(z3.And(gone[0], c == gone[1][J])))
            isn = z3.BoolVal(False)
            if added is not None: isn = z3.And(added[0], c == cls(added[1][dn.keyo[J]]))
            l.append(b.has(J, c) == z3.Or(h, isn))
            if a.n is not None and b.n is not None:
                for o in dn.objs:
                    x = a.obj(o, a.pos(J, c))
                    if assign is not None and o == dn.valo: x = z3.If(z3.And(assign[0], c == assign[1]), assign[2], x)
                    l.append(z3.Implies(z3.And(h, z3.Not(isn)), b.obj(o, b.pos(J, c)) == x))
            if added is not None and b.n is not None: l.append(z3.Implies(isn, conj(*[b.obj(o, b.pos(J, c)) == v for o, v in added[1].items()])))
        return conj(*l), a.terms_all(c) + b.terms_all(c)
    return Q('%s %d' % (name, next(_cnt)), ['key'], fn)


# -------------------------------------------------------------------- contracts
def key_index(f):
    m = re.search(r'(?:find_node|find_chain_ptr)<(\d+)ul', f.dem)
    if not m: raise Unsupported('key index of ' + f.base)
    return int(m[1])


class FindNode(Contract):
    name = 'find_node'

    def __init__(self, dn): self.dn = dn

    def bind(self, ctx, st, f, args):
        return {'T': args[0].r, 'k': args[1], 'h': args[2], 'J': key_index(f), 'S': DSnap(self.dn, st, args[0].r), 'c': cls(self.dn.value(ctx, st, args[1]))}

    def pre(self, ctx, st, a):
        dn, S, J = self.dn, a['S'], a['J']
        l = [('the hash belongs to the key', a['h'] == Hc(a['c']), (dn.P,)), ('the key is alive', dn.is_alive(ctx, st, a['k']), ('C07',))]
        if S.P is None: return l + [('a table without buckets has no elements', S.size == 0, (dn.P, 'C12'))] + dn.unchained(st, S)
        l.append(('geometry', conj(S.cap != 0, S.P.n == S.cap, z3.ULE(S.size, S.n.n) if S.n is not None else S.size == 0), ('C12', dn.P)))
        if S.n is None:
            a0 = st.mem[(S.P.name, 8 * J, 64)]
            return l + [('all chains are empty', Q('heads %d' % J, [BK], lambda b: z3.Implies(z3.ULT(b, S.cap), z3.Select(a0, b) == NP)), (dn.P, 'C12'))]
        if st.g.get(('inv', a['T'].name)) == dn.sig(st, a['T']): return l
        return l + dn.chain_facts(st, S.n, S.P, S.cap, S.size, J)

    def havoc(self, ctx, st, a):
        dn, S, J = self.dn, a['S'], a['J']
        st.term('key', a['c'])
        b = UREM(a['h'], S.cap)
        for d, t in S.terms(J, a['c']): st.term(d, t)
        if S.P is None: return [(st, Agg([Ptr(S.n, S.size, 0) if S.n is not None else NULL, NULL]))]
        st.add(z3.ULT(b, S.cap)); st.term(BK, b)
        node = Ptr(S.n, z3.simplify(S.posn(J, a['c'])), 0) if S.n is not None else NULL
        if S.n is not None: st.term(D, node.i)
        o1 = (st, Agg([node, Ptr(S.P, b, 8 * J)]))
        if S.n is None: return [o1]
        s2 = st.copy()
        t = fresh('last', B64)
        s2.term(D, t)
        return [o1, (s2, Agg([node, Ptr(S.n, t, dn.o_next[J])]))]

    def post(self, ctx, st0, st, ret, a):
        dn, S, J, T = self.dn, a['S'], a['J'], (self.dn.P, 'C03', 'C13', 'C14', 'C12')
        if not isinstance(ret, Agg) or len(ret.e) != 2 or not all(isinstance(x, Ptr) for x in ret.e): return [('a pair of pointers is returned', z3.BoolVal(False), T)]
        node, L = ret.e
        if S.n is None: l = [('the end is returned', z3.BoolVal(node.r is None), T)]
        else: l = [('the element or the end is returned', node.i == S.posn(J, a['c']) if node.r is S.n and node.o == 0 else z3.BoolVal(False), T)]
        if S.P is None: return l + [('there is no link', z3.BoolVal(L.r is None), T)]
        b = UREM(a['h'], S.cap)
        v = z3.If(S.has(J, a['c']), S.pos(J, a['c']), NP)
        if L.r is S.P: l.append(('the link refers to the element or ends the chain', z3.And(L.i == b, dn.head(st, S.P, J, b) == v) if L.o == 8 * J else z3.BoolVal(False), T))
        elif L.r is S.n and S.n is not None and L.o == dn.o_next[J]:
            if ctx.proving is self: st.term(D, L.i)
            l.append(('the link refers to the element or ends the chain', conj(dn.bk(st, S.n, J, L.i) == b, dn.nxt(st, S.n, J, L.i) == v), T))
        else: l.append(('a link of the chain is returned', z3.BoolVal(False), T))
        return l


class FindChain(Contract):
    name = 'find_chain_ptr'

    def __init__(self, dn): self.dn = dn

    def bind(self, ctx, st, f, args):
        return {'T': args[0].r, 'L': args[1], 'pos': args[2], 'J': key_index(f), 'S': DSnap(self.dn, st, args[0].r)}

    def pre(self, ctx, st, a):
        dn, S, J, L, pos = self.dn, a['S'], a['J'], a['L'], a['pos']
        T = (dn.P, 'C12')
        if S.P is None or S.n is None: return [('the table has buffers', z3.BoolVal(False), T)]
        st.term(D, pos)
        b = dn.bk(st, S.n, J, pos)
        l = [('the element is in a chain', b != NP, T), ('geometry', conj(S.cap != 0, S.P.n == S.cap, z3.ULE(S.size, S.n.n)), ('C12', dn.P))]
        if isinstance(L, Ptr) and L.r is S.P and L.o == 8 * J: l.append(('the search starts in the chain of the element', L.i == b, T))
        elif isinstance(L, Ptr) and L.r is S.n and L.o == dn.o_next[J]: l.append(('the search starts in the chain of the element', conj(dn.bk(st, S.n, J, L.i) == b, dn.rank(st, S.n, J, L.i) < dn.rank(st, S.n, J, pos)), T))
        else: l.append(('the search starts at a link of the chain', z3.BoolVal(False), T))
        if st.g.get(('inv', a['T'].name)) == dn.sig(st, a['T']): return l
        return l + dn.chain_facts(st, S.n, S.P, S.cap, S.size, J)

    def havoc(self, ctx, st, a):
        dn, S, J, pos = self.dn, a['S'], a['J'], a['pos']
        if S.P is None or S.n is None: return []         # the call is an error (see pre)
        b = dn.bk(st, S.n, J, pos)
        st.term(D, pos); st.term(BK, b)
        s2 = st.copy()
        t = fresh('before', B64); s2.term(D, t)
        return [(st, Ptr(S.P, b, 8 * J)), (s2, Ptr(S.n, t, dn.o_next[J]))]

    def post(self, ctx, st0, st, ret, a):
        dn, S, J, pos = self.dn, a['S'], a['J'], a['pos']
        T = (dn.P, 'C14', 'C12')
        b = dn.bk(st, S.n, J, pos)
        if not isinstance(ret, Ptr): return [('a link is returned', z3.BoolVal(False), T)]
        if ret.r is S.P and ret.o == 8 * J: return [('the link refers to the element', conj(ret.i == b, dn.head(st, S.P, J, b) == pos), T)]
        if ret.r is S.n and ret.o == dn.o_next[J]:
            if ctx.proving is self: st.term(D, ret.i)
            return [('the link refers to the element', conj(dn.bk(st, S.n, J, ret.i) == b, dn.nxt(st, S.n, J, ret.i) == pos), T)]
        return [('a link of the chain is returned', z3.BoolVal(False), T)]


class ChainLoop(LoopSpec):
    """walk along a chain; the target (if there is one) lies ahead"""
    name = 'chain walk'

    def __init__(self, dn): self.dn = dn

    def info(self, ctx):
        """-> (snap, J, bucket, target, condition under which the target is in the chain)"""
        dn, a = self.dn, ctx.unit
        S, J = a['S'], a['J']
        if 'pos' in a and 'c' not in a: return S, J, dn.bk(S.st, S.n, J, a['pos']), a['pos'], z3.BoolVal(True)
        return S, J, UREM(a['h'] if 'h' in a else Hc(a['c']), S.cap), S.pos(J, a['c']), S.has(J, a['c'])

    def start(self, ctx, f, st, entry, h):
        self.h = h
        S = ctx.unit['S']
        self.none = S.P is None
        if self.none: return                 # there is no chain
        S, J, b, tg, c = self.info(ctx)
        self.loc = [d for d, v in entry.items() if isinstance(v, Ptr) and v.r is not None and v.r in (S.P, S.n) and v.o == (8 * J if v.r is S.P else self.dn.o_next[J])]
        self.idx = [d for d, v in entry.items() if z3.is_bv(v) and v.size() == 64]
        if len(self.loc) + len(self.idx) == 0 or len(self.loc) > 1 or len(self.idx) > 1: raise Unsupported('chain walk in %s not recognised' % f.base)
        for t in (tg,): st.term(D, t) if S.n is not None else None
        st.term(BK, b)

    def variants(self, ctx, f, st, ph, entry):
        if self.none or not self.loc: return [{}]
        S, J, b, tg, c = self.info(ctx)
        d = self.loc[0]
        out = [{d: entry[d]}]
        if S.n is not None:
            t = fresh('at', B64); st.term(D, t)
            out.append({d: Ptr(S.n, t, self.dn.o_next[J])})
        return out

    def content(self, st, L, S, J): return self.dn.head(st, S.P, J, L.i) if L.r is S.P else self.dn.nxt(st, S.n, J, L.i)

    def inv(self, ctx, f, st, ph, entry, st0):
        dn = self.dn
        T = (dn.P, 'C12')
        if self.none: return [('there is no chain', z3.BoolVal(all(v.r is None for v in ph.values() if isinstance(v, Ptr))), T)]
        S, J, b, tg, c = self.info(ctx)
        l = []
        x = None
        if self.loc:
            L = ph[self.loc[0]]
            if not isinstance(L, Ptr) or L.r is None or L.r not in (S.P, S.n) or L.o != (8 * J if L.r is S.P else dn.o_next[J]): return [('the walk follows the chain', z3.BoolVal(False), T)]
            x = self.content(st, L, S, J)
            if L.r is S.P: l.append(('the walk starts at the chain', L.i == b, T))
            else:
                st.term(D, L.i)
                l.append(('the walk follows the chain', dn.bk(st, S.n, J, L.i) == b, T))
                l.append(('the target lies ahead', z3.Implies(c, dn.rank(st, S.n, J, L.i) < dn.rank(st, S.n, J, tg)), T))
            if S.n is not None: st.term(D, x)
        if self.idx:
            i = ph[self.idx[0]]
            if S.n is None: return l + [('the chain is empty', i == NP, T)]
            st.term(D, i)
            if x is not None: l.append(('the index is that of the link', i == x, T))
            l.append(('the walk follows the chain', z3.Or(i == NP, dn.bk(st, S.n, J, i) == b), T))
            l.append(('the target lies ahead', z3.Implies(c, z3.And(i != NP, dn.rank(st, S.n, J, i) <= dn.rank(st, S.n, J, tg))), T))
        return l

    def progress(self, ctx, st, old, new, entry):
        dn = self.dn
        if self.none: return z3.BoolVal(False)
        S, J, b, tg, c = self.info(ctx)
        if S.n is None: return z3.BoolVal(False)
        if self.loc:
            a, z = old[self.loc[0]], new[self.loc[0]]
            if not isinstance(z, Ptr) or z.r is not S.n: return z3.BoolVal(False)
            return z3.BoolVal(True) if a.r is S.P else dn.rank(st, S.n, J, a.i) < dn.rank(st, S.n, J, z.i)
        i, j = old[self.idx[0]], new[self.idx[0]]
        return z3.And(i != NP, z3.Or(j == NP, dn.rank(st, S.n, J, i) < dn.rank(st, S.n, J, j)))


class DoRehash(Contract):
    name = 'do_rehash'

    def __init__(self, dn): self.dn = dn
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'k': args[1], 'S': DSnap(self.dn, st, args[0].r)}

    def pre(self, ctx, st, a): return self.dn.inv_goals(st, a['T'])

    def havoc(self, ctx, st, a):
        dn, T, S, k = self.dn, a['T'], a['S'], a['k']
        if S.n is not None:
            for J in range(dn.K):
                for x in (dn.o_next[J],): st.mem[(S.n.name, x, 64)] = fresh('next', z3.ArraySort(B64, B64))
                st.mem[(S.n.name, 'bk', J)] = fresh('bk', z3.ArraySort(B64, B64)); st.mem[(S.n.name, 'rank', J)] = fresh('rank', z3.ArraySort(B64, R))
        outs = []
        if S.P is None:
            s0 = st.copy(); s0.add(k == 0)
            outs.append((s0, None)); st.add(k != 0)
        else:
            s0 = st.copy(); s0.add(z3.ULE(k, S.cap))
            for J in range(dn.K): s0.mem[(S.P.name, 8 * J, 64)] = fresh('heads', z3.ArraySort(B64, B64))
            outs.append((s0, None)); st.add(z3.UGT(k, S.cap))
            st.live[S.P.name] = False
        st.mem[(T.name, dn.o_ssize, 64)] = k
        dn.set_sparse(ctx, st, T, k)
        outs.append((st, None))
        for s, r in outs: dn.assume_inv(ctx, s, T)
        return outs

    def post(self, ctx, st0, st, ret, a):
        dn, T, S = self.dn, a['T'], a['S']
        new = DSnap(dn, st, T)
        l = dn.inv(st, T) if ctx.proving is self else []
        l += [('the number of buckets is as requested', new.cap == z3.If(z3.ULT(S.cap, a['k']), a['k'], S.cap), ('C10',)),
              ('the elements are the same', q_same(S, new), (dn.P, 'C10')), ('the elements stay in place', conj(new.size == S.size, z3.BoolVal(new.n is S.n), new.dcap == S.dcap), ('C03', 'C10', 'C12'))]
        if S.n is not None:
            f = fz(st)
            l.append(('the elements stay in place (2)', Q('values %d' % next(_cnt), [D], lambda s: z3.Implies(z3.ULT(s, S.size), conj(*[new.obj(o, s) == S.obj(o, s) for o in dn.objs]))), ('C03', 'C10', dn.P)))
            l.append(('positions of keys', Q('positions %d' % next(_cnt), ['key'], lambda c: (conj(*[z3.Implies(S.has(J, c), new.pos(J, c) == S.pos(J, c)) for J in range(dn.K)]), S.terms_all(c))), ('C03', dn.P)))
        return l


class LinkLoop(LoopSpec):
    """insertion of the elements 0, 1, ... into the chains (do_rehash, copy_data, move_data)"""
    name = 'linking loop'

    def __init__(self, dn, how): self.dn, self.how = dn, how

    def start(self, ctx, f, st, entry, h):
        a, dn = ctx.unit, self.dn
        c = const_entry(None, entry, 0)
        self.i = c[0] if len(c) == 1 else None
        if self.i is None and self.how == 'rehash': raise Unsupported('linking loop not recognised')

    def pos(self, ctx, st, ph): return ph[self.i] if self.i is not None else self.dn.t_size(st, ctx.unit['T'])

    def inv(self, ctx, f, st, ph, entry, st0):
        dn, a = self.dn, ctx.unit
        i, T = self.pos(ctx, st, ph), a['T']
        src = a['S'] if self.how == 'rehash' else a['src']
        P, n, B = dn.t_sparse(st, T), dn.t_nodes(st, T), dn.t_cap(st, T)
        tg = (dn.P, 'C12')
        if src.n is None:
            l = [('nothing to do', i == 0, tg)]
            for J in range(dn.K if P is not None else 0):
                h = st.mem[(P.name, 8 * J, 64)]
                l.append(('all chains are empty', Q('heads %d' % J, [BK], lambda b, h=h: z3.Implies(z3.ULT(b, B), z3.Select(h, b) == NP)), tg))
            return l
        if P is None or n is None:
            l = [('there are no elements', conj(src.size == 0, i == 0), tg)]
            if self.how == 'rehash' and n is not None:
                g = fz(st)
                l.append(('no link is left dangling', conj(*[st.mem[(n.name, 'dang', J)] == NP for J in range(dn.K)]), tg))
                l.append(('no element is in a chain', Q('membership 2 %s' % n, [D], lambda s: conj(*[dn.bk(g, n, J, s) == NP for J in range(dn.K)])), tg))
            return l
        st.term(D, i)
        f = fz(st)
        l = [('position', conj(z3.ULE(i, src.size), z3.ULE(src.size, n.n), P.n == B, B != 0, z3.BoolVal(True) if self.how == 'rehash' else conj(n.n == dn.t_dcap(st, T), dn.t_size(st, T) == i if self.i is None else None)), ('C12', 'C06', 'C10'))]
        for J in range(dn.K): l += dn.chain_facts(st, n, P, B, i, J)
        l.append(('the elements so far are in their chains', Q('membership %s' % n, [D], lambda s: z3.Implies(z3.ULT(s, i), conj(*[dn.bk(f, n, J, s) != NP for J in range(dn.K)]))), (dn.P, 'C03', 'C06')))
        l.append(('no link is left dangling', conj(*[st.mem[(n.name, 'dang', J)] == NP for J in range(dn.K)]), tg))
        if self.how == 'rehash':
            l.append(('positions of keys', Q('positions %d' % next(_cnt), ['key'], lambda c: (conj(*[dn.cur(f, n, J, c) == src.pos(J, c) for J in range(dn.K)]), src.terms_all(c))), tg))
            l.append(('hashes', Q('hashes', [D], lambda s: z3.Implies(z3.ULT(s, src.size), conj(*[conj(dn.hsh(f, n, J, s) == Hc(cls(dn.keyv(f, n, J, s))), dn.cur(f, n, J, cls(dn.keyv(f, n, J, s))) == s) for J in range(dn.K)]))), tg))
        else:
            l.append(('copied elements', Q('copied', [D], lambda s: z3.Implies(z3.ULT(s, i), conj(*[dn.obj(f, n, o, s) == src.obj(o, s) for o in dn.objs]))), (dn.P, 'C06')))
            l.append(('element lifetimes', dn.f_life(st, n, i), ('C07',)))
            if self.how == 'move':
                l.append(('remaining elements', Q('remaining', [D], lambda s: z3.Implies(z3.ULT(s, src.size), z3.Implies(z3.ULE(i, s), conj(*[dn.obj(f, src.n, o, s) == src.obj(o, s) for o in dn.objs])))), ('C06',)))
                l.append(('lifetimes in the source', Q('lifetimes %s' % src.n, [D], lambda s: z3.Implies(z3.ULT(s, src.n.n), dn.alive_are(f, src.n, s, z3.And(z3.ULE(i, s), z3.ULT(s, src.size))))), ('C07',)))
        return l

    def measure(self, ctx, st, ph, entry): return ~self.pos(ctx, st, ph)


class ResizeData(Contract):
    name = 'resize_data'

    def __init__(self, dn): self.dn = dn
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'k': args[1], 'S': DSnap(self.dn, st, args[0].r)}

    def pre(self, ctx, st, a):
        return self.dn.inv_goals(st, a['T']) + [('there is room for the elements', conj(z3.ULE(a['S'].size, a['k']), a['k'] != 0), ('C12', 'C10'))]

    def havoc(self, ctx, st, a):
        dn, T, S = self.dn, a['T'], a['S']
        if S.n is not None: st.live[S.n.name] = False
        st.mem[(T.name, dn.o_dcap, 64)] = a['k']
        n = dn.set_dense(ctx, st, T, a['k'])
        for J in range(dn.K):
            st.mem[(n.name, 'dang', J)] = NP
            for g in ('bk', 'rank', 'cur'):
                if S.n is not None: st.mem[(n.name, g, J)] = S.st.mem[(S.n.name, g, J)]
                elif g == 'bk': st.mem[(n.name, g, J)] = z3.K(B64, NP)
        dn.assume_inv(ctx, st, T)
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        dn, T, S = self.dn, a['T'], a['S']
        new = DSnap(dn, st, T)
        l = dn.inv(st, T) if ctx.proving is self else []
        l += [('the capacity is as requested', conj(new.dcap == a['k'], new.size == S.size, new.cap == S.cap, z3.BoolVal(new.P is S.P)), ('C10', 'C12'))]
        if S.n is not None:
            l.append(('the elements keep their positions', Q('values %d' % next(_cnt), [D], lambda s: z3.Implies(z3.ULT(s, S.size), conj(*[new.obj(o, s) == S.obj(o, s) for o in dn.objs]))), ('C03', 'C10', dn.P)))
            l.append(('the elements are the same', q_same(S, new), ('C10', dn.P)))
            if ctx.proving is self: l.append(('the old buffer is released', z3.BoolVal(not st.live.get(S.n.name)), ('C07',)))
        else: l.append(('the elements are the same', q_same(S, new), ('C10', dn.P)))
        return l

    def finish(self, ctx, st, a):
        """ghost code: the chains of the new buffer are those of the old one"""
        dn, T, S = self.dn, a['T'], a['S']
        n = dn.t_nodes(st, T)
        if S.n is None or n is None or n is S.n: return
        for J in range(dn.K):
            for g in ('bk', 'rank', 'cur'): st.mem[(n.name, g, J)] = S.st.mem[(S.n.name, g, J)]


class MoveNodes(LoopSpec):
    """resize_data: elements are moved from the old to the new buffer"""
    name = 'relocation loop'

    def __init__(self, dn): self.dn = dn

    def start(self, ctx, f, st, entry, h):
        S = ctx.unit['S']
        self.src = [d for d, v in entry.items() if isinstance(v, Ptr) and v.r is S.n and v.r is not None]
        self.dst = [d for d, v in entry.items() if isinstance(v, Ptr) and v.r is not None and v.r is not S.n and v.r.x.get('role') == 'nodes']
        self.i = const_entry(None, entry, 0)
        if S.n is not None and not (len(self.src) == 1 and len(self.dst) == 1) and len(self.i) != 1: raise Unsupported('relocation loop not recognised')
        self.new = entry[self.dst[0]].r if self.dst else None
        if self.new is None:
            c = [r for r in st.regs.values() if r.x.get('role') == 'nodes' and r is not S.n and st.live.get(r.name)]
            self.new = c[-1] if c else None

    def inv(self, ctx, f, st, ph, entry, st0):
        dn, S = self.dn, ctx.unit['S']
        if S.n is None: return [('nothing to do', S.size == 0, ())]
        n, o = self.new, S.n
        i = ph[self.src[0]].i if self.src else ph[self.i[0]]
        l = []
        if self.src and self.dst: l.append(('the positions agree', conj(ph[self.dst[0]].i == i, z3.BoolVal(ph[self.dst[0]].o == 0 and ph[self.src[0]].o == 0)), ('C12', 'C03', dn.P)))
        st.term(D, i)
        f = fz(st)

        def moved(s):
            l = [dn.obj(f, n, x, s) == S.obj(x, s) for x in dn.objs]
            for J in range(dn.K): l += [dn.hsh(f, n, J, s) == dn.hsh(S.st, o, J, s), dn.nxt(f, n, J, s) == dn.nxt(S.st, o, J, s)]
            return z3.Implies(z3.ULT(s, i), conj(*l))

        def rest(s):
            l = [dn.obj(f, o, x, s) == S.obj(x, s) for x in dn.objs]
            for J in range(dn.K): l += [dn.hsh(f, o, J, s) == dn.hsh(S.st, o, J, s), dn.nxt(f, o, J, s) == dn.nxt(S.st, o, J, s)]
            return z3.Implies(z3.And(z3.ULE(i, s), z3.ULT(s, S.size)), conj(*l))
        l += [('position', conj(z3.ULE(i, S.size)), ('C12', 'C10')), ('moved elements', Q('moved', [D], moved), (dn.P, 'C03', 'C10')), ('remaining elements', Q('remaining', [D], rest), (dn.P, 'C03', 'C10')),
              ('lifetimes in the new buffer', dn.f_life(st, n, i), ('C07',)),
              ('lifetimes in the old buffer', Q('lifetimes %s' % o, [D], lambda s: z3.Implies(z3.ULT(s, o.n), dn.alive_are(f, o, s, z3.And(z3.ULE(i, s), z3.ULT(s, S.size))))), ('C07',))]
        return l

    def measure(self, ctx, st, ph, entry):
        if ctx.unit['S'].n is None: return None
        return ~(ph[self.src[0]].i if self.src else ph[self.i[0]])


class ClearData(Contract):
    """the elements are destroyed; the chains are left behind (stale)"""
    name = 'clear_data'

    def __init__(self, dn): self.dn = dn
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'S': DSnap(self.dn, st, args[0].r)}

    def pre(self, ctx, st, a):
        dn, S = self.dn, a['S']
        if st.g.get(('inv', a['T'].name)) == dn.sig(st, a['T']): return []
        l = [('sizes', z3.ULE(S.size, S.n.n) if S.n is not None else S.size == 0, ('C12', 'C07'))]
        if S.n is not None: l.append(('element lifetimes', dn.f_life(st, S.n, S.size), ('C07',)))
        return l

    def havoc(self, ctx, st, a):
        dn, T, S = self.dn, a['T'], a['S']
        st.mem[(T.name, dn.o_size, 64)] = bv(0)
        if S.n is not None:
            for o in dn.objs: st.mem[(S.n.name, 'al', o)] = fresh('alive', z3.ArraySort(B64, z3.BoolSort()))
        return [(st, None)]

    def post(self, ctx, st0, st, ret, a):
        dn, T, S = self.dn, a['T'], a['S']
        l = [('the size is zero', dn.t_size(st, T) == 0, ('C03', 'C06', 'C07'))]
        if S.n is not None: l.append(('every element is destroyed', dn.f_life(st, S.n, bv(0)), ('C07',)))
        if ctx.proving is self:
            l.append(('the buffers stay', z3.BoolVal(dn.t_nodes(st, T) is S.n and dn.t_sparse(st, T) is S.P and dn.t_cap(st, T).eq(S.cap) and dn.t_dcap(st, T).eq(S.dcap)), ('C07', 'C12', 'C10')))
            if S.P is not None: l.append(('the chains are left alone', z3.BoolVal(all(st.mem[(S.P.name, 8 * J, 64)].eq(S.st.mem[(S.P.name, 8 * J, 64)]) for J in range(dn.K))), (dn.P, 'C12')))
            if S.n is not None: l.append(('the chains are left alone', z3.BoolVal(all(st.mem[(S.n.name, g, J)].eq(S.st.mem[(S.n.name, g, J)]) for J in range(dn.K) for g in ('bk', 'rank', 'cur', 'dang'))), (dn.P, 'C12')))
        return l


class ClearLoop(LoopSpec):
    name = 'destruction loop'

    def __init__(self, dn): self.dn = dn

    def start(self, ctx, f, st, entry, h):
        c = const_entry(None, entry, 0)
        if len(c) < 1: raise Unsupported('destruction loop not recognised')
        self.i = c[0]

    def inv(self, ctx, f, st, ph, entry, st0):
        dn, S, i = self.dn, ctx.unit['S'], ph[self.i]
        if S.n is None: return [('nothing to do', i == 0, ())]
        st.term(D, i)
        f = fz(st)
        return [('position', z3.ULE(i, S.size), ('C12', 'C07')), ('destroyed elements', Q('lifetimes %s' % S.n, [D], lambda s: z3.Implies(z3.ULT(s, S.n.n), dn.alive_are(f, S.n, s, z3.And(z3.ULE(i, s), z3.ULT(s, S.size))))), ('C07',))]

    def measure(self, ctx, st, ph, entry): return ~ph[self.i]


class CopyData(Contract):
    """copy_data / move_data: T has no elements, its chains may be stale"""
    def __init__(self, dn, move): self.dn, self.move, self.name = dn, move, 'move_data' if move else 'copy_data'
    def bind(self, ctx, st, f, args): return {'T': args[0].r, 'O': args[1].r, 'S': DSnap(self.dn, st, args[0].r), 'src': DSnap(self.dn, st, args[1].r)}

    def pre(self, ctx, st, a):
        dn, T, O, S, src = self.dn, a['T'], a['O'], a['S'], a['src']
        l = [('the source: ' + nm, q, tg) for nm, q, tg in dn.inv_goals(st, O)]
        l.append(('two different tables', z3.BoolVal(T is not O and (S.n is None or S.n is not src.n)), ('C06', 'C12')))
        l.append(('the destination is empty', conj(S.size == 0, S.n.n == S.dcap if S.n is not None else S.dcap == 0, z3.And(S.P.n == S.cap, S.cap != 0) if S.P is not None else S.cap == 0), ('C06', 'C12')))
        if S.n is not None: l.append(('no element is overwritten', dn.f_life(st, S.n, bv(0)), ('C07',)))
        if S.P is None: l += dn.unchained(st, S)
        return l

    def havoc(self, ctx, st, a):
        dn, T, O, S, src = self.dn, a['T'], a['O'], a['S'], a['src']
        outs = []
        s0 = st.copy(); s0.add(src.size == 0)            # nothing to copy: the chains are emptied
        if S.P is not None:
            for J in range(dn.K): s0.mem[(S.P.name, 8 * J, 64)] = z3.K(B64, NP)
        if S.n is not None:
            for J in range(dn.K):
                s0.mem[(S.n.name, 'bk', J)] = z3.K(B64, NP) if S.P is not None else s0.mem[(S.n.name, 'bk', J)]
                s0.mem[(S.n.name, 'dang', J)] = NP
        s0.mem[(T.name, dn.o_size, 64)] = bv(0)
        outs.append((s0, None))
        if src.n is not None and src.P is not None:
            st.add(src.size != 0)
            for r in (S.P, S.n):
                if r is not None: st.live[r.name] = False
            cap, dcap = fresh('buckets', B64), fresh('dense_cap', B64)
            st.mem[(T.name, dn.o_ssize, 64)], st.mem[(T.name, dn.o_dcap, 64)] = cap, dcap
            st.add(cap == z3.If(z3.ULT(S.cap, src.cap), src.cap, S.cap), dcap == z3.If(z3.ULT(S.dcap, src.size), src.size, S.dcap))
            dn.set_sparse(ctx, st, T, cap); dn.set_dense(ctx, st, T, dcap)
            st.mem[(T.name, dn.o_size, 64)] = fresh('size', B64)
            if self.move:
                for k in list(st.mem):
                    if k[0] in (src.P.name, src.n.name): st.mem[k] = ctx.havoc_like(st.mem[k], '%s.%s' % (k[0], k[1]))
                st.mem[(O.name, dn.o_size, 64)] = fresh('size', B64)
            outs.append((st, None))
        for s, r in outs:
            dn.assume_inv(ctx, s, T)
            if self.move: dn.assume_inv(ctx, s, O)
        return outs

    def post(self, ctx, st0, st, ret, a):
        dn, T, O, src = self.dn, a['T'], a['O'], a['src']
        new = DSnap(dn, st, T)
        l = []
        if ctx.proving is self:
            l += dn.inv(st, T)
            if self.move: l += [('the source: ' + nm, q, tg) for nm, q, tg in dn.inv(st, O)]
            l.append(('the buffers are large enough', conj(new.cap == z3.If(z3.Or(src.size == 0, z3.UGE(a['S'].cap, src.cap)), a['S'].cap, src.cap), new.dcap == z3.If(z3.Or(src.size == 0, z3.UGE(a['S'].dcap, src.size)), a['S'].dcap, src.size)), ('C06', 'C10')))
        l += [('the size is that of the source', new.size == src.size, ('C03', 'C06')), ('the elements are those of the source', q_same(src, new), ('C06', dn.P))]
        if new.n is not None and src.n is not None: l.append(('the elements keep their order', Q('order', [D], lambda s: z3.Implies(z3.ULT(s, src.size), conj(*[new.obj(o, s) == src.obj(o, s) for o in dn.objs]))), ('C06', 'C03')))
        if self.move: l.append(('the source is empty', dn.t_size(st, O) == 0, ('C06', 'C03')))
        return l
