"""Contracts of the public operations of the dense containers (driver dense.cpp)."""
from dense import *
from ops import Op, retag, Snap


class DEnv:
    """state of the proof of one operation"""
    def __init__(self, ctx, dn, st, variant):
        self.ctx, self.dn, self.st, self.variant = ctx, dn, st, variant
        self.tabs, self.args, self.old = [], [], {}

    def table(self, name, ro=False, kind=None):
        v = self.variant.split('/')
        if kind is None: kind = v[len(self.tabs)]
        p = self.dn.table(self.ctx, self.st, name, null=kind, ro=ro)
        self.dn.assume_inv(self.ctx, self.st, p.r)
        self.tabs.append(p.r); self.args.append(p)
        self.old[p.r] = DSnap(self.dn, self.st, p.r)
        return p.r

    def uninit(self, name):
        T = Region(name, 'rec', self.dn.T_size, meta={'table': True, 'strict': True}); self.st.regs[name] = T; self.st.live[name] = True
        self.tabs.append(T); self.args.append(Ptr(T, None, 0))
        return T

    def seen(self, c):
        self.st.term('key', c)
        for o in self.old.values():
            for d, t in o.terms_all(c): self.st.term(d, t)

    def key(self, name='key', ro=True):
        p = self.dn.arg_obj(self.ctx, self.st, name, ro); self.args.append(p)
        v = self.st.mem[(name, 'v', 0)]
        self.seen(cls(v))
        return v

    def objs(self, name, offs, ro=True):
        """argument object that consists of several opaque objects"""
        r = Region(name, 'rec', max(offs) + 8, meta={'ro': ro}); self.st.regs[name] = r; self.st.live[name] = True
        for o in offs:
            self.st.mem[(name, 'v', o)] = fresh('%s.%d' % (name, o), V); self.st.mem[(name, 'al', o)] = z3.BoolVal(True)
        self.args.append(Ptr(r, None, 0))
        vs = [self.st.mem[(name, 'v', o)] for o in offs]
        for v in vs[:self.dn.K]: self.seen(cls(v))
        return vs

    def num(self, name='n'):
        x = fresh(name, B64); self.args.append(x); return x

    def out(self, name='out'):
        p = self.dn.out_rec(self.ctx, self.st, name, 8); self.args.append(p); return p.r

    def iter_arg(self, T, name='it', end_ok=True):
        """a valid iterator into T"""
        dn, st = self.dn, self.st
        p = dn.out_rec(self.ctx, st, name, 8); self.args.append(p)
        p.r.x['ro'] = True
        o = self.old[T]
        q = fresh(name, B64)
        dn.set_iter(st, p.r, o, q)
        st.add(z3.ULE(q, o.size) if end_ok else z3.ULT(q, o.size))
        if o.n is not None: st.term(D, q)
        return q


def d_unchanged(e, s, T):
    dn, o = e.dn, e.old[T]
    if s.g.get(('inv', T.name)) == dn.sig(s, T): return [('the table is not changed', z3.BoolVal(True), (dn.P, 'C06', 'C16'))]
    n = DSnap(dn, s, T)
    return [('the elements are not changed', q_same(o, n), (dn.P, 'C06', 'C16')), ('the size is not changed', n.size == o.size, ('C03',))] + dn.inv_goals(s, T)


def ops(dn):
    """-> {name: Op}"""
    K, M, P = dn.K, dn.is_map, dn.P
    R = {}
    ALL = ('buf', 'null', 'sparse', 'dense')

    def op(name, variants=ALL):
        def deco(f): R[name] = Op(name, (), variants, f)
        return deco

    def at(e, s, T, o, q, tags):
        new = DSnap(dn, s, T)
        i, l = dn.get_iter(s, o, new)
        l = retag(l, tags)
        if i is not None: l.append(('the iterator names the element or the end', i == q, tags))
        return l

    def ro_op(name, res, tags, variants=ALL):
        @op(name, variants)
        def _(e):
            T = e.table('T', True)
            return lambda s, r: [('the result is right', res(e.old[T], r), tags)] + d_unchanged(e, s, T)
    ro_op('op_size', lambda o, r: r == o.size, ('C03',))
    ro_op('op_empty', lambda o, r: to_bool(r) == (o.size == 0), ('C03',))
    ro_op('op_bucket_count', lambda o, r: r == o.cap, ('C10',))
    ro_op('op_capacity', lambda o, r: z3.BoolVal(True), ('C10',))

    # -------------------------------------------------- lookup
    def contains(J):
        def f(e):
            T = e.table('T', True); k = e.key()
            return lambda s, r: [('the result says whether the key is stored', to_bool(r) == e.old[T].has(J, cls(k)), (P,))] + d_unchanged(e, s, T)
        return f

    def find(J):
        def f(e):
            T = e.table('T', True); k = e.key(); o = e.out()
            return lambda s, r: at(e, s, T, o, e.old[T].posn(J, cls(k)), (P, 'C03')) + d_unchanged(e, s, T)
        return f
    for J in range(K):
        x = '_%d' % J if K > 1 else ''
        op('op_contains' + x)(contains(J)); op('op_find' + x)(find(J)); op('op_cfind' + x)(find(J))

    # -------------------------------------------------- iteration
    def ends(first):
        def f(e):
            T = e.table('T', True); o = e.out()
            return lambda s, r: at(e, s, T, o, bv(0) if first else e.old[T].size, ('C03',)) + d_unchanged(e, s, T)
        return f
    for n in ('begin', 'cbegin'): op('op_' + n)(ends(True))
    for n in ('end', 'cend'): op('op_' + n)(ends(False))

    @op('op_next', ('buf',))
    def _(e):
        T = e.table('T', True); e.args.clear(); q0 = e.iter_arg(T, 'it', False)
        it = e.args[0].r; it.x['ro'] = False
        return lambda s, r: at(e, s, T, it, q0 + 1, ('C03', 'C14')) + d_unchanged(e, s, T)

    @op('op_ieq')
    def _(e):
        T = e.table('T', True); e.args.clear(); a = e.iter_arg(T, 'a'); b = e.iter_arg(T, 'b')
        return lambda s, r: [('iterators are equal if they name the same position', to_bool(r) == (a == b), ('C03',))]

    def elem(s, T, r, off, q, tags):
        new = DSnap(dn, s, T)
        if not isinstance(r, Ptr) or r.r is None or r.r is not new.n or r.o != off: return [('a reference to the element is returned', z3.BoolVal(False), tags)]
        return [('a reference to the element is returned', r.i == q, tags)]

    def deref(off):
        def f(e):
            T = e.table('T', True); e.args.clear(); q = e.iter_arg(T, 'it', False)
            return lambda s, r: elem(s, T, r, off, q, ('C03', P))
        return f
    for J in range(K): op('op_key' + ('_%d' % J if K > 1 else ''), ('buf',))(deref(dn.keyo[J]))
    if M: op('op_val', ('buf',))(deref(dn.valo))

    # -------------------------------------------------- insertion
    def insert(hint=False, how='emplace', mv=False, ret='pair'):
        def f(e):
            T = e.table('T')
            if hint: e.iter_arg(T, 'hint')
            if how == 'insert': vs = e.objs('value', dn.objs, not mv)
            elif how == 'try' and K > 1: vs = e.objs('key', dn.keyo, not mv) + [e.key('val', not mv)]
            else:
                vs = [e.key('key%d' % j, not mv) for j in range(K)]
                if M: vs.append(DEFV if how == 'index' else e.key('val', not mv))
            o = e.out() if ret in ('pair', 'iter') else None
            ks = vs[:K]
            arg = dict(e.st.mem)
            ins = dict(zip(dn.objs, vs))

            def post(s, r):
                old, new = e.old[T], DSnap(dn, s, T)
                cs = [cls(k) for k in ks]
                had = z3.Or(*[old.has(J, c) for J, c in enumerate(cs)])
                for c in cs:
                    s.term('key', c)
                    for d, t in new.terms_all(c): s.term(d, t)
                A = ('C15',) if hint else ()
                asg = (had, cs[0], vs[K]) if how == 'assign' else None
                l = [('exactly the element of the arguments is added', q_update(old, new, added=(z3.Not(had), ins), assign=asg), (P, 'C13', 'C03') + A),
                     ('the size grows by one for a new element only', new.size == old.size + z3.If(had, bv(0), bv(1)), ('C03', 'C13'))]
                if ret == 'pair': l.append(('the result says whether the element was inserted', to_bool(r) == z3.Not(had), ('C13',)))

                def names(q): return z3.And(z3.Implies(z3.Not(had), conj(*[z3.And(new.has(J, c), q == new.pos(J, c)) for J, c in enumerate(cs)])),
                                            z3.Implies(had, z3.Or(*[z3.And(old.has(J, c), new.has(J, c), q == new.pos(J, c)) for J, c in enumerate(cs)])))
                tg = ('C03', 'C13') + A
                if ret in ('pair', 'iter'):
                    i, l2 = dn.get_iter(s, o, new)
                    l += retag(l2, tg)
                    if i is not None: l.append(('the iterator names the element', names(i), tg))
                else:
                    ok = isinstance(r, Ptr) and r.r is not None and r.r is new.n and r.o == dn.valo
                    l.append(('a reference to the element is returned', names(r.i) if ok else z3.BoolVal(False), ('C13', 'C03')))
                if how == 'try' and mv:
                    l.append(('arguments are left alone if the key is present', z3.Implies(had, conj(*[s.mem[k] == v for k, v in arg.items() if k[1] == 'v' and k[0] in ('key', 'key0', 'val')])), ('C13',)))
                if old.n is not None: l.append(('positions of the elements stay', Q('places', [D], lambda q: z3.Implies(z3.ULT(q, old.size), conj(*[new.key(J, q) == old.key(J, q) for J in range(K)]))), ('C03', P)))
                if old.n is not None and old.P is not None:
                    l.append(('reserved room is used without growing', z3.Implies(z3.ULT(old.size, old.dcap), conj(z3.BoolVal(new.n is old.n), new.dcap == old.dcap)), ('C10',)))
                    l.append(('the bucket count never shrinks', z3.UGE(new.cap, old.cap) if how != 'none' else None, ('C10',)))
                return l + dn.inv_goals(s, T)
            return post
        return f
    op('op_insert')(insert(how='insert')); op('op_insert_m')(insert(how='insert', mv=True)); op('op_insert_h')(insert(True, 'insert', ret='iter'))
    op('op_emplace')(insert()); op('op_emplace_h')(insert(True, ret='iter'))
    if M:
        op('op_try_emplace')(insert(how='try')); op('op_try_emplace_m')(insert(how='try', mv=True)); op('op_try_emplace_h')(insert(True, 'try', ret='iter'))
    if M and K == 1:
        op('op_insert_or_assign')(insert(how='assign')); op('op_insert_or_assign_m')(insert(how='assign', mv=True)); op('op_insert_or_assign_h')(insert(True, 'assign', ret='iter'))
        op('op_index')(insert(how='index', ret='ref')); op('op_index_m')(insert(how='index', mv=True, ret='ref'))

        def find_at(e):
            T = e.table('T', True); k = e.key()

            def post(s, r):
                h = e.old[T].has(0, cls(k))
                if isinstance(r, str): return [('at throws for an absent key only', z3.Not(h), ('C13',))] + d_unchanged(e, s, T)
                return [('at throws for an absent key', h, ('C13',))] + elem(s, T, r, dn.valo, e.old[T].pos(0, cls(k)), ('C13',)) + d_unchanged(e, s, T)
            return post
        op('op_at')(find_at); op('op_cat')(find_at)

    # -------------------------------------------------- erasure
    def erased(e, s, T, o, had, p):
        """postcondition of erasing the element at position p (if there is one)"""
        old, new = e.old[T], DSnap(dn, s, T)
        tg = (P, 'C14', 'C03')
        if old.n is None: l = [('nothing changes', q_same(old, new), tg)]
        else:
            gone = [cls(old.key(J, p)) for J in range(K)]
            l = [('exactly the named element is removed', q_update(old, new, gone=(had, gone)), tg)]
        l += [('the size shrinks by one if the element was stored', new.size == old.size - z3.If(had, bv(1), bv(0)), ('C03', 'C14')),
              ('the capacity stays', conj(new.cap == old.cap, new.dcap == old.dcap, z3.BoolVal(new.n is old.n and new.P is old.P)), ('C10', 'C14', 'C12'))]
        q, l2 = dn.get_iter(s, o, new)
        l += retag(l2, ('C14',))
        if q is not None: l.append(('the successor or the end is returned', q == z3.If(had, p, new.size), ('C14', 'C03')))
        if old.n is not None and new.n is old.n:
            for J in range(K):
                def keeps(c, J=J):
                    a, b = old.pos(J, c), new.pos(J, c)
                    return z3.Implies(conj(had, new.has(J, c)), z3.And(z3.Implies(z3.ULT(a, p), z3.ULT(b, p)), z3.Implies(z3.UGT(a, p), z3.UGE(b, p)))), old.terms_all(c) + new.terms_all(c)
                l.append(('elements not yet visited stay ahead, visited ones behind (key %d)' % J, Q('visited', ['key'], keeps), ('C14',)))
        return l + dn.inv_goals(s, T)

    def erase(J):
        def f(e):
            T = e.table('T'); k = e.key(); o = e.out()
            old = e.old[T]
            e.ctx.unit = {'S': old, 'J': J, 'c': cls(k)}
            if old.n is not None:
                for j in range(K): e.seen(cls(old.key(j, old.pos(J, cls(k)))))
            return lambda s, r: erased(e, s, T, o, old.has(J, cls(k)), old.pos(J, cls(k)))
        return f
    for J in range(K): op('op_erase' + ('_%d' % J if K > 1 else ''))(erase(J))

    @op('op_erase_at', ('buf',))
    def _(e):
        T = e.table('T'); q = e.iter_arg(T, 'pos', False); o = e.out()
        for j in range(K): e.seen(cls(e.old[T].key(j, q)))
        return lambda s, r: erased(e, s, T, o, z3.BoolVal(True), q)

    @op('op_clear')
    def _(e):
        T = e.table('T')

        def post(s, r):
            return is_empty(s, T) + [('the buffers stay', conj(DSnap(dn, s, T).cap == e.old[T].cap, DSnap(dn, s, T).dcap == e.old[T].dcap), ('C10',))] + dn.inv_goals(s, T)
        return post

    def is_empty(s, T):
        new = DSnap(dn, s, T)
        return [('no key is left', Q('empty', ['key'], lambda c: (conj(*[z3.Not(new.has(J, c)) for J in range(K)]), new.terms_all(c))), (P, 'C03', 'C06')), ('the size is zero', new.size == 0, ('C03',))]

    # -------------------------------------------------- capacity
    def resize(which):
        def f(e):
            T = e.table('T'); n = e.num()

            def post(s, r):
                old, new = e.old[T], DSnap(dn, s, T)
                l = [('the elements are the same', q_same(old, new), ('C10', P)), ('the size is the same', new.size == old.size, ('C10', 'C03'))]
                if which == 'reserve': l.append(('there is room for the reserved number of elements', z3.ULE(n, new.dcap), ('C10',)))
                else: l.append(('there are at least as many buckets as requested', z3.ULE(n, new.cap), ('C10',)))
                return l + dn.inv_goals(s, T)
            return post
        return f
    op('op_reserve')(resize('reserve')); op('op_rehash')(resize('rehash'))

    # -------------------------------------------------- construction, destruction, transfer
    @op('op_ctor', ('new',))
    def _(e):
        T = e.uninit('T')
        return lambda s, r: is_empty(s, T) + dn.inv_goals(s, T)

    @op('op_ctor_n', ('new',))
    def _(e):
        T = e.uninit('T'); n = e.num()
        return lambda s, r: is_empty(s, T) + dn.inv_goals(s, T) + [('there are at least as many buckets as requested', z3.ULE(n, dn.t_cap(s, T)), ('C10',))]

    @op('op_dtor')
    def _(e):
        T = e.table('T'); e.tabs.remove(T)
        return lambda s, r: []

    def same_order(a, b):
        if a.n is None or b.n is None: return []
        return [('the elements keep their order', Q('order', [D], lambda s: z3.Implies(z3.ULT(s, a.size), conj(*[b.obj(o, s) == a.obj(o, s) for o in dn.objs]))), ('C06', 'C03'))]

    def takes(e, s, T, O):
        a, b = e.old[O], DSnap(dn, s, T)
        return [('the elements are those of the source', q_same(a, b), ('C06', P)), ('the sizes agree', b.size == a.size, ('C06', 'C03'))] + same_order(a, b)

    @op('op_copy')
    def _(e):
        T = e.uninit('T'); O = e.table('O', True, kind=e.variant)
        return lambda s, r: takes(e, s, T, O) + dn.inv_goals(s, T) + d_unchanged(e, s, O)

    def left(s, O): return [('the source is empty', dn.t_size(s, O) == 0, ('C06', 'C03'))] + [('the source: ' + a, b, c) for a, b, c in dn.inv_goals(s, O)]

    @op('op_move')
    def _(e):
        T = e.uninit('T'); O = e.table('O', kind=e.variant)
        return lambda s, r: takes(e, s, T, O) + dn.inv_goals(s, T) + left(s, O)
    V2 = tuple(a + '/' + b for a in ALL for b in ALL) + ('self',)

    def assign(mv):
        def f(e):
            if e.variant == 'self':
                T = e.table('T', kind='buf'); e.args.append(e.args[0])
                return lambda s, r: [('self-assignment changes nothing', q_same(e.old[T], DSnap(dn, s, T)), ('C06',)), ('the sizes agree', dn.t_size(s, T) == e.old[T].size, ('C06', 'C03'))] + dn.inv_goals(s, T)
            T = e.table('T'); O = e.table('O', not mv)
            return lambda s, r: takes(e, s, T, O) + dn.inv_goals(s, T) + (left(s, O) if mv else d_unchanged(e, s, O))
        return f
    op('op_assign', V2)(assign(False)); op('op_assign_m', V2)(assign(True))

    @op('op_swap', V2)
    def _(e):
        if e.variant == 'self':
            T = e.table('T', kind='buf'); e.args.append(e.args[0])
            return lambda s, r: [('self-swap changes nothing', q_same(e.old[T], DSnap(dn, s, T)), ('C06',))] + dn.inv_goals(s, T)
        T = e.table('T'); O = e.table('O')
        return lambda s, r: takes(e, s, T, O) + takes(e, s, O, T) + dn.inv_goals(s, T) + [('the second: ' + a, b, c) for a, b, c in dn.inv_goals(s, O)]

    def eq(neg):
        def f(e):
            if e.variant == 'self': T = e.table('T', True, kind='buf'); e.args.append(e.args[0]); O = T
            else: T = e.table('T', True); O = e.table('O', True)
            e.ctx.unit = {'eq': (e.old[T], e.old[O])}
            E, a, b = z3.Const('contents_agree', z3.BoolSort()), e.old[T].size, e.old[O].size
            e.st.add(z3.Implies(E, a == b), z3.Implies(z3.And(a == 0, b == 0), E))       # what it means that the contents agree

            def post(s, r):
                return [('the comparison is decided by the contents', to_bool(r) == (z3.Not(E) if neg else E), ('C16',))] + d_unchanged(e, s, T) + (d_unchanged(e, s, O) if O is not T else [])
            return post
        return f
    op('op_eq', V2)(eq(False)); op('op_neq', V2)(eq(True))
    return R
