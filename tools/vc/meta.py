"""C11: the metadata-group operations against their byte-by-byte meaning, for every group value (pure bit-vector obligations)."""
from group import *

T11 = ('C11',)
EMPTY, DELETED, SENTINEL = 0x80, 0xfe, 0xff


def occ(b): return z3.Extract(7, 7, b) == 0
def emp(b): return b == EMPTY
def av(b): return z3.Or(b == EMPTY, b == DELETED)
def legal(b): return z3.Or(occ(b), av(b), b == SENTINEL)


class MetaGroup(Group):
    def __init__(self, flags, W):
        Group.__init__(self, 'meta.cpp', ['-std=c++17'] + flags, lambda sc, b, d: False)
        self.W = W

    def units(self):
        ops = ['size', 'match_eq', 'match_empty', 'match_available', 'no_eq', 'no_empty', 'no_available', 'first_eq', 'first_empty', 'first_available', 'count_available',
               'reset', 'is_occupied', 'is_available', 'code_empty', 'code_deleted', 'code_sentinel', 'ctz32', 'ctz64', 'clz16', 'clz64', 'nctz64', 'nctz16', 'nclz64', 'nclz16']
        return [('op_' + n, None) for n in ops]

    def unit(self, name, variant=None):
        ctx = Ctx(self.mod, Model())
        ctx.fn, ctx.unroll = name, 70
        f = self.fn('', name)
        st = State()
        W = self.W
        n = name[3:]
        bs = [z3.BitVec('b%d' % k, 8) for k in range(W)]
        h = z3.BitVec('h', 8)

        def rec(nm, size):
            r = Region(nm, 'rec', size); st.regs[nm] = r; st.live[nm] = True
            return Ptr(r, None, 0)
        p = rec('group', W)
        for k, b in enumerate(bs): st.mem[('group', k, 8)] = b; st.add(legal(b))
        st.add(occ(h))
        dis = rec('dis', 1)
        idx = lambda q: z3.Concat(*[z3.If(q(b), bv(1, 1), bv(0, 1)) for b in reversed(bs)])

        def zx(x): return z3.ZeroExt(64 - x.size(), x)

        def first(q):
            r = bv(W)
            for k in range(W - 1, -1, -1): r = z3.If(q(bs[k]), bv(k), r)
            return r
        kind = n.split('_', 1)[1] if '_' in n else ''
        q = {'eq': lambda b: b == h, 'empty': emp, 'available': av}.get(kind)
        G = []
        if n == 'size': args, post = [], lambda s, r: [('a group has %d bytes' % W, r == W)]
        elif n.startswith('match_'):
            args = [p] + ([h] if kind == 'eq' else []) + [dis]

            def post(s, r):
                l = [('every matching index is enumerated', (zx(idx(q)) & ~r) == 0), ('indices come in increasing order', s.mem[('dis', 0, 8)] == 0 if not z3.is_bool(s.mem[('dis', 0, 8)]) else z3.Not(s.mem[('dis', 0, 8)]))]
                if kind == 'eq' and W == 8:
                    extra = idx(lambda b: z3.And(occ(b), b != h))
                    return l + [('extra candidates are occupied slots with another fragment', (r & ~zx(idx(q)) & ~zx(extra)) == 0)]
                return l + [('no other index is enumerated', (r & ~zx(idx(q))) == 0)]
        elif n.startswith('no_'):
            args = [p] + ([h] if kind == 'eq' else [])
            post = lambda s, r: [('the match is empty exactly if no byte matches', to_bool(r) == (idx(q) == 0))]
        elif n.startswith('first_'):
            args = [p] + ([h] if kind == 'eq' else [])
            st.add(idx(q) != 0)
            post = lambda s, r: [('the first index', r == first(q))]
        elif n == 'count_available':
            args = [p]
            post = lambda s, r: [('number of leading available bytes', r == first(lambda b: z3.Not(av(b))))]
        elif n == 'reset':
            o = rec('out', W)
            args = [p, o]

            def post(s, r):
                res = []
                v = ctx.load(s, o, Ty('i', None, W * 8))
                for k, b in enumerate(bs): res.append(('byte %d becomes deleted if occupied, else empty' % k, z3.Extract(8 * k + 7, 8 * k, v) == z3.If(occ(b), bv(DELETED, 8), bv(EMPTY, 8))))
                return res
        elif n in ('is_occupied', 'is_available'):
            args = [bs[0]]
            post = lambda s, r: [('classification', to_bool(r) == (occ(bs[0]) if n == 'is_occupied' else av(bs[0])))]
        elif n.startswith('code_'):
            args = []
            post = lambda s, r: [('encoding', r == {'empty': EMPTY, 'deleted': DELETED, 'sentinel': SENTINEL}[kind])]
        else:
            w = int(n[-2:])
            x = z3.BitVec('x', w)
            st.add(x != 0)
            args = [x]
            lead = 'clz' in n
            bits = range(w - 1, -1, -1) if not lead else range(w)
            val = bv(w)
            for k in bits: val = z3.If(z3.Extract(k, k, x) == 1, bv(k if not lead else w - 1 - k), val)
            post = lambda s, r: [('position of the %s set bit' % ('highest' if lead else 'lowest'), r == val)]
        if len(args) != len(f.args): raise Unsupported('unexpected signature of ' + name)
        for s, r in ctx.run(f, st, args):
            for nm, g, in post(s, r): ctx.oblige(s, g, 'ensures: ' + nm, T11)
        for o in ctx.obls: o.pure, o.tags = True, T11
        return ctx
