"""Verification of the dense tables: functions under contract, units."""
from denseops import *
from group import Group, throws, nest, calls
import denseops, dense

DENSE_KEEP = {'find_node', 'find_chain_ptr', 'resize_data', 'clear_data'}
WRAP = re.compile(r'(do_rehash|copy_data|move_data)<')


class DensePerm(Contract):
    """std::is_permutation over the whole of both tables (assumed: it decides whether the contents agree)"""
    name = 'std::is_permutation'

    def __init__(self, dn): self.dn = dn

    def pre(self, ctx, st, a):
        S, T = ctx.unit['eq'], ('C16',)
        its = self.dn.perm_args(ctx, st, a)
        if its is None: return [('iterators of the two tables', z3.BoolVal(False), T)]
        l, used = [], []
        for b, e in its:
            sn = next((x for x in S if b.r is x.n and e.r is x.n and not any(x is u for u in used)), None)
            if sn is None and len(used) == 1 and S[0].n is S[1].n: sn = used[0]
            if sn is None: return [('iterators of the two tables', z3.BoolVal(False), T)]
            used.append(sn)
            if sn.n is not None: l += [('begin of a table', z3.And(b.i == 0, z3.BoolVal(b.o == 0)), T), ('end of a table', z3.And(e.i == sn.size, z3.BoolVal(e.o == 0)), T)]
        return l

    def havoc(self, ctx, st, a): return [(st, z3.Const('contents_agree', z3.BoolSort()))]


class DenseGroup(Group):
    def __init__(self, flags, kind, ordered=False, tmp=None):
        def keep(sc, b, d):
            if sc == 'dense_table' and b in ('do_rehash', 'copy_data', 'move_data'): return not WRAP.search(d)
            return (sc == 'dense_table' and b in DENSE_KEEP) or b.startswith('is_permutation')
        Group.__init__(self, 'dense.cpp', ['-std=c++17', '-DKIND=%d' % kind] + (['-DORDERED'] if ordered else []) + flags, keep, tmp)
        self.mk = lambda: Dense(self.layouts, kind, ordered)
        self.kind = kind

    def ctx(self, unit):
        dn = self.mk()
        ctx = Ctx(self.mod, dn)
        dn.install(ctx)
        self.contracts(ctx, dn)
        ctx.hooks.append(dn)
        ctx.fn = unit
        return ctx, dn

    def contracts(self, ctx, dn):
        C = ctx.contracts
        for n, c in (('find_node', FindNode(dn)), ('find_chain_ptr', FindChain(dn)), ('do_rehash', DoRehash(dn)), ('resize_data', ResizeData(dn)), ('clear_data', ClearData(dn)), ('copy_data', CopyData(dn, False)), ('move_data', CopyData(dn, True))):
            C[('dense_table', n)] = c
        for f in self.mod.funcs.values():
            if f.base.startswith('is_permutation'): C[(f.scope, f.base)] = DensePerm(dn)
        C[('', 'is_permutation')] = DensePerm(dn)
        for n in ('__cxa_throw', '_ZSt20__throw_out_of_rangePKc'): C[('', n)] = throws
        for n in ('_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'): C[('', n)] = lambda ctx, st, f, a: [(st, None)]
        C[('', '__cxa_allocate_exception')] = lambda ctx, st, f, a: [(st, Ptr(Region('exception', 'rec', 64), None, 0))]

    def loops(self, ctx, dn, f, name):
        r = {}
        for h in nest(f):
            if link_fill(f, h, self.mod): continue
            if name in ('find_node', 'find_chain_ptr') or (name.startswith('op_erase') and name != 'op_erase_at'): r[h] = ChainLoop(dn)
            elif name == 'do_rehash': r[h] = LinkLoop(dn, 'rehash')
            elif name == 'copy_data': r[h] = LinkLoop(dn, 'copy')
            elif name == 'move_data': r[h] = LinkLoop(dn, 'move')
            elif name == 'resize_data': r[h] = MoveNodes(dn)
            elif name == 'clear_data': r[h] = ClearLoop(dn)
        return r

    ALL = ('buf', 'null', 'sparse', 'dense')

    def units(self):
        K = 1 if self.kind < 2 else 2
        u = []
        for J in range(K):
            u += [('find_node', '%d,%s' % (J, v)) for v in self.ALL] + [('find_chain_ptr', '%d,buf' % J)]
        for n in ('do_rehash', 'resize_data', 'clear_data'): u += [(n, v) for v in self.ALL]
        u += [('copy_data', a + '/' + b) for a in self.ALL for b in self.ALL]
        if any(f.base == 'move_data' for f in self.mod.funcs.values()): u += [('move_data', a + '/' + b) for a in self.ALL for b in self.ALL]
        O = denseops.ops(self.mk())
        return u + [(n, v) for n in O for v in O[n].variants]

    def unit(self, name, variant=None):
        return self.unit_op(name, variant) if name.startswith('op_') else self.unit_internal(name, variant)

    def fns(self, base, J=None):
        fs = [f for f in self.mod.funcs.values() if f.scope == 'dense_table' and f.base == base and (J is None or key_index(f) == J)]
        if not fs: raise Unsupported('dense_table::%s: no definition' % base)
        return fs

    def unit_internal(self, name, variant):
        ctx, dn = self.ctx('%s (%s)' % (name, variant))
        J = None
        if name in ('find_node', 'find_chain_ptr'): J, variant = int(variant[0]), variant[2:]
        C = {'find_node': FindNode, 'find_chain_ptr': FindChain, 'do_rehash': DoRehash, 'resize_data': ResizeData, 'clear_data': ClearData, 'copy_data': lambda d: CopyData(d, False), 'move_data': lambda d: CopyData(d, True)}[name]
        for f in self.fns(name, J):
            c = C(dn); ctx.proving = c
            st = State()
            v = variant.split('/')
            T = dn.table(ctx, st, 'T', v[0])
            args = [T]
            if name == 'find_node': args += [dn.arg_obj(ctx, st, 'key'), fresh('h', B64)]
            elif name == 'find_chain_ptr':
                s2 = st.copy()
                starts = [Ptr(dn.t_sparse(st, T.r), fresh('bucket', B64), 8 * J), Ptr(dn.t_nodes(st, T.r), fresh('from', B64), dn.o_next[J])]
                args += [starts[0], fresh('pos', B64)]
            elif name in ('do_rehash', 'resize_data'): args.append(fresh('n', B64))
            elif len(v) > 1: args.append(dn.table(ctx, st, 'O', v[1], ro=name == 'copy_data'))
            runs = [(st, args)]
            if name == 'find_chain_ptr':
                runs.append((s2, [T, starts[1], args[2]]))
                s2.term(D, starts[1].i)
            for st, args in runs:
                a = c.bind(ctx, st, f, args)
                ctx.unit = a
                if 'c' in a:
                    st.term('key', a['c'])
                    for d, t in a['S'].terms(J, a['c']): st.term(d, t)
                for nm, q, tg in c.pre(ctx, st, a): st.add(q)
                st0 = st.copy()
                for s, r in ctx.run(f, st, args, self.loops(ctx, dn, f, name)):
                    self.locals_dead(ctx, s)
                    if hasattr(c, 'finish'): c.finish(ctx, s, a)
                    for nm, q, tg in c.post(ctx, st0, s, r, a): ctx.oblige(s, q, 'ensures: ' + nm, tg)
                    if name not in ('clear_data', 'find_node', 'find_chain_ptr'): self.owns(ctx, dn, s, [x.r for x in args if isinstance(x, Ptr) and x.r is not None and x.r.x.get('table')])
        return ctx

    def locals_dead(self, ctx, s):
        for k, v in list(s.mem.items()):
            if len(k) == 3 and k[1] == 'al' and k[0].startswith('loc') and z3.is_bool(v) and not z3.is_false(v):
                ctx.oblige(s, z3.Not(v), 'temporaries are destroyed', ('C07',))

    def owns(self, ctx, dn, s, tabs):
        own = [r for T in tabs for r in dn.owned(s, T)]
        for n, reg in s.regs.items():
            if reg.x.get('heap') and s.live.get(n) and not any(reg is x for x in own): ctx.oblige(s, z3.BoolVal(False), 'no allocation is leaked', ('C07',))
        for x in own: ctx.oblige(s, z3.BoolVal(bool(s.live.get(x.name, False)) and sum(x is y for y in own) == 1), 'every table owns its buffers', ('C06', 'C07', 'C12'))

    def unit_op(self, name, variant=None):
        ctx, dn = self.ctx(name + (' (%s)' % variant if variant else ''))
        op = denseops.ops(dn)[name]
        e = DEnv(ctx, dn, State(), variant or op.variants[0])
        post = op.build(e)
        f = self.fn('', name)
        ctx.thrown = []
        outs = ctx.run(f, e.st, e.args, self.loops(ctx, dn, f, name)) + [(s, 'throw') for s in ctx.thrown]
        for s, r in outs:
            self.locals_dead(ctx, s)
            for nm, q, tg in post(s, r):
                if q is not None: ctx.oblige(s, q, 'ensures: ' + nm, tg)
            self.owns(ctx, dn, s, e.tabs)
        return ctx

    def under_contract(self):
        return sorted({'%s::%s' % (f.scope, f.base) if f.scope else f.base for f in self.mod.funcs.values() if f.blocks})
