"""Compiles a driver, builds the model, and verifies units (functions under contract)."""
import tempfile, shutil, sys
import ir
from ops import *
from stable import StableSwiss

DRIVERS = os.path.join(ir.HERE, 'drivers')
SWISS_KEEP = {'find_node', 'find_available', 'do_rehash', 'rehash_deleted', 'erase_nodes', 'copy_data', 'move_data'}


def throws(ctx, st, f, a):
    if not ctx.dry: ctx.thrown.append(st)
    return []


class Permutation(Contract):
    """std::is_permutation over the whole of both tables (assumed: it decides whether the contents agree)"""
    name = 'std::is_permutation'

    def __init__(self, sw): self.sw = sw

    def pre(self, ctx, st, a):
        sw = self.sw
        S = ctx.unit['eq']
        T = tuple(('C16',))
        its = sw.perm_args(ctx, st, a)
        if its is None: return [('iterators of the two tables', z3.BoolVal(False), T)]
        l = []
        used = []
        for b, e in its:
            sn = next((x for x in S if sw.iter_of(b, x) and sw.iter_of(e, x) and not any(x is u for u in used)), None)
            if sn is None and len(used) == 1 and S[0].m is S[1].m: sn = used[0]
            if sn is None: return [('iterators of the two tables', z3.BoolVal(False), T)]
            used.append(sn)
            l += [('begin of a table: ' + nm, q, T) for nm, q, _ in first_occ(sn, bv(0), sw.iter_pos(b))] + [('end of a table', sw.iter_pos(e) == sn.cap, T)]
        return l

    def havoc(self, ctx, st, a): return [(st, z3.Const('contents_agree', z3.BoolSort()))]


class Group:
    def __init__(self, driver, flags, keep, tmp=None):
        self.driver, self.flags = driver, flags
        d = tmp or tempfile.mkdtemp(prefix='vp_vc')
        try:
            src = os.path.join(DRIVERS, driver)
            self.text, self.info, self.cmd = ir.compile_ll(src, flags, keep, d)
            self.mod = ir.Mod(self.text, self.info)
            self.layouts = layouts(ir.record_layouts(src, flags))
        finally:
            if not tmp: shutil.rmtree(d, ignore_errors=True)

    def fn(self, scope, base):
        fs = [f for f in self.mod.funcs.values() if f.scope == scope and f.base == base]
        if len(fs) != 1: raise Unsupported('%s::%s: %d definitions' % (scope, base, len(fs)))
        return fs[0]


def nest(f):
    L = f.analyse()
    return {h: [g for g in L if g != h and h in L[g]] for h in L}


def calls(f, h, base, mod):
    for b in f.analyse()[h]:
        for o in f.blocks[b]:
            if o.op in ('call', 'invoke'):
                g = mod.funcs.get(o.x['f'])
                if g is not None and g.base == base: return True
    return False


class SwissGroup(Group):
    def __init__(self, flags, W=16, is_map=True, stable=False, ordered=False, tmp=None):
        def keep(sc, b, d): return (sc == 'swiss_table' and b in SWISS_KEEP) or (sc == 'swiss_node_iterator' and b == 'next_occupied') or b == 'is_permutation'
        fl = ['-std=c++17', '-DKIND=%d' % (0 if is_map else 1)] + (['-DSTABLE'] if stable else []) + (['-DORDERED'] if ordered else []) + flags
        Group.__init__(self, 'swiss.cpp', fl, keep, tmp)
        self.W = W
        self.mk = (lambda: StableSwiss(self.layouts, W, is_map, ordered)) if stable else (lambda: Swiss(self.layouts, W, is_map))
        self.is_map = is_map

    def ctx(self, unit):
        sw = self.mk()
        ctx = Ctx(self.mod, sw)
        sw.install(ctx)
        self.contracts(ctx, sw)
        ctx.fn = unit
        return ctx, sw

    def contracts(self, ctx, sw):
        C = ctx.contracts
        C[('swiss_table', 'find_node')] = FindNode(sw)
        C[('swiss_table', 'find_available')] = FindAvailable(sw)
        C[('swiss_table', 'do_rehash')] = DoRehash(sw)
        C[('swiss_table', 'rehash_deleted')] = RehashDeleted(sw)
        C[('swiss_node_iterator', 'next_occupied')] = NextOccupied(sw)
        C[('swiss_table', 'erase_nodes')] = EraseNodes(sw)
        C[('swiss_table', 'copy_data')] = CopyData(sw, False)
        C[('swiss_table', 'move_data')] = CopyData(sw, True)
        C[('', 'is_permutation')] = Permutation(sw)
        for n in ('__cxa_throw', '_ZSt20__throw_out_of_rangePKc'): C[('', n)] = throws
        for n in ('_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'): C[('', n)] = lambda ctx, st, f, a: [(st, None)]
        C[('', '__cxa_allocate_exception')] = lambda ctx, st, f, a: [(st, Ptr(Region('exception', 'rec', 64), None, 0))]

    def loops(self, ctx, sw, f, name):
        d = nest(f)
        r = {}
        if name in ('find_node', 'find_available'):
            o = ProbeOuter(sw, 'lookup' if name == 'find_node' else 'insertion'); ctx.outer_specs = [o]
            for h, n in d.items(): r[h] = o if not n else MatchLoop(sw)
            return r
        outer = None
        for h, n in sorted(d.items(), key=lambda x: len(x[1])):
            if fill_pattern(f, h): continue
            if name == 'do_rehash': r[h] = RelocateLoop(sw)
            elif name == 'next_occupied': r[h] = NextLoop(sw)
            elif name == 'erase_nodes': r[h] = EraseLoop(sw)
            elif name in ('copy_data', 'move_data'): r[h] = CopyLoop(sw, name == 'move_data')
            elif name == 'rehash_deleted':
                if n: r[h] = ReclaimInv(sw, outer)
                elif calls(f, h, 'find_available', self.mod): outer = r[h] = ReclaimInv(sw)
                else: r[h] = ConvertLoop(sw)
        return r

    INTERNAL = [('find_node', None), ('find_node', 'no buffers'), ('find_available', None), ('do_rehash', None), ('do_rehash', 'no buffers'), ('rehash_deleted', None),
                ('next_occupied', None), ('erase_nodes', None), ('erase_nodes', 'no buffers'), ('copy_data', None), ('copy_data', 'no source'), ('copy_data', 'no buffers'),
                ('copy_data', 'no buffers, no source')]

    def units(self):
        O = ops(self.mk())
        return list(self.INTERNAL) + [(n, v) for n in O for v in O[n].variants]

    # ------------------------------------------------ internal functions
    def unit_internal(self, name, variant=None):
        ctx, sw = self.ctx(name + (' (%s)' % variant if variant else ''))
        f = self.fn('swiss_node_iterator' if name == 'next_occupied' else 'swiss_table', name)
        C = {'find_node': FindNode, 'find_available': FindAvailable, 'do_rehash': DoRehash, 'rehash_deleted': RehashDeleted, 'next_occupied': NextOccupied, 'erase_nodes': EraseNodes, 'copy_data': lambda s: CopyData(s, False), 'move_data': lambda s: CopyData(s, True)}[name]
        c = C(sw); ctx.proving = c
        st = State(); sw.begin_state(st)
        T = sw.table(ctx, st, 'T', null=(variant or '').startswith('no buffers'))
        if name == 'find_node': args = [T, sw.arg_obj(ctx, st, 'key'), fresh('h', B64)]
        elif name == 'find_available': args = [T, fresh('h', B64)]
        elif name == 'do_rehash': args = [T, fresh('capacity', B64)]; st.term('cap', args[1])
        elif name in ('rehash_deleted', 'erase_nodes'): args = [T]
        elif name in ('copy_data', 'move_data'):
            args = [T, sw.table(ctx, st, 'O', null=(variant or '').endswith('no source'), ro=name == 'copy_data')]
            if not (variant and variant.endswith('no source')):
                sw.share = sw.t_meta(st, args[1].r).grp      # the slots of both tables are the same terms
                for r in (sw.t_meta(st, T.r), sw.t_nodes(st, T.r)):
                    if r is not None: r.grp = sw.share
        elif name == 'next_occupied':
            it = sw.out_rec(ctx, st, 'it', 16)
            p = fresh('p', B64)
            st.mem[('it', 0, 64)] = Ptr(sw.t_meta(st, T.r), p, 0); st.mem[('it', 8, 64)] = Ptr(sw.t_nodes(st, T.r), p, 0)
            sw.t_nodes(st, T.r).grp = sw.t_meta(st, T.r).grp
            args = [it]
        a = c.bind(ctx, st, f, args)
        if name == 'find_node':
            a['c'] = cls(sw.value(ctx, st, a['k']))
        ctx.unit = a
        for nm, q, tg in c.pre(ctx, st, a): st.add(q)
        m = sw.t_meta(st, T.r)
        if m is not None: sw.witness(st, m, sw.t_cap(st, T.r))
        if 'src' in a and a['src'].m is not None: sw.witness(st, a['src'].m, a['src'].cap)
        if name == 'find_node' and m is not None: st.term(('slot', m.grp), sw.cur(st, sw.t_nodes(st, T.r), a['c']))
        st0 = st.copy()
        outs = ctx.run(f, st, args, self.loops(ctx, sw, f, name))
        for s, r in outs:
            if m is not None and r is not None: s.term(('slot', m.grp), r)
            self.locals_dead(ctx, s)
            if hasattr(c, 'finish'): c.finish(ctx, s, a)
            for nm, q, tg in c.post(ctx, st0, s, r, a): ctx.oblige(s, q, 'ensures: ' + nm, tg)
        return ctx

    def locals_dead(self, ctx, s):
        for k, v in list(s.mem.items()):
            if len(k) == 3 and k[1] == 'al' and k[0].startswith('loc') and z3.is_bool(v) and not z3.is_false(v):
                ctx.oblige(s, z3.Not(v), 'temporaries are destroyed', ('C07',))

    def unit(self, name, variant=None):
        return self.unit_op(name, variant) if name.startswith('op_') else self.unit_internal(name, variant)

    # ------------------------------------------------ operations
    def unit_op(self, name, variant=None):
        ctx, sw = self.ctx(name + (' (%s)' % variant if variant else ''))
        op = ops(sw)[name]
        st = State(); sw.begin_state(st)
        e = Env(ctx, sw, st, variant or op.variants[0])
        post = op.build(e)
        f = self.fn('', name)
        e.st.add(*[q for _, q, _ in sw.no_leak(e.st, [o.n for o in e.old.values() if o.n is not None], e.handles)])
        ctx.thrown = []
        lp = {h: e.loop(n) for h, n in nest(f).items() if not fill_pattern(f, h)} if e.loop else {}
        outs = ctx.run(f, e.st, e.args, lp) + [(s, 'throw') for s in ctx.thrown]
        for s, r in outs:
            self.locals_dead(ctx, s)
            for nm, q, tg in post(s, r): ctx.oblige(s, q, 'ensures: ' + nm, tg)
            own = [r for T in e.tabs for r in sw.owned(s, T)]
            for n, reg in s.regs.items():
                if reg.x.get('heap') and s.live.get(n) and not any(reg is x for x in own): ctx.oblige(s, z3.BoolVal(False), 'no allocation is leaked', ('C07',))
            for nm, q, tg in sw.no_leak(s, [x for x in own if x.x.get('role') == 'nodes'], e.held(s)): ctx.oblige(s, q, nm, tg)
            for x in own: ctx.oblige(s, z3.BoolVal(s.live.get(x.name, False) and sum(x is y for y in own) == 1), 'every table owns its buffers', ('C06', 'C07', 'C12'))
        return ctx
