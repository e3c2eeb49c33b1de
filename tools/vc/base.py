"""Object, allocator and layout model shared by all tables."""
import re
from core import *
from sym import _cnt

TAG_LIFE, TAG_MEM = ('C07',), ('C12',)


def layouts(txt):
    """record name prefix -> {field: offset}, size"""
    out = []
    for blk in txt.split('*** Dumping AST Record Layout')[1:]:
        ls = [l for l in blk.strip('\n').split('\n') if l.strip()]
        m = re.match(r'\s*0 \| (.*)', ls[0])
        fields, size = [], 0
        for l in ls[1:]:
            k = re.match(r'\s*(\d+) \|( +)(.*)$', l)
            if k: fields.append((int(k[1]), len(k[2]) // 2, k[3].split(' ')[-1] if not k[3].endswith(')') else '(base) ' + k[3], k[3]))
            z = re.search(r'sizeof=(\d+)', l)
            if z: size = int(z[1])
        out.append((m[1] if m else '', fields, size))
    return out


def find_layout(ls, pat):
    for n, f, s in ls:
        if re.match(pat, n): return n, f, s
    raise IRError('no record layout for ' + pat)


def off(fields, name, last=True):
    r = [o for o, d, n, full in fields if n == name]
    if not r: raise IRError('no field ' + name)
    return r[-1] if last else r[0]


class Model:
    """opaque objects (vp_* functions), allocation, regions; subclasses add a table"""
    def __init__(self): self.heap_classes = {}

    # ---- contracts of the opaque functions
    def install(self, ctx):
        C = ctx.contracts
        for n in ('copy', 'move', 'acopy', 'amove', 'dtor', 'init', 'default', 'hash', 'eq', 'alloc', 'dealloc'):
            C[('', 'vp_' + n)] = getattr(self, 'vp_' + n)

    def cell(self, ctx, st, p):
        """-> (value key, alive key)"""
        return (p.r.name, 'v', p.o), (p.r.name, 'al', p.o)

    def obj_ok(self, ctx, st, p, what, tag=TAG_MEM):
        if isinstance(p, UndefT) or p.r is None or p.r.name == 'badnull':
            ctx.oblige(st, False, '%s through a null or undefined pointer' % what, tag); return False
        if not st.live.get(p.r.name, False):
            ctx.oblige(st, False, '%s inside released memory %s' % (what, p.r.name), tag); return False
        if p.r.kind == 'arr':
            if p.r.x.get('role') == 'meta': raise Unsupported('object in metadata')
            if p.r.x.get('role') == 'cell': ctx.oblige(st, self.cell_ok(st, p), '%s inside an element' % what, tag)
            else: ctx.oblige(st, z3.ULT(p.i, p.r.n), '%s inside %s' % (what, p.r.name), tag)
            st.term(('slot', p.r.grp), p.i)
        return True

    def is_alive(self, ctx, st, p):
        vk, ak = self.cell(ctx, st, p)
        if p.r.kind == 'arr':
            if ak not in st.mem: raise Unsupported('no object at offset %d of %s' % (p.o, p.r.name))
            return z3.Select(st.mem[ak], p.i)
        return st.mem.get(ak, z3.BoolVal(False))

    def set_alive(self, ctx, st, p, b):
        vk, ak = self.cell(ctx, st, p)
        if p.r.kind == 'arr': st.mem[ak] = z3.Store(st.mem[ak], p.i, z3.BoolVal(b))
        else: st.mem[ak] = z3.BoolVal(b)

    def value(self, ctx, st, p):
        vk, ak = self.cell(ctx, st, p)
        if p.r.kind == 'arr':
            if vk not in st.mem: raise Unsupported('no object at offset %d of %s' % (p.o, p.r.name))
            return z3.Select(st.mem[vk], p.i)
        if vk not in st.mem: st.mem[vk] = fresh('noval', V)
        return st.mem[vk]

    def set_value(self, ctx, st, p, v, moved=False):
        vk, ak = self.cell(ctx, st, p)
        if p.r.x.get('ro') and not self.dying: ctx.oblige(st, False, 'the argument %s is not modified' % p.r.name, ('C13',))
        if p.r.kind == 'arr': st.mem[vk] = z3.Store(st.mem[vk], p.i, v)
        else: st.mem[vk] = v
        if not moved: self.on_value(ctx, st, p, v)
    dying = False

    def on_value(self, ctx, st, p, v): pass

    def use(self, ctx, st, p, what):
        if not self.obj_ok(ctx, st, p, what): return False
        ctx.oblige(st, self.is_alive(ctx, st, p), '%s a live element' % what, TAG_LIFE)
        return True

    def begin(self, ctx, st, p, v, what):
        if not self.obj_ok(ctx, st, p, what): return
        ctx.oblige(st, z3.Not(self.is_alive(ctx, st, p)), '%s does not overwrite a live element' % what, TAG_LIFE)
        self.set_alive(ctx, st, p, True)
        self.set_value(ctx, st, p, v)

    def vp_copy(self, ctx, st, f, a):
        v = fresh('v', V)
        if self.use(ctx, st, a[1], 'copying from'): v = self.value(ctx, st, a[1])
        self.begin(ctx, st, a[0], v, 'copy construction'); return [(st, None)]

    def vp_move(self, ctx, st, f, a):
        v = fresh('v', V)
        if self.use(ctx, st, a[1], 'moving from'):
            v = self.value(ctx, st, a[1])
            self.set_value(ctx, st, a[1], fresh('moved', V), True)
        self.begin(ctx, st, a[0], v, 'move construction'); return [(st, None)]

    def vp_init(self, ctx, st, f, a):
        self.begin(ctx, st, a[0], fresh('v', V), 'construction'); return [(st, None)]

    def vp_default(self, ctx, st, f, a):
        self.begin(ctx, st, a[0], DEFV, 'default construction'); return [(st, None)]

    def vp_acopy(self, ctx, st, f, a):
        if self.use(ctx, st, a[0], 'assigning to') and self.use(ctx, st, a[1], 'assigning from'):
            self.set_value(ctx, st, a[0], self.value(ctx, st, a[1]))
        return [(st, None)]

    def vp_amove(self, ctx, st, f, a):
        if self.use(ctx, st, a[0], 'assigning to') and self.use(ctx, st, a[1], 'assigning from'):
            v = self.value(ctx, st, a[1])
            self.set_value(ctx, st, a[1], fresh('moved', V), True)
            self.set_value(ctx, st, a[0], v)
        return [(st, None)]

    def vp_dtor(self, ctx, st, f, a):
        if self.use(ctx, st, a[0], 'destroying'):
            if a[0].r.x.get('ro'): ctx.oblige(st, False, 'the argument is not destroyed', TAG_LIFE)
            self.set_alive(ctx, st, a[0], False)
        return [(st, None)]

    def vp_hash(self, ctx, st, f, a):
        if not self.use(ctx, st, a[0], 'hashing'): return [(st, fresh('h', B64))]
        c = cls(self.value(ctx, st, a[0]))
        st.term('key', c)
        return [(st, Hc(c))]

    def vp_eq(self, ctx, st, f, a):
        if not (self.use(ctx, st, a[0], 'comparing') and self.use(ctx, st, a[1], 'comparing')): return [(st, fresh('e', z3.BoolSort()))]
        x, y = cls(self.value(ctx, st, a[0])), cls(self.value(ctx, st, a[1]))
        return [(st, x == y)]

    def vp_alloc(self, ctx, st, f, a):
        n, sz = a[0], z3.simplify(a[1]).as_long()
        r = self.new_region(ctx, st, n, sz)
        st.live[r.name] = True
        st.add(z3.ULE(n, bv((1 << 47) // sz)))          # the allocator returned, so the request was not larger than the address space
        return [(st, Ptr(r, bv(0) if r.kind == 'arr' else None, 0))]

    def vp_dealloc(self, ctx, st, f, a):
        p, n, sz = a[0], a[1], z3.simplify(a[2]).as_long()
        if isinstance(p, UndefT) or p.r is None or not p.r.x.get('heap'):
            ctx.oblige(st, False, 'only allocated blocks are released', TAG_LIFE); return [(st, None)]
        if not st.live.get(p.r.name): ctx.oblige(st, False, 'a block is released once', TAG_LIFE); return [(st, None)]
        ctx.oblige(st, z3.And(p.i == 0, z3.BoolVal(p.o == 0 and sz == p.r.S), n == p.r.n), 'a block is released with the size it was requested with', TAG_LIFE)
        self.on_free(ctx, st, p.r)
        st.live[p.r.name] = False
        return [(st, None)]

    def on_free(self, ctx, st, r): pass

    def arg_obj(self, ctx, st, name, ro=True):
        r = Region(name, 'rec', 8, meta={'ro': ro}); st.regs[name] = r; st.live[name] = True
        st.mem[(name, 'v', 0)] = fresh(name, V); st.mem[(name, 'al', 0)] = z3.BoolVal(True)
        st.term('key', cls(st.mem[(name, 'v', 0)]))
        return Ptr(r, None, 0)

    def out_rec(self, ctx, st, name, size=64):
        r = Region(name, 'rec', size); st.regs[name] = r; st.live[name] = True
        return Ptr(r, None, 0)

    # ---- cfg interface of the executor
    def inline_ok(self, g): return True
    def mask_lanes(self, w): return list(range(w))
    def udiv(self, ctx, st, a, b): return z3.UDiv(a, b)
    def urem(self, ctx, st, a, b): return z3.URem(a, b)
    def fp_to_int(self, ctx, st, v, t): return fresh('fp', z3.BitVecSort(t.n))
    def fcmp(self, ctx, st, c, a, b): return fresh('fcmp', z3.BoolSort())
    def on_ptr_store(self, ctx, st, p, old, t): pass
    def on_meta_store(self, ctx, st, r, q, old, new): pass
    def copy_fields(self, ctx, st, d, s, k): return False
    def fill(self, ctx, st, p, b, n): raise Unsupported('fill')
    def auto_loop(self, ctx, f, h): return None


DEFV = z3.Const('default_value', V)
