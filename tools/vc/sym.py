"""Symbolic executor and verification-condition generator over the prepared LLVM IR.

Values: z3 bit-vectors (iN; i1 as z3 Bool), Ptr, Vec (list of bytes or Bools), Agg (list), Diff (difference of two pointers), Undef.
Memory: per region and byte offset inside an element one z3 array (element index -> value), or a plain value for records.
Loops are cut at their headers with invariants; callees with a contract are replaced by it; everything else was inlined."""
import z3, itertools
from ir import *

B64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
V = z3.DeclareSort('V')      # state of an opaque element object
K = z3.DeclareSort('K')      # equivalence class of a key under the key comparison
cls = z3.Function('cls', V, K)
Hc = z3.Function('Hc', K, B64)


def bv(n, w=64): return z3.BitVecVal(n, w)


class Unsupported(Exception):
    pass


class Region:
    def __init__(self, name, kind, S=0, n=None, grp=None, meta=None):
        self.name, self.kind, self.S, self.n, self.grp, self.x = name, kind, S, n, grp, meta or {}

    def __repr__(self): return self.name


class Ptr:
    __slots__ = ('r', 'i', 'o')

    def __init__(self, r, i=None, o=0): self.r, self.i, self.o = r, i, o
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.r, self.i, self.o)


NULL = Ptr(None)


class Vec:
    __slots__ = ('b', 'w')

    def __init__(self, b, w=8): self.b, self.w = b, w   # list of z3 BV(w) or Bools (w == 1), lane 0 first


class Agg:
    def __init__(self, e): self.e = e


class PInt:
    """integer value of a pointer"""
    def __init__(self, p): self.p = p


class Diff:
    """a - b for pointers"""
    def __init__(self, a, b): self.a, self.b = a, b


class Scaled:
    """idx * S (+ off): result of a pointer difference in one region"""
    def __init__(self, i, S, o): self.i, self.S, self.o = i, S, o


class FloatV:
    def __init__(self, t): self.t = t


class UndefT:
    def __repr__(self): return 'undef'


UNDEF = UndefT()


class Q:
    """universally quantified fact: doms = list of domain names, fn(*terms) -> z3 Bool"""
    def __init__(self, name, doms, fn, guard=None, gex=None): self.name, self.doms, self.fn, self.guard, self.gex = name, doms, fn, guard, gex


DSORT = {'key': K}
_cnt = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)


class State:
    def __init__(self):
        self.mem, self.pc, self.facts, self.terms, self.live, self.g, self.log = {}, [], [], {}, {}, {}, []
        self.regs = {}

    def copy(self):
        s = State()
        s.mem, s.pc, s.facts = dict(self.mem), list(self.pc), list(self.facts)
        s.terms = {k: list(v) for k, v in self.terms.items()}
        s.live, s.g, s.log, s.regs = dict(self.live), dict(self.g), list(self.log), dict(self.regs)
        return s

    def term(self, dom, t):
        if t is None: return
        if z3.is_expr(t): t = z3.simplify(t)
        l = self.terms.setdefault(dom, [])
        if not any(t.eq(x) for x in l): l.append(t)

    def add(self, *fs):
        for f in fs:
            if f is None: continue
            if isinstance(f, Q): self.facts.append(f)
            elif isinstance(f, (list, tuple)): self.add(*f)
            else:
                if isinstance(f, bool): f = z3.BoolVal(f)
                self.pc.append(f)


class Frozen:
    """the memory of a state at this moment; quantified facts refer to it"""
    def __init__(self, st): self.mem, self.st, self.live, self.g, self.regs = dict(st.mem), st, dict(st.live), st.g, st.regs
    def term(self, d, t): self.st.term(d, t)
    def add(self, *f): self.st.add(*f)
    def copy(self): return self


def fz(st): return st if isinstance(st, Frozen) else Frozen(st)


class Obl:
    def __init__(self, fn, name, tags, hyps, goal, detail=''):
        self.fn, self.name, self.tags, self.hyps, self.goal, self.detail = fn, name, tags, hyps, goal, detail


def to_bool(v):
    if isinstance(v, UndefT): return fresh('undef', z3.BoolSort())
    if z3.is_bool(v): return v
    return v == z3.BitVecVal(1, v.size()) if v.size() == 1 else v != 0


def to_bv(v, w):
    if isinstance(v, UndefT): return fresh('undef', z3.BitVecSort(w))
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def flat(v):
    """Vec -> Vec of bytes"""
    if v.w == 8: return v.b
    if v.w == 1: raise Unsupported('bool vector as bytes')
    return [z3.Extract(8 * i + 7, 8 * i, e) for e in v.b for i in range(v.w // 8)]


def regroup(bytes_, w):
    if w == 8: return Vec(list(bytes_), 8)
    n = w // 8
    return Vec([z3.Concat(*reversed(bytes_[i:i + n])) for i in range(0, len(bytes_), n)], w)


def bytes_of(v, n):
    if isinstance(v, Vec): return flat(v)
    if isinstance(v, UndefT): return [fresh('undef', B8) for _ in range(n)]
    if z3.is_bv(v): return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
    raise Unsupported('bytes of ' + str(v))


class Ctx:
    """one module under verification; collects obligations"""
    def __init__(self, mod, cfg):
        self.mod, self.cfg = mod, cfg
        self.obls, self.dry, self.fn = [], 0, ''
        self.contracts = {}      # (scope, base) -> handler(ctx, st, f, args) -> [(st, ret)]
        self.loopspecs = {}      # (scope, base) -> function(ctx, f) -> {header: LoopSpec}
        self.notes = []
        self.maxpaths = 4000
        self.unroll = None       # full unrolling of loops with a constant bound (the bound is an obligation)
        self.paths = 0
        self.hooks = []
        self.used_contracts = set()
        self.proving = None
        self.outer_specs = []

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, tags=()):
        if self.dry: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not isinstance(goal, Q) and z3.is_true(z3.simplify(goal)):
            self.obls.append(Obl(self.fn, name, tags, None, None)); return
        self.obls.append(Obl(self.fn, name, tags, st.copy(), goal))

    # ------------------------------------------------------------ values
    def val(self, st, env, v, ty):
        k = v[0]
        if k == 'v': return env[v[1]]
        if k == 'c':
            t = v[1]
            if t in ('undef', 'poison'): return self.undef(ty)
            if ty.k == 'ptr': return NULL
            if ty.k == 'i':
                if ty.n == 1: return z3.BoolVal(t == 'true')
                return bv(int(t) if t != 'zeroinitializer' else 0, ty.n)
            if t == 'zeroinitializer': return self.zero(ty)
            if ty.k in ('float', 'double'): return FloatV(('c', t))
        if k == 'vec': return Vec([self.val(st, env, e, ty.a) for e in v[1]], ty.a.n)
        if k == 'agg':
            rt = self.mod.resolve(ty)
            ts = rt.a[0] if rt.k == 'struct' else [rt.a] * rt.n
            return Agg([self.val(st, env, e, t) for e, t in zip(v[1], ts)])
        if k == 'g': return Ptr(self.global_region(st, v[1]), None, 0)
        raise Unsupported('value %s %s' % (v, ty))

    def undef(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'vec' : return Vec([fresh('undef', z3.BitVecSort(ty.a.n)) if ty.a.n > 1 else fresh('undef', z3.BoolSort()) for _ in range(ty.n)], ty.a.n)
        if ty.k == 'struct': return Agg([self.undef(e) for e in ty.a[0]])
        if ty.k == 'arr': return Agg([self.undef(ty.a) for _ in range(ty.n)])
        return UNDEF

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'i': return z3.BoolVal(False) if ty.n == 1 else bv(0, ty.n)
        if ty.k == 'ptr': return NULL
        if ty.k == 'vec': return Vec([self.zero(ty.a) for _ in range(ty.n)], ty.a.n)
        if ty.k == 'struct': return Agg([self.zero(e) for e in ty.a[0]])
        if ty.k == 'arr': return Agg([self.zero(ty.a) for _ in range(ty.n)])
        if ty.k in ('float', 'double'): return FloatV(('c', '0'))
        raise Unsupported('zero')

    def global_region(self, st, name):
        n = 'glob' + name
        if n not in st.regs:
            st.regs[n] = Region(n, 'rec'); st.live[n] = True
            ln = self.mod.globals.get(name, '')
            m = re.search(r'constant i64 (-?\d+)', ln) or re.search(r'global i64 (-?\d+)', ln)
            if m and 'constant' in ln: st.mem[(n, 0, 64)] = bv(int(m[1]))
        return st.regs[n]

    # ------------------------------------------------------------ pointers
    def norm(self, p):
        if p.r is not None and p.r.kind == 'arr' and not (0 <= p.o < p.r.S):
            d = p.o // p.r.S
            return Ptr(p.r, p.i + bv(d), p.o - d * p.r.S)
        return p

    def gep(self, st, base, ty, ix):
        """ix: list of (type, value)"""
        if isinstance(base, UndefT): return UNDEF
        mod, off, dyn = self.mod, 0, []
        cur = None
        for n, (it, v) in enumerate(ix):
            if n == 0: sz, nxt = mod.size(ty), ty
            else:
                rt = mod.resolve(cur)
                if rt.k == 'struct':
                    o, nxt = mod.field(rt, z3.simplify(v).as_long()); off += o; cur = nxt
                    continue
                sz, nxt = mod.size(rt.a), rt.a
            cur = nxt
            if z3.is_bv(v) and v.size() < 64: v = z3.SignExt(64 - v.size(), v)
            if z3.is_bv(v):
                sv = z3.simplify(v)
                if z3.is_bv_value(sv): off += sv.as_signed_long() * sz
                else: dyn.append((sv, sz))
            elif isinstance(v, UndefT): dyn.append((fresh('undef', B64), sz))
            else: dyn.append((v, sz))
        p = base
        for v, sz in dyn:
            p = self.ptr_add(st, p, v, sz)
        if off:
            if p.r is None: return Ptr(Region('badnull', 'rec'), None, off)
            p = self.norm(Ptr(p.r, p.i, p.o + off))
        if p.r is not None and p.r.kind == 'arr' and dyn: st.term(('slot', p.r.grp), p.i) if p.r.x.get('role') != 'meta' else None
        return p

    def ptr_add(self, st, p, v, sz):
        for h in self.hooks:
            r = h.ptr_add(self, st, p, v, sz) if hasattr(h, 'ptr_add') else None
            if r is not None: return r
        if p.r is None:
            if z3.is_bv(v) and z3.is_bv_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0: return p
            return Ptr(Region('badnull', 'rec'), None, 0)
        if isinstance(v, Scaled):
            if p.r.kind == 'arr' and v.S * sz == p.r.S: return self.norm(Ptr(p.r, p.i + v.i, p.o + v.o * sz))
            raise Unsupported('pointer + scaled difference')
        if p.r.kind == 'arr':
            if sz == p.r.S: return Ptr(p.r, p.i + v, p.o)
            if sz % p.r.S == 0: return Ptr(p.r, p.i + v * bv(sz // p.r.S), p.o)
        raise Unsupported('dynamic offset (%s, element %d) into %s (element %s)' % (v, sz, p.r, p.r.S))

    def ptr_eq(self, st, a, b):
        if isinstance(a, UndefT) or isinstance(b, UndefT): return fresh('undef', z3.BoolSort())
        for h in self.hooks:
            r = h.ptr_eq(self, st, a, b) if hasattr(h, 'ptr_eq') else None
            if r is not None: return r
        def nul(x):  # heap cell pointers with id 0 are null
            if x.r is None: return z3.BoolVal(True)
            if x.r.x.get('role') == 'cell': return x.i == 0
            return z3.BoolVal(False)
        if a.r is None or b.r is None: return nul(b if a.r is None else a)
        if a.r is not b.r: return z3.BoolVal(False)
        if a.r.kind == 'rec': return z3.BoolVal(a.o == b.o)
        if a.o == b.o: return a.i == b.i
        return z3.BoolVal(False)

    # ------------------------------------------------------------ memory
    def check_access(self, st, p, n, what):
        if isinstance(p, UndefT) or p.r is None or p.r.name == 'badnull':
            self.oblige(st, z3.BoolVal(False), what + ' through a null or undefined pointer', ('mem',)); return False
        if not st.live.get(p.r.name, False):
            self.oblige(st, z3.BoolVal(False), what + ' to released memory ' + p.r.name, ('mem',)); return False
        if p.r.kind == 'arr':
            if p.r.x.get('role') == 'meta':
                if n == 1: self.oblige(st, z3.ULT(p.i, p.r.n), what + ' inside ' + p.r.name, ('mem',))
                else: self.oblige(st, z3.And(z3.ULE(p.i, p.r.n), z3.ULE(bv(n), p.r.n - p.i)), what + ' of %d bytes inside %s' % (n, p.r.name), ('mem',))
            elif p.r.x.get('role') == 'cell':
                self.oblige(st, z3.And(p.i != 0, z3.Select(st.mem[('cell', 'live')], p.i)), what + ' inside a live element', ('mem',))
            else:
                self.oblige(st, z3.ULT(p.i, p.r.n), what + ' inside ' + p.r.name, ('mem',))
        return True

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ('struct', 'arr'):
            n = len(ty.a[0]) if ty.k == 'struct' else ty.n
            out = []
            for j in range(n):
                o, t = self.mod.field(ty, j)
                out.append(self.load(st, self.norm(Ptr(p.r, p.i, p.o + o)), t))
            return Agg(out)
        sz = self.mod.size(ty)
        if not self.check_access(st, p, sz, 'read'): return self.undef(ty)
        for h in self.hooks:
            r = h.load(self, st, p, ty) if hasattr(h, 'load') else None
            if r is not None: return r
        r = p.r
        if r.kind == 'rec':
            key = (r.name, p.o, sz * 8)
            if key in st.mem:
                v = st.mem[key]
                if ty.k == 'vec' and isinstance(v, Vec): return self.bitcast(v, ty)
                if ty.k == 'vec' and z3.is_bv(v): return self.bitcast(v, ty)
                if ty.k == 'i' and isinstance(v, Vec): return self.bitcast(v, ty)
                if ty.k == 'i' and ty.n == 1 and z3.is_bv(v): return v == 1
                if ty.k == 'i' and z3.is_bool(v) and ty.n > 1: return to_bv(v, ty.n)
                if ty.k == 'i' and isinstance(v, Ptr): return PInt(v)
                if ty.k == 'ptr' and z3.is_bv(v):
                    if z3.is_bv_value(v) and v.as_long() == 0: return NULL
                    raise Unsupported('integer read as pointer')
                return v
            # sub-read of a wider cell
            for (rn, o, w), v in st.mem.items() if False else [(k, x) for k, x in st.mem.items() if k[0] == r.name and len(k) == 3 and isinstance(k[1], int)]:
                if o <= p.o and p.o + sz <= o + w // 8 and ty.k == 'i' and (z3.is_bv(v) or isinstance(v, Vec)):
                    bs = bytes_of(v, w // 8)[p.o - o:p.o - o + sz]
                    return z3.simplify(z3.Concat(*reversed(bs))) if len(bs) > 1 else bs[0]
            # wide read over narrow cells
            bs = []
            for j in range(sz):
                v = st.mem.get((r.name, p.o + j, 8))
                if v is None or not z3.is_bv(v): break
                bs.append(v)
            if len(bs) == sz and sz > 1: return self.bitcast(Vec(bs, 8), ty)
            u = self.undef(ty)
            if isinstance(u, UndefT) and ty.k == 'i': u = fresh('uninit', z3.BitVecSort(ty.n)) if ty.n > 1 else fresh('uninit', z3.BoolSort())
            if r.x.get('strict'): self.oblige(st, z3.BoolVal(False), 'read of uninitialised field at %s+%d' % (r.name, p.o), ('mem',))
            st.mem[key] = u
            return u
        if r.x.get('role') == 'meta':
            a = st.mem[(r.name, 0, 8)]
            if sz == 1:
                st.term(('raw', r.grp), p.i)
                return z3.Select(a, p.i)
            bs = []
            for j in range(sz):
                st.term(('raw', r.grp), p.i + bv(j))
                bs.append(z3.Select(a, z3.simplify(p.i + bv(j)) if j else p.i))
            return self.bitcast(Vec(bs, 8), ty)
        return self.load_field(st, p, ty, sz)

    def load_field(self, st, p, ty, sz):
        r = p.r
        st.term(('slot', r.grp), p.i)
        key = (r.name, p.o, sz * 8)
        if key not in st.mem:
            if any(k[0] == r.name and len(k) == 3 and isinstance(k[1], int) and k[1] < p.o + sz and p.o < k[1] + k[2] // 8 for k in st.mem): raise Unsupported('overlapping access to %s+%d' % (r.name, p.o))
            st.mem[key] = fresh(r.name + '.%d' % p.o, z3.ArraySort(B64, z3.BitVecSort(sz * 8)))
        v = z3.Select(st.mem[key], p.i)
        if ty.k == 'ptr':
            tgt = r.x.get('ptrs', {}).get(p.o)
            if tgt is None: raise Unsupported('pointer field of ' + r.name)
            return Ptr(st.regs[tgt], v, 0)
        if ty.k in ('float', 'double'): return FloatV(v)
        if ty.k == 'i' and ty.n == 1: return v != 0
        return v

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ('struct', 'arr'):
            n = len(ty.a[0]) if ty.k == 'struct' else ty.n
            for j in range(n):
                o, t = self.mod.field(ty, j)
                self.store(st, self.norm(Ptr(p.r, p.i, p.o + o)), v.e[j], t)
            return
        sz = self.mod.size(ty)
        if not self.check_access(st, p, sz, 'write'): return
        for h in self.hooks:
            if hasattr(h, 'store') and h.store(self, st, p, v, ty): return
        r = p.r
        if r.x.get('ro'): self.oblige(st, z3.BoolVal(False), 'write to the read-only argument ' + r.name, ('frame',))
        if r.kind == 'rec':
            for k in [k for k in st.mem if k[0] == r.name and len(k) == 3 and isinstance(k[1], int) and k[1] < p.o + sz and p.o < k[1] + k[2] // 8]: del st.mem[k]
            st.mem[(r.name, p.o, sz * 8)] = v
            return
        if r.x.get('role') == 'meta':
            if sz == 1: self.meta_store(st, r, p.i, to_bv(v, 8))
            else:
                for j, b in enumerate(bytes_of(v, sz)): self.meta_store(st, r, p.i + bv(j) if j else p.i, b)
            return
        st.term(('slot', r.grp), p.i)
        key = (r.name, p.o, sz * 8)
        if key not in st.mem: st.mem[key] = fresh(r.name + '.%d' % p.o, z3.ArraySort(B64, z3.BitVecSort(sz * 8)))
        if ty.k == 'ptr':
            tgt = r.x.get('ptrs', {}).get(p.o)
            if v.r is None: t = bv(0)
            elif tgt and v.r.name == tgt and v.o == 0: t = v.i
            else: raise Unsupported('pointer %s stored in %s' % (v, r.name))
            old = z3.Select(st.mem[key], p.i)
            st.mem[key] = z3.Store(st.mem[key], p.i, t)
            self.cfg.on_ptr_store(self, st, p, old, t)
            return
        if isinstance(v, FloatV): v = fresh('flt', z3.BitVecSort(sz * 8))
        if isinstance(v, (Ptr, PInt, Diff, Scaled)): raise Unsupported('store of %s to %s' % (v, r.name))
        st.mem[key] = z3.Store(st.mem[key], p.i, to_bv(v, sz * 8))

    def meta_store(self, st, r, q, b):
        q = z3.simplify(q)
        st.term(('raw', r.grp), q)
        a = st.mem[(r.name, 0, 8)]
        self.cfg.on_meta_store(self, st, r, q, z3.Select(a, q), b)
        st.mem[(r.name, 0, 8)] = z3.Store(a, q, b)

    def bitcast(self, v, ty):
        if ty.k == 'vec':
            if isinstance(v, Vec):
                if v.w == ty.a.n: return v
                return regroup(flat(v), ty.a.n)
            n = v.size() // 8
            return regroup(bytes_of(v, n), ty.a.n)
        if isinstance(v, Vec):
            if v.w == 1: return z3.simplify(z3.Concat(*[z3.If(b, bv(1, 1), bv(0, 1)) for b in reversed(v.b)]))
            b = flat(v)
            return z3.Concat(*reversed(b)) if len(b) > 1 else b[0]
        return v

    # ------------------------------------------------------------ instructions
    def arith(self, st, op, a, b, ty, flags):
        if ty.k == 'vec':
            el = [self.arith(st, op, x, y, ty.a, flags) for x, y in zip(a.b, b.b)]
            return Vec(el, ty.a.n)
        if op[0] == 'f': return FloatV((op, a, b))
        w = ty.n
        if isinstance(a, UndefT): a = self.fr(ty)
        if isinstance(b, UndefT): b = self.fr(ty)
        if w == 1 and z3.is_bool(a) and z3.is_bool(b):
            if op == 'and': return z3.And(a, b)
            if op == 'or': return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'): return z3.Xor(a, b) if not z3.is_true(b) else z3.Not(a)
        for h in self.hooks:
            r = h.arith(self, st, op, a, b) if hasattr(h, 'arith') else None
            if r is not None: return r
        if isinstance(a, PInt) and isinstance(b, PInt) and op == 'sub':
            x, y = a.p, b.p
            if x.r is None and y.r is None: return bv(0)
            if x.r is y.r:
                if x.r.kind == 'arr':
                    return (x.i - y.i) if x.r.S == 1 else Scaled(z3.simplify(x.i - y.i), x.r.S, x.o - y.o)
                return bv(x.o - y.o)
            return Diff(x, y)
        if isinstance(a, Scaled):
            if op in ('sdiv', 'udiv') and z3.is_bv_value(b) and a.o == 0:
                d = b.as_long()
                if d == a.S: return a.i
            if op == 'ashr' and z3.is_bv_value(b) and a.o == 0 and (1 << b.as_long()) == a.S: return a.i
            if op == 'mul' and a.o == 0: pass
            a = a.i * bv(a.S) + bv(a.o)
        if isinstance(b, Scaled): b = b.i * bv(b.S) + bv(b.o)
        if not (z3.is_bv(a) and z3.is_bv(b)): raise Unsupported('%s of %s, %s' % (op, a, b))
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (z3.is_bv_value(z3.simplify(b)) and z3.simplify(b).as_long() != 0): self.oblige(st, b != 0, 'division by zero', ('mem',))
            if op == 'udiv':
                c = z3.simplify(b)
                if z3.is_bv_value(c) and c.as_long() and c.as_long() & (c.as_long() - 1) == 0: return z3.LShR(a, bv(c.as_long().bit_length() - 1, w))
                return self.cfg.udiv(self, st, a, b)
            if op == 'urem': return self.cfg.urem(self, st, a, b)
            return a / b if op == 'sdiv' else z3.SRem(a, b)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        raise Unsupported(op)

    def fr(self, ty): return fresh('undef', z3.BoolSort() if ty.n == 1 else z3.BitVecSort(ty.n))

    def icmp(self, st, c, a, b, ty):
        if ty.k == 'vec': return Vec([self.icmp(st, c, x, y, ty.a) for x, y in zip(a.b, b.b)], 1)
        if ty.k == 'ptr' or isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if z3.is_bv(b) and z3.is_bv_value(b) and b.as_long() == 0: b = NULL
            if z3.is_bv(a) and z3.is_bv_value(a) and a.as_long() == 0: a = NULL
            if isinstance(a, (Ptr, UndefT)) and isinstance(b, (Ptr, UndefT)):
                if c == 'eq': return self.ptr_eq(st, a, b)
                if c == 'ne': return z3.Not(self.ptr_eq(st, a, b))
                if a.r is b.r and a.r is not None and a.r.kind == 'arr' and a.o == b.o:
                    f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[c]
                    return f(a.i, b.i)
            raise Unsupported('pointer comparison')
        for h in self.hooks:
            r = h.icmp(self, st, c, a, b) if hasattr(h, 'icmp') else None
            if r is not None: return r
        if isinstance(a, UndefT): a = self.fr(ty)
        if isinstance(b, UndefT): b = self.fr(ty)
        if isinstance(a, Scaled): a = a.i * bv(a.S) + bv(a.o) if c not in ('eq', 'ne') else a
        if isinstance(a, Scaled):
            if z3.is_bv_value(b) and b.as_long() == 0 and a.o == 0: r = a.i == 0; return r if c == 'eq' else z3.Not(r)
            a = a.i * bv(a.S) + bv(a.o)
        if isinstance(b, Scaled): b = b.i * bv(b.S) + bv(b.o)
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = to_bool(a), to_bool(b)
            if c == 'eq': return a == b
            if c == 'ne': return a != b
            a, b = to_bv(a, 1), to_bv(b, 1)
        if not (z3.is_bv(a) and z3.is_bv(b)): raise Unsupported('comparison of %s, %s' % (a, b))
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[c]()

    def cast(self, st, op, v, ft, tt):
        if tt.k == 'vec' and op != 'bitcast':
            return Vec([self.cast(st, op, x, ft.a, tt.a) for x in v.b], tt.a.n)
        if op == 'ptrtoint': return PInt(v) if not isinstance(v, UndefT) else UNDEF
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            raise Unsupported('inttoptr')
        if op == 'bitcast': return self.bitcast(v, tt)
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'): return FloatV((op, v))
        if op in ('fptoui', 'fptosi'): return self.cfg.fp_to_int(self, st, v, tt)
        if isinstance(v, UndefT): return self.fr(tt)
        if op == 'trunc':
            if isinstance(v, Scaled): v = v.i * bv(v.S) + bv(v.o)
            r = z3.Extract(tt.n - 1, 0, v)
            return r == 1 if tt.n == 1 else r
        if z3.is_bool(v):
            if op == 'zext': return z3.If(v, bv(1, tt.n), bv(0, tt.n))
            return z3.If(v, bv(-1, tt.n), bv(0, tt.n))
        if isinstance(v, Scaled): v = v.i * bv(v.S) + bv(v.o)
        if op == 'zext': return z3.ZeroExt(tt.n - v.size(), v)
        if op == 'sext': return z3.SignExt(tt.n - v.size(), v)
        raise Unsupported(op)

    def ite(self, c, a, b):
        """None if the two values cannot be merged"""
        if a is b: return a
        if isinstance(a, UndefT): return b
        if isinstance(b, UndefT): return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r and a.o == b.o:
                if a.r is None or a.r.kind == 'rec': return a
                return Ptr(a.r, z3.If(c, a.i, b.i), a.o)
            if a.r is not None and a.r.x.get('role') == 'cell' and b.r is None: return Ptr(a.r, z3.If(c, a.i, bv(0)), 0)
            if b.r is not None and b.r.x.get('role') == 'cell' and a.r is None: return Ptr(b.r, z3.If(c, bv(0), b.i), 0)
            return None
        if z3.is_bool(a) and z3.is_bool(b): return z3.If(c, a, b)
        if z3.is_bv(a) and z3.is_bv(b): return z3.If(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            e = [self.ite(c, x, y) for x, y in zip(a.e, b.e)]
            return None if any(x is None for x in e) else Agg(e)
        if isinstance(a, Vec) and isinstance(b, Vec) and a.w == b.w: return Vec([z3.If(c, x, y) for x, y in zip(a.b, b.b)], a.w)
        return None

    def decided(self, st, c):
        """True / False / None for a branch condition"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        nc = z3.simplify(z3.Not(c))
        for f in st.pc:
            if f.eq(c): return True
            if f.eq(nc): return False
        if self.dry: return None
        s = self.quick_solver(st)
        s.push(); s.add(c)
        if s.check() == z3.unsat:
            s.pop(); return False
        s.pop(); s.push(); s.add(nc)
        r = s.check(); s.pop()
        return True if r == z3.unsat else None

    def quick_solver(self, st):
        s = z3.Solver(); s.set('timeout', 150)
        s.add(*st.pc)
        return s

    # ------------------------------------------------------------ driver
    def run(self, f, st, args, loops=None):
        """executes f from its entry; -> list of (state, return value)"""
        env = {}
        for (n, t), a in zip(f.args, args): env[n] = a
        out = []
        loops_all = f.analyse()
        specs = loops if loops is not None else (self.loopspecs.get((f.scope, f.base)) or (lambda c, g: {}))(self, f)
        self.exec_from(f, st, env, f.entry, None, specs, out, None)
        return out

    def exec_from(self, f, st, env, block, prev, specs, out, stop):
        """stop: None or (header, set(blocks), on_back(st, env, prev)) when executing a loop body"""
        work = [(st, env, block, prev)]
        while work:
            st, env, b, prev = work.pop()
            while True:
                cb = st.g.get('@in', {}).get((f.name, b))
                if cb is not None and not isinstance(prev, tuple):
                    cb(st, env, prev); break
                pr = st.g.get('@probe')
                if pr is not None and pr[0] == f.name and b not in pr[1]: break
                hs = f.analyse()
                if b in hs and self.unroll is not None:
                    n = st.g.get(('@n', f.name, b), 0)
                    if n > self.unroll:
                        self.oblige(st, False, 'the loop ends after %d iterations' % self.unroll, ('C12',)); break
                    st.g[('@n', f.name, b)] = n + 1
                elif b in hs and self.concrete_loop(f, st, env, b, prev):
                    n = st.g.get(('@n', f.name, b), 0) if prev in hs[b] else 0
                    if n > 8: raise Unsupported('loop over a local array in ' + f.base)
                    st.g[('@n', f.name, b)] = n + 1
                elif b in hs and not (st.g.get('@in', {}).get((f.name, b))):
                    nxt = self.enter_loop(f, st, env, b, prev, specs, out, stop)
                    break
                res = self.exec_block(f, st, env, b, prev, specs)
                if res is None: break
                kind = res[0]
                if kind == 'ret':
                    out.append((res[1], res[2])); break
                if kind == 'goto':
                    st, env, prev, b = res[1], res[2], b, res[3]
                    self.leave(f, st, b)
                    continue
                if kind == 'fork':
                    self.paths += len(res[1]) - 1
                    if self.paths > self.maxpaths: raise Unsupported('too many paths in ' + f.base)
                    for (s2, e2, nb) in res[1]:
                        self.leave(f, s2, nb)
                        work.append((s2, e2, nb, b))
                    break
                if kind == 'multi':   # continue inside the block from several states
                    self.paths += len(res[1]) - 1
                    if self.paths > self.maxpaths: raise Unsupported('too many paths in ' + f.base)
                    for r in res[1]: work.append(r)
                    break

    def concrete_loop(self, f, st, env, b, prev):
        """loop over an array in a local variable: executed iteration by iteration, the trip count is concrete"""
        if isinstance(prev, tuple) or (f.name, b) in st.g.get('@in', {}): return False
        hit = False
        for o in f.blocks[b]:
            if o.op != 'phi': break
            for v, l in o.x:
                if l != prev: continue
                x = self.val(st, env, v, o.ty)
                if isinstance(x, Ptr) and x.r is not None and x.r.kind == 'rec': hit = True
                elif isinstance(x, Ptr) or isinstance(x, UndefT): pass
                elif z3.is_expr(x) and z3.is_bv_value(z3.simplify(x)): pass
                elif prev not in f.loops[b]: return False
        return hit

    def leave(self, f, st, nb):
        """drops the in-loop marks of loops that do not contain nb"""
        ins = st.g.get('@in')
        if ins:
            hs = f.loops
            new = {k: v for k, v in ins.items() if k[0] != f.name or nb in hs[k[1]]}
            if len(new) != len(ins): st.g['@in'] = new

    def exec_block(self, f, st, env, b, prev, specs):
        ops = f.blocks[b]
        start = 0
        if isinstance(prev, tuple) and prev and prev[0] == '@mid':
            start = prev[1]
        else:
            new = {}
            for o in ops:
                if o.op != 'phi': break
                if o.d in env.get('@phi', {}).get(b, {}) : new[o.d] = env['@phi'][b][o.d]; continue
                for v, l in o.x:
                    if l == prev:
                        new[o.d] = self.val(st, env, v, o.ty); break
                else: raise Unsupported('phi without predecessor')
            if new:
                env.update(new)
        for n in range(start, len(ops)):
            o = ops[n]
            if o.op == 'phi': continue
            r = self.step(f, st, env, o)
            if r is None: continue
            k = r[0]
            if k == 'states':   # contract call with several outcomes, or none
                outs = []
                for (s2, v) in r[1]:
                    e2 = dict(env)
                    if o.d: e2[o.d] = v
                    outs.append((s2, e2))
                if o.op == 'invoke':
                    return ('fork', [(s2, e2, o.x['to'][0]) for s2, e2 in outs])
                if len(outs) == 1:
                    if outs[0][0] is st: env.update(outs[0][1]); continue
                return ('multi', [(s2, e2, b, ('@mid', n + 1, prev)) for s2, e2 in outs])
            if k == 'goto': return ('goto', st, env, r[1])
            if k == 'br':
                outs = []
                for c, nb in r[1]:
                    s2 = st.copy(); s2.add(c)
                    outs.append((s2, dict(env), nb))
                return ('fork', outs)
            if k == 'ret': return ('ret', st, r[1])
            if k == 'dead': return None
            if k == 'split':
                outs = []
                for c, v in r[1]:
                    s2 = st.copy(); s2.add(c)
                    e2 = dict(env); e2[o.d] = v
                    outs.append((s2, e2, b, ('@mid', n + 1, prev)))
                return ('multi', outs)
        raise Unsupported('block without terminator')

    def step(self, f, st, env, o):
        op = o.op
        v = lambda i, t=None: self.val(st, env, o.a[i], t or o.ty)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv'):
            env[o.d] = self.arith(st, op, v(0), v(1), o.ty, o.x)
        elif op == 'icmp': env[o.d] = self.icmp(st, o.x, v(0), v(1), o.ty)
        elif op == 'fcmp': env[o.d] = self.cfg.fcmp(self, st, o.x, v(0), v(1))
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            env[o.d] = self.cast(st, op, v(0, o.x), o.x, o.ty)
        elif op == 'alloca':
            n = 'loc%d.%s' % (next(_cnt), o.d[1:12])
            r = Region(n, 'rec', x_size(self.mod, o.ty)); st.regs[n] = r; st.live[n] = True
            env[o.d] = Ptr(r, None, 0)
        elif op == 'load': env[o.d] = self.load(st, v(0, PTR), o.ty)
        elif op == 'store': self.store(st, v(1, PTR), v(0), o.ty)
        elif op == 'getelementptr':
            env[o.d] = self.gep(st, v(0, PTR), o.ty, [(t, self.val(st, env, x, t)) for t, x in o.x])
        elif op == 'select':
            c = to_bool(self.val(st, env, o.a[0], o.x)) if o.x.k != 'vec' else self.val(st, env, o.a[0], o.x)
            a, b = v(1), v(2)
            if isinstance(c, Vec):
                env[o.d] = Vec([z3.If(x, y, z) for x, y, z in zip(c.b, a.b, b.b)], a.w); return
            cs = z3.simplify(c)
            if z3.is_true(cs): env[o.d] = a; return
            if z3.is_false(cs): env[o.d] = b; return
            m = self.ite(c, a, b)
            if m is not None: env[o.d] = m; return
            return ('split', [(c, a), (z3.Not(c), b)])
        elif op == 'freeze': env[o.d] = v(0)
        elif op == 'extractvalue':
            x = v(0)
            for i in o.x: x = x.e[i]
            env[o.d] = x
        elif op == 'insertvalue':
            def ins(x, ix, e):
                if not ix: return e
                y = Agg(list(x.e)); y.e[ix[0]] = ins(x.e[ix[0]], ix[1:], e)
                return y
            et = o.ty
            for i in o.x: et = self.mod.field(et, i)[1]
            env[o.d] = ins(v(0), o.x, self.val(st, env, o.a[1], et))
        elif op == 'insertelement':
            x = v(0); i = z3.simplify(self.val(st, env, o.a[2], Ty('i', None, 32))).as_long()
            y = list(x.b); y[i] = self.val(st, env, o.a[1], o.ty.a); env[o.d] = Vec(y, x.w)
        elif op == 'extractelement':
            x = v(0); i = z3.simplify(self.val(st, env, o.a[1], Ty('i', None, 32))).as_long(); env[o.d] = x.b[i]
        elif op == 'shufflevector':
            x, y = v(0), v(1); mk = o.a[2]
            al = x.b + y.b
            n = o.x.n
            idx = [0] * n if mk[0] == 'c' else [0 if e[1] in ('undef', 'poison') else int(e[1]) for e in mk[1]]
            env[o.d] = Vec([al[i] for i in idx], x.w)
        elif op == 'br':
            if not o.a: return ('goto', o.x[0])
            c = to_bool(self.val(st, env, o.a[0], Ty('i', None, 1)))
            d = self.decided(st, c)
            if d is not None: return ('goto', o.x[0] if d else o.x[1])
            return ('br', [(c, o.x[0]), (z3.Not(c), o.x[1])])
        elif op == 'switch':
            x = v(0); outs, rest = [], []
            for cv, l in o.x[1]:
                c = x == bv(int(cv[1]), o.ty.n)
                d = self.decided(st, c)
                if d: return ('goto', l)
                if d is None: outs.append((c, l)); rest.append(z3.Not(c))
            outs.append((z3.And(*rest) if rest else z3.BoolVal(True), o.x[0]))
            if len(outs) == 1: return ('goto', outs[0][1])
            return ('br', outs)
        elif op == 'ret': return ('ret', v(0) if o.a else None)
        elif op == 'unreachable':
            self.oblige(st, z3.BoolVal(False), 'unreachable point is not reached', ('assert',)); return ('dead',)
        elif op in ('call', 'invoke'): return self.call(f, st, env, o)
        elif op == 'landingpad': return ('dead',)
        else: raise Unsupported(op)

    def call(self, f, st, env, o):
        n = o.x['f']
        args = [self.val(st, env, a, t) if a is not None else None for t, a in o.a]
        cont = (lambda: ('goto', o.x['to'][0])) if o.op == 'invoke' else (lambda: None)

        def ret(v=None):
            if o.d: env[o.d] = v
            return cont()
        if n.startswith('llvm.'):
            if re.match(r'llvm\.(lifetime|dbg|experimental\.noalias|donothing|prefetch)', n): return ret()
            if n.startswith('llvm.assume'):
                return ret()
            if n.startswith('llvm.expect'): return ret(args[0])
            if n.startswith('llvm.launder') or n.startswith('llvm.strip'): return ret(args[0])
            if n.startswith('llvm.cttz'): return ret(self.cttz(st, args[0], f))
            if n.startswith('llvm.ctlz'): return ret(self.ctlz(st, args[0], f))
            if n.startswith('llvm.umax') : return ret(z3.If(z3.UGT(args[0], args[1]), args[0], args[1]))
            if n.startswith('llvm.umin') : return ret(z3.If(z3.ULT(args[0], args[1]), args[0], args[1]))
            if n.startswith('llvm.memset'):
                self.memset(st, args[0], args[1], args[2]); return ret()
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                self.memcpy(st, args[0], args[1], args[2], n.startswith('llvm.memmove')); return ret()
            if n.startswith('llvm.x86.sse2.pmovmskb'):
                bs = flat(args[0])
                return ret(z3.ZeroExt(16, z3.Concat(*[z3.Extract(7, 7, b) for b in reversed(bs)])))
            if n.startswith('llvm.x86.ssse3.psign.b'):
                a, b = flat(args[0]), flat(args[1])
                return ret(Vec([z3.If(y == 0, bv(0, 8), z3.If(y < 0, -x, x)) for x, y in zip(a, b)], 8))
            if n.startswith('llvm.debugtrap') or n.startswith('llvm.trap'): return ret()
            raise Unsupported('intrinsic ' + n)
        g = self.mod.funcs.get(n)
        if 'assert_msg' in n:
            self.oblige(st, z3.BoolVal(False), 'debug assertion in %s' % f.base, ('assert',))
            return ('dead',)
        if 'clang_call_terminate' in n or n in ('_ZSt9terminatev', 'abort'):
            self.oblige(st, z3.BoolVal(False), 'terminate is not called', ('assert',)); return ('dead',)
        h = self.contracts.get((g.scope, g.base) if g else ('', n))
        if h is None and g is not None: h = self.contracts.get(('', g.base))
        if h is None:
            if g is not None and self.cfg.inline_ok(g):   # no contract: execute the body
                outs = self.run(g, st, args)
                return ('states', outs)
            raise Unsupported('call to ' + (g.dem if g else n)[:150])
        if g is not None: self.used_contracts.add((g.scope, g.base))
        outs = h(self, st, g, args)
        if outs is None: return ('dead',) if False else ('states', [])
        return ('states', outs)

    def cttz(self, st, x, f):
        w = x.size()
        r = bv(w, w)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD and x.num_args() == 2:      # ctz(m + 1) counts the trailing ones of m
            for m, one in (x.children(), x.children()[::-1]):
                if z3.is_bv_value(one) and one.as_long() == 1:
                    for j in reversed(range(w)): r = z3.If(z3.Extract(j, j, m) == 0, bv(j, w), r)
                    return r
        lanes = self.cfg.mask_lanes(w)
        for j in reversed(lanes): r = z3.If(z3.Extract(j, j, x) == 1, bv(j, w), r)
        if len(lanes) != w:
            # only some bit positions can be set; anything else must be excluded
            m = sum(1 << j for j in lanes)
            self.oblige(st, x & bv(~m & ((1 << w) - 1), w) == 0, 'bit scan of a group mask', ('mem',))
        return r

    def ctlz(self, st, x, f):
        w = x.size(); r = bv(w, w)
        for j in range(w): r = z3.If(z3.Extract(j, j, x) == 1, bv(w - 1 - j, w), r)
        return r

    def memset(self, st, p, b, n):
        if p.r is None:
            self.oblige(st, n == 0, 'memset of a null pointer', ('mem',)); return
        ns = z3.simplify(n)
        if p.r.kind == 'rec' and z3.is_bv_value(ns):
            k = ns.as_long()
            for key in [q for q in st.mem if q[0] == p.r.name and isinstance(q[1], int) and q[1] < p.o + k and p.o < q[1] + q[2] // 8]: del st.mem[key]
            o = p.o
            while k >= 8 and o % 8 == 0:
                st.mem[(p.r.name, o, 64)] = z3.simplify(z3.Concat(*[b] * 8)); o += 8; k -= 8
            while k >= 4 and o % 4 == 0:
                st.mem[(p.r.name, o, 32)] = z3.simplify(z3.Concat(*[b] * 4)); o += 4; k -= 4
            while k: st.mem[(p.r.name, o, 8)] = b; o += 1; k -= 1
            return
        self.cfg.fill(self, st, p, b, n)

    def memcpy(self, st, d, s, n, move=False):
        ns = z3.simplify(n)
        if not z3.is_bv_value(ns): raise Unsupported('memcpy of variable length')
        k = ns.as_long()
        if d.r.x.get('role') == 'meta' or s.r.x.get('role') == 'meta':
            self.check_access(st, s, k, 'read'); self.check_access(st, d, k, 'write')
            if s.r.x.get('role') == 'meta':
                a = st.mem[(s.r.name, 0, 8)]
                for j in range(k): st.term(('raw', s.r.grp), s.i + bv(j))
                bs = [z3.Select(a, z3.simplify(s.i + bv(j))) for j in range(k)]
            else:
                bs = []
                for key, v in sorted([(q, x) for q, x in st.mem.items() if q[0] == s.r.name and isinstance(q[1], int)], key=lambda z: z[0][1]):
                    if key[1] == s.o + len(bs): bs += bytes_of(v, key[2] // 8)
                if len(bs) < k: raise Unsupported('memcpy of unknown bytes')
                bs = bs[:k]
            if d.r.x.get('role') == 'meta':
                for j, b in enumerate(bs): self.meta_store(st, d.r, d.i + bv(j) if j else d.i, b)
            else: self.store(st, d, Vec(bs, 8), Ty('vec', Ty('i', None, 8), k))
            return
        if d.r.kind == 'rec' and s.r.kind == 'rec':
            src = [(q, x) for q, x in st.mem.items() if q[0] == s.r.name and isinstance(q[1], int) and s.o <= q[1] and q[1] + q[2] // 8 <= s.o + k]
            for key in [q for q in st.mem if q[0] == d.r.name and isinstance(q[1], int) and d.o <= q[1] < d.o + k]: del st.mem[key]
            if d.r.x.get('ro'): self.oblige(st, z3.BoolVal(False), 'write to the read-only argument ' + d.r.name, ('frame',))
            for q, x in src: st.mem[(d.r.name, q[1] - s.o + d.o, q[2])] = x
            return
        # element-wise between nodes / buckets: copy every known field
        if self.cfg.copy_fields(self, st, d, s, k): return
        raise Unsupported('memcpy %s <- %s' % (d, s))

    # ------------------------------------------------------------ loops
    def modified(self, f, st, env, h, prev, specs, spec, entry):
        """dry run of the loop body: which memory cells and ghosts may change"""
        acc, kinds = set(), {}
        base = dict(st.mem)

        def probe(s0, e0, pv):
            ends, o2 = [], []
            self.dry += 1
            keep = self.paths
            try:
                probe_ph = self.enter_phis(f, s0.copy(), dict(e0), h, pv, True)[1]
                for over in spec.variants(self, f, s0, probe_ph, entry):
                    s1 = s0.copy(); s1.g['@in'] = dict(s1.g.get('@in', {})); s1.g['@in'][(f.name, h)] = lambda s, e, p: ends.append(s)
                    s1.g['@probe'] = (f.name, f.loops[h])
                    for key in acc:
                        if key in s1.mem and key[0] != '@': s1.mem[key] = self.havoc_like(s1.mem[key])
                    e1 = dict(e0); _, ph1 = self.enter_phis(f, s1, e1, h, pv, True)
                    e1.update(over); ph1.update(over)
                    s1.g['@hdr'] = dict(s1.g.get('@hdr', {})); s1.g['@hdr'][h] = (s1, ph1)
                    self.exec_from(f, s1, e1, h, ('@mid', self.nphi(f, h), pv), specs, o2, None)
            finally:
                self.dry -= 1; self.paths = keep
            return ends, o2
        for _ in range(4):
            ends, exits = probe(st, env, prev)
            n0 = len(acc)
            for s in ends:
                for k, v in s.mem.items():
                    o = base.get(k)
                    if o is None:
                        if s.regs.get(k[0]) is not None and k[0] in st.regs and not k[0].startswith('loc'): acc.add(k)
                        elif k[0] in st.regs: acc.add(k)
                        continue
                    if not self.same(o, v): acc.add(k)
            if len(acc) == n0: break
            for k in acc:
                if k not in st.mem:
                    # lazily created field: materialise it before the loop
                    pass
        return acc

    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r is b.r and a.o == b.o and (a.i is b.i or (a.i is not None and b.i is not None and a.i.eq(b.i)))
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        return False

    def havoc_like(self, v, name='h'):
        if z3.is_expr(v): return fresh(name, v.sort())
        if isinstance(v, Ptr):
            if v.r is None or v.r.kind == 'rec': return v
            return Ptr(v.r, fresh(name, B64), v.o)
        if isinstance(v, Vec): return Vec([fresh(name, x.sort()) for x in v.b], v.w)
        if isinstance(v, (UndefT, FloatV)): return v
        if isinstance(v, Agg): return Agg([self.havoc_like(x) for x in v.e])
        raise Unsupported('havoc of ' + str(v))

    def nphi(self, f, b):
        n = 0
        for o in f.blocks[b]:
            if o.op != 'phi': break
            n += 1
        return n

    def enter_phis(self, f, st, env, h, prev, havoc):
        entry, new = {}, {}
        pv = prev[2] if isinstance(prev, tuple) else prev
        for o in f.blocks[h]:
            if o.op != 'phi': break
            for v, l in o.x:
                if l == pv: entry[o.d] = self.val(st, env, v, o.ty); break
        for d, v in entry.items():
            new[d] = self.havoc_like(v, 'phi' + d[1:8]) if havoc else v
        env.update(new)
        return entry, new

    def enter_loop(self, f, st, env, h, prev, specs, out, stop):
        spec = specs.get(h)
        if spec is None:
            spec = self.cfg.auto_loop(self, f, h)
            if spec is None: raise Unsupported('loop without invariant in %s (block %s)' % (f.base, h))
        if hasattr(spec, 'summarise'):
            res = spec.summarise(self, f, st, env, h, prev)
            for (s2, e2, nb, pb) in res:
                self.leave(f, s2, nb)
                self.exec_from(f, s2, e2, nb, pb, specs, out, stop)
            return
        env0 = dict(env)
        e1 = dict(env)
        entry, _ = self.enter_phis(f, st, e1, h, prev, False)
        st0 = st.copy()
        spec.env = env0
        spec.start(self, f, st0, entry, h)
        mod = self.modified(f, st0, env, h, prev, specs, spec, entry)
        g0 = st0.copy()
        for (nm, q, tg) in spec.inv(self, f, g0, entry, entry, st0):
            self.oblige(g0, q, '%s: %s holds on entry' % (spec.name, nm), tg)
        s1 = st0.copy()
        for k in mod:
            if k in s1.mem: s1.mem[k] = self.havoc_like(s1.mem[k], '%s.%s' % (k[0], k[1]))
        spec.havoc(self, s1)
        e1 = dict(env0)
        _, phis0 = self.enter_phis(f, s1, e1, h, prev, True)
        for over in spec.variants(self, f, s1, phis0, entry):
            sv, ev = s1.copy(), dict(e1)
            ev.update(over)
            self.loop_body(f, sv, ev, h, prev, specs, out, spec, {**phis0, **over}, entry, st0)

    def loop_body(self, f, s1, e1, h, prev, specs, out, spec, phis, entry, st0):
        s1.g['@in'] = dict(s1.g.get('@in', {})); s1.g['@in'][(f.name, h)] = lambda s, e, p: on_back(s, e, p)
        for (nm, q, tg) in spec.inv(self, f, s1, phis, entry, st0): s1.add(q)
        m0 = spec.measure(self, s1, phis, entry)
        s1.g['@hdr'] = dict(s1.g.get('@hdr', {})); s1.g['@hdr'][h] = (s1.copy(), phis)

        def on_back(s, e, pb):
            ph = {}
            for o in f.blocks[h]:
                if o.op != 'phi': break
                for v, l in o.x:
                    if l == (pb[2] if isinstance(pb, tuple) else pb): ph[o.d] = self.val(s, e, v, o.ty)
            g = s.copy()
            for k, v in s.mem.items():      # objects that were created inside the iteration are gone at its end
                if len(k) == 3 and k[1] == 'al' and k[0] in st0.regs and k not in s1.mem and z3.is_bool(v): self.oblige(g, z3.Not(v), 'temporaries of %s are destroyed' % spec.name, ('C07',))
            spec.step(self, f, g, phis, ph, entry)
            for (nm, q, tg) in spec.inv(self, f, g, ph, entry, st0):
                self.oblige(g, q, '%s: %s is preserved' % (spec.name, nm), tg)
            pr = spec.progress(self, g, phis, ph, entry)
            if pr is not None: self.oblige(g, pr, '%s: the loop makes progress' % spec.name, ('term',))
            m1 = spec.measure(self, g, ph, entry)
            if m0 is not None:
                self.oblige(g, lex_less(m1, m0), '%s: the loop makes progress' % spec.name, ('term',))
        self.exec_from(f, s1, e1, h, ('@mid', self.nphi(f, h), prev), specs, out, None)

    # ------------------------------------------------------------ objects
    def okey(self, p):
        return p


def x_size(mod, ty):
    try: return mod.size(ty)
    except IRError: return 0


def lex_less(a, b):
    """lexicographic unsigned decrease of tuples of bit-vectors"""
    if not isinstance(a, tuple): a, b = (a,), (b,)
    c = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))): c = z3.Or(z3.ULT(x, y), z3.And(x == y, c))
    return c


class LoopSpec:
    name = 'loop'
    def start(self, ctx, f, st, entry, h): pass
    def havoc(self, ctx, st): pass
    def inv(self, ctx, f, st, phis, entry, st0): return []
    def step(self, ctx, f, st, old, new, entry): pass
    def measure(self, ctx, st, phis, entry): return None
    def progress(self, ctx, st, old, new, entry): return None     # strict order on a finite set instead of a measure
    def variants(self, ctx, f, st, phis, entry): return [{}]
