"""Sound translation of a bit-vector obligation into integer arithmetic.

Every 64-bit term becomes an integer in [0, 2^64); addition and subtraction wrap explicitly, so nothing is treated as mathematical
arithmetic.  Operations without a linear meaning become uninterpreted functions with valid lemma instances (MASK below is proved
for 64-bit vectors by selfcheck()).  If the integer formula is unsatisfiable, so is the bit-vector formula."""
import z3

M64 = 1 << 64
I = z3.IntSort()


class Tr:
    def __init__(self):
        self.memo, self.side, self.ranged, self.fn, self.ands, self.ub0, self.ubm = {}, [], set(), {}, [], {}, {}
        self.uf_par, self.bits = {}, set()
        self.keep = []

    # ---- sorts
    def sort(self, s):
        if s.kind() == z3.Z3_BV_SORT and s.size() == 64: return I
        if s.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        return s

    def isint(self, e): return z3.is_bv(e) and e.size() == 64 and self.find(e.get_id()) not in self.bits

    # ---- which 64-bit terms are bit masks (kept as bit-vectors) and which are numbers
    def find(self, i):
        u = self.uf_par
        r = i
        while u.get(r, r) != r: r = u[r]
        while u.get(i, i) != r: u[i], i = r, u[i]
        return r

    def infer(self, fs):
        is64 = lambda e: z3.is_bv(e) and e.size() == 64
        seen, st, order = set(), list(fs), []
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); order.append(x); st.extend(x.children())
        self.keep += order
        bit, num = set(), set()
        u = self.uf_par
        UN = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT, z3.Z3_OP_BMUL, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT,
              z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL}
        for x in order:
            if not z3.is_app(x): continue
            k, ch = x.decl().kind(), x.children()
            l = [c for c in ch if is64(c) and not z3.is_bv_value(c)] + ([x] if is64(x) else [])
            if k in UN:
                for a, b in zip(l, l[1:]):
                    ra, rb = self.find(a.get_id()), self.find(b.get_id())
                    if ra != rb: u[ra] = rb
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
                if ch:
                    for c in l: num.add(c.get_id())
            elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
                for c in l: bit.add(c.get_id())
            elif k == z3.Z3_OP_EXTRACT and is64(ch[0]):
                hi, lo = x.params()
                if hi == lo: bit.add(ch[0].get_id())
            elif k in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT) and is64(x):
                y = ch[-1]
                if not const_tree(y): bit.add(x.get_id())
        numr = {self.find(i) for i in num}
        self.bits = {self.find(i) for i in bit} - numr

    def rng(self, t):
        if t.get_id() not in self.ranged:
            self.ranged.add(t.get_id()); self.keep.append(t)
            self.side.append(z3.And(t >= 0, t < M64))
        return t

    def uf(self, name, args, ret):
        k = (name,) + tuple(str(a.sort()) for a in args)
        if k not in self.fn: self.fn[k] = z3.Function('%s#%d' % (name, len(self.fn)), *[a.sort() for a in args], ret)
        return self.fn[k](*args)

    def wrap(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t): return z3.IntVal(t.as_long() % M64)
        return t

    # ---- terms
    def tr(self, e):
        st = [e]
        memo = self.memo
        while st:
            x = st[-1]
            if x.get_id() in memo: st.pop(); continue
            todo = [c for c in x.children() if c.get_id() not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            r = self.node(x, self.coerce(x, [memo[c.get_id()] for c in x.children()]))
            memo[x.get_id()] = r
            if x.get_id() in self.ub0 and z3.is_int(r): self.ubm[r.get_id()] = min(self.top(r), self.ub0[x.get_id()])
            self.keep.append(x)
        return memo[e.get_id()]

    def coerce(self, x, c):
        """64-bit literals take the kind of the other operands"""
        ch = x.children()
        if not any(z3.is_bv_value(y) and y.size() == 64 for y in ch): return c
        others = [y for y in ch if z3.is_bv(y) and y.size() == 64 and not z3.is_bv_value(y)]
        asbits = any(not self.isint(y) for y in others) or (not others and z3.is_bv(x) and x.size() == 64 and not self.isint(x))
        if x.decl().kind() == z3.Z3_OP_EXTRACT: asbits = True
        if not asbits: return c
        return [y if z3.is_bv_value(y) and y.size() == 64 else z for y, z in zip(ch, c)]

    def tr2(self, y):
        r = self.memo.get(y.get_id())
        return r if r is not None else Tr.tr(self, y)

    # ---- upper bounds that follow from facts asserted at top level
    def bound(self, fs):
        ub = {}

        def conj(f):
            if z3.is_and(f):
                for c in f.children(): yield from conj(c)
            else: yield f
        eqs = [c for f in fs for c in conj(f)]

        def val(t): return ub.get(t.get_id())

        def top(t):
            if z3.is_bv_value(t): return t.as_long()
            if not z3.is_app(t): return None
            k = t.decl().kind()
            b = val(t)
            if b is not None: return b
            if k == z3.Z3_OP_BADD:
                l = [top(c) for c in t.children()]
                if None not in l and sum(l) < M64: return sum(l)
            if k == z3.Z3_OP_BAND:
                l = [x for x in (top(c) for c in t.children()) if x is not None]
                if l: return min(l)
            if k == z3.Z3_OP_BLSHR: return top(t.arg(0))
            return None

        def put(t, v):
            if v is None: return False
            o = val(t)
            if o is None or v < o: ub[t.get_id()] = v; self.keep.append(t); return True
            return False
        for _ in range(4):
            ch = False
            for c in eqs:
                if not z3.is_app(c): continue
                k = c.decl().kind()
                if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT) and self.isint(c.arg(0)):
                    a, b = c.arg(0), c.arg(1)
                    ch |= put(a, top(b)) 
                elif k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and self.isint(c.arg(0)): ch |= put(c.arg(1), top(c.arg(0)))
                elif k == z3.Z3_OP_EQ and self.isint(c.arg(0)):
                    ch |= put(c.arg(0), top(c.arg(1))); ch |= put(c.arg(1), top(c.arg(0)))
            if not ch: break
        self.ub0 = ub

    def top(self, t):
        """an upper bound of an integer term (all terms are non-negative)"""
        i = t.get_id()
        if i in self.ubm: return self.ubm[i]
        if z3.is_int_value(t): r = t.as_long()
        else:
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD: r = sum(self.top(c) for c in t.children())
            elif k == z3.Z3_OP_MUL and z3.is_int_value(t.arg(0)): r = t.arg(0).as_long() * self.top(t.arg(1))
            elif k == z3.Z3_OP_MUL and z3.is_int_value(t.arg(1)): r = t.arg(1).as_long() * self.top(t.arg(0))
            elif k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)): r = min(self.top(t.arg(0)), t.arg(1).as_long() - 1)
            elif k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)): r = self.top(t.arg(0)) // t.arg(1).as_long()
            elif k == z3.Z3_OP_ITE: r = max(self.top(t.arg(1)), self.top(t.arg(2)))
            else: r = M64 - 1
        self.ubm[i] = r; self.keep.append(t)
        return r

    def add(self, a, b):
        if self.top(a) + self.top(b) < M64:
            if z3.is_int_value(a) and a.as_long() == 0: return b
            if z3.is_int_value(b) and b.as_long() == 0: return a
            return a + b
        s = self.wrap(a + b)
        if z3.is_int_value(s): return s
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(y):
                v = y.as_long()
                if v == 0: return x
                if v >= M64 // 2: return z3.If(x >= M64 - v, x - (M64 - v), x + v)
        return z3.If(a + b >= M64, a + b - M64, a + b)

    def sub(self, a, b):
        if z3.is_int_value(b) and z3.is_int_value(a): return z3.IntVal((a.as_long() - b.as_long()) % M64)
        if z3.is_int_value(b) and b.as_long() == 0: return a
        return z3.If(a >= b, a - b, a - b + M64)

    def bvand(self, a, b):
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(y):
                v = y.as_long()
                if v == 0: return z3.IntVal(0)
                if z3.is_int_value(x): return z3.IntVal(x.as_long() & v)
                if v == M64 - 1: return x
                if v & (v + 1) == 0: return x % (v + 1)
                w = M64 - 1 - v
                if w & (w + 1) == 0: return x - x % (w + 1)
        if a.get_id() > b.get_id(): a, b = b, a
        if a.eq(b): return a
        r = self.uf('and', [a, b], I)
        if r.get_id() not in self.ranged:
            self.rng(r)
            self.side.append(z3.And(r <= a, r <= b))
            self.ands.append((r, a, b))
        return r

    def mask_lemmas(self):
        """r = x & c with c = 2^m - 1 (recognised by an application c & (c+1) that occurs)"""
        out = []
        masks = {}
        for r, a, b in self.ands:
            for x, c in ((a, b), (b, a)):
                if self.add(c, z3.IntVal(1)).eq(x): masks[c.get_id()] = (c, r)
        for c, rm in masks.values():
            out.append(z3.Implies(rm == 0, z3.And(z3.Or(c == 0, c == 1, c == 3, c == 7, z3.And(c >= 15, c % 16 == 15)))))
        for r, a, b in self.ands:
            for x, c in ((a, b), (b, a)):
                if c.get_id() not in masks: continue
                c0, rm = masks[c.get_id()]
                if r.eq(rm): continue
                out.append(z3.Implies(z3.And(rm == 0, c < 1 << 62), mask_fact(x, c, r)))
                pass
        return out

    def node(self, x, c):
        k = x.decl().kind() if z3.is_app(x) else None
        s = x.sort()
        I64 = self.isint(x)
        ch = x.children()
        if I64:
            if k == z3.Z3_OP_BNUM: return z3.IntVal(x.as_long())
            if k == z3.Z3_OP_BADD:
                r = c[0]
                for y in c[1:]: r = self.add(r, y)
                return r
            if k == z3.Z3_OP_BSUB:
                r = c[0]
                for y in c[1:]: r = self.sub(r, y)
                return r
            if k == z3.Z3_OP_BNEG: return self.sub(z3.IntVal(0), c[0])
            if k == z3.Z3_OP_BNOT: return M64 - 1 - c[0]
            if k == z3.Z3_OP_BAND:
                r = c[0]
                for y in c[1:]: r = self.bvand(r, y)
                return r
            if k == z3.Z3_OP_BMUL:
                a, b = c[0], c[1]
                for y in c[2:]: b = b * y
                for p, q in ((a, b), (b, a)):
                    if z3.is_int_value(p):
                        v = p.as_long()
                        if z3.is_int_value(q): return z3.IntVal(v * q.as_long() % M64)
                        if v == M64 - 1: return self.sub(z3.IntVal(0), q)
                        return z3.If(q <= (M64 - 1) // v, q * v, self.rng(self.uf('mulo', [a, b], I)))
                return self.rng(self.uf('mul', [a, b], I))
            if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                if z3.is_int_value(c[1]):
                    v = c[1].as_long()
                    if k == z3.Z3_OP_BLSHR: return c[0] / (1 << v) if v < 64 else z3.IntVal(0)
                    if v: return c[0] / v
                r = self.uf('lshr' if k == z3.Z3_OP_BLSHR else 'udiv', c, I)
                self.rng(r); self.side.append(z3.Implies(c[1] != 0, r <= c[0]))
                return r
            if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                if z3.is_int_value(c[1]) and c[1].as_long(): return c[0] % c[1].as_long()
                r = self.uf('urem', c, I)
                self.rng(r); self.side.append(z3.And(r <= c[0], z3.Implies(c[1] != 0, r < c[1])))
                return r
            if k == z3.Z3_OP_BSHL and z3.is_int_value(c[1]):
                v = c[1].as_long()
                return z3.If(c[0] < M64 >> v, c[0] * (1 << v), self.rng(self.uf('shlo', c, I))) if v < 64 else z3.IntVal(0)
            if k == z3.Z3_OP_ITE: return z3.If(c[0], c[1], c[2])
            if k == z3.Z3_OP_ZERO_EXT: return self.zext(c[0])
            if k == z3.Z3_OP_CONCAT:
                if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
                    y = c[1] if len(c) == 2 else z3.Concat(*c[1:])
                    return self.zext(y)
                if len(ch) == 2 and z3.is_app_of(ch[0], z3.Z3_OP_EXTRACT) and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0:
                    hi, lo = ch[0].params()
                    if lo == 0:       # shift left by the width of the zero part
                        a = self.memo[ch[0].arg(0).get_id()]
                        if z3.is_int(a): return (a % (1 << (hi + 1))) * (1 << ch[1].size())
                return self.rng(self.uf('cat', [y for y in c], I))
            if k == z3.Z3_OP_SIGN_EXT:
                z = self.zext(c[0]); n = c[0].size()
                return z3.If(z >= 1 << (n - 1), z + M64 - (1 << n), z)
            if k == z3.Z3_OP_UNINTERPRETED:
                if not c: return self.rng(z3.Int(x.decl().name()))
                return self.rng(self.fapp(x, c))
            if k == z3.Z3_OP_SELECT: return self.rng(z3.Select(c[0], c[1]))
            # anything else: an unknown function of its arguments
            return self.rng(self.uf('op%d_%s' % (k, '_'.join(map(str, x.params() if x.num_args() else []))), c, I))
        # ---- not an integer
        if k == z3.Z3_OP_EXTRACT:
            y = xtr(x)
            if y is not None: return self.tr2(y)
        if k == z3.Z3_OP_EXTRACT and self.isint(ch[0]):
            hi, lo = x.params()
            if hi == lo: 
                b = c[0] >= M64 // 2 if hi == 63 else ((c[0] / (1 << lo)) % 2 == 1 if lo else c[0] % 2 == 1)
                if hi != 63 and lo > 3: return self.uf('ex_%d_%d' % (hi, lo), [c[0]], s)
                return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return self.uf('ex_%d_%d' % (hi, lo), [c[0]], s)
        if ch and self.isint(ch[0]) and k in CMP: return CMP[k](c[0], c[1])
        if ch and self.isint(ch[0]) and k in SCMP:
            a, b = [z3.If(y >= M64 // 2, y - M64, y) for y in c]
            return SCMP[k](a, b)
        if k == z3.Z3_OP_UNINTERPRETED:
            if not c: return z3.Const(x.decl().name(), s if z3.is_bv(x) else self.sort(s))
            return self.fapp(x, c)
        if k == z3.Z3_OP_CONST_ARRAY: return z3.K(self.sort(s.domain()), c[0])
        if k == z3.Z3_OP_SELECT: return z3.Select(c[0], c[1])
        if k == z3.Z3_OP_STORE: return z3.Store(c[0], c[1], c[2])
        if k == z3.Z3_OP_ITE: return z3.If(c[0], c[1], c[2])
        if k == z3.Z3_OP_EQ: return c[0] == c[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*c)
        if any(z3.is_int(z) or (z3.is_array(z) and z.sort() != y.sort()) for y, z in zip(ch, c)): return self.uf('opx%d_%s' % (k, '_'.join(map(str, x.params()))), c, s if z3.is_bv(x) else self.sort(s))
        if not c: return x
        return x.decl()(*c)

    def fapp(self, x, c):
        d = x.decl()
        key = ('uf', d.name(), d.arity())
        if key not in self.fn:
            self.fn[key] = z3.Function(d.name(), *[self.sort(d.domain(j)) for j in range(d.arity())], self.sort(d.range()))
        return self.fn[key](*c)

    def zext(self, y):
        if z3.is_bv_value(y): return z3.IntVal(y.as_long())
        if z3.is_app_of(y, z3.Z3_OP_ITE): return z3.If(y.arg(0), self.zext(y.arg(1)), self.zext(y.arg(2)))
        n = y.size()
        r = self.uf('z%d' % n, [y], I)
        if r.get_id() not in self.ranged:
            self.ranged.add(r.get_id()); self.keep.append(r); self.side.append(z3.And(r >= 0, r < 1 << n))
        return r


CMP = {z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_UGT: lambda a, b: a > b, z3.Z3_OP_UGEQ: lambda a, b: a >= b,
       z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_DISTINCT: lambda a, b: a != b}
SCMP = {z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SGT: lambda a, b: a > b, z3.Z3_OP_SGEQ: lambda a, b: a >= b}


def mask_fact(x, c, r, ge=lambda a, b: a >= b, le=lambda a, b: a <= b, c2=None, neg=None):
    return z3.And(z3.Implies(x <= c, r == x), z3.Implies(z3.And(x > c, x <= 2 * c + 1), r == x - c - 1), z3.Implies(x >= M64 - 1 - c, r == x - (M64 - 1 - c)))


def selfcheck():
    """the lemma about masks, for 64-bit vectors (c < 2^62 so that 2c+1 does not wrap)"""
    x, c = z3.BitVecs('x c', 64)
    U = lambda a, b: z3.ULE(a, b)
    r = x & c
    lem = z3.And(U(r, x), U(r, c), z3.Implies(U(x, c), r == x), z3.Implies(z3.And(z3.UGT(x, c), U(x, 2 * c + 1), z3.ULT(c, 1 << 62)), r == x - c - 1),
                 z3.Implies(z3.UGE(x, ~c), r == x - ~c), z3.Or(c == 0, c == 1, c == 3, c == 7, z3.And(z3.UGE(c, 15), z3.URem(c, 16) == 15)),
                 *[z3.Implies(c == k, r == z3.URem(x, k + 1)) for k in (1, 3, 7)])
    s = z3.Solver(); s.add(c & (c + 1) == 0, z3.ULT(c, 1 << 62), z3.Not(lem))
    return str(s.check())


def xtr(e):
    """the part of a concatenation selected by an extract, or None"""
    hi, lo = e.params()
    x = e.arg(0)
    done = False
    while True:
        if lo == 0 and hi == x.size() - 1: return x
        if z3.is_app_of(x, z3.Z3_OP_CONCAT):
            pos = x.size()
            nx = None
            for c in x.children():
                pos -= c.size()
                if lo >= pos and hi < pos + c.size(): nx = c; break
            if nx is None: break
            x, hi, lo, done = nx, hi - pos, lo - pos, True
        elif z3.is_app_of(x, z3.Z3_OP_EXTRACT):
            h2, l2 = x.params(); x, hi, lo, done = x.arg(0), hi + l2, lo + l2, True
        elif z3.is_app_of(x, z3.Z3_OP_ZERO_EXT) and hi < x.arg(0).size(): x, done = x.arg(0), True
        elif z3.is_app_of(x, z3.Z3_OP_ZERO_EXT) and lo >= x.arg(0).size(): return z3.BitVecVal(0, hi - lo + 1)
        elif z3.is_app_of(x, z3.Z3_OP_SIGN_EXT) and hi < x.arg(0).size(): x, done = x.arg(0), True
        else: break
    return z3.Extract(hi, lo, x) if done else None


def const_tree(y):
    if z3.is_bv_value(y): return True
    if z3.is_app_of(y, z3.Z3_OP_ITE): return const_tree(y.arg(1)) and const_tree(y.arg(2))
    return z3.is_app(y) and y.num_args() == 0


def restore_and(fs):
    """~(~a | ~b) back into a & b"""
    memo, keep = {}, []

    def neg(c):
        if z3.is_app_of(c, z3.Z3_OP_BNOT): return c.arg(0)
        if z3.is_bv_value(c): return z3.BitVecVal(~c.as_long() & ((1 << c.size()) - 1), c.size())
        return ~c

    def go(e):
        st = [e]
        while st:
            x = st[-1]
            if x.get_id() in memo: st.pop(); continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo: st.extend(todo); continue
            st.pop(); keep.append(x)
            c = [memo[y.get_id()] for y in ch]
            if z3.is_app_of(x, z3.Z3_OP_BNOT) and z3.is_app_of(c[0], z3.Z3_OP_BOR) and x.size() == 64:
                r = neg(c[0].arg(0))
                for y in c[0].children()[1:]: r = r & neg(y)
            elif all(a.eq(b) for a, b in zip(ch, c)): r = x
            elif x.decl().kind() == z3.Z3_OP_AND: r = z3.And(*c)
            elif x.decl().kind() == z3.Z3_OP_OR: r = z3.Or(*c)
            elif x.decl().kind() == z3.Z3_OP_DISTINCT: r = z3.Distinct(*c)
            elif x.decl().kind() == z3.Z3_OP_BADD: r = c[0]; r = fold(lambda p, q: p + q, c)
            elif x.decl().kind() == z3.Z3_OP_BAND: r = fold(lambda p, q: p & q, c)
            elif x.decl().kind() == z3.Z3_OP_BOR: r = fold(lambda p, q: p | q, c)
            elif x.decl().kind() == z3.Z3_OP_BMUL: r = fold(lambda p, q: p * q, c)
            elif x.decl().kind() == z3.Z3_OP_CONCAT: r = z3.Concat(*c)
            else: r = x.decl()(*c)
            memo[x.get_id()] = r
        return memo[e.get_id()]
    return [go(f) for f in fs], keep


def fold(f, l):
    r = l[0]
    for x in l[1:]: r = f(r, x)
    return r


def translate(fs):
    t = Tr()
    fs, t.keep2 = restore_and(fs)
    t.infer(fs)
    t.bound(fs)
    out = [t.tr(f) for f in fs]
    ml = t.mask_lemmas()
    return out + t.side + ml


class Fast(Tr):
    """translation that is shared by all obligations of a process: every 64-bit term is an integer, additions always wrap explicitly"""
    def __init__(self):
        Tr.__init__(self)
        self.node_side, self.form = {}, {}

    def isint(self, e): return z3.is_bv(e) and e.size() == 64

    def coerce(self, x, c): return c

    def rng(self, t):
        self.side.append(z3.And(t >= 0, t < M64)); return t

    def zext(self, y):
        if z3.is_bv_value(y): return z3.IntVal(y.as_long())
        if z3.is_app_of(y, z3.Z3_OP_ITE): return z3.If(y.arg(0), self.zext(y.arg(1)), self.zext(y.arg(2)))
        r = self.uf('z%d' % y.size(), [y], I)
        self.side.append(z3.And(r >= 0, r < 1 << y.size()))
        return r

    def bvand(self, a, b):
        self.ranged.clear()
        return Tr.bvand(self, a, b)

    def small(self, y, c):
        """exact value of a narrow term that is part of a 64-bit term"""
        if z3.is_bv_value(y): return z3.IntVal(y.as_long())
        if z3.is_app_of(y, z3.Z3_OP_EXTRACT) and self.isint(y.arg(0)):
            hi, lo = y.params()
            a = self.memo[y.arg(0).get_id()]
            if lo: a = a / (1 << lo)
            return a if hi == 63 else a % (1 << (hi - lo + 1))
        return None

    def node(self, x, c):
        self.side = []
        r = None
        if z3.is_app(x) and x.num_args() == 2 and x.decl().kind() in CMP and z3.is_bv(x.arg(0)) and x.arg(0).size() < 64:
            l = [self.small(y, z) for y, z in zip(x.children(), c)]
            if None not in l: r = CMP[x.decl().kind()](*l)
        if r is None: r = Tr.node(self, x, c)
        if self.side: self.node_side[x.get_id()] = self.side
        return r

    def formula(self, f):
        """-> (translated formula, [side conditions])"""
        i = f.get_id()
        r = self.form.get(i)
        if r is None:
            t = self.tr(f)
            seen, st, side = set(), [f], []
            while st:
                x = st.pop()
                k = x.get_id()
                if k in seen: continue
                seen.add(k)
                if k in self.node_side: side += self.node_side[k]
                st.extend(x.children())
            r = self.form[i] = (t, side)
            self.keep.append(f)
        return r


_FAST = None


def fast(fs):
    global _FAST
    if _FAST is None or len(_FAST.memo) > 1500000: _FAST = Fast()
    out, ids = [], set()
    for f in fs:
        t, side = _FAST.formula(f)
        out.append(t)
        for s in side:
            if s.get_id() not in ids: ids.add(s.get_id()); out.append(s)
    return out
