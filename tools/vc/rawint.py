"""The translation of toint.Fast through the C interface of z3 (the common kinds of terms; all others take the path of toint)."""
import ctypes
import z3
from z3 import z3core
import toint
from toint import M64

_H = None


def lib():
    """a second handle of the loaded library, with plain integers as pointers"""
    global _H
    if _H is None:
        L = ctypes.CDLL(next(l.split()[-1] for l in open('/proc/self/maps') if 'libz3' in l))
        P, U = ctypes.c_void_p, ctypes.c_uint
        PP = ctypes.POINTER(P)
        for n, r, a in (('Z3_get_ast_kind', U, (P, P)), ('Z3_get_app_decl', P, (P, P)), ('Z3_get_app_num_args', U, (P, P)), ('Z3_get_app_arg', P, (P, P, U)), ('Z3_get_decl_kind', U, (P, P)),
                        ('Z3_get_sort', P, (P, P)), ('Z3_get_sort_kind', U, (P, P)), ('Z3_get_bv_sort_size', U, (P, P)), ('Z3_get_ast_id', U, (P, P)), ('Z3_inc_ref', None, (P, P)),
                        ('Z3_mk_select', P, (P, P, P)), ('Z3_mk_store', P, (P, P, P, P)), ('Z3_mk_ite', P, (P, P, P, P)), ('Z3_mk_eq', P, (P, P, P)), ('Z3_mk_and', P, (P, U, PP)), ('Z3_mk_or', P, (P, U, PP)),
                        ('Z3_mk_not', P, (P, P)), ('Z3_mk_implies', P, (P, P, P)), ('Z3_mk_lt', P, (P, P, P)), ('Z3_mk_le', P, (P, P, P)), ('Z3_mk_gt', P, (P, P, P)), ('Z3_mk_ge', P, (P, P, P)),
                        ('Z3_mk_distinct', P, (P, U, PP)), ('Z3_mk_app', P, (P, P, U, PP)), ('Z3_solver_assert', None, (P, P, P))):
            f = getattr(L, n); f.restype, f.argtypes = r, a
        _H = L
    return _H


class Memo:
    """what toint looks up by the number of a term"""
    def __init__(self, o): self.o, self.d = o, {}
    def __getitem__(self, i): return self.o.wrapx(self.d[i])
    def get(self, i, default=None):
        p = self.d.get(i)
        return default if p is None else self.o.wrapx(p)
    def __len__(self): return len(self.d)
    def __setitem__(self, i, v): raise KeyError(i)


class Raw(toint.Fast):
    def __init__(self):
        toint.Fast.__init__(self)
        self.L = lib()
        self.c = z3.main_ctx().ref().value
        self.memo = Memo(self)
        self.sa, self.lem, self.plus1 = {}, {}, {}
        self.m, self.kids, self.sd, self.forms, self.dk, self.sk, self.decls = {}, {}, {}, {}, {}, {}, {}
        self.zero, self.top64 = self.own(z3.IntVal(0)), self.own(z3.IntVal(M64))
        O = z3
        L = self.L
        self.un = {O.Z3_OP_NOT: L.Z3_mk_not}
        self.nary = {O.Z3_OP_AND: L.Z3_mk_and, O.Z3_OP_OR: L.Z3_mk_or}
        self.arith = {O.Z3_OP_LE: L.Z3_mk_le, O.Z3_OP_LT: L.Z3_mk_lt, O.Z3_OP_GE: L.Z3_mk_ge, O.Z3_OP_GT: L.Z3_mk_gt}
        self.cmp = {O.Z3_OP_ULT: L.Z3_mk_lt, O.Z3_OP_ULEQ: L.Z3_mk_le, O.Z3_OP_UGT: L.Z3_mk_gt, O.Z3_OP_UGEQ: L.Z3_mk_ge}

    def own(self, e): return self.ref(e.as_ast().value)

    def ref(self, p):
        self.L.Z3_inc_ref(self.c, p); return p

    def wrapx(self, p):
        a = z3core.Ast(p); a.value = p
        return z3.z3._to_expr_ref(a, z3.main_ctx())

    def is64p(self, p):
        s = self.L.Z3_get_sort(self.c, p)
        r = self.sk.get(s)
        if r is None: r = self.sk[s] = self.L.Z3_get_sort_kind(self.c, s) == z3.Z3_BV_SORT and self.L.Z3_get_bv_sort_size(self.c, s) == 64
        return r

    def arr(self, l): return (ctypes.c_void_p * len(l))(*l)

    def ranges(self, r):
        L, c = self.L, self.c
        a = self.ref(L.Z3_mk_ge(c, r, self.zero)); b = self.ref(L.Z3_mk_lt(c, r, self.top64))
        return [self.ref(L.Z3_mk_and(c, 2, self.arr([a, b])))]

    def tr2(self, y):
        self.keep.append(y)
        return self.wrapx(self.trp(y.as_ast().value))

    def trp(self, root):
        L, c, m, kids = self.L, self.c, self.m, self.kids
        if root in m: return m[root]
        st = [root]
        while st:
            x = st[-1]
            if x in m: st.pop(); continue
            ch = kids.get(x)
            if ch is None:
                if L.Z3_get_ast_kind(c, x) != 1: ch = ()
                else: ch = tuple([L.Z3_get_app_arg(c, x, k) for k in range(L.Z3_get_app_num_args(c, x))])
                kids[x] = ch
            todo = [y for y in ch if y not in m]
            if todo: st.extend(todo); continue
            st.pop()
            r, side = self.one(x, ch)
            m[x] = r
            self.memo.d[L.Z3_get_ast_id(c, x)] = r
            if side: self.sd[x] = side
        return m[root]

    def one(self, x, ch):
        L, c, m = self.L, self.c, self.m
        if ch:
            d = L.Z3_get_app_decl(c, x)
            k = self.dk.get(d)
            if k is None: k = self.dk[d] = L.Z3_get_decl_kind(c, d)
            a = [m[y] for y in ch]
            r, rng = None, False
            if k in self.nary: r = self.nary[k](c, len(a), self.arr(a))
            elif k in self.un: r = self.un[k](c, a[0])
            elif k == z3.Z3_OP_IMPLIES: r = L.Z3_mk_implies(c, a[0], a[1])
            elif k == z3.Z3_OP_SELECT and len(a) == 2: r, rng = L.Z3_mk_select(c, a[0], a[1]), self.is64p(x)
            elif k == z3.Z3_OP_STORE and len(a) == 3: r = L.Z3_mk_store(c, a[0], a[1], a[2])
            elif k == z3.Z3_OP_ITE: r = L.Z3_mk_ite(c, a[0], a[1], a[2])
            elif k in self.cmp and self.is64p(ch[0]): r = self.cmp[k](c, a[0], a[1])
            elif k == z3.Z3_OP_EQ:
                if self.is64p(ch[0]) or not self.isbv(ch[0]): r = L.Z3_mk_eq(c, a[0], a[1])
            elif k == z3.Z3_OP_DISTINCT and (self.is64p(ch[0]) or not self.isbv(ch[0])): r = L.Z3_mk_distinct(c, len(a), self.arr(a))
            elif k in self.arith: r = self.arith[k](c, a[0], a[1])
            elif k == z3.Z3_OP_UNINTERPRETED:
                t = self.decls.get(d)
                if t is None:
                    e = self.wrapx(x)
                    self.fapp(e, [self.wrapx(y) for y in a])
                    f = self.fn[('uf', e.decl().name(), e.decl().arity())]
                    t = self.decls[d] = f.ast.value
                    self.keep.append(e)
                r, rng = L.Z3_mk_app(c, t, len(a), self.arr(a)), self.is64p(x)
            if r is not None:
                self.ref(r)
                return r, self.ranges(r) if rng else None
        e = self.wrapx(x)
        self.side, self.ands = [], []
        n = toint.Fast.node(self, e, [self.wrapx(m[y]) for y in ch])
        self.keep.append(n)
        if self.ands: self.sa[x] = self.ands
        return self.own(n), [self.own(s) for s in self.side]

    def isbv(self, p): return self.L.Z3_get_sort_kind(self.c, self.L.Z3_get_sort(self.c, p)) == z3.Z3_BV_SORT

    def formula(self, f):
        p = f.as_ast().value
        r = self.forms.get(p)
        if r is None:
            self.keep.append(f)
            t = self.trp(p)
            seen, st, side, sd, kids, sa, ands = set(), [p], [], self.sd, self.kids, self.sa, []
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x in sd: side += sd[x]
                if x in sa: ands += sa[x]
                st.extend(kids[x])
            r = self.forms[p] = (t, side, ands)
        return r

    def masks(self, ands):
        """lemmas about x & c with c = 2^m - 1 (recognised by an application c & (c+1) that occurs)"""
        out, masks = [], {}
        for r, a, b in ands:
            for x, c in ((a, b), (b, a)):
                k = c.get_id()
                if k not in self.plus1: self.plus1[k] = self.add(c, z3.IntVal(1)); self.keep.append(c)
                if self.plus1[k].eq(x): masks[k] = (c, r)

        def once(key, mk):
            l = self.lem.get(key)
            if l is None: e = mk(); self.keep.append(e); l = self.lem[key] = e.as_ast().value
            out.append(l)
        for k, (c, rm) in masks.items():
            once((k, rm.get_id()), lambda: z3.Implies(rm == 0, z3.Or(c == 0, c == 1, c == 3, c == 7, z3.And(c >= 15, c % 16 == 15))))
        for r, a, b in ands:
            for x, c in ((a, b), (b, a)):
                m = masks.get(c.get_id())
                if m is None or r.eq(m[1]): continue
                once((c.get_id(), r.get_id(), x.get_id(), m[1].get_id()), lambda: z3.Implies(z3.And(m[1] == 0, c < 1 << 62), toint.mask_fact(x, c, r)))
        return out


_RAW = None


def check(fs, ms):
    global _RAW
    if _RAW is None or len(_RAW.m) > 3000000: _RAW = Raw()
    s = z3.SimpleSolver(); s.set('timeout', ms)
    sp, L, c = s.solver.value if hasattr(s.solver, 'value') else s.solver, _RAW.L, _RAW.c
    ids, ands = set(), {}
    for f in fs:
        t, side, an = _RAW.formula(f)
        for p in [t] + side:
            if p not in ids:
                ids.add(p); L.Z3_solver_assert(c, sp, p)
        for x in an: ands[x[0].get_id()] = x
    for p in _RAW.masks(list(ands.values())): L.Z3_solver_assert(c, sp, p)
    return str(s.check())


def core(base, owned, ms):
    """owned: [(owner, formula)] -> the owners needed for unsatisfiability, or None"""
    global _RAW
    if _RAW is None or len(_RAW.m) > 3000000: _RAW = Raw()
    s = z3.SimpleSolver(); s.set('timeout', ms)
    R, L, c, sp = _RAW, _RAW.L, _RAW.c, s.solver.value
    ids, ands = set(), {}
    lits = {}
    for who, f in [(None, x) for x in base] + owned:
        t, side, an = R.formula(f)
        for x in an: ands[x[0].get_id()] = x
        for p in side:
            if p not in ids: ids.add(p); L.Z3_solver_assert(c, sp, p)
        if who is None: L.Z3_solver_assert(c, sp, t); continue
        l = lits.get(who)
        if l is None: l = lits[who] = z3.Bool('use!%d' % who)
        L.Z3_solver_assert(c, sp, R.ref(L.Z3_mk_implies(c, l.as_ast().value, t)))
    for p in R.masks(list(ands.values())): L.Z3_solver_assert(c, sp, p)
    if s.check(*lits.values()) != z3.unsat: return None
    u = {str(x) for x in s.unsat_core()}
    return [w for w, l in lits.items() if str(l) in u]
