"""Compiles a driver against /repo's headers, brings the LLVM IR into the form the verifier reads (everything inlined except
the functions that carry a contract) and parses it."""
import os, re, subprocess, tempfile

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class IRError(Exception):
    pass


def base_name(d):
    d = re.sub(r'( const)?(&&?)?( \[clone.*)?$', '', d.strip())

    def strip(d, o, c):
        n = 0
        for i in range(len(d) - 1, -1, -1):
            if d[i] == c and not (c == '>' and d[i - 1] == '-'): n += 1
            elif d[i] == o:
                n -= 1
                if n == 0: return d[:i]
        return d
    if d.endswith(')'): d = strip(d, '(', ')')
    if d.endswith('>') and not re.search(r'operator(>|->|>>|<=>)$', d): d = strip(d, '<', '>')
    m = re.search(r'(~?\w+)$', d)
    return m.group(1) if m else d[-12:]


def scope_of(d):
    """class name the function is a member of (template arguments removed), '' if none"""
    out, n = '', 0
    for ch in re.sub(r'\(anonymous namespace\)::', '', d):
        if ch == '<': n += 1
        elif ch == '>': n -= 1
        elif n == 0:
            if ch == '(' : break
            out += ch
    parts = out.split('::')
    return parts[-2].split(' ')[-1] if len(parts) > 1 else ''


def compile_ll(src, flags, keep, tmp, compiler='clang++-18'):
    """-> (text of the prepared module, {symbol: (scope, base, demangled)})"""
    ll = os.path.join(tmp, 'd.ll')
    cmd = [compiler] + flags + ['-I' + REPO, '-O1', '-w', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-strict-aliasing', '-S', '-emit-llvm', src, '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise IRError('driver does not compile: ' + p.stderr[:3000])
    s = open(ll).read()
    names = re.findall(r'^define[^@]*@("[^"]+"|[\w.$]+)\(', s, re.M)
    dem = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n.strip('"') for n in names), capture_output=True, text=True).stdout.split('\n')
    info, kept = {}, set()
    for n, d in zip(names, dem):
        sc, b = scope_of(d), base_name(d)
        if n.startswith('op_'): sc, b = '', n
        info[n] = (sc, b, d)
        if n.startswith('op_') or keep(sc, b, d): kept.add(n)

    def fix(m):
        line = m.group(0)
        n = re.search(r'@("[^"]+"|[\w.$]+)\(', line).group(1)
        line = re.sub(r'\b(hidden|dso_local) ', '', line)
        line = re.sub(r' #\d+', '', line)
        line = re.sub(r' comdat(\([^)]*\))?', '', line)
        line = re.sub(r'linkonce_odr |weak_odr ', 'internal ', line)
        a = 'noinline' if (n in kept or 'assert_msg' in n) else 'alwaysinline'
        pm = re.search(r' personality [^{]*?(?= align|\s*\{)', line)
        p = pm.group(0) if pm else ''
        if p: line = line.replace(p, '')
        return re.sub(r'((?: align \d+)?)\s*\{$', lambda k: ' ' + a + ' nounwind' + k.group(1) + p + ' {', line)
    s = re.sub(r'^define.*\{$', fix, s, flags=re.M)
    s = re.sub(r'^\$.* = comdat any$', '', s, flags=re.M)
    s = re.sub(r'^(@.*), comdat(\([^)]*\))?', r'\1', s, flags=re.M)
    pl, ol = os.path.join(tmp, 'p.ll'), os.path.join(tmp, 'o.ll')
    open(pl, 'w').write(s)
    passes = 'always-inline,globaldce,function(sroa,lower-expect,simplifycfg,early-cse,adce,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify)'
    p = subprocess.run(['opt', '-S', '-passes=' + passes, pl, '-o', ol], capture_output=True, text=True)
    if p.returncode: raise IRError('opt: ' + p.stderr[:2000])
    return open(ol).read(), info, ' '.join(cmd)


def record_layouts(src, flags, compiler='clang++-18'):
    p = subprocess.run([compiler] + flags + ['-I' + REPO, '-w', '-fsyntax-only', '-Xclang', '-fdump-record-layouts', src], capture_output=True, text=True)
    return p.stdout


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'n')

    def __init__(self, k, a=None, n=0): self.k, self.a, self.n = k, a, n
    def __repr__(self): return 'Ty(%s,%s,%s)' % (self.k, self.a, self.n)


PTR, VOID = Ty('ptr'), Ty('void')


class P:
    """tokenising cursor"""
    TOK = re.compile(r'\s*(%"[^"]+"|@"[^"]+"|[%@][\w.$\-]+|c"(?:[^"\\]|\\.)*"|"[^"]*"|-?0x[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+|-?\d+|\.\.\.|![\w.]*|#\d+|[\w.]+|[=,()\[\]{}<>*:|])')

    def __init__(self, s):
        self.t = P.TOK.findall(s)
        self.i = 0

    def peek(self, d=0): return self.t[self.i + d] if self.i + d < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x): raise IRError('expected %s got %s in %s' % (x, self.t[self.i:self.i + 5], ' '.join(self.t)[:200]))


def parse_type(p):
    t = p.next()
    if t == 'ptr': return PTR
    if t == 'void': return VOID
    if t in ('label', 'metadata', 'token'): return Ty(t)
    if t in ('float', 'double'): return Ty(t)
    if re.fullmatch(r'i\d+', t): return Ty('i', None, int(t[1:]))
    if t == '<':
        if p.peek() == '{':
            p.next(); el = []
            while not p.eat('}'):
                el.append(parse_type(p)); p.eat(',')
            p.need('>')
            return Ty('struct', (el, True))
        n = int(p.next()); p.need('x'); e = parse_type(p); p.need('>')
        return Ty('vec', e, n)
    if t == '[':
        n = int(p.next()); p.need('x'); e = parse_type(p); p.need(']')
        return Ty('arr', e, n)
    if t == '{':
        el = []
        while not p.eat('}'):
            el.append(parse_type(p)); p.eat(',')
        return Ty('struct', (el, False))
    if t[0] == '%': return Ty('named', t)
    raise IRError('type? ' + t)


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'immarg', 'inreg', 'nest', 'swiftself', 'noreturn', 'nounwind', 'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'dso_local', 'internal', 'hidden', 'local_unnamed_addr', 'unnamed_addr', 'exact', 'inbounds', 'nuw', 'nsw', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'volatile', 'noinline', 'alwaysinline', 'linkonce_odr', 'available_externally', 'dead_on_unwind', 'writable', 'allocptr'}


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in ATTRS: p.next()
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'range'):
            p.next()
            if p.peek() == '(':
                n = 0
                while True:
                    x = p.next()
                    if x == '(': n += 1
                    if x == ')':
                        n -= 1
                        if n == 0: break
            else: p.next()
        else: return


class Mod:
    def __init__(self, text, info):
        self.types, self.funcs, self.info, self.globals = {}, {}, info, {}
        cur, lines = None, text.split('\n')
        buf = None
        for ln in lines:
            if buf is not None:
                buf += ' ' + ln.strip()
                if ln.strip().startswith(']'):
                    cur.lines[-1][1].append(buf); buf = None
                continue
            ln = ln.rstrip()
            if not ln or ln.lstrip().startswith(';'): continue
            if cur is None:
                m = re.match(r'^(%"[^"]+"|%[\w.$]+) = type (.*)$', ln)
                if m:
                    self.types[m[1]] = m[2]; continue
                m = re.match(r'^(@"[^"]+"|@[\w.$]+) = ', ln)
                if m:
                    self.globals[m[1]] = ln; continue
                if ln.startswith('define '):
                    cur = Fn(ln); self.funcs[cur.name] = cur
                    cur.scope, cur.base, cur.dem = info.get(cur.name, ('', cur.name, cur.name))
                continue
            if ln == '}':
                cur.finish(self); cur = None; continue
            m = re.match(r'^("[^"]+"|[\w.$\-]+):', ln)
            if m:
                cur.lines.append((m[1].strip('"'), [])); continue
            s = re.sub(r'(, ![\w.]+ ![\w.]+|, !prof ![0-9]+|, !srcloc ![0-9]+)+', '', ln.strip())
            s = re.sub(r' ;.*$', '', s)
            if s.startswith('to label'):
                cur.lines[-1][1][-1] += ' ' + s; continue
            if not cur.lines: cur.lines.append(('0', []))
            if s.startswith('switch') and s.endswith('['):
                buf = s; continue
            cur.lines[-1][1].append(s)
        self._sz = {}

    def resolve(self, t):
        if t.k == 'named':
            d = self.types[t.a]
            if d == 'opaque': raise IRError('opaque ' + t.a)
            return parse_type(P(d))
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'i': return min(8 if t.n > 32 else 4 if t.n > 16 else 2 if t.n > 8 else 1, 16)
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'vec': return self.size(t)
        if t.k == 'arr': return self.align(t.a)
        if t.k == 'struct': return 1 if t.a[1] else max([self.align(e) for e in t.a[0]] or [1])
        raise IRError('align ' + repr(t))

    def size(self, t):
        if t.k == 'named':
            if t.a not in self._sz: self._sz[t.a] = self.size(self.resolve(t))
            return self._sz[t.a]
        if t.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t.n] if t.n in (1, 8, 16, 32, 64, 128) else (t.n + 7) // 8
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'vec': return (t.n * (1 if t.a.k == 'i' and t.a.n == 1 else self.size(t.a) * 8) + 7) // 8
        if t.k == 'arr': return t.n * self.size(t.a)
        if t.k == 'struct':
            o, al = 0, 1
            for e in t.a[0]:
                a = 1 if t.a[1] else self.align(e)
                al = max(al, a); o = (o + a - 1) // a * a + self.size(e)
            return (o + al - 1) // al * al
        raise IRError('size ' + repr(t))

    def field(self, t, i):
        t = self.resolve(t)
        if t.k in ('arr', 'vec'): return i * self.size(t.a), t.a
        o = 0
        for j, e in enumerate(t.a[0]):
            a = 1 if t.a[1] else self.align(e)
            o = (o + a - 1) // a * a
            if j == i: return o, e
            o += self.size(e)
        raise IRError('field')


class Op:
    __slots__ = ('d', 'op', 'a', 'ty', 'x', 'src')

    def __init__(self, d, op, ty=None, a=(), x=None, src=''): self.d, self.op, self.ty, self.a, self.x, self.src = d, op, ty, a, x, src
    def __repr__(self): return self.src


class Fn:
    def __init__(self, line):
        m = re.match(r'^define (.*?)@("[^"]+"|[\w.$]+)\((.*)$', line)
        self.name = m[2]; self.header = line
        p = P(m[1]); skip_attrs(p); self.ret = parse_type(p)
        p = P(m[3]); self.args = []
        while not p.eat(')'):
            if p.eat('...'): continue
            t = parse_type(p); skip_attrs(p)
            self.args.append((p.next(), t)); p.eat(',')
        self.lines, self.blocks = [], {}
        self.scope = self.base = self.dem = ''

    def finish(self, mod):
        if self.lines and self.lines[0][0] == '0' and len(self.lines) >= 1: pass
        self.order = [b for b, _ in self.lines]
        for b, ls in self.lines:
            self.blocks[b] = [o for o in (parse_op(l) for l in ls) if o is not None]
        self.entry = self.order[0]
        self.loops = None

    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return list(dict.fromkeys(t.x))
        if t.op == 'switch': return list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        if t.op == 'invoke': return list(t.x['to'])
        return []

    def analyse(self):
        """natural loops: header -> set of blocks"""
        if self.loops is not None: return self.loops
        rpo, seen = [], set()
        st = [(self.entry, iter(self.succ(self.entry)))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ(s)))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b): pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succ(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w += pred[x]
                elif idx[s] <= idx[b]: raise IRError('irreducible loop in ' + self.name)
        self.rpo, self.pred = idx, pred
        return self.loops


CONST_TOK = re.compile(r'^(-?\d+|true|false|null|undef|poison|zeroinitializer|none|-?0x[0-9A-Fa-f]+|-?\d+\.\d+e[+-]\d+)$')


def parse_val(p, ty):
    t = p.next()
    if t == '<':
        el = []
        while not p.eat('>'):
            et = parse_type(p); el.append(parse_val(p, et)); p.eat(',')
        return ('vec', el)
    if t in ('{', '['):
        el = []
        while not (p.eat('}') or p.eat(']')):
            et = parse_type(p); el.append(parse_val(p, et)); p.eat(',')
        return ('agg', el)
    if t[0] == '%': return ('v', t)
    if t[0] == '@': return ('g', t)
    if t in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'sub', 'add'):
        n = 0; tx = t
        while True:
            x = p.next(); tx += ' ' + x
            if x == '(': n += 1
            if x == ')':
                n -= 1
                if n == 0: break
        return ('cexpr', tx)
    if CONST_TOK.match(t): return ('c', t)
    raise IRError('value? ' + t)


def parse_op(s):
    d = None
    m = re.match(r'^(%"[^"]+"|%[\w.$\-]+) = (.*)$', s)
    body = s
    if m: d, body = m[1], m[2]
    p = P(body)
    while p.peek() in ('tail', 'musttail', 'notail'): p.next()
    op = p.next()
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv'):
        fl = []
        while p.peek() in ATTRS: fl.append(p.next())
        t = parse_type(p); a = parse_val(p, t); p.need(','); b = parse_val(p, t)
        return Op(d, op, t, (a, b), fl, s)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ATTRS: p.next()
        c = p.next(); t = parse_type(p); a = parse_val(p, t); p.need(','); b = parse_val(p, t)
        return Op(d, op, t, (a, b), c, s)
    if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
        while p.peek() in ATTRS: p.next()
        t = parse_type(p); a = parse_val(p, t); p.need('to'); t2 = parse_type(p)
        return Op(d, op, t2, (a,), t, s)
    if op == 'alloca':
        t = parse_type(p); return Op(d, op, t, (), None, s)
    if op == 'load':
        skip_attrs(p); t = parse_type(p); p.need(','); parse_type(p); return Op(d, op, t, (parse_val(p, PTR),), None, s)
    if op == 'store':
        skip_attrs(p); t = parse_type(p); v = parse_val(p, t); p.need(','); parse_type(p); return Op(d, op, t, (v, parse_val(p, PTR)), None, s)
    if op == 'getelementptr':
        skip_attrs(p); t = parse_type(p); p.need(','); parse_type(p); b = parse_val(p, PTR); ix = []
        while p.eat(','):
            it = parse_type(p); ix.append((it, parse_val(p, it)))
        return Op(d, op, t, (b,), ix, s)
    if op == 'br':
        if p.eat('label'): return Op(d, op, None, (), [p.next()[1:].strip('"')], s)
        parse_type(p); c = parse_val(p, None); p.need(','); p.need('label'); a = p.next()[1:].strip('"'); p.need(','); p.need('label'); b = p.next()[1:].strip('"')
        return Op(d, op, None, (c,), [a, b], s)
    if op == 'switch':
        t = parse_type(p); v = parse_val(p, t); p.need(','); p.need('label'); df = p.next()[1:].strip('"'); p.need('['); cs = []
        while not p.eat(']'):
            ct = parse_type(p); c = parse_val(p, ct); p.need(','); p.need('label'); cs.append((c, p.next()[1:].strip('"')))
        return Op(d, op, t, (v,), (df, cs), s)
    if op == 'ret':
        t = parse_type(p)
        return Op(d, op, t, () if t.k == 'void' else (parse_val(p, t),), None, s)
    if op == 'phi':
        skip_attrs(p); t = parse_type(p); inc = []
        while True:
            p.need('['); v = parse_val(p, t); p.need(','); l = p.next()[1:].strip('"'); p.need(']'); inc.append((v, l))
            if not p.eat(','): break
        return Op(d, op, t, (), inc, s)
    if op == 'select':
        skip_attrs(p); ct = parse_type(p); c = parse_val(p, ct); p.need(','); t = parse_type(p); a = parse_val(p, t); p.need(','); parse_type(p); b = parse_val(p, t)
        return Op(d, op, t, (c, a, b), ct, s)
    if op in ('call', 'invoke'):
        skip_attrs(p); t = parse_type(p); skip_attrs(p)
        if p.peek() == '(':  # function type
            n = 0
            while True:
                x = p.next()
                if x == '(': n += 1
                if x == ')':
                    n -= 1
                    if n == 0: break
        f = p.next(); p.need('('); args = []
        while not p.eat(')'):
            at = parse_type(p); skip_attrs(p)
            if at.k == 'metadata':
                n = 0
                while not (n == 0 and p.peek() in (',', ')')):
                    x = p.next(); n += (x == '(') - (x == ')')
                args.append((at, None))
            else: args.append((at, parse_val(p, at)))
            p.eat(',')
        x = {'f': f.lstrip('@').strip('"') if not f.startswith('%') else f}
        if op == 'invoke':
            m = re.search(r'to label (%"[^"]+"|%[\w.$\-]+) unwind label (%"[^"]+"|%[\w.$\-]+)', s)
            x['to'] = [m[1][1:].strip('"'), m[2][1:].strip('"')] if m else []
        return Op(d, op, t, args, x, s)
    if op in ('unreachable', 'resume', 'landingpad'): return Op(d, op, None, (), None, s)
    if op in ('catch', 'cleanup', 'filter'): return None
    if op == 'extractvalue':
        t = parse_type(p); v = parse_val(p, t); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return Op(d, op, t, (v,), ix, s)
    if op == 'insertvalue':
        t = parse_type(p); v = parse_val(p, t); p.need(','); et = parse_type(p); e = parse_val(p, et); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return Op(d, op, t, (v, e), ix, s)
    if op == 'insertelement':
        t = parse_type(p); v = parse_val(p, t); p.need(','); et = parse_type(p); e = parse_val(p, et); p.need(','); it = parse_type(p)
        return Op(d, op, t, (v, e, parse_val(p, it)), None, s)
    if op == 'extractelement':
        t = parse_type(p); v = parse_val(p, t); p.need(','); it = parse_type(p)
        return Op(d, op, t, (v, parse_val(p, it)), None, s)
    if op == 'shufflevector':
        t = parse_type(p); a = parse_val(p, t); p.need(','); parse_type(p); b = parse_val(p, t); p.need(','); mt = parse_type(p)
        return Op(d, op, t, (a, b, parse_val(p, mt)), mt, s)
    if op == 'freeze':
        t = parse_type(p); return Op(d, op, t, (parse_val(p, t),), None, s)
    if op == 'fneg':
        t = parse_type(p); return Op(d, op, t, (parse_val(p, t),), None, s)
    raise IRError('instruction? ' + s[:120])
