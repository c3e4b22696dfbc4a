"""Parser for the textual LLVM IR that clang -O0 emits from the real headers."""
import re, struct
from fractions import Fraction as Fr


class Ty:
    __slots__ = ('k', 'n', 'e', '_sz', '_al', '_off')
    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e
        self._sz = None
    def __repr__(self): return '%s%s%s' % (self.k, self.n or '', self.e or '')


class Mod:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.i8 = Ty('i', 8)
        self._ctors = None

    def ctors(self, n):
        """functions that initialise the namespace-scope variable n dynamically"""
        if self._ctors is None:
            self._ctors = {}
            for f in self.funcs.values():
                if f.name.startswith('__cxx_global_var_init'):
                    for v in set(re.findall(r'@("[^"]*"|[-\w.$]+)', '\n'.join(f.raw))):
                        if v.strip('"') in self.globals: self._ctors.setdefault(v.strip('"'), []).append(f.name)
        return self._ctors.get(n, ())

    def layout(self, t):
        if t._sz is not None: return
        if t.k == 'i':
            b = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n, (t.n + 7) // 8)
            t._sz, t._al = b, b
        elif t.k == 'double': t._sz = t._al = 8
        elif t.k == 'float': t._sz = t._al = 4
        elif t.k == 'x86_fp80': t._sz = t._al = 16
        elif t.k == 'ptr': t._sz = t._al = 8
        elif t.k == 'named':
            u = self.types[t.n]
            self.layout(u)
            t._sz, t._al = u._sz, u._al
        elif t.k in ('arr', 'vec'):
            self.layout(t.e)
            t._sz, t._al = t.e._sz * t.n, t.e._al
        elif t.k == 'struct':
            off, al, offs = 0, 1, []
            for x in t.e:
                self.layout(x)
                a = 1 if t.n == 'packed' else x._al
                off = (off + a - 1) // a * a
                offs.append(off)
                off += x._sz
                al = max(al, a)
            t._sz = (off + al - 1) // al * al
            t._al = al
            t._off = offs
        elif t.k in ('void', 'opaque', 'label', 'metadata'): t._sz, t._al = 0, 1
        else: raise ValueError('layout ' + repr(t))

    def size(self, t):
        self.layout(t)
        return t._sz

    def resolve(self, t):
        while t.k == 'named': t = self.types[t.n]
        return t

    def fieldoff(self, t, i):
        t = self.resolve(t)
        self.layout(t)
        if t.k == 'struct': return t._off[i], t.e[i]
        return self.size(t.e) * i, t.e


class Func:
    def __init__(self):
        self.blocks = {}
        self.order = []


class Ins:
    __slots__ = ('op', 'dst', 'a', 'ty', 'txt', 'x')


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|%"(?:[^"\\]|\\.)*"|@"(?:[^"\\]|\\.)*"|[%@][-\w$.]+|![\w.]*|#\d+|"(?:[^"\\]|\\.)*"|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[(){}\[\]<>,=*:|])''')


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ValueError('lex: %r' % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


PATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'returned', 'signext', 'zeroext', 'noalias', 'inreg',
         'writeonly', 'immarg', 'nofree', 'noreturn', 'nest', 'swiftself', 'writable', 'allocptr', 'allocalign', 'inbounds', 'dead_on_unwind', 'exact'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign'}
LINK = {'private', 'internal', 'linkonce_odr', 'weak_odr', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'external',
        'weak', 'linkonce', 'common', 'hidden', 'comdat', 'thread_local', 'appending', 'available_externally', 'protected', 'noundef', 'default'}


class P:
    def __init__(self, mod, t):
        self.m, self.t, self.i = mod, t, 0

    def pk(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else None
    def nx(self):
        r = self.t[self.i]
        self.i += 1
        return r
    def eat(self, x):
        if self.pk() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        if not self.eat(x): raise ValueError('expected %s got %s in %s' % (x, self.pk(), ' '.join(self.t[:40])))

    def ty(self):
        t = self.nx()
        if t == 'ptr': r = Ty('ptr')
        elif re.fullmatch(r'i\d+', t): r = Ty('i', int(t[1:]))
        elif t in ('double', 'float', 'void', 'label', 'metadata', 'opaque', 'x86_fp80', 'half'): r = Ty(t)
        elif t[0] == '%': r = Ty('named', t)
        elif t in '[<':
            if t == '<' and self.pk() == '{':
                self.nx()
                es = self._list('}')
                self.need('>')
                return Ty('struct', 'packed', es)
            n = int(self.nx())
            self.need('x')
            e = self.ty()
            self.need(']' if t == '[' else '>')
            r = Ty('arr' if t == '[' else 'vec', n, e)
        elif t == '{':
            r = Ty('struct', 0, self._list('}'))
        else: raise ValueError('type %r in %s' % (t, ' '.join(self.t[:30])))
        if self.pk() == '(':  # function type
            d = 0
            while True:
                x = self.nx()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            r = Ty('fn', 0, r)
        return r

    def _list(self, end):
        out = []
        while not self.eat(end):
            out.append(self.ty())
            self.eat(',')
        return out

    def attrs(self):
        r = {}
        while True:
            t = self.pk()
            if t in PATTR: self.nx()
            elif t == 'align': self.nx(); (self.nx() if self.pk() != '(' else self._par())
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'captures', 'range', 'initializes'): self.nx(); self._par()
            elif t in ('sret', 'byval', 'elementtype', 'inalloca', 'byref', 'preallocated'):
                self.nx()
                self.need('(')
                r[t] = self.ty()
                self.need(')')
            else: return r

    def _par(self):
        d = 0
        while True:
            x = self.nx()
            if x == '(': d += 1
            if x == ')':
                d -= 1
                if d == 0: return

    def val(self, ty):
        """operand -> tagged tuple"""
        t = self.nx()
        if t[0] == '%': return ('r', t)
        if t[0] == '@': return ('g', t[1:].strip('"'))
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef', ty)
        if t == 'true': return ('i', 1)
        if t == 'false': return ('i', 0)
        if t == 'zeroinitializer': return ('zero', ty)
        if t == 'none': return ('null',)
        if t[0] == 'c' and t[1:2] == '"': return ('str', unesc(t[2:-1]))
        if t in ('double', 'float') or False: pass
        if ty.k in ('double', 'float', 'x86_fp80'): return ('f', fpconst(t, ty))
        if re.fullmatch(r'-?\d+', t): return ('i', int(t))
        if t in '{[<':
            if t == '<' and self.pk() == '{': self.nx(); end = '}'
            else: end = {'{': '}', '[': ']', '<': '>'}[t]
            out = []
            while not self.eat(end):
                et = self.ty()
                out.append((et, self.val(et)))
                self.eat(',')
            if t == '<' and end == '}': self.need('>')
            return ('agg', out)
        if t == 'getelementptr':
            while self.pk() in ('inbounds', 'nuw', 'nusw'): self.nx()
            if self.pk() == 'inrange': self.nx(); self._par()
            self.need('(')
            bt = self.ty()
            self.need(',')
            ops = []
            while True:
                ot = self.ty()
                ops.append((ot, self.val(ot)))
                if not self.eat(','): break
            self.need(')')
            return ('cgep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.need('(')
            ot = self.ty()
            v = self.val(ot)
            self.need('to')
            tt = self.ty()
            self.need(')')
            return ('ccast', t, ot, v, tt)
        raise ValueError('operand %r (%r)' % (t, ' '.join(self.t[:40])))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fpconst(t, ty):
    if t.startswith('0x'):
        if t[2] in 'KLMHR': return float('nan')
        return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
    return float(t)


CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def parse_ins(m, line):
    tk = toks(line.split(', !dbg')[0])
    # strip trailing metadata
    for k, t in enumerate(tk):
        if t.startswith('!') and k > 0 and tk[k - 1] == ',':
            tk = tk[:k]
            while tk and tk[-1] == ',': tk.pop()
            break
    p = P(m, tk)
    I = Ins()
    I.txt = line
    I.dst = None
    I.x = None
    if len(tk) > 1 and tk[1] == '=':
        I.dst = p.nx()
        p.nx()
    op = p.nx()
    if op in ('tail', 'musttail', 'notail'): op = p.nx()
    I.op = op
    if op in BIN:
        while p.pk() in FMF: p.nx()
        I.ty = p.ty()
        a = p.val(I.ty)
        p.need(',')
        I.a = (a, p.val(I.ty))
    elif op == 'fneg':
        while p.pk() in FMF: p.nx()
        I.ty = p.ty()
        I.a = (p.val(I.ty),)
    elif op in CASTS:
        while p.pk() in FMF: p.nx()
        f = p.ty()
        v = p.val(f)
        p.need('to')
        I.ty = p.ty()
        I.a = (v,)
        I.x = f
    elif op == 'alloca':
        p.eat('inalloca')
        I.ty = p.ty()
        I.a = (('i', 1),)
        if p.eat(','):
            if p.pk() != 'align':
                t = p.ty()
                I.a = (p.val(t),)
    elif op == 'load':
        p.eat('volatile')
        I.ty = p.ty()
        p.need(',')
        t = p.ty()
        I.a = (p.val(t),)
    elif op == 'store':
        p.eat('volatile')
        I.ty = p.ty()
        v = p.val(I.ty)
        p.need(',')
        t = p.ty()
        I.a = (v, p.val(t))
    elif op == 'getelementptr':
        while p.pk() in ('inbounds', 'nuw', 'nusw'): p.nx()
        I.ty = p.ty()
        ops = []
        while p.eat(','):
            t = p.ty()
            ops.append((t, p.val(t)))
        I.a = tuple(ops)
    elif op in ('icmp', 'fcmp'):
        while p.pk() in FMF: p.nx()
        I.x = p.nx()
        I.ty = p.ty()
        a = p.val(I.ty)
        p.need(',')
        I.a = (a, p.val(I.ty))
    elif op in ('call', 'invoke'):
        while p.pk() in FMF or p.pk() in ('fastcc', 'ccc', 'coldcc'): p.nx()
        p.attrs()
        I.ty = p.ty()
        if I.ty.k == 'fn': I.ty = I.ty.e
        if p.pk() == 'asm': raise ValueError('asm')
        callee = p.val(Ty('ptr'))
        p.need('(')
        args = []
        while not p.eat(')'):
            t = p.ty()
            at = p.attrs()
            args.append((t, p.val(t) if t.k != 'metadata' else (p.nx(), ('undef', t))[1], at))
            p.eat(',')
        I.a = (callee, args)
    elif op == 'br':
        if p.eat('label'):
            I.a = (p.nx(),)
        else:
            p.ty()
            c = p.val(Ty('i', 1))
            p.need(','); p.need('label')
            a = p.nx()
            p.need(','); p.need('label')
            I.a = (c, a, p.nx())
    elif op == 'switch':
        t = p.ty()
        v = p.val(t)
        p.need(','); p.need('label')
        d = p.nx()
        p.need('[')
        cs = []
        while not p.eat(']'):
            ct = p.ty()
            cv = p.val(ct)
            p.need(','); p.need('label')
            cs.append((cv[1], p.nx()))
        I.ty = t
        I.a = (v, d, cs)
    elif op == 'ret':
        I.ty = p.ty()
        I.a = () if I.ty.k == 'void' else (p.val(I.ty),)
    elif op == 'phi':
        while p.pk() in FMF: p.nx()
        I.ty = p.ty()
        ins = []
        while True:
            p.need('[')
            v = p.val(I.ty)
            p.need(',')
            l = p.nx()
            p.need(']')
            ins.append((v, l))
            if not p.eat(','): break
        I.a = tuple(ins)
    elif op == 'select':
        while p.pk() in FMF: p.nx()
        ct = p.ty()
        c = p.val(ct)
        p.need(',')
        I.ty = p.ty()
        a = p.val(I.ty)
        p.need(',')
        p.ty()
        I.a = (c, a, p.val(I.ty))
    elif op in ('extractvalue',):
        I.ty = p.ty()
        v = p.val(I.ty)
        ix = []
        while p.eat(','): ix.append(int(p.nx()))
        I.a = (v,)
        I.x = ix
    elif op == 'insertvalue':
        I.ty = p.ty()
        v = p.val(I.ty)
        p.need(',')
        t2 = p.ty()
        w = p.val(t2)
        ix = []
        while p.eat(','): ix.append(int(p.nx()))
        I.a = (v, w)
        I.x = ix
    elif op in ('unreachable', 'fence'):
        I.a = ()
    elif op in ('freeze',):
        I.ty = p.ty()
        I.a = (p.val(I.ty),)
    else:
        I.a = ()
        I.x = 'unsupported'
    return I


def parse(path):
    m = Mod()
    lines = open(path).read().split('\n')
    n = len(lines)
    i = 0
    bodies = []
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, d = l.split(' = type ', 1)
            m.types[nm.strip()] = P(m, toks(d)).ty() if not d.startswith('opaque') else Ty('opaque')
        elif l.startswith('@'):
            nm, d = l.split(' = ', 1)
            nm = nm[1:].strip('"')
            d = re.sub(r', (align \d+|comdat.*|section "[^"]*")', '', d)
            tk = toks(d)
            p = P(m, tk)
            isalias = False
            const = False
            while p.pk() in LINK or p.pk() in ('alias', 'addrspace', 'externally_initialized', 'dllexport'):
                if p.pk() == 'alias': isalias = True
                if p.pk() == 'constant': const = True
                if p.pk() == 'comdat' or p.pk() == 'addrspace':
                    p.nx()
                    if p.pk() == '(': p._par()
                    continue
                p.nx()
            if isalias:
                m.globals[nm] = ('alias', tk[-1].lstrip('@').strip('"'))
            else:
                t = p.ty()
                v = None
                if p.pk() is not None:
                    try: v = p.val(t)
                    except ValueError: v = None
                m.globals[nm] = ('var', t, v, const)
        elif l.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            bodies.append((l, lines[i + 1:j]))
            i = j
        elif l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            m.decls.add(mm.group(1).strip('"'))
        i += 1
    for h, b in bodies:
        f = Func()
        mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
        f.name = mm.group(1).strip('"')
        f.head = h
        f.raw = b
        f.parsed = False
        f.mod = m
        m.funcs[f.name] = f
    return m


def ensure(f):
    if f.parsed: return f
    m = f.mod
    h = f.head
    mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
    e, d = mm.end() - 1, 0
    for e in range(mm.end() - 1, len(h)):
        d += (h[e] == '(') - (h[e] == ')')
        if d == 0: break
    p = P(m, toks(h[mm.end() - 1:e + 1]))
    p.need('(')
    f.params = []
    while not p.eat(')'):
        if p.pk() == '...':
            p.nx()
            continue
        t = p.ty()
        at = p.attrs()
        nm = p.nx() if p.pk() and p.pk()[0] == '%' else None
        f.params.append((t, at, nm))
        p.eat(',')
    k = 0
    for x, (t, at, nm) in enumerate(f.params):
        if nm is None: f.params[x] = (t, at, '%' + str(x))
    cur = None
    unn = sum(1 for t, a, nm in f.params if re.fullmatch(r'%\d+', nm))
    label = '%' + str(unn)
    if f.raw and not re.match(r'^("[^"]*"|[-\w.$]+):', f.raw[0]):
        f.blocks[label] = cur = []
        f.order.append(label)
    buf = None
    for l in f.raw:
        if not l.strip(): continue
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if mm:
            label = '%' + mm.group(1)
            f.blocks[label] = cur = []
            f.order.append(label)
            continue
        s = l.strip()
        if s.startswith(';'): continue
        if buf is not None:
            buf += ' ' + s
            if s.startswith(']'):
                cur.append(buf)
                buf = None
            continue
        if s.startswith('switch') and not s.endswith(']'):
            buf = s
            continue
        cur.append(s)
    for lb in f.order:
        f.blocks[lb] = [parse_ins(m, s) for s in f.blocks[lb]]
    f.parsed = True
    f.entry = f.order[0]
    # natural loops
    succ = {}
    for lb in f.order:
        t = f.blocks[lb][-1]
        succ[lb] = list(t.a[1:]) if t.op == 'br' and len(t.a) == 3 else [t.a[0]] if t.op == 'br' else \
            [t.a[1]] + [x for _, x in t.a[2]] if t.op == 'switch' else []
    dom = {lb: set(f.order) for lb in f.order}
    dom[f.entry] = {f.entry}
    pred = {lb: [q for q in f.order if lb in succ[q]] for lb in f.order}
    ch = True
    while ch:
        ch = False
        for lb in f.order:
            if lb == f.entry: continue
            ps = [dom[q] for q in pred[lb]]
            nd = (set.intersection(*ps) if ps else set()) | {lb}
            if nd != dom[lb]:
                dom[lb] = nd
                ch = True
    f.loops = {}
    for u in f.order:
        for v in succ[u]:
            if v in dom[u]:
                body = f.loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    return f
