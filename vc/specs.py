"""Contracts (what each scenario's records must satisfy), shared by proof and replay."""
from .terms import *
from . import terms as TM
from .prover import Domains
from .exe import itm
from fractions import Fraction as Fr

ROUNDS = (1, 2, 3, 4, 5, 6)


class Spec:
    """base"""
    LOW = {}
    CLOW = {}      # sizes Eigen itself rejects (its LU decompositions of an empty matrix assert) are not replayed
    def domains(self): return Domains()
    def symm(self): return ()
    def sizes(self): return ()
    def low(self, n): return self.LOW.get(n, 0)
    def reals(self): return {}
    def arrays(self): return {}
    def feasible(self, c): return True
    def dimname(self, a): return 'n'
    def rows(self, a, case): return None
    def check(self, c): raise NotImplementedError


def bsum(r, c, f):
    """sum over i<r, j<c of f(i,j)"""
    r, c = itm(r), itm(c)
    def rng_(n, h):
        if n is ONE: return ZERO
        return fresh_idx(n, h)
    i, j = rng_(r, 'a'), rng_(c, 'b')
    v = f(i, j)
    if r is not ONE: v = mk_sum(i, r, v)
    if c is not ONE: v = mk_sum(j, c, v)
    return v


class NodeSpec(Spec):
    """One expression node over arbitrary children.
    shapes: child id -> (row size name or int, column size name or int)
    ret:    function c -> (rows, cols)
    value:  function (c, V, i, j) -> term, V[id](i, j) the child's value this round
    kinds:  child id -> domain kind of its values"""
    def __init__(self, shapes, ret, value, mode='s', kinds=None, seedkind='any', guard=None, grad=None, low=None, symm_ids=(), optional=(), nofeval=(),
                 extra=None, order=True, consts=None, used=None, preserve=True, fills=None, more=None, visit=True):
        self.shapes, self.retf, self.value, self.mode = shapes, ret, value, mode
        self.kinds = kinds or {}
        self.guard, self.gradf = guard, grad
        self.LOW = low or {}
        self.symm_ids = symm_ids
        self.optional = optional
        self.nofeval = nofeval
        self.extra = extra
        self.order = order
        self.consts = consts or {}     # constant arrays: name -> (rowname, colname, kind)
        self.used = used               # function (c, V, id) -> condition under which child id takes part
        self.preserve = preserve
        self.fills = fills or {}       # per-round arrays: letter -> (rowname, colname, kind)
        self.more = more or {}         # extra records: label -> (aspect, dims, function c, V, S, i, j)
        self.visit = visit

    def names(self):
        return ['V%d_%d' % (k, r) for k in self.shapes for r in ROUNDS]

    def domains(self):
        d = Domains()
        for k, (r, c) in self.shapes.items():
            for rd in ROUNDS:
                nm = 'V%d_%d' % (k, rd)
                if k in self.kinds: d.kind[nm] = self.kinds[k]
                d.dims[nm] = (self.dim(r), self.dim(c))
        for nm, (r, c, kd) in self.consts.items():
            d.kind[nm] = kd
            d.dims[nm] = (self.dim(r), self.dim(c))
        for nm, (r, c, kd) in self.fills.items():
            for rd in ROUNDS:
                d.kind['%s0_%d' % (nm, rd)] = kd
                d.dims['%s0_%d' % (nm, rd)] = (self.dim(r), self.dim(c))
        return d

    def dim(self, x): return num(x) if isinstance(x, int) else zsym('n$' + x) + self.low(x)

    def symm(self):
        return ['V%d_%d' % (k, r) for k in self.symm_ids for r in ROUNDS] + [n for n, (r, c, kd) in self.consts.items() if kd in ('spd', 'sym')]

    def sizes(self):
        s = []
        for k, (r, c) in self.shapes.items():
            for x in (r, c):
                if isinstance(x, str) and x not in s: s.append(x)
            s += ['kv%d' % k, 'ka%d' % k]
        for nm, (r, c, kd) in list(self.consts.items()) + list(self.fills.items()):
            for x in (r, c):
                if isinstance(x, str) and x not in s: s.append(x)
        return s

    def reals(self): return {'seed': 'any'}

    def arrays(self):
        a = {}
        for k in self.shapes:
            for rd in ROUNDS: a['V%d_%d' % (k, rd)] = self.kinds.get(k, 'any')
        for rd in ROUNDS: a['S0_%d' % rd] = 'any'
        for nm, (r, c, kd) in self.consts.items(): a[nm] = kd
        for nm, (r, c, kd) in self.fills.items():
            for rd in ROUNDS: a['%s0_%d' % (nm, rd)] = kd
        return a

    def dimname(self, a):
        if a in self.consts: return self.consts[a][0]
        return self.shapes[int(a[1:].split('_')[0])][0]

    def rows(self, a, case):
        if a in self.consts: x = self.consts[a][0]
        elif a[0] in self.fills: x = self.fills[a[0]][0]
        elif a.startswith('V'): x = self.shapes[int(a[1:].split('_')[0])][0]
        else: return None
        return x if isinstance(x, int) else case.sizes.get(x)

    def d(self, c, x): return num(x) if isinstance(x, int) else c.sz(x)

    def seed(self, c, r):
        if self.mode == 's': return lambda i, j: c.real('seed')
        return c.A('S0_%d' % r)

    def check(self, c):
        for r in c.rounds: self.check_round(c, r)

    def V(self, c, r):
        v = {k: c.A('V%d_%d' % (k, r)) for k in self.shapes}
        for f in self.fills: v[f] = c.A('%s0_%d' % (f, r))
        return v

    def check_round(self, c, r):
        V = self.V(c, r)
        dims = self.retf(c)
        F = lambda i, j: self.value(c, V, i, j)
        tag = 'evaluation %d: ' % min(r, 2) if c.symbolic else 'evaluation %d: ' % r
        recs = {}
        for e in c.events(r):
            if e[0] == 'rec': recs.setdefault((e[1].label, e[1].id), []).append(e[1])
        g = self.guard(c, V) if self.guard else None
        for lab, desc, asp in (('ret', 'returned value', 'value'), ('get', 'stored value', 'value'), ('data', 'value in the bound storage', 'value'),
                               ('after', 'value after back-propagation', 'kept')):
            if lab == 'after' and not self.preserve: continue
            for x in recs.get((lab, 0), []):
                if lab == 'after':
                    for y in recs.get(('ret', 0), [])[:1]: c.eq(asp, tag + desc + ' is the value returned', x, (y.r, y.c), y.at)
                    continue
                c.eq(asp, tag + desc + ' is the mathematical value', x, dims, F)
        # events
        evs = c.events(r)
        fw = [e for e in evs[:next((n for n, e in enumerate(evs) if e == ('backward', 0)), len(evs))]]
        bw = evs[len(fw):]
        fe = [e[1] for e in fw if e[0] == 'feval']
        be = [e[1] for e in bw if e[0] == 'beval']
        c.check('order', tag + 'no back-propagation during forward evaluation', not any(e[0] == 'beval' for e in fw))
        c.check('order', tag + 'no forward evaluation during back-propagation', not any(e[0] == 'feval' for e in bw))
        for k in self.shapes:
            nf, nb = fe.count(k), be.count(k)
            u = self.used(c, V, k) if self.used else TRUE
            if u is TRUE:
                c.check('order', tag + 'operand %d is evaluated exactly once' % k, nf == 1)
            else:
                c.check('order', tag + 'operand %d is evaluated exactly when selected' % k, (bnot(u) if nf == 0 else u if nf == 1 else FALSE))
            if u is TRUE and (self.visit is True or self.visit and k in self.visit): c.check('order', tag + 'operand %d is back-propagated exactly once' % k, nb == 1)
            else: c.check('order', tag + 'operand %d is back-propagated at most once' % k, nb <= 1)
        if self.order:
            pos = {k: fe.index(k) for k in set(fe)}
            seq = [pos[k] for k in be if k in pos]
            c.check('order', tag + 'operands are back-propagated in reverse order of evaluation', all(a > b for a, b in zip(seq, seq[1:])))
            c.check('order', tag + 'only evaluated operands are back-propagated', all(k in pos for k in be))
        # gradients
        S = self.seed(c, r)
        for k, (kr, kc) in self.shapes.items():
            kd = (self.d(c, kr), self.d(c, kc))
            nm = 'V%d_%d' % (k, r)
            if self.gradf and k in self.gradf:
                G = (lambda k: lambda a, b: self.gradf[k](c, V, S, a, b))(k)
            else:
                G = lambda a, b: bsum(dims[0], dims[1], lambda i, j: S(i, j) * diff_sel(F(i, j), nm, a, b))
            for x in recs.get(('child value kept', k), []):
                c.eq('kept', tag + 'operand %d still has its value when back-propagated' % k, x, kd, lambda i, j: V[k](i, j))
            ss = recs.get(('seed', k), [])
            if ss:
                for x in ss: c.eq('grad', tag + 'adjoint passed to operand %d is seed times derivative' % k, x, kd, G)
            else:
                if c.symbolic:
                    z = self.zero_rec()
                    c.eq('grad', tag + 'operand %d gets no adjoint only if its derivative is zero' % k, z, kd, G)
                else:
                    class Z: pass
                    z = Z(); z.scalar = True; z.f = [0.0]; z.r = z.c = 1
                    c.eq('grad', tag + 'operand %d gets no adjoint only if its derivative is zero' % k, z, kd, G)
        for lab, (asp, dm, F2) in self.more.items():
            for x in [e[1] for e in evs if e[0] == 'rec' and e[1].label == lab]:
                c.eq(asp, tag + lab, x, dm(c), lambda i, j: F2(c, V, S, i, j))
        if self.extra: self.extra(self, c, r, V, S, recs, tag)

    def zero_rec(self):
        class Z: pass
        z = Z()
        z.scalar = True
        z.r = z.c = 1
        z.f = lambda i, j: ZERO
        return z


SHAPE = {'scl': (1, 1), 'vec': ('n', 1), 'mat': ('n', 'm')}


def same(shape):
    def f(c):
        r, k = SHAPE[shape]
        return (num(r) if isinstance(r, int) else c.sz(r), num(k) if isinstance(k, int) else c.sz(k))
    return f


def A1(fn): return lambda x: app(fn, (x,))


UNARY = {
    'sin': (A1('sin'), 'any'), 'cos': (A1('cos'), 'any'), 'tan': (A1('tan'), 'cosnz'), 'asin': (A1('asin'), 'unit'), 'acos': (A1('acos'), 'unit'),
    'atan': (A1('atan'), 'any'), 'exp': (A1('exp'), 'any'), 'log': (A1('log'), 'pos'), 'sqrt': (lambda x: powq(x, Fr(1, 2)), 'pos'),
    'erf': (A1('erf'), 'any'), 'tanh': (A1('tanh'), 'any'), 'sinh': (A1('sinh'), 'any'), 'cosh': (A1('cosh'), 'any'),
    'sigmoid': (lambda x: ONE / (ONE + app('exp', (-x,))), 'any'), 'neg': (lambda x: -x, 'any')}


def unary_specs():
    out = {}
    for f, (fn, kd) in UNARY.items():
        for s in ('scl', 'vec', 'mat'):
            for m in ('s', 'a', 'o'):
                if s == 'scl' and m == 'a': continue
                out['%s_%s_%s' % (f, s, m)] = NodeSpec({1: SHAPE[s]}, same(s), (lambda fn: lambda c, V, i, j: fn(V[1](i, j)))(fn), m, {1: kd})
    return out


# ------------------------------------------------------------------ binary
SH = {'S': 'scl', 'V': 'vec', 'M': 'mat'}
BINF = {
    'add': (lambda x, y: x + y, None), 'sub': (lambda x, y: x - y, None), 'mul': (lambda x, y: x * y, None),
    'div': (lambda x, y: x / y, 'nonzero'),
    'lt': (lambda x, y: br(lt(x, y)), None), 'le': (lambda x, y: br(le(x, y)), None), 'gt': (lambda x, y: br(gt(x, y)), None),
    'ge': (lambda x, y: br(ge(x, y)), None), 'eq': (lambda x, y: br(eq(x, y)), None), 'ne': (lambda x, y: br(ne(x, y)), None),
    'and': (lambda x, y: x * y, 'bool'), 'or': (lambda x, y: x + y - x * y, 'bool')}
CPPOP = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'and': '&&', 'or': '||'}


def at(f, s):
    """element access of an operand of shape s, broadcasting a scalar"""
    return (lambda i, j: f(ZERO, ZERO)) if s == 'S' else (lambda i, j: f(i, ZERO)) if s == 'V' else f


def big(a, b): return a if 'SVM'.index(a) >= 'SVM'.index(b) else b


class KSpec(NodeSpec):
    """adds a real constant K to the inputs"""
    Kkind = 'any'
    def reals(self): return {'seed': 'any', 'K': self.Kkind}
    def domains(self):
        d = NodeSpec.domains(self)
        d.symkind['K'] = self.Kkind
        return d


def binary_specs(ops):
    out = {}
    zero = lambda c, V, S, a, b: ZERO
    def NodeSpec(*a, **k):        # comparisons and logical operators are piecewise constant
        if ops[0] not in ('add', 'sub', 'mul', 'div'): k.update(grad={1: zero, 2: zero}, visit=())
        return globals()['NodeSpec'](*a, **k)
    def KSpec(*a, **k):
        if ops[0] not in ('add', 'sub', 'mul', 'div'): k.update(grad={1: zero, 2: zero}, visit=())
        return globals()['KSpec'](*a, **k)
    for nm in ops:
        f, kd = BINF[nm]
        kl = 'bool' if kd == 'bool' else 'any'
        kr = kd or 'any'
        for L, R in ('SS', 'SV', 'VS', 'VV', 'SM', 'MS', 'MM'):
            for m in 'soa':
                if m == 'a' and L + R == 'SS': continue
                out['%s_%s%s%s' % (nm, L, R, m)] = NodeSpec({1: SHAPE[SH[L]], 2: SHAPE[SH[R]]}, same(SH[big(L, R)]),
                    (lambda f, L, R: lambda c, V, i, j: f(at(V[1], L)(i, j), at(V[2], R)(i, j)))(f, L, R), m, {1: kl, 2: kr})
        for L in 'SVM':
            kc = 1 if kd == 'bool' else 3
            if True:
                for suf, mode, fn in (('%sks' % L, 's', lambda f, L: lambda c, V, i, j: f(at(V[1], L)(i, j), c.real('K'))),
                                      ('%sio' % L, 'o', lambda f, L: lambda c, V, i, j: f(at(V[1], L)(i, j), num(3))),
                                      ('k%so' % L, 'o', lambda f, L: lambda c, V, i, j: f(c.real('K'), at(V[1], L)(i, j))),
                                      ('i%ss' % L, 's', lambda f, L: lambda c, V, i, j: f(num(3), at(V[1], L)(i, j)))):
                    if kd == 'bool' and 'i' in suf: continue
                    left = suf[0] in 'SVM'
                    sp = KSpec({1: SHAPE[SH[L]]}, same(SH[L]), fn(f, L), mode, {1: kl if left else kr})
                    sp.Kkind = kr if left else kl
                    out['%s_%s' % (nm, suf)] = sp
        for L in 'SV':
            for suf, mode, fn in (('%sws' % L, 's', lambda f, L: lambda c, V, i, j: f(at(V[1], L)(i, j), c.A('K')(i, ZERO))),
                                  ('w%sa' % L, 'a', lambda f, L: lambda c, V, i, j: f(c.A('K')(i, ZERO), at(V[1], L)(i, j))),
                                  ('%szs' % L, 'a', lambda f, L: lambda c, V, i, j: f(at(V[1], L)(i, j), c.A('K')(i, ZERO)))):
                left = suf[0] in 'SVM'
                out['%s_%s' % (nm, suf)] = NodeSpec({1: SHAPE[SH[L]]}, same('vec'), fn(f, L), mode, {1: kl if left else kr}, consts={'K': ('n', 1, kr if left else kl)})
        for L in 'SM':
            for suf, mode, fn in (('%sxs' % L, 's', lambda f, L: lambda c, V, i, j: f(at(V[1], L)(i, j), c.A('K')(i, j))),
                                  ('x%sa' % L, 'a', lambda f, L: lambda c, V, i, j: f(c.A('K')(i, j), at(V[1], L)(i, j)))):
                left = suf[0] in 'SVM'
                out['%s_%s' % (nm, suf)] = NodeSpec({1: SHAPE[SH[L]]}, same('mat'), fn(f, L), mode, {1: kl if left else kr}, consts={'K': ('n', 'm', kr if left else kl)})
    return out


def arith_specs(): return binary_specs(['add', 'sub', 'mul', 'div'])
def cmp_specs(): return binary_specs(['lt', 'le', 'gt', 'ge', 'eq', 'ne'])
def logic_specs(): return binary_specs(['and', 'or'])


# ------------------------------------------------------------------ reductions, linear algebra
def dimt(c, x): return num(x) if isinstance(x, int) else c.sz(x)


def scalar(c): return (ONE, ONE)


def reduce_specs():
    out = {}
    for s in 'SVM':
        r, k = SHAPE[SH[s]]
        for m in 'so':
            out['sum_%s_%s' % (s, m)] = NodeSpec({1: (r, k)}, scalar, (lambda r, k: lambda c, V, i, j: bsum(dimt(c, r), dimt(c, k), V[1]))(r, k), m)
            out['prod_%s_%s' % (s, m)] = NodeSpec({1: (r, k)}, scalar, (lambda r, k: lambda c, V, i, j: bprod(dimt(c, r), dimt(c, k), V[1]))(r, k), m)
    return out


def bprod(r, c, f):
    r, c = itm(r), itm(c)
    i = ZERO if r is ONE else fresh_idx(r, 'a')
    j = ZERO if c is ONE else fresh_idx(c, 'b')
    v = f(i, j)
    if r is not ONE: v = mk_prod(i, r, v)
    if c is not ONE: v = mk_prod(j, c, v)
    return v


def matmul(c, A, B, m):
    def f(i, j):
        k = fresh_idx(c.sz(m), 'k')
        return mk_sum(k, c.sz(m), A(i, k) * B(k, j))
    return f


def linalg_specs():
    out = {}
    def add(nm, modes, *a, **k):
        for m in modes: out['%s_%s' % (nm, m)] = NodeSpec(*a, mode=m, **k)
    d = lambda *x: (lambda c: tuple(dimt(c, y) for y in x))
    add('dot_MV', 'soa', {1: ('n', 'm'), 2: ('m', 1)}, d('n', 1), lambda c, V, i, j: matmul(c, V[1], V[2], 'm')(i, j))
    add('dot_MM', 'soa', {1: ('n', 'm'), 2: ('m', 'k')}, d('n', 'k'), lambda c, V, i, j: matmul(c, V[1], V[2], 'm')(i, j))
    add('dot_kMV', 'soa', {2: ('m', 1)}, d('n', 1), lambda c, V, i, j: matmul(c, c.A('K'), V[2], 'm')(i, j), consts={'K': ('n', 'm', 'any')})
    add('dot_kMM', 'soa', {2: ('m', 'k')}, d('n', 'k'), lambda c, V, i, j: matmul(c, c.A('K'), V[2], 'm')(i, j), consts={'K': ('n', 'm', 'any')})
    add('dot_Mkv', 'soa', {1: ('n', 'm')}, d('n', 1), lambda c, V, i, j: matmul(c, V[1], c.A('K'), 'm')(i, j), consts={'K': ('m', 1, 'any')})
    add('dot_Mkz', 'soa', {1: ('n', 'm')}, d('n', 1), lambda c, V, i, j: matmul(c, V[1], c.A('K'), 'm')(i, j), consts={'K': ('m', 1, 'any')})
    add('dot_Mkm', 'soa', {1: ('n', 'm')}, d('n', 'k'), lambda c, V, i, j: matmul(c, V[1], c.A('K'), 'm')(i, j), consts={'K': ('m', 'k', 'any')})
    add('tr_V', 'soa', {1: ('n', 1)}, d(1, 'n'), lambda c, V, i, j: V[1](j, i))
    add('tr_M', 'soa', {1: ('n', 'm')}, d('m', 'n'), lambda c, V, i, j: V[1](j, i))
    add('norm_V', 'so', {1: ('n', 1)}, scalar, lambda c, V, i, j: bsum(c.sz('n'), ONE, lambda a, b: V[1](a, b) * V[1](a, b)))
    add('norm_M', 'so', {1: ('n', 'm')}, scalar, lambda c, V, i, j: bsum(c.sz('n'), c.sz('m'), lambda a, b: V[1](a, b) * V[1](a, b)))
    return out


KPOWS = (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 11)
POWS = (-16, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32)


def pow_specs():
    out = {}
    for e in POWS:
        nm = str(e).replace('-', 'm')
        for s in 'SVM':
            for m in ('so' if s == 'S' else 'soa'):
                out['pow_%s_%s_%s' % (nm, s, m)] = NodeSpec({1: SHAPE[SH[s]]}, same(SH[s]), (lambda e: lambda c, V, i, j: powi(V[1](i, j), e))(e), m,
                                                            {1: 'nonzero' if e < 0 else 'any'})
    return out


def powi(x, e):
    r = ONE
    for _ in range(abs(e)): r = r * x
    return r if e >= 0 else ONE / r


class K2Spec(KSpec):
    def reals(self): return {'seed': 'any', 'K': 'any', 'L': 'any'}


def if_specs():
    out = {}
    def add(nm, sh, kids, a, b, consts=None, cond=None):
        shapes = {k: SHAPE[SH[s]] for k, s in kids.items()}
        cond = cond or (lambda c, V: ne(V[1](ZERO, ZERO), ZERO))
        def used(c, V, k):
            if k == 1: return TRUE
            return cond(c, V) if k == 2 else bnot(cond(c, V))
        def grad(k):
            def g(c, V, S, x, y):
                if k == 1: return ZERO
                q = cond(c, V)
                full = lambda: (S(x, y) if True else None)
                return ite(q, full(), ZERO) if k == 2 else ite(q, ZERO, full())
            return g
        cls = K2Spec
        for m in ('so' if sh == 'S' else 'soa'):
            out['%s_%s' % (nm, m)] = cls(shapes, same(SH[sh]), (lambda a, b: lambda c, V, i, j: ite(cond(c, V), a(c, V)(i, j), b(c, V)(i, j)))(a, b), m, consts=consts or {},
                                         used=used, grad={k: grad(k) for k in kids}, visit=())
    v = lambda k: (lambda c, V: V[k])
    kA = lambda n: (lambda c, V: c.A(n))
    kv = lambda n: (lambda c, V: (lambda i, j: c.A(n)(i, ZERO)))
    kr = lambda n: (lambda c, V: (lambda i, j: c.real(n)))
    for s in 'SVM': add('if_' + s, s, {1: 'S', 2: s, 3: s}, v(2), v(3))
    add('if_Sk', 'S', {1: 'S', 2: 'S'}, v(2), kr('K'))
    add('if_kS', 'S', {1: 'S', 3: 'S'}, kr('K'), v(3))
    add('if_Vk', 'V', {1: 'S', 2: 'V'}, v(2), kv('K'), {'K': ('n', 1, 'any')})
    add('if_kV', 'V', {1: 'S', 3: 'V'}, kv('K'), v(3), {'K': ('n', 1, 'any')})
    add('if_Mk', 'M', {1: 'S', 2: 'M'}, v(2), kA('K'), {'K': ('n', 'm', 'any')})
    add('if_kM', 'M', {1: 'S', 3: 'M'}, kA('K'), v(3), {'K': ('n', 'm', 'any')})
    add('if_kSS', 'S', {2: 'S', 3: 'S'}, v(2), v(3), cond=lambda c, V: ne(c.real('K'), ZERO))
    add('if_cmp', 'V', {1: 'S', 2: 'V', 3: 'V'}, v(2), v(3), cond=lambda c, V: lt(V[1](ZERO, ZERO), ZERO))
    add('if_kkV', 'V', {1: 'S'}, kv('K'), kv('L'), {'K': ('n', 1, 'any'), 'L': ('n', 1, 'any')})
    add('if_kkS', 'S', {1: 'S'}, kr('K'), kr('L'))
    return out


def det_specs():
    out = {}
    def lam(f):
        i, j = fresh_idx(None, 'i'), fresh_idx(None, 'j')
        return lam2(f(i, j), i, j)
    for nm, log_, kd in (('det_lu', 0, 'invertible'), ('det_ldlt', 0, 'spd'), ('det_llt', 0, 'spd'), ('det_def', 0, 'invertible'),
                         ('ldet_lu', 1, 'invertible'), ('ldet_ldlt', 1, 'spd'), ('ldet_llt', 1, 'spd'), ('ldet_def', 1, 'invertible')):
        def value(c, V, i, j, log_=log_):
            d = mk_det(c.sz('n'), lam(V[1]))
            return app('log', (tabs(d),)) if log_ else d
        def grad(c, V, S, a, b, log_=log_):
            n, L = c.sz('n'), lam(V[1])
            g = S(ZERO, ZERO) * mk_inv(n, L, b, a)
            return g if log_ else g * mk_det(n, L)
        for m in 'so':
            out['%s_%s' % (nm, m)] = NodeSpec({1: ('n', 'n')}, scalar, value, m, {1: kd}, grad={1: grad}, symm_ids=(1,) if kd == 'spd' else (), visit=())
            if kd != 'spd': out['%s_%s' % (nm, m)].CLOW = {'n': 1}
    return out


# ------------------------------------------------------------------ statements
def z2(f): return lambda i, j: f(ZERO, ZERO)


def stmt_specs():
    out = {}
    W = lambda s: {'W': SHAPE[s] + ('any',), 'A': SHAPE[s] + ('any',)}
    def more(s, val): return {'variable value': ('value', same(s), lambda c, V, S, i, j: val(c, V, i, j))}
    g = {1: lambda c, V, S, a, b: V['A'](a, b) + S(a, b)}
    for L in 'SVM':
        s = SH[L]
        for m in ('so' if L == 'S' else 'soa'):
            f = lambda c, V, i, j: V[1](i, j)
            out['eq_%s_%s' % (L, m)] = NodeSpec({1: SHAPE[s]}, same(s), f, m, grad=g, fills=W(s), more=more(s, f))
    for L, m in ('Ss', 'Va', 'Ms'):
        s = SH[L]
        f = lambda c, V, i, j: V[1](i, j)
        mm = dict(more(s, f))
        mm['outer variable value'] = mm['variable value']
        out['eq_chain_%s_%s' % (L, m)] = NodeSpec({1: SHAPE[s]}, same(s), f, m, grad={1: lambda c, V, S, a, b: V['A'](a, b) + V['B'](a, b) + S(a, b)},
                                                  fills={'B': SHAPE[s] + ('any',), **W(s)}, more=mm)
    def const(nm, s, f, m, consts):
        out[nm] = KSpec({}, same(s), f, m, fills=W(s), more=more(s, f), consts=consts)
    const('eq_Sk_s', 'scl', lambda c, V, i, j: c.real('K'), 's', {})
    const('eq_Si_s', 'scl', lambda c, V, i, j: num(3), 's', {})
    kv, km = {'K': ('n', 1, 'any')}, {'K': ('n', 'm', 'any')}
    fv, fm = (lambda c, V, i, j: c.A('K')(i, ZERO)), (lambda c, V, i, j: c.A('K')(i, j))
    const('eq_Vk_s', 'vec', fv, 's', kv)
    const('eq_Vz_a', 'vec', fv, 'a', kv)
    const('eq_Mk_s', 'mat', fm, 's', km)
    const('eq_Mz_a', 'mat', fm, 'a', km)
    for L in 'SVM':
        for R in 'SVM':
            for m in ('so' if R == 'S' else 'soa'):
                out['glue_%s%s_%s' % (L, R, m)] = NodeSpec({1: SHAPE[SH[L]], 2: SHAPE[SH[R]]}, same(SH[R]), lambda c, V, i, j: V[2](i, j), m)
    out['glue3_V_a'] = NodeSpec({1: SHAPE['vec'], 2: SHAPE['scl'], 3: SHAPE['vec']}, same('vec'), lambda c, V, i, j: V[3](i, j), 'a')
    out['glue3_S_o'] = NodeSpec({1: SHAPE['vec'], 2: SHAPE['mat'], 3: SHAPE['scl']}, same('scl'), lambda c, V, i, j: V[3](i, j), 'o')
    out['glue_kV_a'] = NodeSpec({2: SHAPE['vec']}, same('vec'), lambda c, V, i, j: V[2](i, j), 'a')
    return out


def openq_specs():
    out = {}
    D = {'add': (lambda x, y: ONE, lambda x, y: ONE), 'sub': (lambda x, y: ONE, lambda x, y: -ONE),
         'mul': (lambda x, y: y, lambda x, y: x), 'div': (lambda x, y: ONE / y, lambda x, y: -x / (y * y))}
    for nm in ('add', 'sub', 'mul', 'div'):
        f = BINF[nm][0]
        kd = 'nonzero' if nm == 'div' else 'any'
        dl, dr = D[nm]
        def mk(w, r, R, m, consts=None, kreal=False, f=f, dl=dl, dr=dr, kd=kd):
            s = SH[w]
            def y(c, V, i, j):
                if kreal: return c.real('K')
                if consts: return c.A('K')(i, j if w == 'M' else ZERO)
                return at(V[1], R)(i, j)
            val = lambda c, V, i, j: f(V['W'](i, j), y(c, V, i, j))
            tot = lambda V, S, i, j: V['A'](i, j) + S(i, j)
            def g(c, V, S, a, b):
                e = lambda i, j: tot(V, S, i, j) * dr(V['W'](i, j), y(c, V, i, j))
                if R == w: return e(a, b)
                return bsum(dimt(c, SHAPE[s][0]), dimt(c, SHAPE[s][1]), e)
            more = {'variable value': ('value', same(s), lambda c, V, S, i, j: val(c, V, i, j)),
                    'variable adjoint': ('grad', same(s), lambda c, V, S, i, j: tot(V, S, i, j) * dl(V['W'](i, j), y(c, V, i, j)) + (V['B'](i, j) if R else ZERO)),
                    'variable after': ('kept', same(s), lambda c, V, S, i, j: V['W'](i, j)),
                    'variable seen by operand': ('kept', same(s), lambda c, V, S, i, j: V['W'](i, j))}
            sp = KSpec({1: SHAPE[SH[R]]} if R else {}, same(s), val, m, {1: kd} if R else {}, grad={1: g}, fills={'W': SHAPE[s] + ('any',), 'A': SHAPE[s] + ('any',), **({'B': SHAPE[s] + ('any',)} if R else {})},
                       more=more, consts=consts)
            sp.Kkind = kd
            return sp
        for w, R in ('SS', 'VS', 'VV', 'MS', 'MM'):
            for m in ('so' if w == 'S' else 'soa'): out['%se_%s%s_%s' % (nm, w, R, m)] = mk(w, None, R, m)
        out[nm + 'e_Sk_s'] = mk('S', None, None, 's', kreal=True)
        out[nm + 'e_Vk_a'] = mk('V', None, None, 'a', kreal=True)
        out[nm + 'e_Vw_a'] = mk('V', None, None, 'a', {'K': ('n', 1, kd)})
        out[nm + 'e_Vz_s'] = mk('V', None, None, 's', {'K': ('n', 1, kd)})
        out[nm + 'e_Mx_o'] = mk('M', None, None, 'o', {'K': ('n', 'm', kd)})
    return out


# ------------------------------------------------------------------ ranges of expressions
def range_specs(which):
    out = {}
    for s, ns in (('S', (0, 1, 2, 3, 4, 8, 17)), ('V', (1, 2, 3, 7)), ('M', (1, 2, 3, 5))):
        for n in ns:
            l = 'l' if n > 4 or (s == 'M' and n > 3) else ''
            kd = {k: 'pos' for k in range(1, n + 1)} if l else None
            for m in ('so' if s == 'S' else 'soa'):
                sh = {k: SHAPE[SH[s]] for k in range(1, n + 1)}
                def fsum(c, V, i, j, n=n):
                    r = ZERO
                    for k in range(1, n + 1): r = r + V[k](i, j)
                    return r
                def fprod(c, V, i, j, n=n):
                    r = ONE
                    for k in range(1, n + 1): r = r * V[k](i, j)
                    return r
                if which == 'red':
                    out['rsum%s_%s%d_%s' % (l, s, n, m)] = NodeSpec(sh, same(SH[s]), fsum, m)
                    if not l or s == 'S': out['rprod%s_%s%d_%s' % (l, s, n, m)] = NodeSpec(sh, same(SH[s]), fprod, m, kinds=kd)
                elif n: out['fe%s_%s%d_%s' % (l, s, n, m)] = NodeSpec(sh, same(SH[s]), (lambda n: lambda c, V, i, j: V[n](i, j))(n), m)
    return out


def rred_specs(): return range_specs('red')
def rfe_specs(): return range_specs('fe')


# ------------------------------------------------------------------ variables
class RecSpec(Spec):
    """records with a given label must equal a given function; no evaluation rounds
    exp: label -> (aspect, dims function, F(c, i, j))"""
    def __init__(self, exp, sizes=(), arrays=None, reals=None, low=None, need=(), dom=None):
        self.exp, self._s, self._a, self._r, self.LOW, self.need = exp, sizes, arrays or {}, reals or {}, low or {}, need
    def domains(self):
        d = Domains()
        for n, (r, c, kd) in self._a.items():
            d.kind[n] = kd
            d.dims[n] = (self.dim(r), self.dim(c))
        for n, kd in self._r.items(): d.symkind[n] = kd
        return d
    def dim(self, x):
        if isinstance(x, tuple): return self.dim(x[0]) + self.dim(x[1])
        return num(x) if isinstance(x, int) else zsym('n$' + x) + self.low(x)
    def sizes(self): return self._s
    def reals(self): return self._r
    def arrays(self): return {n: kd for n, (r, c, kd) in self._a.items()}
    def dimname(self, a): return self._a[a][0]
    def rows(self, a, case):
        x = self._a[a][0]
        f = lambda y: y if isinstance(y, int) else case.sizes.get(y, 0)
        return f(x[0]) + f(x[1]) if isinstance(x, tuple) else f(x)
    def check(self, c):
        seen = set()
        for e in c.ev:
            if e[0] != 'rec': continue
            x = e[1]
            if x.label not in self.exp:
                c.check('contract', 'unexpected record ' + x.label, False)
                continue
            seen.add(x.label)
            asp, dm, F = self.exp[x.label]
            c.eq(asp, x.label, x, dm(c), lambda i, j: F(c, i, j))
        for l in self.need: c.check('contract', l + ' observed', l in seen)


def leaf_specs():
    out = {}
    for L in 'SVM':
        s = SH[L]
        for m in ('s' if L == 'S' else 'sa'):
            f = lambda c, V, i, j: V['W'](i, j)
            more = {'variable value': ('value', same(s), lambda c, V, S, i, j: V['W'](i, j)), 'variable after': ('kept', same(s), lambda c, V, S, i, j: V['W'](i, j)),
                    'variable adjoint': ('grad', same(s), lambda c, V, S, i, j: V['A'](i, j) + S(i, j))}
            out['leaf_%s_%s' % (L, m)] = NodeSpec({}, same(s), f, m, fills={'W': SHAPE[s] + ('any',), 'A': SHAPE[s] + ('any',)}, more=more)
    return out


def var_specs():
    out = {}
    def al(n): return lambda c, i, j: c.A(n)(i, j)
    for L in 'SVM':
        s = SH[L]
        exp = {n + ' value': ('value', same(s), al(n)) for n in 'PRU'}
        exp.update({n + ' adjoint': ('grad', same(s), al(n)) for n in 'QTW'})
        exp.update({'zero value': ('value', same(s), lambda c, i, j: ZERO), 'zero adjoint': ('grad', same(s), lambda c, i, j: ZERO),
                    'one value': ('value', same(s), lambda c, i, j: ONE), 'one adjoint': ('grad', same(s), lambda c, i, j: ONE)})
        arr = {n: SHAPE[s] + ('any',) for n in 'PQRTUW'}
        sz = {'S': (), 'V': ('n',), 'M': ('n', 'm')}[L]
        for nm in ('var_init', 'var_copy', 'var_assign', 'var_self', 'var_move', 'var_moveassign', 'var_return', 'view_alias', 'view_rebind', 'const_access', 'view_ptr', 'reset', 'zero_adj', 'ones_adj', 'zero_ones'):
            out['%s_%s' % (nm, L)] = RecSpec(exp, sz, arr)
    K = lambda c, i, j: c.real('K')
    sc = {'K value': ('value', scalar, K), 'zero adjoint': ('grad', scalar, lambda c, i, j: ZERO), 'one value': ('value', scalar, lambda c, i, j: ONE),
          'two': ('value', scalar, lambda c, i, j: num(2)), 'three': ('value', scalar, lambda c, i, j: num(3)), 'P value': ('value', scalar, al('P')), 'Q adjoint': ('grad', scalar, al('Q'))}
    out['var_scalar'] = RecSpec(sc, reals={'K': 'any'})
    out['vec_of_var'] = RecSpec(sc, reals={'K': 'any'})
    out['elem_S'] = RecSpec(sc, arrays={'P': (1, 1, 'any'), 'Q': (1, 1, 'any')})
    last = lambda c: c.sz('n') - 1
    lastm = lambda c: c.sz('m') - 1
    out['elem_V'] = RecSpec({'last of P': ('value', scalar, lambda c, i, j: c.A('P')(last(c), ZERO)), 'last of Q': ('grad', scalar, lambda c, i, j: c.A('Q')(last(c), ZERO))},
                            ('n',), {'P': ('n', 1, 'any'), 'Q': ('n', 1, 'any')}, low={'n': 1})
    out['elem_M'] = RecSpec({'corner of P': ('value', scalar, lambda c, i, j: c.A('P')(last(c), lastm(c))), 'corner of Q': ('grad', scalar, lambda c, i, j: c.A('Q')(last(c), lastm(c))),
                             'first of P': ('value', scalar, lambda c, i, j: c.A('P')(ZERO, ZERO)), 'row of P': ('value', scalar, lambda c, i, j: c.A('P')(last(c), ZERO)),
                             'column of Q': ('grad', scalar, lambda c, i, j: c.A('Q')(ZERO, lastm(c)))},
                            ('n', 'm'), {'P': ('n', 'm', 'any'), 'Q': ('n', 'm', 'any')}, low={'n': 1, 'm': 1})
    for L in 'SVM': out['const_elem_' + L] = out['elem_' + L]
    dm = lambda c: (c.sz('n') + c.sz('m'), ONE)
    P, Q = al('P'), al('Q')
    n_ = lambda c: c.sz('n')
    exp = {'values untouched': ('value', dm, P), 'after head': ('grad', dm, lambda c, i, j: Q(c, i, j) + ite(lt(i, n_(c)), c.real('K'), ZERO)),
           'after tail': ('grad', dm, lambda c, i, j: Q(c, i, j) + ite(lt(i, n_(c)), ZERO, c.real('K'))), 'head reset': ('grad', dm, lambda c, i, j: ite(lt(i, n_(c)), ZERO, Q(c, i, j))),
           'tail reset': ('grad', dm, lambda c, i, j: ite(lt(i, n_(c)), Q(c, i, j), ZERO))}
    arr = {'P': (('n', 'm'), 1, 'any'), 'Q': (('n', 'm'), 1, 'any')}
    for nm in ('head', 'tail', 'head_reset', 'tail_reset'): out[nm] = RecSpec(exp, ('n', 'm'), arr, {'K': 'any'})
    d1 = lambda c: (c.sz('n') + 1, ONE)
    out['elem_add'] = RecSpec({'values untouched': ('value', d1, P), 'after element': ('grad', d1, lambda c, i, j: Q(c, i, j) + ite(eq(i, n_(c)), c.real('K'), ZERO))}, ('n',),
                              {'P': (('n', 1), 1, 'any'), 'Q': (('n', 1), 1, 'any')}, {'K': 'any'})
    v = same('vec')
    out['vec_of_vec'] = RecSpec({'P value': ('value', v, P), 'R value': ('value', v, al('R')), 'K adjoint': ('grad', v, K), 'zero adjoint': ('grad', v, lambda c, i, j: ZERO), 'zero value': ('value', v, lambda c, i, j: ZERO)},
                                ('n',), {'P': ('n', 1, 'any'), 'R': ('n', 1, 'any')}, {'K': 'any'})
    return out


# ------------------------------------------------------------------ constants
def fold_spec(consts, reals, dims, F, low=None, symm=()):
    """consts: array constants name -> (row, col, kind); reals: name -> kind"""
    exp = {'folded': ('value', dims, F), 'rows': ('contract', scalar, lambda c, i, j: itm(dims(c)[0])), 'columns': ('contract', scalar, lambda c, i, j: itm(dims(c)[1]))}
    sz = []
    for r, k, kd in consts.values():
        for x in (r, k):
            if isinstance(x, str) and x not in sz: sz.append(x)
    sp = RecSpec(exp, tuple(sz), consts, reals, need=('folded',))
    if symm: sp.symm = lambda: list(symm)
    return sp


def kop(n, s):
    """element (i,j) of constant n of shape s, broadcast"""
    if s == 'S': return lambda c, i, j: c.real(n)
    if s in 'VZ': return lambda c, i, j: c.A(n)(i, ZERO)
    return lambda c, i, j: c.A(n)(i, j)


KSH = {'S': 'S', 'V': 'V', 'M': 'M', 'Z': 'V', 'Y': 'M', 'd': 'S', 'w': 'V', 'z': 'V', 'x': 'M'}


def kdecl(ops):
    """ops: list of (name, shape letter, kind) -> consts, reals"""
    co, re_ = {}, {}
    for n, s, kd in ops:
        s = KSH[s]
        if s == 'S': re_[n] = kd
        else: co[n] = SHAPE[SH[s]] + (kd,)
    return co, re_


def kun_specs():
    out = {}
    for f, (fn, kd) in list(UNARY.items()) + [('p%s' % n, ((lambda e: lambda x: powi(x, e))(e), 'nonzero' if e < 0 else 'any')) for n, e in ((str(e).replace('-', 'm'), e) for e in KPOWS)] + [('id', (lambda x: x, 'any'))]:
        for s in 'SVMZY':
            co, re_ = kdecl([('K', s, kd)])
            out['k%s_%s' % (f, s)] = fold_spec(co, re_, same(SH[KSH[s]]), (lambda fn, s: lambda c, i, j: fn(kop('K', KSH[s])(c, i, j)))(fn, s))
    for s in 'SVMZY':
        L = KSH[s]
        co, re_ = kdecl([('K', s, 'any')])
        r, k = SHAPE[SH[L]]
        full = (lambda L: lambda c: (lambda i, j: kop('K', L)(c, i, j)))(L)
        out['ksum_' + s] = fold_spec(co, re_, scalar, (lambda r, k, full: lambda c, i, j: bsum(dimt(c, r), dimt(c, k), full(c)))(r, k, full))
        out['kprod_' + s] = fold_spec(co, re_, scalar, (lambda r, k, full: lambda c, i, j: bprod(dimt(c, r), dimt(c, k), full(c)))(r, k, full))
        if s == 'S': continue
        out['knorm_' + s] = fold_spec(co, re_, scalar, (lambda r, k, full: lambda c, i, j: bsum(dimt(c, r), dimt(c, k), lambda a, b: full(c)(a, b) * full(c)(a, b)))(r, k, full))
        out['ktr_' + s] = fold_spec(co, re_, (lambda r, k: lambda c: (dimt(c, k), dimt(c, r)))(r, k), (lambda full: lambda c, i, j: full(c)(j, i))(full))
    return out


def kbin_specs():
    out = {}
    for nm, (f, kd) in BINF.items():
        kl = 'bool' if kd == 'bool' else 'any'
        kr = kd or 'any'
        for LR in ('SS', 'SV', 'VS', 'VV', 'SM', 'MS', 'MM', 'Sd', 'dV', 'Vw', 'Zz', 'Mx'):
            L, R = KSH[LR[0]], KSH[LR[1]]
            co, re_ = kdecl([('K', L, kl), ('L', R, kr)])
            out['k%s_%s' % (nm, LR)] = fold_spec(co, re_, same(SH[big(L, R)]), (lambda f, L, R: lambda c, i, j: f(kop('K', L)(c, i, j), kop('L', R)(c, i, j)))(f, L, R))
    return out


def kget_specs():
    out = {}
    for s in 'SVMZY':
        dims = SHAPE[{'Z': 'vec', 'Y': 'mat'}.get(s) or SH[s]]
        co, re_ = kdecl([('K', {'Z': 'V', 'Y': 'M'}.get(s, s), 'any')])
        x = (lambda c: (lambda i, j: c.real('K'))) if s == 'S' else (lambda c: c.A('K'))
        la = lambda c, k, dims=dims: num(dims[k]) - 1 if isinstance(dims[k], int) else c.sz(dims[k]) - 1
        at = lambda a, b, x=x, la=la: ('value', scalar, lambda c, i, j: x(c)(la(c, 0) if a else ZERO, la(c, 1) if b else ZERO))
        exp = {'corner': at(1, 1), 'row': at(1, 0), 'column': at(0, 1), 'first': at(0, 0), 'folded': ('value', same({'Z': 'vec', 'Y': 'mat'}.get(s) or SH[s]), lambda c, i, j, x=x: x(c)(i, j))}
        names = [d for d in dims if isinstance(d, str)]
        out['kget_' + s] = RecSpec(exp, tuple(names), co, re_, low={d: 1 for d in names})
    return out


def koth_specs():
    out = {}
    for s, ns in (('S', (0, 1, 2, 4)), ('V', (1, 3)), ('M', (1, 3))):
        for n in ns:
            co, re_ = kdecl([('KLPQ'[k], s, 'any') for k in range(n)])
            def fs(c, i, j, s=s, n=n):
                r = ZERO
                for k in range(n): r = r + kop('KLPQ'[k], s)(c, i, j)
                return r
            def fp(c, i, j, s=s, n=n):
                r = ONE
                for k in range(n): r = r * kop('KLPQ'[k], s)(c, i, j)
                return r
            out['krsum_%s%d' % (s, n)] = fold_spec(co, re_, same(SH[s]), fs)
            if n: out['krprod_%s%d' % (s, n)] = fold_spec(co, re_, same(SH[s]), fp)
    for f in ('sum', 'prod'):
        out['kr%s_V0' % f] = fold_spec({}, {}, lambda c: (ZERO, ONE), lambda c, i, j: ZERO)
        out['kr%s_M0' % f] = fold_spec({}, {}, lambda c: (ZERO, ZERO), lambda c, i, j: ZERO)
    d = lambda *x: (lambda c: tuple(dimt(c, y) for y in x))
    K = {'K': ('n', 'm', 'any')}
    dot = lambda c, i, j: matmul(c, c.A('K'), c.A('L'), 'm')(i, j)
    for nm in ('kdot_MV', 'kdot_xw', 'kdot_YZ'): out[nm] = fold_spec({**K, 'L': ('m', 1, 'any')}, {}, d('n', 1), dot)
    out['kdot_MM'] = fold_spec({**K, 'L': ('m', 'k', 'any')}, {}, d('n', 'k'), dot)
    for nm, log_, kd in (('kdet_lu', 0, 'invertible'), ('kdet_ldlt', 0, 'spd'), ('kdet_llt', 0, 'spd'), ('kldet_lu', 1, 'invertible'), ('kldet_ldlt', 1, 'spd'), ('kldet_llt', 1, 'spd')):
        def value(c, i, j, log_=log_):
            a, b = fresh_idx(None, 'i'), fresh_idx(None, 'j')
            dd = mk_det(c.sz('n'), lam2(c.A('K')(a, b), a, b))
            return app('log', (tabs(dd),)) if log_ else dd
        out[nm] = fold_spec({'K': ('n', 'n', kd)}, {}, scalar, value, symm=('K',) if kd == 'spd' else ())
        if kd != 'spd': out[nm].CLOW = {'n': 1}
    for s in 'SVMd':
        co, re_ = kdecl([('K', s, 'any'), ('L', s, 'any')])
        re_['C'] = 'any'
        L = KSH[s]
        out['kif_' + s] = fold_spec(co, re_, same(SH[L]), (lambda L: lambda c, i, j: ite(ne(c.real('C'), ZERO), kop('K', L)(c, i, j), kop('L', L)(c, i, j)))(L))
    return out


# ------------------------------------------------------------------ log-densities
STV = {'S': 'S', 'V': 'V', 'Q': 'Q', 'k': 'S', 'w': 'V', 'z': 'V', 'q': 'Q', 'y': 'Q', **{d: 'S' for d in '0123456789'}}
QSH = {'S': (1, 1), 'V': ('n', 1), 'Q': ('n', 'n')}
NINF = -INF


def gen_dof(c, rng): return [c.sizes['n'] + rng.choice([-2., -1., -.5, 0., 1., 2.5, 4.])]


def gen_scale(c, rng):
    p = rng.random()
    if p < .15: return [rng.choice([-1., 0., .5, 1.]) for _ in range(40)]
    return [rng.choice([.5, 1., 2., rng.uniform(.2, 3)]) for _ in range(40)]


def gen_01(c, rng):
    p = rng.random()
    if p < .1: return [rng.choice([0., 1., 2., .5]) for _ in range(40)]
    if p < .3: return [float(rng.random() < .5)] * 40
    return [float(rng.random() < .5) for _ in range(40)]


def gen_prob(c, rng):
    p = rng.random()
    if p < .3: return [rng.choice([0., 1., -.5, 1.5, .25]) for _ in range(40)]
    return [rng.choice([.5, .25, rng.uniform(.05, .95)]) for _ in range(40)]


def gen_lo(c, rng): return [rng.choice([-1., 0., -rng.uniform(0, 2), rng.uniform(-1, .6)]) for _ in range(40)]
def gen_hi(c, rng): return [rng.choice([1., 2., 1 + rng.uniform(0, 2), rng.uniform(.4, 2)]) for _ in range(40)]
def gen_mid(c, rng): return [rng.choice([0.5, rng.uniform(0.05, .95), rng.uniform(0, 1), rng.uniform(-.3, 1.3) if rng.random() < .2 else .3]) for _ in range(40)]


class StatSpec(NodeSpec):
    """log-density node: letters -> operand kinds; logp(c, X) value inside the support, ok(c, X) support"""
    def __init__(self, ops, gens, logp, ok, grads, mode, low=1, extra_real=()):
        self.ops = ops
        shapes = {k: QSH[STV[l]] for k, l in enumerate(ops, 1) if l in 'SVQ'}
        g = {k: gens[k - 1] for k in shapes}
        kinds = {k: ('sym' if STV[ops[k - 1]] == 'Q' else ('gen', g[k])) for k in shapes}
        consts = {'K%d' % k: QSH[STV[l]] + (('sym' if STV[l] == 'Q' else ('gen', gens[k - 1])),) for k, l in enumerate(ops, 1) if l in 'wzqy'}
        self.kreals = {'K%d' % k: gens[k - 1] for k, l in enumerate(ops, 1) if l == 'k'}
        for k in extra_real: self.kreals[k] = gen_dof
        self.logp, self.ok, self.grads = logp, ok, grads
        NodeSpec.__init__(self, shapes, scalar, self.val, mode, kinds, grad={k: self.mkgrad(k) for k in shapes}, consts=consts, visit=(),
                          low={'n': low}, symm_ids=tuple(k for k in shapes if STV[ops[k - 1]] == 'Q'))
    def X(self, c, V):
        out = {}
        for k, l in enumerate(self.ops, 1):
            s = STV[l]
            if l in 'SVQ': out[k] = (lambda f, s: lambda i, j: (f(ZERO, ZERO) if s == 'S' else f(i, ZERO) if s == 'V' else f(i, j)))(V[k], s)
            elif l == 'k': out[k] = (lambda r: lambda i, j: r)(c.real('K%d' % k))
            elif l.isdigit(): out[k] = (lambda r: lambda i, j: r)(num(int(l)))
            else: out[k] = (lambda f, s: lambda i, j: f(i, ZERO) if s == 'V' else f(i, j))(c.A('K%d' % k), s)
        return out
    def reals(self):
        d = {'seed': 'any'}
        for k, g in self.kreals.items(): d[k] = ('gen', g) if g else 'any'
        return d
    def val(self, c, V, i, j):
        X = self.X(c, V)
        return ite(self.ok(self, c, X), self.logp(self, c, X), NINF)
    def mkgrad(self, k):
        def g(c, V, S, a, b):
            X = self.X(c, V)
            return ite(self.gok(c, X), S(ZERO, ZERO) * self.grads[k - 1](self, c, X, a, b), ZERO)
        return g
    def gok(self, c, X): return self.ok(self, c, X)
    def vecs(self): return any(STV[l] != 'S' for l in self.ops)
    def all(self, c, f):
        if not self.vecs(): return f(ZERO)
        i = fresh_idx(c.sz('n'), 'i')
        return forall(i, c.sz('n'), f(i))
    def sum(self, c, f):
        if not self.vecs(): return f(ZERO)
        return bsum(c.sz('n'), ONE, lambda i, j: f(i))
    def contrib(self, c, k, a, f):
        """derivative w.r.t. operand k at a: f(i) summed if the operand is scalar"""
        if STV[self.ops[k - 1]] == 'S': return self.sum(c, f)
        return f(a)


def z_(f): return lambda i: f(i, ZERO)


def st_normal(ops, mode):
    if STV[ops[2]] == 'Q': return st_mvn(ops, mode)
    def logp(s, c, X):
        x, m, g = z_(X[1]), z_(X[2]), z_(X[3])
        def t(i):
            z = (x(i) - m(i)) / g(i)
            return num(Fr(-1, 2)) * z * z - app('log', (g(i),))
        return s.sum(c, t)
    ok = lambda s, c, X: lt(ZERO, X[3](ZERO, ZERO)) if STV[s.ops[2]] == 'S' else s.all(c, lambda i: lt(ZERO, X[3](i, ZERO)))
    def gx(s, c, X, a, b): return s.contrib(c, 1, a, lambda i: -(X[1](i, ZERO) - X[2](i, ZERO)) / (X[3](i, ZERO) * X[3](i, ZERO)))
    def gm(s, c, X, a, b): return s.contrib(c, 2, a, lambda i: (X[1](i, ZERO) - X[2](i, ZERO)) / (X[3](i, ZERO) * X[3](i, ZERO)))
    def gs(s, c, X, a, b):
        def t(i):
            z = (X[1](i, ZERO) - X[2](i, ZERO)) / X[3](i, ZERO)
            return (z * z - 1) / X[3](i, ZERO)
        return s.contrib(c, 3, a, t)
    return StatSpec(ops, (gen_mid, gen_mid, gen_scale), logp, ok, (gx, gm, gs), mode)


def qlam(f):
    i, j = fresh_idx(None, 'i'), fresh_idx(None, 'j')
    return lam2(f(i, j), i, j)


def st_mvn(ops, mode):
    def parts(s, c, X):
        n, L = c.sz('n'), qlam(X[3])
        d = lambda i: X[1](i, ZERO) - X[2](i, ZERO)
        z = lambda i: bsum(n, ONE, lambda k, _: mk_inv(n, L, i, k) * d(k))
        return n, L, d, z
    def logp(s, c, X):
        n, L, d, z = parts(s, c, X)
        return num(Fr(-1, 2)) * bsum(n, ONE, lambda i, _: d(i) * z(i)) - num(Fr(1, 2)) * app('log', (mk_det(n, L),))
    ok = lambda s, c, X: TM.posdef(itm(c.sz('n')), qlam(X[3]))
    def gx(s, c, X, a, b): return -parts(s, c, X)[3](a)
    def gm(s, c, X, a, b): return s.contrib(c, 2, a, lambda i: parts(s, c, X)[3](i))
    def gs(s, c, X, a, b):
        n, L, d, z = parts(s, c, X)
        return num(Fr(-1, 2)) * (mk_inv(n, L, a, b) - z(a) * z(b))
    return StatSpec(ops, (gen_mid, gen_mid, None), logp, ok, (gx, gm, gs), mode)


def st_cauchy(ops, mode):
    at = lambda X, i: (X[1](i, ZERO), X[2](i, ZERO), X[3](i, ZERO))
    def logp(s, c, X):
        def t(i):
            x, m, g = at(X, i)
            return -app('log', (g + (x - m) * (x - m) / g,))
        return s.sum(c, t)
    ok = lambda s, c, X: lt(ZERO, X[3](ZERO, ZERO)) if STV[s.ops[2]] == 'S' else s.all(c, lambda i: lt(ZERO, X[3](i, ZERO)))
    def dm(X, i):
        x, m, g = at(X, i)
        return num(2) * (x - m) / (g * g + (x - m) * (x - m))
    def ds(X, i):
        x, m, g = at(X, i)
        return ((x - m) * (x - m) - g * g) / (g * (g * g + (x - m) * (x - m)))
    gx = lambda s, c, X, a, b: s.contrib(c, 1, a, lambda i: -dm(X, i))
    gm = lambda s, c, X, a, b: s.contrib(c, 2, a, lambda i: dm(X, i))
    gs = lambda s, c, X, a, b: s.contrib(c, 3, a, lambda i: ds(X, i))
    return StatSpec(ops, (gen_mid, gen_mid, gen_scale), logp, ok, (gx, gm, gs), mode)


def st_unif(ops, mode):
    lo, hi = (lambda X, i: X[2](i, ZERO)), (lambda X, i: X[3](i, ZERO))
    logp = lambda s, c, X: -s.sum(c, lambda i: app('log', (hi(X, i) - lo(X, i),)))
    ok = lambda s, c, X: s.all(c, lambda i: band(lt(lo(X, i), X[1](i, ZERO)), lt(X[1](i, ZERO), hi(X, i))))
    gx = lambda s, c, X, a, b: ZERO
    gl = lambda s, c, X, a, b: s.contrib(c, 2, a, lambda i: ONE / (hi(X, i) - lo(X, i)))
    gh = lambda s, c, X, a, b: s.contrib(c, 3, a, lambda i: -ONE / (hi(X, i) - lo(X, i)))
    return StatSpec(ops, (gen_mid, gen_lo, gen_hi), logp, ok, (gx, gl, gh), mode)


class BernSpec(StatSpec):
    def gok(self, c, X): return TRUE


def st_bern(ops, mode):
    X01 = lambda X, i: bor(eq(X[1](i, ZERO), ZERO), eq(X[1](i, ZERO), ONE))
    inr = lambda p: band(lt(ZERO, p), lt(p, ONE))
    def term(X, i):
        """log probability of x_i when p_i (clamped to [0,1]) allows it"""
        x, p = X[1](i, ZERO), X[2](i, ZERO)
        return ite(inr(p), ite(eq(x, ONE), app('log', (p,)), app('log', (ONE - p,))), ZERO)
    def possible(X, i):
        x, p = X[1](i, ZERO), X[2](i, ZERO)
        return band(X01(X, i), bor(inr(p), band(le(p, ZERO), eq(x, ZERO)), band(le(ONE, p), eq(x, ONE))))
    logp = lambda s, c, X: s.sum(c, lambda i: term(X, i))
    ok = lambda s, c, X: s.all(c, lambda i: possible(X, i))
    gx = lambda s, c, X, a, b: ZERO
    def gp(s, c, X, a, b):
        q = s.all(c, lambda i: X01(X, i))
        def t(i):
            x, p = X[1](i, ZERO), X[2](i, ZERO)
            return ite(inr(p), ite(eq(x, ONE), ONE / p, -ONE / (ONE - p)), ZERO)
        return ite(q, s.contrib(c, 2, a, t), ZERO)
    return BernSpec(ops, (gen_01, gen_prob), logp, ok, (gx, gp), mode)


def st_wish(ops, mode):
    def parts(s, c, X):
        n = c.sz('n')
        return n, qlam(X[1]), qlam(X[2]), c.real('K3')
    def logp(s, c, X):
        n, LX, LV, nu = parts(s, c, X)
        h = num(Fr(1, 2))
        return h * (nu - n - 1) * app('log', (mk_det(n, LX),)) - h * bsum(n, n, lambda i, k: X[1](i, k) * mk_inv(n, LV, k, i)) - h * nu * app('log', (mk_det(n, LV),))
    def ok(s, c, X):
        n, LX, LV, nu = parts(s, c, X)
        return band(TM.posdef(n, LX), TM.posdef(n, LV), lt(n, nu + 1))
    def gx(s, c, X, a, b):
        n, LX, LV, nu = parts(s, c, X)
        return num(Fr(1, 2)) * ((nu - n - 1) * mk_inv(n, LX, a, b) - mk_inv(n, LV, a, b))
    def gv(s, c, X, a, b):
        n, LX, LV, nu = parts(s, c, X)
        w = bsum(n, n, lambda i, j: mk_inv(n, LV, a, i) * X[1](i, j) * mk_inv(n, LV, j, b))
        return num(Fr(1, 2)) * (w - nu * mk_inv(n, LV, a, b))
    return StatSpec(ops, (None, None), logp, ok, (gx, gv), mode, extra_real=('K3',))


def _c7(A, B, C):
    return [x + y + z for x in A for y in B for z in C if (x + y + z) not in (A[1] + B[1] + C[1],)]


C5 = _c7('Sk', 'Sk', 'Sk') + _c7('Vw', 'Sk', 'Sk') + _c7('Vw', 'Vw', 'Sk') + _c7('Vw', 'Sk', 'Vw') + _c7('Vw', 'Vw', 'Vw') + ['zVS', 'zSz', 'Vzz']
CM = _c7('Vw', 'Sk', 'Qq') + _c7('Vw', 'Vw', 'Qq') + ['zVy']
STAT = {'norm': (st_normal, C5), 'normm': (st_normal, CM), 'cauchy': (st_cauchy, C5), 'unif': (st_unif, C5),
        **{k: (f, ['S02', 'SS2', '1SS', '10S', 'V02', 'VV2', 'V0V', 'VS2', 'w0S']) for k, f in (('normi', st_normal), ('cauchyi', st_cauchy), ('unifi', st_unif))},
        'berni': (st_bern, ['0S', '1S', '2S']),
        'bern': (st_bern, ['SS', 'kS', 'Sk', 'VS', 'wS', 'zS', 'Vk', 'VV', 'wV', 'zV', 'Vw']), 'wish': (st_wish, ['QQ', 'qQ', 'Qq', 'yQ'])}


def stat_specs(which):
    mk, combos = STAT[which]
    return {'%s_%s_%s' % (which.replace('normm', 'norm'), o, m): mk(o, m) for o in combos for m in 'so'}


# ------------------------------------------------------------------ forward mode
def fwd_specs():
    """value = f(values); tangent = sum over the operands of partial derivative times operand tangent"""
    out = {}
    g = lambda c, n: c.A(n)(ZERO, ZERO)
    S1 = lambda c: (ONE, ONE)
    keep = {'operand %s %s' % (v, w): ('kept', S1, (lambda n: lambda c, i, j: g(c, n))(n))
            for v, w, n in (('x', 'value', 'X'), ('x', 'tangent', 'DX'), ('y', 'value', 'Y'), ('y', 'tangent', 'DY'))}
    def mk(nm, f, xs, kinds=None):
        """f(dict of inputs) -> value; xs: inputs that take part, with their tangents"""
        kd = dict(X='any', Y='any', K='any', DX='any', DY='any')
        kd.update(kinds or {})
        F = lambda c: f(*[g(c, n) for n in xs])
        def tan(c, i, j):
            v, r = F(c), ZERO
            for n in xs:
                if n != 'K': r = r + diff_sel(v, n, ZERO, ZERO) * g(c, 'D' + n)
            return r
        exp = dict(value=('value', S1, lambda c, i, j: F(c)), tangent=('grad', S1, tan), **keep)
        out[nm] = RecSpec(exp, (), {n: (1, 1, kd[n]) for n in kd}, need=('value', 'tangent'))
    for u, (fn, kd) in UNARY.items():
        if u in ('sinh', 'cosh', 'tanh', 'sigmoid'): continue
        for v in ('x', 't', 'self'): mk('%s_%s' % (u, v), fn, ('X',), {'X': kd})
        ck = {'X': kd, 'Y': 'unit'} if kd in ('cosnz',) else {'X': kd, 'Y': kd}
        mk(u + '_ch', (lambda fn: lambda x, y: fn(x * y))(fn), ('X', 'Y'), ck)
    for nm in ('add', 'sub', 'mul', 'div'):
        f = BINF[nm][0]
        kd = 'nonzero' if nm == 'div' else 'any'
        for v in ('xy', 'tt', 'lself', 'rself'): mk('%s_%s' % (nm, v), f, ('X', 'Y'), {'Y': kd})
        mk(nm + '_xx', (lambda f: lambda x: f(x, x))(f), ('X',), {'X': kd})
        mk(nm + '_xk', f, ('X', 'K'), {'K': kd})
        mk(nm + '_ky', f, ('K', 'Y'), {'Y': kd})
    mk('pluseq_xy', lambda x, y: x + y, ('X', 'Y'))
    mk('pluseq_xx', lambda x: x + x, ('X',))
    mk('pluseq_xk', lambda x, k: x + k, ('X', 'K'))
    mk('make_k', lambda k: k, ('K',))
    mk('make_0', lambda: ZERO, ())
    mk('make_copy', lambda x: x, ('X',))
    mk('make_set', lambda x: x, ('X',))
    def prog(x, y):
        s = x + y + app('sin', (x,)) * y
        return s * s - app('exp', (y,))
    mk('prog', prog, ('X', 'Y'))
    return out


# ------------------------------------------------------------------ drivers
class DrvSpec(NodeSpec):
    """drivers of sin(operand); one: default seed; back: whether the operand is back-propagated"""
    def __init__(self, s, mode, one=False, back=True):
        self.one, self.back = one, back
        z = lambda c, V, S, a, b: ZERO
        NodeSpec.__init__(self, {1: SHAPE[s]}, same(s), lambda c, V, i, j: app('sin', (V[1](i, j),)), mode, grad=None if back else {1: z}, visit=True if back else ())
    def seed(self, c, r): return (lambda i, j: ONE) if self.one else NodeSpec.seed(self, c, r)
    def check_round(self, c, r):
        n = [1]
        NodeSpec.check_round(self, AutoBack(c), r)
        if not self.back: c.check('order', 'evaluation only', not any(e[0] == 'beval' for e in c.events(r)))
        c.check('contract', 'the value was observed', len(c.recs('ret', 0, r)) == 1)


class AutoBack:
    """marks the start of back-propagation at the first operand that is back-propagated"""
    def __init__(self, c): self.c = c
    def __getattr__(self, n): return getattr(self.c, n)
    def events(self, r=None):
        e = list(self.c.events(r))
        n = next((k for k, x in enumerate(e) if x[0] == 'beval'), len(e))
        return e[:n] + [('backward', 0)] + e[n:]


class TwoSpec(NodeSpec):
    """two bound expressions (or one before and after copying / moving): round 1 and 2 evaluate, 3 and 4 back-propagate them"""
    def __init__(self, s):
        NodeSpec.__init__(self, {1: SHAPE[s]}, same(s), None, 's' if s == 'scl' else 'a')
    def check(self, c):
        dims = self.retf(c)
        V = {r: c.A('V1_%d' % r) for r in (1, 2)}
        for lab, r in (('first', 1), ('second', 2)):
            xs = c.recs(lab)
            c.check('contract', lab + ' observed', len(xs) > 0)
            for x in xs: c.eq('value', 'the %s expression keeps its own value' % lab, x, dims, lambda i, j: app('sin', (V[r](i, j),)))
        for r, q in ((3, 1), (4, 2)):
            S = self.seed(c, r)
            xs = c.recs('seed', 1, r)
            c.check('order', 'operand back-propagated exactly once', len(xs) == 1)
            for x in xs: c.eq('grad', 'adjoint passed to the operand', x, dims, lambda i, j: S(i, j) * app('cos', (V[q](i, j),)))
            for x in c.recs('child value kept', 1, r): c.eq('kept', 'operand still has the value of its own evaluation', x, dims, lambda i, j: V[q](i, j))
        for r in (1, 2):
            e = c.events(r)
            c.check('order', 'evaluated exactly once', sum(x == ('feval', 1) for x in e) == 1 and not any(x[0] == 'beval' for x in e))


def drv_specs():
    out = {}
    for v in ('ev', 'evr'): out['drv_S_' + v] = DrvSpec('scl', 's', back=False)
    for v in ('sep', 'sepr', 'ad', 'adr', 'copy1', 'copyc', 'tmp', 'own', 'ownr'): out['drv_S_' + v] = DrvSpec('scl', 's')
    for v in ('sep1', 'sepr1', 'ad1', 'adr1', 'own1'): out['drv_S_' + v] = DrvSpec('scl', 's', one=True)
    for L in 'VM':
        out['drv_%s_ev' % L] = DrvSpec(SH[L], 's', back=False)
        for v in ('sep', 'sepr', 'ad', 'adr', 'copy1', 'own', 'ownad'): out['drv_%s_%s' % (L, v)] = DrvSpec(SH[L], 'a')
    for v in ('two_copy', 'late_copy', 'late_move'):
        for L in 'SVM': out['%s_%s' % (v, L)] = TwoSpec(SH[L])
    out['two_copyc_S'] = TwoSpec('scl')
    out['two_copyc_V'] = TwoSpec('vec')
    return out


# ------------------------------------------------------------------ whole programs
class ProgSpec(Spec):
    """value and gradient of a program over real variables.
    vars: id -> (rows, cols, kind); F(X, i, j): element of the result; ret: (rows, cols); up: ids updated in place"""
    def __init__(self, vars, ret, F, up=(), low=None, consts=None, sizes=None):
        self.vars, self.ret, self.F, self.up, self.LOW, self.consts = vars, ret, F, up, low or {}, consts or {}
        self.extra_sizes = sizes or []
    def dim(self, x): return sum((self.dim(y) for y in x), ZERO) if isinstance(x, tuple) else num(x) if isinstance(x, int) else zsym('n$' + x) + self.low(x)
    def all_arrays(self):
        a = {}
        for k, (r, cc, kd) in self.vars.items():
            for rd in ROUNDS:
                a['X%d_%d' % (k, rd)] = (r, cc, kd)
                a['A%d_%d' % (k, rd)] = (r, cc, 'any')
        for rd in ROUNDS: a['S0_%d' % rd] = self.ret + ('any',)
        for n, v in self.consts.items(): a[n] = v
        return a
    def domains(self):
        d = Domains()
        for n, (r, cc, kd) in self.all_arrays().items():
            d.kind[n] = kd
            d.dims[n] = (self.dim(r), self.dim(cc))
        return d
    def sizes(self):
        s = []
        for r, cc, kd in self.all_arrays().values():
            for x in (r, cc):
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, str) and y not in s: s.append(y)
        return s
    def reals(self): return {'seed': 'any'}
    def arrays(self): return {n: v[2] for n, v in self.all_arrays().items()}
    def dimname(self, a): return self.all_arrays()[a][0]
    def rows(self, a, case):
        x = self.all_arrays().get(a, (None,))[0]
        f = lambda y: y if isinstance(y, int) else case.sizes.get(y, 0)
        return None if x is None else sum(f(y) for y in x) if isinstance(x, tuple) else f(x)
    def d(self, c, x): return sum((self.d(c, y) for y in x), ZERO) if isinstance(x, tuple) else num(x) if isinstance(x, int) else c.sz(x)
    def check(self, c):
        for r in c.rounds: self.check_round(c, r)
    def check_round(self, c, r):
        tag = 'run %d: ' % r
        X = {k: c.A('X%d_%d' % (k, r)) for k in self.vars}
        for n in self.consts: X[n] = c.A(n)
        X['sz'] = lambda n: self.d(c, n)
        dims = tuple(self.d(c, x) for x in self.ret)
        F = lambda i, j: self.F(X, i, j)
        S = (lambda i, j: c.real('seed')) if self.ret == (1, 1) else c.A('S0_%d' % r)
        seen = set()
        for e in c.events(r):
            if e[0] != 'rec': continue
            x = e[1]
            seen.add((x.label, x.id))
            if x.label in ('value', 'result'):
                if x.label == 'value': c.eq('value', tag + 'program value', x, dims, F)
                continue
            v = self.vars[x.id]
            vd = (self.d(c, v[0]), self.d(c, v[1]))
            if x.label == 'kept': c.eq('kept', tag + 'variable %d has its value' % x.id, x, vd, X[x.id])
            elif x.label == 'grad':
                nm, A = 'X%d_%d' % (x.id, r), c.A('A%d_%d' % (x.id, r))
                def G(a, b):
                    g = bsum(dims[0], dims[1], lambda i, j: S(i, j) * diff_sel(F(i, j), nm, a, b))
                    return g if x.id in self.up else A(a, b) + g
                c.eq('grad', tag + 'adjoint of variable %d grew by seed times derivative' % x.id, x, vd, G)
        for k in self.vars: c.check('contract', tag + 'variable observed', ('grad', k) in seen and ('kept', k) in seen)
        c.check('contract', tag + 'value observed', ('value', 0) in seen)


def prog_specs():
    out = {}
    Z = ZERO
    A1 = lambda fn: lambda x: app(fn, (x,))
    sin, cos, exp = A1('sin'), A1('cos'), A1('exp')
    def scal(nm, n, f, kinds=None, **kw):
        """f(values of the n scalar variables)"""
        kd = kinds or {}
        out['s_' + nm] = ProgSpec({k: (1, 1, kd.get(k, 'any')) for k in range(1, n + 1)}, (1, 1), lambda X, i, j: f(*[X[k](Z, Z) for k in range(1, n + 1)]), **kw)
    scal('prodsin', 2, lambda a, b: a * b + sin(a))
    scal('let', 2, lambda a, b: (a * b) * (a * b) + a)
    scal('let2', 2, lambda a, b: (a * b) * (a * b + a) + a * b)
    scal('letlet', 2, lambda a, b: sin(a) * (sin(a) * b) * exp(sin(a) * b))
    scal('upd', 2, lambda a, b: powq(a + b + (a + b) * a, 2))
    scal('upd_in', 2, lambda a, w: (w * a + sin(w * a)) * a, up=(2,))
    scal('upd3', 2, lambda a, b: powq(a + 3 * b, 2))
    def updall(a, b):
        w = (a * 2 + b) * a
        w = w - w * b
        return w / b * a
    scal('updall', 2, updall, {2: 'nonzero'})
    scal('updval', 2, lambda a, b: a * b * b)
    scal('if', 2, lambda a, b: ite(lt(a, b), a * a, a - b))
    scal('iflet', 2, lambda a, b: ite(lt(a, a * b), a * b * b, a * b + b * b))
    scal('ifif', 2, lambda a, b: ite(band(lt(a, b), lt(b, ONE)), ite(eq(a, Z), a + b, a * b), b))
    scal('pow', 2, lambda a, b: powq(a * b, 3) - powq(a, 2))
    scal('div', 2, lambda a, b: a / b - b / a + ONE / (a * b), {1: 'nonzero', 2: 'nonzero'})
    scal('many', 3, lambda a, b, c: app('tanh', (a * b,)) * app('cosh', (c,)) - UNARY['sigmoid'][0](a + c) / exp(b))
    scal('xxxx', 1, lambda a: a * a * (a + a) - (a - a * a))
    scal('range', 2, lambda a, b: 6 * a + 3 * a * b)
    scal('rangew', 2, lambda a, b: a * b + (a * b * a) * (a * b * a * a))
    scal('prodr', 3, lambda a, b, c: sin(a) * sin(b) * sin(c) * a)
    V, M, S = ('n', 1, 'any'), ('n', 'm', 'any'), (1, 1, 'any')
    nzV, nzS = ('n', 1, 'nonzero'), (1, 1, 'nonzero')
    def P(nm, vs, ret, F, **kw): out[nm] = ProgSpec({k + 1: v for k, v in enumerate(vs)}, ret, F, **kw)
    v = lambda X, k: lambda i: X[k](i, Z)
    s = lambda X, k: X[k](Z, Z)
    sm = lambda X, n, f: bsum(X['sz'](n), ONE, lambda i, j: f(i))
    def pr(X, n, f):
        i = fresh_idx(itm(X['sz'](n)), 'p')
        return mk_prod(i, itm(X['sz'](n)), f(i))
    # the discarded part squares nothing away: the program is the last statement, over the updated variable
    for nm in ('sin neg exp tanh pow pow0 pow1 addl addr subl subr mull mulr divl konst eq plus minus times glue fe rsum rprod sum prod if nest').split():
        out['d_' + nm] = ProgSpec({1: (1, 1, 'any'), 2: (1, 1, 'any')}, (1, 1), lambda X, i, j: powq(powq(X[1](Z, Z), 2) * X[2](Z, Z), 2))
    for nm in 'sum prod norm sin addr addl mulr mull mulv vmul tr dot eq plus times pow if'.split():
        P('dv_' + nm, (V, S), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: powq(powq(v(X, 1)(k), 2) * s(X, 2), 2)))
    for nm in 'dot tr dotr sum norm mul sin'.split():
        P('dm_' + nm, (M, S, ('m', 1, 'any')), (1, 1), lambda X, i, j: bsum(X['sz']('n'), X['sz']('m'), lambda i, j: powq(powq(X[1](i, j), 2) * s(X, 2), 2)))
    P('v_prodsin', (V, V), ('n', 1), lambda X, i, j: v(X, 1)(i) * v(X, 2)(i) + sin(v(X, 1)(i)))
    P('v_bcast', (V, S), ('n', 1), lambda X, i, j: v(X, 1)(i) * s(X, 2) + s(X, 2) * (s(X, 2) - v(X, 1)(i)))
    P('v_sum', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: v(X, 1)(k) * v(X, 1)(k) * v(X, 2)(k) + v(X, 2)(k)))
    P('v_prod', (V, S), (1, 1), lambda X, i, j: pr(X, 'n', v(X, 1)) * (s(X, 2) + 1))
    P('v_norm', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: powq(v(X, 1)(k) - v(X, 2)(k), 2)) * sm(X, 'n', v(X, 1)))
    P('v_let', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: powq(v(X, 1)(k) * v(X, 2)(k), 2) + v(X, 1)(k) * v(X, 2)(k)))
    P('v_letval', (V, S), ('n', 1), lambda X, i, j: (v(X, 1)(i) * s(X, 2)) * (v(X, 1)(i) * s(X, 2) + v(X, 1)(i)))
    P('v_upd', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: (powq(v(X, 1)(k) * v(X, 2)(k) + v(X, 1)(k), 2) - v(X, 2)(k)) * v(X, 1)(k)))
    P('v_upds', (V, nzS), ('n', 1), lambda X, i, j: (2 * (v(X, 1)(i) + s(X, 2)) * s(X, 2) - s(X, 2)) / s(X, 2))
    P('v_upddiv', (V, nzV), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: v(X, 1)(k) / (v(X, 2)(k) * v(X, 2)(k))))
    P('v_updin', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: powq(2 * v(X, 1)(k) * v(X, 2)(k), 2)), up=(2,))
    def blk(X, i, j):
        x, n, m = v(X, 1), X['sz']('n'), X['sz']('m')
        h, t = fresh_idx(itm(n), 'h'), fresh_idx(itm(m), 't')
        return mk_sum(h, itm(n), 2 * x(h)) * mk_sum(t, itm(m), powq(x(n + t), 2)) + sm(X, ('n', 'm'), lambda k: sin(x(k)))
    P('v_block', ((('n', 'm'), 1, 'any'),), (1, 1), blk)
    P('v_if', (V, V, S), ('n', 1), lambda X, i, j: ite(lt(s(X, 3), Z), v(X, 1)(i) * v(X, 2)(i), v(X, 1)(i) - v(X, 2)(i) * s(X, 3)))
    P('v_cmp', (V, V), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: br(lt(v(X, 1)(k), v(X, 2)(k))) * v(X, 1)(k)))
    P('v_pow', (V,), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: powq(v(X, 1)(k), 5)))
    P('m_prodsin', (M, M), ('n', 'm'), lambda X, i, j: X[1](i, j) * X[2](i, j) - cos(X[2](i, j)))
    res = lambda X, i: bsum(X['sz']('m'), ONE, lambda k, l: X[1](i, k) * X[2](k, Z)) - X[3](i, Z)
    P('m_lsq', (M, ('m', 1, 'any'), V), (1, 1), lambda X, i, j: sm(X, 'n', lambda a: res(X, a) * res(X, a)))
    P('m_dot', (M, ('m', 'k', 'any')), (1, 1), lambda X, i, j: bsum(X['sz']('n'), X['sz']('k'), lambda a, b: bsum(X['sz']('m'), ONE, lambda k, l: X[1](a, k) * X[2](k, b))))
    P('m_dotval', (M, ('m', 1, 'any')), ('n', 1), lambda X, i, j: sin(bsum(X['sz']('m'), ONE, lambda k, l: X[1](i, k) * X[2](k, Z))))
    P('m_gram', (M,), (1, 1), lambda X, i, j: bsum(X['sz']('m'), X['sz']('m'), lambda a, b: bsum(X['sz']('n'), ONE, lambda k, l: X[1](k, a) * X[1](k, b))))
    ms = lambda X, f: bsum(X['sz']('n'), X['sz']('m'), f)
    P('m_let', (M, S), (1, 1), lambda X, i, j: ms(X, lambda a, b: powq(X[1](a, b) * s(X, 2), 2)) + s(X, 2))
    P('m_upd', (M, S), (1, 1), lambda X, i, j: ms(X, lambda a, b: powq(X[1](a, b), 2) * s(X, 2) + X[1](a, b)))
    P('m_tr', (M, ('m', 'n', 'any')), ('m', 'n'), lambda X, i, j: X[1](j, i) * X[2](i, j) + X[2](i, j))
    def model(X, i, j):
        y, mu, sg = v(X, 1), s(X, 2), s(X, 3)
        w = mu * sg
        ok = ite(lt(Z, sg), ONE, Z)
        h = num(Fr(1, 2))
        t = -h * sm(X, 'n', lambda k: powq((y(k) - w) / sg, 2)) - X['sz']('n') * app('log', (sg,)) - h * mu * mu
        return t
    P('st_model', (V, S, (1, 1, 'pos')), (1, 1), model)
    npdf = lambda x, mu, sg: -num(Fr(1, 2)) * powq((x - mu) / sg, 2) - app('log', (sg,))
    def hier(X, i, j):
        y, th, mu, sd = v(X, 1), v(X, 2), s(X, 3), exp(s(X, 4))
        return sm(X, 'n', lambda k: npdf(th(k), mu, sd) + npdf(y(k), th(k), ONE)) - app('log', (5 + mu * mu / 5,)) + npdf(s(X, 4), Z, ONE)
    P('st_hier', (V, V, S, S), (1, 1), hier)
    def logit(X, i, j):
        def t(k):
            p = UNARY['sigmoid'][0](v(X, 1)(k) * v(X, 2)(k) + s(X, 3))
            return ite(eq(X['Y'](k, Z), ONE), app('log', (p,)), app('log', (ONE - p,)))
        k = fresh_idx(itm(X['sz']('n')), 'k')
        ok = forall(k, itm(X['sz']('n')), bor(eq(X['Y'](k, Z), Z), eq(X['Y'](k, Z), ONE)))
        return ite(ok, sm(X, 'n', t), NINF)
    P('st_logit', (V, V, S), (1, 1), logit, consts={'Y': ('n', 1, 'bool')})
    def reg(X, i, j):
        w = exp(s(X, 4))
        mu = lambda i: bsum(X['sz']('m'), ONE, lambda k, l: X[1](i, k) * X[2](k, Z))
        return sm(X, 'n', lambda k: npdf(X[3](k, Z), mu(k), w)) + bsum(X['sz']('m'), ONE, lambda k, l: npdf(X[2](k, Z), Z, ONE))
    P('st_reg', (M, ('m', 1, 'any'), V, S), (1, 1), reg)
    P('k_lin', (V,), (1, 1), lambda X, i, j: sm(X, 'n', lambda k: X['K'](k, Z) * powq(v(X, 1)(k), 2)) + 2, consts={'K': ('n', 1, 'any')})
    P('k_fold', (S,), (1, 1), lambda X, i, j: 7 * s(X, 1))
    return out
