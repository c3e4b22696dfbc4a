"""Canonical term language of the verifier.

Real / integer terms are hash-consed polynomials (rational coefficients, rational
exponents on atoms) over atoms: symbols, applications, iterated sums / products with
binders, matrix inverse / determinant and Iverson brackets of comparisons.  Equal
canonical forms denote equal reals wherever the divisors that occur are non-zero, the
arguments of log are positive and those of fractional powers non-negative; those
side conditions are emitted as separate obligations by the executor.
"""
from fractions import Fraction as Fr
import hashlib, itertools, math

_TAB = {}
_fresh = [0]


class T:
    __slots__ = ('k', 'a', 's', 'fv', 'depth', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.s)

    def __eq__(self, o):
        return self is o

    # arithmetic sugar
    def __add__(self, o): return add(self, tm(o))
    def __radd__(self, o): return add(tm(o), self)
    def __sub__(self, o): return add(self, neg(tm(o)))
    def __rsub__(self, o): return add(tm(o), neg(self))
    def __mul__(self, o): return mul(self, tm(o))
    def __rmul__(self, o): return mul(tm(o), self)
    def __truediv__(self, o): return mul(self, recip(tm(o)))
    def __rtruediv__(self, o): return mul(tm(o), recip(self))
    def __neg__(self): return neg(self)
    def __pow__(self, n): return powq(self, Fr(n))


def mk(k, a, fv, depth=0):
    h = hashlib.blake2b(digest_size=12)
    h.update(k.encode())
    _feed(h, a)
    s = h.hexdigest()
    t = _TAB.get(s)
    if t is None:
        t = T()
        t.k, t.a, t.s, t.fv, t.depth = k, a, s, fv, depth
        _TAB[s] = t
    return t


def _feed(h, a):
    if isinstance(a, T):
        h.update(b'T' + a.s.encode())
    elif isinstance(a, tuple):
        h.update(b'(')
        for x in a:
            _feed(h, x)
        h.update(b')')
    else:
        h.update(('L' + repr(a) + ';').encode())


def _fvs(*ts):
    r = frozenset()
    for t in ts:
        if t.fv:
            r = r | t.fv if r else t.fv
    return r


# ---------------------------------------------------------------- polynomials
def _poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: _mkey(x[0])))
    fv = frozenset()
    dep = 0
    for m, c in items:
        for at, e in m:
            fv = fv | at.fv
            if at.depth > dep:
                dep = at.depth
    return mk('poly', items, fv, dep)


def _mkey(m):
    return tuple((at.s, e.numerator, e.denominator) if isinstance(e, Fr) else (at.s, e, 1) for at, e in m)


def num(x):
    x = Fr(x)
    return _poly({(): x}) if x != 0 else _poly({})


ZERO = None
ONE = None


def atom(t):
    """wrap an atom as a polynomial"""
    return _poly({((t, 1),): Fr(1)})


def tm(x):
    if isinstance(x, T):
        if x.k in BOOLK:
            return br(x)
        return x if x.k == 'poly' else atom(x)
    if isinstance(x, bool):
        return num(1 if x else 0)
    return num(x)


def is_num(t):
    return t.k == 'poly' and (len(t.a) == 0 or (len(t.a) == 1 and t.a[0][0] == ()))


def numval(t):
    if len(t.a) == 0:
        return Fr(0)
    return t.a[0][1]


def add(p, q):
    if not p.a: return q
    if not q.a: return p
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, 0) + c
    return _inf_norm(d)


def _inf_norm(d):
    # absorption: a term  c*INF  (INF alone) absorbs every finite summand
    if INF_MONO in d and d[INF_MONO] != 0:
        if all(not any(at is INF_ATOM for at, e in m) for m in d if m != INF_MONO and d[m] != 0):
            return _poly({INF_MONO: Fr(1 if d[INF_MONO] > 0 else -1)})
    return _poly(d)


def neg(p):
    return _poly({m: -c for m, c in p.a})


def scale(p, c):
    return _poly({m: x * c for m, x in p.a})


def _mmul(m1, m2):
    """multiply two monomials: returns (mono, residual_poly or None); residual when the
    product has to be expanded (parenthesised polys with exponent >= 1), None if zero"""
    d = {}
    for at, e in m1:
        d[at] = e
    for at, e in m2:
        d[at] = d.get(at, 0) + e
    expand = []
    out = []
    brs = None
    for at, e in d.items():
        if e == 0:
            continue
        if isinstance(e, Fr) and e.denominator == 1:
            e = int(e)
        if at.k == 'br':
            out.append((at, 1))
            brs = (brs or []) + [at]
            continue
        if at.k == 'par' and e >= 1:
            n = math.floor(e)
            expand.append((at.a[0], n))
            e = e - n
            if e == 0:
                continue
            if isinstance(e, Fr) and e.denominator == 1:
                e = int(e)
        out.append((at, e))
    if brs and len(brs) > 1:
        # comparisons of one quantity with constants: contradictory ones give 0, implied ones go
        groups = {}
        for b in brs:
            c = b.a[0]
            if c.k == 'cmp':
                base, rel, val = _cmpkey(c)
                groups.setdefault(base, []).append((rel, val, b))
        for g in groups.values():
            if len(g) < 2: continue
            eqs = [x for x in g if x[0] == '==']
            lo = max((x[1] for x in g if x[0] == '>'), default=None)
            hi = min((x[1] for x in g if x[0] == '<'), default=None)
            if eqs:
                v = eqs[0][1]
                if any(x[1] != v for x in eqs) or (lo is not None and not lo < v) or (hi is not None and not v < hi): return None, None
                drop = [x[2] for x in g if x[0] != '==']
            else:
                if lo is not None and hi is not None and lo >= hi: return None, None
                drop = [x[2] for x in g if x[1] != (lo if x[0] == '>' else hi)]
            if drop: out = [x for x in out if x[0] not in drop]
    if len(out) > 1:
        if any(at is INF_ATOM for at, e in out) and False:
            pass
        out.sort(key=lambda x: x[0].s)
    return tuple(out), expand


_CK = {}


def _cmpkey(c):
    r = _CK.get(c)
    if r is None:
        q = c.a[1]
        c0 = Fr(0)
        rest = []
        for m, x in q.a:
            if m == (): c0 = x
            else: rest.append((m, x))
        if not rest: r = (None, c.a[0], c0)
        else:
            rest.sort(key=lambda mx: _mkey(mx[0]))
            l = rest[0][1]
            base = tuple((m, x / l) for m, x in rest)
            op = c.a[0]
            r = (base, '==' if op == '==' else '<' if l > 0 else '>', -c0 / l)
        _CK[c] = r
    return r


def mul(p, q):
    if not p.a: return p
    if not q.a: return q
    if len(p.a) == 1 and p.a[0][0] == ():
        return _infs(scale(q, p.a[0][1]))
    if len(q.a) == 1 and q.a[0][0] == ():
        return _infs(scale(p, q.a[0][1]))
    d = {}
    extra = []
    for m1, c1 in p.a:
        for m2, c2 in q.a:
            m, ex = _mmul(m1, m2)
            if m is None:
                continue
            if ex:
                r = _poly({m: c1 * c2})
                for b, n in ex:
                    for _ in range(n):
                        r = mul(r, b)
                extra.append(r)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _inf_norm(d)
    for x in extra:
        r = add(r, x)
    return r


def _infs(p):
    if any(m == INF_MONO for m, c in p.a):
        return _inf_norm(dict(p.a))
    return p


def recip(p):
    return powq(p, Fr(-1))


def powq(p, q):
    """p ** q for rational q"""
    q = Fr(q)
    if q == 0: return ONE
    if q == 1: return p
    if q.denominator == 1 and q > 0:
        n = int(q)
        r = ONE
        b = p
        while n:
            if n & 1: r = mul(r, b)
            n >>= 1
            if n: b = mul(b, b)
        return r
    if not p.a:
        if q > 0: return ZERO
        return app('div0', ())
    if len(p.a) == 1:
        m, c = p.a[0]
        if m == INF_MONO and q < 0:
            return ZERO
        if not any(at.k == 'br' for at, e in m) and (c > 0 or q.denominator == 1) and \
                not (q.denominator != 1 and any((e if isinstance(e, int) else 1) % 2 == 0 if isinstance(e, int) else False for at, e in m)):
            cc, cm = _numpow(c, q)
            mm = []
            ex = []
            for at, e in m:
                ne = Fr(e) * q
                if ne.denominator == 1: ne = int(ne)
                mm.append((at, ne))
            r = _poly({(): cc})
            r = mul(r, cm)
            for at, e in mm:
                if at.k == 'par' and e >= 1:
                    n = math.floor(e)
                    r = mul(r, powq(at.a[0], Fr(n)))
                    e = e - n
                    if e == 0: continue
                r = mul(r, _poly({((at, e),): Fr(1)}))
            return r
        if q.denominator != 1:
            # even powers inside a root:  (x^2)^(1/2) = |x|
            mm, root = [], ONE
            ok = c > 0 and not any(at.k == 'br' for at, e in m)
            if ok:
                cc, cm = _numpow(c, q)
                r = mul(_poly({(): cc}), cm)
                for at, e in m:
                    if isinstance(e, int) and e % 2 == 0:
                        b = tabs(atom(at))
                    else:
                        b = atom(at)
                    ne = Fr(e) * q
                    r = mul(r, _atompow(b, ne))
                return r
    # general polynomial: extract content
    lead = p.a[0][1]
    c = abs(lead) if q.denominator != 1 else lead
    # common monomial factor
    common = dict(p.a[0][0])
    for m, _ in p.a[1:]:
        dm = dict(m)
        for at in list(common):
            if at not in dm:
                # exponents may be negative: factor min(e, 0)
                common[at] = min(common[at], 0)
            else:
                common[at] = min(common[at], dm[at])
        for at in dm:
            if at not in common and dm[at] < 0:
                common[at] = dm[at]
    common = {at: e for at, e in common.items() if e != 0 and at.k != 'br'}
    if q.denominator != 1:
        common = {at: e for at, e in common.items() if known_pos(at)}
    if len(p.a) > 1 and (common or c != 1):
        inv = tuple(sorted(((at, -e) for at, e in common.items()), key=lambda x: x[0].s))
        rest = mul(scale(p, 1 / Fr(c)), _poly({inv: Fr(1)}))
        r = powq(rest, q) if len(rest.a) == 1 else _parpow(rest, q)
        cc, cm = _numpow(Fr(c), q)
        r = mul(mul(r, _poly({(): cc})), cm)
        for at, e in common.items():
            r = mul(r, _atompow(atom(at), Fr(e) * q))
        return r
    return _parpow(p, q)


def known_pos(at):
    return (at.k == 'app' and at.a[0] == 'exp') or at is PI_ATOM


def pos_par(at):
    """a bracket that is syntactically positive"""
    return at.k == 'par' and is_nonneg_syn(at.a[0]) and any(all(known_pos(x) for x, e in m) for m, c in at.a[0].a)


def _atompow(b, e):
    (m, c), = b.a
    (at, e0), = m
    e = Fr(e0) * e
    if e.denominator == 1: e = int(e)
    return _poly({((at, e),): Fr(1)}) if e != 0 else ONE


def _parpow(p, q):
    # factor par: split integer part
    if q.denominator == 1:
        q = int(q)
    at = mk('par', (p,), p.fv, p.depth)
    n = math.floor(q) if q > 0 else 0
    r = powq(p, Fr(n)) if n else ONE
    e = q - n
    if e == 0: return r
    return mul(r, _poly({((at, e),): Fr(1)}))


def _numpow(c, q):
    """c**q -> (rational, poly of radicals)"""
    if q.denominator == 1:
        return Fr(c) ** int(q), ONE
    n, d = q.numerator, q.denominator
    c = Fr(c)
    if c < 0:
        return Fr(1), app('npow', (num(c), num(q)))
    def root(x):
        r = round(float(x) ** (1.0 / d)) if x < 10**15 else None
        return r if r is not None and r ** d == x else None
    a, b = root(c.numerator), root(c.denominator)
    if a is not None and b is not None:
        return Fr(a, b) ** n, ONE
    # prime-factor the number so radicals are canonical
    r = Fr(1)
    pr = ONE
    for prime, e in _factor(c):
        ee = Fr(e) * q
        fl = math.floor(ee)
        r *= Fr(prime) ** fl
        fe = ee - fl
        if fe != 0:
            pr = mul(pr, _poly({((mk('int', (prime,), frozenset()), fe),): Fr(1)}))
    return r, pr


def _factor(c):
    out = {}
    for x, sg in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while x > 1 and p < 10000:
            while x % p == 0:
                out[p] = out.get(p, 0) + sg
                x //= p
            p += 1
        if x > 1:
            out[x] = out.get(x, 0) + sg
    return sorted(out.items())


# ---------------------------------------------------------------- symbols
def sym(name, sort='R', ub=None):
    """sort 'R' real, 'Z' integer.  ub: for an index symbol, 0 <= sym < ub"""
    t = mk('sym', (name, sort) + ((ub,) if ub is not None else ()), frozenset([name]))
    return t


def rsym(name): return atom(sym(name))
def zsym(name): return atom(sym(name, 'Z'))


def fresh_idx(ub, hint='x'):
    _fresh[0] += 1
    return atom(sym('%s!%d' % (hint, _fresh[0]), 'Z', ub))


def fresh_name(h):
    _fresh[0] += 1
    return '%s!%d' % (h, _fresh[0])


INF_ATOM = sym('INF')
PI_ATOM = sym('PI')
INF_MONO = ((INF_ATOM, 1),)
ZERO = num(0)
ONE = num(1)
INF = atom(INF_ATOM)
PI = atom(PI_ATOM)


def as_atom(p):
    """the single atom of p (coef 1, exp 1) or None"""
    if p.k == 'poly' and len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        return p.a[0][0][0][0]
    return None


# ---------------------------------------------------------------- applications
def rawapp(fn, args):
    return atom(mk('app', (fn,) + tuple(args), _fvs(*args), max([x.depth for x in args], default=0)))


ODD = {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'erf'}
EVEN = {'cos', 'cosh'}


def lead_neg(p):
    return bool(p.a) and p.a[0][1] < 0


def tabs(p):
    if is_num(p): return num(abs(numval(p)))
    if len(p.a) == 1:
        m, c = p.a[0]
        r = num(abs(c))
        for at, e in m:
            if isinstance(e, int) and e % 2 == 0 or at.k == 'br' or known_pos(at) or isinstance(e, Fr) or (at.k == 'app' and at.a[0] == 'abs'):
                r = mul(r, _poly({((at, e),): Fr(1)}))
            else:
                ab = as_atom(rawapp('abs', (atom(at),)))
                r = mul(r, _poly({((ab, e),): Fr(1)}))
        return r
    lead = p.a[0][1]
    return scale(rawapp('abs', (scale(p, 1 / lead),)), abs(lead))


def app(fn, args):
    args = tuple(args)
    if fn == 'abs': return tabs(args[0])
    if fn == 'sqrt': return powq(args[0], Fr(1, 2))
    if fn == 'exp':
        p = args[0]
        if p.a and p.a[0][0] == INF_MONO and len(p.a) == 1:
            return INF if p.a[0][1] > 0 else ZERO
        r = ONE
        for m, c in p.a:
            if not any(at.k == 'br' for at, e in m):
                lg = [(at, e) for at, e in m if at.k == 'app' and at.a[0] == 'log']
                if len(m) == 1 and len(lg) == 1 and lg[0][1] == 1:
                    r = mul(r, powq(lg[0][0].a[1], c))
                    continue
            at = as_atom(rawapp('exp', (_poly({m: Fr(1)}),)))
            e = int(c) if c.denominator == 1 else c
            r = mul(r, _poly({((at, e),): Fr(1)}))
        return r
    if fn == 'log':
        p = args[0]
        if is_num(p):
            c = numval(p)
            if c > 0:
                r = ZERO
                for pr, e in _factor(c):
                    r = add(r, scale(rawapp('log', (num(pr),)), e))
                return r
        if len(p.a) == 1:
            m, c = p.a[0]
            if c > 0 or True:
                r = app('log', (num(abs(c)),)) if abs(c) != 1 else ZERO
                for at, e in m:
                    if at.k == 'br':
                        return rawapp('log', (p,))
                    r = add(r, scale(logabs(at), Fr(e)))
                return r
        if p.a:
            c = abs(p.a[0][1])
            if c != 1:
                return add(app('log', (num(c),)), app('log', (scale(p, 1 / c),)))
            if p.a[0][1] < 0:
                return rawapp('log', (neg(p),))     # log|p|
        return rawapp('log', (p,))
    if fn in ODD or fn in EVEN:
        p = args[0]
        if not p.a:
            return ZERO if fn in ODD else ONE
        if lead_neg(p):
            r = app(fn, (neg(p),))
            return neg(r) if fn in ODD else r
    if fn == 'pow':
        b, e = args
        if is_num(e):
            return powq(b, numval(e))
        if is_num(b) and numval(b) == 1: return ONE
    if fn in ('min', 'max'):
        a, b = args
        if a is b: return a
        if a.s > b.s: a, b = b, a
        lt_ = lt(a, b)
        return ite(lt_, a, b) if fn == 'min' else ite(lt_, b, a)
    if fn == 'sign':
        return add(br(lt(ZERO, args[0])), neg(br(lt(args[0], ZERO))))
    if fn == 'inv': return mk_inv(*args)
    return rawapp(fn, args)


def logabs(at):
    """log|atom|"""
    if at.k == 'app':
        if at.a[0] == 'exp': return at.a[1]
        if at.a[0] == 'abs': return app('log', (at.a[1],))
    if at.k == 'prod':
        vs, body = open_b(at)
        r = app('log', (body,))
        for v, ub in vs:
            r = mk_sum(v, ub, r)
        return r
    if at.k == 'par':
        return app('log', (at.a[0],))
    if at.k == 'int':
        return rawapp('log', (num(at.a[0]),))
    return rawapp('log', (atom(at),))


# ---------------------------------------------------------------- array element
SYMM = set()          # names of symmetric arrays


def sel(name, i, j):
    i, j = tm(i), tm(j)
    if name in SYMM and i.s > j.s:
        i, j = j, i
    return rawapp('@' + name, (i, j))


# ---------------------------------------------------------------- matrices as lambdas
def lam2(body, i, j):
    """close body over index polys i, j (symbols)"""
    d = body.depth + 1
    r, c = atom(sym('%%L%dr' % d, 'Z')), atom(sym('%%L%dc' % d, 'Z'))
    b = subst(body, {as_atom(i): r, as_atom(j): c})
    fv = b.fv - {'%%L%dr' % d, '%%L%dc' % d}
    return mk('lam', (d, b), fv, d)


def lam_apply(l, i, j):
    d, b = l.a
    return subst(b, {sym('%%L%dr' % d, 'Z'): tm(i), sym('%%L%dc' % d, 'Z'): tm(j)})


def lam_T(l):
    i, j = fresh_idx(None), fresh_idx(None)
    return lam2(lam_apply(l, j, i), i, j)


def mk_inv(n, l, i, j):
    lt_ = lam_T(l)
    if lt_ is l:
        if i.s > j.s: i, j = j, i
    elif lt_.s < l.s:
        l = lt_
        i, j = j, i
    a, b = fresh_idx(None), fresh_idx(None)
    body = lam_apply(l, a, b)
    if len(body.a) == 1:
        m, c = body.a[0]
        # pull scalar factors out:  inv(c*M) = inv(M)/c
        dep = [(at, e) for at, e in m if as_atom(a).a[0] in at.fv or as_atom(b).a[0] in at.fv]
        ind = [(at, -e) for at, e in m if not (as_atom(a).a[0] in at.fv or as_atom(b).a[0] in at.fv)]
        if (ind or c != 1) and dep:
            sc = mul(num(1 / c), _poly({tuple(sorted(ind, key=lambda x: x[0].s)): Fr(1)}))
            return mul(sc, mk_inv(n, lam2(_poly({tuple(dep): Fr(1)}), a, b), i, j))
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].k == 'app' and dep[0][0].a[0] == 'inv':
            _, n2, l2, p, q = dep[0][0].a
            if p is a and q is b: return lam_apply(l2, i, j)
            if p is b and q is a: return lam_apply(l2, j, i)
        if len(dep) == 1 and dep[0][0].k == 'br':
            if dep[0][0].a[0] is eq(a, b):
                return mul(num(1 / c), br(eq(i, j)))
    return rawapp('inv', (n, l, i, j))


def mk_det(n, l):
    lt_ = lam_T(l)
    if lt_.s < l.s: l = lt_
    a, b = fresh_idx(None), fresh_idx(None)
    body = lam_apply(l, a, b)
    if len(body.a) == 1:
        m, c = body.a[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'app' and m[0][0].a[0] == 'inv':
            _, n2, l2, p, q = m[0][0].a
            if c == 1: return recip(mk_det(n, l2))
        if c == 1 and len(m) == 1 and m[0][0].k == 'br' and m[0][0].a[0] is eq(a, b):
            return ONE
    return rawapp('det', (n, l))


# ---------------------------------------------------------------- booleans
BOOLK = {'true', 'false', 'cmp', 'and', 'or', 'not', 'forall', 'bsym', 'bapp'}
TRUE = mk('true', (), frozenset())
FALSE = mk('false', (), frozenset())


def is_int_poly(p):
    for m, c in p.a:
        if c.denominator != 1: return False
        for at, e in m:
            if not (at.k == 'sym' and at.a[1] == 'Z' and isinstance(e, int) and e > 0):
                return False
    return True


def _cmpnorm(op, p):
    """op in '<','==': p op 0"""
    if is_num(p):
        c = numval(p)
        return TRUE if (c < 0 if op == '<' else c == 0) else FALSE
    if any(m == INF_MONO for m, c in p.a):
        c = dict(p.a)[INF_MONO]
        if len(p.a) == 1:
            return (TRUE if c < 0 else FALSE) if op == '<' else FALSE
    if len(p.a) > 1:
        for m, c in p.a:        # clear denominators known to be positive
            for at, e in m:
                if e < 0 and at.k == 'par' and e.denominator == 1 and pos_par(at): return _cmpnorm(op, mul(p, _poly({((at, -e),): Fr(1)})))
        b = _bracket_cmp(op, p)
        if b is not None: return b
    b = _ext_cmp(op, p)
    if b is not None: return b
    lead = p.a[0][1]
    if op == '==':
        q = scale(p, 1 / lead)
        if len(q.a) == 1:
            # product == 0  <=> some factor == 0 (exponents > 0)
            m, c = q.a[0]
            fs = []
            for at, e in m:
                if e < 0: continue
                if known_pos(at) or at.k == 'int' or pos_par(at): continue
                if at.k == 'app' and at.a[0] == 'abs':
                    fs.append(_cmpnorm('==', at.a[1])); continue
                if at.k == 'br':
                    fs.append(bnot(at.a[0])); continue
                if at.k == 'sum':
                    f = _count_cmp(atom(at))
                    if f is not None: fs.append(f); continue
                if at.k == 'par':
                    fs.append(_cmpnorm('==', at.a[0])); continue
                fs.append(mk('cmp', ('==', atom(at)), at.fv, at.depth))
            if fs: return bor(*fs)
            return FALSE
        f = _count_cmp(q)
        if f is not None: return f
        return mk('cmp', ('==', q), q.fv, q.depth)
    # p < 0 ; sign-normalise
    q = scale(p, 1 / abs(lead))
    if len(q.a) == 1:
        m, c = q.a[0]
        if any(at.k == 'br' for at, e in m):
            b = [at.a[0] for at, e in m if at.k == 'br']
            rest = _poly({tuple((at, e) for at, e in m if at.k != 'br'): c})
            return band(*b, _cmpnorm('<', rest))
        rest = tuple((at, e) for at, e in m if not (known_pos(at) or at.k == 'int' or pos_par(at)))
        if len(rest) != len(m):
            return _cmpnorm('<', _poly({rest: c}))
    if lead < 0:
        # -q' < 0  with q' sign-normalised:  not (q' < 0) and not (q' == 0)
        q2 = neg(q)
        if is_nonneg_syn(q2) and False:
            return bnot(mk('cmp', ('==', q2), q2.fv, q2.depth))
        return band(bnot(_cmpnorm('<', q2)), bnot(_cmpnorm('==', q2)))
    if is_nonneg_syn(q): return FALSE
    return mk('cmp', ('<', q), q.fv, q.depth)


def _ext_cmp(op, p):
    """comparison of a least / greatest coefficient (of a non-empty array): a statement about all coefficients"""
    for m, c in p.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'app' and m[0][0].a[0] in ('extMIN', 'extMAX'): break
    else: return None
    if op == '==': return band(bnot(_cmpnorm('<', p)), bnot(_cmpnorm('<', neg(p))))
    fn, (l, R, C) = m[0][0].a[0], m[0][0].a[1:]
    rest = add(p, neg(_poly({m: c})))
    i, j = (ZERO if R is ONE else fresh_idx(None, 'e')), (ZERO if C is ONE else fresh_idx(None, 'e'))
    b = _cmpnorm('<', add(scale(lam_apply(l, i, j), c), rest))
    for v, ub in ((i, R), (j, C)):
        if v is not ZERO: b = (exists if (c > 0) == (fn == 'extMIN') else forall)(v, ub, b)
    return b


def _count_cmp(q):
    """(number of i < ub with c(i)) == 0, or == ub"""
    ss = [(m, c) for m, c in q.a if any(at.k == 'sum' for at, e in m)]
    if len(ss) != 1: return None
    m, c = ss[0]
    if len(m) != 1 or m[0][1] != 1: return None
    vs, b = open_b(m[0][0])
    if len(vs) != 1 or len(b.a) != 1 or b.a[0][1] != 1 or not all(at.k == 'br' for at, e in b.a[0][0]): return None
    rest = scale(add(q, neg(_poly({m: c}))), -1 / Fr(c))          # count == rest
    v, ub = vs[0]
    cond = band(*[at.a[0] for at, e in b.a[0][0]])
    if not rest.a: return forall(v, ub, bnot(cond))
    if rest is ub: return forall(v, ub, cond)
    return None


def _feasible(lits):
    """comparisons (with truth values) of one quantity with constants: satisfiable?"""
    groups = {}
    for c, v in lits:
        if c.k != 'cmp': continue
        base, rel, val = _cmpkey(c)
        groups.setdefault(base, []).append((rel, val, v))
    for g in groups.values():
        lo, hi, no = None, None, set()          # (value, strict)
        for rel, val, v in g:
            if rel == '==':
                if not v: no.add(val); continue
                l, h = (val, 0), (val, 0)
            elif rel == '<': l, h = (None, (val, -1)) if v else ((val, 0), None)
            else: l, h = ((val, 1), None) if v else (None, (val, 0))
            if l is not None and (lo is None or l > lo): lo = l
            if h is not None and (hi is None or h < hi): hi = h
        if lo is not None and hi is not None:
            if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1] or lo[0] in no): return False
    return True


def _bracket_cmp(op, p):
    """comparison of a polynomial in Iverson brackets only: a propositional formula"""
    ats = {}
    for m, c in p.a:
        for at, e in m:
            if at.k != 'br' or e != 1: return None
            ats[at.s] = at
        if len(ats) > 5: return None
    ats = [ats[k] for k in sorted(ats)]
    rows = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        w = dict((a.s, v) for a, v in zip(ats, vals))
        zero = neg_ = False
        if not _feasible([(a.a[0], w[a.s]) for a in ats]): continue
        tot = sum((c for m, c in p.a if all(w[at.s] for at, e in m)), Fr(0))
        rows.append((vals, tot < 0 if op == '<' else tot == 0))
    if all(v for _, v in rows): return TRUE
    if not any(v for _, v in rows): return FALSE
    n = len(ats)
    for pat in sorted(itertools.product((None, True, False), repeat=n), key=lambda t: sum(x is not None for x in t)):
        for conj in (True, False):
            f = lambda vals: (all if conj else any)(vals[k] == pat[k] for k in range(n) if pat[k] is not None)
            if all(f(vals) == v for vals, v in rows):
                lits = [ats[k].a[0] if pat[k] else bnot(ats[k].a[0]) for k in range(n) if pat[k] is not None]
                return band(*lits) if conj else bor(*lits)
    return bor(*[band(*[a.a[0] if v else bnot(a.a[0]) for a, v in zip(ats, vals)]) for vals, ok in rows if ok])


def is_nonneg_syn(p):
    """syntactically non-negative"""
    for m, c in p.a:
        if c < 0: return False
        for at, e in m:
            if isinstance(e, int) and e % 2 == 0: continue
            if known_pos(at) or at.k in ('br', 'int') or isinstance(e, Fr): continue
            if at.k == 'app' and at.a[0] == 'abs': continue
            if at.k == 'sym' and at.a[1] == 'Z' and len(at.a) > 2: continue
            if at.k == 'sum' and is_nonneg_syn(at.a[1]): continue
            if at.k == 'sym' and at.a[1] == 'Z' and at.a[0].startswith('n$'): continue
            return False
    return True


def lt(a, b): return _cmpnorm('<', tm(a) - tm(b))
def eq(a, b): return _cmpnorm('==', tm(a) - tm(b))
def le(a, b): return bnot(lt(b, a))
def gt(a, b): return lt(b, a)
def ge(a, b): return bnot(lt(a, b))
def ne(a, b): return bnot(eq(a, b))


def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.k == 'not': return b.a[0]
    if b.k == 'and': return bor(*[bnot(x) for x in b.a])
    if b.k == 'or': return band(*[bnot(x) for x in b.a])
    return mk('not', (b,), b.fv, b.depth)


def _nary(bs, kind, unit, zero):
    dual = 'or' if kind == 'and' else 'and'
    s = {}
    for b in bs:
        if b is zero: return zero
        if b is unit: continue
        for x in (b.a if b.k == kind else (b,)):
            s[x.s] = x
    for x in s.values():
        if bnot(x).s in s: return zero
    for x in list(s.values()):
        if x.k != dual: continue
        # unit propagation into a clause
        if any(y.s in s for y in x.a): del s[x.s]; continue
        rest = [y for y in x.a if bnot(y).s not in s]
        if len(rest) < len(x.a):
            del s[x.s]
            r = _nary(rest, dual, zero, unit)
            return _nary(list(s.values()) + [r], kind, unit, zero)
    ltz = {}
    for x in s.values():
        y, v = (x.a[0], False) if x.k == 'not' else (x, True)
        if y.k == 'cmp': ltz.setdefault(y.a[1], {})[y.a[0]] = (x, v if kind == 'and' else not v)
    for q, d in ltz.items():
        # q < 0 and q == 0 exclude each other
        if len(d) < 2: continue
        (xl, vl), (xe, ve) = d['<'], d['==']
        if vl and ve: return zero
        if vl: del s[xe.s]
        elif ve: del s[xl.s]
    if not s: return unit
    l = tuple(s[k] for k in sorted(s))
    if len(l) == 1: return l[0]
    return mk(kind, l, _fvs(*l), max(x.depth for x in l))


def band(*bs): return _nary(bs, 'and', TRUE, FALSE)
def bor(*bs): return _nary(bs, 'or', FALSE, TRUE)


def forall(v, ub, body):
    """for all 0<=v<ub: body.   v index poly"""
    if body in (TRUE, FALSE) and body is TRUE: return TRUE
    va = as_atom(v)
    if va.a[0] not in body.fv:
        return bor(body, bnot(lt(ZERO, ub)))
    if body.k == 'and' and va.a[0].startswith('%F'):
        return band(*[forall(v, ub, x) for x in body.a])
    d = max(body.depth, ub.depth) + 1
    nv = atom(sym('%%F%d' % d, 'Z'))
    b = subst(body, {va: nv})
    if b.k == 'and' or b in (TRUE, FALSE): return forall(nv, ub, b)
    return mk('forall', (d, ub, b), _fvs(ub, b) - {'%%F%d' % d}, d)


def open_forall(f):
    d, ub, b = f.a
    v = fresh_idx(ub, 'q')
    return v, ub, subst(b, {sym('%%F%d' % d, 'Z'): v})


def exists(v, ub, body):
    return bnot(forall(v, ub, bnot(body)))


def br(c):
    """Iverson bracket as a polynomial"""
    if c is TRUE: return ONE
    if c is FALSE: return ZERO
    if c.k == 'not': return ONE - br(c.a[0])
    if c.k == 'and':
        r = ONE
        for x in c.a: r = mul(r, br(x))
        return r
    if c.k == 'or':
        r = ONE
        for x in c.a: r = mul(r, ONE - br(x))
        return ONE - r
    return atom(mk('br', (c,), c.fv, c.depth))


def has_inf(t):
    return 'INF' in t.fv


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.k in BOOLK:
        return bor(band(c, a), band(bnot(c), b))
    if c.k == 'not': return ite(c.a[0], b, a)
    if has_inf(a) or has_inf(b):
        return atom(mk('ite', (c, a, b), _fvs(c, a, b), max(c.depth, a.depth, b.depth)))
    x = br(c)
    return add(b, mul(x, add(a, neg(b))))


# ---------------------------------------------------------------- binders
def open_b(t):
    """open a sum/prod atom: ([(var, ub)], body)"""
    ubs, body, d = t.a
    vs, mp = [], {}
    for k, ub in enumerate(ubs):
        v = fresh_idx(ub, 'b')
        vs.append((v, ub))
        mp[sym('%%%d_%d' % (d, k), 'Z', ub)] = v
    return vs, subst(body, mp)


def close_b(kind, vs, body):
    """canonical sum/prod atom for binders vs over body (poly)"""
    d = max([body.depth] + [ub.depth for _, ub in vs]) + 1
    best = None
    n = len(vs)
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for pm in perms:
        mp = {}
        ubs = []
        for k, ix in enumerate(pm):
            v, ub = vs[ix]
            ubs.append(ub)
            mp[as_atom(v)] = atom(sym('%%%d_%d' % (d, k), 'Z', ub))
        b = subst(body, mp)
        key = (tuple(u.s for u in ubs), b.s)
        if best is None or key < best[0]:
            best = (key, tuple(ubs), b)
    _, ubs, b = best
    names = {'%%%d_%d' % (d, k) for k in range(n)}
    fv = _fvs(b, *ubs) - names
    return mk(kind, (ubs, b, d), fv, d)


def _lin_in(q, va):
    """q = c*va + rest with c = +-1, rest free of va; returns rest/-c or None"""
    c = None
    rest = {}
    for m, k in q.a:
        if any(at is va for at, e in m):
            if m == ((va, 1),): c = k
            else: return None
        else:
            for at, e in m:
                if va.a[0] in at.fv: return None
            rest[m] = k
    if c in (1, -1):
        return scale(_poly(rest), -1 / Fr(c))
    return None


def in_range(s, ub):
    """bracket of 0<=s<ub, simplified with the declared range of index symbols"""
    a = as_atom(s)
    if a is not None and a.k == 'sym' and len(a.a) > 2 and a.a[2] is ub:
        return TRUE
    return band(le(ZERO, s), lt(s, ub))


def mk_sum(v, ub, body):
    va = as_atom(v)
    vn = va.a[0]
    body = tm(body)
    if is_num(ub) and numval(ub) <= 8:
        r = ZERO
        for k in range(int(numval(ub))):
            r = add(r, subst(body, {va: num(k)}))
        return r
    acc = ZERO
    for m, c in body.a:
        acc = add(acc, scale(_sum_mono([(v, ub)], m), c))
    return acc


def _sum_mono(vs, m):
    """sum over binders vs of monomial m -> poly"""
    names = {as_atom(v).a[0]: (v, ub) for v, ub in vs}
    # flatten nested sums that mention a binder
    for ix, (at, e) in enumerate(m):
        if at.k == 'sum' and isinstance(e, int) and e > 0 and (at.fv & names.keys()):
            ivs, ib = open_b(at)
            rest = m[:ix] + (((at, e - 1),) if e > 1 else ()) + m[ix + 1:]
            r = ZERO
            prod = mul(_poly({rest: Fr(1)}), ib)
            for m2, c2 in prod.a:
                r = add(r, scale(_sum_mono(vs + ivs, m2), c2))
            return r
    # delta elimination
    for ix, (at, e) in enumerate(m):
        if at.k == 'br' and at.a[0].k == 'cmp' and at.a[0].a[0] == '==':
            q = at.a[0].a[1]
            for nme, (v, ub) in names.items():
                if nme in q.fv:
                    s = _lin_in(q, as_atom(v))
                    if s is None: continue
                    rest = _poly({m[:ix] + m[ix + 1:]: Fr(1)})
                    rest = subst(rest, {as_atom(v): s})
                    rest = mul(rest, br(in_range(s, ub)))
                    vs2 = [(w, u) for w, u in vs if w is not v]
                    r = ZERO
                    for m2, c2 in rest.a:
                        r = add(r, scale(_sum_mono(vs2, m2), c2) if vs2 else _poly({m2: c2}))
                    return r
    # inverse contraction: sum_k A(a,k) inv(A)(k,b)
    for ix, (at, e) in enumerate(m):
        if at.k == 'app' and at.a[0] == 'inv' and isinstance(e, int) and e >= 1:
            _, n, l, p, q = at.a
            for (kk, other, flip) in ((p, q, False), (q, p, True)):
                ka = as_atom(kk)
                if ka is None or ka.a[0] not in names or names[ka.a[0]][1] is not n: continue
                if ka.a[0] in other.fv: continue
                users = [(at2, e2) for at2, e2 in m if ka.a[0] in at2.fv]
                if len(users) != 2 or any(e2 != 1 for _, e2 in users): continue
                o2 = [u for u, _ in users if u is not at]
                if len(o2) != 1: continue
                o2 = o2[0]
                if o2.k != 'app' or not o2.a[0].startswith('@'): continue
                f = None
                x, y = o2.a[1], o2.a[2]
                # inv(l)(p,q) with k=p :  sum_k M(a,k) inv(k,q)  : o2 == l(a,k), a the other index
                for a_ in (x, y):
                    if ka.a[0] in a_.fv: continue
                    cand = lam_apply(l, a_, kk) if not flip else lam_apply(l, kk, a_)
                    if cand is atom(o2):
                        f = a_; break
                if f is None: continue
                rest = tuple((at2, e2) for at2, e2 in m if at2 is not at and at2 is not o2)
                rest = mul(_poly({rest: Fr(1)}), br(eq(f, other)))
                vs2 = [(w, u) for w, u in vs if w is not names[ka.a[0]][0]]
                r = ZERO
                for m2, c2 in rest.a:
                    r = add(r, scale(_sum_mono(vs2, m2), c2) if vs2 else _poly({m2: c2}))
                return r
    # connected components
    comp = {n: {n} for n in names}
    for at, e in m:
        ns = [n for n in names if n in at.fv]
        if len(ns) > 1:
            u = set()
            for n in ns: u |= comp[n]
            for n in u: comp[n] = u
    r = _poly({tuple((at, e) for at, e in m if not (at.fv & names.keys())): Fr(1)})
    done = set()
    for n in names:
        if n in done: continue
        cset = comp[n]
        done |= cset
        sub = tuple((at, e) for at, e in m if at.fv & cset)
        if not sub:
            for x in cset: r = mul(r, names[x][1])
            continue
        cvs = [names[x] for x in sorted(cset)]
        at = close_b('sum', cvs, _poly({sub: Fr(1)}))
        ubs, bb, d = at.a
        if len(bb.a) == 1 and bb.a[0][1] != 1:
            # renaming the binder may renormalise a parenthesised factor: pull the constant out
            r = scale(r, bb.a[0][1])
            at = mk('sum', (ubs, scale(bb, 1 / bb.a[0][1]), d), at.fv, d)
        r = mul(r, atom(at))
    return r


def mk_prod(v, ub, body):
    va = as_atom(v)
    vn = va.a[0]
    body = tm(body)
    if is_num(ub) and numval(ub) <= 8:
        r = ONE
        for k in range(int(numval(ub))):
            r = mul(r, subst(body, {va: num(k)}))
        return r
    if body is ONE: return ONE
    if len(body.a) == 1:
        m, c = body.a[0]
        if not any(at.k == 'br' for at, e in m):
            r = ONE
            if c != 1: r = mul(r, rawapp('powi', (num(c), ub)))
            for at, e in m:
                if vn not in at.fv:
                    r = mul(r, powq_any(rawapp('powi', (atom(at), ub)), e))
                elif at.k == 'app' and at.a[0] == 'exp':
                    r = mul(r, app('exp', (scale(mk_sum(v, ub, at.a[1]), Fr(e)),)))
                elif at.k == 'prod':
                    ivs, ib = open_b(at)
                    r = mul(r, powq_any(_prod_atom([(v, ub)] + ivs, ib), e))
                elif at.k == 'app' and at.a[0] == 'factor3' and at.a[1] is ub and at.a[3] is v:
                    r = mul(r, powq_any(mk_det(ub, at.a[2]), e))     # determinant from the diagonal factor
                else:
                    r = mul(r, powq_any(_prod_atom([(v, ub)], atom(at)), e))
            return r
    return _prod_atom([(v, ub)], body)


def powq_any(p, e):
    return powq(p, Fr(e))


def _prod_atom(vs, body):
    # a conditional product over inner binders: prod_{v} prod_{w} ...
    return atom(close_b('prod', vs, body))


# ---------------------------------------------------------------- substitution
def subst(t, mp):
    names = set()
    for k in mp:
        names |= k.fv if k.k != 'sym' else {k.a[0]}
    memo = {}
    return _subst(t, mp, names, memo)


def _subst(t, mp, names, memo):
    if not (t.fv & names):
        return t
    r = memo.get(t)
    if r is not None: return r
    k = t.k
    if t in mp:
        r = tm(mp[t]) if t.k not in BOOLK else mp[t]
    elif k == 'poly':
        d = ZERO
        for m, c in t.a:
            x = num(c)
            for at, e in m:
                if at.fv & names:
                    b = _subst(at, mp, names, memo)
                    x = mul(x, powq(tm(b), Fr(e)))
                else:
                    x = mul(x, _poly({((at, e),): Fr(1)}))
            d = add(d, x)
        r = d
    elif k == 'sym':
        r = atom(t)
    elif k == 'app':
        fn = t.a[0]
        args = [_subst(x, mp, names, memo) for x in t.a[1:]]
        args = [tm(x) if x.k not in ('lam',) and x.k not in BOOLK else x for x in args]
        if fn.startswith('@'): r = sel(fn[1:], *args)
        elif fn == 'det': r = mk_det(*args)
        elif fn == 'inv': r = mk_inv(*args)
        else: r = app(fn, args)
    elif k == 'par':
        r = tm(_subst(t.a[0], mp, names, memo))
    elif k == 'lam':
        d, b = t.a
        i, j = fresh_idx(None), fresh_idx(None)
        bb = subst(b, {sym('%%L%dr' % d, 'Z'): i, sym('%%L%dc' % d, 'Z'): j})
        r = lam2(subst(bb, mp), i, j)
    elif k in ('sum', 'prod'):
        vs, body = open_b(t)
        body = subst(body, mp)
        for v, ub in reversed(vs):
            ub2 = subst(ub, mp)
            if ub2 is not ub:
                v2 = fresh_idx(ub2, 'b')
                body = subst(body, {as_atom(v): v2})
                v = v2
            body = (mk_sum if k == 'sum' else mk_prod)(v, ub2, body)
        r = body
    elif k == 'br':
        r = br(_subst(t.a[0], mp, names, memo))
    elif k == 'ite':
        r = ite(*[_subst(x, mp, names, memo) for x in t.a])
    elif k == 'cmp':
        r = _cmpnorm(t.a[0], _subst(t.a[1], mp, names, memo))
    elif k == 'not': r = bnot(_subst(t.a[0], mp, names, memo))
    elif k == 'and': r = band(*[_subst(x, mp, names, memo) for x in t.a])
    elif k == 'or': r = bor(*[_subst(x, mp, names, memo) for x in t.a])
    elif k == 'forall':
        v, ub, b = open_forall(t)
        b = subst(b, mp)
        r = forall(v, subst(ub, mp), b)
    elif k == 'bapp' and t.a[0] == 'posdef':
        r = posdef(_subst(t.a[2], mp, names, memo), _subst(t.a[1], mp, names, memo))
    else:
        r = t
    memo[t] = r
    return r


def subst_bool(t, mp):
    """replace literal conditions (bool terms) by TRUE/FALSE everywhere"""
    memo = {}
    def go(t):
        if t in mp: return mp[t]
        r = memo.get(t)
        if r is not None: return r
        k = t.k
        if k == 'poly':
            d = ZERO
            for m, c in t.a:
                x = num(c)
                for at, e in m:
                    b = go(at)
                    if b is at: x = mul(x, _poly({((at, e),): Fr(1)}))
                    else: x = mul(x, powq(tm(b), Fr(e)))
                    if not x.a: break
                d = add(d, x)
            r = d
        elif k == 'br':
            c = go(t.a[0])
            r = t if c is t.a[0] else br(c)
        elif k == 'ite':
            r = ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        elif k == 'par':
            b = go(t.a[0]); r = t if b is t.a[0] else tm(b)
        elif k == 'app':
            args = [go(x) for x in t.a[1:]]
            if all(x is y for x, y in zip(args, t.a[1:])): r = t
            else:
                fn = t.a[0]
                args = [tm(x) if x.k not in ('lam',) and x.k not in BOOLK else x for x in args]
                r = sel(fn[1:], *args) if fn.startswith('@') else mk_det(*args) if fn == 'det' else app(fn, args)
        elif k in ('sum', 'prod'):
            b = go(t.a[1])
            if b is t.a[1]: r = t
            else:
                vs, body = open_b(t)
                body = subst_bool(body, mp)
                for v, ub in reversed(vs):
                    body = (mk_sum if k == 'sum' else mk_prod)(v, ub, body)
                r = body
        elif k == 'not': r = bnot(go(t.a[0]))
        elif k == 'and': r = band(*[go(x) for x in t.a])
        elif k == 'or': r = bor(*[go(x) for x in t.a])
        elif k == 'cmp':
            q = go(t.a[1]); r = t if q is t.a[1] else _cmpnorm(t.a[0], q)
        elif k == 'forall':
            if go(t.a[2]) is t.a[2]: r = t
            else:
                v, ub, b = open_forall(t)
                r = forall(v, ub, subst_bool(b, mp))
        else: r = t
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- differentiation
def diff_sel(t, name, k, l):
    """d t / d name(k,l)"""
    tag = '@' + name
    memo = {}
    def dep(x):
        r = memo.get(x)
        if r is None:
            if x.k == 'app' and x.a[0] == tag: r = True
            else:
                r = any(dep(y) for y in _kids(x))
            memo[x] = r
        return r
    def d(t):
        if not dep(t): return ZERO
        if t.k == 'poly':
            r = ZERO
            for m, c in t.a:
                for ix, (at, e) in enumerate(m):
                    if not dep(at): continue
                    rest = m[:ix] + m[ix + 1:]
                    x = mul(_poly({rest: c * Fr(e)}), powq(atom(at), Fr(e) - 1))
                    r = add(r, mul(x, d(at)))
            return r
        if t.k == 'app':
            fn, args = t.a[0], t.a[1:]
            if fn == tag:
                i, j = args
                r = br(band(eq(i, k), eq(j, l)))
                if name in SYMM:
                    raise NotImplementedError
                return r
            if fn in D1:
                return mul(D1[fn](args[0]), d(args[0]))
            if fn == 'pow':
                b, e = args
                r = mul(mul(e, app('pow', (b, e - 1))), d(b))
                if dep(e):
                    r = add(r, mul(mul(app('log', (b,)), atom(t)), d(e)))
                return r
            if fn == 'powi':
                b, n = args
                return mul(mul(n, app('powi', (b, n - 1))), d(b))
            if fn == 'det':
                n, L = args
                i, j = fresh_idx(n), fresh_idx(n)
                b = mul(mul(atom(t), mk_inv(n, L, j, i)), d(lam_apply(L, i, j)))
                return mk_sum(i, n, mk_sum(j, n, b))
            if fn == 'inv':
                n, L, p, q = args
                i, j = fresh_idx(n), fresh_idx(n)
                b = neg(mul(mul(mk_inv(n, L, p, i), mk_inv(n, L, j, q)), d(lam_apply(L, i, j))))
                return mk_sum(i, n, mk_sum(j, n, b))
            raise NotImplementedError('diff ' + fn)
        if t.k == 'par': return d(t.a[0])
        if t.k == 'sum':
            vs, body = open_b(t)
            r = d(body)
            for v, ub in reversed(vs): r = mk_sum(v, ub, r)
            return r
        if t.k == 'prod':
            vs, body = open_b(t)
            # sum over the position p of d(body)(p) * prod_{w != p} body(w)
            r = d(body)
            ws, wb = open_b(t)
            same = TRUE
            for (v, _), (w, _) in zip(vs, ws): same = band(same, eq(v, w))
            pb = ite(same, ONE, wb)
            for w, ub in reversed(ws): pb = mk_prod(w, ub, pb)
            r = mul(r, pb)
            for v, ub in reversed(vs): r = mk_sum(v, ub, r)
            return r
        if t.k == 'ite': return ite(t.a[0], d(t.a[1]), d(t.a[2]))
        if t.k == 'br': return ZERO
        raise NotImplementedError('diff kind ' + t.k)
    return d(tm(t))


def _A(f): return lambda x: app(f, (x,))


D1 = {
    'sin': _A('cos'), 'cos': lambda x: neg(app('sin', (x,))),
    'tan': lambda x: powq(app('cos', (x,)), -2),
    'asin': lambda x: powq(ONE - x * x, Fr(-1, 2)),
    'acos': lambda x: neg(powq(ONE - x * x, Fr(-1, 2))),
    'atan': lambda x: recip(ONE + x * x),
    'exp': _A('exp'), 'log': recip,
    'sinh': _A('cosh'), 'cosh': _A('sinh'), 'tanh': lambda x: ONE - app('tanh', (x,)) ** 2,
    'erf': lambda x: mul(mul(num(2), powq(PI, Fr(-1, 2))), app('exp', (neg(x * x),))),
    'abs': lambda x: app('sign', (x,)),
}


def _kids(x):
    if x.k == 'poly':
        for m, c in x.a:
            for at, e in m: yield at
    else:
        for y in x.a:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T): yield z


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(_kids(x))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12: return '..'
    k = t.k
    f = lambda x: show(x, depth + 1)
    if k == 'poly':
        if not t.a: return '0'
        out = []
        for m, c in t.a:
            fs = []
            if c != 1 or not m: fs.append(str(c))
            for at, e in m:
                b = f(at)
                fs.append(b if e == 1 else '%s^%s' % (b, e if e > 0 and isinstance(e, int) else '(%s)' % e))
            out.append('*'.join(fs))
        return ' + '.join(out) if len(out) < 20 else ' + '.join(out[:20]) + ' + ...'
    if k == 'sym': return t.a[0]
    if k == 'int': return '#%d' % t.a[0]
    if k == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(f(x) for x in t.a[1:]))
    if k == 'par': return '(%s)' % f(t.a[0])
    if k == 'lam': return 'lam%d. %s' % (t.a[0], f(t.a[1]))
    if k in ('sum', 'prod'):
        return '%s{%s}[%s]' % (k.upper(), ','.join('%%%d_%d<%s' % (t.a[2], i, f(u)) for i, u in enumerate(t.a[0])), f(t.a[1]))
    if k == 'br': return '[%s]' % f(t.a[0])
    if k == 'ite': return 'ite(%s, %s, %s)' % tuple(f(x) for x in t.a)
    if k == 'cmp': return '%s %s 0' % (f(t.a[1]), t.a[0])
    if k == 'not': return '!(%s)' % f(t.a[0])
    if k == 'and': return '(%s)' % ' && '.join(f(x) for x in t.a)
    if k == 'or': return '(%s)' % ' || '.join(f(x) for x in t.a)
    if k == 'forall': return 'ALL %%F%d<%s: %s' % (t.a[0], f(t.a[1]), f(t.a[2]))
    return k


def posdef(n, L):
    """the matrix L (n by n) is positive definite"""
    return mk('bapp', ('posdef', L, n), _fvs(L, n), max(L.depth, n.depth))
