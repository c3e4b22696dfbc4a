"""Discharging obligations: normal-form kernel, then z3, then cvc5 (via z3's SMT2 dump);
numeric evaluation of the same terms provides refutations (concrete models) and a
sanity check of every proof."""
import math, random, time, subprocess, tempfile, os
from fractions import Fraction as Fr
import z3
from .terms import *
from . import terms as TM

STATS = {'nf': 0, 'z3': 0, 'cvc5': 0, 'solver_s': 0.0}
Z3_TIMEOUT = 4000


class Domains:
    """what is assumed of the named abstract arrays / symbols"""
    _n = 0
    def __init__(self):
        Domains._n += 1
        self.uid = Domains._n       # answers of the solver are remembered per domain
        self.kind = {}      # array name -> kind
        self.dims = {}      # array name -> (rows poly, cols poly)
        self.extra = []     # extra bool facts (closed)
        self.symkind = {}   # scalar symbol name -> kind

    def facts(self, at):
        """bool facts about an atom"""
        out = []
        if at.k == 'app':
            fn = at.a[0]
            x = atom(at)
            if fn.startswith('@'):
                kd = self.kind.get(fn[1:])
                out += kind_facts(kd, x, at.a[1], at.a[2])
            elif fn == 'exp': out.append(lt(ZERO, x))
            elif fn == 'abs': out.append(le(ZERO, x))
            elif fn in ('tanh', 'erf'):
                out += [lt(x, ONE), lt(num(-1), x)]
            elif fn in ('sin', 'cos'):
                out += [le(x, ONE), le(num(-1), x)]
            elif fn == 'cosh': out.append(le(ONE, x))
            elif fn == 'det':
                n, L = at.a[1:]
                a, b = fresh_idx(None), fresh_idx(None)
                body = as_atom(lam_apply(L, a, b))
                if body is not None and body.k == 'app' and body.a[0].startswith('@'):
                    kd = self.kind.get(body.a[0][1:])
                    if kd == 'spd': out.append(lt(ZERO, x))
                    if kd == 'invertible': out.append(ne(x, ZERO))
            elif fn == 'powi':
                pass
        elif at.k == 'sym':
            if at is PI_ATOM: out += [lt(num(3), PI), lt(PI, num(4))]
            elif at.a[0] in self.symkind:
                out += kind_facts(self.symkind[at.a[0]], atom(at), None, None)
        elif at.k == 'int': out.append(lt(ONE, atom(at)))
        elif at.k == 'sum':
            if is_nonneg_syn(at.a[1]) and False: out.append(le(ZERO, atom(at)))
        return out


def kind_facts(kd, x, i, j):
    if kd is None or kd == 'any': return []
    if kd == 'pos': return [lt(ZERO, x)]
    if kd == 'nonneg': return [le(ZERO, x)]
    if kd == 'nonzero': return [ne(x, ZERO)]
    if kd == 'unit': return [lt(x, ONE), lt(num(-1), x)]
    if kd == 'prob': return [lt(x, ONE), lt(ZERO, x)]
    if kd == 'bool': return [bor(eq(x, ZERO), eq(x, ONE))]
    if kd == 'cosnz': return [ne(app('cos', (x,)), ZERO)]
    if kd == 'spd':
        return [lt(ZERO, x)] if i is j and i is not None else []
    if kd == 'int': return []
    if isinstance(kd, tuple) and kd[0] == 'gt': return [lt(kd[1], x)]
    return []


# ---------------------------------------------------------------- numeric evaluation
class Env:
    def __init__(self, dom, rng):
        self.dom, self.rng = dom, rng
        self.s = {}
        self.arr = {}
        self.mats = {}
        self.fixed = {}
        self.cm = None      # values of closed terms, when all inputs are given (replay)
        self.cap = 6

    def real(self, kd):
        r = self.rng
        if kd == 'pos': return r.choice([0.5, 1.0, 2.0, r.uniform(0.1, 3)])
        if kd == 'nonneg': return r.choice([0.0, 1.0, r.uniform(0.1, 3)])
        if kd == 'nonzero': return r.choice([1.0, -1.0, 2.0, r.uniform(0.2, 2), -r.uniform(0.2, 2)])
        if kd == 'unit': return r.choice([0.0, 0.5, r.uniform(-.9, .9)])
        if kd == 'prob': return r.choice([0.5, r.uniform(.05, .95)])
        if kd == 'bool': return float(r.randint(0, 1))
        if kd == 'int': return float(r.randint(-2, 3))
        if kd == 'cosnz': return r.uniform(-1.4, 1.4)
        return r.choice([0.0, 1.0, -1.0, 2.0, r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-3, 3)])

    def sym(self, at):
        nm = at.a[0]
        if nm in self.s: return self.s[nm]
        if nm == 'PI': return math.pi
        if nm == 'INF': return math.inf
        if at.a[1] == 'Z':
            if len(at.a) > 2 and at.a[2] is not None:
                ub = ev(at.a[2], self)
                if ub <= 0: raise Infeasible()
                v = self.rng.randrange(int(ub))
            else:
                v = self.rng.choice([0, 1, 2, 2, 3, 3]) if nm.startswith('n$') else self.rng.randint(0, 3)
        else:
            v = self.real(self.dom.symkind.get(nm))
        self.s[nm] = v
        return v

    def element(self, nm, i, j):
        kd = self.dom.kind.get(nm)
        v = self.arr.get((nm, int(i), int(j)))
        if v is not None: return v
        if kd == 'spd':
            n = int(ev(self.dom.dims[nm][0], self))
            m = self.mats.get(nm)
            if m is None:
                import numpy as np
                b = np.array([[self.rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]).reshape(n, n)
                m = self.mats[nm] = b @ b.T + np.eye(n) * self.rng.uniform(0.3, 1)
            return float(m[int(i), int(j)]) if 0 <= i < n and 0 <= j < n else 0.0
        k = (nm, int(i), int(j))
        v = self.arr.get(k)
        if v is None:
            v = self.arr[k] = self.real(kd)
        return v


class Infeasible(Exception):
    pass


def ev(t, env, memo=None):
    if env.cm is not None and memo is not env.cm:
        for x in t.fv:
            if x[:1] == '%': break
        else: memo = env.cm
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    r = _ev(t, env, memo)
    memo[t] = r
    return r


def _pw(b, e):
    if e == 1: return b
    if isinstance(e, Fr):
        if b < 0: raise Infeasible()
        if b == 0 and e < 0: raise Infeasible()
        return b ** float(e)
    if b == 0 and e < 0: raise Infeasible()
    return b ** e


def _ev(t, env, memo):
    k = t.k
    if k == 'poly':
        tot = 0.0
        for m, c in t.a:
            x = float(c) if c.denominator != 1 else int(c)
            zero = False
            for at, e in m:
                if at.k == 'br':
                    if not ev(at.a[0], env, memo): zero = True; break
            if zero: continue
            for at, e in m:
                if at.k == 'br': continue
                x = x * _pw(ev(at, env, memo), e)
            tot += x
        if tot != tot: raise Infeasible()
        return tot
    if k == 'sym': return env.sym(t)
    if k == 'int': return t.a[0]
    if k == 'par': return ev(t.a[0], env, memo)
    if k == 'br': return 1.0 if ev(t.a[0], env, memo) else 0.0
    if k == 'ite': return ev(t.a[1] if ev(t.a[0], env, memo) else t.a[2], env, memo)
    if k == 'app':
        fn = t.a[0]
        if fn.startswith('@'):
            return env.element(fn[1:], ev(t.a[1], env, memo), ev(t.a[2], env, memo))
        if fn in ('det', 'inv'):
            import numpy as np
            n = int(ev(t.a[1], env, memo))
            key = ('mat', t.a[2])
            M = memo.get(key)
            if M is None:
                L = t.a[2]
                d, b = L.a
                M = np.zeros((n, n))
                for i in range(n):
                    for j in range(n):
                        M[i, j] = ev(lam_apply(L, num(i), num(j)), env)
                memo[key] = M
            if fn == 'det': return float(np.linalg.det(M)) if n else 1.0
            I = memo.get(('inv', t.a[2]))
            if I is None:
                if n == 0 or abs(np.linalg.det(M)) < 1e-4: raise Infeasible()
                I = memo[('inv', t.a[2])] = np.linalg.inv(M)
            return float(I[int(ev(t.a[3], env, memo)), int(ev(t.a[4], env, memo))])
        a = [ev(x, env, memo) for x in t.a[1:]]
        try:
            return FN[fn](*a)
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            raise Infeasible()
    if k in ('sum', 'prod'):
        ubs, body, d = t.a
        ns = [int(ev(u, env, memo)) for u in ubs]
        syms = [sym('%%%d_%d' % (d, x), 'Z', u) for x, u in enumerate(ubs)]
        import itertools
        r = 0.0 if k == 'sum' else 1.0
        if any(n > env.cap for n in ns): raise Infeasible()
        for ix in itertools.product(*[range(n) for n in ns]):
            old = [env.s.get(s.a[0]) for s in syms]
            for s, v in zip(syms, ix): env.s[s.a[0]] = v
            # fresh memo: values under this binding (closed subterms recomputed; small)
            x = ev(body, env, {})
            for s, o in zip(syms, old):
                if o is None: env.s.pop(s.a[0], None)
                else: env.s[s.a[0]] = o
            r = r + x if k == 'sum' else r * x
        return r
    if k == 'true': return True
    if k == 'false': return False
    if k == 'cmp':
        v = ev(t.a[1], env, memo)
        if t.a[0] == '<': return v < 0
        if v == 0: return True
        if abs(v) < 1e-12:
            # rounding noise, unless the inputs themselves are that small
            big = 0.0
            for m, c in t.a[1].a:
                x = abs(float(c))
                for at, e in m:
                    if at.k == 'sym' or at.k == 'app' and at.a[0].startswith('@'): x *= abs(_pw(ev(at, env, memo), e))
                    else: return True
                big = max(big, x)
            return abs(v) <= 1e-12 * big
        return False
    if k == 'not': return not ev(t.a[0], env, memo)
    if k == 'and': return all(ev(x, env, memo) for x in t.a)
    if k == 'or': return any(ev(x, env, memo) for x in t.a)
    if k == 'forall':
        d, ub, b = t.a
        s = sym('%%F%d' % d, 'Z')
        old = env.s.get(s.a[0])
        r = True
        for v in range(int(ev(ub, env, memo))):
            env.s[s.a[0]] = v
            if not ev(b, env, {}): r = False; break
        if old is None: env.s.pop(s.a[0], None)
        else: env.s[s.a[0]] = old
        return r
    if k == 'bapp' and t.a[0] == 'posdef':
        import numpy as np
        n = int(ev(t.a[2], env, memo))
        M = np.array([[ev(lam_apply(t.a[1], num(i), num(j)), env) for j in range(n)] for i in range(n)]).reshape(n, n)
        if n == 0: return True
        w = np.linalg.eigvalsh((M + M.T) / 2)
        if min(abs(w)) < 1e-3: raise Infeasible()
        return bool(min(w) > 0)
    if k == 'bsym':
        v = env.s.get(t.a[0])
        if v is None: v = env.s[t.a[0]] = env.rng.random() < .5
        return v
    raise Infeasible()


def _powf(b, e):
    return math.pow(b, e)


def _f32(x):
    # rounding to single precision, coarsened so that a refutation is not lost in the noise
    if x == 0 or math.isinf(x) or x != x: return x
    m, e = math.frexp(x)
    return math.ldexp(round(m * 4096) / 4096, e)


FN = {'f32': _f32, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
      'atan': math.atan, 'exp': math.exp, 'log': lambda x: math.log(abs(x)), 'sinh': math.sinh, 'cosh': math.cosh,
      'tanh': math.tanh, 'erf': math.erf, 'erfc': math.erfc, 'abs': abs, 'pow': _powf, 'powi': _powf,
      'npow': _powf, 'lgamma': math.lgamma, 'floor': math.floor, 'ceil': math.ceil, 'round': round,
      'isnan': lambda x: float(x != x), 'atan2': math.atan2, 'lmgamma': None}


# ---------------------------------------------------------------- z3
class Z:
    def __init__(self, dom):
        self.dom = dom
        self.v = {}
        self.pm = {}
        self.side = []
        self.pending = []
        self.idx = set()
        self.foralls = []

    def isz(self, at):
        return at.k == 'sym' and at.a[1] == 'Z'

    def atom_var(self, at):
        r = self.v.get(at)
        if r is None:
            nm = 'a_' + at.s
            r = z3.Int(nm) if self.isz(at) else z3.Real(nm)
            self.v[at] = r
            self.pending.append(at)
        return r

    def intp(self, p):
        return is_int_poly(p)

    def poly(self, p):
        r = self.pm.get(p)
        if r is None: r = self.pm[p] = self.poly1(p)
        return r

    def boolean(self, t):
        r = self.pm.get(t)
        if r is None:
            r = self.boolean1(t)
            if t.k != 'forall': self.pm[t] = r
        return r

    def poly1(self, p):
        ip = self.intp(p)
        tot = None
        for m, c in p.a:
            x = z3.IntVal(int(c)) if ip else z3.RealVal(str(c))
            for at, e in m:
                x = x * self.power(at, e, ip)
            tot = x if tot is None else tot + x
        if tot is None: return z3.RealVal(0)
        return tot

    def power(self, at, e, ip):
        if at.k == 'br':
            c = self.boolean(at.a[0])
            return z3.If(c, z3.RealVal(1), z3.RealVal(0))
        if at.k == 'par':
            b = self.poly(at.a[0])
        elif at.k == 'int':
            b = z3.RealVal(at.a[0])
        elif at.k == 'ite':
            b = z3.If(self.boolean(at.a[0]), self.poly(at.a[1]), self.poly(at.a[2]))
        else:
            b = self.atom_var(at)
            if self.isz(at) and not ip: b = z3.ToReal(b)
        if isinstance(e, int) and e > 0:
            r = b
            for _ in range(e - 1): r = r * b
            return r
        key = (at, e)
        r = self.v.get(key)
        if r is None:
            r = z3.Real('p_%s_%s' % (at.s, e))
            self.v[key] = r
            if isinstance(e, int):
                bb = b
                for _ in range(-e - 1): bb = bb * b
                self.side.append(z3.Implies(b != 0, r * bb == 1))
                self.side.append(z3.Implies(b > 0, r > 0))
            else:
                n, d = e.numerator, e.denominator
                rd = r
                for _ in range(d - 1): rd = rd * r
                bn = b
                for _ in range(abs(n) - 1): bn = bn * b
                if n > 0:
                    self.side.append(z3.Implies(b >= 0, z3.And(r >= 0, rd == bn)))
                    self.side.append(z3.Implies(b > 0, r > 0))
                else: self.side.append(z3.Implies(b > 0, z3.And(r > 0, rd * bn == 1)))
        return r

    def boolean1(self, t):
        k = t.k
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'cmp':
            p = self.poly(t.a[1])
            return p < 0 if t.a[0] == '<' else p == 0
        if k == 'not': return z3.Not(self.boolean(t.a[0]))
        if k == 'and': return z3.And([self.boolean(x) for x in t.a])
        if k == 'or': return z3.Or([self.boolean(x) for x in t.a])
        if k == 'forall':
            if t not in self.v:
                self.v[t] = z3.Bool('f_' + t.s)
                self.foralls.append(t)
            return self.v[t]
        return z3.Bool('b_' + t.s)

    def close(self):
        """facts of all atoms seen (to a fixpoint)"""
        done = set()
        n = 0
        fin = set()
        while (self.pending or True) and n < 4:
            n += 1
            pend, self.pending = self.pending, []
            for at in pend:
                if at in done: continue
                done.add(at)
                if at.k == 'sym' and at.a[1] == 'Z':
                    if at.a[0].startswith('n$'): self.side.append(self.v[at] >= 0)
                    if len(at.a) > 2 and at.a[2] is not None:
                        self.side.append(self.v[at] >= 0)
                        self.side.append(self.boolean(lt(atom(at), at.a[2])))
                for f in self.dom.facts(at):
                    self.side.append(self.boolean(f))
                if TM.known_pos(at): self.side.append(self.v[at] > 0)
                if at.k == 'app' and at.a[0] in ('sin', 'cos', 'tan', 'exp', 'log'):
                    for m, _ in at.a[1].a:
                        for y, _ in m:
                            if y.k == 'app' and y.a[0].startswith('@'): self.atom_var(y)
                if at.k == 'app' and at.a[0] == 'abs':
                    x = self.poly(at.a[1])
                    self.side.append(z3.Or(self.v[at] == x, self.v[at] == -x))
                if at.k == 'app':
                    for x in at.a[1:]:
                        if x.k == 'poly' and at.a[0].startswith('@'): self.idx.add(x)
            # instantiate universally quantified facts at the index terms seen
            for f in list(self.foralls):
                for x in list(self.idx):
                    if (f, x) in fin: continue
                    fin.add((f, x))
                    d, ub, b = f.a
                    inst = subst(b, {sym('%%F%d' % d, 'Z'): x})
                    g = self.boolean(le(ZERO, x)), self.boolean(lt(x, ub)), self.boolean(inst)
                    self.side.append(z3.Implies(z3.And(self.v[f], g[0], g[1]), g[2]))
            if not self.pending: break
        # skolem witnesses for negated foralls
        for f in self.foralls:
            v, ub, b = open_forall(f)
            self.side.append(z3.Implies(z3.Not(self.v[f]), z3.And(self.boolean(lt(v, ub)), z3.Not(self.boolean(b)))))


_feas_cache = {}


def z3_unsat(conds, dom, timeout=None, use_cvc5=False):
    """True: unsat, False: sat, None: unknown"""
    conds = [c for c in conds if c is not TRUE]
    if any(c is FALSE for c in conds): return True
    if not conds: return False
    key = (frozenset(c.s for c in conds), dom.uid, timeout)
    if key in _feas_cache: return _feas_cache[key]
    t0 = time.time()
    z = Z(dom)
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT)
    s.set('random_seed', 1)
    for c in conds: s.add(z.boolean(c))
    for c in dom.extra: s.add(z.boolean(c))
    z.close()
    for c in z.side: s.add(c)
    r = s.check()
    back = 'z3'
    if r == z3.unknown and use_cvc5:
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + s.to_smt2())
            o = subprocess.run(['cvc5', '--tlimit=8000', f.name], capture_output=True, text=True, timeout=20).stdout
            os.unlink(f.name)
            if o.startswith('unsat'): r = z3.unsat; back = 'cvc5'
            elif o.startswith('sat'): r = z3.sat
        except Exception:
            pass
    STATS['solver_s'] += time.time() - t0
    out = True if r == z3.unsat else False if r == z3.sat else None
    _feas_cache[key] = out
    z3_unsat.back = back
    return out


z3_unsat.back = 'z3'


def smt_model(conds, dom, timeout=1500, diff=None):
    """inputs for a replay from a model of conds (sizes at most 4): a hint only, never a verdict"""
    conds = [c for c in conds if c is not TRUE]
    if any(c is FALSE for c in conds): return None
    t0 = time.time()
    try:
        z = Z(dom)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', 1)
        for c in conds: s.add(z.boolean(c))
        for c in dom.extra: s.add(z.boolean(c))
        z.close()
        for c in z.side: s.add(c)
        box = []
        for at, v in list(z.v.items()):
            if isinstance(at, tuple) or at.k not in ('sym', 'app'): continue
            if z.isz(at): s.add(v >= 0, v <= 4)
            else: box.append(v)
        tries = [(4, None), (None, None)]
        if diff is not None:
            d = z.poly(diff)
            z.close()
            for c in z.side: s.add(c)
            far = z3.Or(d > z3.Q(1, 100), d < z3.Q(-1, 100))
            tries = [(4, far), (10 ** 12, far)] + tries
        for lim, far in tries:
            s.push()
            if lim is not None:
                for v in box: s.add(v <= lim, v >= -lim)
            if far is not None: s.add(far)
            if s.check() == z3.sat: break
            s.pop()
        else: return None
        m = s.model()

        def num(x):
            x = m.eval(x, model_completion=True)
            if z3.is_int_value(x): return x.as_long()
            if z3.is_rational_value(x): return float(x.as_fraction())
            return float(x.approx(12).as_fraction())
        out = {'symbols': {}, 'elements': {}}
        for at, v in list(z.v.items()):
            if isinstance(at, tuple) or at.k not in ('sym', 'app'): continue
            if at.k == 'sym':
                if not at.a[0].startswith('%'): out['symbols'][at.a[0]] = num(v)
            elif at.a[0].startswith('@') and len(at.a) == 3:
                out['elements']['%s[%d,%d]' % (at.a[0][1:], num(z.poly(at.a[1])), num(z.poly(at.a[2])))] = num(v)
        return out
    except Exception:
        if os.environ.get('VC_TRACE'): import traceback; traceback.print_exc()
        return None
    finally:
        STATS['solver_s'] += time.time() - t0


# ---------------------------------------------------------------- rewriting to a base
def _map_atoms(t, f, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None: return r
    r = ZERO
    for m, c in t.a:
        x = num(c)
        for at, e in m:
            b = f(at)
            x = mul(x, powq(b, Fr(e)) if b is not None else TM._poly({((at, e),): Fr(1)}))
        r = add(r, x)
    memo[t] = r
    return r


def rebase(t):
    """hyperbolics -> exp, tan -> sin/cos, even cos powers -> sin"""
    def f(at):
        if at.k == 'app':
            fn = at.a[0]
            if fn in ('sinh', 'cosh', 'tanh', 'tan'):
                x = rebase(at.a[1])
                if fn == 'tan': return app('sin', (x,)) / app('cos', (x,))
                E = app('exp', (x,))
                if fn == 'sinh': return (E - recip(E)) / 2
                if fn == 'cosh': return (E + recip(E)) / 2
                return (E * E - 1) / (E * E + 1)
            if fn.startswith('@') or fn in ('inv', 'det'): return None
            args = [rebase(x) if x.k == 'poly' else x for x in at.a[1:]]
            if all(x is y for x, y in zip(args, at.a[1:])): return None
            return app(fn, args)
        if at.k == 'par':
            return rebase(at.a[0])
        if at.k in ('sum', 'prod'):
            vs, b = open_b(at)
            b2 = trig(rebase(b))
            if b2 is b: return None
            for v, ub in reversed(vs): b2 = (mk_sum if at.k == 'sum' else mk_prod)(v, ub, b2)
            return b2
        return None
    return _map_atoms(t, f)


def trig(t):
    r = ZERO
    ch = False
    for m, c in t.a:
        x = num(c)
        for at, e in m:
            if at.k == 'app' and at.a[0] == 'cos' and isinstance(e, int) and e >= 2:
                s = app('sin', (at.a[1],))
                x = mul(x, powq(ONE - s * s, Fr(e // 2)))
                if e % 2: x = mul(x, atom(at))
                ch = True
            else:
                x = mul(x, TM._poly({((at, e),): Fr(1)}))
        r = add(r, x)
    return r if ch else t


def clear_denoms(t, rounds=12):
    """multiply away negative exponents of parenthesised polys / atoms (divisors are
    non-zero by separate obligations); result is zero iff t is"""
    for _ in range(rounds):
        mins = {}
        for m, c in t.a:
            for at, e in m:
                if e < 0 and at.k != 'br':
                    mins[at] = min(mins.get(at, 0), e)
        if not mins: return t
        # make fractional too
        f = ONE
        for at, e in mins.items():
            r = ZERO
            fac = TM._poly({((at, -e if not isinstance(e, Fr) else -e),): Fr(1)}) if at.k != 'par' else None
            for m, c in t.a:
                d = dict(m)
                e0 = Fr(d.get(at, 0)) - Fr(e)
                d.pop(at, None)
                x = TM._poly({tuple(sorted(d.items(), key=lambda q: q[0].s)): c})
                if e0 != 0:
                    if at.k == 'par': x = mul(x, powq(at.a[0], e0))
                    else: x = mul(x, TM._poly({((at, int(e0) if e0.denominator == 1 else e0),): Fr(1)}))
                r = add(r, x)
            t = r
    return t


def _quot_poly(b, names):
    """reduce numerators modulo parenthesised denominators (x*Q^-1 with x = lead(Q) is
    rewritten through Q*Q^-1 = 1; divisors are non-zero by separate obligations)"""
    leads = {}
    def lead(par):
        if par not in leads:
            q = par.a[0]
            ats = sorted({at for m, c in q.a for at, e in m}, key=lambda at: (not (at.fv & names), at.a[0] if isinstance(at.a[0], str) else '', at.s))
            if any(at.k == 'br' or not isinstance(e, int) or e < 0 for m, c in q.a for at, e in m) or len(q.a) < 2: leads[par] = None
            else: leads[par] = max(q.a, key=lambda mc: tuple(dict(mc[0]).get(at, 0) for at in ats))
        return leads[par]
    for _ in range(60):
        out, ch = ZERO, False
        for m, c in b.a:
            dm = dict(m)
            for at, e in m:
                if at.k != 'par' or not isinstance(e, int) or e >= 0 or at.a[0].k != 'poly': continue
                l = lead(at)
                if not l or not l[0] or not all(dm.get(x, 0) >= k and x.k != 'br' for x, k in l[0]): continue
                rest = dict(dm)
                for x, k in l[0]:
                    rest[x] -= k
                    if not rest[x]: del rest[x]
                base = TM._poly({tuple(sorted(rest.items(), key=lambda q: q[0].s)): c / l[1]})
                lower = add(at.a[0], neg(TM._poly({l[0]: l[1]})))
                up = dict(rest)
                up[at] = e + 1
                if not up[at]: del up[at]
                out = add(out, TM._poly({tuple(sorted(up.items(), key=lambda q: q[0].s)): c / l[1]}))
                out = add(out, neg(mul(base, lower)))
                ch = True
                break
            else:
                out = add(out, TM._poly({m: c}))
        if not ch: break
        b = out
    return b


def quot_reduce(d):
    out, ch = ZERO, False
    for m, c in d.a:
        x = num(c)
        for at, e in m:
            if at.k == 'sum' and e == 1 and any(y.k == 'par' and f < 0 for mm, _ in at.a[1].a for y, f in mm):
                vs, b = open_b(at)
                b2 = _quot_poly(b, {as_atom(v).a[0] for v, _ in vs})
                if b2 is not b:
                    ch = True
                    for v, ub in reversed(vs): b2 = mk_sum(v, ub, b2)
                    x = mul(x, b2)
                    continue
            x = mul(x, TM._poly({((at, e),): Fr(1)}))
        out = add(out, x)
    return out if ch else d


def kernel_zero(d):
    if not d.a: return True
    if len(d.a) > 400: return False
    d2 = clear_denoms(d)
    if not d2.a: return True
    dq = quot_reduce(d)
    if dq is not d:
        d2 = clear_denoms(dq)
        if not d2.a: return True
    d3 = clear_denoms(trig(clear_denoms(rebase(d))))
    d3 = trig(d3)
    return not d3.a


def closed_conds(t):
    """boolean literals controlling t (outside binders)"""
    out = []
    seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.k == 'br': lits(x.a[0])
        elif x.k == 'ite':
            lits(x.a[0]); go(x.a[1]); go(x.a[2])
        elif x.k in ('sum', 'prod', 'lam', 'forall'):
            # conditions inside that mention no binder
            bound = {'%%%d_%d' % (x.a[2], i) for i in range(len(x.a[0]))} if x.k in ('sum', 'prod') else None
            if bound is not None:
                for y in TM.walk(x.a[1]):
                    if y.k in ('br', 'ite') and not any(n.startswith('%') for n in y.a[0].fv): lits(y.a[0])
        else:
            for y in TM._kids(x): go(y)
    def inner(c):
        """conditions inside a quantifier that mention no bound variable"""
        if c.k in ('and', 'or', 'not'):
            for y in c.a: inner(y)
        elif c.k in ('cmp', 'bsym', 'bapp') and c not in out and not any(n.startswith('%') for n in c.fv): out.append(c)
    def lits(c):
        if c.k in ('and', 'or', 'not'):
            for y in c.a: lits(y)
        elif c.k == 'forall':
            inner(c.a[2])
            if c not in out: out.append(c)
        elif c.k in ('cmp', 'forall', 'bsym', 'bapp') and c not in out: out.append(c)
    go(t)
    return out


def lit_subst(lit, val):
    """substitution making a literal true/false, plus equational substitution"""
    return {lit: TRUE if val else FALSE}


def solve_eq(q):
    """q == 0 solved for an atom: (atom, value) preferring index symbols"""
    best = None
    for m, c in q.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k in ('sym', 'app'):
            at = m[0][0]
            if at.k == 'app' and not at.a[0].startswith('@'): continue
            rest = {mm: cc for mm, cc in q.a if mm != m}
            rp = TM._poly(rest)
            if at.k == 'sym':
                if at.a[0] in rp.fv: continue
                if at.a[1] == 'Z' and abs(c) != 1: continue
                if at.a[0].startswith('n$') : pr = 3
                else: pr = 0 if at.a[1] == 'Z' else 1
            else:
                if any(x is at for x in TM.walk(rp)): continue
                pr = 2
            if best is None or pr < best[0]: best = (pr, at, scale(rp, -1 / Fr(c)))
    return best


def subst_atom(t, at, val):
    if at.k == 'sym': return subst(t, {at: val})
    # replace an '@' application occurring with exactly these arguments
    memo = {}
    def go(x):
        if x is at: return val
        r = memo.get(x)
        if r is not None: return r
        if x.k == 'poly':
            r = ZERO
            for m, c in x.a:
                y = num(c)
                for a, e in m:
                    b = go(a)
                    y = mul(y, powq(tm(b), Fr(e)) if b is not a else TM._poly({((a, e),): Fr(1)}))
                r = add(r, y)
        elif x.k == 'par': r = tm(go(x.a[0]))
        elif x.k == 'br':
            c = go(x.a[0]); r = x if c is x.a[0] else br(c)
        elif x.k == 'ite': r = ite(*[go(y) for y in x.a])
        elif x.k == 'cmp':
            p = go(x.a[1]); r = x if p is x.a[1] else TM._cmpnorm(x.a[0], p)
        elif x.k == 'not': r = bnot(go(x.a[0]))
        elif x.k == 'and': r = band(*[go(y) for y in x.a])
        elif x.k == 'or': r = bor(*[go(y) for y in x.a])
        elif x.k == 'app' and not x.a[0].startswith('@') and x.a[0] not in ('det', 'inv'):
            args = [go(y) if y.k == 'poly' else y for y in x.a[1:]]
            r = x if all(p is q for p, q in zip(args, x.a[1:])) else app(x.a[0], args)
        else: r = x
        memo[x] = r
        return r
    return go(t)


def prod_excl(d):
    """Prod A = A(e) * Prod_{excl e} A for the excluded positions that occur in d"""
    prods = [x for x in TM.walk(d) if x.k == 'prod']
    excl = []
    for p in prods:
        vs, b = open_b(p)
        # look for a bracket of equalities v == e in the body
        pos = None
        for y in TM.walk(b):
            if y.k == 'br' and y.a[0].k == 'cmp' and y.a[0].a[0] == '==':
                for v, ub in vs:
                    s = TM._lin_in(y.a[0].a[1], as_atom(v))
                    if s is not None and not any(as_atom(w).a[0] in s.fv for w, _ in vs):
                        pos = pos or {}
                        pos[as_atom(v)] = s
        if pos and len(pos) == len(vs):
            # body with all brackets false
            m = {}
            for y in TM.walk(b):
                if y.k == 'cmp' and y.a[0] == '==' and any(as_atom(v).a[0] in y.fv for v, _ in vs): m[y] = FALSE
            full = subst_bool(b, m)
            at_e = subst(b, pos)
            if at_e is ONE:
                fb = close_b('prod', vs, full)
                excl.append((p, fb, subst(full, pos)))
    for p, fb, val in excl:
        d = _map_atoms(d, lambda at: mul(val, atom(p)) if at is fb else (rebuild_par(at, fb, mul(val, atom(p)))))
    return d


def rebuild_par(at, fb, v):
    if at.k == 'par' and any(x is fb for x in TM.walk(at)):
        return _map_atoms(at.a[0], lambda a: v if a is fb else None)
    return None


def inst_closed(ctx):
    return [c for c in ctx]


class Result:
    def __init__(self, ok, back='', model=None, why=''):
        self.ok, self.back, self.model, self.why = ok, back, model, why
    def __repr__(self): return 'Result(%s,%s,%s)' % (self.ok, self.back, self.why)


def zero_one(ctx):
    """arrays all of whose elements are known to be 0 or 1:  [(name, bound)]"""
    out = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k != 'forall' or x.a[2].k != 'or' or len(x.a[2].a) != 2: continue
            d, ub, b = x.a
            for y in TM.walk(b):
                if y.k == 'app' and y.a[0].startswith('@') and y.a[2] is ZERO and as_atom(y.a[1]) is sym('%%F%d' % d, 'Z') \
                        and bor(eq(atom(y), ZERO), eq(atom(y), ONE)) is b: out.append((y.a[0], ub, x))
    return out


def _within(i, ub):
    at = as_atom(i)
    while at is not None and at.k == 'sym' and len(at.a) > 2 and at.a[2] is not None:
        if at.a[2] is ub: return True
        at = as_atom(at.a[2])
    return False


def unit_foralls(ctx):
    """quantified facts  [(var symbol, bound, literals)]"""
    out = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k == 'forall' and x.a[2].k in ('cmp', 'not', 'bapp'): out.append((sym('%%F%d' % x.a[0], 'Z'), x.a[1], x.a[2], x))
    return out


def _lit_map(lits):
    mp = {}
    for x in lits:
        for x in (x.a if x.k == 'and' else (x,)):
            if x.k == 'not': mp[x.a[0]] = FALSE
            elif x.k in ('cmp', 'bsym', 'bapp'):
                mp[x] = TRUE
                if x.k == 'cmp' and x.a[0] == '<': mp[TM.mk('cmp', ('==', x.a[1]), x.fv, x.depth)] = FALSE
    return mp


def map01(t, facts, keep, units=()):
    """replace an element x known to be 0 or 1 by the bracket [x == 1]; use the quantified
    facts under binders of the same range"""
    memo = {}
    def hit(at):
        return at.k == 'app' and any(at.a[0] == n and at.a[2] is ZERO and _within(at.a[1], ub) for n, ub, _ in facts)
    consts = {}
    for q, ub, l, _ in units:
        if l.k == 'cmp' and l.a[0] == '==':
            r = solve_eq(l.a[1])
            if r and r[1].k == 'app' and r[1].a[0].startswith('@') and is_num(r[2]) and r[1].a[2] is ZERO and as_atom(r[1].a[1]) is q:
                consts.setdefault(r[1].a[0], []).append((ub, r[2]))
    def const(at):
        if at.k != 'app' or at.a[0] not in consts or at.a[2] is not ZERO: return None
        for ub, v in consts[at.a[0]]:
            if _within(at.a[1], ub): return v
    def under(vs, b):
        lits = []
        for v, _ in vs:
            for q, ub, l, _ in units:
                if _within(v, ub): lits.append(subst(l, {q: v}))
        return subst_bool(b, _lit_map(lits)) if lits else b
    def fapp(fn, args):
        """f(.. [c] ..) by cases on the brackets of its arguments"""
        bs = []
        for a in args:
            if a.k != 'poly': continue
            for m, c in a.a:
                for at, e in m:
                    if at.k == 'br' and at not in bs: bs.append(at)
        if not bs or len(bs) > 3: return app(fn, args)
        c = bs[0].a[0]
        y = fapp(fn, [subst_bool(a, {c: TRUE}) if a.k == 'poly' else a for a in args])
        n = fapp(fn, [subst_bool(a, {c: FALSE}) if a.k == 'poly' else a for a in args])
        return ite(c, y, n)
    def go(t):
        if t in keep: return t
        r = memo.get(t)
        if r is not None: return r
        k = t.k
        if k == 'poly':
            r = ZERO
            for m, c in t.a:
                x = num(c)
                for at, e in m:
                    b = const(at)
                    if b is None: b = br(eq(atom(at), ONE)) if hit(at) else go(at)
                    x = mul(x, TM._poly({((at, e),): Fr(1)}) if b is at else powq(tm(b), Fr(e)))
                r = add(r, x)
        elif k == 'br':
            c = go(t.a[0]); r = t if c is t.a[0] else br(c)
        elif k == 'ite': r = ite(*[go(y) for y in t.a])
        elif k == 'par':
            b = go(t.a[0]); r = t if b is t.a[0] else tm(b)
        elif k == 'app' and not t.a[0].startswith('@') and t.a[0] not in ('det', 'inv'):
            args = [go(y) if y.k == 'poly' else y for y in t.a[1:]]
            r = t if all(p is q for p, q in zip(args, t.a[1:])) else fapp(t.a[0], args)
        elif k in ('sum', 'prod'):
            vs, b = open_b(t)
            b2 = go(under(vs, b))
            if b2 is b: r = t
            else:
                for v, ub in reversed(vs): b2 = (mk_sum if k == 'sum' else mk_prod)(v, ub, b2)
                r = b2
        elif k == 'cmp':
            q = t.a[1]
            for y in TM.walk(q):
                if y.k == 'app' and hit(y) and const(y) is None:
                    x = atom(y)
                    if t is eq(x, ONE): r = t; break
                    if t is eq(x, ZERO): r = bnot(eq(x, ONE)); break
            if r is None:
                p = go(q); r = t if p is q else TM._cmpnorm(t.a[0], p)
        elif k == 'not': r = bnot(go(t.a[0]))
        elif k == 'and': r = band(*[go(y) for y in t.a])
        elif k == 'or': r = bor(*[go(y) for y in t.a])
        elif k == 'forall':
            v, ub, b = open_forall(t)
            b2 = go(under([(v, ub)], b))
            r = t if b2 is b else forall(v, ub, b2)
        else: r = t
        memo[t] = r
        return r
    return go(t)


def use01(terms, ctx):
    facts, units = zero_one(ctx), unit_foralls(ctx)
    if not facts and not units: return terms, ctx
    keep = {f[2] for f in facts} | {u[3] for u in units}
    new = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)): new.append(x if x in keep else map01(x, facts, keep, units))
    # a separate pass for goals: there the facts themselves hold
    out = []
    tr = {f: TRUE for f in keep}
    for t in terms: out.append(map01(subst_bool(t, tr), facts, (), units))
    # instances at the index symbols of the goal
    for v in {x for t in terms for x in TM.walk(t) if x.k == 'sym' and x.a[1] == 'Z' and len(x.a) > 2 and x.a[2] is not None and not x.a[0].startswith('%')}:
        for q, ub, l, _ in units:
            if _within(atom(v), ub): new.append(subst(l, {q: atom(v)}))
    return out, [c for c in new if c is not TRUE]


def contradictory(ctx):
    s = set()
    for c in ctx:
        if c is FALSE: return True
        for x in (c.a if c.k == 'and' else (c,)): s.add(x)
    return any(bnot(x) in s for x in s)


def prove_eq(a, b, ctx, dom, depth=0):
    """ok True / False (refuted, with model) / None"""
    a, b = tm(a), tm(b)
    (a_, b_), ctx_ = use01([a, b], ctx)
    if ctx_ is not ctx:
        r = _prove_zero(a_, b_, ctx_, dom, 0, [0])
        if r: return Result(True, r)
    d = None if has_inf(a) or has_inf(b) else add(a, neg(b))
    r = _prove_zero(a, b, ctx, dom, 0, [0])
    if r:
        back = r
        return Result(True, back)
    m = refute_eq(a, b, ctx, dom)
    if m is not None:
        return Result(False, 'numeric', m)
    return Result(None, '', None if d is None or has_inf(d) or len(d.a) > 200 else smt_model(ctx + [bnot(eq(d, ZERO))], dom, diff=d), 'undecided')


def _simp_ctx(t, ctx):
    """apply the literals of the path condition"""
    mp = {}
    eqs = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k == 'not': mp[x.a[0]] = FALSE
            elif x.k in ('cmp', 'forall', 'bsym', 'bapp'):
                mp[x] = TRUE
                if x.k == 'cmp' and x.a[0] == '==': eqs.append(x.a[1])
                if x.k == 'cmp' and x.a[0] == '<': mp[TM.mk('cmp', ('==', x.a[1]), x.fv, x.depth)] = FALSE
    if mp: t = subst_bool(t, mp)
    for q in eqs:
        s = solve_eq(q)
        if s: t = subst_atom(t, s[1], s[2])
    return t


def _prove_zero(a, b, ctx, dom, depth, budget, more=7):
    a1, b1 = _simp_ctx(a, ctx), _simp_ctx(b, ctx)
    if a1 is b1: return 'nf'
    d = add(a1, neg(b1))
    if not has_inf(d):
        if kernel_zero(d): return 'nf'
        d2 = prod_excl(d)
        if d2 is not d and kernel_zero(d2): return 'nf'
    budget[0] += 1
    if more > 0 and budget[0] < 120:
        cs = closed_conds(a1) + [c for c in closed_conds(b1)]
        if cs:
            lit = cs[0]
            back = 'nf'
            ok = True
            for val in (True, False):
                c = lit if val else bnot(lit)
                c2 = ctx + [c]
                if not val and skolem_unsat(lit, ctx, dom):
                    back = 'z3'
                    continue
                if z3_unsat(c2, dom, 1500):
                    back = 'z3'
                    continue
                # eager substitution is done by _simp_ctx
                x1, y1 = a1, b1
                if val and lit.k == 'forall':
                    (x1, y1), c2 = use01([a1, b1], c2)
                    if contradictory(c2): continue
                r = _prove_zero(x1, y1, c2, dom, depth + 1, budget, more - 1)
                if not r:
                    ok = False
                    break
                if r != 'nf': back = r
            if ok: return back
            return None
    if not has_inf(d) and depth < 20:
        r = sum_ext(d, ctx, dom, depth)
        if r: return r
    if not has_inf(d) and len(d.a) < 60:
        if z3_unsat(ctx + [bnot(eq(d, ZERO))], dom, 3000, True):
            return z3_unsat.back
    return None


def skolem_unsat(f, ctx, dom):
    """the quantified fact f follows from the quantified facts of ctx, index by index"""
    if f.k != 'forall' or not any(x.k == 'forall' for c in ctx for x in (c.a if c.k == 'and' else (c,))): return False
    v = fresh_idx(f.a[1], 'k')
    g = bnot(subst(f.a[2], {sym('%%F%d' % f.a[0], 'Z'): v}))
    facts = [c for c in ctx if c.k == 'cmp'] + inst_at(v, ctx)
    return z3_unsat(facts + [g], dom, 1500)


def inst_at(v, ctx):
    """instances of the quantified facts at index v"""
    out = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k == 'forall' and _within(v, x.a[1]): out.append(subst(x.a[2], {sym('%%F%d' % x.a[0], 'Z'): v}))
    return out


def sum_ext(d, ctx, dom, depth):
    """sum_j c_j*SUM_i b_j(i) == 0  if  sum_j c_j*b_j(i) == 0 for every i in range"""
    ub, items = None, []
    for m, c in d.a:
        ss = [at for at, e in m if at.k == 'sum']
        if len(ss) != 1 or len(ss[0].a[0]) != 1 or dict(m)[ss[0]] != 1: return None
        u = ss[0].a[0][0]
        if ub is None: ub = u
        if u is not ub: return None
        items.append((TM._poly({tuple(x for x in m if x[0] is not ss[0]): c}), ss[0]))
    if ub is None: return None
    v = fresh_idx(ub, 'e')
    body = ZERO
    for co, s in items:
        body = add(body, mul(co, open_b2(s, v)))
    c2 = ctx + inst_at(v, ctx)
    return _prove_zero(body, ZERO, c2, dom, 20, [0], 8)


def open_b2(t, v):
    ubs, body, d = t.a
    return subst(body, {sym('%%%d_%d' % (d, 0), 'Z', ubs[0]): v})


def prove(goal, ctx, dom):
    if goal is TRUE: return Result(True, 'nf')
    if goal.k == 'and':
        back = 'nf'
        for g in goal.a:
            r = prove(g, ctx, dom)
            if r.ok is not True: return r
            if r.back != 'nf': back = r.back
        return Result(True, back)
    if goal.k == 'forall':
        v, ub, b = open_forall(goal)
        return prove(b, ctx + [lt(ZERO, ub)], dom)
    if goal.k == 'cmp' and goal.a[0] == '==':
        r = _prove_zero(goal.a[1], ZERO, ctx, dom, 0, [0])
        if r: return Result(True, r)
    (g1,), ctx1 = use01([goal], ctx)
    if ctx1 is not ctx:
        g2 = _simp_ctx(g1, ctx1)
        if g2 is TRUE: return Result(True, 'nf')
        if z3_unsat(ctx1 + [bnot(g2)], dom, None, True): return Result(True, z3_unsat.back)
    g2 = _simp_ctx(goal, ctx) if goal.k != 'false' else goal
    if g2 is TRUE: return Result(True, 'nf')
    r = z3_unsat(ctx + [bnot(goal)], dom, None, True)
    if r: return Result(True, z3_unsat.back)
    m = refute(goal, ctx, dom)
    if m is not None: return Result(False, 'numeric', m)
    return Result(None, '', smt_model(ctx + [bnot(goal)], dom), 'undecided')


def sample(ctx, dom, rng, tries=400, hints=()):
    """environments satisfying the context"""
    eqs = []
    for c in ctx:
        for x in (c.a if c.k == 'and' else (c,)):
            if x.k == 'cmp' and x.a[0] == '==':
                s = solve_eq(x.a[1])
                if s: eqs.append(s)
    for _ in range(tries):
        env = Env(dom, rng)
        try:
            for _, at, val in eqs:
                v = ev(val, env)
                if at.k == 'sym': env.s[at.a[0]] = v
                elif at.a[0].startswith('@'):
                    env.arr[(at.a[0][1:], int(ev(at.a[1], env)), int(ev(at.a[2], env)))] = v
            if all(ev(c, env) for c in ctx) and all(ev(c, env) for c in dom.extra):
                yield env
        except (Infeasible, OverflowError, ZeroDivisionError):
            continue


def close_num(x, y):
    if x == y: return True
    if math.isinf(x) or math.isinf(y): return False
    return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


def domain_ok(t, env):
    """all atoms' facts hold in the sampled environment"""
    return True


def refute_eq(a, b, ctx, dom, n=60, seed=1):
    rng = random.Random(seed)
    k = 0
    for env in sample(ctx, dom, rng, 1500):
        try:
            x, y = ev(a, env), ev(b, env)
            if not close_num(x, y):
                # well-conditioned?  perturbation-free recheck
                return model_of(env, x, y)
        except (Infeasible, OverflowError, ZeroDivisionError):
            continue
        k += 1
        if k > n: break
    return None


def refute(goal, ctx, dom, n=300, seed=1):
    rng = random.Random(seed)
    k = 0
    for env in sample(ctx, dom, rng, 2500):
        try:
            if not ev(goal, env): return model_of(env)
        except (Infeasible, OverflowError, ZeroDivisionError):
            continue
        k += 1
        if k > n: break
    return None


def model_of(env, *vals):
    m = {'symbols': {k: v for k, v in env.s.items() if not k.startswith('%')},
         'elements': {'%s[%d,%d]' % k: v for k, v in env.arr.items()}}
    for nm, a in env.mats.items(): m['elements'][nm] = a.tolist()
    if vals: m['code_value'], m['contract_value'] = vals[0], vals[1]
    return m
