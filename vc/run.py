"""Runs contract scenarios: symbolic proof of every obligation, concrete replay of refuted
or undecided ones on the real code."""
import os, re, sys, subprocess, hashlib, time, json, random, math, itertools, signal, traceback
from fractions import Fraction as Fr
from .terms import *
from . import terms as TM
from . import ir
from .prover import *
from . import prover as PV
from .exe import *
from .exe import Exec, State, Decider, Ptr, MatH, DecH, Lazy, Unsupported, PathEnd, UNDEF, NULL, itm, ival

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')

SYM_FLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-ffp-contract=off', '-w', '-DVC_SYM',
             '-isystem', os.path.join(VERIF, 'shim'), '-I' + REPO + '/include', '-I' + HARN, '-S', '-emit-llvm']
CON_FLAGS = ['-std=c++17', '-O0', '-g1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=enum',
             '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I' + HARN, '-rdynamic']


def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


def compile_sym(src, defs, out):
    return sh(['clang++-18'] + SYM_FLAGS + ['-D' + d for d in defs] + [os.path.join(HARN, src), '-o', out], 300)


def compile_con(src, defs, out):
    rt = os.path.join(os.path.dirname(out), 'rt.o')
    return sh(['g++'] + CON_FLAGS + ['-D' + d for d in defs] + [os.path.join(HARN, src), os.path.join(HARN, 'vc_rt.cpp'), '-o', out, '-ldl'], 600)


# ------------------------------------------------------------------ symbolic side
class Rec:
    __slots__ = ('label', 'id', 'r', 'c', 'f', 'scalar')
    def __init__(self, label, id, r, c, f, scalar):
        self.label, self.id, self.r, self.c, self.f, self.scalar = label, id, r, c, f, scalar
    def at(self, i, j):
        if isinstance(self.f, list): return self.f[0] if self.scalar else self.f[int(numval(i)) + int(numval(j)) * self.r]
        return self.f(i, j)


class RoundEnd(Exception):
    pass


class VExec(Exec):
    def __init__(self, mod, dom):
        super().__init__(mod, dom)
        self.havoc = True
        self.wunion = {}
        self.notes = set()
        self.lows = {}
        self.through = {}
        self.pre0 = ()
        self.wdesc = {}
        self.wsz = {}

    def reset(self):
        self.st = State()
        self.globs = {}
        self.globname = {}
        self.globinit = {}
        self.ginit = 0
        self.stack = []
        self.depth = 0
        self.guards = []
        self.nobj = 0
        self.checked1 = False
        self.st.info['ptrs'] = []

    def oblige_eq(self, kind, a, b, desc):
        self.timecheck()
        a, b = tm(a), tm(b)
        key = (kind, desc, a, b, tuple(c.s for c in self.ctx()))
        if key in self.oblkeys: return True
        self.oblkeys.add(key)
        r = prove_eq(a, b, self.ctx(), self.dom)
        self.obls.append(dict(kind=kind, desc=desc, where=self.where(), res=r, goal=(a, b), path=list(self.ctx()), soft=False))
        return r.ok

    # hooks
    def p_vc_size(self, n, lo):
        n = self.cstr(n)
        return ival(zsym('n$' + n) + lo)

    def p_vc_real(self, n): return rsym(self.cstr(n))

    def p_vc_buf(self, tag, n):
        if not self.ge0(itm(n)):
            if not self.oblige('storage', le(ZERO, itm(n)), 'requested storage is not negative'): raise PathEnd('size')
        return Ptr(self.new_dbl(n, self.cstr(tag)).id, 0)

    def p_vc_fill(self, p, r, c, name, id):
        nm = '%s%d_%d' % (self.cstr(name), id, self.st.round)
        self.write_region(p, r, c, lambda i, j: sel(nm, i, j))

    def p_vc_array(self, p, r, c, name):
        nm = self.cstr(name)
        self.write_region(p, r, c, lambda i, j: sel(nm, i, j))

    def p_vc_havoc(self, p, r, c):
        if ival(itm(r) * itm(c)) == 0: return
        nm = fresh_name('havoc')
        self.write_region(p, r, c, lambda i, j: sel(nm, i, j))

    def p_vc_touch(self, p, r, c):
        self.read_region(p, r, c)

    def p_vc_round(self, r):
        self.st.round = r
        if r == 1:
            self.st.written = {}
            self.nobj0 = self.nobj
            self.pre0 = tuple(self.dec.ch[:self.dec.pos])     # branches taken while the expression was built
            self.npath0 = len(self.st.path)
        self.havoc_statics()
        self.st.events.append(('round', r))

    def p_vc_event(self, w, id):
        self.st.events.append((self.cstr(w), id))
        self.havoc_statics()

    def p_vc_eq_ptr(self, l, a, b):
        d = self.cstr(l)
        if isinstance(a, int): a = Ptr(0, a)
        if isinstance(b, int): b = Ptr(0, b)
        if a.o == b.o:
            g = eq(itm(a.off), itm(b.off))
        else:
            g = FALSE
            # a null pointer moved by nothing etc.
        self.oblige('storage', g, d)

    def p_vc_eq_int(self, l, a, b): self.oblige('storage' if 'storage' in self.cstr(l) else 'contract', eq(itm(a), itm(b)), self.cstr(l))

    def p_vc_rec_s(self, l, id, v):
        v = self.flt(v)
        self.st.events.append(('rec', Rec(self.cstr(l), id, 1, 1, lambda i, j: v, True)))

    def p_vc_rec_h(self, l, id, h):
        h = self.lz(h)
        r, c = self.dims(h)
        lam = self.mklam(r, c, lambda i, j: self.val(h, i, j))
        self.st.events.append(('rec', Rec(self.cstr(l), id, r, c, lambda i, j: lam_apply(lam, i, j), False)))

    def p_vc_symbolic(self): return 1

    def note(self):
        """what every location an evaluation may write holds between two evaluations on this path"""
        for k in [k for k in self.wunion if k[0] == self.pre0]:
            _, oid, key = k
            if oid in self.globname: continue
            o = self.st.mem.get(oid)
            if o is None or not o.alive or o.kind == 'dbl': continue
            cell = o.cells.get(key)
            v = None if cell is None else cell[1]
            if v is None or type(v).__name__ == 'Undef': continue
            if isinstance(v, T) and v.k in BOOLK or isinstance(v, int) and cell[0] == 1: d = ('bool',)
            elif isinstance(v, T) and (not is_int_poly(v) or self.isdbl(oid, key)): d = ('real',)
            elif isinstance(v, int) and self.isdbl(oid, key): d = ('real',)
            elif isinstance(v, MatH): d = ('mat', v.r, v.c)
            elif isinstance(v, DecH): d = ('dec', v.dk, v.n, v.mode, v.lam is None)
            elif isinstance(v, Ptr): d = ('ptr', v.o, v.off)
            elif isinstance(v, (int, T)): d = ('int', v)
            else: raise Unsupported('evaluation writes %r' % (v,))
            self.wdesc.setdefault(k, {}).setdefault(d)
            self.wsz[k] = cell[0]

    def p_vc_forget(self, node, n):
        # objects that exist before the first evaluation are the same on every path with the same
        # branches during construction
        for k in self.st.written:
            if k[0] <= self.nobj0: self.wunion.setdefault((self.pre0,) + k, None)
        if not self.havoc: return
        self.note()
        # only one path through the first evaluation goes on: the state below is arbitrary in
        # everything an evaluation may have written, and its path condition is dropped
        pre = tuple(self.dec.ch[:self.dec.pos])
        if pre != self.through.setdefault(self.pre0, pre): raise RoundEnd()
        self.on_round1()            # the first evaluation is checked under its own path condition
        self.checked1 = True
        del self.st.path[self.npath0:]
        for (oid, key) in list(dict.fromkeys([k[1:] for k in self.wunion if k[0] == self.pre0] + list(self.st.written))):
            o = self.st.mem.get(oid)
            if o is None or not o.alive: continue
            if o.kind == 'dbl':
                if isinstance(key, int): raise Unsupported('a location changes its kind')
                off, r, c = key
                nm = fresh_name('havoc')
                self.set_layer(oid, off, r, c, lambda i, j: sel(nm, i, j))
                continue
            if not isinstance(key, int): raise Unsupported('a location changes its kind')
            if oid > self.nobj0: continue       # a temporary of the first evaluation
            ds = list(self.wdesc.get((self.pre0, oid, key), {}))
            kinds = sorted(set(d[0] for d in ds))
            if not ds: continue
            if kinds == ['bool']: nv = TM.mk('bsym', (fresh_name('hb'),), frozenset(), 0)
            elif kinds == ['bool', 'int'] and all(d[0] == 'bool' or d[1] in (0, 1) for d in ds): nv = TM.mk('bsym', (fresh_name('hb'),), frozenset(), 0)
            elif kinds == ['real']: nv = rsym(fresh_name('havoc'))
            elif kinds in (['mat'], ['dec'], ['ptr'], ['int']):
                d = ds[0]
                for x in ds[1:]:        # one of the forms seen on some path
                    if self.dec.choose(): break
                    d = x
                nm = fresh_name('havoc')
                if d[0] == 'mat':
                    b = self.new_dbl(itm(d[1]) * itm(d[2]), 'matrix storage')
                    nv = MatH(b.id, d[1], d[2])
                    if ival(itm(d[1]) * itm(d[2])) != 0: self.set_layer(b.id, ZERO, d[1], d[2], lambda i, j: sel(nm, i, j))
                elif d[0] == 'dec': nv = DecH(d[1], None if d[4] else self.mklam(d[2], d[2], lambda i, j: sel(nm, i, j)), d[2], d[3])
                elif d[0] == 'ptr':
                    if len(ds) > 1: raise Unsupported('a pointer written by evaluation differs between paths')
                    continue
                else: nv = d[1]
            else: raise Unsupported('evaluation changes the kind of a location')
            w = self.st.w(oid)
            w.cells[key] = (self.wsz.get((self.pre0, oid, key)) or o.cells[key][0], nv)

    def isdbl(self, oid, key): return key in self.dblcells.get(oid, ())


class SymCtx:
    symbolic = True
    def __init__(self, ex, spec=None):
        self.ex = ex
        self.spec = spec
        self.ev = ex.st.events
        self.rounds = [e[1] for e in self.ev if e[0] == 'round']
        if ex.checked1: self.rounds = [r for r in self.rounds if r != 1]

    def sz(self, n): return zsym('n$' + n) + (self.spec.low(n) if self.spec else 0)
    def A(self, name): return lambda i, j: sel(name, tm(i), tm(j))
    def real(self, n): return rsym(n)

    def events(self, r=None):
        """events of round r (list); r=None: all"""
        if r is None: return self.ev
        out, on = [], False
        for e in self.ev:
            if e[0] == 'round': on = e[1] == r; continue
            if on: out.append(e)
        return out

    def recs(self, label, id=None, r=None, part=None):
        return [e[1] for e in self.events(r) if e[0] == 'rec' and e[1].label == label and (id is None or e[1].id == id)]

    def skip(self, aspect): return self.ex.aspects is not None and aspect not in self.ex.aspects

    def check(self, aspect, desc, goal):
        if self.skip(aspect): return True
        if isinstance(goal, bool): goal = TRUE if goal else FALSE
        return self.ex.oblige(aspect, goal, desc)

    def eqs(self, aspect, desc, a, b): return self.skip(aspect) or self.ex.oblige_eq(aspect, a, b, desc)

    def eq(self, aspect, desc, rec, dims, F):
        """record equals F elementwise (a scalar record stands for its broadcast)"""
        if self.skip(aspect): return
        R, C = itm(dims[0]), itm(dims[1])
        if not rec.scalar:
            if not self.ex.oblige(aspect, band(eq(itm(rec.r), R), eq(itm(rec.c), C)), desc + ' (shape)'): return
        i, j = self.ex.idx(R, 'i'), self.ex.idx(C, 'j')
        g = [lt(ZERO, x) for x in (R, C) if not is_num(x)]
        g = [x for x in g if x is not TRUE]
        n0 = len(self.ex.guards)
        self.ex.guards.extend(g)
        try:
            if not any(self.ex.truth(x) is False for x in g):
                got = rec.f(i, j)
                want = F(i, j)
                got = br(got) if got.k in BOOLK else got
                want = br(want) if want.k in BOOLK else want
                self.ex.oblige_eq(aspect, got, want, desc)
        finally:
            del self.ex.guards[n0:]

    def truth(self, c): return self.ex.truth(c)


def run_sym(mod, name, spec, budget=120, aspects=None, deadline=None):
    """-> dict(obls, paths, completed, error)"""
    import time
    res = dict(name=name, obls=[], completed=0, paths=0, error=None, mode='induction', used={})
    t0 = time.time()
    for mode in ('induction', 'two rounds'):
        wun, wds, wsz, gmut = {}, {}, {}, {}
        for attempt in range(5):
            TM._fresh[0] = 0
            ex = VExec(mod, spec.domains())
            ex.havoc = mode == 'induction'
            ex.aspects = aspects
            ex.deadline = min(t0 + budget, deadline or t0 + budget)
            ex.wsz = wsz
            ex.gfix = gmut
            ex.wunion, ex.wdesc = dict(wun), {k: dict(v) for k, v in wds.items()}
            TM.SYMM.clear()
            TM.SYMM.update(spec.symm())
            ex.dec = Decider()
            ex.on_round1 = lambda: spec.check(SymCtx(ex, spec))
            completed = paths = 0
            err = None
            try:
                while True:
                    ex.reset()
                    ex.dec.pos = 0
                    paths += 1
                    if paths > 400: raise Unsupported('too many paths')
                    ex.timecheck()
                    try:
                        ex.call('sc_' + name, [])
                        completed += 1
                        for k in ex.st.written:
                            if k[0] <= getattr(ex, 'nobj0', 0): ex.wunion.setdefault((ex.pre0,) + k, None)
                        if ex.havoc: ex.note()
                        spec.check(SymCtx(ex, spec))
                    except RoundEnd:
                        completed += 1
                        spec.check(SymCtx(ex, spec))
                    except PathEnd:
                        pass
                    if not ex.dec.next(): break
            except (Unsupported, NotImplementedError, KeyError, TypeError, AttributeError, ValueError, IndexError, AssertionError, RecursionError,
                    OverflowError, ZeroDivisionError) as e:
                err = '%s: %s' % (type(e).__name__, e)
                if os.environ.get('VC_TRACE'): traceback.print_exc()
            if err or ex.gmut == gmut and (not ex.havoc or set(ex.wunion) == set(wun) and ex.wdesc == wds): break
            wun, wds = dict(ex.wunion), ex.wdesc
            gmut = {k: {**gmut.get(k, {}), **v} for k, v in list(gmut.items()) + list(ex.gmut.items())}
        else:
            err = 'the set of locations an evaluation writes did not stabilise'
        bad = [o for o in ex.obls if not o['soft'] and o['res'].ok is not True]
        if os.environ.get('VC_TRACE') and mode == 'induction' and (err or bad): print(name, 'induction:', err, [(o['desc'], o['res']) for o in bad[:3]])
        if mode == 'induction' and (err or bad):
            res['step'] = err or '; '.join('%s [%s]' % (o['desc'], o['where'][:60]) for o in bad[:3])
            res['stepmodels'] = [o['res'].model for o in bad if o['res'].model][:6]
        res.update(obls=ex.obls, completed=completed, paths=paths, error=err, mode=mode, used=dict(ex.used), loops=ex.loops_proved)
        if not err and not bad and completed: break
    res['time'] = time.time() - t0
    return res


# ------------------------------------------------------------------ concrete side
class Bad(Exception):
    pass


class NumCtx:
    symbolic = False
    def __init__(self, lines, dom, tol=1e-6):
        self.ev = []
        self.env = Env(dom, random.Random(1))
        self.env.cm, self.env.cap = {}, 300
        self.sizes, self.reals, self.arrs = {}, {}, {}
        self.fails = []
        self.rounds = []
        self.n = 0
        self.tol = tol
        for l in lines:
            w = l.split(' ')
            if w[0] == 'size': self.sizes[w[1]] = int(w[2])
            elif w[0] == 'real': self.reals[w[1]] = float(w[2])
            elif w[0] == 'fill':
                r, c = int(w[2]), int(w[3])
                self.arrs[w[1]] = (r, c, [float(x) for x in w[4:]])
            elif w[0] == 'ev':
                if w[1] == 'round': self.rounds.append(int(w[2]))
                self.ev.append((w[1], int(w[2])))
            elif w[0] == 'ptr':
                if w[1] != '1': self.fails.append(('storage', l[6:], None, None))
                self.n += 1
            elif w[0] == 'int':
                if w[1] != w[2]: self.fails.append(('storage' if 'storage' in l else 'contract', ' '.join(w[3:]), w[1], w[2]))
                self.n += 1
            elif w[0] == 'fail':
                self.fails.append((w[1], ' '.join(w[2:]), None, None))
            elif w[0] == 'rec':
                h, v = l.split('|')
                hw = h.split(' ')
                vals = [float(x) for x in v.split()]
                r, c = int(hw[1]), int(hw[2])
                self.ev.append(('rec', Rec(' '.join(hw[5:]), int(hw[4]), r, c, vals, hw[3] == 's')))
        for k, v in self.reals.items(): self.env.s[k] = v
        for k, v in self.sizes.items(): self.env.s['n$' + k] = v
        for k, (r, c, v) in self.arrs.items():
            for j in range(c):
                for i in range(r): self.env.arr[(k, i, j)] = v[i + j * r]

    def sz(self, n): return num(self.sizes[n])
    def A(self, name): return lambda i, j: sel(name, tm(i), tm(j))
    def real(self, n): return rsym(n)
    events = SymCtx.events
    recs = SymCtx.recs

    def check(self, aspect, desc, goal):
        self.n += 1
        if isinstance(goal, T):
            try: goal = bool(ev(goal, self.env))
            except Infeasible: return True
        if not goal: self.fails.append((aspect, desc, None, None))
        return goal

    def eqs(self, aspect, desc, a, b): return self.cmp(aspect, desc, a, b, None)

    def truth(self, c):
        try: return bool(ev(c, self.env))
        except Infeasible: return None

    def cmp(self, aspect, desc, got, want, at):
        self.n += 1
        try:
            if isinstance(got, T): got = ev(br(got) if got.k in BOOLK else got, self.env)
            want = ev(br(want) if want.k in BOOLK else want, self.env) if isinstance(want, T) else want
        except (Infeasible, OverflowError, ZeroDivisionError):
            return True
        if want != want or abs(want) > 1e12 and not math.isinf(want): return True
        if got == want: return True
        if math.isinf(got) or math.isinf(want) or got != got or abs(got - want) > self.tol * (1 + abs(want)):
            self.fails.append((aspect, desc + ('' if at is None else ' at (%d,%d)' % at), got, want))
            return False
        return True

    def eq(self, aspect, desc, rec, dims, F):
        try:
            R, C = [int(ev(itm(x), self.env)) for x in dims]
        except Infeasible:
            return
        if not rec.scalar and (rec.r, rec.c) != (R, C):
            self.fails.append((aspect, desc + ' (shape)', '%dx%d' % (rec.r, rec.c), '%dx%d' % (R, C)))
            return
        for i in range(R):
            for j in range(C):
                g = rec.f[0] if rec.scalar else rec.f[i + j * R]
                if not self.cmp(aspect, desc, g, F(num(i), num(j)), (i, j)): return


class Case:
    """one concrete input"""
    def __init__(self, seed, sizes=None, reals=None, arrs=None):
        self.seed, self.sizes, self.reals, self.arrs = seed, sizes or {}, reals or {}, arrs or {}
    def text(self, sc):
        o = ['case %s %d' % (sc, self.seed)]
        for k, v in self.sizes.items(): o.append('size %s %d' % (k, v))
        for k, v in self.reals.items(): o.append('real %s %.17g' % (k, v))
        for k, v in self.arrs.items(): o.append('arr %s %s' % (k, ' '.join('%.17g' % x for x in v)))
        o.append('run')
        return '\n'.join(o) + '\n'
    def js(self): return dict(seed=self.seed, sizes=self.sizes, reals=self.reals, arrays=self.arrs)


def gen_case(spec, seed, model=None):
    """random input of the scenario's domain; a refuting model overrides"""
    rng = random.Random(seed)
    dom = spec.domains()
    env = Env(dom, rng)
    c = Case(seed)
    for n in spec.sizes():
        lo = max(spec.low(n), spec.CLOW.get(n, 0))
        c.sizes[n] = rng.choice([lo, lo + 1, lo + 2, lo + 3, lo + 2, lo + 1, lo + 4])
    dense = any(k in ('spd', 'sym', 'invertible') for k in spec.arrays().values())
    if seed % 16 == 9:
        big = [n for n in spec.sizes() if n in ('n', 'm', 'k') and spec.low(n) < 3]
        if big: c.sizes[rng.choice(big)] = rng.choice([5, 6, 7] if dense else [6, 9, 10] if len(big) > 1 else [6, 9, 10, 17, 18, 33])
    if seed % 16 == 5 and 'n' in spec.sizes() and not dense and spec.low('n') < 3 and not any(x in spec.sizes() for x in ('m', 'k')):
        c.sizes['n'] = rng.choice([40, 65, 100, 129, 257])
    if seed == 1:
        for n in spec.sizes(): c.sizes[n] = max(spec.low(n), 2)
    if model:
        for k, v in model.get('symbols', {}).items():
            if k.startswith('n$') and k[2:] in c.sizes: c.sizes[k[2:]] = int(v) + spec.low(k[2:])
    for n, kd in spec.reals().items():
        c.reals[n] = kd[1](c, rng)[0] if isinstance(kd, tuple) and kd[0] == 'gen' else env.real(kd)
        if n == 'seed' and rng.random() < .8: c.reals[n] = rng.choice([1.0, 2.0, -0.5, 3.0, rng.uniform(-2, 2)])
        if model and n in model.get('symbols', {}): c.reals[n] = float(model['symbols'][n])
    for n, kd in spec.arrays().items():
        if kd in ('spd', 'sym', 'invertible'):
            import numpy as np
            m = c.sizes[spec.dimname(n)]
            b = np.array([[rng.uniform(-1, 1) for _ in range(m)] for _ in range(m)]).reshape(m, m)
            if kd == 'spd': b = b @ b.T + np.eye(m) * rng.uniform(.3, 1)
            elif kd == 'sym':
                b = b @ b.T + np.eye(m) * rng.uniform(.3, 1)
                if rng.random() < .25: b = b - np.eye(m) * 2
            else: b = b + np.eye(m) * 2
            c.arrs[n] = [float(x) for x in b.T.reshape(-1)]
            continue
        if isinstance(kd, tuple) and kd[0] == 'gen':
            c.arrs[n] = kd[1](c, rng)
            continue
        c.arrs[n] = [env.real(kd) for _ in range(40)]
    # histories: an input that stays as it was, goes back to an earlier value or changes in one element only
    for n in sorted(c.arrs):
        m = re.fullmatch(r'(.+_)(\d)', n)
        if m is None or int(m.group(2)) < 2: continue
        k = int(m.group(2))
        old = c.arrs.get(m.group(1) + str(k - 1 if k < 3 or rng.random() < .6 else k - 2))
        if old is None or len(old) != len(c.arrs[n]): continue
        x = rng.random()
        if x < .2: c.arrs[n] = list(old)
        elif x < .35 and len(old) == 40 and spec.arrays()[n] not in ('spd', 'sym', 'invertible'):
            e = rng.randrange(3)
            c.arrs[n] = list(old[:e]) + [c.arrs[n][e]] + list(old[e + 1:])
    if model:
        byarr = {}
        for k, v in model.get('elements', {}).items():
            if '[' not in k: continue
            nm, ix = k[:-1].split('[')
            i, j = ix.split(',')
            byarr.setdefault(nm, {})[(int(i), int(j))] = v
        for nm, d in byarr.items():
            if nm not in c.arrs: continue
            r = spec.rows(nm, c)
            if r is None: continue
            for (i, j), v in d.items():
                k = i + j * r
                if 0 <= k < len(c.arrs[nm]): c.arrs[nm][k] = float(v)
    return c


def run_con(exe, name, spec, cases, timeout=60, tol=1e-6, budget=None):
    """run the real code on the cases; list of (case, fails)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    out = []
    left = list(cases)
    total = 0
    ran = 0
    end = time.time() + budget if budget else None
    while left:
        txt = ''.join(c.text(name) for c in left)
        try:
            p = subprocess.run([exe], input=txt, capture_output=True, text=True, timeout=timeout, env=env)
            so, se, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            so, se, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout', -1
        if 'nosuch' in so: return dict(ok=None, why='scenario missing in the replay binary', ran=ran, checks=total)
        blocks = so.split('begin %s\n' % name)[1:]
        for n, b in enumerate(blocks):
            if end and ran >= 6 and time.time() > end: return dict(ok=True, ran=ran, checks=total)
            done = b.rstrip().endswith('end')
            lines = b.split('\n')
            if done:
                nc = NumCtx([l for l in lines if l], spec.domains(), tol)
                ran += 1
                try:
                    if spec.feasible(nc): spec.check(nc)
                except Infeasible:
                    pass
                except (KeyError, IndexError, NotImplementedError, TypeError) as e:
                    return dict(ok=None, why='oracle: %r' % e, ran=ran, checks=total)
                total += nc.n
                if nc.fails: return dict(ok=False, case=left[n], fails=nc.fails, ran=ran, checks=total, log=b[:4000])
            else:
                why = [l for l in se.split('\n') if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'assert' in l]
                fr = [l.strip() for l in se.split('\n') if '/repo/include' in l or 'fastad' in l][:6]
                return dict(ok=False, case=left[n], fails=[('memory' if 'Sanitizer' in se else 'assert', (why[0] if why else 'abnormal end, status %d' % rc), None, None)],
                            ran=ran, checks=total, log=(b[:2000] + '\n' + '\n'.join(why + fr) + '\n' + se[:3000]))
        if len(blocks) < len(left) and (not blocks or rc != 0):
            return dict(ok=None, why='replay binary stopped: rc %d %s' % (rc, se[:300]), ran=ran, checks=total)
        left = left[len(blocks):]
    return dict(ok=True, ran=ran, checks=total)
