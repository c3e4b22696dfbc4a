"""Deductive executor: symbolic execution of the real functions' IR with path forking,
loop summarisation by discovered-and-checked inductive invariants, and proof
obligations for assertions, memory accesses and definedness."""
import math
import struct
import time
from fractions import Fraction as Fr
from .terms import *
from . import terms as TM
from . import ir
from .prover import *
from . import prover as PV


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """path infeasible or terminated (assertion failure, throw)"""


class MoreMod(Exception):
    def __init__(self, cell=None, reg=None, base=None): self.cell, self.reg, self.base = cell, reg, base


class Ptr:
    __slots__ = ('o', 'off', 'el')
    def __init__(self, o, off, el=None): self.o, self.off, self.el = o, off, el
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)
    def __eq__(self, q): return isinstance(q, Ptr) and self.o == q.o and self.off == q.off
    def __hash__(self): return hash((self.o, self.off))


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Lazy:
    __slots__ = ('op', 'a', 'r', 'c')
    def __init__(self, op, a, r, c): self.op, self.a, self.r, self.c = op, a, r, c
    def __repr__(self): return 'Lazy(%s,%s,%s)' % (self.op, self.r, self.c)


class MatH:
    __slots__ = ('buf', 'r', 'c')
    def __init__(self, b, r, c): self.buf, self.r, self.c = b, r, c
    def __eq__(self, o): return isinstance(o, MatH) and (o.buf, o.r, o.c) == (self.buf, self.r, self.c)
    def __hash__(self): return hash((self.buf, self.r, self.c))


class DecH:
    __slots__ = ('dk', 'lam', 'n', 'mode')
    def __init__(self, dk, lam, n, mode): self.dk, self.lam, self.n, self.mode = dk, lam, n, mode
    def __eq__(self, o): return isinstance(o, DecH) and (o.dk, o.lam, o.n, o.mode) == (self.dk, self.lam, self.n, self.mode)
    def __hash__(self): return hash((self.dk, self.n))


def ival(p):
    """poly -> int when constant"""
    if isinstance(p, T) and p.k == 'poly' and is_num(p):
        v = numval(p)
        if v.denominator == 1: return int(v)
    return p


def itm(x):
    """runtime int -> poly"""
    if isinstance(x, T): return tm(x)
    if isinstance(x, (int, bool)): return num(int(x))
    raise Unsupported('integer value %r' % (x,))


class Obj:
    __slots__ = ('id', 'kind', 'size', 'alive', 'cells', 'layers', 'tag', 'zero', 'base')
    def __init__(self, id, kind, size, tag=''):
        self.id, self.kind, self.size, self.tag = id, kind, size, tag
        self.alive = True
        self.cells = {}
        self.layers = []
        self.zero = []
        self.base = id          # names the initial contents

    def copy(self):
        o = Obj(self.id, self.kind, self.size, self.tag)
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.layers = list(self.layers)
        o.zero = list(self.zero)
        o.base = self.base
        return o


class State:
    def __init__(self):
        self.mem = {}
        self.path = []
        self.events = []
        self.own = set()
        self.written = {}      # (obj, key) -> None   ordered
        self.round = 0
        self.info = {}

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.path = list(self.path)
        s.events = list(self.events)
        s.written = dict(self.written)
        s.round = self.round
        s.info = dict(self.info)
        self.own = set()
        return s

    def w(self, oid):
        """object for writing (copy on write)"""
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


KNOWN = None


def known_consts():
    """closed forms recognised in floating literals"""
    global KNOWN
    if KNOWN is None:
        h = Fr(1, 2)
        sq = lambda x, e=h: powq(x, Fr(e))
        l2 = app('log', (num(2),))
        lp = app('log', (PI,))
        c = [(math.pi, PI), (2 / math.sqrt(math.pi), num(2) * sq(PI, -h)), (math.sqrt(2 * math.pi), sq(num(2)) * sq(PI)),
             (0.5 * math.log(2 * math.pi), (l2 + lp) * h), (math.log(2 * math.pi), l2 + lp), (math.log(2), l2), (math.log(math.pi), lp),
             (math.sqrt(2), sq(num(2))), (1 / math.sqrt(2 * math.pi), sq(num(2), -h) * sq(PI, -h)), (math.pi / 2, PI * h), (2 * math.pi, PI * 2),
             (1 / math.pi, sq(PI, -1)), (2 / math.pi, sq(PI, -1) * 2), (math.sqrt(math.pi), sq(PI)), (1 / math.sqrt(math.pi), sq(PI, -h)),
             (1 / math.sqrt(2), sq(num(2), -h)), (math.e, app('exp', (ONE,))), (math.log(10), app('log', (num(10),))), (math.log(4), l2 * 2)]
        KNOWN = c
    return KNOWN


def fconst(v):
    if v != v: raise Unsupported('NaN literal')
    if math.isinf(v): return INF if v > 0 else neg(INF)
    f = Fr(v)
    if f.denominator <= 4096: return num(f)
    for c, t in known_consts():
        for s in (1, -1):
            if abs(v - s * c) <= 6e-16 * abs(c): return t if s == 1 else neg(t)
    # decimal literal such as 0.1: prefer the short decimal
    d = Fr(repr(v))
    if d.denominator <= 10 ** 6: return num(d)
    return num(f)


class Decider:
    def __init__(self, prefix=()):
        self.ch = list(prefix)
        self.pos = 0

    def choose(self):
        if self.pos < len(self.ch):
            r = self.ch[self.pos]
        else:
            r = True
            self.ch.append(True)
        self.pos += 1
        return r

    def next(self):
        while self.ch and self.ch[-1] is False: self.ch.pop()
        if not self.ch: return False
        self.ch[-1] = False
        self.pos = 0
        return True


FLOATFN = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf', 'erfc', 'sinh', 'cosh', 'tanh', 'fabs', 'pow', 'lgamma',
           'log1p', 'expm1', 'log10', 'log2', 'exp2', 'floor', 'ceil', 'round', 'atan2', 'fmin', 'fmax', 'cbrt', 'tgamma', 'hypot', 'fma'}

UNOPS = {100: 'NEG', 101: 'SQUARE', 102: 'CUBE', 103: 'INVERSE', 104: 'ABS', 105: 'SQRT', 106: 'EXP', 107: 'LOG', 108: 'SIN', 109: 'COS',
         110: 'TAN', 111: 'ASIN', 112: 'ACOS', 113: 'ATAN', 114: 'SINH', 115: 'COSH', 116: 'TANH', 117: 'ERF', 118: 'NOT', 119: 'SIGN',
         120: 'ISNAN', 121: 'ISFINITE', 122: 'ISINF', 123: 'LOG1P', 124: 'EXPM1', 125: 'LOGISTIC', 126: 'FLOOR', 127: 'CEIL', 128: 'ROUND',
         129: 'ERFC', 130: 'LGAMMA', 131: 'RSQRT', 132: 'LOG10'}
BINOPS = ['ADD', 'SUB', 'MUL', 'DIV', 'MIN', 'MAX', 'LT', 'LE', 'GT', 'GE', 'EQ', 'NE', 'AND', 'OR', 'POW', 'ABSDIFF', 'ATAN2']
REDOPS = ['SUM', 'PROD', 'MEAN', 'SQNORM', 'NORM', 'MIN', 'MAX', 'TRACE', 'L1', 'LINF']


def split_ite(f, *xs):
    """apply boolean f to terms, splitting top-level ite atoms that carry infinities"""
    for n, x in enumerate(xs):
        if x.k == 'poly' and has_inf(x):
            for m, c in x.a:
                for at, e in m:
                    if at.k == 'ite':
                        cond = at.a[0]
                        lits = {}
                        def rep(y, br_):
                            return PV._map_atoms(y, lambda a: (a.a[1] if br_ else a.a[2]) if a.k == 'ite' and a.a[0] is cond else None)
                        A = split_ite(f, *[rep(y, True) for y in xs])
                        B = split_ite(f, *[rep(y, False) for y in xs])
                        return ite(cond, A, B)
    return f(*xs)


class Exec:
    def __init__(self, mod, dom, demangle=None):
        self.mod, self.dom = mod, dom
        self.st = State()
        self.nobj = 0
        self.obls = []            # (kind, desc, Result, path)
        self.oblkeys = set()
        self.dec = Decider()
        self.used = {}            # function names executed -> count
        self.globs = {}
        self.stack = []
        self.undefd = []          # undischarged definedness
        self.depth = 0
        self.hooks = {}
        self.steps = 0
        self.max_steps = 3000000
        self.readlog = None
        self.deadline = None
        self.guards = []
        self.quiet = 0
        self.assumed = set()
        self.loops_proved = 0
        self._bcache = {}
        self.exit_only = None
        self.dblcells = {}
        self.globname = {}
        self.globinit = {}
        self.ginit = 0            # inside the initialisation of a static
        self.gmut = {}            # (static, offset) -> kinds of values written outside its initialisation
        self.gfix = {}            # ... as known when this attempt began

    # ------------------------------------------------------------ obligations
    def ctx(self):
        return self.st.path + self.guards

    def timecheck(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')

    def oblige(self, kind, goal, desc, soft=False):
        self.timecheck()
        key = (kind, desc, goal, tuple(c.s for c in self.ctx()))
        if key in self.oblkeys: return True
        self.oblkeys.add(key)
        r = prove(goal, self.ctx(), self.dom)
        where = self.where()
        if not self.quiet or not r.ok:
            self.obls.append(dict(kind=kind, desc=desc, where=where, res=r, goal=goal, path=list(self.ctx()), soft=soft))
        return r.ok

    def where(self):
        for f in reversed(self.stack):
            if 'Eigen' not in f and not f.startswith('eg_') and not f.startswith('vc_'): return f
        return self.stack[-1] if self.stack else ''

    def defined(self, goal, desc):
        """definedness side condition of a real operation (soft: an unproved one makes
        dependent proofs inconclusive, a refuted one is decided by the values)"""
        if goal is TRUE: return
        self.oblige('defined', goal, desc, soft=True)

    # ------------------------------------------------------------ branching
    def truth(self, c):
        """decide a boolean under the path; None when open"""
        if c is TRUE: return True
        if c is FALSE: return False
        self.timecheck()
        c2 = PV._simp_ctx(c, self.ctx())
        if c2 is TRUE: return True
        if c2 is FALSE: return False
        if z3_unsat(self.ctx() + [c], self.dom, 1500): return False
        if z3_unsat(self.ctx() + [bnot(c)], self.dom, 1500): return True
        return None

    def branch(self, c):
        t = self.truth(c)
        if t is not None: return t
        r = self.dec.choose()
        self.st.path.append(c if r else bnot(c))
        return r

    def ge0(self, p):
        p = tm(p)
        if is_num(p): return numval(p) >= 0
        if self._nn(p, *self._bounds(), 0): return True
        return self.truth(ge(p, ZERO)) is True

    def _bounds(self):
        """integer bounds implied by single facts of the path: (lower, upper) per symbol"""
        cx = tuple(self.ctx())
        r = self._bcache.get(cx)
        if r is not None: return r
        lo, ub = {}, {}
        def setlo(a, v):
            if a not in lo or lo[a] < v: lo[a] = v
        for c in cx:
            for c in (c.a if c.k == 'and' else (c,)):
                pos = True
                if c.k == 'not': pos, c = False, c.a[0]
                if c.k != 'cmp' or c.a[0] != '<' or not is_int_poly(c.a[1]) and not all(at.k == 'sym' and at.a[1] == 'Z' for m, _ in c.a[1].a for at, e in m): continue
                q = c.a[1] if pos else neg(c.a[1])           # q < 0   or   q <= 0
                for m, cf in q.a:
                    if len(m) != 1 or m[0][1] != 1: continue
                    a = m[0][0]
                    if a.k != 'sym' or a.a[1] != 'Z': continue
                    rest = TM._poly({mm: k for mm, k in q.a if mm != m})
                    if a.a[0] in rest.fv: continue
                    b = scale(rest, -1 / Fr(cf))             # cf>0: a < b or a <= b ; cf<0: a > b or a >= b
                    if cf > 0:
                        if all(x.denominator == 1 for _, x in b.a): ub.setdefault(a, []).append(b if pos else b + 1)
                    elif is_num(b):
                        v = numval(b)
                        setlo(a, math.floor(v) + 1 if pos else math.ceil(v))
        for a, us in ub.items():
            al = lo.get(a)
            if al is None and (len(a.a) > 2 or a.a[0].startswith('n$')): al = 0
            if al is None or al < 0: continue
            for u in us:
                x = as_atom(u)
                if x is not None and x.k == 'sym': setlo(x, al + 1)
        r = (lo, ub)
        self._bcache[cx] = r
        return r

    def _nn(self, q, lo, ub, depth):
        """q >= 0 by interval reasoning, linear in each bounded symbol"""
        if not q.a: return True
        def low(at):
            if at in lo: return lo[at]
            if at.k == 'sym' and at.a[1] == 'Z' and (at.a[0].startswith('n$') or len(at.a) > 2): return 0
            return None
        ats = {at for m, c in q.a for at, e in m}
        if any(at.k != 'sym' or at.a[1] != 'Z' for at in ats): return False
        ngs = {at for m, c in q.a if c < 0 for at, e in m}
        if not ngs and q.a and all(c >= 0 for m, c in q.a):
            return all((low(at) is not None and low(at) >= 0) for at in ats)
        # shift by the lower bounds
        sh = {at: atom(at) + low(at) for at in ats if low(at)}
        if sh:
            s = subst(q, sh)
            if all(c >= 0 for m, c in s.a) and all(low(at) is not None for at in ats): return True
        if depth > 5: return False
        for a in sorted(ngs, key=lambda x: x.s):
            us = list(ub.get(a, ()))
            if len(a.a) > 2 and a.a[2] is not None: us = [tm(a.a[2])] + us
            us = [u for u in us if a.a[0] not in u.fv]
            l = low(a)
            if not us or l is None: continue
            A, B, ok = {}, {}, True
            for m, c in q.a:
                d = dict(m)
                if a in d:
                    if d[a] != 1: ok = False; break
                    A[tuple(x for x in m if x[0] is not a)] = c
                else: B[m] = c
            if not ok: continue
            A, B = TM._poly(A), TM._poly(B)
            dec = all(c <= 0 for m, c in A.a) and all((low(at) or 0) >= 0 and low(at) is not None for m, c in A.a for at, e in m)
            if not dec and not self._nn(A * num(l) + B, lo, ub, depth + 1): continue
            for u in us:
                if self._nn(A * (u - 1) + B, lo, ub, depth + 1): return True
        return False

    # ------------------------------------------------------------ memory
    def new_obj(self, kind, size, tag=''):
        self.nobj += 1
        o = Obj(self.nobj, kind, size, tag)
        self.st.mem[o.id] = o
        self.st.own.add(o.id)
        return o

    def new_dbl(self, n, tag=''):
        """buffer of n doubles (n poly/int)"""
        o = self.new_obj('dbl', ival(itm(n) * 8), tag)
        return o

    def obj(self, p, what='access'):
        if not isinstance(p, Ptr): raise Unsupported('pointer %r' % (p,))
        if p.o == 0:
            self.fail('memory', 'null pointer %s' % what)
        o = self.st.mem.get(p.o)
        if o is None: raise Unsupported('unknown object')
        if not o.alive:
            self.fail('memory', 'use of %s after its lifetime ended (%s)' % (o.tag or 'object', what))
        return o

    def fail(self, kind, desc):
        self.oblige(kind, FALSE, desc)
        raise PathEnd(desc)

    def _log_write(self, oid, key):
        g = self.globname.get(oid)
        if g is not None:
            # a static: another expression may change it whenever other code runs (havoc_statics),
            # and what it holds is no part of the state of this expression
            if not self.ginit: self.static_written(g, oid, key)
            elif isinstance(key, int):
                v = self.st.mem[oid].cells[key][1]
                if not isinstance(v, (int, T)) and v is not UNDEF and not (isinstance(v, Ptr) and v.o == 0): raise Unsupported('static holding %r' % (v,))
            return
        self.st.written[(oid, key)] = None

    def static_written(self, g, oid, key):
        if not isinstance(key, int): raise Unsupported('array storage in a static')
        sz, v = self.st.mem[oid].cells[key]
        if v is UNDEF: return
        if isinstance(v, T) and v.k in BOOLK: d = 'bool'
        elif key in self.dblcells.get(oid, ()): d = 'real'
        elif isinstance(v, int) and sz == 1 and v in (0, 1): d = 'bool'
        elif isinstance(v, T) and not is_int_poly(v): d = 'real'
        elif isinstance(v, (int, T)): d = 'int'
        elif isinstance(v, Ptr): d = 'ptr'
        else: raise Unsupported('static holding %r' % (v,))
        self.gmut.setdefault((g, key), {})[(d, sz)] = None

    def havoc_statics(self):
        """other expressions may have been evaluated: mutable statics hold anything"""
        for (g, key), ds in self.gfix.items():
            p = self.glob(g)
            kinds = sorted(set(d for d, _ in ds))
            sz = max(z for _, z in ds)
            if kinds == ['bool']: v = T.mk('bsym', (fresh_name('gb'),), frozenset(), 0)
            elif kinds == ['real']: v = rsym(fresh_name('gr'))
            elif kinds == ['int'] or kinds == ['bool', 'int']: v = zsym(fresh_name('gi'))
            else: raise Unsupported('a static whose kind of value varies')
            self.put(self.st.w(p.o), key, sz, v)

    def load(self, p, ty):
        o = self.obj(p, 'read')
        if o.kind == 'dbl':
            if ty.k not in ('double',): raise Unsupported('typed load %r from double buffer' % ty)
            return self.read_region(p, 1, 1)(ZERO, ZERO)
        off = ival(p.off) if isinstance(p.off, T) else p.off
        rt = self.mod.resolve(ty)
        if rt.k in ('struct', 'arr', 'vec'):
            out = []
            n = len(rt.e) if rt.k == 'struct' else rt.n
            for i in range(n):
                fo, ft = self.mod.fieldoff(rt, i)
                out.append(self.load(Ptr(p.o, self.padd(p.off, fo)), ft))
            return out
        sz = self.mod.size(ty)
        if o.kind == 'fam': return self.fam_load(o, p, ty)
        if isinstance(off, T): return self.sym_load(o, p, ty)
        if self.readlog is not None: self.readlog.append((o.id, off))
        c = o.cells.get(off)
        if c is not None and c[0] == sz: return c[1]
        if c is not None and c[0] > sz and isinstance(c[1], int):
            return c[1] & ((1 << (8 * sz)) - 1)
        if c is not None and sz == 1 and isinstance(c[1], (T,)): return c[1]
        for a, b in o.zero:
            if a <= off and off + sz <= b:
                if ty.k == 'ptr': return NULL
                if ty.k == 'double': return ZERO
                return 0
        # bytes of an int cell
        for co, (cs, cv) in o.cells.items():
            if co <= off and off + sz <= co + cs and isinstance(cv, int):
                return (cv >> (8 * (off - co))) & ((1 << (8 * sz)) - 1)
        if off < 0 or (isinstance(o.size, int) and off + sz > o.size):
            self.fail('memory', 'read out of bounds of %s' % o.tag)
        if any(not (co + cs <= off or off + sz <= co) for co, (cs, cv) in o.cells.items()):
            raise Unsupported('partial load at %s+%d' % (o.tag, off))
        if ty.k == 'double':
            v = rsym(fresh_name('uninit'))
            self.st.info.setdefault('uninit', [])
            o2 = self.st.w(o.id)
            o2.cells[off] = (8, v)
            return v
        return UNDEF

    def padd(self, off, d):
        if isinstance(off, int) and isinstance(d, int): return off + d
        return ival(itm(off) + itm(d))

    def store(self, p, v, ty):
        rt = self.mod.resolve(ty)
        o = self.obj(p, 'write')
        if o.kind == 'dbl':
            if ty.k != 'double': raise Unsupported('typed store %r to double buffer' % ty)
            if v is UNDEF: v = rsym(fresh_name('uninit'))
            self.write_region(p, 1, 1, lambda i, j: v)
            return
        if rt.k in ('struct', 'arr', 'vec'):
            n = len(rt.e) if rt.k == 'struct' else rt.n
            for i in range(n):
                fo, ft = self.mod.fieldoff(rt, i)
                self.store(Ptr(p.o, self.padd(p.off, fo)), v[i] if isinstance(v, list) else UNDEF, ft)
            return
        off = ival(p.off) if isinstance(p.off, T) else p.off
        if o.kind == 'fam': return self.fam_store(o, p, v, ty)
        if isinstance(off, T): raise Unsupported('store at symbolic offset in %s' % o.tag)
        sz = self.mod.size(ty)
        if off < 0 or (isinstance(o.size, int) and off + sz > o.size):
            self.fail('memory', 'write out of bounds of %s' % o.tag)
        o = self.st.w(p.o)
        if o.tag.startswith('const '): self.fail('memory', 'write to constant storage')
        if ty.k == 'double': self.dblcells.setdefault(o.id, set()).add(off)
        self.put(o, off, sz, v)
        self._log_write(o.id, off)

    def put(self, o, off, sz, v):
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            for co in [co for co, (cs, _) in o.cells.items() if not (co + cs <= off or off + sz <= co)]:
                cs, cv = o.cells.pop(co)
                if (co < off or co + cs > off + sz):
                    # split an int / zero cell
                    if cv is UNDEF: pass
                    elif isinstance(cv, int):
                        for b in range(co, co + cs):
                            if b < off or b >= off + sz: o.cells[b] = (1, (cv >> (8 * (b - co))) & 255)
                    else:
                        raise Unsupported('partial overwrite in %s' % o.tag)
        o.cells[off] = (sz, v)

    def sym_load(self, o, p, ty):
        raise Unsupported('load at symbolic offset in %s' % o.tag)

    def fam_load(self, o, p, ty): raise Unsupported('family load')
    def fam_store(self, o, p, v, ty): raise Unsupported('family store')

    def memcpy(self, d, s, n):
        n = ival(n) if isinstance(n, T) else n
        if not isinstance(n, int): return self.memcpy_sym(d, s, n)
        if n == 0: return
        so, do = self.obj(s, 'copy source'), self.obj(d, 'copy destination')
        if so.kind == 'dbl' or do.kind == 'dbl':
            if n % 8: raise Unsupported('memcpy of doubles')
            f = self.read_region(s, n // 8, 1)
            self.write_region(d, n // 8, 1, f)
            return
        if so.kind == 'fam' or do.kind == 'fam': return self.memcpy_fam(d, s, n)
        so_, do_ = ival(s.off), ival(d.off)
        if isinstance(so_, T) or isinstance(do_, T): raise Unsupported('memcpy at symbolic offset')
        if isinstance(so.size, int) and so_ + n > so.size: self.fail('memory', 'copy reads out of bounds')
        if isinstance(do.size, int) and do_ + n > do.size: self.fail('memory', 'copy writes out of bounds')
        src = [(co, cs, cv) for co, (cs, cv) in so.cells.items() if co < so_ + n and co + cs > so_]
        for co, cs, cv in src:
            if co < so_ or co + cs > so_ + n: raise Unsupported('partial memcpy')
        do = self.st.w(d.o)
        for co in [co for co, (cs, _) in do.cells.items() if co < do_ + n and co + cs > do_]:
            cs = do.cells[co][0]
            if co < do_ or co + cs > do_ + n: raise Unsupported('partial memcpy overwrite')
            del do.cells[co]
        for co, cs, cv in src:
            do.cells[co - so_ + do_] = (cs, cv)
            if co in self.dblcells.get(so.id, ()): self.dblcells.setdefault(do.id, set()).add(co - so_ + do_)
            self._log_write(do.id, co - so_ + do_)
        for a, b in so.zero:
            a, b = max(a, so_), min(b, so_ + n)
            if a < b: do.zero = do.zero + [(a - so_ + do_, b - so_ + do_)]

    def memcpy_sym(self, d, s, n):
        so, do = self.obj(s), self.obj(d)
        if so.kind == 'dbl' and do.kind == 'dbl':
            c = ival(tm(n) / 8)
            f = self.read_region(s, c, 1)
            self.write_region(d, c, 1, f)
            return
        raise Unsupported('memcpy of symbolic size')

    def memcpy_fam(self, d, s, n): raise Unsupported('family memcpy')

    def memset(self, d, v, n):
        n = ival(n) if isinstance(n, T) else n
        if isinstance(n, int) and n == 0: return
        o = self.obj(d, 'memset')
        if v != 0: raise Unsupported('memset non-zero')
        if o.kind == 'dbl':
            self.write_region(d, ival(itm(n) / 8), 1, lambda i, j: ZERO)
            return
        off = ival(d.off)
        if not isinstance(n, int) or not isinstance(off, int): raise Unsupported('symbolic memset')
        o = self.st.w(d.o)
        for co in [co for co, (cs, _) in o.cells.items() if co < off + n and co + cs > off]:
            if co < off or co + o.cells[co][0] > off + n: raise Unsupported('partial memset')
            del o.cells[co]
        o.zero.append((off, off + n))

    # ------------------------------------------------------------ regions of doubles
    def norm_region(self, p, r, c):
        r, c = ival(r), ival(c)
        return p, r, c

    def check_bounds(self, o, off, r, c, what):
        n = itm(r) * itm(c)
        nz = ival(n)
        if nz == 0: return
        if o.kind == 'dbl':
            end = itm(off) + n * 8
            g1 = self.ge0(itm(off))
            g2 = self.ge0(itm(o.size) - end)
            goal = band(le(ZERO, itm(off)), le(end, itm(o.size)))
            if g1 and g2:
                key = ('b', o.id, itm(off).s, n.s, what)
                if key not in self.oblkeys:
                    self.oblkeys.add(key)
                    if not self.quiet:
                        self.obls.append(dict(kind='memory', desc='%s within bounds of %s' % (what, o.tag), where=self.where(),
                                              res=Result(True, 'nf'), goal=goal, path=[], soft=False))
                return
            g = bor(goal, eq(n, ZERO))
            if not self.oblige('memory', g, '%s within bounds of %s' % (what, o.tag)):
                raise PathEnd('out of bounds')
        else:
            off, rr = ival(off), ival(n)
            if not isinstance(off, int) or not isinstance(rr, int): raise Unsupported('symbolic region in %s' % o.tag)
            if off < 0 or off + 8 * rr > o.size: self.fail('memory', '%s out of bounds of %s' % (what, o.tag))

    def read_region(self, p, r, c):
        """function (i,j)->term of the current content of the r x c column-major region"""
        p, r, c = self.norm_region(p, r, c)
        if ival(itm(r) * itm(c)) == 0:
            return lambda i, j: ZERO
        if p.o == 0:
            if self.truth(eq(itm(r) * itm(c), ZERO)) is True: return lambda i, j: ZERO
            self.fail('memory', 'read through a null pointer')
        o = self.obj(p, 'read')
        self.check_bounds(o, p.off, r, c, 'read')
        if self.readlog is not None: self.readlog.append((o.id, 'region'))
        if o.kind != 'dbl':
            n = ival(itm(r) * itm(c))
            if n == 1:
                v = self.load(Ptr(p.o, p.off), ir.Ty('double'))
                return lambda i, j: v
            if not isinstance(n, int) or n > 16: raise Unsupported('region read in struct memory')
            vs = [self.load(Ptr(p.o, self.padd(p.off, 8 * k)), ir.Ty('double')) for k in range(n)]
            def g(i, j):
                ix = itm(i) + itm(j) * itm(r)
                res = vs[-1]
                for k in range(n - 1): res = ite(eq(ix, num(k)), vs[k], res)
                return res
            return g
        if p.el is not None and r == 1 and c == 1:
            b, rr, cc, i0, j0 = p.el
            f = self._read_layers(o, b, rr, cc)
            v = f(i0, j0)
            return lambda i, j: v
        return self._read_layers(o, p.off, r, c)

    def _read_layers(self, o, off, r, c):
        offp, rp, cp = itm(off), itm(r), itm(c)
        nbytes = rp * cp * 8
        patches = []
        def patched(f):
            if not patches: return f
            ps = list(patches)
            def g(i, j):
                k = itm(i) if cp is ONE else itm(j)
                def at(n):
                    if n == len(ps): return f(i, j)
                    d, ln, col, lam = ps[n]
                    q = k + d          # index inside the written region
                    inside = band(le(ZERO, q), lt(q, ln))
                    return ite(inside, lam_apply(lam, q, ZERO) if col else lam_apply(lam, ZERO, q), at(n + 1))
                return at(0)
            return g
        for (lo, lr, lc, lam) in reversed(o.layers):
            if lo is offp and ((lr is rp and lc is cp)):
                return patched(lambda i, j, lam=lam: lam_apply(lam, i, j))
            if lo is offp and lr * lc is rp * cp:
                if rp is lc and cp is lr and (rp is ONE or cp is ONE):
                    return patched(lambda i, j, lam=lam: lam_apply(lam, j, i))
                if cp is ONE and lc is not ONE or lc is ONE: pass
            lbytes = lr * lc * 8
            if self.disjoint(offp, nbytes, lo, lbytes): continue
            # contained?
            d = (offp - lo) / 8
            rel = self.delin(d, lr, lc)
            if rel is not None:
                i0, j0 = rel
                if rp is lr and (i0 is ZERO) and self.ge0(lc - j0 - cp):
                    return patched(lambda i, j, lam=lam: lam_apply(lam, i, itm(j) + j0))
                if cp is ONE and self.ge0(lr - i0 - rp) and self.ge0(lc - 1 - j0):
                    return patched(lambda i, j, lam=lam: lam_apply(lam, itm(i) + i0, j0))
                if rp is ONE and lr is ONE and self.ge0(lc - j0 - cp):
                    return patched(lambda i, j, lam=lam: lam_apply(lam, ZERO, itm(j) + j0))
                if rp is ONE and lc is ONE and self.ge0(lr - i0 - cp):
                    return patched(lambda i, j, lam=lam: lam_apply(lam, itm(j) + i0, ZERO))
            if lo is offp and lr * lc is rp * cp and lc is ONE and is_num(rp) is False:
                # a flat write seen as a matrix
                return patched(lambda i, j, lam=lam: lam_apply(lam, itm(i) + itm(j) * rp, ZERO))
            # partial overlap of two flat regions: decide element by element
            if (cp is ONE or rp is ONE) and (lc is ONE or lr is ONE):
                patches.append((d, lr if lc is ONE else lc, lc is ONE, lam))
                continue
            raise Unsupported('overlapping region access in %s' % o.tag)
        nm = 'u$%d' % o.base
        base = offp / 8
        return patched(lambda i, j: sel(nm, base + itm(i) + itm(j) * rp, ZERO))

    def disjoint(self, a, n, b, m):
        if self.ge0(b - a - n) or self.ge0(a - b - m): return True
        # empty regions overlap nothing
        if self.truth(eq(n, ZERO)) is True or self.truth(eq(m, ZERO)) is True: return True
        return False

    def delin(self, d, r, c):
        """d = i + j*r with i in [0,r), 0 <= j (for a single row or column: 0 <= i, j)"""
        if d is ZERO: return (ZERO, ZERO)
        if c is ONE: return (d, ZERO) if self.ge0(d) else None
        if r is ONE: return (ZERO, d) if self.ge0(d) else None
        if is_num(r):
            rv = int(numval(r))
            if is_num(d) and numval(d) < 0: return None
            if is_num(d): return (num(int(numval(d)) % rv), num(int(numval(d)) // rv))
            i, j = ZERO, ZERO
            for m, cf in d.a:
                if cf.denominator == 1 and int(cf) % rv == 0: j = j + TM._poly({m: cf / rv})
                else: i = i + TM._poly({m: cf})
        else:
            ra = as_atom(r)
            if ra is None: return self.delin_poly(d, r)
            i, j = ZERO, ZERO
            for m, cf in d.a:
                dm = dict(m)
                if ra in dm:
                    dm[ra] -= 1
                    if dm[ra] == 0: del dm[ra]
                    j = j + TM._poly({tuple(sorted(dm.items(), key=lambda x: x[0].s)): cf})
                else: i = i + TM._poly({m: cf})
        if self.ge0(i) and self.ge0(r - 1 - i) and self.ge0(j): return (i, j)
        return None

    def delin_poly(self, d, r):
        """the same when the number of rows is itself a sum (a size known to be at least one, a sum of two sizes)"""
        for m0, c0 in r.a:
            if c0 != 1 or len(m0) != 1 or m0[0][1] != 1: continue
            x = m0[0][0]
            rest = r - atom(x)
            if any(at is x for m, _ in rest.a for at, _ in m): continue
            q, p = ZERO, ZERO
            for m, cf in d.a:
                dm = dict(m)
                if x in dm:
                    dm[x] -= 1
                    if dm[x] == 0: del dm[x]
                    if x in dm: q = None; break
                    q = q + TM._poly({tuple(sorted(dm.items(), key=lambda y: y[0].s)): cf})
                else: p = p + TM._poly({m: cf})
            if q is None: continue
            for s in (0, -1, 1):
                j = q + s
                i = p - q * rest - r * s
                if self.ge0(i) and self.ge0(r - 1 - i) and self.ge0(j): return (i, j)
        return None

    def write_region(self, p, r, c, f):
        p, r, c = self.norm_region(p, r, c)
        rp, cp = itm(r), itm(c)
        if ival(rp * cp) == 0: return
        if p.o == 0:
            if self.truth(eq(rp * cp, ZERO)) is True: return
            self.fail('memory', 'write through a null pointer')
        o = self.obj(p, 'write')
        self.check_bounds(o, p.off, r, c, 'write')
        if o.kind != 'dbl':
            n = ival(rp * cp)
            if not isinstance(n, int) or n > 16: raise Unsupported('region write in struct memory')
            vs = []
            for k in range(n):
                rr = int(r) if isinstance(r, int) else 1
                vs.append(f(num(k % rr), num(k // rr)))
            for k, v in enumerate(vs):
                self.store(Ptr(p.o, self.padd(p.off, 8 * k)), v, ir.Ty('double'))
            return
        if o.tag.startswith('const '): self.fail('memory', 'write to constant storage')
        if rp is ONE and cp is ONE:
            v = f(ZERO, ZERO)
            el = p.el
            if el is None:
                el = self.find_el(o, itm(p.off))
            if el is not None:
                b, rr, cc, i0, j0 = el
                rr, cc, i0, j0 = itm(rr), itm(cc), itm(i0), itm(j0)
                if not (rr is ONE and cc is ONE):
                    old = self._read_layers(o, b, rr, cc)
                    self.set_layer(o.id, itm(b), rr, cc,
                                   lambda i, j: ite(band(eq(i, i0), eq(j, j0)), v, old(i, j)))
                    return
            self.set_layer(o.id, itm(p.off), ONE, ONE, lambda i, j: v)
            return
        self.set_layer(o.id, itm(p.off), rp, cp, f)

    def find_el(self, o, off):
        for (lo, lr, lc, lam) in reversed(o.layers):
            if lo is off and lr is ONE and lc is ONE: return None
            if self.disjoint(off, num(8), lo, lr * lc * 8): continue
            rel = self.delin((off - lo) / 8, lr, lc)
            if rel is not None and self.ge0(lr - 1 - rel[0]) and self.ge0(lc - 1 - rel[1]):
                return (lo, lr, lc, rel[0], rel[1])
            raise Unsupported('element write overlapping %s' % o.tag)
        if not any(at.k == 'sym' and not at.a[0].startswith('n$') for m, c in off.a for at, e in m): return None
        return (ZERO, ival(itm(o.size) / 8), 1, off / 8, ZERO)

    def idx(self, ub, h='i'):
        ub = itm(ub)
        if ub is ONE: return ZERO
        return fresh_idx(ub, h)

    def mklam(self, r, c, f):
        i, j = fresh_idx(itm(r), 'i'), fresh_idx(itm(c), 'j')
        ii = ZERO if itm(r) is ONE else i
        jj = ZERO if itm(c) is ONE else j
        return lam2(tm(f(ii, jj)), i, j)

    def set_layer(self, oid, off, r, c, f):
        lam = self.mklam(r, c, f)
        o = self.st.w(oid)
        n = r * c * 8
        new = []
        for (lo, lr, lc, ll) in o.layers:
            if lo is off and lr is r and lc is c: continue
            new.append((lo, lr, lc, ll))
        new.append((off, r, c, lam))
        o.layers = new
        self._log_write(oid, (off, r, c))

    # ------------------------------------------------------------ lazies
    def lz(self, h):
        if isinstance(h, Lazy): return h
        raise Unsupported('matrix handle %r' % (h,))

    def leaf_region(self, z):
        """(Ptr, r, c) of a leaf"""
        if z.op == 'map':
            return z.a[0], z.r, z.c
        if z.op == 'plain':
            m = self.mat(z.a[0])
            return Ptr(m.buf, 0), m.r, m.c
        return None

    def mat(self, p):
        o = self.obj(p, 'matrix')
        c = o.cells.get(p.off) if o.kind != 'fam' else None
        if o.kind == 'fam': return self.fam_load(o, p, ir.Ty('i', 64))
        if c is None or not isinstance(c[1], MatH):
            if c is not None and isinstance(c[1], Undef) or c is None:
                raise Unsupported('matrix object not constructed')
            raise Unsupported('matrix cell %r' % (c,))
        return c[1]

    def dims(self, z):
        if z.op == 'plain':
            m = self.mat(z.a[0])
            return m.r, m.c
        return z.r, z.c

    def val(self, z, i, j):
        """coefficient (i,j) of lazy z on the current state"""
        op = z.op
        if op in ('map', 'plain'):
            p, r, c = self.leaf_region(z)
            return self.read_region(p, r, c)(i, j)
        if op == 'un': return self.unop(z.a[0], self.val(z.a[1], i, j))
        if op == 'bin':
            return self.binop(z.a[0], self.val(z.a[1], i, j), self.val(z.a[2], i, j))
        if op == 'const': return z.a[0]
        if op == 'identity': return br(eq(i, j))
        if op == 'transpose': return self.val(z.a[0], j, i)
        if op == 'product':
            a, b = z.a
            n = self.dims(a)[1]
            k = self.idx(n, 'k')
            v = mul(self.val(a, i, k), self.val(b, k, j))
            return v if itm(n) is ONE else mk_sum(k, itm(n), v)
        if op == 'block': return self.val(z.a[0], itm(i) + itm(z.a[1]), itm(j) + itm(z.a[2]))
        if op == 'diag': return self.val(z.a[0], i, i)
        if op == 'asdiag':
            r, c = self.dims(z.a[0])
            k = i
            v = self.val(z.a[0], k, ZERO) if itm(c) is ONE else self.val(z.a[0], ZERO, k)
            return mul(br(eq(i, j)), v)
        if op == 'reverse':
            return self.val(z.a[0], itm(z.r) - 1 - i, itm(z.c) - 1 - j)
        if op == 'replicate':
            r, c = self.dims(z.a[0])
            if itm(r) is ONE or itm(c) is ONE:
                return self.val(z.a[0], ZERO if itm(r) is ONE else i, ZERO if itm(c) is ONE else j)
            raise Unsupported('replicate')
        if op == 'snap': return lam_apply(z.a[0], i, j)
        if op == 'select':
            c = self.truthy(self.val(z.a[0], i, j))
            if c is TRUE: return self.val(z.a[1], i, j)
            if c is FALSE: return self.val(z.a[2], i, j)
            self.guards.append(c)
            try: a = self.val(z.a[1], i, j)
            finally: self.guards.pop()
            self.guards.append(bnot(c))
            try: b = self.val(z.a[2], i, j)
            finally: self.guards.pop()
            return ite(c, a, b)
        if op == 'cast':
            v = self.val(z.a[0], i, j)
            if z.a[1] == 2: return br(self.truthy(v))
            if z.a[1] in (3, 4):
                return v
            return v
        if op == 'fun': return self.call_functor(z.a[0], z.a[1], [itm(i), itm(j)])
        if op == 'unaryexpr': return self.call_functor(z.a[1], z.a[2], [self.val(z.a[0], i, j)])
        if op == 'binaryexpr': return self.call_functor(z.a[2], z.a[3], [self.val(z.a[0], i, j), self.val(z.a[1], i, j)])
        if op == 'tri':
            a, mode = z.a
            if mode & 0x100:
                lo = (mode & 1) == 1
                c = le(j, i) if lo else le(i, j)
                return ite(c, self.val(a, i, j), self.val(a, j, i))
            c = le(j, i) if mode & 1 else le(i, j)
            if mode & 8: c = lt(j, i) if mode & 1 else lt(i, j)
            if mode & 4: return ite(eq(i, j), ONE, ite(c, self.val(a, i, j), ZERO))
            return ite(c, self.val(a, i, j), ZERO)
        if op == 'redaxis':
            a, red, cw = z.a
            r, c = self.dims(a)
            n = r if cw else c
            k = self.idx(n, 'k')
            v = self.val(a, k, j) if cw else self.val(a, i, k)
            if red == 'SQNORM': v = v * v
            if red == 'PROD': return mk_prod(k, itm(n), v) if itm(n) is not ONE else v
            s = mk_sum(k, itm(n), v) if itm(n) is not ONE else v
            if red == 'MEAN': s = s / itm(n)
            if red not in ('SUM', 'SQNORM', 'MEAN'): raise Unsupported('axis reduction ' + red)
            return s
        if op == 'inverse':
            n, L = z.a
            return mk_inv(itm(n), L, i, j)
        if op == 'solve':
            n, L, rhs = z.a
            k = self.idx(n, 'k')
            v = mul(mk_inv(itm(n), L, i, k), self.val(rhs, k, j))
            return v if itm(n) is ONE else mk_sum(k, itm(n), v)
        if op == 'factor':
            return rawapp('factor%d' % z.a[0], (itm(z.a[2]), z.a[1], itm(i), itm(j)))
        raise Unsupported('lazy ' + op)

    def truthy(self, v):
        if v.k in BOOLK: return v
        a = as_atom(v)
        if a is not None and a.k == 'br': return a.a[0]
        c = split_ite(lambda x: bnot(eq(x, ZERO)), v)
        return c

    def call_functor(self, fobj, fn, args):
        """value of a user functor on symbolic arguments: all paths, merged"""
        st0 = self.st
        outs = []
        dec0 = self.dec
        self.dec = Decider()
        try:
            while True:
                self.st = st0.clone()
                base = len(self.st.path)
                self.dec.pos = 0
                try:
                    v = self.call(fn.name, [fobj] + [ival(a) if isinstance(a, T) and is_int_poly(a) and False else a for a in args])
                    outs.append((band(*self.st.path[base:]), v))
                except PathEnd:
                    pass
                if not self.dec.next(): break
        finally:
            self.dec = dec0
            self.st = st0
        if not outs: raise PathEnd('functor')
        r = outs[-1][1]
        for c, v in reversed(outs[:-1]): r = ite(c, v, r)
        return r

    def unop(self, op, v):
        if v.k in BOOLK and op != 'NOT': v = br(v)
        if op == 'NEG': return neg(v)
        if op == 'SQUARE': return v * v
        if op == 'CUBE': return v * v * v
        if op == 'INVERSE': return self.div(ONE, v)
        if op == 'RSQRT': return self.div(ONE, self.mfun('sqrt', v))
        if op == 'NOT': return br(bnot(self.truthy(v)))
        if op == 'SIGN': return app('sign', (v,))
        if op == 'ISNAN': return ZERO
        if op == 'ISFINITE': return br(self.isfinite(v))
        if op == 'ISINF': return br(bnot(self.isfinite(v)))
        if op == 'LOGISTIC': return self.div(ONE, ONE + app('exp', (neg(v),)))
        return self.mfun(op.lower(), v)

    def isfinite(self, v):
        def f(x):
            if any(m == INF_MONO for m, c in x.a): return FALSE
            return TRUE
        return split_ite(f, v)

    def binop(self, op, a, b):
        if a.k in BOOLK: a = br(a)
        if b.k in BOOLK: b = br(b)
        if op == 'ADD': return a + b
        if op == 'SUB': return a - b
        if op == 'MUL': return a * b
        if op == 'DIV': return self.div(a, b)
        if op == 'MIN': return app('min', (a, b))
        if op == 'MAX': return app('max', (a, b))
        if op in CMPF: return br(split_ite(CMPF[op], a, b))
        if op == 'AND': return br(band(self.truthy(a), self.truthy(b)))
        if op == 'OR': return br(bor(self.truthy(a), self.truthy(b)))
        if op == 'POW': return self.mpow(a, b)
        if op == 'ABSDIFF': return app('abs', (a - b,))
        raise Unsupported('binop ' + op)

    def div(self, a, b):
        if b.k in BOOLK: b = br(b)
        if not (is_num(b) and numval(b) != 0):
            self.defined(ne(b, ZERO), 'divisor non-zero')
            b2 = PV._simp_ctx(b, self.ctx()) if self.ctx() else b
        return mul(a, recip(b))

    def mfun(self, fn, *a):
        a = tuple(br(x) if x.k in BOOLK else x for x in a)
        x = a[0]
        if fn == 'fabs': fn = 'abs'
        if fn == 'log':
            if any(m == INF_MONO for m, c in x.a): return x
            self.defined(lt(ZERO, x), 'log argument positive')
        elif fn == 'sqrt': self.defined(le(ZERO, x), 'sqrt argument non-negative')
        elif fn in ('asin', 'acos'): self.defined(band(le(x, ONE), le(num(-1), x)), fn + ' argument in [-1,1]')
        elif fn == 'log1p': return self.mfun('log', x + 1)
        elif fn == 'expm1': return app('exp', (x,)) - 1
        elif fn == 'log10': return self.mfun('log', x) / app('log', (num(10),))
        elif fn == 'log2': return self.mfun('log', x) / app('log', (num(2),))
        elif fn == 'exp2': return app('exp', (x * app('log', (num(2),)),))
        elif fn == 'erfc': return ONE - app('erf', (x,))
        elif fn in ('fmin', 'fmax'): return app(fn[1:], a)
        elif fn == 'pow': return self.mpow(*a)
        elif fn == 'fma': return a[0] * a[1] + a[2]
        return app(fn, a)

    def mpow(self, b, e):
        if is_num(e):
            q = numval(e)
            if q.denominator == 1:
                if q < 0: self.defined(ne(b, ZERO), 'pow base non-zero')
            else: self.defined(lt(ZERO, b), 'pow base positive')
            return powq(b, q)
        self.defined(lt(ZERO, b), 'pow base positive')
        return app('pow', (b, e))

    def reduce(self, op, z):
        r, c = self.dims(z)
        if op == 'TRACE':
            k = self.idx(r, 'k')
            v = self.val(z, k, k)
            return mk_sum(k, itm(r), v) if itm(r) is not ONE else v
        i, j = self.idx(r, 'i'), self.idx(c, 'j')
        v = self.val(z, i, j)
        if v.k in BOOLK: v = br(v)
        if op in ('SQNORM', 'NORM'): v = v * v
        if op == 'L1': v = app('abs', (v,))
        if op in ('SUM', 'SQNORM', 'NORM', 'MEAN', 'L1'):
            s = v
            if i is not ZERO or itm(r) is not ONE: s = mk_sum(i, itm(r), s) if itm(r) is not ONE else s
            if itm(c) is not ONE: s = mk_sum(j, itm(c), s)
            if op == 'MEAN': s = self.div(s, itm(r) * itm(c))
            if op == 'NORM': s = app('sqrt', (s,))
            return s
        if op == 'PROD':
            s = v
            if itm(r) is not ONE: s = mk_prod(i, itm(r), s)
            if itm(c) is not ONE: s = mk_prod(j, itm(c), s)
            return s
        if op in ('MIN', 'MAX'):
            return self.extremum(op, z, r, c, i, j, v)
        raise Unsupported('reduction ' + op)

    def extremum(self, op, z, r, c, i, j, v):
        """contract of minCoeff/maxCoeff: the value that bounds all coefficients and is attained by
        one of them (terms._ext_cmp; sizes must be positive)"""
        self.oblige('eigen', lt(ZERO, itm(r) * itm(c)), '%sCoeff on a non-empty array' % op.lower())
        m = rawapp('ext' + op, (lam2(tm(v), i if i is not ZERO else fresh_idx(None), j if j is not ZERO else fresh_idx(None)), itm(r), itm(c)))
        return m

    def quant(self, z, any_):
        r, c = self.dims(z)
        i, j = self.idx(r, 'i'), self.idx(c, 'j')
        b = self.truthy(self.val(z, i, j))
        for x, ub in ((i, r), (j, c)):
            if itm(ub) is not ONE:
                b = (exists if any_ else forall)(x, itm(ub), b)
        return b

    def same_dims(self, a, b, what):
        (ar, ac), (br_, bc) = a, b
        g = band(eq(itm(ar), itm(br_)), eq(itm(ac), itm(bc)))
        if g is TRUE:
            return
        if not self.oblige('eigen', g, 'dimensions agree in ' + what): raise PathEnd('dims')

    def lv_region(self, z):
        """lvalue lazy -> (Ptr,r,c,mapfn) where mapfn turns a dst-index function into an update"""
        if z.op in ('map', 'plain'): return self.leaf_region(z)
        return None

    def leaves(self, z, inv=()):
        if z.op in ('map', 'plain'):
            yield z, inv
            return
        n = inv
        if z.op in ('transpose', 'block', 'reverse', 'replicate', 'diag', 'asdiag', 'tri'): n = inv + (z.op,)
        if z.op in ('product', 'solve'): return
        for x in z.a:
            if isinstance(x, Lazy): yield from self.leaves(x, n)

    def assign(self, op, dst, src):
        self.same_dims(self.dims(dst), self.dims(src), 'assignment')
        r, c = self.dims(dst)
        # evaluate on the pre-state
        reg = self.leaf_region(dst)
        if reg is not None:
            p = reg[0]
            for lf, inv in self.leaves(src):
                lp, lr, lc = self.leaf_region(lf)
                if lp.o == p.o and p.o != 0 and (inv or not (itm(lp.off) is itm(p.off) and itm(lr) is itm(r) and itm(lc) is itm(c))):
                    if self.disjoint(itm(lp.off), itm(lr) * itm(lc) * 8, itm(p.off), itm(r) * itm(c) * 8): continue
                    if 'transpose' in inv and (itm(r) is ONE or itm(c) is ONE) and itm(lp.off) is itm(p.off): continue
                    self.oblige('eigen', FALSE, 'destination of an assignment is not aliased by a non-elementwise source')
        lam = self.mklam(r, c, lambda i, j: self.combine(op, dst, src, i, j))
        self.write_lv(dst, lambda i, j: lam_apply(lam, i, j))

    def combine(self, op, dst, src, i, j):
        s = self.val(src, i, j)
        if s.k in BOOLK: s = br(s)
        if op == 0: return s
        d = self.val(dst, i, j)
        if op == 1: return d + s
        if op == 2: return d - s
        if op == 3: return d * s
        if op == 4: return self.div(d, s)
        raise Unsupported('assign op')

    def write_lv(self, z, f):
        if z.op in ('map', 'plain'):
            p, r, c = self.leaf_region(z)
            self.write_region(p, r, c, f)
        elif z.op == 'transpose': self.write_lv(z.a[0], lambda i, j: f(j, i))
        elif z.op == 'block':
            base, i0, j0 = z.a
            i0, j0 = itm(i0), itm(j0)
            r, c = self.dims(base)
            old = self.mklam(r, c, lambda i, j: self.val(base, i, j))
            def g(i, j):
                inr = band(le(i0, i), lt(i, i0 + itm(z.r)), le(j0, j), lt(j, j0 + itm(z.c)))
                if itm(z.r) is ONE and itm(z.c) is ONE: inr = band(eq(i, i0), eq(j, j0))
                elif itm(z.c) is ONE and i0 is ZERO and itm(z.r) is itm(r): inr = eq(j, j0)
                elif itm(z.r) is ONE and j0 is ZERO and itm(z.c) is itm(c): inr = eq(i, i0)
                return ite(inr, f(i - i0, j - j0), lam_apply(old, i, j))
            self.oblige('eigen', band(le(ZERO, i0), le(i0 + itm(z.r), itm(r)), le(ZERO, j0), le(j0 + itm(z.c), itm(c))), 'block within matrix')
            self.write_lv(base, g)
        elif z.op == 'diag':
            base = z.a[0]
            r, c = self.dims(base)
            old = self.mklam(r, c, lambda i, j: self.val(base, i, j))
            self.write_lv(base, lambda i, j: ite(eq(i, j), f(i, ZERO), lam_apply(old, i, j)))
        else: raise Unsupported('assignment to ' + z.op)

    def mat_new(self, p, r, c, tag='matrix storage'):
        b = self.new_dbl(itm(r) * itm(c), tag)
        self.mat_set(p, MatH(b.id, ival(r), ival(c)))

    def mat_set(self, p, m):
        o = self.obj(p, 'matrix')
        if o.kind == 'fam': return self.fam_store(o, p, m, ir.Ty('i', 64))
        o = self.st.w(p.o)
        self.put(o, p.off, 8, m)
        self._log_write(o.id, p.off)

    def mat_fill(self, p, z, tag='matrix storage'):
        r, c = self.dims(z)
        lam = self.mklam(r, c, lambda i, j: self.val(z, i, j))
        self.mat_new(p, r, c, tag)
        m = self.mat(p)
        self.write_region(Ptr(m.buf, 0), m.r, m.c, lambda i, j: lam_apply(lam, i, j))

    # ------------------------------------------------------------ primitives
    def prim(self, name, a):
        f = getattr(self, 'p_' + name, None)
        if f is None: raise Unsupported('external function ' + name)
        return f(*a)

    def p_eg_map(self, p, r, c, kind): return Lazy('map', (p,), ival(r), ival(c))
    def p_eg_plain(self, p, kind, C):
        m = self.mat(p)
        return Lazy('plain', (p,), m.r, m.c)
    def p_eg_un(self, op, a):
        a = self.lz(a)
        return Lazy('un', (UNOPS[op], a), *self.dims(a))
    def p_eg_bin(self, op, a, b):
        a, b = self.lz(a), self.lz(b)
        self.same_dims(self.dims(a), self.dims(b), 'elementwise operation')
        return Lazy('bin', (BINOPS[op], a, b), *self.dims(a))
    def p_eg_const(self, v, r, c): return Lazy('const', (v,), ival(r), ival(c))
    def p_eg_bcast(self, v, like): return Lazy('const', (v,), *self.dims(self.lz(like)))
    def p_eg_identity(self, r, c): return Lazy('identity', (), ival(r), ival(c))
    def p_eg_transpose(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        return Lazy('transpose', (a,), c, r)
    def p_eg_product(self, a, b):
        a, b = self.lz(a), self.lz(b)
        g = eq(itm(self.dims(a)[1]), itm(self.dims(b)[0]))
        if g is not TRUE and not self.oblige('eigen', g, 'inner dimensions agree in matrix product'): raise PathEnd('dims')
        return Lazy('product', (a, b), self.dims(a)[0], self.dims(b)[1])
    def p_eg_block(self, a, i, j, r, c):
        a = self.lz(a)
        R, C = self.dims(a)
        g = band(le(ZERO, itm(i)), le(itm(i) + itm(r), itm(R)), le(ZERO, itm(j)), le(itm(j) + itm(c), itm(C)))
        if g is not TRUE and not self.oblige('eigen', g, 'block within matrix'): raise PathEnd('block')
        return Lazy('block', (a, i, j), ival(r), ival(c))
    def p_eg_diag(self, a):
        a = self.lz(a)
        return Lazy('diag', (a,), self.dims(a)[0], 1)
    def p_eg_asdiag(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        n = ival(itm(r) * itm(c))
        return Lazy('asdiag', (a,), n, n)
    def p_eg_reverse(self, a):
        a = self.lz(a)
        return Lazy('reverse', (a,), *self.dims(a))
    def p_eg_replicate(self, a, r, c):
        a = self.lz(a)
        x, y = self.dims(a)
        return Lazy('replicate', (a,), ival(itm(r) * itm(x)), ival(itm(c) * itm(y)))
    def p_eg_nullary(self, r, c, f, t): return Lazy('fun', (f, t), ival(r), ival(c))
    def p_eg_unaryexpr(self, a, f, t):
        a = self.lz(a)
        return Lazy('unaryexpr', (a, f, t), *self.dims(a))
    def p_eg_binaryexpr(self, a, b, f, t):
        a, b = self.lz(a), self.lz(b)
        return Lazy('binaryexpr', (a, b, f, t), *self.dims(a))
    def p_eg_select(self, c, a, b):
        c, a, b = self.lz(c), self.lz(a), self.lz(b)
        return Lazy('select', (c, a, b), *self.dims(c))
    def p_eg_cast(self, a, k):
        a = self.lz(a)
        return Lazy('cast', (a, k), *self.dims(a))
    def p_eg_tri(self, a, m):
        a = self.lz(a)
        return Lazy('tri', (a, m), *self.dims(a))
    def p_eg_reduce_axis(self, op, a, cw):
        a = self.lz(a)
        r, c = self.dims(a)
        return Lazy('redaxis', (a, REDOPS[op - 200], cw), 1 if cw else r, c if cw else 1)
    def p_eg_eval(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        return Lazy('snap', (self.mklam(r, c, lambda i, j: self.val(a, i, j)),), r, c)
    def p_eg_inverse(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        L = self.mklam(r, c, lambda i, j: self.val(a, i, j))
        self.defined(ne(mk_det(itm(r), L), ZERO), 'inverted matrix is invertible')
        return Lazy('inverse', (r, L), r, c)
    def p_eg_rows(self, a): return self.dims(self.lz(a))[0]
    def p_eg_cols(self, a): return self.dims(self.lz(a))[1]
    def inb(self, a, i, j):
        r, c = self.dims(a)
        if self.ge0(itm(i)) and self.ge0(itm(r) - itm(i) - 1) and self.ge0(itm(j)) and self.ge0(itm(c) - itm(j) - 1): return
        if not self.oblige('eigen', band(le(ZERO, itm(i)), lt(itm(i), itm(r)), le(ZERO, itm(j)), lt(itm(j), itm(c))), 'coefficient index in range'):
            raise PathEnd('index')
    def p_eg_coeff(self, a, i, j):
        a = self.lz(a)
        self.inb(a, i, j)
        return self.val(a, itm(i), itm(j))
    def p_eg_reduce(self, op, a): return self.reduce(REDOPS[op - 200], self.lz(a))
    def p_eg_dotp(self, a, b):
        a, b = self.lz(a), self.lz(b)
        n = ival(itm(self.dims(a)[0]) * itm(self.dims(a)[1]))
        g = eq(itm(n), itm(self.dims(b)[0]) * itm(self.dims(b)[1]))
        if g is not TRUE: self.oblige('eigen', g, 'dot product sizes agree')
        k = self.idx(n, 'k')
        f = lambda z: self.val(z, k, ZERO) if itm(self.dims(z)[1]) is ONE else self.val(z, ZERO, k)
        v = f(a) * f(b)
        return mk_sum(k, itm(n), v) if itm(n) is not ONE else v
    def p_eg_det(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        self.same_dims((r, r), (r, c), 'determinant')
        return mk_det(itm(r), self.mklam(r, c, lambda i, j: self.val(a, i, j)))
    def p_eg_all(self, a): return self.quant(self.lz(a), False)
    def p_eg_any(self, a): return self.quant(self.lz(a), True)
    def p_eg_count(self, a):
        a = self.lz(a)
        r, c = self.dims(a)
        i, j = self.idx(r), self.idx(c)
        v = br(self.truthy(self.val(a, i, j)))
        if itm(r) is not ONE: v = mk_sum(i, itm(r), v)
        if itm(c) is not ONE: v = mk_sum(j, itm(c), v)
        return v
    def p_eg_assign(self, op, d, s): self.assign(op, self.lz(d), self.lz(s))
    def p_eg_ptr(self, a, i, j):
        a = self.lz(a)
        i, j = itm(i), itm(j)
        while a.op in ('transpose', 'block'):
            self.inb(a, i, j)
            if a.op == 'transpose': i, j = j, i
            else: i, j = i + itm(a.a[1]), j + itm(a.a[2])
            a = a.a[0]
        self.inb(a, i, j)
        p, r, c = self.leaf_region(a)
        return Ptr(p.o, self.padd(p.off, ival((i + j * itm(r)) * 8)), (itm(p.off), itm(r), itm(c), i, j))
    def p_eg_data(self, a):
        a = self.lz(a)
        if a.op == 'block':
            return Ptr(*(lambda q: (q.o, q.off))(self.p_eg_ptr(a.a[0], a.a[1], a.a[2])))
        return self.leaf_region(a)[0]
    def p_eg_swap(self, a, b):
        a, b = self.lz(a), self.lz(b)
        r, c = self.dims(a)
        x = self.mklam(r, c, lambda i, j: self.val(a, i, j))
        y = self.mklam(r, c, lambda i, j: self.val(b, i, j))
        self.write_lv(a, lambda i, j: lam_apply(y, i, j))
        self.write_lv(b, lambda i, j: lam_apply(x, i, j))
    def p_eg_mat_new(self, p, r, c, k): self.mat_new(p, r, c)
    def p_eg_mat_fromx(self, p, src, k, C): self.mat_fill(p, self.lz(src))
    def p_eg_mat_copy(self, p, q, k):
        m = self.mat(q)
        z = Lazy('plain', (q,), m.r, m.c)
        try: return self.mat_fill(p, z)
        except Unsupported: pass
        self.mat_new(p, m.r, m.c)
        self.clone_storage(self.mat(p), m)
    def clone_storage(self, d, m):
        '''copy of a whole storage that is a patchwork of regions: the same regions with the same contents'''
        src = self.obj(Ptr(m.buf, 0), 'read')
        if itm(m.r) * itm(m.c) * 8 is not itm(src.size): raise Unsupported('copy of part of a storage')
        o = self.st.w(d.buf)
        if itm(o.size) is not itm(src.size): raise Unsupported('copy of a storage')
        o.layers, o.base = list(src.layers), src.base
        for L in o.layers: self._log_write(o.id, L[:3])
    def p_eg_mat_move(self, p, q, k):
        m = self.mat(q)
        self.mat_set(p, m)
        self.mat_new(q, 0, 0)
    def p_eg_mat_free(self, p):
        m = self.mat(p)
        self.st.w(m.buf).alive = False
        o = self.st.mem[p.o]
        if o.kind != 'fam':
            o = self.st.w(p.o)
            o.cells.pop(p.off, None)
    def p_eg_mat_resize(self, p, r, c, keep):
        m = self.mat(p)
        if itm(m.r) is itm(r) and itm(m.c) is itm(c): return
        if keep: raise Unsupported('conservativeResize')
        self.st.w(m.buf).alive = False
        self.mat_new(p, r, c)
    def p_eg_mat_assign(self, p, src):
        src = self.lz(src)
        m = self.mat(p)
        r, c = self.dims(src)
        if itm(m.r) is itm(r) and itm(m.c) is itm(c):
            try: return self.assign(0, Lazy('plain', (p,), m.r, m.c), src)
            except Unsupported:
                if src.op != 'plain': raise
            self.clone_storage(m, self.mat(src.a[0]))
        else:
            old = m.buf
            self.mat_fill(p, src)
            self.st.w(old).alive = False
    def p_eg_mat_moveassign(self, p, q):
        a, b = self.mat(p), self.mat(q)
        self.mat_set(p, b)
        self.mat_set(q, a)
    # decompositions
    def dcell(self, p):
        o = self.obj(p, 'decomposition')
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[1], DecH): raise Unsupported('decomposition object')
        return c[1]
    def dset(self, p, d):
        self.obj(p)
        o = self.st.w(p.o)
        self.put(o, p.off, 8, d)
        self._log_write(o.id, p.off)
    def p_eg_dec_new(self, p, dk, n): self.dset(p, DecH(dk, None, ival(n), 0))
    def p_eg_dec_copy(self, p, q): self.dset(p, self.dcell(q))
    def p_eg_dec_compute(self, p, dk, a, mode):
        a = self.lz(a)
        r, c = self.dims(a)
        if dk in (1, 2): self.same_dims((r, r), (r, c), 'Cholesky decomposition')
        L = self.mklam(r, c, lambda i, j: self.val(a, i, j))
        if dk in (1, 2):
            # only one triangle is read: the contract needs a symmetric argument
            i, j = self.idx(r), self.idx(c)
            g = eq(lam_apply(L, i, j), lam_apply(L, j, i))
            if prove(g, self.ctx(), self.dom).ok is not True:
                lo = mode != 2
                L = self.mklam(r, c, lambda i, j: ite(le(j, i) if lo else le(i, j), lam_apply(L, i, j), lam_apply(L, j, i)))
        self.dset(p, DecH(dk, L, ival(r), mode))
    def dcomp(self, p):
        d = self.dcell(p)
        if d.lam is None: self.fail('eigen', 'decomposition used before compute()')
        return d
    def posdef(self, d):
        """LLT info: success iff positive definite"""
        a, b = fresh_idx(None), fresh_idx(None)
        at = as_atom(lam_apply(d.lam, a, b))
        if at is not None and at.k == 'app' and at.a[0].startswith('@') and self.dom.kind.get(at.a[0][1:]) == 'spd': return TRUE
        q = TM.posdef(itm(d.n), d.lam)
        # a positive definite matrix has a positive determinant
        self.st.path.append(bor(bnot(q), lt(ZERO, mk_det(itm(d.n), d.lam))))
        return q
    def p_eg_dec_info(self, p):
        d = self.dcomp(p)
        if d.dk == 1: return ival(ONE - br(self.posdef(d)))
        return 0
    def p_eg_dec_det(self, p, what):
        d = self.dcomp(p)
        D = mk_det(itm(d.n), d.lam)
        if what == 0:
            return D
        if what == 1:
            if d.dk == 1: return powq(D, Fr(1, 2))
            return ONE      # unit-triangular factor of LDLT
        if what == 3: return app('abs', (D,))
        if what == 4: return app('log', (D,))
        if what == 5: return br(self.posdef(d))
        raise Unsupported('decomposition quantity')
    def p_eg_dec_invertible(self, p):
        d = self.dcomp(p)
        return ne(mk_det(itm(d.n), d.lam), ZERO)
    def p_eg_dec_solve(self, p, rhs):
        d = self.dcomp(p)
        rhs = self.lz(rhs)
        g = eq(itm(d.n), itm(self.dims(rhs)[0]))
        if g is not TRUE: self.oblige('eigen', g, 'solve dimensions agree')
        self.defined(ne(mk_det(itm(d.n), d.lam), ZERO), 'solved matrix is invertible')
        return Lazy('solve', (d.n, d.lam, rhs), d.n, self.dims(rhs)[1])
    def p_eg_dec_inverse(self, p):
        d = self.dcomp(p)
        self.defined(ne(mk_det(itm(d.n), d.lam), ZERO), 'inverted matrix is invertible')
        return Lazy('inverse', (d.n, d.lam), d.n, d.n)
    def p_eg_dec_factor(self, p, what):
        d = self.dcomp(p)
        if what == 9: return Lazy('snap', (d.lam,), d.n, d.n)
        if what in (2, 3):
            return Lazy('factor', (what if d.dk != 2 or what == 3 else 2, d.lam, d.n, d.dk), d.n, 1)
        return Lazy('factor', (what, d.lam, d.n, d.dk), d.n, d.n)
    def p_eg_dec_rows(self, p): return self.dcell(p).n
    def p_eg_dec_rank(self, p): raise Unsupported('rank')

    # ------------------------------------------------------------ functions
    def call(self, name, args):
        f = self.mod.funcs.get(name)
        if f is None:
            g = self.mod.globals.get(name)
            if g and g[0] == 'alias': return self.call(g[1], args)
            return self.external(name, args)
        h = self.hooks.get(name)
        if h: return h(*args)
        ir.ensure(f)
        self.used[name] = self.used.get(name, 0) + 1
        self.depth += 1
        if self.depth > 400: raise Unsupported('recursion depth')
        self.stack.append(name)
        allocas = []
        try:
            regs = {}
            for (t, at, nm), v in zip(f.params, args):
                if 'byval' in at:
                    o = self.new_obj('cells', self.mod.size(at['byval']), 'argument')
                    allocas.append(o.id)
                    q = Ptr(o.id, 0)
                    self.memcpy(q, v, self.mod.size(at['byval']))
                    v = q
                regs[nm] = v
            return self.run(f, f.entry, None, regs, allocas, None)
        finally:
            self.depth -= 1
            self.stack.pop()
            for a in allocas:
                if a in self.st.mem:
                    o = self.st.w(a)
                    o.alive = False
                    o.cells = {}

    def external(self, name, args):
        if name.startswith('llvm.'):
            return self.intrinsic(name, args)
        if name in self.hooks: return self.hooks[name](*args)
        if name.startswith('eg_') or name.startswith('vc_'): return self.prim(name, args)
        if name == '__assert_fail':
            s = self.cstr(args[0])
            self.fail('assert', 'assertion `%s` holds' % s)
        if '__throw' in name or name in ('abort', '_ZSt9terminatev', 'exit', '__cxa_pure_virtual'):
            self.fail('assert', 'no call of %s' % name)
        if name == '_Znwm' or name == '_Znam' or name == 'malloc':
            return self.heap_new(args[0])
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            p = args[0]
            if isinstance(p, Ptr) and p.o:
                o = self.obj(p, 'delete')
                self.st.w(p.o).alive = False
            return None
        if name in FLOATFN: return self.mfun(name, *args)
        if name in ('memcpy', 'memmove'):
            self.memcpy(*args[:3])
            return args[0]
        if name == 'memset':
            self.memset(*args[:3])
            return args[0]
        if name == '__cxa_atexit': return 0
        if name == '__cxa_guard_acquire':
            if self.load(args[0], self.mod.i8) != 0: return 0
            self.ginit += 1
            return 1
        if name == '__cxa_guard_release':
            self.store(args[0], 1, self.mod.i8)
            self.ginit -= 1
            return None
        raise Unsupported('external function ' + name)

    def heap_new(self, n):
        n = ival(n)
        if isinstance(n, T): return self.heap_new_sym(n)
        o = self.new_obj('cells', n, 'heap block')
        return Ptr(o.id, 0)

    def heap_new_sym(self, n): raise Unsupported('allocation of symbolic size')

    def cstr(self, p):
        try:
            g = self.globname[p.o]
            v = self.mod.globals[g][2]
            return v[1].rstrip(b'\0').decode()
        except Exception: return '?'

    def intrinsic(self, name, a):
        n = name.split('.')
        k = n[1]
        if k in ('memcpy', 'memmove'): return self.memcpy(a[0], a[1], a[2])
        if k == 'memset': return self.memset(a[0], a[1], a[2])
        if k in ('lifetime', 'dbg', 'experimental', 'assume', 'invariant', 'stacksave', 'stackrestore', 'prefetch'): return NULL
        if k in ('fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'floor', 'ceil', 'round', 'exp2', 'log2', 'log10'): return self.mfun(k, *a)
        if k in ('minnum', 'minimum'): return app('min', tuple(a))
        if k in ('maxnum', 'maximum'): return app('max', tuple(a))
        if k == 'is' and n[2] == 'constant': return 0
        if k == 'fmuladd' or k == 'fma': return a[0] * a[1] + a[2]
        if k == 'is' and n[2] == 'fpclass':
            mask = a[1]
            if mask == 504: return self.isfinite(a[0])
            if mask == 516: return bnot(self.isfinite(a[0]))
            if mask == 3: return FALSE
            raise Unsupported('fpclass %r' % mask)
        if k == 'expect' or k == 'threadlocal': return a[0]
        if k in ('umin', 'umax', 'smin', 'smax'):
            x, y = a[0], a[1]
            if isinstance(x, int) and isinstance(y, int): return min(x, y) if 'min' in k else max(x, y)
            c = lt(itm(x), itm(y))
            return ival(ite(c, itm(x), itm(y)) if 'min' in k else ite(c, itm(y), itm(x)))
        if k == 'trap': self.fail('assert', 'no trap')
        if k == 'umul' and n[2] == 'with': return [self.arith('mul', a[0], a[1], 64), 0]
        if k == 'powi': return powq(a[0], Fr(a[1])) if isinstance(a[1], int) else None
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ operand values
    def opv(self, v, regs):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'i': return v[1]
        if k == 'f': return fconst(v[1])
        if k == 'null': return NULL
        if k == 'g': return self.glob(v[1])
        if k == 'undef':
            t = self.mod.resolve(v[1])
            if t.k in ('struct',): return [UNDEF] * len(t.e)
            return UNDEF
        if k == 'zero':
            t = self.mod.resolve(v[1])
            if t.k == 'struct': return [self.opv(('zero', x), regs) for x in t.e]
            if t.k in ('arr', 'vec'): return [self.opv(('zero', t.e), regs) for _ in range(t.n)]
            return NULL if t.k == 'ptr' else ZERO if t.k == 'double' else 0
        if k == 'agg': return [self.opv(x, regs) for _, x in v[1]]
        if k == 'cgep':
            p = self.opv(v[2][0][1], regs)
            return self.gep(v[1], p, [self.opv(x, regs) for _, x in v[2][1:]])
        if k == 'str': return list(v[1])
        raise Unsupported('operand ' + k)

    def dynamic_init(self, n):
        for c in self.mod.ctors(n):
            self.ginit += 1
            try: self.call(c, [])
            finally: self.ginit -= 1
        oid = self.globs[n]
        self.globinit[oid] = self.st.mem[oid].copy()

    def glob(self, n):
        if n in self.mod.funcs or n in self.mod.decls: return Fn(n)
        g = self.mod.globals.get(n)
        if g is None: return Fn(n)
        if g[0] == 'alias': return self.glob(g[1])
        if n not in self.globs:
            t = g[1]
            self.nobj += 1
            o = Obj(self.nobj, 'cells', self.mod.size(t), ('const ' if g[3] else '') + 'global ' + n)
            self.globs[n] = o.id
            self.globname[o.id] = n
            self.st.mem[o.id] = o
            self.st.own.add(o.id)
            tg, o.tag = o.tag, 'init'
            if g[2] is not None:
                if g[2][0] == 'zero': o.zero.append((0, o.size))
                elif t.k in ('double', 'ptr', 'i', 'struct', 'named') or (t.k == 'arr' and g[2][0] != 'str'):
                    self.store(Ptr(o.id, 0), self.opv(g[2], {}), t)
            self.st.mem[o.id].tag = tg
            self.globinit[o.id] = self.st.mem[o.id]
            if not g[3] and g[2] is not None and g[2][0] in ('zero', 'i', 'f') and not n.startswith('_ZGV'): self.dynamic_init(n)
        oid = self.globs[n]
        if oid not in self.st.mem: self.st.mem[oid] = self.globinit[oid].copy()
        return Ptr(oid, 0)

    def gep(self, t, p, ix):
        if isinstance(p, Fn): raise Unsupported('gep on function')
        if p is UNDEF: raise Unsupported('gep on undef')
        off = p.off
        for n, i in enumerate(ix):
            if n == 0:
                s = self.mod.size(t)
                off = self.padd(off, i * s if isinstance(i, int) else ival(itm(i) * s))
            else:
                rt = self.mod.resolve(t)
                if rt.k == 'struct':
                    fo, t = self.mod.fieldoff(rt, i)
                    off = self.padd(off, fo)
                else:
                    s = self.mod.size(rt.e)
                    off = self.padd(off, i * s if isinstance(i, int) else ival(itm(i) * s))
                    t = rt.e
        if isinstance(off, int) and off >= 1 << 63: off -= 1 << 64
        return Ptr(p.o, off, p.el if off == p.off else None)

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            s = lambda x: x - (1 << w) if (x & M) >> (w - 1) else x & M
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b
            elif op == 'lshr': r = (a & M) >> b
            elif op == 'ashr': r = s(a) >> b
            elif op == 'sdiv': r = int(Fr(s(a), s(b))) if b else self.fail('arith', 'division by zero')
            elif op == 'udiv': r = (a & M) // (b & M) if b else self.fail('arith', 'division by zero')
            elif op == 'srem': r = int(math.fmod(s(a), s(b)))
            elif op == 'urem': r = (a & M) % (b & M)
            else: raise Unsupported(op)
            return s(r & M) if w > 1 else r & 1
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        if w == 1 or (isinstance(a, T) and a.k in BOOLK) or (isinstance(b, T) and b.k in BOOLK):
            A = self.tobool(a)
            B = self.tobool(b)
            if op == 'and': return band(A, B)
            if op == 'or': return bor(A, B)
            if op == 'xor': return bor(band(A, bnot(B)), band(bnot(A), B))
        if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on an uninitialised integer')
        a, b = itm(a), itm(b)
        if op == 'add': return ival(a + b)
        if op == 'sub': return ival(a - b)
        if op == 'mul': return ival(a * b)
        if op in ('sdiv', 'udiv') and is_num(b):
            r = a / b
            if is_int_poly(r) or all(c.denominator == 1 for m, c in r.a): return ival(r)
        if op == 'shl' and is_num(b): return ival(a * (1 << int(numval(b))))
        if op in ('lshr', 'ashr') and is_num(b):
            r = a / (1 << int(numval(b)))
            if all(c.denominator == 1 for m, c in r.a): return ival(r)
        raise Unsupported('symbolic integer %s' % op)

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o: return ival(itm(a.off) - itm(b.off))
            raise Unsupported('difference of unrelated pointers')
        if op == 'add':
            if isinstance(b, Ptr): a, b = b, a
            return Ptr(a.o, self.padd(a.off, b))
        if op == 'sub': return Ptr(a.o, self.padd(a.off, ival(neg(itm(b)))))
        if op == 'and': raise Unsupported('pointer mask')
        raise Unsupported('pointer arithmetic ' + op)

    def tobool(self, x):
        if isinstance(x, T):
            if x.k in BOOLK: return x
            a = as_atom(x)
            if a is not None and a.k == 'br': return a.a[0]
            return bnot(eq(x, ZERO))
        if isinstance(x, int): return TRUE if x else FALSE
        if x is UNDEF: raise Unsupported('branch on an uninitialised value')
        raise Unsupported('boolean %r' % (x,))

    def icmp(self, pred, a, b, w):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, int): a = Ptr(0, a)
            if isinstance(b, int): b = Ptr(0, b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = a == b
                return TRUE if (pred == 'eq') == e else FALSE
            if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an uninitialised pointer')
            if a.o == b.o: return self.icmp(pred, a.off, b.off, 64 if pred[0] != 'u' else 'p')
            if pred == 'eq': return FALSE
            if pred == 'ne': return TRUE
            raise Unsupported('ordering of unrelated pointers')
        if isinstance(a, int) and isinstance(b, int):
            if w == 'p':
                x, y = a, b
            else:
                M = (1 << w) - 1
                s = lambda x: x - (1 << w) if (x & M) >> (w - 1) else x & M
                x, y = (a & M, b & M) if pred[0] == 'u' or pred in ('eq', 'ne') else (s(a), s(b))
            r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'slt': x < y, 'ule': x <= y, 'sle': x <= y, 'ugt': x > y, 'sgt': x > y,
                 'uge': x >= y, 'sge': x >= y}[pred]
            return TRUE if r else FALSE
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an uninitialised value')
        if isinstance(a, Lazy) or isinstance(b, Lazy): raise Unsupported('handle comparison')
        ab = isinstance(a, T) and a.k in BOOLK
        bb = isinstance(b, T) and b.k in BOOLK
        if ab or bb:
            if pred in ('eq', 'ne') and (not bb) and isinstance(b, int):
                r = a if b == 1 else bnot(a) if b == 0 else FALSE
                return r if pred == 'eq' else bnot(r)
            A, B = self.tobool(a), self.tobool(b)
            if pred in ('eq', 'ne'):
                r = bor(band(A, B), band(bnot(A), bnot(B)))
                return r if pred == 'eq' else bnot(r)
        if pred[0] == 'u' and w != 'p' and isinstance(w, int):
            M = 1 << w
            if isinstance(a, int) and a < 0: a += M
            if isinstance(b, int) and b < 0: b += M
            for x in (a, b):
                if isinstance(x, T) and not self.ge0(x): raise Unsupported('unsigned comparison of a possibly negative value')
        a, b = itm(a), itm(b)
        return {'eq': eq, 'ne': ne, 'ult': lt, 'slt': lt, 'ule': le, 'sle': le, 'ugt': gt, 'sgt': gt, 'uge': ge, 'sge': ge}[pred](a, b)

    def fcmp(self, pred, a, b):
        a = br(a) if a.k in BOOLK else a
        b = br(b) if b.k in BOOLK else b
        if pred in ('uno',): return FALSE
        if pred in ('ord', 'true'): return TRUE
        f = {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]]
        return split_ite(f, a, b)

    def flt(self, x):
        if x is UNDEF: return rsym(fresh_name('uninit'))
        if isinstance(x, T): return br(x) if x.k in BOOLK else x
        if isinstance(x, int): return num(x)
        raise Unsupported('float value %r' % (x,))

    # ------------------------------------------------------------ the interpreter
    def run(self, f, block, prev, regs, allocas, stop):
        """execute from `block`; stop: None or (header, loopset): return on reaching the
        header again ('back') or leaving the loop ('exit')"""
        mod = self.mod
        loop_snap = {}
        fresh_loop = {}
        while True:
            if stop is not None and prev is not None:
                if block == stop[0]: return ('back', block, prev)
                if block not in stop[1]: return ('exit', block, prev)
            if block in f.loops and (stop is None or block != stop[0] or prev is not None):
                body = f.loops[block]
                if prev is None or prev not in body:
                    st = self.st.clone()
                    loop_snap[block] = (st, dict(regs), prev, len(self.dec.ch[:self.dec.pos]), len(allocas))
                    self.st.own = set()
                    fresh_loop[block] = True
                else: fresh_loop[block] = False
            nxt = None
            for I in f.blocks[block]:
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step limit')
                op = I.op
                if op == 'load':
                    v = self.load(self.opv(I.a[0], regs), I.ty)
                    regs[I.dst] = v
                elif op == 'store':
                    self.store(self.opv(I.a[1], regs), self.opv(I.a[0], regs), I.ty)
                elif op == 'alloca':
                    n = self.opv(I.a[0], regs)
                    o = self.new_obj('cells', mod.size(I.ty) * n, 'local variable')
                    allocas.append(o.id)
                    regs[I.dst] = Ptr(o.id, 0)
                elif op == 'getelementptr':
                    p = self.opv(I.a[0][1], regs)
                    if isinstance(p, int): p = Ptr(0, p)
                    regs[I.dst] = self.gep(I.ty, p, [self.opv(x, regs) for _, x in I.a[1:]])
                elif op == 'call' or op == 'invoke':
                    callee, args = I.a
                    fv = self.opv(callee, regs)
                    if not isinstance(fv, Fn): raise Unsupported('indirect call of %r' % (fv,))
                    av = [self.opv(x, regs) for _, x, _ in args]
                    r = self.call(fv.name, av)
                    if I.dst is not None: regs[I.dst] = r
                elif op == 'br':
                    if len(I.a) == 1: nxt = I.a[0]
                    else:
                        c = self.tobool(self.opv(I.a[0], regs))
                        t = self.truth(c)
                        if self.exit_only is not None and self.exit_only[0] is stop and (I.a[1] in stop[1]) != (I.a[2] in stop[1]):
                            # only the condition for leaving the loop is wanted
                            e = c if I.a[1] not in stop[1] else bnot(c)
                            self.exit_only[1].append((self.st.path[self.exit_only[2]:], e))
                            raise PathEnd('exit condition')
                        if t is None or (t is True and c is not TRUE and block in fresh_loop and fresh_loop[block] and I.a[1] in f.loops[block] and I.a[2] not in f.loops[block]):
                            # open loop exit -> summarise
                            inner = None
                            for h, body in f.loops.items():
                                if block in body and (I.a[1] in body) != (I.a[2] in body) and h in loop_snap:
                                    if inner is None or len(body) < len(f.loops[inner]): inner = h
                            if inner is not None:
                                nxt = self.summarise(f, inner, loop_snap[inner], regs, allocas)
                                if nxt is not None:
                                    block, prev = nxt
                                    nxt = block
                                    prev_override = prev
                                    break
                            if t is None:
                                t = self.dec.choose()
                                self.st.path.append(c if t else bnot(c))
                        nxt = I.a[1] if t else I.a[2]
                elif op == 'ret':
                    return self.opv(I.a[0], regs) if I.a else None
                elif op in ir.BIN:
                    a, b = self.opv(I.a[0], regs), self.opv(I.a[1], regs)
                    if op[0] == 'f':
                        a, b = self.flt(a), self.flt(b)
                        if op == 'fadd': r = a + b
                        elif op == 'fsub': r = a - b
                        elif op == 'fmul': r = a * b
                        elif op == 'fdiv': r = self.div(a, b)
                        else: raise Unsupported(op)
                    else: r = self.arith(op, a, b, I.ty.n)
                    regs[I.dst] = r
                elif op == 'fneg': regs[I.dst] = neg(self.flt(self.opv(I.a[0], regs)))
                elif op == 'icmp':
                    regs[I.dst] = self.icmp(I.x, self.opv(I.a[0], regs), self.opv(I.a[1], regs), I.ty.n if I.ty.k == 'i' else 64)
                elif op == 'fcmp':
                    regs[I.dst] = self.fcmp(I.x, self.flt(self.opv(I.a[0], regs)), self.flt(self.opv(I.a[1], regs)))
                elif op in ir.CASTS:
                    regs[I.dst] = self.cast(op, self.opv(I.a[0], regs), I.x, I.ty)
                elif op == 'select':
                    c = self.tobool(self.opv(I.a[0], regs))
                    a, b = self.opv(I.a[1], regs), self.opv(I.a[2], regs)
                    t = self.truth(c)
                    if t is None:
                        if isinstance(a, T) and isinstance(b, T) or (isinstance(a, (int, T)) and isinstance(b, (int, T))):
                            if I.ty.k == 'i' and I.ty.n in (1, 8): regs[I.dst] = ite(c, self.tobool(a), self.tobool(b))
                            else: regs[I.dst] = ival(ite(c, tm(a), tm(b)))
                            continue
                        t = self.dec.choose()
                        self.st.path.append(c if t else bnot(c))
                    regs[I.dst] = a if t else b
                elif op == 'phi':
                    for v, l in I.a:
                        if l == prev:
                            regs[I.dst] = self.opv(v, regs)
                            break
                elif op == 'extractvalue':
                    v = self.opv(I.a[0], regs)
                    for k in I.x: v = v[k]
                    regs[I.dst] = v
                elif op == 'insertvalue':
                    v = self.opv(I.a[0], regs)
                    w = self.opv(I.a[1], regs)
                    regs[I.dst] = self.insv(v, w, I.x)
                elif op == 'switch':
                    v = self.opv(I.a[0], regs)
                    if not isinstance(v, int): raise Unsupported('symbolic switch')
                    nxt = I.a[1]
                    for cv, l in I.a[2]:
                        if cv == v: nxt = l
                elif op == 'unreachable':
                    raise PathEnd('unreachable')
                elif op == 'freeze': regs[I.dst] = self.opv(I.a[0], regs)
                else: raise Unsupported('instruction ' + I.txt)
            else:
                prev_override = None
            if nxt is None: raise Unsupported('fell off block')
            if prev_override is not None:
                prev = prev_override
                block = nxt
                if stop is not None and block not in stop[1]: return ('exit', block, prev)
                continue
            prev, block = block, nxt

    def insv(self, v, w, ix):
        v = list(v) if isinstance(v, list) else [UNDEF] * (max(ix) + 2)
        if len(ix) == 1: v[ix[0]] = w
        else: v[ix[0]] = self.insv(v[ix[0]], w, ix[1:])
        return v

    def cast(self, op, v, f, t):
        if op in ('zext', 'sext'):
            if isinstance(v, int) and op == 'zext' and v < 0: return v & ((1 << f.n) - 1)
            if isinstance(v, int) and op == 'sext' and f.n == 1: return -v
            return v
        if op == 'trunc':
            if isinstance(v, int):
                v &= (1 << t.n) - 1
                return v - (1 << t.n) if t.n > 1 and v >> (t.n - 1) else v
            if t.n == 1 and isinstance(v, T): return self.tobool(v)
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, int):
                if op == 'uitofp' and v < 0: v += 1 << f.n
                if op == 'sitofp' and f.n == 1: v = -v
                return num(v)
            if v is UNDEF: return rsym(fresh_name('uninit'))
            return tm(v)
        if op in ('fptosi', 'fptoui'):
            v = self.flt(v)
            if is_num(v): return int(numval(v))
            if is_int_poly(v): return v
            if t.n == 1: return self.tobool(v)
            raise Unsupported('real to integer conversion')
        if op == 'fptrunc' and f.k == 'double' and t.k == 'float':
            v = self.flt(v)
            if is_num(v) and Fr(struct.unpack('f', struct.pack('f', float(numval(v))))[0]) == numval(v): return v
            a = as_atom(v)
            return v if a is not None and a.k == 'app' and a.a[0] == 'f32' else app('f32', (v,))
        if op in ('fpext', 'fptrunc', 'bitcast'): return v
        if op in ('ptrtoint', 'inttoptr'):
            if isinstance(v, Ptr) and v.o == 0 and op == 'ptrtoint': return v.off
            if isinstance(v, int) and op == 'inttoptr': return Ptr(0, v)
            return v
        raise Unsupported(op)

    # ------------------------------------------------------------ loops
    def iterate(self, f, h, st, regs, prev, allocas):
        """all outcomes of one iteration started in st at header h"""
        outs = []
        st0 = self.st
        dec0 = self.dec
        self.dec = Decider()
        body = f.loops[h]
        try:
            while True:
                self.st = st.clone()
                self.dec.pos = 0
                base = len(self.st.path)
                rg = dict(regs)
                al = list(allocas)
                try:
                    r = self.run_from_header(f, h, rg, prev, al, body)
                    outs.append((r, self.st, rg, self.st.path[base:], al))
                except PathEnd:
                    pass
                if not self.dec.next(): break
                if len(outs) > 64: raise Unsupported('too many loop paths')
        finally:
            self.dec = dec0
            self.st = st0
        return outs

    def run_from_header(self, f, h, regs, prev, allocas, body):
        # run() treats prev=None as "just started": execute the header block first
        return self.run_loop(f, h, prev, regs, allocas, body)

    def run_loop(self, f, h, prev, regs, allocas, body):
        # phis at the header take the entry edge value; at -O0 there are none that matter
        r = self.run(f, h, None, regs, allocas, (h, body))
        if not (isinstance(r, tuple) and r and r[0] in ('back', 'exit')): raise Unsupported('return inside a loop')
        return r

    def summarise(self, f, h, snap, regs, allocas):
        xc, xr = set(), set()
        for _ in range(6):
            try:
                return self.summarise1(f, h, snap, regs, allocas, xc, xr)
            except MoreMod as e:
                if e.cell is not None:
                    if e.cell in xc: raise Unsupported('loop frame (cell)')
                    xc.add(e.cell)
                elif e.reg is not None:
                    if e.reg in xr: raise Unsupported('loop frame (region)')
                    xr.add(e.reg)
                else:
                    # the loop sweeps over a region element by element (or column by column):
                    # give the whole region a name before the loop
                    S0 = snap[0].clone()
                    oid, off, r, c = e.base
                    sv = self.st
                    self.st = S0
                    old = self._read_layers(S0.mem[oid], off, r, c)
                    lam = self.mklam(r, c, old)
                    S0.w(oid).layers = list(S0.mem[oid].layers) + [(off, r, c, lam)]
                    self.st = sv
                    snap = (S0,) + tuple(snap[1:])
        raise Unsupported('loop frame')

    def summarise1(self, f, h, snap, regs, allocas, xc, xr):
        st_full, regs0, prev, npos, nal = snap
        S0 = st_full
        pre_path = list(self.st.path)
        # decisions taken since loop entry (inside earlier concrete iterations) would be lost
        if self.dec.pos != npos: raise Unsupported('branching before a loop exit test')
        ev0 = len(S0.events)
        # 1. discovery
        outs = self.iterate(f, h, S0, regs0, prev, allocas)
        backs = [o for o in outs if o[0][0] == 'back']
        if not backs: raise Unsupported('loop without back edge')
        mod_cells = set(xc)
        mod_regs = {x: None for x in xr}
        for r, s, rg, pc, al in backs:
            if len(s.events) != ev0: return self.loop_events()
            for oid, o in s.mem.items():
                o0 = S0.mem.get(oid)
                if o0 is None or o is o0: continue
                if not o0.alive: continue
                if o0.kind == 'dbl':
                    for L in o.layers:
                        if L not in o0.layers: mod_regs[(oid, L[0], L[1], L[2])] = None
                else:
                    for k in set(o.cells) | set(o0.cells):
                        if o.cells.get(k) != o0.cells.get(k): mod_cells.add((oid, k))
        # locals of the frame that are (re)initialised inside the body: keep only those live at header
        deltas = {}
        phs = {}
        bools = {}
        k0 = as_atom(fresh_idx(None, 'k'))
        for (oid, key) in sorted(mod_cells):
            c0 = S0.mem[oid].cells.get(key)
            vals = [s.mem[oid].cells.get(key) for _, s, _, _, _ in backs]
            if c0 is None or c0[1] is UNDEF or any(v is None for v in vals):
                deltas[(oid, key)] = ('dead',)
                continue
            v0 = c0[1]
            v1 = vals[0][1]
            if isinstance(v0, Ptr) and all(isinstance(v[1], Ptr) for v in vals):
                d = [ival(itm(v[1].off) - itm(v0.off)) if v[1].o == v0.o else None for v in vals]
                if all(x is not None and not (isinstance(x, T) and False) and x == d[0] for x in d): deltas[(oid, key)] = ('ptr', d[0])
                else: deltas[(oid, key)] = ('dead',)
            elif isinstance(v0, T) and v0.k == 'poly' and not is_int_poly(v0) or self.isreal(c0, vals) or key in self.dblcells.get(oid, ()):
                deltas[(oid, key)] = ('real',)
            elif isinstance(v0, (int, T)) and (isinstance(v0, T) and v0.k in BOOLK or any(isinstance(v[1], T) and v[1].k in BOOLK for v in vals)):
                deltas[(oid, key)] = ('bool',)
            elif isinstance(v0, (int, T)):
                ds = []
                for v in vals:
                    if not isinstance(v[1], (int, T)): ds.append(None)
                    else: ds.append(ival(itm(v[1]) - itm(v0)))
                if all(x is not None and x == ds[0] for x in ds): deltas[(oid, key)] = ('int', ds[0])
                else: deltas[(oid, key)] = ('dead',)
            else:
                deltas[(oid, key)] = ('dead',)
        def generic(k, fixed_dead=True):
            S = S0.clone()
            for (oid, key), d in deltas.items():
                o = S.w(oid)
                sz, v0 = S0.mem[oid].cells.get(key, (8, UNDEF))
                if d[0] == 'ptr': v = Ptr(v0.o, self.padd(v0.off, ival(itm(d[1]) * k)))
                elif d[0] == 'int': v = ival(itm(v0) + itm(d[1]) * k)
                elif d[0] == 'real':
                    v = rsym('H$%d_%s' % (oid, key))
                elif d[0] == 'bool':
                    v = TM.mk('bsym', ('H$%d_%s' % (oid, key),), frozenset(['H$%d_%s' % (oid, key)]))
                else: v = UNDEF
                o.cells[key] = (sz, v)
            for (oid, off, r, c) in mod_regs:
                o = S.w(oid)
                nm = 'H$%d_%s' % (oid, off.s + r.s + c.s)
                lam = self.mklam(r, c, lambda i, j: sel(nm, i, j))
                o.layers = [L for L in o.layers if not (L[0] is off and L[1] is r and L[2] is c)] + [(off, r, c, lam)]
            return S
        # 2. find the exit condition and trip count
        kz = fresh_idx(None, 'k')
        Sg = generic(kz)
        Sg.path.append(le(ZERO, kz))
        ecs = []
        self.quiet += 1
        nobl = len(self.obls)
        keys0 = set(self.oblkeys)
        xo = self.exit_only
        try:
            stop = (h, f.loops[h])
            st0, dec0 = self.st, self.dec
            self.dec = Decider()
            while True:
                self.st = Sg.clone()
                self.dec.pos = 0
                self.exit_only = (stop, ecs, len(self.st.path))
                try: self.run(f, h, None, dict(regs0), list(allocas), stop)
                except PathEnd: pass
                if not self.dec.next(): break
        finally:
            self.quiet -= 1
            self.exit_only = xo
            self.st, self.dec = st0, dec0
            del self.obls[nobl:]
            self.oblkeys = keys0
        if len(ecs) != 1 or ecs[0][0]: return self.loop_early_exit(ecs, backs)
        N = self.tripcount(ecs[0][1], kz)
        if N is None: raise Unsupported('loop trip count from %s' % show(ecs[0][1]))
        # the count must be non-negative
        self.st = S0.clone()
        if not self.ge0(N):
            neg_ = self.branch(lt(N, ZERO))
            if neg_:
                N = ZERO
        path1 = list(self.st.path)
        nb0 = len(path1) + 2
        # 3. inductive step with 0 <= k < N
        k = fresh_idx(N, 'k')
        Sg = generic(k)
        Sg.path = path1 + [le(ZERO, k), lt(k, N)]
        outs = self.iterate(f, h, Sg, regs0, prev, allocas)
        backs = [o for o in outs if o[0][0] == 'back']
        early = [o for o in outs if o[0][0] == 'exit']
        if early:
            # the body may leave: either no iteration below N leaves, or there is a first one, ke
            nb = nb0
            P = bor(*[band(*s.path[nb:]) for _, s, _, _, _ in early])
            if any(x.startswith('H$') or x.startswith('@H$') for x in P.fv) or \
                    any(y.k == 'app' and y.a[0].startswith('@H$') for y in walk(P)):
                raise Unsupported('loop leaves on a loop-carried condition')
            self.loop_summary(S0, Sg, backs, deltas, mod_regs, k, N, list(path1), nb, h, True)     # (completes the frame first)
            self.st = S0.clone()
            self.st.path = list(path1)
            if self.branch(forall(k, N, bnot(P))):
                path1 = list(self.st.path)
            else:
                ke = fresh_idx(N, 'ke')
                kp = fresh_idx(ke, 'kp')
                self.st.path += [le(ZERO, ke), lt(ke, N), subst(P, {as_atom(k): ke}), forall(kp, ke, bnot(subst(P, {as_atom(k): kp})))]
                if self.truth(FALSE): raise PathEnd('no iteration leaves')
                fin = self.loop_summary(S0, Sg, backs, deltas, mod_regs, k, ke, list(self.st.path), nb, h, True)
                self.st = fin
                regs.clear()
                regs.update(regs0)
                r = self.run(f, h, None, regs, allocas, (h, f.loops[h]))
                if not (isinstance(r, tuple) and r[0] == 'exit'): raise PathEnd('this iteration leaves')
                return (r[1], r[2])
        if not backs and ival(N) != 0:
            if self.truth(eq(N, ZERO)) is not True: raise PathEnd('loop body never completes')
        fin = self.loop_summary(S0, Sg, backs, deltas, mod_regs, k, N, path1, nb0, h, bool(early))
        self.loops_proved += 1
        self.st = fin
        # registers defined before the loop stay; leave through the exit edge
        regs.clear()
        regs.update(regs0)
        # run the header once more to the exit so that values computed there exist
        Sx = self.st
        r = None
        dec0 = self.dec
        self.dec = Decider()
        try:
            r = self.run(f, h, None, regs, allocas, (h, f.loops[h]))
        finally:
            self.dec = dec0
        if not (isinstance(r, tuple) and r[0] == 'exit'): raise Unsupported('loop exit not reached after its trip count')
        return (r[1], r[2])

    def loop_summary(self, S0, Sg, backs, deltas, mod_regs, k, N, path1, nb, h, part=False):
        """state after N complete iterations"""
        pcs = [band(*s.path[nb:]) for _, s, _, _, _ in backs]
        fin = S0.clone()
        fin.path = path1
        # frame: nothing else may change
        for _, s, _, _, _ in backs:
            if len(s.events) != len(S0.events): return self.loop_events()
            for oid, o in s.mem.items():
                o0 = S0.mem.get(oid)
                if o0 is None or not o0.alive: continue
                og = Sg.mem[oid]
                if o0.kind == 'dbl':
                    for L in o.layers:
                        if L not in og.layers and (oid, L[0], L[1], L[2]) not in mod_regs:
                            if as_atom(k).a[0] not in L[0].fv | L[1].fv | L[2].fv: raise MoreMod(reg=(oid, L[0], L[1], L[2]))
                            if as_atom(k).a[0] in L[1].fv | L[2].fv: raise Unsupported('loop frame (growing region)')
                            b0 = subst(L[0], {as_atom(k): ZERO})
                            stp = (subst(L[0], {as_atom(k): ONE}) - b0) / 8
                            if L[0] is not b0 + stp * 8 * k: raise Unsupported('loop frame (region offset)')
                            if stp is ONE and L[1] is ONE and L[2] is ONE: raise MoreMod(base=(oid, b0, N, ONE))
                            if stp is L[1] and L[2] is ONE: raise MoreMod(base=(oid, b0, L[1], N))
                            raise Unsupported('loop frame (strided region)')
                else:
                    for key in set(o.cells) | set(og.cells):
                        if o.cells.get(key) != og.cells.get(key) and (oid, key) not in deltas: raise MoreMod(cell=(oid, key))
            for key in s.written: fin.written[key] = None
        hn = set('H$%d_%s' % (oid, key) for (oid, key), d in deltas.items() if d[0] in ('real', 'bool')) | \
            set('@H$%d_%s' % (oid, off.s + r.s + c.s) for (oid, off, r, c) in mod_regs)
        ok_ind = TRUE
        for (oid, key), d in deltas.items():
            sz, v0 = S0.mem[oid].cells.get(key, (8, UNDEF))
            vals = [s.mem[oid].cells.get(key, (8, UNDEF))[1] for _, s, _, _, _ in backs]
            o = fin.w(oid)
            if d[0] in ('ptr', 'int'):
                for v in vals:
                    if d[0] == 'ptr': g = eq(itm(v.off), itm(v0.off) + itm(d[1]) * (k + 1)) if isinstance(v, Ptr) and v.o == v0.o else FALSE
                    else: g = eq(itm(v), itm(v0) + itm(d[1]) * (k + 1))
                    if g is not TRUE: raise Unsupported('induction variable not affine')
                v = Ptr(v0.o, self.padd(v0.off, ival(itm(d[1]) * N))) if d[0] == 'ptr' else ival(itm(v0) + itm(d[1]) * N)
            elif d[0] == 'real':
                H = rsym('H$%d_%s' % (oid, key))
                m = tm(vals[-1]) if vals and not part else H
                for pc, vv in list(zip(pcs, vals))[:len(vals) if part else -1][::-1]: m = ite(pc, tm(vv), m)
                v = self.close_acc(m, as_atom(H), H, tm(v0) if v0 is not UNDEF else H, k, N, hn)
            elif d[0] == 'bool':
                H = TM.mk('bsym', ('H$%d_%s' % (oid, key),), frozenset(['H$%d_%s' % (oid, key)]))
                m = self.tobool(vals[-1]) if vals else H
                for pc, vv in list(zip(pcs, vals))[:-1][::-1]: m = ite(pc, self.tobool(vv), m)
                b1 = subst_bool(m, {H: TRUE})
                b0 = subst_bool(m, {H: FALSE})
                V0 = self.tobool(v0)
                if b1 is TRUE: v = bor(V0, exists(k, N, b0))
                elif b0 is FALSE: v = band(V0, forall(k, N, b1))
                elif b0 is b1: v = ite(lt(ZERO, N), subst(b0, {as_atom(k): N - 1}), V0)
                else: raise Unsupported('boolean loop variable')
            else: v = UNDEF
            o.cells[key] = (sz, v)
        for (oid, off, r, c) in mod_regs:
            nm = 'H$%d_%s' % (oid, off.s + r.s + c.s)
            i, j = fresh_idx(r, 'i'), fresh_idx(c, 'j')
            ii = ZERO if r is ONE else i
            jj = ZERO if c is ONE else j
            H = sel(nm, ii, jj)
            ms = []
            for _, s, _, _, _ in backs:
                L = [L for L in s.mem[oid].layers if L[0] is off and L[1] is r and L[2] is c]
                ms.append(lam_apply(L[-1][3], ii, jj))
            m = ms[-1] if ms else H
            for pc, vv in list(zip(pcs, ms))[:-1][::-1]: m = ite(pc, vv, m)
            save = self.st
            self.st = S0.clone()
            old = self._read_layers(S0.mem[oid], off, r, c)
            self.st = save
            v = self.close_region(m, nm, ii, jj, old, k, N, hn)
            lam = lam2(tm(v), i, j)
            o = fin.w(oid)
            o.layers = [L for L in o.layers if not (L[0] is off and L[1] is r and L[2] is c)] + [(off, r, c, lam)]
        return fin

    def isreal(self, c0, vals):
        for v in [c0] + vals:
            v = v[1]
            if isinstance(v, T) and v.k == 'poly' and not is_int_poly(v): return True
        return False

    def loop_events(self, *a):
        raise Unsupported('child calls in a loop with symbolic trip count')

    def loop_early_exit(self, exits, backs):
        raise Unsupported('loop with several exits')

    def tripcount(self, c, k):
        """exit condition c(k) first true at k = N"""
        ka = as_atom(k)
        neg_ = False
        if c.k == 'not':
            neg_, c = True, c.a[0]
        if c.k == 'and':
            # not(p<0) and not(p==0)  is  p > 0 : exit when p > 0
            ps = {x.a[0].a[1] for x in c.a if x.k == 'not' and x.a[0].k == 'cmp'}
            if len(ps) == 1 and not neg_:
                p = ps.pop()
                return self._first(p - 1, ka)     # p >= 1
            return None
        if c.k == 'or':
            ps = {(x.a[1] if x.k == 'cmp' else None) for x in c.a}
            if len(ps) == 1 and None not in ps and not neg_:
                p = ps.pop()                   # p <= 0
                return self._first(neg(p), ka)
            return None
        if c.k != 'cmp': return None
        p = c.a[1]
        if c.a[0] == '==' and not neg_:
            return self._root(p, ka)
        if c.a[0] == '<' and neg_:             # exit when p >= 0
            return self._first(p, ka)
        if c.a[0] == '<' and not neg_:         # exit when p < 0, i.e. -p-1 >= 0
            q = self._intify(p)
            return self._first(neg(q) - 1, ka)
        return None

    def _intify(self, p):
        l = 1
        for m, c in p.a: l = l * c.denominator // math.gcd(l, c.denominator)
        return scale(p, l)

    def _root(self, p, ka):
        c = None
        rest = {}
        for m, x in p.a:
            if m == ((ka, 1),): c = x
            elif any(ka.a[0] in at.fv for at, e in m): return None
            else: rest[m] = x
        if c is None: return None
        N = scale(TM._poly(rest), -1 / Fr(c))
        if not all(x.denominator == 1 for m, x in N.a): return None
        return N

    def _first(self, p, ka):
        """least k with p(k) >= 0, p increasing with unit slope (after scaling)"""
        p = self._intify(p)
        d = dict(p.a)
        c = d.get(((ka, 1),), 0)
        if c <= 0: return None
        if c != 1:
            q = scale(p, 1 / Fr(c))
            if not all(x.denominator == 1 for m, x in q.a): return None
            p = q
        return self._root(p, ka)

    def close_acc(self, m, Ha, H, H0, k, N, hn, ij=None, old=None):
        """closed form after N iterations of H := m(H, k)"""
        ka = as_atom(k)
        def uses(x, names):
            for y in walk(x):
                if y.k == 'sym' and y.a[0] in names: return True
                if y.k == 'app' and y.a[0] in names: return True
                if y.k == 'bsym' and y.a[0] in names: return True
            return False
        if not self.occurs(m, Ha):
            if uses(m, hn): raise Unsupported('loop-carried dependency %s := %s' % (show(H)[:100], show(m)[:800]))
            if m is H0: return H0
            if ka.a[0] not in m.fv:
                if ij is None or True: return ite(lt(ZERO, N), m, H0) if not self.truth(lt(ZERO, N)) else m
            return ite(lt(ZERO, N), subst(m, {ka: N - 1}), H0)
        # m = a*H + b
        a, b = ZERO, ZERO
        for mo, c in m.a:
            d = dict(mo)
            if Ha in d:
                if d[Ha] != 1: raise Unsupported('non-linear loop update')
                del d[Ha]
                t = TM._poly({tuple(sorted(d.items(), key=lambda x: x[0].s)): c})
                if self.occurs(t, Ha): raise Unsupported('non-linear loop update')
                a = a + t
            else:
                t = TM._poly({mo: c})
                if self.occurs(t, Ha): raise Unsupported('non-linear loop update')
                b = b + t
        if uses(a, hn) or uses(b, hn): raise Unsupported('loop-carried dependency %s a=%s b=%s' % (show(H)[:100], show(a)[:800], show(b)[:800]))
        if a is ONE:
            return H0 + mk_sum(k, N, b)
        if b is ZERO:
            if ij is not None and ka.a[0] in a.fv:
                pass
            # point update?  a = 1 - [i==k]*(...)
            if ij is not None:
                r = self.point_update(a, b, H0, k, N, ij)
                if r is not None: return r
            if ka.a[0] not in a.fv: return H0 * (rawapp('powi', (a, N)) if not is_num(a) or numval(a) != 1 else ONE)
            return H0 * mk_prod(k, N, a)
        if ij is not None:
            r = self.point_update(a, b, H0, k, N, ij)
            if r is not None: return r
        raise Unsupported('loop update form')

    def close_region(self, m, nm, ii, jj, old, k, N, hn, depth=0):
        """closed form of the element (ii,jj) of a region updated as H := m(H, k)"""
        ka = as_atom(k)
        H = sel(nm, ii, jj)
        Ha = as_atom(H)
        others = [y for y in walk(m) if y.k == 'app' and y.a[0] == '@' + nm and y is not Ha]
        if others:
            # iteration k changes (and reads) only row / column k: apply it once
            for x in (ii, jj):
                xa = as_atom(x)
                if xa is None or xa.k != 'sym': continue
                for lit in [y for y in walk(m) if y.k == 'cmp' and y.a[0] == '==' and xa.a[0] in y.fv and ka.a[0] in y.fv and not any(v.startswith('%') for v in y.fv)]:
                    p = TM._lin_in(lit.a[1], ka)
                    if p is None or subst_bool(m, {lit: FALSE}) is not H: continue
                    mt = subst(subst_bool(m, {lit: TRUE}), {ka: p})
                    sels = [y for y in walk(mt) if y.k == 'app' and y.a[0] == '@' + nm]
                    if any((y.a[1] if x is ii else y.a[2]) is not x for y in sels): continue
                    v = subst(mt, {y: tm(old(y.a[1], y.a[2])) for y in sels})
                    return ite(TM.in_range(p, N), v, old(ii, jj))
        if others and depth < 4:
            for x in (ii, jj):
                xa = as_atom(x)
                if xa is None or xa.k != 'sym': continue
                for lit in [y for y in walk(m) if y.k == 'cmp' and y.a[0] == '==' and xa.a[0] in y.fv and ka.a[0] not in y.fv and not any(v.startswith('%') for v in y.fv)]:
                    p = TM._lin_in(lit.a[1], xa)
                    if p is None: continue
                    mt = subst(subst_bool(m, {lit: TRUE}), {xa: p})
                    mf = subst_bool(m, {lit: FALSE})
                    it, jt = (p, jj) if x is ii else (ii, p)
                    vt = self.close_region(mt, nm, it, jt, old, k, N, hn, depth + 1)
                    vf = self.close_region(mf, nm, ii, jj, old, k, N, hn, depth + 1)
                    return ite(lit, vt, vf)
        return self.close_acc(m, Ha, H, old(ii, jj), k, N, hn, (ii, jj), old)

    def point_update(self, a, b, H0, k, N, ij):
        """iteration k changes only the elements with i==k (or j==k)"""
        ka = as_atom(k)
        for x in ij:
            if x is ZERO: continue
            c = eq(x, k)
            # maybe offset: search a bracket literal linear in k
            cands = [y for y in walk(a) if y.k == 'cmp' and y.a[0] == '==' and ka.a[0] in y.fv] + \
                    [y for y in walk(b) if y.k == 'cmp' and y.a[0] == '==' and ka.a[0] in y.fv]
            for lit in cands:
                s = TM._lin_in(lit.a[1], ka)
                if any(v.startswith('%') for v in lit.fv): continue
                if s is None or as_atom(x) is None or as_atom(x).a[0] not in s.fv: continue
                a0, b0 = subst_bool(a, {lit: FALSE}), subst_bool(b, {lit: FALSE})
                if a0 is not ONE or b0 is not ZERO: continue
                v = subst(subst_bool(a, {lit: TRUE}) * H0 + subst_bool(b, {lit: TRUE}), {ka: s})
                return ite(TM.in_range(s, N), v, H0)
        return None

    def occurs(self, t, at):
        return any(x is at for x in walk(t))


CMPF = {'LT': lt, 'LE': le, 'GT': gt, 'GE': ge, 'EQ': eq, 'NE': ne}
