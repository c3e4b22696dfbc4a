"""Properties -> translation units and scenarios."""
from functools import partial
from . import specs as S

TRUSTED = [
    'clang 18 front end and its lowering to LLVM IR at -O0',
    'the executor and term kernel in /verif/vc (polynomial normal form over reals), z3 4.8, cvc5 1.1',
    'contracts assumed for Eigen (/verif/shim): elementwise array algebra, Map, Matrix, products, reductions, LU / LLT decompositions',
    'contracts assumed for libm: real functions sin, cos, exp, log, ... with their textbook derivatives',
]
ASSUMPTIONS = [
    'doubles are treated as mathematical reals (no rounding, no NaN; infinity only as the log of an impossible event)',
    'sizes are non-negative mathematical integers (no size overflow)',
    'operand expressions are abstracted by the node contract; that every node meets the same contract is what the checks prove node by node',
]

NOTE = ('Every obligation generated from the compiled real templates is discharged for all sizes, all values and all numbers of evaluations (real arithmetic). '
        'Trusted: clang IR lowering, the symbolic executor and normal-form prover in /verif/vc, SMT solvers, the assumed contracts for Eigen (shim) and libm. '
        'Template shapes are instantiated over the finite grid of shapes (scalar, vector, matrix, constants) with operands abstracted by the node contract.')

PROG_NOTE = ('Each listed program is proved for all sizes, values, incoming adjoints and numbers of repetitions (real arithmetic), executing the real library code end to end. '
             'That every other program behaves the same way follows from the node contracts (P02-P21) by induction over its structure, an argument on paper and not machine-checked. Trusted: as for the node checks.')


def TU(key, src, specs, defs=(), names=None, chunk=6):
    sp = specs()
    return dict(key=key, src=src, defs=list(defs), specs=specs, names=sorted(sp) if names is None else names, chunk=chunk)


PROPS = {}


def prop(pid, tus, **kw):
    PROPS[pid] = dict(tus=tus, **kw)


def unary_tus(): return [TU('unary', 'unary.cpp', S.unary_specs)]


prop('P01', lambda: [TU('fwd', 'fwd.cpp', S.fwd_specs, chunk=16)])
prop('P02', unary_tus)


def binary_tu(o): return TU('bin_' + o, 'binary.cpp', partial(S.binary_specs, [o]), ['OPS=X(%s,%s)' % (o, S.CPPOP[o])])
def arith_tus(): return [binary_tu(o) for o in ('add', 'sub', 'mul', 'div')]
def cmp_tus(): return [binary_tu(o) for o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or')]


prop('P03', arith_tus)
prop('P04', cmp_tus)
RNG_NOTE = 'sums, products and statement lists over a range of expressions: the number of range elements is unrolled (scalars up to 4 and 8 and 17, vectors up to 3 and 7, matrices up to 3 and 5; products of more than 4 scalars for positive factors, of vectors and matrices up to 3 factors); sizes, values and number of evaluations are unbounded'


def rred_tu(): return TU('range', 'range.cpp', S.rred_specs, ['P_RED'], chunk=2)
def rfe_tu(): return TU('foreach', 'range.cpp', S.rfe_specs, ['P_FE'], chunk=4)


prop('P05', lambda: [TU('reduce', 'core.cpp', S.reduce_specs, ['P_REDUCE'], chunk=2), rred_tu()], bounded=[RNG_NOTE])
prop('P06', lambda: [TU('linalg', 'core.cpp', S.linalg_specs, ['P_LINALG'], chunk=4)])
prop('P07', lambda: [TU('det', 'core.cpp', S.det_specs, ['P_DET'], chunk=2)])
prop('P08', lambda: [TU('pow', 'core.cpp', S.pow_specs, ['P_POW'])])
prop('P09', lambda: [TU('ifelse', 'core.cpp', S.if_specs, ['P_IF'])])


def eq_tus(): return [TU('stmt', 'stmt.cpp', S.stmt_specs, ['P_EQ'])]
def openq_tus(): return [TU('openq', 'stmt.cpp', S.openq_specs, ['P_OPEQ'])]


prop('P10', lambda: eq_tus() + [rfe_tu()], bounded=[RNG_NOTE])
prop('P11', openq_tus)
prop('P13', lambda: [TU('leaf', 'leaf.cpp', S.leaf_specs, ['P_LEAF']), TU('var', 'leaf.cpp', S.var_specs, ['P_VAR'])])
prop('P14', lambda: [TU('kun', 'const.cpp', S.kun_specs, ['P_UN']), TU('kbin', 'const.cpp', S.kbin_specs, ['P_BIN']), TU('koth', 'const.cpp', S.koth_specs, ['P_OTH']), TU('kget', 'const.cpp', S.kget_specs, ['P_GET', 'VC_LO=1'])])


def stat_tu(key, d, ch): return TU(key, 'stat.cpp', partial(S.stat_specs, key), [d], chunk=ch)


prop('P15', lambda: [stat_tu('bern', 'P_BERN', 1), stat_tu('berni', 'P_BERNI', 1)])
prop('P16', lambda: [stat_tu('cauchy', 'P_CAUCHY', 4), stat_tu('cauchyi', 'P_CAUCHYI', 4)])
prop('P17', lambda: [stat_tu('norm', 'P_NORM1', 4), stat_tu('normm', 'P_NORM2', 2), stat_tu('normi', 'P_NORMI', 4)])
prop('P18', lambda: [stat_tu('unif', 'P_UNIF', 4), stat_tu('unifi', 'P_UNIFI', 4)])
prop('P19', lambda: [stat_tu('wish', 'P_WISH', 1)])
prop('P20', lambda: [TU('drv', 'prog.cpp', S.drv_specs, ['P_DRV'], chunk=4)])
prop('P22', lambda: [TU('prog', 'prog.cpp', S.prog_specs, ['P_PROG'], chunk=3)], note=PROG_NOTE)


def all_tus():
    out, seen = [], set()
    for pid, P in PROPS.items():
        if P.get('cross'): continue
        for tu in P['tus']():
            if tu['key'] not in seen:
                seen.add(tu['key'])
                out.append(tu)
    return out


prop('P12', all_tus, cross=True, aspects=('storage', 'memory'))
prop('P21', all_tus, cross=True, aspects=('order', 'kept'))
