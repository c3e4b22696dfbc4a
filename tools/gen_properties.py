#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
B = 'include/fastad_bits/'
R = B + 'reverse/core/'
S = B + 'reverse/stat/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs='return values of the evaluation calls, the adjoints of the variables, and the caller-owned cache memory', hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=obs, hook_needed=hook)))


ND = 'for every vector and matrix size (0 included), every operand value in the domain of the function, every incoming adjoint, and every position in an expression tree'
p('P01', 'Forward mode: value and tangent of every operation',
  'For every arithmetic operation and elementary function on forward-mode dual numbers, the value part of the result is the mathematical function of the value parts and the '
  'tangent part is the sum over the operands of partial derivative times operand tangent. Operands are left unchanged, and plain numbers converted to dual numbers have tangent zero.',
  ['inputs', 'programs'], 'all real values in the domain of each function and all tangents; hence, by induction, every composition of the operations',
  'tests sample a handful of values per function, often with tangent one only; a factor missing from the tangent only shows with a tangent different from one or zero (as the erf defect fixed here)',
  [B + 'forward/core/forward.hpp', B + 'forward/core/dualnum.hpp'], 'operators and functions on ForwardVar build a new value/tangent pair',
  [('w_, df_', 'value and tangent', B + 'forward/core/dualnum.hpp')], 'value and tangent accessors of the result')
p('P02', 'Elementwise functions of one argument: value and gradient',
  'For negation, sin, cos, tan, asin, acos, atan, exp, log, sqrt, erf, sinh, cosh, tanh and sigmoid of an arbitrary scalar, vector or matrix expression, evaluation returns the function applied to every '
  'element, and back-propagation passes to the argument exactly the incoming adjoint times the derivative at the argument, element by element.',
  ['inputs', 'programs'], ND + ', on first and on repeated evaluation',
  'tests check a few sizes and sampled values with unit or constant seeds; they cannot cover all sizes, non-uniform adjoints, or operands whose storage is rewritten between evaluations',
  [R + 'unary.hpp', R + 'value_adj_view.hpp', B + 'util/value.hpp'], 'UnaryNode::feval/beval with the fmap/bmap of each function')
p('P03', 'Arithmetic between expressions, with scalar broadcasting',
  'For +, -, * and / between any two of scalar, vector and matrix expressions or constants whose shapes agree or one of which is scalar, evaluation returns the elementwise result with the scalar broadcast, '
  'and back-propagation passes to each operand the incoming adjoint times the partial derivative, summed over all elements for a broadcast scalar. This holds with the constant on either side and when both operands are non-trivial subexpressions.',
  ['inputs', 'programs'], ND + ' (denominators non-zero), all eight shape combinations',
  'tests use small fixed sizes and mostly equal shapes; adjoint reductions for broadcast scalars must hold for every size and every adjoint array',
  [R + 'binary.hpp', R + 'constant.hpp', B + 'util/shape_traits.hpp'], 'BinaryNode::feval/beval with fmap/blmap/brmap of Add, Sub, Mul, Div')
p('P04', 'Comparisons and logical operators give 0/1 and carry no gradient',
  'For <, <=, >, >=, ==, != (any values) and &&, || (operands 0 or 1) between scalar, vector and matrix expressions or constants, evaluation returns exactly 1 where the relation holds and 0 where it does not, with a scalar operand broadcast. '
  'Back-propagating any adjoint through the result adds nothing to the gradient of either operand.',
  ['inputs', 'programs'], ND + ', equal operand values included',
  'tests compare a few hand-picked values; ties, broadcast in both directions and constants on either side are hardly sampled',
  [R + 'binary.hpp'], 'BinaryNode with comparison functors; beval is a no-op')
p('P05', 'Sums and products: value and gradient, zeros included',
  'The sum (product) of all elements of an expression, and the element-wise sum (product) over a range of expressions, equal the mathematical sum (product) for every number of elements. '
  'Back-propagation passes to each element the incoming adjoint times the derivative, which for a product is the product of all other elements, also when one or several elements are zero.',
  ['inputs', 'programs'], ND + '; every number of elements in an elementwise reduction, ranges of expressions of every length (lengths 0 to 4 where the length is enumerated)',
  'products with zeros take a separate code path per element; tests hit one or two such patterns at one size',
  [R + 'sum.hpp', R + 'prod.hpp'], 'SumElemNode, SumIterNode, ProdElemNode, ProdIterNode feval/beval')
p('P06', 'Matrix products, transpose and squared norm: value and gradient',
  'The matrix-matrix and matrix-vector product, the transpose and the squared norm of arbitrary expressions (or constants on one side) return the mathematical result, and back-propagation passes to each operand the exact vector-Jacobian product.',
  ['inputs', 'programs'], ND + ', all conforming, non-square shapes',
  'tests use one or two fixed shapes, where swapped dimensions or a transposed factor can go unnoticed',
  [R + 'dot.hpp', R + 'transpose.hpp', R + 'norm.hpp'], 'DotNode, TransposeNode, NormNode feval/beval')
p('P07', 'Determinant and log-determinant: value and gradient',
  'For every square matrix expression that is invertible (symmetric positive definite for the two Cholesky variants), determinant and log absolute determinant return the mathematical value with each offered decomposition, '
  'and back-propagation passes to element (i,j) the incoming adjoint times the exact derivative. Results of one evaluation never influence the next.',
  ['inputs', 'programs', 'histories'], 'all sizes, all invertible (positive definite) matrices, all adjoints, repeated evaluation',
  'tests check 2x2 or 3x3 matrices once; a transposed inverse passes on symmetric samples, and stale decompositions only show when the matrix changes between evaluations',
  [R + 'det.hpp', R + 'log_det.hpp'], 'DetNode / LogDetNode with the decomposition policies fmap/bmap/valid', [('decomp_', 'decomposition computed by the last forward evaluation', R + 'det.hpp')])
p('P08', 'Integer powers: value and gradient, zero base included',
  'Raising a scalar, vector or matrix expression to a fixed integer power returns the power of every element, and back-propagation passes the incoming adjoint times power times element to the (power minus one), for negative, zero and positive powers. '
  'For positive powers this includes elements that are zero.',
  ['inputs', 'programs'], ND + '; powers -4 to 5 and 7; bases non-zero for negative powers',
  'tests sample a few bases per power; zero bases and negative bases with odd and even powers follow separate branches',
  [R + 'pow.hpp'], 'PowNode::feval/beval, PowFunc')
p('P09', 'Conditional expressions evaluate and differentiate only the chosen branch',
  'A conditional expression returns the value of the first branch when the condition is non-zero and of the second otherwise; only that branch is evaluated and only it receives the incoming adjoint, unchanged. '
  'The decision is taken afresh on every evaluation, and either branch or the condition may be a constant.',
  ['inputs', 'programs', 'histories'], ND + '; any sequence of evaluations whose condition changes',
  'tests fix the condition once; a choice kept from an earlier evaluation, or a branch evaluated although not chosen, needs a history to show',
  [R + 'if_else.hpp'], 'IfElseNode::feval/beval')
p('P10', 'Assignments and statement sequences',
  'Assigning an expression to a variable inside an expression evaluates it exactly once, stores the result in that variable, and passes the whole adjoint accumulated by the variable from every later use back to the assigned expression. '
  'Statements joined by a comma or produced by a loop over a range run in order, have the value of the last one, and are each back-propagated exactly once, in reverse, with no adjoint of their own for all but the last. '
  '(Assignments placed inside an operand that is never back-propagated into, such as the operands of a comparison or the condition of a conditional expression, are outside this guarantee.)',
  ['inputs', 'programs'], 'all values, shapes and sizes; any number of later uses; chains of assignments; ranges of length 0 to 4',
  'tests contain a few fixed programs; the order of accumulation and the reuse of the variable memory as the node storage must be right for every program',
  [R + 'eq.hpp', R + 'glue.hpp', R + 'for_each.hpp'], 'EqNode, GlueNode, ForEachIterNode', [('var_view_', 'variable whose memory is the storage of the assigned expression', R + 'eq.hpp')])
p('P11', 'In-place update of a variable (+=, -=, *=, /=)',
  'An in-place update evaluates its right side once and leaves the combined value in the variable, so that later statements see it. Back-propagation passes to the right side and to the previous definition of the variable exactly the derivatives at the '
  'values before the update; the variable again holds its value from before the update when the right side is back-propagated and afterwards, while the value of the update seen by later readers does not change until they have been back-propagated.',
  ['inputs', 'programs', 'histories'], 'all shapes (scalar right side broadcast), all values (divisor non-zero), all adjoints, sequences of several updates of one variable, repeated evaluation',
  'the old value must be restored and the adjoint replaced, not added to; tests use one update with simple adjoints',
  [R + 'eq.hpp'], 'OpEqNode::feval/beval', [('cache_', 'value before the update and adjoint of the result', R + 'eq.hpp')])
p('P12', 'Cache memory: exact size, no overlap, no access outside',
  'Every expression announces how many value and adjoint doubles it needs and, once bound to caller memory of exactly that size, uses each part for one purpose only: it never reads or writes outside it, never lets two live values share memory, '
  'and evaluates correctly whatever the memory contained. This also holds when the expression is the right side of an assignment and stores its result in the variable instead.',
  ['inputs', 'programs'], 'every node type over arbitrary operands with arbitrary own needs, every size; initial memory content arbitrary',
  'a node that asks for too little, or shifts a pointer too far, often works with the test memory layout; only a proof over symbolic sizes excludes it',
  [R + 'value_adj_view.hpp', R + 'value_view.hpp', R + 'bind.hpp', B + 'util/ptr_pack.hpp', B + 'util/size_pack.hpp', R + 'unary.hpp', R + 'binary.hpp', R + 'eq.hpp'],
  'bind_cache / bind_cache_size / single_bind_cache_size of every node', [('val_, adj_', 'views into caller memory', R + 'value_view.hpp')])
p('P13', 'Variables: storage, views, and adjoint accumulation',
  'A variable (or a view of caller memory, or a sub-block of either) yields its current values on evaluation and adds every incoming adjoint to exactly its own elements, a scalar adjoint to each element. '
  'Resetting zeroes exactly its adjoints; copies of an owning variable have their own values and adjoints, while views and sub-blocks alias the original.',
  ['inputs', 'histories'], 'all sizes and sub-block positions, all adjoint sequences',
  'off-by-one sub-blocks, overwriting instead of adding, or a copy that still aliases its source only show on particular shapes and sequences of calls',
  [R + 'var.hpp', R + 'var_view.hpp', R + 'value_view.hpp'], 'Var / VarView accessors, beval, reset_adj, head / tail / element views')
p('P14', 'Constants: no adjoint, folding agrees with evaluation',
  'Operations whose operands are all constants are folded at once into a constant with the same value as evaluating the operation; constants need no adjoint memory, keep their value and size over all evaluations, and contribute to no gradient.',
  ['inputs', 'programs'], 'all constant scalars, vectors and matrices, owned or viewed, for every operation that folds',
  'folding is a second implementation of each operation; tests cover few of the combinations of operation, shape and position',
  [R + 'constant.hpp', R + 'unary.hpp', R + 'binary.hpp', R + 'sum.hpp', R + 'prod.hpp', R + 'dot.hpp', R + 'pow.hpp', R + 'if_else.hpp'], 'the constant branch of every operator; Constant and ConstantView')
D = [('P15', 'Bernoulli', 'bernoulli', 'the success probability', 'a probability outside (0,1) is clamped to 0 or 1 and receives no gradient, an impossible outcome gives minus infinity, and an outcome other than 0 or 1 additionally gives no gradient'),
     ('P16', 'Cauchy', 'cauchy', 'the value, location and scale', 'a non-positive scale gives minus infinity and no gradient'),
     ('P17', 'normal', 'normal', 'the value, mean and standard deviation or covariance', 'a non-positive standard deviation, or a covariance that is not positive definite, gives minus infinity and no gradient (covariance arguments are symmetric)'),
     ('P18', 'uniform', 'uniform', 'the lower and upper bound', 'a value not strictly between the bounds gives minus infinity and no gradient'),
     ('P19', 'Wishart', 'wishart', 'the matrix argument and the scale matrix', 'a matrix argument that is not positive definite, or too few degrees of freedom, gives minus infinity and no gradient (matrix arguments are symmetric; each element counts as independent)')]
for i, n, f, a, o in D:
    p(i, '%s log-density: value, support and gradient' % n,
      'For every offered combination of scalar, vector and matrix arguments, variable or constant, the %s log-density node returns the log-density summed over all elements up to the documented additive constant, and back-propagation passes to %s the exact gradient times the incoming adjoint. '
      'Outside the support, %s.' % (n, a, o), ['inputs', 'programs', 'histories'], 'all sizes from 1, all values in and out of the support, all adjoints, repeated evaluation with moving parameters',
      'each argument combination is a separate specialisation with its own cached quantities; tests sample one point per specialisation and rarely evaluate twice',
      [S + f + '.hpp'], 'AdjNode specialisations of the %s density' % n)
p('P20', 'Drivers: binding, evaluating and differentiating an expression',
  'Binding an expression allocates exactly the memory it asked for and evaluating the bound expression any number of times returns the value for the current variable values. Differentiating runs one forward evaluation followed by one back-propagation with the given seed '
  '(one by default) and returns that value, and the separate forward and backward steps give the same result as the combined call.',
  ['inputs', 'programs', 'histories'], 'all expressions, seeds and sequences of calls; copies and moves of bound expressions',
  'copy, move and repeated use of a bound expression involve ownership of the memory, which tests exercise once or not at all',
  [R + 'bind.hpp', R + 'eval.hpp'], 'ExprBind, autodiff, evaluate, evaluate_adj')
p('P21', 'Each operand is evaluated once, back-propagated once, in reverse order, afresh',
  'In one forward evaluation every operand of a node is evaluated exactly once and before its value is used; in one back-propagation every operand is visited exactly once, after all later operands, with every operand value still the one of the last forward evaluation. '
  '(Operands through which no gradient flows - those of comparisons and logical operators, the condition and the unselected branch of a conditional, and those of determinants and log-densities when the incoming adjoint is zero or the result is singular or outside the support - are visited at most once.) '
  'Nothing computed or accumulated inside a node in one evaluation influences the next.',
  ['programs', 'histories'], 'every node type over arbitrary operands, every size, any number of evaluations',
  'double evaluation, reordering and leftovers from an earlier evaluation leave single-shot results unchanged; they need particular programs or histories to show',
  [R + 'binary.hpp', R + 'unary.hpp', R + 'sum.hpp', R + 'prod.hpp', R + 'dot.hpp', R + 'if_else.hpp', R + 'glue.hpp', R + 'for_each.hpp', R + 'eq.hpp', S + 'normal.hpp'],
  'feval / beval protocol of every node')
p('P22', 'Whole programs: gradient of compositions with shared variables',
  'For programs composed of several operations, assignments and in-place updates over shared variables, differentiating adds to each variable exactly the partial derivative of the program value with respect to that variable, '
  'all uses of a variable accumulate, and the gradient is the same on every repetition after a reset.',
  ['inputs', 'programs', 'histories'], 'representative programs with symbolic sizes and all values; arbitrary programs follow from the per-node contracts by induction',
  'tests check such programs at single points; here the gradient is proved for all values and sizes',
  [R + 'eval.hpp', R + 'bind.hpp', R + 'var.hpp', R + 'eq.hpp', R + 'glue.hpp', R + 'binary.hpp', R + 'unary.hpp'], 'the whole reverse-mode evaluation over real variables')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
