"""G02: merging, identity tests and equality of gates never change the operator."""
import math

from pv import num
from pv import world as W
from pv.core import bounded, contract
from pv.num import Num

import projectq.ops as ops
from projectq.libs import math as pqmath
from projectq.ops._metagates import DaggeredGate

P = 'G02'
ASSUMPTIONS = ['floating-point rounding treated as exact real arithmetic in the deductive part',
               'rotation constructors used through their contract (G01): the stored angle is congruent to the given one',
               'the equality clause for matrix-defined gates is checked up to the documented tolerance, natively only']

FIXED = {'H': ops.H, 'X': ops.X, 'Y': ops.Y, 'Z': ops.Z, 'S': ops.S, 'T': ops.T, 'SqrtX': ops.SqrtX, 'Sdag': ops.Sdag,
         'Tdag': ops.Tdag, 'SqrtXdag': DaggeredGate(ops.SqrtX), 'Swap': ops.Swap, 'SqrtSwap': ops.SqrtSwap,
         'SqrtSwapdag': DaggeredGate(ops.SqrtSwap)}
ROT = {'Rx': ops.Rx, 'Ry': ops.Ry, 'Rz': ops.Rz, 'Ph': ops.Ph, 'R': ops.R, 'Rxx': ops.Rxx, 'Ryy': ops.Ryy,
       'Rzz': ops.Rzz}
UCR = {'UCRy': ops.UniformlyControlledRy, 'UCRz': ops.UniformlyControlledRz}
MATRIX_GATES = list(FIXED) + list(ROT)
F = 'projectq.ops.'
FUNCS = [F + '_basics.BasicGate.get_merged', F + '_basics.BasicRotationGate.get_merged',
         F + '_basics.BasicPhaseGate.get_merged', F + '_basics.BasicGate.__eq__', F + '_basics.BasicRotationGate.__eq__',
         F + '_basics.BasicPhaseGate.__eq__', F + '_metagates.DaggeredGate.__eq__']


def simple(vc, tag):
    """A gate with an operator of its own; parameters symbolic."""
    name = vc.choose('g' + tag, MATRIX_GATES)
    if name in FIXED:
        return FIXED[name]
    return ROT[name](vc.angle('angle' + tag))


def op(vc, g, sizes=(1,)):
    return W.gate_op(W.nb(vc), g, sizes)[1]


def check_merge(vc, g1, g2, sizes):
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        vc.ensure('refusing to merge is allowed', True)
        return None
    want = W.matmul(op(vc, g2, sizes), op(vc, g1, sizes))
    vc.mat_eq('merged gate is the second after the first', op(vc, m, sizes), want)
    return m


@contract(P, FUNCS, samples=600, weight=3)
def merge_simple_pairs(vc):
    g1, g2 = simple(vc, '1'), simple(vc, '2')
    u1, u2 = op(vc, g1), op(vc, g2)
    m = check_merge(vc, g1, g2, (1,))
    if m is not None:
        vc.ensure('a new gate is returned', m is not g1 and m is not g2)
    vc.mat_eq('first gate unchanged', op(vc, g1), u1)
    vc.mat_eq('second gate unchanged', op(vc, g2), u2)


@contract(P, FUNCS + [F + '_metagates.DaggeredGate.__hash__', F + '_basics.BasicGate.__hash__',
                      F + '_basics.BasicRotationGate.__hash__', F + '_basics.BasicPhaseGate.__hash__'],
          samples=600, weight=3)
def equality_simple_pairs(vc):
    g1, g2 = simple(vc, '1'), simple(vc, '2')
    if g1 == g2:
        vc.mat_eq('equal gates implement the same operator', op(vc, g1), op(vc, g2))
        vc.ensure('equal gates hash equally', hash(g1) == hash(g2))
        vc.ensure('equality is consistent with !=', not g1 != g2)
    else:
        vc.ensure('a gate equals itself', g1 is not g2)


@contract(P, [F + '_basics.BasicRotationGate.is_identity', F + '_basics.BasicGate.is_identity',
              F + '_metagates.is_identity'], samples=400)
def identity_simple(vc):
    """is_identity is only claimed for gates acting as the identity; zero rotations are recognised."""
    g = simple(vc, '')
    if ops.is_identity(g):
        m = op(vc, g)
        vc.mat_eq('a gate claiming to be the identity is the identity', m, W.ident(W.nb(vc), len(m)))
    else:
        vc.ensure('no claim made', True)


def _small(vc, cls, period):
    """Rotation by (nearly) a full period: the constructor plus is_identity (real constructor, rounding included)."""
    a = vc.real('a')
    g = cls(a)
    if ops.is_identity(g):
        PI = num.PI if vc.symbolic else math.pi
        # the angle is within the tolerance of a multiple of the period
        if vc.symbolic:
            mods = vc.ghost.get('mods')
            d = a - (mods[0][2] * PI * period if mods else 0)
            # d in [0, period)
            vc.ensure('an identity rotation has an angle near a multiple of the period',
                      (d <= 2e-12) | (PI * period - d <= 2e-12))
        else:
            d = a % (period * math.pi)
            vc.ensure('an identity rotation has an angle near a multiple of the period',
                      min(d, period * math.pi - d) < 3e-12)
    else:
        vc.ensure('no claim made', True)


@contract(P, [F + '_basics.BasicRotationGate.is_identity', F + '_basics.BasicRotationGate.__init__'], raw_ctor=True,
          samples=400)
def identity_rounding(vc):
    _small(vc, vc.choose('cls', [ops.Rx, ops.Ry, ops.Rz, ops.Rxx, ops.Ryy, ops.Rzz]), 4)


@contract(P, [F + '_uniformly_controlled_rotation.UniformlyControlledRy.get_merged',
              F + '_uniformly_controlled_rotation.UniformlyControlledRz.get_merged',
              F + '_uniformly_controlled_rotation.UniformlyControlledRy.__eq__',
              F + '_uniformly_controlled_rotation.UniformlyControlledRz.__eq__'], samples=300, raw_ctor=True,
          size_bound='angle lists of length 1, 2 (merging: position-wise sum modulo 4 pi), all angles')
def ucr_pairs(vc):
    c1, c2 = vc.choose('c1', list(UCR)), vc.choose('c2', list(UCR))
    n1, n2 = vc.choose('n1', [1, 2]), vc.choose('n2', [1, 2])
    PI = num.PI if vc.symbolic else math.pi
    a1 = [vc.real('a', 0, 12) for _ in range(n1)]
    a2 = [vc.real('b', 0, 12) for _ in range(n2)]
    g1, g2 = UCR[c1](a1), UCR[c2](a2)
    s1, s2 = list(g1.angles), list(g2.angles)
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        m = None
        vc.ensure('refusing to merge is allowed', True)
    if m is not None:
        vc.ensure('only gates of the same kind and size are merged',
                  c1 == c2 and n1 == n2 and type(m) is UCR[c1] and len(m.angles) == n1)
        for x, y, z in zip(s1, s2, m.angles):
            d = x + y - z
            ok = [_in(vc, d - 4 * PI * k, 1e-11) for k in (-1, 0, 1, 2)]
            vc.ensure('merged angles are the sums', ok[0] | ok[1] | ok[2] | ok[3])
    if g1 == g2:
        vc.ensure('equal gates have the same kind and size', c1 == c2 and n1 == n2)
        for x, y in zip(s1, s2):
            vc.eq('equal gates have equal angles', x, y)
        if not vc.symbolic:
            vc.ensure('equal gates hash equally', hash(g1) == hash(g2))
    vc.ensure('operands unchanged', len(g1.angles) == n1 and len(g2.angles) == n2)
    for x, y in zip(s1 + s2, list(g1.angles) + list(g2.angles)):
        vc.eq('operands unchanged', x, y)


def _in(vc, d, tol):
    return (d <= tol) & (d >= -tol) if vc.symbolic else abs(d) <= tol


@bounded(P, [F + '_uniformly_controlled_rotation.UniformlyControlledRy.__eq__',
             F + '_uniformly_controlled_rotation.UniformlyControlledRz.__hash__'],
         'angle lists of length 1, 2, 4 over six special angles', samples=300)
def ucr_equal_hash(vc):
    """Equal angle lists give equal gates and hashes; is_identity makes no false claim."""
    cls = UCR[vc.choose('c', list(UCR))]
    n = vc.choose('n', [1, 2, 4])
    a = [vc.choose('a', [0.0, 0.5, 2 * math.pi, 4 * math.pi, -0.5, 1e-13]) for _ in range(n)]
    g, h = cls(a), cls(list(a))
    vc.ensure('same angles, equal gates', bool(g == h) and hash(g) == hash(h))
    if ops.is_identity(g):
        vc.ensure('identity claims are right', all(x == 0 for x in g.angles))


# --- Pauli sums and time evolution --------------------------------------------------------------------------------------
STR = ['', 'X0', 'Y0', 'Z0', 'X1', 'X0 Y1', 'Z0 Z1', 'Y0 Z1 X2', 'Z2']


@contract(P, [F + '_qubit_operator.QubitOperator.get_merged', F + '_qubit_operator.QubitOperator.__imul__',
              F + '_qubit_operator.QubitOperator.__mul__'], samples=300, weight=2)
def pauli_merge(vc):
    """Single strings with arbitrary complex coefficients; also sums of two strings."""
    def mk(tag):
        k = vc.pick('terms' + tag, 2) + 1
        g = ops.QubitOperator()
        strs = []
        for i in range(k):
            s = vc.choose(f's{tag}{i}', STR if k == 1 else STR[1:6])
            if s in strs:
                return None
            strs.append(s)
            g += ops.QubitOperator(s, vc.cplx(f'c{tag}{i}'))
        return g
    g1 = mk('1')
    g2 = mk('2')
    if g1 is None or g2 is None:
        return
    u1, u2 = W.qubitop_matrix(W.nb(vc), g1, 3), W.qubitop_matrix(W.nb(vc), g2, 3)
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        vc.ensure('refusing to merge is allowed', True)
        return
    vc.mat_eq('merged operator is the second after the first', W.qubitop_matrix(W.nb(vc), m, 3), W.matmul(u2, u1))
    vc.mat_eq('first operator unchanged', W.qubitop_matrix(W.nb(vc), g1, 3), u1)
    vc.mat_eq('second operator unchanged', W.qubitop_matrix(W.nb(vc), g2, 3), u2)


@contract(P, [F + '_qubit_operator.QubitOperator.__eq__', F + '_qubit_operator.QubitOperator.is_identity'], samples=300)
def pauli_equality(vc):
    s1, s2 = vc.choose('s1', STR), vc.choose('s2', STR)
    c1, c2 = vc.cplx('c1'), vc.cplx('c2')
    g1, g2 = ops.QubitOperator(s1, c1), ops.QubitOperator(s2, c2)
    if g1 == g2:
        vc.mat_eq('equal operators are the same operator', W.qubitop_matrix(W.nb(vc), g1, 3),
                  W.qubitop_matrix(W.nb(vc), g2, 3))
        if not vc.symbolic:
            vc.ensure('equal operators hash equally', hash(g1) == hash(g2))
    else:
        vc.ensure('no claim', True)
    if ops.is_identity(g1):
        vc.mat_eq('identity claims are right', W.qubitop_matrix(W.nb(vc), g1, 3), W.ident(W.nb(vc), 8))


@bounded(P, [F + '_qubit_operator.QubitOperator.__eq__', F + '_qubit_operator.QubitOperator.__hash__'],
         'Pauli sums of up to 4 terms built in different term orders', samples=300)
def pauli_equality_native(vc):
    n = vc.pick('n', 4) + 1
    terms = [(vc.choose('s', STR), complex(vc.choose('c', [1, -1, 0.5, 1j, 0]))) for _ in range(n)]
    a, b = ops.QubitOperator(), ops.QubitOperator()
    for s, c in terms:
        a += ops.QubitOperator(s, c)
    for s, c in reversed(terms):
        b += ops.QubitOperator(s, c)
    if vc.flag('change'):
        b += ops.QubitOperator(vc.choose('s', STR), 0.25)
    if a == b:
        vc.mat_eq('equal operators are the same operator', W.qubitop_matrix(W.Float, a, 3),
                  W.qubitop_matrix(W.Float, b, 3))
        vc.ensure('equal operators hash equally', hash(a) == hash(b))


@contract(P, [F + '_time_evolution.TimeEvolution.get_merged', F + '_time_evolution.TimeEvolution.__eq__'], samples=300)
def time_evolution_merge(vc):
    """Same Hamiltonian up to a factor k: merged evolution time is t1 + k*t2 under the first Hamiltonian."""
    t1, t2 = vc.real('t1', -3, 3), vc.real('t2', -3, 3)
    k = vc.real('k', -3, 3)
    if not vc.symbolic and abs(k) < 1e-3:
        return
    vc.assume(k != 0)
    cs = [0.5, -1.25, 2.0][: vc.pick('terms', 3) + 1]
    h1, h2 = ops.QubitOperator(), ops.QubitOperator()
    for i, c in enumerate(cs):
        key = ((i, 'X'), (i + 1, 'Z'))
        h1.terms[key] = c
        h2.terms[key] = k * c
    g1, g2 = ops.TimeEvolution(t1, h1), ops.TimeEvolution(t2, h2)
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        vc.ensure('refusing to merge is allowed', True)
        return
    # exp(-i t2 k H1) exp(-i t1 H1) = exp(-i (t1 + k t2) H1)
    vc.ensure('a time evolution', isinstance(m, ops.TimeEvolution))
    vc.ensure('same terms', set(m.hamiltonian.terms) == set(h1.terms))
    for key in h1.terms:
        vc.eq('merged evolution is the second after the first', m.time * m.hamiltonian.terms[key],
              (t1 + k * t2) * h1.terms[key])
    vc.eq('operands unchanged', g1.time, t1)
    vc.eq('operands unchanged', g2.time, t2)


@contract(P, [F + '_time_evolution.TimeEvolution.get_merged'], samples=300,
          assumptions=('TimeEvolution.get_merged treats coefficient ratios within 1e-9 as equal (documented)',))
def time_evolution_not_proportional(vc):
    """Two terms with independent coefficients: merging only when they are proportional (up to 1e-9)."""
    a, b, c, d = (vc.real(x, -3, 3) for x in 'abcd')
    h1, h2 = ops.QubitOperator(), ops.QubitOperator()
    k1, k2 = ((0, 'X'),), ((0, 'Z'),)
    h1.terms[k1], h1.terms[k2] = a, b
    h2.terms[k1], h2.terms[k2] = c, d
    g1, g2 = ops.TimeEvolution(1.0, h1), ops.TimeEvolution(1.0, h2)
    try:
        g1.get_merged(g2)
    except ops.NotMergeable:
        vc.ensure('refusing to merge is allowed', True)
        return
    # a/c and b/d agree to 1e-9 relative:  |a d - b c| <= 1e-9 max(|a d|, |b c|)
    x, y = a * d, b * c
    if vc.symbolic:
        vc.ensure('only proportional Hamiltonians are merged', ((x - y <= 1.1e-9 * x) | (x - y <= -1.1e-9 * x) |
                                                                 (x - y <= 1.1e-9 * y) | (x - y <= -1.1e-9 * y)) &
                  ((y - x <= 1.1e-9 * x) | (y - x <= -1.1e-9 * x) | (y - x <= 1.1e-9 * y) | (y - x <= -1.1e-9 * y)))
    else:
        vc.ensure('only proportional Hamiltonians are merged', abs(x - y) <= 1.1e-9 * max(abs(x), abs(y)) + 1e-300)


@contract(P, [F + '_time_evolution.TimeEvolution.get_merged'], samples=60,
          size_bound='Hamiltonians of at most two terms with coefficients which may vanish')
def time_evolution_degenerate(vc):
    """Vanishing coefficients and empty Hamiltonians: merged to the product or refused, nothing else."""
    t1, t2 = vc.real('t1', -3, 3), vc.real('t2', -3, 3)
    h1, h2 = ops.QubitOperator(), ops.QubitOperator()
    for key in [((0, 'X'),), ((0, 'Z'),)][: vc.pick('terms', 3)]:
        h1.terms[key] = vc.choose('c', [0.0, 0.5, -1.0])
        h2.terms[key] = vc.choose('c', [0.0, 0.5, -1.0])
    g1, g2 = ops.TimeEvolution(t1, h1), ops.TimeEvolution(t2, h2)
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        vc.ensure('refusing to merge is allowed', True)
        return
    vc.ensure('same terms', set(m.hamiltonian.terms) == set(h1.terms))
    for key in h1.terms:
        vc.eq('merged evolution is the second after the first', m.time * m.hamiltonian.terms[key],
              t1 * h1.terms[key] + t2 * h2.terms[key])


@bounded(P, [F + '_time_evolution.TimeEvolution.get_merged', F + '_time_evolution.TimeEvolution.__eq__',
             F + '_time_evolution.TimeEvolution.__hash__', F + '_time_evolution.TimeEvolution.is_identity'],
         'pairs of Hamiltonians of up to 3 terms on 2 qubits, drawn near-proportional', samples=300)
def time_evolution_pairs(vc):
    terms = [vc.choose('s', ['X0', 'Z0', 'Z0 Z1', 'Y1', '']) for _ in range(vc.pick('n', 3) + 1)]
    h1, h2 = ops.QubitOperator(), ops.QubitOperator()
    f = vc.choose('f', [1.0, -2.0, 0.5])
    for s in terms:
        c = vc.choose('c', [1.0, -0.5, 2.0])
        h1 += ops.QubitOperator(s, c)
        h2 += ops.QubitOperator(s, c * (f if vc.pick('same', 4) else 1.5))
    if vc.pick('drop', 4) == 0:
        h2 += ops.QubitOperator('X1', 1.0)
    g1, g2 = ops.TimeEvolution(vc.choose('t', [0.3, -1.0, 0]), h1), ops.TimeEvolution(vc.choose('t', [0.7, 0.3]), h2)
    u1, u2 = W.timeevo_matrix(W.Float, g1, 2), W.timeevo_matrix(W.Float, g2, 2)
    if g1 == g2:
        vc.mat_eq('equal gates implement the same operator', u1, u2)
        vc.ensure('equal gates hash equally', hash(g1) == hash(g2))
    if ops.is_identity(g1):
        vc.mat_eq('identity claims are right', u1, W.ident(W.Float, 4))
    try:
        m = g1.get_merged(g2)
    except ops.NotMergeable:
        return
    vc.mat_eq('merged gate is the second after the first', W.timeevo_matrix(W.Float, m, 2), W.matmul(u2, u1))


# --- everything else: mixed zoo --------------------------------------------------------------------------------------------
def den(g):
    """Structural denotation of gates without a matrix: two gates are the same operation iff these are."""
    t = type(g)
    n = t.__name__
    if isinstance(g, DaggeredGate):
        return ('dag', den(g._gate))
    if isinstance(g, ops.ControlledGate):
        return ('c', g._n, den(g._gate))
    if isinstance(g, ops.Tensor):
        return ('tensor', den(g._gate))
    if n == 'MatrixGate':
        return ('mat', tuple(tuple(complex(round(x.real, 8), round(x.imag, 8)) for x in r) for r in g.matrix.tolist()))
    if n in ('Rx', 'Ry', 'Rz', 'Ph', 'R', 'Rxx', 'Ryy', 'Rzz'):
        return (n, round(g.angle, 9))
    if n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        return (n, tuple(round(x, 9) for x in g.angles))
    if n == 'QubitOperator':
        return (n, frozenset((k, complex(v)) for k, v in g.terms.items() if abs(v) > 1e-12))
    if n == 'TimeEvolution':
        return (n, round(g.time, 12), den(g.hamiltonian))
    if n == 'StatePreparation':
        return (n, tuple(complex(x) for x in g.final_state))
    if n == 'FlipBits':
        return (n, g.bits_to_flip)
    if n in ('AddConstant',):
        return (n, g.a)
    if n in ('AddConstantModN', 'MultiplyByConstantModN'):
        return (n, g.a, g.N)
    if n == 'QPE':
        u = g.unitary
        return (n, den(u) if isinstance(u, ops.BasicGate) else u)
    if n == 'QAA':
        return (n, g.algorithm, g.oracle)
    if n == 'BasicMathGate':
        return (n, tuple(tuple(g.get_math_function(None)([x])) for x in range(12)))
    return (n,)


def _inner_fun(x):
    return (x + 1,)


def _fun2(x):
    return (x + 2,)


def zoo(vc, tag, depth=2):
    """Any gate of the library, with small parameters so that near-equal pairs are drawn often."""
    kinds = ['fixed', 'rot', 'ucr', 'pauli', 'te', 'prep', 'flip', 'add', 'addmod', 'mulmod', 'arith', 'qft', 'entangle',
             'qpe', 'qaa', 'math', 'matrix', 'measure', 'flush', 'alloc', 'barrier']
    if depth:
        kinds += ['dag', 'c', 'tensor'] * 2
    k = vc.choose('kind' + tag, kinds)
    if k == 'fixed':
        return FIXED[vc.choose('n' + tag, list(FIXED))]
    if k == 'rot':
        return ROT[vc.choose('n' + tag, list(ROT))](vc.choose('a' + tag, [0, 0.5, math.pi, 2 * math.pi, -0.5, 3 * math.pi]))
    if k == 'ucr':
        return UCR[vc.choose('n' + tag, list(UCR))]([vc.choose('a' + tag, [0, 0.5, -0.5]) for _ in range(vc.choose('l' + tag, [1, 2]))])
    if k == 'pauli':
        g = ops.QubitOperator(vc.choose('s' + tag, STR[:4]), vc.choose('c' + tag, [1, 1j, -1]))
        if vc.flag('two' + tag):
            g += ops.QubitOperator('Z1', vc.choose('c' + tag, [1, 0.5]))
        return g
    if k == 'te':
        return ops.TimeEvolution(vc.choose('t' + tag, [0, 1.0, 2]), ops.QubitOperator(vc.choose('s' + tag, STR[:3]), vc.choose('c' + tag, [1, 0.5])))
    if k == 'prep':
        return ops.StatePreparation(vc.choose('v' + tag, [[1, 0], [0, 1], [0, 1j], [0.6, 0.8], (0.6, 0.8)]))
    if k == 'flip':
        return ops.FlipBits(vc.choose('b' + tag, [0, 1, 3, [1, 0], [1, 1], -1]))
    if k == 'add':
        return pqmath.AddConstant(vc.choose('a' + tag, [0, 1, -1]))
    if k == 'addmod':
        return pqmath.AddConstantModN(vc.choose('a' + tag, [0, 1, 2]), vc.choose('N' + tag, [5, 7]))
    if k == 'mulmod':
        return pqmath.MultiplyByConstantModN(vc.choose('a' + tag, [1, 2]), vc.choose('N' + tag, [5, 7]))
    if k == 'arith':
        return vc.choose('n' + tag, [pqmath.AddQuantum, pqmath.SubtractQuantum, pqmath.ComparatorQuantum,
                                     pqmath.DivideQuantum, pqmath.MultiplyQuantum, pqmath.AddQuantum.get_inverse(),
                                     pqmath.DivideQuantum.get_inverse(), pqmath.MultiplyQuantum.get_inverse()])
    if k == 'qpe':
        return ops.QPE(vc.choose('u' + tag, [ops.X, ops.Rz(0.5), ops.Rz(0.25), _inner_fun, _fun2]))
    if k == 'qaa':
        return ops.QAA(vc.choose('a' + tag, [_inner_fun, _fun2]), vc.choose('o' + tag, [_inner_fun, _fun2]))
    if k == 'math':
        return ops.BasicMathGate(vc.choose('f' + tag, [_inner_fun, _fun2]))
    if k == 'matrix':
        return ops.MatrixGate(vc.choose('m' + tag, [[[0, 1], [1, 0]], [[1, 0], [0, 1]], [[1, 0], [0, 1j]],
                                                    [[1, 0], [0, 1 + 1e-13]], [[1, 0], [0, 1 - 1e-6]]]))
    if k == 'dag':
        return DaggeredGate(zoo(vc, tag + 'i', depth - 1))
    if k == 'c':
        return ops.C(zoo(vc, tag + 'i', depth - 1), vc.choose('n' + tag, [1, 2]))
    if k == 'tensor':
        return ops.Tensor(zoo(vc, tag + 'i', depth - 1))
    return {'qft': ops.QFT, 'entangle': ops.Entangle, 'measure': ops.Measure, 'flush': ops.FlushGate(),
            'alloc': ops.Allocate, 'barrier': ops.Barrier}[k]


def _same(g1, g2):
    a, b = den(g1), den(g2)
    if a == b:
        return True
    for x, y in ((g1, g2), (g2, g1)):
        if type(x).__name__ == 'MatrixGate':
            import numpy as np
            m = getattr(y, 'matrix', None)
            return m is not None and x.matrix.shape == m.shape and bool(np.allclose(x.matrix, m, rtol=1e-9, atol=1e-11))
    return False


@bounded(P, [F + '_basics', F + '_metagates', F + '_qpegate', F + '_qaagate', F + '_state_prep', F + '_gates.FlipBits',
             'projectq.libs.math._gates'], 'pairs drawn from all gate classes with few parameter values', samples=4000,
         thorough=60000, weight=2)
def zoo_pairs(vc):
    import copy
    g1 = zoo(vc, '1')
    g2 = zoo(vc, '2') if vc.pick('other', 4) else copy.deepcopy(g1)
    if type(g2) is type(g1) or vc.pick('x', 2):
        try:
            e = g1 == g2
        except TypeError:
            return
        if e:
            vc.ensure('equal gates are the same operation', _same(g1, g2), f'{den(g1)} == {den(g2)}')
            if 'mat' not in str(den(g1)) and 'mat' not in str(den(g2)):
                try:
                    h1, h2 = hash(g1), hash(g2)
                except TypeError:
                    return
                vc.ensure('equal gates hash equally', h1 == h2, f'{den(g1)}')
        elif den(g1) == den(g2):
            # not required, but a copy of a gate without free functions must not be different from it by accident
            vc.ensure('no claim', True)


def _terms(vc, letters, sizes, paulis='XYZ'):
    out = {}
    for _ in range(sizes):
        t = tuple((q, vc.choose('letter', paulis)) for q in range(letters) if vc.pick('in', 3))
        out[t or ((0, 'X'),)] = vc.choose('coefficient', [0.5, -1.25, 0.125, 2.0, 1.75])
    return out


def _sum(terms):
    op = ops.QubitOperator()
    for t, c in terms.items():
        op += ops.QubitOperator(t, c)
    return op


@bounded(P, [F + '_uniformly_controlled_rotation', F + '_time_evolution.TimeEvolution', F + '_qubit_operator.QubitOperator', F + '_basics', F + '_state_prep',
             F + '_gates.FlipBits', 'projectq.libs.math._gates'],
         'angle lists of up to 64 angles, Pauli strings of up to 12 factors, Hamiltonians of up to 6 terms on up to 6 qubits, states of up to 32 amplitudes, '
         'matrices of up to 16 rows, constants and bit strings of up to 100 bits; the second gate differs from the first in one place or none', samples=1500,
         thorough=20000)
def large_pairs(vc):
    """Gates with many parameters: a difference in any one of them is seen; merging adds all of them."""
    kind = vc.choose('kind', ['ucr', 'pauli', 'evolve', 'prep', 'flip', 'number', 'matrix'])
    change = vc.flag('differs')
    if kind == 'ucr':
        cls, n = UCR[vc.choose('class', list(UCR))], 1 << vc.pick('size', 7)
        a = [vc.choose('angle', [0.5, 1.25, 3.0, -0.75, 0.0]) for _ in range(n)]
        b = list(a)
        if change:
            b[vc.pick('place', n)] += vc.choose('by', [1e-3, 0.25, math.pi, 2 * math.pi])
        g1, g2 = cls(a), cls(b)
        m = g1.get_merged(g2)
        vc.ensure('merged angles are the sums', type(m) is cls and len(m.angles) == n and all(
            min(abs((x + y - z) % (4 * math.pi)), 4 * math.pi - (x + y - z) % (4 * math.pi)) < 1e-9 for x, y, z in zip(a, b, m.angles)))
        zero = [0.0] * n
        if change:
            zero[vc.pick('place', n)] = 2 * math.pi if vc.flag('sign') else 0.5
        vc.ensure('only the identity is an identity', not (change and ops.is_identity(cls(zero))))
        if change:
            for k in (n * 2, n // 2):
                if k:
                    vc.ensure('lists of other lengths are different', not bool(g1 == cls((a + a)[:k])))
    elif kind == 'pauli':
        t = list(_terms(vc, 12, 1).items())[0][0]
        u = list(t)
        if change:
            k = vc.pick('place', len(t))
            u[k] = (u[k][0] + 40, u[k][1]) if vc.flag('qubit') else (u[k][0], {'X': 'Y', 'Y': 'Z', 'Z': 'X'}[u[k][1]])
        g1, g2 = ops.QubitOperator(t, vc.choose('c', [1, -1, 1j])), ops.QubitOperator(tuple(u), vc.choose('d', [1, -1, 1j]))
        c, d = g1.terms[t], list(g2.terms.values())[0]
        try:
            m = g1.get_merged(g2)
        except ops.NotMergeable:
            m = None
        if m is not None:
            want = ops.QubitOperator(tuple(u), d) * ops.QubitOperator(t, c)
            vc.ensure('merged strings are the product', m.isclose(want), f'{m} / {want}')
        change = change or abs(c - d) > 1e-9
        vc.ensure('only the identity is an identity', not ops.is_identity(g1))
    elif kind == 'evolve':
        n = 1 + vc.pick('qubits', 6)
        t = _terms(vc, n, 1 + vc.pick('terms', 6))
        u = dict(t)
        if change:
            key = list(u)[vc.pick('place', len(u))]
            if vc.flag('scaled') or len(u) == 1:
                u[key] *= 1.5
            else:
                c = u.pop(key)
                u[((20, 'Z'),)] = c
        same, ratio = not change, 1.0
        if vc.flag('multiple'):
            ratio = vc.choose('ratio', [2.0, -0.5])
            u = {k: ratio * v for k, v in u.items()}
        t1, t2 = vc.choose('t1', [0.25, 1.0, -2.0]), vc.choose('t2', [0.25, 1.0, -2.0])
        g1, g2 = ops.TimeEvolution(t1, _sum(t)), ops.TimeEvolution(t2, _sum(u))
        try:
            m = g1.get_merged(g2)
        except ops.NotMergeable:
            m = None
        keys = set(t) | set(u)
        if m is not None:
            got = {k: m.time * v for k, v in m.hamiltonian.terms.items()}
            want = {k: t1 * t.get(k, 0) + t2 * u.get(k, 0) for k in keys}
            vc.ensure('the merged evolution is the sum', set(got) <= keys and all(abs(got.get(k, 0) - want[k]) < 1e-9 for k in keys), f'{got} / {want}')
            vc.ensure('only multiples of a Hamiltonian are merged', same or len(t) == 1 and set(t) == set(u), f'{t} / {u}')
        change = any(abs(t1 * t.get(k, 0) - t2 * u.get(k, 0)) > 1e-9 for k in keys)
    elif kind == 'prep':
        n = 1 << vc.pick('qubits', 6)
        v = [vc.choose('amplitude', [1.0, 0.5, -1.0, 1j, 0.0]) for _ in range(n)]
        v[0] = v[0] or 1.0
        norm = math.sqrt(sum(abs(x) ** 2 for x in v))
        v = [x / norm for x in v]
        w = list(v)
        if change:
            k = vc.pick('place', n)
            w[k] = -w[k] if w[k] else 1e-3
        g1, g2 = ops.StatePreparation(v), ops.StatePreparation(w)
    elif kind == 'flip':
        n = 1 + vc.pick('bits', 100)
        bits = [vc.pick('bit', 2) for _ in range(n)]
        other = list(bits)
        if change:
            other[vc.pick('place', n)] ^= 1
        give = [lambda x: list(x), lambda x: sum(b << k for k, b in enumerate(x)), lambda x: tuple(bool(b) for b in x)]
        g1, g2 = ops.FlipBits(give[vc.pick('as', 3)](bits)), ops.FlipBits(give[vc.pick('as', 3)](other))
    elif kind == 'number':
        def big(name):
            x = 0
            for _ in range(1 + vc.pick(name + ' words', 5)):
                x = x << 20 | vc.pick(name, 1 << 20)
            return x
        n = big('modulus') + 3
        a, b = 1 + big('constant') % (n - 1), 1 + big('other') % (n - 1)
        c = (a + (1 << vc.pick('bit', n.bit_length())) * (1 if vc.flag('up') else -1)) if change else a
        how = vc.choose('how', ['add', 'addmod', 'mulmod', 'modulus'])
        if how == 'add':
            c, sign = (c, vc.choose('sign', [1, -1]))
            g1, g2 = pqmath.AddConstant(sign * a), pqmath.AddConstant(sign * c)
        elif how == 'modulus':
            cls = vc.choose('class', [pqmath.AddConstantModN, pqmath.MultiplyByConstantModN])
            g1, g2 = cls(b, n), cls(b, n + (1 << vc.pick('bit', 60)) if change else n)
        else:
            cls = {'addmod': pqmath.AddConstantModN, 'mulmod': pqmath.MultiplyByConstantModN}[how]
            g1, g2 = cls(a, n), cls(c, n)
            change = bool((a - c) % n)
            if c != a and not change:
                return      # the same function, written differently
    else:
        import numpy as np
        d = 2 << vc.pick('qubits', 4)
        rng = np.random.default_rng(vc.pick('seed', 1 << 20))
        m = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))[0]
        o = m.copy()
        if change:
            o[:, vc.pick('column', d)] *= np.exp(1j * vc.choose('phase', [1e-3, 1.0, math.pi]))
        g1, g2 = ops.MatrixGate(np.matrix(m)), ops.MatrixGate(np.matrix(o))
        e = np.identity(d, dtype=complex)
        k = vc.pick('column', d)
        e[k, k] = -1 if vc.flag('sign') else np.exp(1e-3j)
        vc.ensure('only the identity is an identity', not ops.is_identity(ops.MatrixGate(np.matrix(e))))
    if change:
        vc.ensure('gates which differ in one place are not equal', not bool(g1 == g2), f'{kind}: {g1} / {g2}')
    elif bool(g1 == g2) and kind not in ('evolve', 'pauli', 'matrix'):
        vc.ensure('equal gates hash equally', hash(g1) == hash(g2), kind)
    elif kind in ('ucr', 'prep', 'flip', 'number'):
        vc.ensure('gates with the same parameters are equal', False, f'{kind}: {g1} / {g2}')


@bounded(P, [F + '_basics.BasicGate.get_merged', F + '_metagates'],
         'pairs drawn from all gate classes; merging only with an operator known to be the product', samples=2500)
def zoo_merge(vc):
    g1, g2 = zoo(vc, '1', 1), zoo(vc, '2', 1)
    if ops.is_identity(g1):
        d = den(g1)
        vc.ensure('identity claims are right', d[0] in ('Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'Ph', 'R',
                                                        'UniformlyControlledRy', 'UniformlyControlledRz',
                                                        'QubitOperator', 'TimeEvolution', 'AddConstant',
                                                        'AddConstantModN', 'MultiplyByConstantModN', 'FlipBits',
                                                        'BarrierGate', 'mat', 'dag', 'c', 'tensor'), str(d))
    try:
        m = g1.get_merged(g2)
    except (ops.NotMergeable, TypeError):
        return
    sizes = None
    for s in ([1], [2], [3], [1, 1], [2, 2], [2, 1]):
        try:
            a, b, c = (W.gate_op(W.Float, g, s) for g in (g1, g2, m))
        except (W.NoRef, IndexError, AssertionError):
            continue
        if a[0] == b[0] == c[0] == 'mat':
            try:
                vc.mat_eq('merged gate is the second after the first', c[1], W.matmul(b[1], a[1]))
                sizes = s
            except IndexError:
                continue
            break
    del sizes
