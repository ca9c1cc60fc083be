"""G01: gates are unitary and their inverse is the exact adjoint."""
import math

from pv import num
from pv import world as W
from pv.core import bounded, contract
from pv.num import Num, Unsupported

import projectq.ops as ops
from projectq.libs import math as pqmath
from projectq.ops import _basics
from projectq.ops._time_evolution import NotHermitianOperatorError
from projectq.ops._metagates import DaggeredGate, get_inverse

P = 'G01'
MOD = 'projectq.ops._gates.'
GATES = {'HGate': ops.H, 'XGate': ops.X, 'YGate': ops.Y, 'ZGate': ops.Z, 'SGate': ops.S, 'TGate': ops.T,
         'SqrtXGate': ops.SqrtX, 'SwapGate': ops.Swap, 'SqrtSwapGate': ops.SqrtSwap}
ROT = {'Rx': ops.Rx, 'Ry': ops.Ry, 'Rz': ops.Rz, 'Ph': ops.Ph, 'R': ops.R, 'Rxx': ops.Rxx, 'Ryy': ops.Ryy,
       'Rzz': ops.Rzz}
TRUSTED = ['numpy matrix arithmetic on object arrays, numpy.linalg.inv (MatrixGate inverse, bounded only)']
ASSUMPTIONS = ['floating-point rounding treated as exact real arithmetic in the deductive part',
               'a float literal within 1e-11 of a rational multiple of pi (denominator <= 1024) denotes that multiple',
               'round(x, 12) returns some real within 0.5e-12 of x with the sign of x']


def matrix_of(vc, g):
    """The matrix a gate exposes, as nested lists."""
    return g.matrix.tolist()


def is_unitary(vc, name, m):
    B = W.nb(vc)
    vc.mat_eq(name, W.matmul(m, W.dagger(B, m)), W.ident(B, len(m)))


@contract(P, [MOD + n + '.matrix' for n in GATES] + ['projectq.ops._metagates.get_inverse',
                                                     'projectq.ops._metagates.DaggeredGate.__init__',
                                                     'projectq.ops._basics.SelfInverseGate.get_inverse'], samples=40)
def fixed_gates(vc):
    name = vc.choose('gate', list(GATES))
    g = GATES[name]
    B = W.nb(vc)
    ref = W.ref_matrix(B, name)
    vc.cover()
    vc.mat_eq('matrix is the documented operator', matrix_of(vc, g), ref)
    is_unitary(vc, 'matrix is unitary', matrix_of(vc, g))
    inv = get_inverse(g)
    vc.mat_eq('inverse is the adjoint', matrix_of(vc, inv), W.dagger(B, ref))
    inv2 = get_inverse(inv)
    vc.mat_eq('inverse of the inverse is the gate', matrix_of(vc, inv2), ref)
    vc.mat_eq('the gate itself is unchanged', matrix_of(vc, g), ref)
    fresh = type(g)()
    vc.mat_eq('inverse of a fresh instance', matrix_of(vc, get_inverse(fresh)), W.dagger(B, ref))


@contract(P, [MOD + n + '.matrix' for n in ROT] + ['projectq.ops._basics.BasicRotationGate.get_inverse',
                                                   'projectq.ops._basics.BasicPhaseGate.get_inverse'], samples=300)
def rotation_gates(vc):
    """Uses the constructor contract (rotation_ctor): the stored angle is the given one modulo the period."""
    name = vc.choose('gate', list(ROT))
    a = vc.angle('a')
    g = ROT[name](a)
    B = W.nb(vc)
    ref = W.ref_matrix(B, name, a)
    vc.cover()
    vc.mat_eq('matrix is the documented operator', matrix_of(vc, g), ref)
    is_unitary(vc, 'matrix is unitary', matrix_of(vc, g))
    inv = get_inverse(g)
    vc.ensure('inverse is a gate of the same kind', type(inv) is type(g))
    vc.mat_eq('inverse is the adjoint', matrix_of(vc, inv), W.dagger(B, ref))
    vc.mat_eq('inverse of the inverse is the gate', matrix_of(vc, get_inverse(inv)), ref)
    d = DaggeredGate(g)
    vc.mat_eq('daggered gate is the adjoint', d.matrix.tolist(), W.dagger(B, ref))
    vc.mat_eq('the gate itself is unchanged', matrix_of(vc, g), ref)


def _ctor(vc, cls, period):
    """|stored - (angle - k*period)| <= 2e-12 for an integer k, 0 <= stored < period."""
    a = vc.real('a')
    PI = num.PI if vc.symbolic else math.pi
    per = PI * period
    g = cls(a)
    vc.cover()
    st = g.angle
    vc.ensure('stored angle is not negative', st >= 0)
    vc.ensure('stored angle is below the period', st < per)
    tol = 2e-12
    if vc.symbolic:
        mods = vc.ghost.get('mods')
        if not mods:
            # no modulo taken: the stored angle must be the given one
            d = st - a
            vc.ensure('stored angle is congruent to the given one', abs(d) <= tol)
            return
        _a, b, k = mods[0]
        vc.ensure('modulo is taken by the period', (b - per) == 0)
        # three candidates for the number of periods removed
        d = [st - (a - (k + j) * per) for j in (0, 1, -1)]
        vc.ensure('stored angle is congruent to the given one',
                  (abs(d[0]) <= tol) | (abs(d[1]) <= tol) | (abs(d[2]) <= tol) if False else
                  _any(vc, [_within(x, tol) for x in d]))
    else:
        k = round((a - st) / per)
        vc.ensure('stored angle is congruent to the given one', abs(st - (a - k * per)) <= tol + 4e-16 * abs(a) * 4)


def _within(x, tol):
    return (x <= tol) & (x >= -tol)


def _any(vc, conds):
    out = conds[0]
    for c in conds[1:]:
        out = out | c
    return out


@contract(P, ['projectq.ops._basics.BasicRotationGate.__init__'], raw_ctor=True, samples=300)
def rotation_ctor(vc):
    _ctor(vc, vc.choose('cls', [ops.Rx, ops.Ry, ops.Rz, ops.Rxx, ops.Ryy, ops.Rzz]), 4)


@contract(P, ['projectq.ops._basics.BasicPhaseGate.__init__'], raw_ctor=True, samples=300)
def phase_ctor(vc):
    _ctor(vc, vc.choose('cls', [ops.Ph, ops.R]), 2)


@contract(P, ['projectq.ops._uniformly_controlled_rotation.UniformlyControlledRy.__init__',
              'projectq.ops._uniformly_controlled_rotation.UniformlyControlledRz.__init__'], raw_ctor=True, samples=200)
def ucr_ctor(vc):
    cls = vc.choose('cls', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
    n = vc.pick('n', 3) + 1
    angs = [vc.real(f'a{i}') for i in range(n)]
    g = cls(angs)
    PI = num.PI if vc.symbolic else math.pi
    vc.ensure('one stored angle per given angle', len(g.angles) == n)
    for i in range(n):
        st = g.angles[i]
        vc.ensure('stored angle in range', (st >= 0) & (st < 4 * PI) if vc.symbolic else 0 <= st < 4 * PI)
        if vc.symbolic:
            mods = vc.ghost.get('mods') or []
            if len(mods) != n:
                vc.ensure('stored angle is congruent to the given one', _within(st - angs[i], 2e-12))
                continue
            k = mods[i][2]
            vc.ensure('stored angle is congruent to the given one', _any(vc, [
                _within(st - (angs[i] - (k + j) * 4 * PI), 2e-12) for j in (0, 1, -1)]))
        else:
            k = round((angs[i] - st) / (4 * PI))
            vc.ensure('stored angle is congruent to the given one', abs(st - (angs[i] - k * 4 * PI)) <= 1e-11)


@contract(P, ['projectq.ops._uniformly_controlled_rotation.UniformlyControlledRy.get_inverse',
              'projectq.ops._uniformly_controlled_rotation.UniformlyControlledRz.get_inverse'], raw_ctor=True,
          samples=200)
def ucr_inverse(vc):
    """The inverse's angles are the negatives modulo 4 pi, position by position."""
    cls = vc.choose('cls', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
    n = vc.choose('n', [1, 2])
    angs = [vc.real(f'a{i}') for i in range(n)]
    g = cls(angs)
    inv = get_inverse(g)
    vc.ensure('same kind of gate', type(inv) is cls)
    vc.ensure('same number of angles', len(inv.angles) == n)
    PI = num.PI if vc.symbolic else math.pi
    for i in range(n):
        s = g.angles[i] + inv.angles[i]
        ok = [_within(s - 4 * PI * k, 4e-12) for k in (0, 1, 2)] if vc.symbolic else \
            [abs(s - 4 * PI * k) < 4e-12 for k in (0, 1, 2)]
        vc.ensure('angles are negated in place', _any(vc, ok))


PAULIS = ['X0', 'Y0', 'Z0', 'X0 Y1', 'Z0 Z1', 'Y0 Z1 X2', '']


@contract(P, ['projectq.ops._qubit_operator.QubitOperator.get_inverse'], samples=100)
def pauli_string_inverse(vc):
    term = vc.choose('term', PAULIS)
    phi = vc.angle('phi')
    B = W.nb(vc)
    c = B.expi(phi)
    g = ops.QubitOperator(term, c)
    n = max(1, len(term.split()))
    inv = get_inverse(g)
    vc.ensure('is a Pauli string', isinstance(inv, ops.QubitOperator))
    vc.mat_eq('inverse is the adjoint', W.qubitop_matrix(B, inv, n), W.dagger(B, W.qubitop_matrix(B, g, n)))


@bounded(P, ['projectq.ops._qubit_operator.QubitOperator.get_inverse'],
         'random Pauli sums with up to 3 terms that are not unitary strings', samples=150)
def pauli_sum_not_invertible(vc):
    g = ops.QubitOperator()
    n = vc.pick('terms', 3) + 1
    for k in range(n):
        g += ops.QubitOperator(f'X{k} Z{k + 1}', 0.5 if n == 1 else vc.choose('c', [1.0, 0.5, 1j]))
    vc.raises('a Pauli sum that is not a unitary string refuses to be inverted', ops.NotInvertible, g.get_inverse)


HAMS = ['X0', 'Z0 Z1', 'X0 Y1', '']


@contract(P, ['projectq.ops._time_evolution.TimeEvolution.get_inverse', 'projectq.ops._time_evolution.TimeEvolution.__init__'],
          samples=150)
def time_evolution_inverse(vc):
    t = vc.real('t')
    k = vc.pick('terms', 3) + 1
    h = ops.QubitOperator()
    cs = [vc.real(f'c{i}') for i in range(k)]
    for i in range(k):
        h.terms[((i, 'XYZ'[i % 3]), (i + 1, 'Z'))] = cs[i] if i != 1 else cs[i]
    g = ops.TimeEvolution(t, h)
    vc.eq('time is kept', g.time, t)
    inv = get_inverse(g)
    vc.ensure('is a time evolution', isinstance(inv, ops.TimeEvolution))
    vc.eq('time is negated', inv.time, -1 * t)
    vc.ensure('same terms', set(inv.hamiltonian.terms) == set(h.terms))
    for term in h.terms:
        vc.eq('same coefficients', inv.hamiltonian.terms[term], h.terms[term])
    vc.ensure('the argument is not aliased', g.hamiltonian is not h and inv.hamiltonian is not g.hamiltonian)


@bounded(P, ['projectq.ops._time_evolution.TimeEvolution'], 'random Hamiltonians on up to 3 qubits', samples=60)
def time_evolution_numeric(vc):
    import numpy as np
    h = ops.QubitOperator()
    for _ in range(vc.pick('terms', 3) + 1):
        qs = [q for q in range(3) if vc.flag('q')]
        h += ops.QubitOperator(tuple((q, vc.choose('p', 'XYZ')) for q in qs), vc.real('c', -2, 2))
    g = ops.TimeEvolution(vc.real('t', -3, 3), h)
    u = np.array(W.timeevo_matrix(W.Float, g, 3), dtype=complex)
    ui = np.array(W.timeevo_matrix(W.Float, get_inverse(g), 3), dtype=complex)
    vc.mat_eq('inverse evolution undoes the evolution', (u @ ui).tolist(), np.eye(8).tolist())


@bounded(P, ['projectq.ops._time_evolution.TimeEvolution.__init__'], 'enumerated invalid inputs', samples=20)
def time_evolution_rejects(vc):
    k = vc.pick('case', 3)
    if k == 0:
        vc.raises('complex coefficient is rejected', NotHermitianOperatorError,
                  lambda: ops.TimeEvolution(1.0, ops.QubitOperator('X0', 1j) + ops.QubitOperator('Z0', 1)))
    elif k == 1:
        vc.raises('complex time is rejected', TypeError, lambda: ops.TimeEvolution(1j, ops.QubitOperator('X0')))
    else:
        vc.raises('non-operator is rejected', TypeError, lambda: ops.TimeEvolution(1.0, 'X0'))


@contract(P, ['projectq.ops._metagates.ControlledGate.get_inverse', 'projectq.ops._metagates.Tensor.get_inverse',
              'projectq.ops._metagates.DaggeredGate.get_inverse'], samples=150)
def meta_gate_inverse(vc):
    """Inverse of C(g,n), Tensor(g), Dagger(g) for an arbitrary inner gate."""
    inner_name = vc.choose('inner', ['T', 'Rx', 'H', 'Swap', 'QFT', 'opaque', 'Ph'])
    a = vc.angle('a')
    inner = {'T': ops.T, 'H': ops.H, 'Swap': ops.Swap, 'QFT': ops.QFT, 'Rx': ops.Rx(a), 'Ph': ops.Ph(a)}.get(inner_name)
    if inner is None:
        class Opaque(ops.BasicGate):
            """A gate about which nothing is known."""
        inner = Opaque()
    B = W.nb(vc)
    kind = vc.choose('kind', ['C', 'Tensor', 'Dagger', 'CC', 'CTensor'])
    n = vc.pick('n', 3) + 1
    g = {'C': lambda: ops.C(inner, n), 'Tensor': lambda: ops.Tensor(inner), 'Dagger': lambda: DaggeredGate(inner),
         'CC': lambda: ops.C(ops.C(inner, n), 1), 'CTensor': lambda: ops.C(ops.Tensor(inner), n)}[kind]()
    inv = get_inverse(g)

    def same(x, y):
        """x and y are the same gate (by reference for opaque gates, by operator otherwise)."""
        if x is y:
            return True
        try:
            W.gate_op(B, x, [2])
        except W.NoRef:
            return type(x) is type(y) and x == y
        mx, my = W.gate_op(B, x, [2])[1], W.gate_op(B, y, [2])[1]
        vc.mat_eq('inner gate is inverted', mx, my)
        return True

    def adj(x):
        return get_inverse(x)

    if kind == 'Dagger':
        vc.ensure('inverse of a daggered gate is the gate itself', inv is inner)
        return
    if kind in ('C', 'CC'):
        m = n + (1 if kind == 'CC' else 0)
        vc.ensure('inverse of a controlled gate is controlled', type(inv) is ops.ControlledGate)
        vc.ensure('number of controls is kept', inv._n == m and g._n == m)
        vc.ensure('inner gate', same(inv._gate, adj(inner)))
        vc.ensure('inner gate unchanged', g._gate is inner)
    elif kind == 'Tensor':
        vc.ensure('inverse of a tensor gate is a tensor gate', isinstance(inv, ops.Tensor))
        vc.ensure('inner gate', same(inv._gate, adj(inner)))
    else:
        vc.ensure('inverse of a controlled gate is controlled', type(inv) is ops.ControlledGate)
        vc.ensure('tensor inside', isinstance(inv._gate, ops.Tensor) and inv._n == n)
        vc.ensure('inner gate', same(inv._gate._gate, adj(inner)))


@contract(P, ['projectq.ops._metagates.get_inverse', 'projectq.ops._basics.BasicGate.get_inverse'], samples=60)
def opaque_inverse(vc):
    """A gate without an inverse is wrapped, never silently replaced; instructions that cannot be undone say so."""
    name = vc.choose('gate', ['QFT', 'Entangle', 'StatePreparation', 'Measure', 'Flush', 'Barrier', 'Allocate', 'Deallocate',
                              'AllocateDirty', 'BasicGate', 'MathGate', 'QPE', 'QAA', 'MulMod'])
    g = {'QFT': ops.QFT, 'Entangle': ops.Entangle, 'StatePreparation': ops.StatePreparation([1, 0]),
         'Measure': ops.Measure, 'Flush': ops.FlushGate(), 'Barrier': ops.Barrier, 'Allocate': ops.Allocate,
         'Deallocate': ops.Deallocate, 'AllocateDirty': ops.AllocateDirtyQubitGate(), 'BasicGate': ops.BasicGate(),
         'MathGate': ops.BasicMathGate(lambda x: (x + 1,)), 'QPE': ops.QPE(ops.X), 'QAA': ops.QAA(len, max),
         'MulMod': pqmath.MultiplyByConstantModN(3, 7)}[name]
    if name == 'Barrier':
        vc.ensure('barrier is its own inverse', type(get_inverse(g)) is type(ops.Barrier))
        return
    if name in ('Allocate', 'AllocateDirty'):
        vc.ensure('allocation is undone by deallocation', type(get_inverse(g)) is ops.DeallocateQubitGate)
        return
    if name == 'Deallocate':
        vc.ensure('deallocation is undone by allocation', type(get_inverse(g)) is ops.AllocateQubitGate)
        return
    try:
        g.get_inverse()
        vc.unreachable('gate without an inverse reports NotInvertible', name)
    except ops.NotInvertible:
        vc.ensure('gate without an inverse reports NotInvertible', True)
    d = get_inverse(g)
    vc.ensure('it is wrapped as a daggered gate of itself', type(d) is DaggeredGate and d.get_inverse() is g)


@contract(P, ['projectq.ops._gates.FlipBits'], samples=60)
def flipbits_inverse(vc):
    b = vc.int('bits', -40, 40)
    g = ops.FlipBits(b)
    inv = get_inverse(g)
    vc.ensure('is FlipBits', isinstance(inv, ops.FlipBits))
    vc.eq('flips the same bits', inv.bits_to_flip, b)


def _compose(g, inv, qubits, vals):
    f = g.get_math_function(qubits)
    fi = inv.get_math_function(qubits)
    return list(fi(list(f(list(vals)))))


@contract(P, ['projectq.libs.math._gates.AddConstant', 'projectq.libs.math._gates.SubConstant'], samples=100)
def add_constant_inverse(vc):
    a, x = vc.int('a', -1000, 1000), vc.int('x', 0, 1000)
    g = pqmath.AddConstant(a)
    inv = get_inverse(g)
    r = _compose(g, inv, None, [x])
    vc.ensure('one register', len(r) == 1)
    vc.eq('inverse undoes', r[0], x)
    vc.eq('value', list(g.get_math_function(None)([x]))[0], x + a)
    s = pqmath.SubConstant(a)
    vc.eq('SubConstant subtracts', list(s.get_math_function(None)([x]))[0], x - a)


@contract(P, ['projectq.libs.math._gates.AddConstantModN', 'projectq.libs.math._gates.SubConstantModN'], samples=200,
          assumptions=('modulus N split over 2..12 in the deductive run (solver), random up to 10^6 natively',))
def add_constant_modn_inverse(vc):
    N = vc.choose('N', range(2, 13)) if vc.symbolic else vc.int('N', 2, 10**6)
    a = vc.int('a', 0, N - 1)
    x = vc.int('x', 0, N - 1)
    g = pqmath.AddConstantModN(a, N)
    inv = get_inverse(g)
    vc.eq('inverse undoes', _compose(g, inv, None, [x])[0], x)
    vc.eq('value', list(g.get_math_function(None)([x]))[0], (x + a) % N)
    s = pqmath.SubConstantModN(a, N)
    vc.eq('SubConstantModN subtracts', list(s.get_math_function(None)([x]))[0], (x - a) % N)
    vc.ensure('the inverse meets the gate\'s own precondition 0 <= a < N', (inv.a >= 0) & (inv.a < N) if vc.symbolic
              else 0 <= inv.a < N)


def _regs(sizes):
    return tuple([None] * s for s in sizes)


def _roundtrip(vc, g, sizes, vals):
    """g then its inverse, and the inverse then g, restore the registers (register sizes as moduli)."""
    regs = _regs(sizes)
    inv = get_inverse(g)
    for label, first, second in (('the inverse restores the registers', g, inv), ('the gate undoes its inverse', inv, g)):
        mid = [v % (1 << s) for v, s in zip(first.get_math_function(regs)(list(vals)), sizes)]
        end = [v % (1 << s) for v, s in zip(second.get_math_function(regs)(list(mid)), sizes)]
        vc.ensure('number of registers', len(end) == len(vals))
        for v, e in zip(vals, end):
            vc.eq(label, e, v)


@contract(P, ['projectq.libs.math._gates.' + n for n in ('AddQuantumGate', '_InverseAddQuantumGate')], samples=600,
          size_bound='registers of 1..6 qubits, all values')
def add_quantum_inverse(vc):
    n = vc.pick('n', 6) + 1
    carry = vc.pick('carry', 3)
    sizes = [n, n] + ([carry] if carry else [])
    _roundtrip(vc, pqmath.AddQuantum, sizes, [vc.int('v', 0, (1 << s) - 1) for s in sizes])


@contract(P, ['projectq.libs.math._gates.' + n for n in ('SubtractQuantumGate', 'AddQuantumGate',
                                                        'ComparatorQuantumGate', 'MultiplyQuantumGate',
                                                        '_InverseMultiplyQuantumGate')], samples=600,
          size_bound='registers of 1..6 qubits, all values')
def quantum_arithmetic_inverse(vc):
    name = vc.choose('gate', ['Subtract', 'Comparator', 'Multiply'])
    n = vc.pick('n', 6 if name != 'Multiply' else 3) + 1
    g = {'Subtract': pqmath.SubtractQuantum, 'Comparator': pqmath.ComparatorQuantum,
         'Multiply': pqmath.MultiplyQuantum}[name]
    sizes = {'Subtract': [n, n], 'Comparator': [n, n, 1], 'Multiply': [n, n, 2 * n + 1]}[name]
    vals = [vc.int('v', 0, (1 << s) - 1) for s in sizes]
    if name == 'Multiply' and vc.symbolic:
        vals[0] = vc.concretize(vals[0])
    _roundtrip(vc, g, sizes, vals)


@contract(P, ['projectq.libs.math._gates.DivideQuantumGate', 'projectq.libs.math._gates._InverseDivideQuantumGate'],
          samples=300)
def divide_inverse(vc):
    """Documented precondition: remainder zero, 0 < divisor <= dividend."""
    x, d = vc.int('dividend', 1, 10**6), vc.int('divisor', 1, 10**6)
    vc.assume(d <= x)
    g = pqmath.DivideQuantum
    regs = _regs([20, 20, 20])
    r, q, d2 = g.get_math_function(regs)([x, 0, d])
    vc.eq('divisor kept', d2, d)
    vc.ensure('quotient and remainder of the division', (q * d + r == x) & (r >= 0) & (r < d) if vc.symbolic else
              (q, r) == divmod(x, d))
    a, b, c = get_inverse(g).get_math_function(regs)([r, q, d])
    vc.eq('the inverse restores the dividend', a, x)
    vc.eq('the inverse restores the remainder register', b, 0)
    vc.eq('the inverse keeps the divisor', c, d)


@bounded(P, ['projectq.ops._basics.MatrixGate.get_inverse'], 'random unitaries of 1 to 3 qubits', samples=60)
def matrix_gate_inverse(vc):
    import numpy as np
    dim = 2 ** (vc.pick('n', 3) + 1)
    re = np.array([[vc.real('m', -1, 1) for _ in range(2 * dim)] for _ in range(dim)])
    q, _r = np.linalg.qr(re[:, :dim] + 1j * re[:, dim:] + 0.1 * np.eye(dim))
    g = ops.MatrixGate(q)
    vc.mat_eq('matrix is the given one', g.matrix.tolist(), q.tolist())
    inv = get_inverse(g)
    vc.mat_eq('inverse is the adjoint', inv.matrix.tolist(), q.conj().T.tolist())
    vc.mat_eq('daggered gate is the adjoint', DaggeredGate(g).matrix.tolist(), q.conj().T.tolist())
    vc.mat_eq('gate unchanged', g.matrix.tolist(), q.tolist())


@bounded(P, ['projectq.ops._uniformly_controlled_rotation', 'projectq.ops._time_evolution.TimeEvolution', 'projectq.ops._qubit_operator.QubitOperator.get_inverse',
             'projectq.ops._metagates', 'projectq.ops._gates.FlipBits', 'projectq.ops._basics.MatrixGate', 'projectq.libs.math._gates'],
         'matrices of up to 32 rows, lists of up to 256 angles, Pauli strings of up to 20 factors, Hamiltonians of up to 12 terms, registers and constants of up to '
         '80 bits, up to 9 controls, up to 6 nested wrappers', samples=1500, thorough=20000)
def large(vc):
    """Inverses at sizes well above those of the contracts."""
    import numpy as np
    kind = vc.choose('kind', ['matrix', 'ucr', 'pauli', 'evolve', 'flip', 'constant', 'modular', 'add', 'subtract', 'compare', 'multiply', 'divide', 'wrapped'])
    rng = np.random.default_rng(vc.pick('seed', 1 << 20))
    if kind == 'matrix':
        d = 1 << vc.pick('qubits', 6)
        q, _r = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
        inv = get_inverse(ops.MatrixGate(q))
        vc.ensure('inverse is the adjoint', inv.matrix.shape == (d, d) and abs(np.asarray(inv.matrix) - q.conj().T).max() < 1e-9)
        return
    if kind == 'ucr':
        cls = vc.choose('class', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
        a = [float(x) for x in rng.uniform(-13, 13, 1 << vc.pick('size', 9))]
        inv = get_inverse(cls(a))
        vc.ensure('the angles are negated', type(inv) is cls and len(inv.angles) == len(a) and
                  all(abs(math.remainder(x + y, 4 * math.pi)) < 1e-9 for x, y in zip(a, inv.angles)))
        return
    if kind in ('pauli', 'evolve'):
        def term(most):
            at = sorted(rng.choice(40, size=rng.integers(1, most + 1), replace=False))
            return tuple((int(i), 'XYZ'[rng.integers(3)]) for i in at)
        if kind == 'pauli':
            g = ops.QubitOperator(term(20), complex(np.exp(1j * rng.uniform(0, 7))))
            p = get_inverse(g) * g
            vc.ensure('the product is the identity', list(p.terms) == [()] and abs(p.terms[()] - 1) < 1e-9, str(p))
            return
        h = ops.QubitOperator()
        for _ in range(rng.integers(1, 13)):
            h += ops.QubitOperator(term(6), float(rng.uniform(-2, 2)))
        g = ops.TimeEvolution(float(rng.uniform(-5, 5)), h)
        inv = get_inverse(g)
        vc.ensure('the same terms the other way', set(inv.hamiltonian.terms) == set(h.terms) and
                  all(abs(inv.time * inv.hamiltonian.terms[t] + g.time * c) < 1e-9 for t, c in h.terms.items()))
        return
    if kind == 'flip':
        n = 1 + vc.pick('bits', 200)
        bits = [int(b) for b in rng.integers(0, 2, n)]
        g = ops.FlipBits(vc.choose('as', [bits, ''.join(map(str, bits)), sum(b << i for i, b in enumerate(bits))]))
        inv = get_inverse(g)
        vc.ensure('flips the same bits', type(inv) is ops.FlipBits and inv.bits_to_flip == sum(b << i for i, b in enumerate(bits)))
        return
    if kind == 'wrapped':
        base = vc.choose('base', [ops.S, ops.T, ops.Rz(0.7), ops.X, ops.SqrtX, ops.MatrixGate(np.matrix([[0, 1j], [1, 0]])), ops.SqrtSwap])
        g, n, adj = base, 0, False
        for _ in range(1 + vc.pick('wrappers', 6)):
            w = vc.choose('wrapper', ['control', 'inverse', 'dagger'])
            if w == 'control':
                k = 1 + vc.pick('controls', 3)
                g, n = ops.ControlledGate(g, k), n + k
            else:
                g, adj = get_inverse(g) if w == 'inverse' else ops.DaggeredGate(g) if not isinstance(g, DaggeredGate) else get_inverse(g), not adj

        def unwrap(x):
            c, a = 0, False
            while not hasattr(x, 'matrix') or isinstance(x, DaggeredGate):
                if isinstance(x, ops.ControlledGate):
                    c, x = c + vc.priv(x, '_n'), vc.priv(x, '_gate')
                else:
                    a, x = not a, vc.priv(x, '_gate')
            m = np.asarray(x.matrix)
            return c, (m.conj().T if a else m)
        m0 = np.asarray(base.matrix)
        for x, want in ((g, adj), (get_inverse(g), not adj)):
            c, m = unwrap(x)
            vc.ensure('as many controls', c == n)
            vc.ensure('the adjoint exactly after an odd number of inverses', abs(m - (m0.conj().T if want else m0)).max() < 1e-9, f'{x} of {base}')
        return
    n = 7 + vc.pick('size', 40)

    def number(bits):
        return vc.pick('number', 1 << bits)
    if kind == 'constant':
        g, sizes = vc.choose('gate', [pqmath.AddConstant, pqmath.SubConstant])(number(80) - (1 << 79)), [n]
    elif kind == 'modular':
        m = number(n - 1) + 2
        a = number(n - 1) % m
        g = vc.choose('gate', [pqmath.AddConstantModN, pqmath.SubConstantModN])(a, m)
        x = number(n) % m
        f, fi = (y.get_math_function(None) for y in (g, get_inverse(g)))
        vc.ensure('the inverse restores the register', list(fi(list(f([x])))) == [x] and list(f(list(fi([x])))) == [x])
        return
    else:
        carry = vc.pick('carry', 3)
        g, sizes = {'add': (pqmath.AddQuantum, [n, n] + ([carry] if carry else [])), 'subtract': (pqmath.SubtractQuantum, [n, n]),
                    'compare': (pqmath.ComparatorQuantum, [n, n, 1]), 'multiply': (pqmath.MultiplyQuantum, [n, n, 2 * n + 1]),
                    'divide': (pqmath.DivideQuantum, [n, n, n])}[kind]
    vals = [number(s) for s in sizes]
    if kind == 'divide':
        vals = [max(vals[0], vals[1]), 0, max(1, min(vals[0], vals[1]))]
        regs = _regs(sizes)
        mid = list(g.get_math_function(regs)(list(vals)))
        vc.ensure('the inverse restores the registers', list(get_inverse(g).get_math_function(regs)(mid)) == vals, f'{vals} {mid}')
        return
    _roundtrip(vc, g, sizes, vals)
