"""S02: the C++ simulator computes the same states and values as the definition.

The harnesses of S01 and S03 run against the compiled simulator: symbolically, its real C++ sources execute on exact
numbers (pv/cppsim.py); concretely, the extension built from the same sources.
"""
import itertools
import math

from pv import cppsim
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN
from projectq.types import WeakQubitRef

from . import s01, s03
from .s01 import amplitudes, exact, python_backend, same, start, vector

P = 'S02'
K = 'projectq/backends/_sim/_cppkernels/'
S = K + 'simulator.hpp:Simulator::'
F = K + 'fusion.hpp:Fusion::'
E = 'projectq.backends._sim._simulator.Simulator.'
NOTE = ('the C++ sources are compiled for the proof with double replaced by exact real numbers, and vector instructions by their documented '
        'meaning; OpenMP pragmas are not part of the proof (bounded runs with several threads)',)

cppsim.build()


def native_class(mod):
    """The extension's simulator; the default tolerance of the two classical queries is not part of its Python signature."""
    class Native(mod.Simulator):
        def _ask(self, name, i):
            f = getattr(mod.Simulator, name)
            try:
                return f(self, i, 1.e-12)
            except TypeError:
                return f(self, i)

        def get_classical_value(self, i):
            return self._ask('get_classical_value', i)

        def is_classical(self, i):
            return self._ask('is_classical', i)
    return Native


class cpp:
    """The simulator under contract is the compiled one, with or without vector instructions."""

    def __init__(self, vc, variant=None, warm=True):
        self.vc = vc
        variant = variant or vc.choose('kernels', cppsim.VARIANTS)
        vc.ghost['clear'] = 1e-5
        if vc.symbolic:
            pending = []

            def make(_seed):
                return cppsim.Exact(vc, variant, pending)

            def draws(us):
                pending[:] = us
        else:
            mod, lib = cppsim.native(variant)
            lib.verif_clear()
            make = native_class(mod)

            def draws(us):
                lib.verif_clear()
                for u in us:
                    lib.verif_draw(float(u))
        vc.ghost['backend'], vc.ghost['draws'] = make, draws
        if warm:
            vc.ghost['warm'] = self.use

    @staticmethod
    def use(sim, ids):
        """Leaves something in recycled buffers."""
        n = len(ids)
        sim.set_wavefunction([0.5 / (1 + i % 4) for i in range(1 << n)], list(ids))
        sim.emulate_math(lambda x: [v + 1 for v in x], [list(ids)], [])
        sim.apply_qubit_operator([([(0, 'X')], 1.0), ([], 2.0)], [ids[0]])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self.vc.symbolic:
            self.vc.ghost['draws']([])


def proof(functions, **kw):
    kw.setdefault('samples', 60)
    kw['assumptions'] = kw.get('assumptions', ()) + NOTE
    return contract(P, functions, **kw)


def kernels(k):
    return [f'{K}{v}/kernel{k}.hpp:kernel' for v in cppsim.VARIANTS]


# --- gates ----------------------------------------------------------------------------------------------------------------
def _order(vc, n, k, every=True):
    """Targets in every order (positions spread out differently), any controls."""
    perms = list(itertools.permutations(range(n), k))
    t = vc.choose('targets', perms if every else perms[::max(1, len(perms) // 7)])
    rest = [p for p in range(n) if p not in t]
    return list(t), [p for p in rest if vc.flag('control')]


def _gate(vc, n, k, every=True):
    t, c = _order(vc, n, k, every)
    sim, ids, psi = start(vc, n)
    m = s01.matrix(vc, k)
    sim.apply_controlled_gate(m, [ids[p] for p in t], [ids[p] for p in c])
    if vc.flag('run'):
        sim.run()
    B = W.nb(vc)
    same(vc, 'the state is multiplied by the matrix on the targets where all controls are one', sim, ids,
         W.apply_matrix(B, [B.c(x) for x in psi], m, t, [(p, 1) for p in c]))


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'perform_fusion'] + kernels(1), size_bound='registers of at most 4 qubits')
@exact
def gate_on_one(vc):
    """Every 2x2 matrix, state, position and control set."""
    with cpp(vc):
        _gate(vc, 1 + vc.pick('size', 4), 1)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'perform_fusion'] + kernels(2), size_bound='registers of at most 4 qubits')
@exact
def gate_on_two(vc):
    """Every 4x4 matrix, state, ordered pair of targets and control set."""
    with cpp(vc):
        _gate(vc, 2 + vc.pick('size', 3), 2)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'perform_fusion'] + kernels(3), size_bound='registers of at most 4 qubits')
@exact
def gate_on_three(vc):
    """Every 8x8 matrix, state, ordered triple of targets and control set."""
    with cpp(vc):
        _gate(vc, 3 + vc.pick('size', 2), 3)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'perform_fusion'] + kernels(4), size_bound='registers of at most 5 qubits', budget=90)
@exact
def gate_on_four(vc):
    """Every 16x16 matrix and state, with and without a control."""
    with cpp(vc):
        n = 4 + vc.pick('size', 2)
        _gate(vc, n, 4, every=False)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'perform_fusion'] + kernels(5), size_bound='registers of 5 qubits', budget=100)
@exact
def gate_on_five(vc):
    """Every 32x32 matrix and state."""
    with cpp(vc):
        _gate(vc, 5, 5, every=False)


# --- fusion ---------------------------------------------------------------------------------------------------------------
PERM2 = [[[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], [[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]]


def _sparse(vc, k, name):
    """An invertible matrix with few entries: diagonal or permuted, with an arbitrary phase or factor."""
    kind = vc.choose('matrix', ['diagonal', 'shift'])
    d = 1 << k
    x = vc.cplx(name)
    if not vc.symbolic:
        x = x / abs(x) if abs(x) > 1e-6 else 1.0
    return [[(x if j == 1 else j - 2 if j > 2 else 1) * (1 if j == (i if kind == 'diagonal' else (i + 1) % d) else 0) if vc.symbolic else
             (x if j == 1 else 1) * (1 if j == (i if kind == 'diagonal' else (i + 1) % d) else 0) for j in range(d)] for i in range(d)]


def _sequence(vc, n, length, widths, between=()):
    sim, ids, psi = start(vc, n)
    B = W.nb(vc)
    vec = [B.c(x) for x in psi]
    for i in range(length):
        k = vc.choose('width', widths)
        perms = list(itertools.permutations(range(n), k))
        t = list(vc.choose('targets', perms))
        c = [p for p in range(n) if p not in t and vc.flag('control')]
        m = _sparse(vc, k, f'x{i}')
        sim.apply_controlled_gate(m, [ids[p] for p in t], [ids[p] for p in c])
        vec = W.apply_matrix(B, vec, m, t, [(p, 1) for p in c])
    return sim, ids, vec


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'handle_controls', F + 'add_controls', F + 'perform_fusion'],
       size_bound='two pending gates on 2 qubits')
@exact
def fused_two(vc):
    """Pending gates are applied in order, whatever their targets and controls."""
    with cpp(vc, vc.choose('kernels', ['intrin'])):
        sim, ids, vec = _sequence(vc, 2, 2, [1, 2])
        same(vc, 'the gates are applied in order', sim, ids, vec)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'handle_controls', F + 'add_controls', F + 'perform_fusion'],
       size_bound='two pending one-qubit gates on 3 qubits')
@exact
def fused_controls(vc):
    """Common, different and overlapping controls of pending gates."""
    with cpp(vc, 'intrin'):
        sim, ids, vec = _sequence(vc, 3, 2, [1])
        same(vc, 'the gates are applied in order', sim, ids, vec)


@proof([S + 'apply_controlled_gate', S + 'run', F + 'insert', F + 'handle_controls', F + 'add_controls', F + 'perform_fusion', S + 'allocate_qubit'],
       size_bound='up to seven pending gates on 7 qubits, an allocation in between')
@exact
def fused_limits(vc):
    """Pending gates are applied when they get too large, and qubits may be allocated while gates are pending."""
    with cpp(vc):
        sim = s01.backend(vc)
        B = W.nb(vc)
        ids, vec = [], [B.c(1)]
        at = 1 + vc.pick('allocated first', 3)
        shape = vc.choose('circuit', ['ladder', 'wide', 'controls'])
        todo = {'ladder': [([i], [i - 1] if i else []) for i in range(7)], 'wide': [([i, (i + 3) % 7], []) for i in range(5)],
                'controls': [([0], []), ([1], [0]), ([2], [0, 1]), ([3], [0, 1, 2]), ([4], [0, 1, 2, 3]), ([5], [4]), ([6], [0, 5])]}[shape]
        for j, (t, c) in enumerate(todo):
            while len(ids) < 7 and (j or len(ids) < max(at, len(t))) and len(ids) <= max(t + c) + at:
                q = s01.IDS[len(ids)]
                sim.allocate_qubit(q)
                ids, vec = ids + [q], vec + [B.c(0)] * len(vec)
            while len(ids) <= max(t + c):
                q = s01.IDS[len(ids)]
                sim.allocate_qubit(q)
                ids, vec = ids + [q], vec + [B.c(0)] * len(vec)
            x = vc.cplx(f'x{j}')
            m = [[0, 1], [x, 0]] if len(t) == 1 else [[0, 0, 1, 0], [0, x, 0, 0], [1, 0, 0, 0], [0, 0, 0, -1]]
            if j == 0 and len(t) == 1:
                m = [[1, x], [1, -1]]
            sim.apply_controlled_gate(m, [ids[p] for p in t], [ids[p] for p in c])
            vec = W.apply_matrix(B, vec, m, t, [(p, 1) for p in c])
        same(vc, 'the gates are applied in order', sim, ids, vec)


@proof([S + 'run', S + 'emulate_math', S + 'apply_qubit_operator', S + 'get_expectation_value', S + 'get_probability', S + 'get_amplitude',
        S + 'collapse_wavefunction', S + 'set_wavefunction', S + 'deallocate_qubit', S + 'measure_qubits'], size_bound='2 qubits, one pending gate')
@exact
def pending(vc):
    """Every other operation first applies the pending gates."""
    with cpp(vc):
        kind = vc.choose('operation', ['math', 'addc', 'operator', 'expectation', 'probability', 'amplitude', 'collapse', 'measure', 'set', 'deallocate',
                                       'value', 'classical', 'allocate', 'cheat'])
        sim = s01.backend(vc)
        B = W.nb(vc)
        ids = s01.IDS[:2]
        for q in sorted(ids):
            sim.allocate_qubit(q)
        zero = kind in ('measure', 'collapse', 'deallocate', 'value', 'classical')
        psi = [1, 0, 0, 0] if zero else amplitudes(vc, 4)
        sim.set_wavefunction(list(psi), list(ids))
        vec = [B.c(x) for x in psi]
        m = [[0, 1], [1, 0]]
        sim.apply_controlled_gate(m, [ids[1]], [])
        vec = W.apply_matrix(B, vec, m, [1], [])
        if kind == 'math':
            sim.emulate_math(lambda x: [x[0] + 1], [list(ids)], [])
            vec = W.apply_perm(B, vec, lambda x: [x[0] + 1], [[0, 1]], [])
        elif kind == 'addc':
            sim.emulate_math_addConstant(3, [list(ids)], [])
            vec = W.apply_perm(B, vec, lambda x: [x[0] + 3], [[0, 1]], [])
        elif kind == 'operator':
            sim.apply_qubit_operator([([(0, 'Z'), (1, 'Y')], 1.0)], list(ids))
            vec = W.apply_matrix(B, vec, W.pauli_string(B, ((0, 'Z'), (1, 'Y')), 2), [0, 1], [])
        elif kind == 'expectation':
            got = sim.get_expectation_value([([(1, 'Z')], 1.0)], list(ids))
            want = sum((B.conj(x) * x * (1 if i < 2 else -1) for i, x in enumerate(vec)), B.c(0))
            vc.eq('the value after the gate', B.c(got), want)
        elif kind == 'probability':
            vc.eq('the value after the gate', B.c(sim.get_probability([False, True], list(ids))), B.conj(vec[2]) * vec[2])
        elif kind == 'amplitude':
            vc.eq('the value after the gate', B.c(sim.get_amplitude([False, True], list(ids))), vec[2])
        elif kind == 'collapse':
            sim.collapse_wavefunction([ids[1]], [True])
        elif kind == 'measure':
            with s03.draw(vc, vc.choose('draw', [0, 0.5])):
                vc.ensure('the outcome after the gate', list(sim.measure_qubits([ids[1], ids[0]])) == [True, False])
        elif kind == 'set':
            vec = [B.c(x) for x in (0, 0, 0, 1)]
            sim.set_wavefunction([0, 0, 0, 1], list(ids))
        elif kind == 'value':
            vc.ensure('the value after the gate', bool(sim.get_classical_value(ids[1])))
        elif kind == 'classical':
            vc.ensure('the value after the gate', bool(sim.is_classical(ids[1])))
        elif kind == 'deallocate':
            sim.deallocate_qubit(ids[1])
            ids, vec = ids[:1], vec[2:]
        elif kind == 'allocate':
            sim.allocate_qubit(50)
            ids, vec = ids + [50], vec + [B.c(0)] * 4
        same(vc, 'and the state', sim, ids, vec)


# --- the rest of the interface ----------------------------------------------------------------------------------------------
@proof([S + 'emulate_math', S + 'get_control_mask'], size_bound='two register bits in all, one spare qubit')
@exact
def arithmetic_any(vc):
    """Every reversible function of the register values; results may exceed the register."""
    with cpp(vc, 'nointrin'):
        s01.arithmetic_any(vc)


@proof([S + 'emulate_math', S + 'get_control_mask'], size_bound='registers of at most 4 bits in all')
@exact
def arithmetic_some(vc):
    """Additions, products and comparisons on several registers and layouts."""
    with cpp(vc):
        s01.arithmetic_some(vc)


@proof([S + 'emulate_math_addConstant', S + 'emulate_math_addConstantModN', S + 'emulate_math_multiplyByConstantModN', E + '_handle'], samples=120,
       size_bound='a register of 3 bits and a control')
@exact
def arithmetic_constant(vc):
    """The special routines for constants, through the engine: every constant, also negative or huge."""
    with cpp(vc), python_backend(vc):
        eng, sim = s01.engine(vc, 4)
        q = [WeakQubitRef(eng, i) for i in s01.IDS[:4]]
        sim.receive([W.mkcmd(ops.Allocate, [[x.id]], eng=eng) for x in q])
        psi = amplitudes(vc, 16)
        sim.set_wavefunction(list(psi), q)
        perm = vc.choose('layout', [(0, 1, 2, 3), (3, 1, 0, 2)])
        kind = vc.choose('gate', ['add', 'addmod', 'mulmod'])
        if kind == 'add':
            a = vc.choose('constant', [0, 1, 5, 7, 8, -1, -6, 2 ** 31, 2 ** 40 + 3, -2 ** 70 - 1])
            gate, n = AddConstant(a), 8
        else:
            n = vc.choose('modulus', [2, 5, 7, 8])
            if kind == 'addmod':
                gate = AddConstantModN(vc.choose('constant', [a for a in (0, 1, 4, 6) if a < n]), n)
            else:
                gate = MultiplyByConstantModN(vc.choose('constant', [a for a in (1, 3, 5, 7) if a < n and math.gcd(a, n) == 1]), n)

        def f(x):
            if x[0] >= n:
                return x
            return [(x[0] + a) % 8 if kind == 'add' else (x[0] + gate.a) % n if kind == 'addmod' else x[0] * gate.a % n]
        ctl = vc.flag('control')
        B = W.nb(vc)
        vec = [B.c(x) if (i >> perm[0] & 1) + 2 * (i >> perm[1] & 1) + 4 * (i >> perm[2] & 1) < n else B.c(0) for i, x in enumerate(psi)]
        sim.set_wavefunction(vec, q)        # the gates are defined for register values below the modulus
        sim.receive([W.mkcmd(gate, [[q[p].id for p in perm[:3]]], [q[perm[3]].id] if ctl else [], eng=eng)])
        got = vector(sim, [x.id for x in q])
        vc.mat_eq('basis states are permuted by the function', [got], [W.apply_perm(B, vec, f, [list(perm[:3])], [(perm[3], 1)] if ctl else [])])


@bounded(P, [S + 'emulate_math_addConstant', S + 'emulate_math_addConstantModN', S + 'emulate_math_multiplyByConstantModN', E + '_handle'],
         'registers of up to 17 bits, random basis states, constants up to 2^80', samples=40, thorough=400)
def arithmetic_large(vc):
    """No overflow for large registers, constants and moduli."""
    with cpp(vc), python_backend(vc):
        eng, sim = s01.engine(vc, 1)
        n = 12 + vc.pick('bits', 6)
        sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=eng) for i in range(n)])
        kind = vc.choose('gate', ['add', 'addmod', 'mulmod', 'any'])
        big = vc.choose('range', [2 ** n, 2 ** 31, 2 ** 33, 2 ** 64, 2 ** 80])
        a, mod = vc.pick('constant', 2 ** 30) * big // 2 ** 30, 2 ** n - vc.pick('modulus', 500)
        x = vc.pick('value', 2 ** n) % mod
        if kind == 'add':
            a = a if vc.flag('positive') else -a
            gate, want = AddConstant(a), (x + a) % 2 ** n
        elif kind == 'any':
            gate, want = ops.BasicMathGate(lambda v: (v * 12345 + a,)), (x * 12345 + a) % 2 ** n
        elif kind == 'addmod':
            gate, want = AddConstantModN(a % mod, mod), (x + a) % mod
        else:
            a = a % mod
            while math.gcd(a, mod) != 1:
                a += 1
            gate, want = MultiplyByConstantModN(a, mod), x * a % mod
        sim.receive([W.mkcmd(ops.X, [[i]], eng=eng) for i in range(n) if x >> i & 1])
        if kind != 'any' or n <= 13:
            sim.receive([W.mkcmd(gate, [list(range(n))], eng=eng)])
            reg = [WeakQubitRef(eng, i) for i in range(n)]
            vc.ensure('the register holds the result', abs(sim.get_amplitude([want >> i & 1 for i in range(n)], reg) - 1) < 1e-9, f'{kind} {a} {mod} {x}')


@proof([S + 'allocate_qubit', S + 'Simulator'], size_bound='registers of at most 3 qubits')
@exact
def allocate(vc):
    """A qubit in state zero is appended; the state of the others is unchanged; ids are allocated once."""
    with cpp(vc):
        s01.allocate(vc)


@proof([S + 'deallocate_qubit', S + 'is_classical', S + 'get_classical_value', S + 'collapse_vector'], size_bound='registers of at most 3 qubits')
@exact
def deallocate(vc):
    """A classical qubit is removed: exactly it, and the others keep their state."""
    with cpp(vc):
        s01.deallocate(vc)


@proof([S + 'deallocate_qubit', S + 'is_classical'], size_bound='registers of at most 2 qubits')
@exact
def deallocate_superposed(vc):
    """A qubit with an amplitude above the tolerance on both sides is not removed, and nothing changes."""
    with cpp(vc):
        s01.deallocate_superposed(vc)


@proof([S + 'apply_qubit_operator', S + 'apply_term'], size_bound='operators on at most 2 of 3 qubits, two terms')
@exact
def qubit_operator(vc):
    """Every sum of Pauli strings with every complex coefficient."""
    with cpp(vc, 'intrin'):
        s01.qubit_operator(vc)


@proof([S + 'get_expectation_value', S + 'apply_term'], size_bound='operators on at most 2 of 3 qubits, at most two terms')
@exact
def expectation(vc):
    """The expectation value of any sum of Pauli strings; the state does not change."""
    with cpp(vc):
        s03.expectation(vc)


@proof([S + 'get_probability', S + 'get_amplitude', S + 'cheat'], size_bound='registers of at most 4 qubits')
@exact
def probability_and_amplitude(vc):
    """The probability of any outcome of any qubits and any amplitude in any order; the state does not change."""
    with cpp(vc):
        s03.probability_and_amplitude(vc)


@proof([S + 'set_wavefunction', S + 'collapse_wavefunction'], size_bound='registers of at most 3 qubits')
@exact
def set_and_collapse(vc):
    """Setting the wavefunction in any order; collapsing any qubits onto any outcome."""
    with cpp(vc):
        s03.set_and_collapse(vc)


@proof([S + 'get_probability', S + 'get_amplitude', S + 'set_wavefunction', S + 'collapse_wavefunction', S + 'check_ids'])
@exact
def invalid(vc):
    """Unknown or missing qubits, wrong sizes and impossible outcomes are refused, and nothing happens."""
    with cpp(vc):
        s03.invalid(vc)


@proof([S + 'measure_qubits', S + 'measure_qubits_return'], size_bound='registers of at most 3 qubits', budget=110)
@exact
def measure(vc):
    """Every normalised state, every draw in [0, 1), every list of qubits."""
    with cpp(vc, vc.choose('kernels', ['nointrin'])):
        s03.measure(vc)


@proof([S + 'measure_qubits', S + 'measure_qubits_return'], size_bound='registers of at most 3 qubits')
@exact
def measure_again(vc):
    """Qubits with a definite value always give that value, and nothing changes."""
    with cpp(vc, vc.choose('kernels', ['nointrin'])):
        s03.measure_again(vc)


@proof([E + '_handle', E + 'receive', E + 'is_available'], size_bound='registers of 3 qubits')
@exact
def commands(vc):
    """Commands on any qubits in any order reach the state as defined, with and without gate fusion."""
    with cpp(vc, vc.choose('kernels', ['intrin'])):
        s01.commands(vc)


@proof([E + f for f in ('get_probability', 'get_amplitude', 'get_expectation_value', 'apply_qubit_operator', 'set_wavefunction', 'collapse_wavefunction',
                        'cheat')], size_bound='registers of 3 qubits')
@exact
def engine_queries(vc):
    """Queries name logical qubits in any order and accept strings, integers and booleans."""
    with cpp(vc, vc.choose('kernels', ['nointrin'])):
        s03.engine_queries(vc)


# --- bounded ----------------------------------------------------------------------------------------------------------------
@bounded(P, kernels('1..5'), 'matrices on up to 5 qubits, registers of up to 9 qubits, random states and positions, several threads', samples=150, thorough=3000)
def gate_large(vc):
    """Larger registers, all positions, native arithmetic and OpenMP."""
    with cpp(vc, warm=False):
        for v in cppsim.VARIANTS:
            cppsim.native(v)[1].verif_threads(4 if vc.flag('threads') else 1)
        n = 1 + vc.pick('size', 9)
        k = 1 + vc.pick('targets', min(n, 5))
        perm = list(range(n))
        order = [perm.pop(vc.pick('target', len(perm))) for _ in range(k)]
        c = [p for p in perm if vc.pick('control', 3) == 0]
        sim = s01.backend(vc)
        ids = [3 * i + 1 for i in range(n)]
        for i in sorted(ids, key=lambda x: x * 7 % 11):
            sim.allocate_qubit(i)
        psi = amplitudes(vc, 1 << n)
        sim.set_wavefunction(list(psi), ids)
        m = s01.matrix(vc, k)
        sim.apply_controlled_gate(m, [ids[p] for p in order], [ids[p] for p in c])
        same(vc, 'the state is multiplied by the matrix', sim, ids, W.apply_matrix(W.Float, psi, m, order, [(p, 1) for p in c]))


@bounded(P, [S + 'emulate_time_evolution', S + 'apply_term'],
         'Hamiltonians of at most 4 terms on at most 3 qubits, registers of up to 5 qubits, random states and times', samples=150, thorough=1500)
def time_evolution(vc):
    """exp(-iHt) on the given qubits where all controls are one, to numerical accuracy."""
    with cpp(vc):
        s01.time_evolution_native(vc)


@bounded(P, [S + 'apply_controlled_gate', S + 'run', S + 'allocate_qubit', S + 'deallocate_qubit', S + 'emulate_math', S + 'apply_qubit_operator', F + 'insert'],
         'random histories of up to 25 operations on up to 6 qubits, gates pending or not', samples=200, thorough=3000)
def histories(vc):
    """Interleaved allocation, gates, arithmetic and deallocation agree with the reference state."""
    with cpp(vc):
        s01.histories(vc)


@bounded(P, [S + f for f in ('apply_controlled_gate', 'emulate_math', 'apply_qubit_operator', 'emulate_time_evolution', 'allocate_qubit', 'deallocate_qubit')],
         'up to 4 operations on 5 to 10 qubits: matrices on up to 5 qubits, up to 3 registers of up to 5 bits, operators on up to 5 qubits', samples=1000,
         thorough=4000)
def operations_large(vc):
    """Operations on many qubits."""
    with cpp(vc, warm=False):
        s01.operations_large_native(vc)


@bounded(P, [S + 'run', F + 'insert', F + 'perform_fusion'], 'up to 12 pending gates on up to 7 qubits', samples=250, thorough=4000)
def fusion_native(vc):
    """Long sequences of pending gates."""
    with cpp(vc):
        n = 1 + vc.pick('size', 7)
        sim, ids, psi = start(vc, n)
        vec = list(psi)
        for _ in range(1 + vc.pick('length', 12)):
            k = 1 + vc.pick('width', min(n, 3))
            perm = list(range(n))
            on = [perm.pop(vc.pick('target', len(perm))) for _ in range(k)]
            c = [p for p in perm if vc.pick('control', 3) == 0]
            m = s01.matrix(vc, k)
            sim.apply_controlled_gate(m, [ids[p] for p in on], [ids[p] for p in c])
            vec = W.apply_matrix(W.Float, vec, m, on, [(p, 1) for p in c])
            if vc.pick('run', 6) == 0:
                sim.run()
        same(vc, 'the gates are applied in order', sim, ids, vec)


@bounded(P, [S + 'run', F + 'insert', F + 'perform_fusion', F + 'handle_controls', F + 'add_controls'],
         'up to 24 pending gates on up to 8 qubits, in stretches of up to 8 gates under the same controls', samples=2000, thorough=40000)
def fusion_controls(vc):
    """Stretches of gates sharing controls, followed by gates with fewer, other or more controls."""
    import numpy as np

    from pv import fast
    with cpp(vc, warm=False):
        n = 2 + vc.pick('size', 7)
        few = min(n, 2 + vc.pick('support', 4))
        sim = s01.backend(vc)
        ids = list(range(n))
        for i in ids:
            sim.allocate_qubit(i)
        vec = fast.state(vc, n)
        sim.set_wavefunction([complex(x) for x in vec], ids)
        rng = np.random.default_rng(vc.pick('matrices', 1 << 20))
        base = [p for p in range(few) if vc.pick('base control', 3) == 0]
        for _ in range(1 + vc.pick('stretches', 3)):
            kind = vc.choose('controls', ['same', 'same', 'none', 'part', 'other'])
            c = {'same': base, 'none': [], 'part': base[1:], 'other': [p for p in range(few) if vc.pick('control', 3) == 0]}[kind]
            rest = [p for p in range(few) if p not in c]
            if not rest:
                c, rest = c[1:], c[:1]
            for _ in range(1 + vc.pick('length', 8)):
                order = list(rest)
                k = 1 if vc.flag('one') else 1 + vc.pick('width', min(len(rest), 3))
                on = [order.pop(vc.pick('target', len(order))) for _ in range(k)]
                m = np.linalg.qr(rng.normal(size=(1 << k, 1 << k)) + 1j * rng.normal(size=(1 << k, 1 << k)))[0]
                sim.apply_controlled_gate(m.tolist(), [ids[p] for p in on], [ids[p] for p in c])
                vec = fast.apply(vec, m, on, [(p, 1) for p in c])
        sim.run()
        order, got = sim.cheat()
        got = np.array(got)[np.array([sum((j >> p & 1) << order[q] for p, q in enumerate(ids)) for j in range(1 << n)])]
        fast.agree(vc, 'the gates are applied in order', got, vec)


@bounded(P, [S + f for f in ('get_probability', 'get_amplitude', 'get_expectation_value', 'collapse_wavefunction', 'measure_qubits', 'apply_qubit_operator')],
         'random states on 4 to 9 qubits, any ordered choice of qubits, operators of up to 6 terms', samples=100, thorough=1500)
def queries_large(vc):
    """Queries about many qubits, listed in any order."""
    with cpp(vc, warm=False):
        s03.queries_large(vc)


@bounded(P, [S + 'measure_qubits', S + 'collapse_wavefunction', S + 'get_probability'],
         'registers of 12 to 14 qubits with 8 threads, sparse product states', samples=12, thorough=100)
def threads(vc):
    """Sums over the register with several threads."""
    variant = vc.choose('kernels', cppsim.VARIANTS)
    with cpp(vc, variant, warm=False):
        lib = cppsim.native(variant)[1]
        lib.verif_threads(8)
        n = 12 + vc.pick('size', 3)
        sim = s01.backend(vc)
        for i in range(n):
            sim.allocate_qubit(i)
        p = []
        for i in range(n):
            a = 0.3 + 0.9 * vc.real('angle', 0, 1)
            p.append(math.sin(a) ** 2)
            sim.apply_controlled_gate([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]], [i], [])
        on = [i for i in range(n) if vc.flag('asked')]
        bits = [vc.pick('bit', 2) for _ in on]
        want = math.prod(p[i] if b else 1 - p[i] for i, b in zip(on, bits))
        for _ in range(5):
            vc.ensure('the probability', abs(sim.get_probability([bool(b) for b in bits], on) - want) < 1e-9)
            z = sim.get_expectation_value([([(0, 'Z'), (1, 'Z')], 1.0)], [0, n - 1])
            vc.ensure('the expectation value', abs(z - (1 - 2 * p[0]) * (1 - 2 * p[n - 1])) < 1e-9)
        if vc.flag('measure'):
            bits = [int(b) for b in sim.measure_qubits(on)]
        else:
            sim.collapse_wavefunction(on, [bool(b) for b in bits])
        vc.ensure('normalised', abs(sim.get_probability([], []) - 1) < 1e-9)
        vc.ensure('the outcome is certain', abs(sim.get_probability([bool(b) for b in bits], on) - 1) < 1e-9)
        rest = [i for i in range(n) if i not in on][:2]
        for i in rest:
            vc.ensure('other qubits are unaffected', abs(sim.get_probability([True], [i]) - p[i]) < 1e-9)
        lib.verif_threads(1)


@bounded(P, [S + 'measure_qubits'], 'one state per run, 2000 draws of the real random source, deviations up to 6 standard deviations accepted', samples=4, thorough=40)
def frequencies(vc):
    """Outcomes are drawn with the probabilities of the state."""
    with cpp(vc, warm=False):
        s03.frequencies(vc)
