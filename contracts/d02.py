"""D02: register-sized decomposition rules implement their gate at every size."""
import itertools
import math
from fractions import Fraction

from pv import num
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.cengines._replacer._replacer import NoGateDecompositionError
from projectq.meta import Control, Dagger, Loop
from projectq.ops import Command, QubitOperator, TimeEvolution, get_inverse

from .c01 import Tag, qs
from .d01 import D, TOL, module, replace, rule_set, same_operator

P = 'D02'


def funs(*names):
    return [D + n + '.' + k for n in names for k, v in vars(module(n)).items()
            if callable(v) and getattr(v, '__module__', '') == D + n]


def ids_for(vc, n):
    """Positions of the qubits of a command among the hardware ids: in order, reversed, mixed."""
    perms = [list(range(n)), list(range(n))[::-1], [(3 * i + 1) % n if n % 3 else (2 * i + 1) % n if n % 2 else (i + 1) % n for i in range(n)]]
    return vc.choose('ids', perms[:1] if n == 1 else perms[:2] if n == 2 else perms)


def cmd_of(gate, regs, ctrls, state=None):
    def make(eng):
        return Command(eng, gate, tuple(qs(eng, r) for r in regs), controls=qs(eng, ctrls), tags=[Tag(1)],
                       **({} if state is None else {'control_state': state}))
    return make


# --- Fourier transform, entangle, barrier -------------------------------------------------------------------------------
@contract(P, funs('qft2crandhadamard'), samples=20, size_bound='registers of 1..4 qubits, at most 2 control qubits')
def qft(vc):
    """Fourier transform (without the final swaps) and its inverse, controlled."""
    n = 1 + vc.pick('size', 4)
    k = vc.pick('controls', 3 if n < 4 else 2)
    p = ids_for(vc, n + k)
    g = get_inverse(ops.QFT) if vc.flag('inverse') else ops.QFT
    out = replace(vc, ['qft2crandhadamard'], cmd_of(g, [p[:n]], p[n:]))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)


@contract(P, funs('entangle'), samples=20, size_bound='registers of 1..5 qubits, at most 2 control qubits')
def entangle(vc):
    """Entangle, controlled."""
    n = 1 + vc.pick('size', 5)
    k = vc.pick('controls', 3 if n < 4 else 2)
    p = ids_for(vc, n + k)
    out = replace(vc, ['entangle'], cmd_of(ops.Entangle, [p[:n]], p[n:]))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)


@contract(P, funs('barrier'), samples=10)
def barrier(vc):
    """A barrier disappears, whatever qubits it spans."""
    n = 1 + vc.pick('size', 4)
    out = replace(vc, ['barrier'], cmd_of(ops.Barrier, [list(range(n))], []))
    vc.ensure('offered', out is not None)
    vc.ensure('nothing remains', not out[1])


# --- uniformly controlled rotations --------------------------------------------------------------------------------------
@contract(P, funs('uniformlycontrolledr2cnot'), samples=60, budget=100, size_bound='3 uniform controls',
          assumptions=['no rotation of the decomposition vanishes (vanishing ones are dropped: smaller sizes)'])
def uniformly_controlled_3(vc):
    """Three uniform controls, all angles."""
    cls = vc.choose('class', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
    angles = [vc.angle(f'a{i}') for i in range(8)]
    if vc.symbolic:
        for w in range(8):
            vc.assume(sum((a * (-1 if bin(w & i).count('1') % 2 else 1) for i, a in enumerate(angles[1:], 1)), angles[0]) != 0)
    p = vc.choose('ids', [[0, 1, 2, 3], [3, 1, 0, 2]])
    out = replace(vc, ['uniformlycontrolledr2cnot'], cmd_of(cls(angles), [p[:3], p[3:]], []))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)


@contract(P, funs('uniformlycontrolledr2cnot'), samples=150, budget=100, size_bound='at most 2 uniform controls, at most 2 control qubits')
def uniformly_controlled(vc):
    """All angles."""
    n = vc.pick('size', 3)
    k = vc.pick('controls', 3 if n < 3 else 2)
    cls = vc.choose('class', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
    angles = [vc.angle(f'a{i}') for i in range(1 << n)]
    p = ids_for(vc, n + 1 + k)
    g = cls(angles)
    out = replace(vc, ['uniformlycontrolledr2cnot'], cmd_of(g, [p[:n], p[n:n + 1]], p[n + 1:]))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)
    vc.ensure('the gate is unchanged', len(g.angles) == 1 << n)


@contract(P, funs('uniformlycontrolledr2cnot'), samples=60)
def uniformly_controlled_malformed(vc):
    """A wrong number of angles or registers is refused."""
    cls = vc.choose('class', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
    regs, n = vc.choose('regs', [([[0], [1]], 1), ([[0], [1]], 4), ([[0, 1], [2]], 2), ([[0, 1], [2]], 8), ([[0], [1, 2]], 2), ([[0, 1]], 2),
                                 ([[0], [1], [2]], 4)])
    k = vc.pick('controls', 2)
    vc.raises('refused', (TypeError, ValueError),
              lambda: replace(vc, ['uniformlycontrolledr2cnot'], cmd_of(cls([0.5] * n), regs, [8, 9][:k])))


# --- multi-controlled gates -----------------------------------------------------------------------------------------------
def with_ancillas(vc, name, ref, cmds, exact=True):
    """Ancillas start in zero, are returned to zero, and the rest undergoes the operator of the command."""
    ids = sorted(q.id for r in ref.all_qubits for q in r)
    anc, live, events = [], set(), []
    for c in cmds:
        if isinstance(c.gate, ops.AllocateQubitGate):
            q = c.qubits[0][0].id
            vc.ensure('a fresh qubit', q not in ids and q not in live)
            live.add(q)
            anc.append(q)
        elif isinstance(c.gate, ops.DeallocateQubitGate):
            q = c.qubits[0][0].id
            vc.ensure('a live qubit of the rule is returned', q in live)
            live.discard(q)
        else:
            vc.ensure('only live qubits are used', all(q.id in ids or q.id in live for r in c.all_qubits for q in r), str(c))
    vc.ensure('all ancillas are returned', not live)
    B = W.nb(vc)
    alln = ids + anc
    quantum = [c for c in cmds if not W.is_classical(c)]
    got = W.unitary(B, quantum, alln, cols=range(1 << len(ids)))
    want = W.unitary(B, [ref], ids)
    want = want + [[B.c(0)] * (1 << len(ids)) for _ in range((1 << len(alln)) - (1 << len(ids)))]
    vc.mat_eq(name, got, want, phase=not exact)
    del events


@contract(P, funs('cnu2toffoliandcu'), samples=80, budget=100, size_bound='2..4 control qubits')
def multi_controlled(vc):
    """Any one- or two-qubit gate with two or more controls; ancillas are returned to zero."""
    name = vc.choose('gate', ['X', 'Z', 'matrix', 'Ph', 'Swap', 'X matrix'])
    k = 2 + vc.pick('controls', 3)
    if name == 'matrix':
        from .d01 import mgate
        a, b, c, d = [vc.angle(f'p{i}') for i in range(4)]
        from .d01 import umat
        g = mgate(vc, umat(W.nb(vc), a, b, c, d))
    else:
        g = {'X': lambda: ops.X, 'Z': lambda: ops.Z, 'Ph': lambda: ops.Ph(vc.angle('a')), 'Swap': lambda: ops.Swap,
             'X matrix': lambda: ops.MatrixGate([[0, 1], [1, 0]])}[name]()
    w = 2 if name == 'Swap' else 1
    p = ids_for(vc, w + k)
    vc.ghost['abstract allclose'] = True

    def make(eng):
        W.reserve(eng, 100)
        return cmd_of(g, [[i] for i in p[:w]], p[w:])(eng)
    out = replace(vc, ['cnu2toffoliandcu'], make)
    if out is None:
        vc.ensure('refused only for the Toffoli gate', name == 'X' and k == 2)
        return
    vc.ensure('the Toffoli gate itself is not replaced by Toffoli gates', not (name == 'X' and k == 2))
    with_ancillas(vc, 'the emitted circuit implements the command', *out)
    for c in out[1]:
        vc.ensure('at most two controls remain', len(c.control_qubits) <= 2, str(c))


@contract(P, funs('cnu2toffoliandcu'), samples=20)
def multi_controlled_not_offered(vc):
    """Fewer than two controls are not the business of this rule."""
    k = vc.pick('controls', 2)
    g = vc.choose('gate', [ops.X, ops.H, ops.Ph(0.3), ops.Swap])
    w = 2 if g is ops.Swap else 1
    out = replace(vc, ['cnu2toffoliandcu'], cmd_of(g, [[i] for i in range(w)], list(range(w, w + k))))
    if out is not None:
        with_ancillas(vc, 'implements the command', *out, exact=bool(k))


# --- negative controls ---------------------------------------------------------------------------------------------------
@contract(P, funs('controlstate') + ['projectq.meta._control.has_negative_control'], samples=60, size_bound='at most 3 control qubits')
def control_state(vc):
    """Every pattern of control values; also when another rule would match."""
    k = 1 + vc.pick('controls', 3)
    name = vc.choose('gate', ['X', 'Rz', 'Swap', 'matrix'])
    if name == 'matrix':
        from .d01 import mgate, umat
        g = mgate(vc, umat(W.nb(vc), *[vc.angle(f'p{i}') for i in range(4)]))
    else:
        g = {'X': lambda: ops.X, 'Rz': lambda: ops.Rz(vc.angle('a')), 'Swap': lambda: ops.Swap}[name]()
    w = 2 if name == 'Swap' else 1
    p = ids_for(vc, w + k)
    state = ''.join(vc.choose('value', '01') for _ in range(k))
    names = vc.choose('modules', [['controlstate'], ['controlstate', 'cnot2cz', 'crz2cxandrz', 'swap2cnot', 'carb1qubit2cnotrzandry']])
    if '0' not in state and len(names) > 1:
        return
    out = replace(vc, names, cmd_of(g, [[i] for i in p[:w]], p[w:], state))
    if out is None:
        vc.ensure('refused only without negative controls', '0' not in state)
        return
    vc.ensure('offered only for negative controls', '0' in state)
    same_operator(vc, *out, phase=False)
    for c in out[1]:
        vc.ensure('no negative control remains', '0' not in str(c.control_state if c.control_qubits else ''))
        vc.ensure('tags once', c.tags.count(Tag(1)) == 1)


# --- Pauli strings and time evolution --------------------------------------------------------------------------------------
def pauli(vc, n, full=False):
    """An arbitrary Pauli string on n qubits (full: acting on every qubit)."""
    letters = [vc.choose('P', 'XYZ' if full else 'IXYZ') for _ in range(n)]
    return tuple((i, c) for i, c in enumerate(letters) if c != 'I')


@contract(P, funs('qubitop2onequbit'), samples=150, size_bound='strings on at most 3 qubits')
def pauli_string(vc):
    """Every Pauli string with every unit coefficient, zero or one control, including its phase."""
    n = 1 + vc.pick('size', 3)
    k = vc.pick('controls', 2)
    term = pauli(vc, n)
    op = QubitOperator(term, 1.0)
    phi = vc.angle('phi')
    op.terms[term] = W.nb(vc).expi(phi)
    if vc.symbolic:
        vc.assume(phi > -num.PI * 3)
        vc.assume(phi < num.PI * 3)
    p = ids_for(vc, n + k)
    out = replace(vc, ['qubitop2onequbit'], _with_inverse(vc, op, [p[:n]], p[n:]))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)


def _with_inverse(vc, op, regs, ctrls):
    return cmd_of(op, regs, ctrls)


@contract(P, funs('qubitop2onequbit'), samples=40)
def pauli_string_refused(vc):
    """More than one register is an error; more than one control is not offered."""
    op = QubitOperator('X0 Y1')
    if vc.flag('registers'):
        vc.raises('refused', ValueError, lambda: replace(vc, ['qubitop2onequbit'], cmd_of(op, [[0], [1]], [])))
        return
    k = 2 + vc.pick('controls', 2)
    out = replace(vc, ['qubitop2onequbit'], cmd_of(op, [[0, 1]], list(range(2, 2 + k))))
    if out is not None:
        same_operator(vc, *out, phase=False)


@contract(P, funs('time_evolution'), samples=150, size_bound='strings on at most 3 qubits')
def evolve_time(vc):
    """exp(-i t c P) for every non-empty string that spans its register, every t."""
    _evolve(vc, vc.real('t'), vc.choose('c', [-0.5, 2.25]))


@contract(P, funs('time_evolution'), samples=150, size_bound='strings on at most 3 qubits')
def evolve_coefficient(vc):
    """exp(-i t c P) for every non-empty string that spans its register, every c."""
    _evolve(vc, vc.choose('t', [-0.5, 3.5]), vc.real('c'))


def _evolve(vc, t, c):
    n = 1 + vc.pick('size', 3)
    k = vc.pick('controls', 3 if n < 3 else 2)
    term = pauli(vc, n, full=True)
    h = QubitOperator(term, 1.0)
    h.terms[term] = c
    p = ids_for(vc, n + k)
    out = replace(vc, ['time_evolution'], cmd_of(TimeEvolution(t, h), [p[:n]], p[n:]))
    vc.ensure('offered', out is not None)
    same_operator(vc, *out, phase=False)


COMMUTING = ['X0,X1', 'X0 X1,Y0 Y1,Z0 Z1', 'Z0,Z1,Z0 Z1', 'X0 Y1,Y0 X1', 'Z0,', 'X0,Y1 Z2,', 'X0 X1 X2,Z0 Z1', 'Y0,Y0 Y1,Y2']


@contract(P, funs('time_evolution'), samples=200, budget=100, size_bound='the listed sets of commuting strings on at most 3 qubits')
def evolve_commuting(vc):
    """Sums of commuting strings: every time and every coefficient (one of them symbolic at a time)."""
    terms = vc.choose('terms', COMMUTING).split(',')
    ops_ = [next(iter(QubitOperator(t, 1.0).terms)) for t in terms]
    n = 1 + max(i for t in ops_ for i, _ in t)
    k = vc.pick('controls', 3 if n < 3 else 2)
    h = QubitOperator(ops_[0], 1.0)
    h.terms.clear()
    if vc.flag('symbolic time'):
        t, cs = vc.real('t', 0, nonzero=True), [[0.75, -1.5, 2.0][i % 3] for i in range(len(ops_))]
    else:
        t, cs = 0.5, [vc.real(f'c{i}') for i in range(len(ops_))]
    for o, c in zip(ops_, cs):
        h.terms[o] = c
    p = ids_for(vc, n + k)
    make = cmd_of(TimeEvolution(t, h), [p[:n]], p[n:])
    out = replace(vc, ['time_evolution'], make)
    vc.ensure('offered', out is not None)
    ref, cmds = out
    for c in cmds:
        vc.ensure('single terms remain', isinstance(c.gate, ops.Ph) or len(c.gate.hamiltonian.terms) == 1, str(c))
    same_operator(vc, ref, cmds, phase=False)


@contract(P, funs('time_evolution'), samples=60)
def evolve_not_offered(vc):
    """Non-commuting terms are not offered a product, whatever the units of time and energy."""
    terms = vc.choose('terms', ['X0,Z0', 'X0 X1,Z0,Z1', 'X0,Y0', 'X0 Y1,Z0 Z1,Z0'])
    scale = vc.choose('scale', [1.0, 1e-3, 1e-5, 1e-7, 1e6])
    h = QubitOperator()
    for t in terms.split(','):
        h += QubitOperator(t, scale * vc.choose('c', [1.0, -0.5]))
    n = 1 + max(i for t in h.terms for i, _ in t)
    k = vc.pick('controls', 2)
    out = replace(vc, ['time_evolution'], cmd_of(TimeEvolution(vc.choose('t', [0.7, 2.0]) / scale, h), [list(range(n))], list(range(n, n + k))))
    if out is not None:
        vc.unreachable('a product formula for non-commuting terms', str(h))


@contract(P, funs('time_evolution'), samples=20)
def evolve_refused(vc):
    """A term which does not span its register (or is empty) is an error of the one-term rule."""
    t = vc.choose('term', ['', 'X0 Y2', 'Z0 Z1'])
    n = {'': 1, 'X0 Y2': 3, 'Z0 Z1': 3}[t]
    vc.raises('refused', ValueError, lambda: replace(vc, ['time_evolution'], cmd_of(TimeEvolution(0.5, QubitOperator(t)), [list(range(n))], [])))


# --- state preparation -----------------------------------------------------------------------------------------------------
class Amplitudes:
    """Every state of n qubits: binary tree of angles for the magnitudes, one phase per amplitude."""

    def __init__(self, vc, n, zero=()):
        num.ANGLES.clear()
        self.n = n
        amps = self.tree(vc, n, '', zero)
        self.state = []
        for i, a in enumerate(amps):
            if vc.symbolic:
                f = vc.real(f'f{i}')
                vc.assume(f > -num.PI)
                vc.assume(f <= num.PI)
                self.state.append(a * num.expi(f))
            else:
                self.state.append(a * W.Float.expi(vc.real(f'f{i}')))

    def tree(self, vc, n, path, zero):
        """Magnitudes of the block whose high bits are `path`; index order."""
        if n == 0:
            return [1]
        kind = vc.choose(f'split{path}', ['generic', 'low', 'high']) if len(path) < 1 else 'generic'
        lo, hi = self.tree(vc, n - 1, path + '0', zero), self.tree(vc, n - 1, path + '1', zero)
        if kind == 'generic':
            if vc.symbolic:
                t, r, s = vc.real(f't{path}'), vc.real(f'r{path}'), vc.real(f's{path}')
                num.ANGLES[next(iter(t.vars()))] = (r, s)
                vc.assume(t > 0)
                vc.assume(t < num.PI / 2)
                vc.assume(r > 0)
                vc.assume(s > 0)
                vc.assume(r * r + s * s == 1)
            else:
                t = vc.real(f't{path}', 0, math.pi / 2)
                if vc.pick('small', 4) == 0:
                    t = 10.0 ** -vc.pick('exp', 200)
                r, s = math.cos(t), math.sin(t)
        else:
            r, s = (1, 0) if kind == 'low' else (0, 1)
        return [r * x for x in lo] + [s * x for x in hi]


def prepared(vc, ref, cmds, state, n, k, p):
    B = W.nb(vc)
    ids = p
    full = (1 << k) - 1
    for c in range(1 << k):
        v = W.run_cmds(B, cmds, ids, W.basis(B, n + k, c << n))
        if c == full:
            want = [B.c(0)] * (1 << (n + k))
            for i, a in enumerate(state):
                want[i | (c << n)] = B.c(a)
        else:
            want = W.basis(B, n + k, c << n)
        vc.mat_eq(f'controls {c:0{max(k, 1)}b}: the documented state', [[x] for x in v], [[x] for x in want], phase=False)


@contract(P, funs('stateprep2cnot'), samples=300, budget=100, size_bound='registers of 1..2 qubits, at most 1 control qubit',
          assumptions=['magnitudes of a block are written as a product of cosines and sines (every state is of this form)',
                       'the check of the norm is the subject of state_preparation_refused'])
def state_preparation(vc):
    """Every state (also with vanishing blocks): the register in zero is mapped to it, phases included; controlled."""
    try:
        n = 1 + vc.pick('size', 2)
        k = vc.pick('controls', 2)
        st = Amplitudes(vc, n).state
        p = list(range(n + k)) if vc.flag('order') else list(range(k, n + k))[::-1] + list(range(k))
        out = replace(vc, ['stateprep2cnot'], cmd_of(ops.StatePreparation(st), [p[:n]], p[n:]))
        vc.ensure('offered', out is not None)
        prepared(vc, out[0], out[1], st, n, k, p)
    finally:
        num.ANGLES.clear()


@bounded(P, funs('stateprep2cnot'), 'random states of at most 4 qubits: generic, sparse, amplitudes of very different size down to 1e-200; '
         'at most 2 control qubits', samples=500, thorough=10000)
def states(vc):
    """State preparation at more sizes."""
    n = 1 + vc.pick('size', 4)
    k = vc.pick('controls', 3)
    st = []
    for i in range(1 << n):
        kind = vc.pick('kind', 4)
        mag = 0.0 if kind == 0 else 10.0 ** -vc.pick('exp', 200) if kind == 1 else vc.real(f'm{i}', 0, 1)
        st.append(mag * W.Float.expi(vc.choose('phase', [0, math.pi, math.pi / 2, vc.real('f')])))
    norm = math.sqrt(sum(abs(a) ** 2 for a in st))
    if norm < 1e-3:
        return
    st = [a / norm for a in st]
    p = list(range(n + k))
    out = replace(vc, ['stateprep2cnot'], cmd_of(ops.StatePreparation(st), [p[:n]], p[n:]))
    prepared(vc, out[0], out[1], st, n, k, p)


@contract(P, funs('stateprep2cnot'), samples=40)
def state_preparation_refused(vc):
    """Wrong length, wrong norm or several registers."""
    k = vc.pick('controls', 2)
    st, regs = vc.choose('bad', [([1, 0], [[0, 1]]), ([1, 0, 0, 0], [[0]]), ([1, 1], [[0]]), ([0.9, 0], [[0]]), ([1, 0, 0, 0], [[0], [1]]),
                                 ([0, 0], [[0]]), ([1.00001, 0], [[0]]), ([1, 0, 0], [[0, 1]])])
    vc.raises('refused', ValueError, lambda: replace(vc, ['stateprep2cnot'], cmd_of(ops.StatePreparation(st), regs, [8, 9][:k])))


# --- phase estimation and amplitude amplification ----------------------------------------------------------------------------
def expand_loops(cmds):
    from pv import progs
    return progs.unroll_tags(cmds) if hasattr(progs, 'unroll_tags') else cmds


def decomposed(vc, names, make):
    return replace(vc, names, make)


@contract(P, funs('phaseestimation'), samples=150, budget=100, size_bound='at most 3 ancillas, 1..2 system qubits, at most 1 control qubit')
def phase_estimation(vc):
    """QPE of a gate or a function: inverse Fourier transform of the controlled powers on uniformly superposed ancillas."""
    n = 1 + vc.pick('ancillas', 3)
    k = vc.pick('controls', 2)
    kind = vc.choose('unitary', ['Rz', 'Ph', 'X', 'function', 'Rzz'])
    w = 2 if kind in ('function', 'Rzz') else 1
    th = vc.angle('theta')

    def function(system, time):
        ops.CNOT | (system[0], system[1])
        ops.Ph(th * time) | system[1]
        ops.Rz(th * time) | system[0]
        ops.CNOT | (system[0], system[1])
    u = {'Rz': lambda: ops.Rz(th), 'Ph': lambda: ops.Ph(th), 'X': lambda: ops.X, 'function': lambda: function, 'Rzz': lambda: ops.Rzz(th)}[kind]()
    p = ids_for(vc, n + w + k)
    out = replace(vc, ['phaseestimation'], cmd_of(ops.QPE(u), [p[:n], p[n:n + w]], p[n + w:]))
    vc.ensure('offered', out is not None)
    # specification
    ctrl = p[n + w:]
    spec = [W.mkcmd(ops.H, [[a]], ctrl) for a in p[:n]]
    s = p[n:n + w]
    for i in range(n):
        cc = ctrl + [p[i]]
        for _ in range(1 if kind == 'function' else 1 << i):
            if kind == 'function':
                spec += [W.mkcmd(ops.X, [[s[1]]], cc + [s[0]]), W.mkcmd(ops.Ph(th * (1 << i)), [[s[1]]], cc),
                         W.mkcmd(ops.Rz(th * (1 << i)), [[s[0]]], cc), W.mkcmd(ops.X, [[s[1]]], cc + [s[0]])]
            else:
                spec.append(W.mkcmd(u, [s], cc))
    spec.append(W.mkcmd(get_inverse(ops.QFT), [p[:n][::-1]], ctrl))
    B = W.nb(vc)
    cmds = out[1]
    for c in cmds:
        vc.ensure('no loop instruction is left without support', not W.is_classical(c), str(c))
    ids = sorted(p)
    vc.mat_eq('the emitted circuit is the documented algorithm', W.unitary(B, cmds, ids), W.unitary(B, spec, ids))


@contract(P, funs('phaseestimation'), samples=60, size_bound='at most 4 ancillas')
def phase_estimation_exact(vc):
    """A phase that is a multiple of 2 pi / 2^n is read off exactly (first ancilla is the most significant digit)."""
    n = 1 + vc.pick('ancillas', 4)
    j = vc.pick('phase', 1 << n)
    B = W.nb(vc)
    from pv.num import PI
    pi = PI if vc.symbolic else math.pi
    u = ops.R(pi * 2 * j * (Fraction(1, 1 << n) if vc.symbolic else 1.0 / (1 << n)))
    p = list(range(n + 1))
    out = replace(vc, ['phaseestimation'], cmd_of(ops.QPE(u), [p[:n], p[n:]], []))
    v = W.run_cmds(B, out[1], p, W.basis(B, n + 1, 1 << n))
    bits = format(j, f'0{n}b')
    want = sum(1 << i for i, b in enumerate(bits) if b == '1') | (1 << n)
    vc.mat_eq('the phase in binary', [[x] for x in v], [[x] for x in W.basis(B, n + 1, want)], phase=False)


@contract(P, funs('amplitudeamplification'), samples=150, budget=100, size_bound='1..3 system qubits, at most 1 control qubit')
def amplitude_amplification(vc):
    """One step is -A S0 A^-1 O for the given algorithm A and oracle O; controlled."""
    n = 1 + vc.pick('system', 3)
    k = vc.pick('controls', 2 if n < 3 else 1)
    th = vc.angle('theta')
    mark = vc.pick('marked', 1 << n)
    p = ids_for(vc, n + 1 + k)
    sys_, anc, ctrl = p[:n], p[n], p[n + 1:]
    style = vc.choose('oracle', ['ancilla', 'phase'])

    def alg(eng, system):
        for q in system:
            ops.Ry(th) | q
        for a, b in zip(system, system[1:]):
            ops.CNOT | (a, b)

    def oracle(eng, system, ancilla):
        if style == 'phase':
            ops.Rz(th) | system[0]
            return
        flips = [q for i, q in enumerate(system) if not mark >> i & 1]
        for q in flips:
            ops.X | q
        with Control(eng, system):
            ops.X | ancilla
        for q in flips:
            ops.X | q
    out = replace(vc, ['amplitudeamplification'], cmd_of(ops.QAA(alg, oracle), [sys_, [anc]], ctrl))
    vc.ensure('offered', out is not None)
    B = W.nb(vc)
    c = ctrl
    spec = []
    if style == 'phase':
        spec.append(W.mkcmd(ops.Rz(th), [[sys_[0]]], c))
    else:
        spec.append(W.mkcmd(ops.X, [[anc]], c + sys_, '1' * len(c) + ''.join(str(mark >> i & 1) for i in range(n))))
    a_fwd = [W.mkcmd(ops.Ry(th), [[q]]) for q in sys_] + [W.mkcmd(ops.X, [[b]], [a]) for a, b in zip(sys_, sys_[1:])]
    a_inv = [W.mkcmd(ops.X, [[b]], [a]) for a, b in reversed(list(zip(sys_, sys_[1:])))] + [W.mkcmd(ops.Ry(-th), [[q]]) for q in reversed(sys_)]
    s0 = [W.mkcmd(ops.X, [[q]]) for q in sys_] + [W.mkcmd(ops.Z, [[sys_[0]]], c + sys_[1:])] + [W.mkcmd(ops.X, [[q]]) for q in sys_]
    pi = num.PI if vc.symbolic else math.pi
    spec += a_inv + s0 + a_fwd + [W.mkcmd(ops.Ph(pi), [[sys_[0]]], c)]
    ids = sorted(p)
    vc.mat_eq('the emitted circuit is one amplification step', W.unitary(B, out[1], ids), W.unitary(B, spec, ids))


# --- larger sizes, the whole library ------------------------------------------------------------------------------------------
@bounded(P, funs('qft2crandhadamard', 'entangle', 'uniformlycontrolledr2cnot', 'cnu2toffoliandcu', 'qubitop2onequbit', 'time_evolution'),
         'random commands on at most 7 qubits through the full default rule set, any offered rule, random ids, control values zero or one',
         samples=250, thorough=5000)
def library(vc):
    """Register gates at larger sizes, replaced once by any rule of the default set."""
    import numpy as np
    import projectq.setups.decompositions as dec
    kind = vc.choose('kind', ['qft', 'iqft', 'entangle', 'ucr', 'cnu', 'pauli', 'evolve', 'prep'])
    n = 1 + vc.pick('size', 5 if kind not in ('ucr', 'evolve') else 4)
    k = vc.pick('controls', 3)
    if kind == 'cnu':
        n, k = 1, 2 + vc.pick('more', 4)
    state = ''.join(vc.choose('state', '1110') for _ in range(k))
    ids = list(range(n + k + (kind == 'ucr')))
    for i in range(len(ids) - 1):
        j = i + vc.pick('perm', len(ids) - i)
        ids[i], ids[j] = ids[j], ids[i]
    regs = [ids[:n]]
    rest = ids[n:]
    if kind == 'ucr':
        regs, rest = [ids[:n], ids[n:n + 1]], ids[n + 1:]
    g = {'qft': lambda: ops.QFT, 'iqft': lambda: get_inverse(ops.QFT), 'entangle': lambda: ops.Entangle,
         'ucr': lambda: vc.choose('cls', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])([vc.angle('a') for _ in range(1 << n)]),
         'cnu': lambda: vc.choose('g', [ops.X, ops.H, ops.Rz(vc.angle('a')), ops.Ph(vc.angle('a')), ops.SqrtX, get_inverse(ops.T)]),
         'pauli': lambda: QubitOperator(pauli(vc, n), vc.choose('coef', [1, -1, 1j, -1j])),
         'evolve': lambda: TimeEvolution(vc.real('t'), QubitOperator(pauli(vc, n, True), vc.real('c'))),
         'prep': lambda: None}[kind]()
    if kind == 'prep':
        return
    if kind == 'evolve' and n == 0:
        return
    first = [True]

    def avail(self, cmd):
        r = not first[0]
        first[0] = False
        return r
    eng, rec = W.make_eng([AutoReplacer(DecompositionRuleSet(modules=[dec]), lambda c, ds: ds[vc.pick('rule', len(ds))]), InstructionFilter(avail)])
    W.reserve(eng, 50)
    make = cmd_of(g, regs, rest, state if k else None)
    cmd, ref = make(eng), make(eng)
    eng.next_engine.receive([cmd])
    with_ancillas(vc, 'the emitted circuit implements the command', ref, rec.cmds, exact=bool(k) or kind in ('qft', 'entangle', 'pauli'))
    del np


@bounded(P, funs('qft2crandhadamard', 'entangle', 'uniformlycontrolledr2cnot', 'cnu2toffoliandcu', 'controlstate', 'qubitop2onequbit', 'time_evolution',
                 'stateprep2cnot', 'phaseestimation', 'amplitudeamplification'),
         'random commands at large sizes on random states: Fourier transform and Pauli strings of up to 9 qubits, entangling of up to 12, up to 8 uniform '
         'controls, up to 10 (negative) controls, evolution on up to 9 qubits, states of up to 8 qubits, phase estimation with up to 11 ancillas, '
         'amplification on up to 10 qubits', samples=700, thorough=12000)
def large(vc):
    """Every register-sized rule at sizes well above those of the contracts."""
    import numpy as np
    from pv import fast
    kind = vc.choose('kind', ['qft', 'entangle', 'ucr', 'cnu', 'negative', 'pauli', 'evolve', 'commuting', 'prep', 'qpe', 'qpe-function', 'qaa'])
    least, most = {'qft': (4, 9), 'entangle': (5, 12), 'ucr': (4, 8), 'cnu': (1, 1), 'negative': (1, 1), 'pauli': (4, 9), 'evolve': (4, 9),
                   'commuting': (4, 8), 'prep': (4, 8), 'qpe': (4, 9), 'qpe-function': (4, 11), 'qaa': (3, 10)}[kind]
    n = least + vc.pick('size', most - least + 1)
    k = 4 + vc.pick('many controls', 7) if kind in ('cnu', 'negative') else vc.pick('controls', 3 if kind != 'pauli' else 2)
    other = {'ucr': 1, 'qpe': 1 + vc.pick('system', 2), 'qpe-function': 2, 'qaa': 1}.get(kind, 0)
    total = n + other + k
    ids = list(range(total))
    for i in range(total - 1):
        j = i + vc.pick('perm', total - i)
        ids[i], ids[j] = ids[j], ids[i]
    regs = [ids[:n], ids[n:n + other]] if other else [ids[:n]]
    ctrl = ids[n + other:]
    on = [(q, 1) for q in ctrl]
    state = None
    vec = fast.state(vc, total)
    rng = np.random.default_rng(vc.pick('numbers', 1 << 20))
    if kind == 'qft':
        g = vc.choose('which', [ops.QFT, get_inverse(ops.QFT)])
        names = ['qft2crandhadamard']
    elif kind == 'entangle':
        g, names = ops.Entangle, ['entangle']
        m = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
        want = fast.apply(vec, m, [ids[0]], on)
        for q in ids[1:n]:
            want = fast.apply(want, [[0, 1], [1, 0]], [q], on + [(ids[0], 1)])
    elif kind == 'ucr':
        cls = vc.choose('cls', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])
        angles = [float(a) for a in rng.uniform(-7, 7, 1 << n)]
        g, names = cls(angles), ['uniformlycontrolledr2cnot']
        want = vec
        for b, a in enumerate(g.angles):
            want = fast.apply(want, W.rot(W.Float, cls.__name__[-1].upper(), a), [ids[n]], on + [(q, b >> i & 1) for i, q in enumerate(ids[:n])])
    elif kind in ('cnu', 'negative'):
        th = float(rng.uniform(-7, 7))
        g = vc.choose('gate', [ops.X, ops.X, ops.H, ops.Rz(th), ops.Ph(th), ops.SqrtX])
        names = ['cnu2toffoliandcu'] if kind == 'cnu' else ['controlstate']
        if kind == 'negative':
            state = ''.join(vc.choose('value', '10') for _ in range(k))
            if '0' not in state:
                return
            on = [(q, int(b)) for q, b in zip(ctrl, state)]
    elif kind == 'pauli':
        g, names = QubitOperator(pauli(vc, n), vc.choose('coef', [1, -1, 1j, -1j])), ['qubitop2onequbit']
    elif kind == 'evolve':
        t, c = float(rng.uniform(-4, 4)), float(rng.uniform(-2, 2))
        term = pauli(vc, n, True)
        g, names = TimeEvolution(t, QubitOperator(term, c)), ['time_evolution']
    elif kind == 'commuting':
        letters = [vc.choose('letter', 'XYZ') for _ in range(n)]
        h = QubitOperator()
        odd = vc.pick('one not commuting', 24)
        for i_ in range(2 + vc.pick('terms', 9)):
            term = tuple((i, a if i_ != odd or i else 'XYZ'['XYZ'.index(a) - 1]) for i, a in enumerate(letters) if vc.pick('in', 3))
            h += QubitOperator(term or ((0, letters[0]),), float(rng.uniform(-2, 2)))
        if vc.pick('two at the end', 5) == 0:
            h = QubitOperator() + sum((QubitOperator(tuple(x for x in t if x[0] < n - 1) or ((0, letters[0]),), 0.3) for t in h.terms), QubitOperator())
            for a in 'XZ':
                h += QubitOperator(((n - 1, a),), float(rng.uniform(0.5, 2)))
        if len(h.terms) < 2:
            return
        g, names = TimeEvolution(float(rng.uniform(-4, 4)), h), ['time_evolution']
    elif kind == 'prep':
        st = rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n)
        st[rng.uniform(size=1 << n) < vc.choose('zeros', [0.0, 0.5, 0.9])] = 0
        if np.linalg.norm(st) == 0:
            return
        st = st / np.linalg.norm(st)
        g, names = ops.StatePreparation([complex(a) for a in st]), ['stateprep2cnot']
        spread = vec.reshape((2,) * total)
        # the register in zero, the controls in a random state
        zero = np.zeros_like(spread)
        at = [0 if total - 1 - a in ids[:n] else slice(None) for a in range(total)]
        zero[tuple(at)] = spread[tuple(at)]
        vec = zero.reshape(-1) / np.linalg.norm(zero)
        mat = np.zeros((1 << n, 1 << n), complex)
        mat[:, 0] = st
        want = fast.apply(vec, mat, ids[:n], on)
    elif kind == 'qpe-function':
        ph = [float(a) for a in rng.uniform(-4, 4, 4)]

        def function(system, time):
            for i in range(4):
                if i & 1:
                    ops.Ph(ph[i] * time) | system[1]
                else:
                    ops.Rz(ph[i] * time) | system[i // 2]
            with Control(system.engine if hasattr(system, 'engine') else system[0].engine, system[0]):
                ops.Rz(ph[0] * time) | system[1]
        g, names = ops.QPE(function), ['phaseestimation']
        want = vec
        for a in ids[:n]:
            want = fast.apply(want, np.array([[1, 1], [1, -1]]) / math.sqrt(2), [a], on)
        for i, a in enumerate(ids[:n]):
            u, t = on + [(a, 1)], 2 ** i
            s0, s1 = ids[n:n + 2]
            want = fast.apply(want, W.rot(W.Float, 'Z', ph[0] * t), [s0], u)
            want = fast.apply(want, W.rot(W.Float, 'Z', ph[2] * t), [s1], u)
            want = fast.apply(want, np.exp(1j * (ph[1] + ph[3]) * t) * np.eye(2), [s1], u)
            want = fast.apply(want, W.rot(W.Float, 'Z', ph[0] * t), [s1], u + [(s0, 1)])
        want = fast.command(want, W.mkcmd(get_inverse(ops.QFT), [ids[:n][::-1]], ctrl), {q: q for q in ids})
    elif kind == 'qpe':
        q_, r_ = np.linalg.qr(rng.normal(size=(1 << other, 1 << other)) + 1j * rng.normal(size=(1 << other, 1 << other)))
        g, names = ops.QPE(ops.MatrixGate(np.matrix(q_))), ['phaseestimation']
        want = vec
        for a in ids[:n]:
            want = fast.apply(want, np.array([[1, 1], [1, -1]]) / math.sqrt(2), [a], on)
        power = q_
        for a in ids[:n]:
            want = fast.apply(want, power, ids[n:n + other], on + [(a, 1)])
            power = power @ power
        want = fast.command(want, W.mkcmd(get_inverse(ops.QFT), [ids[:n][::-1]], ctrl), {q: q for q in ids})
    else:
        ang = [float(a) for a in rng.uniform(-4, 4, n)]
        mark = vc.pick('marked', 1 << n)

        def alg(eng, system):
            for q, a in zip(system, ang):
                ops.Ry(a) | q
            for a, b in zip(system, system[1:]):
                ops.CNOT | (a, b)

        def oracle(eng, system, ancilla):
            flips = [q for i, q in enumerate(system) if not mark >> i & 1]
            if flips:
                ops.All(ops.X) | flips
            with Control(eng, system):
                ops.X | ancilla
            if flips:
                ops.All(ops.X) | flips
        g, names = ops.QAA(alg, oracle), ['amplitudeamplification']
        x = [[0, 1], [1, 0]]
        want = fast.apply(vec, x, [ids[n]], on + [(q, mark >> i & 1) for i, q in enumerate(ids[:n])])
        for a, b in reversed(list(zip(ids[:n], ids[1:n]))):
            want = fast.apply(want, x, [b], [(a, 1)])
        for q, a in zip(ids, ang):
            want = fast.apply(want, W.rot(W.Float, 'Y', -a), [q])
        want = fast.apply(want, [[-1, 0], [0, 1]], [ids[0]], on + [(q, 0) for q in ids[1:n]])
        for q, a in zip(ids, ang):
            want = fast.apply(want, W.rot(W.Float, 'Y', a), [q])
        for a, b in zip(ids[:n], ids[1:n]):
            want = fast.apply(want, x, [b], [(a, 1)])
        want = fast.apply(want, [[-1, 0], [0, -1]], [ids[0]], on)
    first = [True]

    def avail(self, cmd):
        r = not first[0]
        first[0] = False
        return r
    eng, rec = W.make_eng([AutoReplacer(rule_set(*names), lambda c, ds: ds[vc.pick('rule', len(ds))]), InstructionFilter(avail)])
    W.reserve(eng, 50)
    if kind in ('evolve', 'commuting'):
        want = vec
        for term, c in g.hamiltonian.terms.items():
            want = fast.evolve(want, term, g.time * c, ids[:n], on)
    if kind in ('qft', 'cnu', 'negative', 'pauli'):
        want = fast.command(vec, cmd_of(g, regs, ctrl, state)(eng), {q: q for q in ids})
    offered = True
    try:
        eng.next_engine.receive([cmd_of(g, regs, ctrl, state)(eng)])
    except NoGateDecompositionError:
        offered = False
    apart = kind == 'commuting' and any(sum(1 for i, a in t for j, b in o if i == j and a != b) & 1 for t in h.terms for o in h.terms)
    vc.ensure('a rule is offered exactly if one applies', offered is not apart, str(g))
    if not offered:
        return
    got = fast.run(vec, expand_loops(rec.cmds), list(range(total)))
    fast.agree(vc, f'{kind}: the emitted circuit implements the command', got, want, phase=not k and kind in ('ucr', 'qaa', 'evolve', 'commuting', 'cnu'))
