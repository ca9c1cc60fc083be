"""S01: the Python simulator applies every gate exactly as its definition says."""
import cmath
import itertools
import math

from pv import num, shims
from pv import world as W
from pv.core import Unsupported, bounded, contract
from pv.num import Num

import projectq.ops as ops
from projectq.backends._sim import _pysim, _simulator
from projectq.ops import QubitOperator

P = 'S01'
S = 'projectq.backends._sim._pysim.Simulator.'
E = 'projectq.backends._sim._simulator.Simulator.'
IDS = [5, 2, 9, 4, 7, 1, 12, 3]


# --- states ---------------------------------------------------------------------------------------------------------------
def amplitudes(vc, size, zero=(), name='s'):
    """Arbitrary amplitudes, zero at the listed places; normalised in concrete runs."""
    out = [0.0 if i in zero else vc.cplx(f'{name}{i}') for i in range(size)]
    if not vc.symbolic:
        nrm = math.sqrt(sum(abs(x) ** 2 for x in out))
        out = [x / nrm for x in out] if nrm > 1e-6 else [1.0 if i == min(set(range(size)) - set(zero)) else 0.0 for i in range(size)]
    return out


def backend(vc):
    """A fresh simulator of the kind under contract."""
    return vc.ghost.get('backend', _pysim.Simulator)(1)


def start(vc, n, zero=(), psi=None):
    """A simulator in an arbitrary state of n qubits; bit k of psi's index is qubit ids[k]."""
    ids = IDS[:n]
    if psi is None:
        psi = amplitudes(vc, 1 << n, zero)
    sim = backend(vc)
    order = list(ids)
    for i in sorted(ids):
        sim.allocate_qubit(i)
    vc.ghost.get('warm', lambda *_: None)(sim, ids)
    sim.set_wavefunction(list(psi), order)
    return sim, ids, psi


def vector(sim, ids):
    """Amplitudes in the order given by ids (first least significant)."""
    where, vec = sim.cheat()
    out = []
    for i in range(1 << len(ids)):
        j = 0
        for k, q in enumerate(ids):
            j |= ((i >> k) & 1) << where[q]
        out.append(vec[j])
    return out


def same(vc, name, sim, ids, want):
    where, vec = sim.cheat()
    vc.ensure(name + ': exactly the live qubits', sorted(where) == sorted(ids) and sorted(where.values()) == list(range(len(ids))), str(where))
    vc.ensure(name + ': one amplitude per basis state', len(vec) == 1 << len(ids), f'{len(vec)}')
    got = vector(sim, ids)
    vc.mat_eq(name, [got], [list(want)])


def exact(fn):
    """Symbolic runs compute on exact numbers throughout."""
    def wrapped(vc):
        with shims.arrays(vc.symbolic):
            return fn(vc)
    wrapped.__name__, wrapped.__doc__ = fn.__name__, fn.__doc__
    return wrapped


def matrix(vc, k):
    """An arbitrary complex matrix (unitary in concrete runs, for the sake of the numerics)."""
    d = 1 << k
    if vc.symbolic:
        return [[vc.cplx(f'm{i}_{j}') for j in range(d)] for i in range(d)]
    import numpy
    a = numpy.array([[vc.cplx(f'm{i}_{j}') for j in range(d)] for i in range(d)])
    return (numpy.linalg.qr(a + 0.01 * numpy.eye(d))[0]).tolist()


def split(vc, n, k):
    """An ordered choice of k targets and a set of controls among n qubits."""
    t = vc.choose('targets', list(itertools.permutations(range(n), k)))
    rest = [p for p in range(n) if p not in t]
    c = [p for p in rest if vc.flag('control')]
    return list(t), c


# --- gates ----------------------------------------------------------------------------------------------------------------
def _gate(vc, n, k):
    t, c = split(vc, n, k)
    sim, ids, psi = start(vc, n)
    m = matrix(vc, k)
    sim.apply_controlled_gate(m, [ids[p] for p in t], [ids[p] for p in c])
    B = W.nb(vc)
    same(vc, 'the state is multiplied by the matrix on the targets where all controls are one', sim, ids,
         W.apply_matrix(B, [B.c(x) for x in psi], m, t, [(p, 1) for p in c]))


@contract(P, [S + 'apply_controlled_gate', S + '_single_qubit_gate', S + '_get_control_mask'], samples=80,
          size_bound='registers of at most 6 qubits')
@exact
def gate_on_one(vc):
    """Every 2x2 matrix, every state, every position and control set."""
    _gate(vc, 1 + vc.pick('size', 6), 1)


@contract(P, [S + 'apply_controlled_gate', S + '_multi_qubit_gate', S + '_get_control_mask'], samples=80,
          size_bound='registers of at most 5 qubits')
@exact
def gate_on_two(vc):
    """Every 4x4 matrix, every state, ordered pair of targets and control set."""
    _gate(vc, 2 + vc.pick('size', 4), 2)


@contract(P, [S + 'apply_controlled_gate', S + '_multi_qubit_gate', S + '_get_control_mask'], samples=60,
          size_bound='registers of at most 5 qubits')
@exact
def gate_on_three(vc):
    """Every 8x8 matrix, every state, ordered triple of targets and control set."""
    _gate(vc, 3 + vc.pick('size', 3), 3)


@bounded(P, [S + 'apply_controlled_gate'], 'matrices on up to 5 qubits, registers of up to 7 qubits, random states and positions',
         samples=120, thorough=2000)
def gate_large(vc):
    """Larger registers."""
    n = 1 + vc.pick('size', 7)
    k = 1 + vc.pick('targets', min(n, 5))
    perm = list(range(n))
    order = []
    for _ in range(k):
        order.append(perm.pop(vc.pick('target', len(perm))))
    c = [p for p in perm if vc.flag('control')]
    sim, ids, psi = start(vc, n)
    m = matrix(vc, k)
    sim.apply_controlled_gate(m, [ids[p] for p in order], [ids[p] for p in c])
    same(vc, 'the state is multiplied by the matrix', sim, ids, W.apply_matrix(W.Float, psi, m, order, [(p, 1) for p in c]))


# --- arithmetic -----------------------------------------------------------------------------------------------------------
def _math(vc, sizes, spare, f, tag):
    n = sum(sizes) + spare
    perm = vc.choose('layout', list(itertools.permutations(range(n)))[::max(1, math.factorial(n) // 6)])
    regs, at = [], 0
    for s in sizes:
        regs.append(list(perm[at:at + s]))
        at += s
    c = [p for p in perm[at:] if vc.flag('control')]
    sim, ids, psi = start(vc, n)
    sim.emulate_math(f, [[ids[p] for p in r] for r in regs], [ids[p] for p in c])
    B = W.nb(vc)
    same(vc, tag, sim, ids, W.apply_perm(B, [B.c(x) for x in psi], f, regs, [(p, 1) for p in c]))


@contract(P, [S + 'emulate_math', S + '_get_control_mask'], samples=100, size_bound='two register bits in all, one spare qubit')
@exact
def arithmetic_any(vc):
    """Every reversible function of the register values; results may exceed the register (taken modulo its size)."""
    sizes = vc.choose('registers', [(2,), (1, 1), (1,)])
    vals = list(itertools.product(*[range(1 << s) for s in sizes]))
    image = vc.choose('function', list(itertools.permutations(vals)))
    over = vc.choose('excess', [0, 1, -1])
    table = dict(zip(vals, image))

    def f(args):
        return [v + (over << s) for v, s in zip(table[tuple(args)], sizes)]
    _math(vc, sizes, 1, f, 'basis states are permuted by the function where all controls are one')


@contract(P, [S + 'emulate_math', S + '_get_control_mask'], samples=100, size_bound='registers of at most 4 bits in all')
@exact
def arithmetic_some(vc):
    """Additions, products and comparisons on several registers and layouts; functions that update their argument list."""
    sizes = vc.choose('registers', [(3,), (2, 1), (1, 2), (1, 1, 1), (2, 2)])
    kind = vc.choose('function', ['add', 'sub', 'reverse', 'in place'])

    def f(args):
        if kind == 'add':
            return [args[0]] + [a + b for a, b in zip(args[1:], args)] if len(args) > 1 else [args[0] + 3]
        if kind == 'sub':
            return [args[0]] + [a - b for a, b in zip(args[1:], args)] if len(args) > 1 else [args[0] - 1]
        if kind == 'reverse':
            return tuple(~a for a in args)
        args[-1] += 1
        return args
    _math(vc, sizes, 0 if sum(sizes) > 3 else 1, f, 'basis states are permuted by the function')


# --- allocation -----------------------------------------------------------------------------------------------------------
@contract(P, [S + 'allocate_qubit', S + '__init__'], samples=60, size_bound='registers of at most 3 qubits')
@exact
def allocate(vc):
    """A qubit in state zero is appended; the state of the others is unchanged."""
    n = vc.pick('size', 4)
    if n:
        sim, ids, psi = start(vc, n)
    else:
        sim, ids, psi = backend(vc), [], [1.0]
        vc.ensure('no qubits at first', sim.cheat()[0] == {} and len(sim.cheat()[1]) == 1)
    before = dict(sim.cheat()[0])
    sim.allocate_qubit(77)
    same(vc, 'the new qubit is zero and the others are as before', sim, ids + [77], list(psi) + [0] * len(psi))
    vc.ensure('positions of the others are kept', all(sim.cheat()[0][k] == v for k, v in before.items()))
    if n:
        vc.raises('a qubit is allocated once', (RuntimeError, ValueError, KeyError), lambda: sim.allocate_qubit(ids[0]))
        same(vc, 'nothing happened', sim, ids + [77], list(psi) + [0] * len(psi))


@contract(P, [S + 'deallocate_qubit', S + 'get_classical_value'], samples=80, size_bound='registers of at most 3 qubits')
@exact
def deallocate(vc):
    """A classical qubit is removed: exactly it, and the others keep their state."""
    n = 1 + vc.pick('size', 3)
    p, v = vc.pick('which', n), vc.pick('value', 2)
    zero = [i for i in range(1 << n) if (i >> p) & 1 != v]
    rest = [i for i in range(1 << n) if i not in zero]
    if n == 3:      # larger registers: every pattern of vanishing and clearly nonvanishing amplitudes
        out = [i for i in rest[:-1] if vc.flag('vanishes')]
        rest = [i for i in rest if i not in out]
    sim, ids, psi = start(vc, n, [i for i in range(1 << n) if i not in rest])
    if n == 3 and vc.symbolic:
        for i in rest:
            vc.assume(psi[i].real >= vc.ghost.get('clear', 1e-9))
    elif vc.symbolic:
        vc.assume(sum((x * Num.const(x).conjugate() for x in psi if isinstance(x, Num)), Num()) == 1)
    vc.ensure('its value is read', sim.get_classical_value(ids[p]) == bool(v))
    sim.deallocate_qubit(ids[p])
    same(vc, 'the others keep their state', sim, ids[:p] + ids[p + 1:], [x for i, x in enumerate(psi) if i not in zero])


@contract(P, [S + 'deallocate_qubit', S + 'get_classical_value'], samples=60, size_bound='registers of at most 2 qubits')
@exact
def deallocate_superposed(vc):
    """A qubit with an amplitude above the tolerance on both sides is not removed, and nothing changes."""
    n = 1 + vc.pick('size', 2)
    p = vc.pick('which', n)
    a, b = [vc.choose('where', [i for i in range(1 << n) if (i >> p) & 1 == s]) for s in (0, 1)]
    sim, ids, psi = start(vc, n)
    for i in (a, b):
        if vc.symbolic:
            x = psi[i]
            vc.assume(x.real >= vc.ghost.get('clear', 1e-9))
        else:
            vc.assume(abs(psi[i]) > vc.ghost.get('clear', 1e-9))
    if 'backend' not in vc.ghost:      # (the compiled one reads the first nonzero amplitude)
        vc.raises('reading is refused', RuntimeError, lambda: sim.get_classical_value(ids[p]))
    vc.raises('deallocation is refused', RuntimeError, lambda: sim.deallocate_qubit(ids[p]))
    same(vc, 'nothing happened', sim, ids, psi)


# --- operators --------------------------------------------------------------------------------------------------------------
def strings(n):
    out = []
    for letters in itertools.product('IXYZ', repeat=n):
        out.append(tuple((i, ch) for i, ch in enumerate(letters) if ch != 'I'))
    return out


@contract(P, [S + 'apply_qubit_operator', S + '_apply_term'], samples=100, size_bound='operators on at most 2 of 3 qubits, two terms')
@exact
def qubit_operator(vc):
    """Every sum of Pauli strings with every complex coefficient."""
    n = 2 + vc.pick('size', 2)
    on = list(vc.choose('qubits', list(itertools.permutations(range(n), 2))))
    terms = vc.pick('terms', 3)
    op = []
    for i in range(terms):
        op.append((list(vc.choose('term', strings(2))), vc.cplx(f'c{i}')))
        if i and op[0][0] >= op[1][0]:
            return
    sim, ids, psi = start(vc, n)
    sim.apply_qubit_operator(op, [ids[p] for p in on])
    B = W.nb(vc)
    vec = [B.c(x) for x in psi]
    want = [B.c(0)] * len(vec)
    for term, c in op:
        part = W.apply_matrix(B, vec, W.pauli_string(B, term, 2), on, [])
        want = [x + y * c for x, y in zip(want, part)]
    same(vc, 'the operator is applied', sim, ids, want)


def time_evolution_native(vc):
    n = 1 + vc.pick('size', 5)
    k = 1 + vc.pick('acts on', min(n, 3))
    perm = list(range(n))
    on = [perm.pop(vc.pick('qubit', len(perm))) for _ in range(k)]
    c = [p for p in perm if vc.flag('control')]
    ham = QubitOperator()
    for _ in range(vc.pick('terms', 5)):
        ham += QubitOperator(vc.choose('term', strings(k)), vc.real('c', -2, 2))
    t = vc.real('time', -3, 3)
    if vc.pick('long', 4) == 0:
        t *= 40 if 'backend' in vc.ghost else 6
    sim, ids, psi = start(vc, n)
    sim.emulate_time_evolution([(list(x), y) for x, y in ham.terms.items()], t, [ids[p] for p in on], [ids[p] for p in c])

    class Gate:
        hamiltonian, time = ham, t
    m = W.timeevo_matrix(W.Float, Gate, k)
    same(vc, 'the state evolves', sim, ids, W.apply_matrix(W.Float, psi, m, on, [(p, 1) for p in c]))


@bounded(P, [S + 'emulate_time_evolution', S + '_apply_term'],
         'Hamiltonians of at most 4 terms on at most 3 qubits, registers of up to 5 qubits, random states and times', samples=150, thorough=1500)
def time_evolution(vc):
    """exp(-iHt) on the given qubits where all controls are one, to numerical accuracy."""
    time_evolution_native(vc)


@contract(P, [S + 'emulate_time_evolution', S + '_apply_term', S + '_get_control_mask'], samples=60,
          size_bound='registers of at most 3 qubits, at most 2 terms and the identity, at most 3 terms of the series, at most 2 rescaled steps',
          budget=100, assumptions=('the series is cut off where the code finds its terms to be negligible: any number (1 to 3) of terms is explored',))
@exact
def time_evolution_series(vc):
    """The state after an evolution is the power series of exp(-iHt) up to the term found negligible, on the controlled subspace."""
    if not vc.symbolic:
        return time_evolution_native(vc)
    n = 1 + vc.pick('size', 3)
    k = 1 + vc.pick('acts on', min(2, n)) if n < 3 else 2
    on = list(vc.choose('qubits', list(itertools.permutations(range(n), k))[::2 if n == 3 else 1]))
    c = [p for p in range(n) if p not in on and vc.flag('control')]
    some = strings(k)[1:] if k == 1 else [x for x in strings(k) if len(x) == 2 and ('I' not in x)][::2] + [((1, 'Y'),)]
    first = vc.pick('term', len(some))
    op = [(list(some[first]), 0.5)]
    if vc.flag('second'):
        op.append((list(some[(first + 1 + vc.pick('other', 2)) % len(some)]), -0.5))
    tr = 0.25 if n < 3 and vc.flag('identity') else None
    if tr:
        op.insert(vc.pick('place', 2), ([], tr))
    t = vc.real('time', -1.5, 1.5)
    order = 1 + vc.pick('order', 3 if n == 1 else 2)
    count = [0]

    def norm(_x):
        count[0] += 1
        return 0 if count[0] % order == 0 else 1
    vc.ghost['norm'] = norm
    sim, ids, psi = start(vc, n)
    sim.emulate_time_evolution(op, t, [ids[p] for p in on], [ids[p] for p in c])
    vc.ghost.pop('norm')
    steps = 2 if abs(t) * sum(abs(x) for s, x in op if s) >= 1 else 1
    B = W.Exact
    vec = [B.c(x) for x in psi]
    for _ in range(steps):
        power, total = list(vec), list(vec)
        for j in range(1, order + 1):
            nxt = [B.c(0)] * len(vec)
            for term, x in op:
                if term:
                    part = W.apply_matrix(B, power, W.pauli_string(B, term, k), on, [])
                    nxt = [u + v * x for u, v in zip(nxt, part)]
            power = [u * t * num.I_ * -1 / (j * steps) for u in nxt]
            total = [u + v for u, v in zip(total, power)]
        phase = B.expi(-t * tr / steps) if tr else B.c(1)
        mask = sum(1 << p for p in c)
        vec = [total[i] * phase if i & mask == mask else vec[i] for i in range(len(vec))]
    same(vc, 'the state is the series', sim, ids, vec)


# --- the engine on top -------------------------------------------------------------------------------------------------------
class python_backend:
    """The Simulator engine with the backend under contract."""

    def __init__(self, vc):
        self.vc = vc

    def __enter__(self):
        self.saved = [(n, self.vc.priv(_simulator, n)) for n in ('SimulatorBackend', 'FALLBACK_TO_PYSIM')]
        kind = self.vc.ghost.get('backend', _pysim.Simulator)
        _simulator.SimulatorBackend, _simulator.FALLBACK_TO_PYSIM = kind, kind is _pysim.Simulator
        return self

    def __exit__(self, *a):
        for n, v in self.saved:
            setattr(_simulator, n, v)


def engine(vc, n, mapper=None):
    from projectq import MainEngine
    sim = _simulator.Simulator(gate_fusion=vc.flag('fusion'), rnd_seed=1)
    eng = MainEngine(backend=sim, engine_list=[mapper] if mapper else [])
    return eng, sim


GATES = ['matrix1', 'matrix2', 'Rx', 'Rz', 'Ph', 'H', 'Swap', 'SqrtSwap', 'Rxx', 'R', 'math', 'evolve']


def library(vc, name):
    """(gate, register sizes)."""
    def ang(i=0):
        return vc.angle(f'a{i}')
    if name in ('matrix1', 'matrix2'):
        k = int(name[-1])
        m = matrix(vc, k)
        g = ops.MatrixGate()
        g.matrix = m if not vc.symbolic else shims._matrix(m)
        return g, vc.choose('registers', [[1]] if k == 1 else [[2], [1, 1]])
    if name == 'math':
        def f(a, b):
            return (a, (b + a) % 2)
        return ops.BasicMathGate(f), [1, 1]
    if name == 'evolve':
        return ops.TimeEvolution(0.3, QubitOperator('X0 Y1', 0.7) + QubitOperator('Z1', -0.2)), [2]
    if name in ('Rx', 'Rz', 'Ph', 'R', 'Rxx'):
        return getattr(ops, name)(ang()), [1, 1] if name == 'Rxx' else [1]
    return getattr(ops, name), {'H': [1], 'Swap': [1, 1], 'SqrtSwap': [1, 1]}[name]


@contract(P, [E + '_handle', E + 'receive', E + 'is_available', S + 'apply_controlled_gate'], samples=150, size_bound='registers of 3 qubits')
@exact
def commands(vc):
    """Commands on any qubits in any order reach the state as defined, with and without gate fusion."""
    name = vc.choose('gate', [g for g in GATES if not (vc.symbolic and g == 'evolve')])
    with python_backend(vc):
        n = 3
        eng, sim = engine(vc, n)
        q = eng.allocate_qureg(n)
        eng.flush()
        psi = amplitudes(vc, 1 << n)
        order = vc.choose('order', [[0, 1, 2], [2, 0, 1], [1, 0, 2]])
        sim.set_wavefunction(list(psi), [q[i] for i in order])
        g, sizes = library(vc, name)
        perm = vc.choose('targets', list(itertools.permutations(range(n))))
        regs, at = [], 0
        for s in sizes:
            regs.append([q[p] for p in perm[at:at + s]])
            at += s
        ctrl = [q[p] for p in perm[at:] if vc.flag('control')]
        cmd = ops.Command(eng, g, tuple(regs), controls=ctrl)
        vc.ensure('every such command is available', sim.is_available(cmd))
        ids = [q[i].id for i in order]
        sim.receive([cmd])
        eng.flush()
        got = vector(sim, ids)
        B = W.nb(vc)
        if name == 'matrix1' or name == 'matrix2':
            m = [[g.matrix[i, j] for j in range(len(g.matrix))] for i in range(len(g.matrix))]
            pos = {i: k for k, i in enumerate(ids)}
            want = W.apply_matrix(B, [B.c(x) for x in psi], m, [pos[x.id] for r in regs for x in r], [(pos[x.id], 1) for x in ctrl])
        else:
            want = W.run_cmds(B, [cmd], ids, [B.c(x) for x in psi])
        vc.mat_eq('the command acts as its definition says', [got], [want])
        for x in q:
            x.id = -1
        del q


@contract(P, [E + 'is_available', E + '_handle'], samples=80)
def availability(vc):
    """Measure, allocation, arithmetic, evolutions and gates with a matrix on at most 5 qubits; no negative controls."""
    n = 1 + vc.pick('size', 7)
    kind = vc.choose('kind', ['matrix', 'none', 'Measure', 'Allocate', 'Deallocate', 'math', 'evolve'])
    neg = vc.flag('negative control') and kind in ('matrix', 'math', 'evolve')
    with python_backend(vc):
        eng, sim = engine(vc, 1)
        if kind == 'matrix':
            import numpy
            g = ops.MatrixGate()
            g.matrix = numpy.eye(1 << n)
        elif kind == 'none':
            g = ops.BasicGate()
        elif kind == 'math':
            g = ops.BasicMathGate(lambda a: (a,))
        elif kind == 'evolve':
            g = ops.TimeEvolution(0.1, QubitOperator('Z0'))
        else:
            g = getattr(ops, kind)
        regs = [list(range(n))] if kind not in ('Allocate', 'Deallocate', 'Measure') else [[0]]
        cmd = W.mkcmd(g, regs, [50] if neg or kind in ('matrix', 'math') else [], '0' if neg else None)
        want = not neg and (kind in ('Measure', 'Allocate', 'Deallocate', 'math', 'evolve') or (kind == 'matrix' and n <= 5))
        vc.ensure('declared available exactly when it can be simulated', bool(sim.is_available(cmd)) == want, f'{kind} {n} {neg}')
        if kind == 'matrix' and n > 1 and n <= 5 and not neg:
            bad = W.mkcmd(g, [list(range(n - 1))])
            vc.raises('a matrix of the wrong size is refused', Exception, lambda: sim.receive([bad]))


@bounded(P, [S + 'allocate_qubit', S + 'deallocate_qubit', S + 'apply_controlled_gate', S + 'emulate_math', S + 'apply_qubit_operator'],
         'random histories of up to 25 operations on up to 6 qubits', samples=150, thorough=2000)
def histories(vc):
    """Interleaved allocation, gates, arithmetic and deallocation agree with the reference state."""
    sim = backend(vc)
    ids, vec, classical, nxt = [], [1.0 + 0j], {}, 0
    for _ in range(1 + vc.pick('length', 25)):
        kind = vc.choose('op', ['alloc', 'gate', 'gate', 'gate', 'math', 'dealloc'])
        if kind == 'alloc' or not ids:
            if len(ids) < 6:
                nxt += 1 + vc.pick('gap', 3)
                sim.allocate_qubit(nxt)
                ids, vec = ids + [nxt], vec + [0j] * len(vec)
                classical[nxt] = 0
        elif kind == 'gate':
            perm = list(range(len(ids)))
            k = 1 + vc.pick('width', min(3, len(ids)))
            on = [perm.pop(vc.pick('target', len(perm))) for _ in range(k)]
            c = [p for p in perm if vc.pick('control', 3) == 0]
            if k == 1 and vc.flag('X'):
                m = [[0, 1], [1, 0]]
                q = ids[on[0]]
                if classical.get(q) is not None and all(classical.get(ids[p]) is not None for p in c):
                    classical[q] ^= int(all(classical[ids[p]] for p in c))
                else:
                    classical[q] = None
            else:
                m = matrix(vc, k)
                for p in on:
                    classical[ids[p]] = None
            sim.apply_controlled_gate(m, [ids[p] for p in on], [ids[p] for p in c])
            vec = W.apply_matrix(W.Float, vec, m, on, [(p, 1) for p in c])
        elif kind == 'math':
            perm = list(range(len(ids)))
            on = [perm.pop(vc.pick('target', len(perm))) for _ in range(1 + vc.pick('width', min(3, len(ids))))]
            c = [p for p in perm if vc.pick('control', 3) == 0]
            a = vc.pick('constant', 9) - 4

            def f(args, a=a):
                return [args[0] + a]
            sim.emulate_math(f, [[ids[p] for p in on]], [ids[p] for p in c])
            vec = W.apply_perm(W.Float, vec, f, [on], [(p, 1) for p in c])
            for p in on:
                classical[ids[p]] = None
        else:
            cand = [q for q in ids if classical.get(q) is not None]
            if cand:
                q = cand[vc.pick('which', len(cand))]
                p = ids.index(q)
                vc.ensure('classical value', sim.get_classical_value(q) == bool(classical[q]))
                sim.deallocate_qubit(q)
                vec = [x for i, x in enumerate(vec) if (i >> p) & 1 == classical[q]]
                ids = ids[:p] + ids[p + 1:]
                classical.pop(q)
        same(vc, 'the state is the reference state', sim, ids, vec)


def operations_large_native(vc, time=3.0):
    """A few operations of one simulator on many qubits."""
    import numpy as np

    from pv import fast
    n = 5 + vc.pick('size', 6)
    sim = backend(vc)
    ids = list(range(2, 2 + 2 * n, 2))
    for i in range(n):
        j = i + vc.pick('layout', n - i)
        ids[i], ids[j] = ids[j], ids[i]
    for q in sorted(ids, key=lambda x: x * 7 % 11):
        sim.allocate_qubit(q)
    vec = fast.state(vc, n)
    sim.set_wavefunction([complex(x) for x in vec], ids)
    rng = np.random.default_rng(vc.pick('numbers', 1 << 20))
    for _ in range(1 + vc.pick('steps', 4)):
        kind = vc.choose('kind', ['gate', 'gate', 'math', 'operator', 'evolution', 'fresh'] + ['gone'] * 2 * (n > 5))
        order = list(range(n))
        for i in range(n):
            j = i + vc.pick('order', n - i)
            order[i], order[j] = order[j], order[i]
        often = vc.choose('controls', [0, 1, 1, 3])
        if kind == 'gate':
            k = 1 + vc.pick('targets', 5)
            on, c = order[:k], [p for p in order[k:] if vc.pick('control', 4) < often]
            m = np.linalg.qr(rng.normal(size=(1 << k, 1 << k)) + 1j * rng.normal(size=(1 << k, 1 << k)))[0]
            sim.apply_controlled_gate(m.tolist(), [ids[p] for p in on], [ids[p] for p in c])
            vec = fast.apply(vec, m, on, [(p, 1) for p in c])
        elif kind == 'math':
            sizes, left = [], order
            regs = []
            wide = vc.choose('width', [5, 5, 2])
            for _ in range(1 + vc.pick('registers', 3 if wide > 2 else 7)):
                k = min(len(left), 1 + vc.pick('register', wide))
                if k:
                    regs.append(left[:k])
                    left = left[k:]
            sizes = [len(r) for r in regs]
            c = [p for p in left if vc.pick('control', 4) < often]
            a, b = vc.pick('constant', 200) - 100, 2 * vc.pick('factor', 20) + 1

            def f(args, a=a, b=b):
                out = [b * args[0] + a]
                for x, y in zip(args, args[1:]):
                    out.append(y - 3 * x)
                return out
            sim.emulate_math(f, [[ids[p] for p in r] for r in regs], [ids[p] for p in c])
            out = np.array(vec)
            for j in range(1 << n):
                if all(j >> p & 1 for p in c):
                    vals = f([sum((j >> p & 1) << i for i, p in enumerate(r)) for r in regs])
                    to = j
                    for r, v in zip(regs, vals):
                        for i, p in enumerate(r):
                            to = to & ~(1 << p) | (v >> i & 1) << p
                    out[to] = vec[j]
            vec = out
        elif kind in ('operator', 'evolution'):
            k = 1 + vc.pick('acts on', 5)
            on, c = order[:k], [p for p in order[k:] if vc.pick('control', 4) < often]
            terms = {}
            for _ in range(1 + vc.pick('terms', 4)):
                t = tuple((i, vc.choose('letter', 'XYZ')) for i in range(k) if vc.flag('in'))
                terms[t] = terms.get(t, 0) + float(rng.uniform(-1, 1))
            m = np.zeros((1 << k, 1 << k), complex)
            for t, x in terms.items():
                d, one = dict(t), np.ones((1, 1))
                for i in range(k):
                    one = np.kron(np.array(W.PAULI[d[i]](W.Float), complex) if i in d else np.eye(2), one)
                m = m + x * one
            if kind == 'operator':
                sim.apply_qubit_operator([(list(t), x) for t, x in terms.items()], [ids[p] for p in on])
                vec = fast.apply(vec, m, on)
                nrm = np.linalg.norm(vec)
                if nrm < 1e-6:
                    return
                got = np.array(vector(sim, ids))
                vc.ensure('the operator is applied', abs(got - vec).max() < 1e-7)
                vec = vec / nrm
                sim.set_wavefunction([complex(x) for x in vec], ids)
            else:
                t = float(rng.uniform(-time, time))
                sim.emulate_time_evolution([(list(x), y) for x, y in terms.items()], t, [ids[p] for p in on], [ids[p] for p in c])
                w, v = np.linalg.eigh(m)
                vec = fast.apply(vec, v @ np.diag(np.exp(-1j * t * w)) @ v.conj().T, on, [(p, 1) for p in c])
        elif kind == 'gone':
            p = vc.choose('which', [0, 0, n - 1] + list(range(n)))
            halves = np.moveaxis(np.array(vec).reshape((2,) * n), n - 1 - p, 0)
            v = int(np.linalg.norm(halves[1]) > 0.6)
            sim.collapse_wavefunction([ids[p]], [bool(v)])
            d = vc.choose('residue', [0.0, 0.01, 0.01]) * vc.ghost.get('clear', 1e-9)     # below every tolerance
            sim.apply_controlled_gate([[math.cos(d), -math.sin(d)], [math.sin(d), math.cos(d)]], [ids[p]], [])
            vc.ensure('a qubit which is classical up to rounding has a value', bool(sim.get_classical_value(ids[p])) == bool(v))
            sim.deallocate_qubit(ids[p])
            vec = halves[v].reshape(-1) / np.linalg.norm(halves[v])
            ids, n = ids[:p] + ids[p + 1:], n - 1
        else:
            q = 1 + 2 * vc.pick('new', 40)
            sim.allocate_qubit(q)
            p = vc.pick('by', n)
            sim.apply_controlled_gate([[0, 1], [1, 0]], [q], [ids[p]])
            sim.apply_controlled_gate([[0, 1], [1, 0]], [q], [ids[p]])
            sim.deallocate_qubit(q)
    got = np.array(vector(sim, ids))
    vc.ensure('one amplitude per basis state', len(got) == len(vec))
    fast.agree(vc, 'the state is the reference state', got, vec)


@bounded(P, [S + f for f in ('apply_controlled_gate', 'emulate_math', 'apply_qubit_operator', 'emulate_time_evolution', 'allocate_qubit', 'deallocate_qubit')],
         'up to 4 operations on 5 to 10 qubits: matrices on up to 5 qubits, up to 3 registers of up to 5 bits, operators on up to 5 qubits', samples=600,
         thorough=2000)
def operations_large(vc):
    """Operations on many qubits."""
    operations_large_native(vc)
