"""S03: measurement collapses consistently and queries do not disturb the state."""
import itertools
import math
import random

from pv import num
from pv import world as W
from pv.core import bounded, contract
from pv.num import Num

import projectq.ops as ops
from projectq.backends._sim import _pysim
from projectq.backends import Simulator
from projectq.cengines import BasicMapperEngine, MainEngine
from projectq.meta import LogicalQubitIDTag
from projectq.ops import QubitOperator
from projectq.types import WeakQubitRef

from .s01 import IDS, amplitudes
from .s01 import backend as s01_backend
from .s01 import engine, exact, python_backend, same, start, strings, vector

P = 'S03'
S = 'projectq.backends._sim._pysim.Simulator.'
E = 'projectq.backends._sim._simulator.Simulator.'


def sq(x):
    if isinstance(x, Num):
        return x * x.conjugate()
    return abs(x) ** 2


def polar(vc, n, zero=()):
    """An arbitrary normalised state, given by probabilities and phases."""
    if not vc.symbolic:
        return start(vc, n, zero)
    psi, total = [], Num()
    for i in range(1 << n):
        if i in zero:
            psi.append(0)
            continue
        p = vc.real(f'p{i}', 0, 1)
        num.ROOTS[f'#root{i}'] = p
        r = Num.var(f'#root{i}')
        vc.assume(r >= 0)
        vc.assume((r == 0) == (p == 0))
        psi.append(Num.var(f'#root{i}') * num.expi(vc.angle(f'phi{i}')))
        total = total + p
    vc.assume(total == 1)
    return start(vc, n, psi=psi)


class draw:
    """The random source of the simulator returns the given numbers."""

    def __init__(self, vc, *us):
        self.us, self.vc = list(us), vc

    def random(self):
        return self.us.pop(0) if self.us else 0.5

    def __getattr__(self, name):
        return getattr(random, name)

    def __enter__(self):
        if 'draws' in self.vc.ghost:
            self.vc.ghost['draws'](self.us)
            return self
        self.saved = self.vc.priv(_pysim, 'random')
        _pysim.random = self
        return self

    def __exit__(self, *a):
        if 'draws' not in self.vc.ghost:
            _pysim.random = self.saved


def some_qubits(vc, n, least=0):
    """An ordered choice of distinct qubits."""
    opts = [p for k in range(least, n + 1) for p in itertools.permutations(range(n), k)]
    return list(vc.choose('qubits', opts))


def projected(psi, on, bits):
    return [x if all((i >> p) & 1 == b for p, b in zip(on, bits)) else 0 for i, x in enumerate(psi)]


def collapsed(vc, name, sim, ids, psi, on, bits):
    """The state is the normalised projection; the outcome has nonzero probability."""
    keep = projected(psi, on, bits)
    p = sum((sq(Num.const(x)) if vc.symbolic else sq(x) for x in keep), Num() if vc.symbolic else 0.0)
    vc.ensure('the outcome has nonzero probability', p > 0)
    if vc.symbolic:
        r = num.sqrt(p)
        same(vc, name, sim, ids, [Num.const(x) / r for x in keep])
    else:
        same(vc, name, sim, ids, [x / math.sqrt(p) for x in keep])


# --- measurement -----------------------------------------------------------------------------------------------------------
@contract(P, [S + 'measure_qubits'], samples=200, size_bound='registers of at most 3 qubits', budget=120)
@exact
def measure(vc):
    """Every normalised state, every draw in [0, 1), every list of qubits."""
    n = 1 + vc.pick('size', 3)
    on = some_qubits(vc, n) if n < 3 else list(vc.choose('qubits', [(2, 0), (1,)]))
    zero = []
    if n < 3 and vc.flag('some vanish'):
        zero = [i for i in range(1 << n) if vc.flag('vanishes')]
    if len(zero) == 1 << n:
        return
    sim, ids, psi = polar(vc, n, zero)
    u = vc.real('u', 0, 1)
    if vc.symbolic:
        vc.assume(u < 1)
    else:
        u = vc.choose('draw', [0.0, min(u, 1 - 2.0 ** -53), 1 - 2.0 ** -53])
    with draw(vc, u):
        res = sim.measure_qubits([ids[p] for p in on])
    vc.ensure('one result per qubit', len(res) == len(on) and all(isinstance(bool(x), bool) for x in res))
    collapsed(vc, 'the state is the normalised projection', sim, ids, psi, on, [int(bool(x)) for x in res])


@contract(P, [S + 'measure_qubits'], samples=100, size_bound='registers of at most 3 qubits')
@exact
def measure_again(vc):
    """Qubits with a definite value (as after a measurement) always give that value, and nothing changes."""
    n = 1 + vc.pick('size', 3)
    on = list(vc.choose('qubits', list(itertools.combinations(range(n), 1 + vc.pick('number', n)))))
    bits = [vc.pick('value', 2) for _ in on]
    zero = [i for i in range(1 << n) if not all((i >> p) & 1 == b for p, b in zip(on, bits))]
    sim, ids, psi = polar(vc, n, zero)
    u = vc.real('u', 0, 1)
    if vc.symbolic:
        vc.assume(u < 1)
    else:
        u = vc.choose('draw', [0.0, min(u, 1 - 2.0 ** -53), 1 - 2.0 ** -53])
    with draw(vc, u):
        res = sim.measure_qubits([ids[p] for p in on])
    vc.ensure('the definite value is reported', [int(bool(x)) for x in res] == bits, f'{res} {bits}')
    collapsed(vc, 'the state is unchanged', sim, ids, psi, on, bits)


@bounded(P, [S + 'measure_qubits'], 'random states on up to 6 qubits, norms within 1e-9 of one, extreme draws', samples=200, thorough=2000)
def measure_large(vc):
    """Projection, normalisation and repetition on larger registers, with rounding errors in the norm."""
    n = 1 + vc.pick('size', 6)
    some = vc.flag('sparse')
    zero = [i for i in range(1 << n) if some and vc.pick('zero', 4)]
    if len(zero) == 1 << n:
        zero = zero[1:]
    psi = amplitudes(vc, 1 << n, zero)
    f = vc.choose('norm', [1.0, 1 - 1e-10, 1 + 1e-10])
    psi = [x * f for x in psi]
    sim, ids, psi = start(vc, n, psi=psi)
    perm = list(range(n))
    on = [perm.pop(vc.pick('qubit', len(perm))) for _ in range(vc.pick('number', n + 1))]
    u = vc.choose('draw', [0.0, vc.real('u', 0, 1) % 1.0, 1 - 2.0 ** -53])
    with draw(vc, u, vc.choose('second draw', [0.0, 0.3, 1 - 2.0 ** -53])):
        res = sim.measure_qubits([ids[p] for p in on])
        collapsed(vc, 'the state is the normalised projection', sim, ids, psi, on, [int(x) for x in res])
        after = vector(sim, ids)
        again = sim.measure_qubits([ids[p] for p in on])
    vc.ensure('a repeated measurement agrees', list(again) == list(res))
    same(vc, 'and leaves the state', sim, ids, after)


@bounded(P, [S + 'measure_qubits'], 'one state per run, 3000 draws, deviations up to 6 standard deviations accepted', samples=4, thorough=40)
def frequencies(vc):
    """Outcomes are drawn with the probabilities of the state."""
    n = 1 + vc.pick('size', 3)
    sim, ids, psi = start(vc, n)
    perm = list(range(n))
    on = [perm.pop(vc.pick('qubit', len(perm))) for _ in range(1 + vc.pick('number', n))]
    counts, total = {}, 3000
    for _ in range(total):
        sim.set_wavefunction(list(psi), list(ids))
        res = tuple(int(x) for x in sim.measure_qubits([ids[p] for p in on]))
        counts[res] = counts.get(res, 0) + 1
    for bits in itertools.product((0, 1), repeat=len(on)):
        p = sum(sq(x) for x in projected(psi, on, bits))
        sd = math.sqrt(max(p * (1 - p), 1e-9) * total)
        vc.ensure('outcomes occur with their probability', abs(counts.get(bits, 0) - p * total) <= 6 * sd + 1, f'{bits} {p} {counts}')


# --- queries ---------------------------------------------------------------------------------------------------------------
@contract(P, [S + 'get_probability', S + 'get_amplitude', S + 'cheat'], samples=150, size_bound='registers of at most 4 qubits')
@exact
def probability_and_amplitude(vc):
    """The probability of any outcome of any qubits and any amplitude in any order; the state does not change."""
    n = 1 + vc.pick('size', 4)
    sim, ids, psi = start(vc, n)
    if vc.flag('amplitude'):
        on = list(vc.choose('order', list(itertools.permutations(range(n)))[::1 if n < 4 else 5]))
        bits = [vc.pick('bit', 2) for _ in on]
        got = sim.get_amplitude([bool(b) for b in bits] if vc.flag('bool') else bits, [ids[p] for p in on])
        want, = [x for i, x in enumerate(psi) if all((i >> p) & 1 == b for p, b in zip(on, bits))]
        vc.eq('the amplitude of that basis state', W.nb(vc).c(got), W.nb(vc).c(want))
    else:
        on = some_qubits(vc, n) if n < 4 else list(vc.choose('qubits', list(itertools.permutations(range(n), 3))[::3]))
        bits = [vc.pick('bit', 2) for _ in on]
        got = sim.get_probability([bool(b) for b in bits], [ids[p] for p in on])
        want = sum((sq(x) for x in projected(psi, on, bits) if not isinstance(x, int)), Num() if vc.symbolic else 0.0)
        vc.eq('the probability of that outcome', W.nb(vc).c(got), W.nb(vc).c(want))
    same(vc, 'the state is unchanged', sim, ids, psi)


@contract(P, [S + 'get_expectation_value', S + '_apply_term'], samples=150, size_bound='operators on at most 2 of 3 qubits, at most two terms')
@exact
def expectation(vc):
    """The expectation value of any sum of Pauli strings; the state does not change."""
    n = 2 + vc.pick('size', 2)
    on = list(vc.choose('qubits', list(itertools.permutations(range(n), 2))))
    op, some = [], strings(2)
    for i in range(vc.pick('terms', 3)):
        op.append((list(vc.choose('term', some if not i else [some[3], some[6], some[9]])), vc.real(f'c{i}', -3, 3)))
    sim, ids, psi = start(vc, n)
    got = sim.get_expectation_value(op, [ids[p] for p in on])
    B = W.nb(vc)
    vec = [B.c(x) for x in psi]
    want = B.c(0)
    for term, c in op:
        part = W.apply_matrix(B, vec, W.pauli_string(B, term, 2), on, [])
        want = want + c * sum((B.conj(x) * y for x, y in zip(vec, part)), B.c(0))
    vc.eq('the expectation value', B.c(got), want)
    same(vc, 'the state is unchanged', sim, ids, psi)


@contract(P, [S + 'set_wavefunction', S + 'collapse_wavefunction'], samples=150, size_bound='registers of at most 3 qubits')
@exact
def set_and_collapse(vc):
    """Setting the wavefunction in any order; collapsing any qubits onto any outcome."""
    n = 1 + vc.pick('size', 3)
    sim, ids, psi = start(vc, n)
    if vc.flag('set'):
        order = list(vc.choose('order', list(itertools.permutations(range(n)))))
        phi = amplitudes(vc, 1 << n, name='t')
        given = list(phi)
        sim.set_wavefunction(given, [ids[p] for p in order])
        same(vc, 'the state is the given one in the given order', sim, [ids[p] for p in order], phi)
        sim.apply_controlled_gate([[0, 1], [1, 0]], [ids[0]], [])
        vc.ensure('the given list is not used as the state', all(x is y for x, y in zip(given, phi)))
        return
    on = some_qubits(vc, n)
    bits = [vc.pick('value', 2) for _ in on]
    keep = projected(psi, on, bits)
    if vc.symbolic:
        first = [x for x in keep if isinstance(x, Num)][0]
        vc.assume(first.real >= 1e-3)
    else:
        vc.assume(sum(sq(x) for x in keep) > 1e-9)
    sim.collapse_wavefunction([ids[p] for p in on], [bool(b) for b in bits])
    collapsed(vc, 'the state is the normalised projection', sim, ids, psi, on, bits)


@contract(P, [S + 'get_probability', S + 'get_amplitude', S + 'set_wavefunction', S + 'collapse_wavefunction'], samples=120)
@exact
def invalid(vc):
    """Unknown or missing qubits, wrong sizes and impossible outcomes are refused, and nothing happens."""
    n = 2
    case = vc.choose('case', ['probability unknown', 'amplitude unknown', 'amplitude missing', 'amplitude twice', 'set size', 'set unknown',
                              'set missing', 'set twice', 'collapse unknown', 'collapse sizes', 'collapse impossible'])
    zero = (0, 1) if case == 'collapse impossible' else ()
    sim, ids, psi = start(vc, n, zero)
    a, b = ids
    if case == 'collapse impossible' and vc.symbolic:
        vc.assume(psi[2].real >= 1e-3)
    calls = {
        'probability unknown': lambda: sim.get_probability([True, False], [a, 99]),
        'amplitude unknown': lambda: sim.get_amplitude([True, False], [a, 99]),
        'amplitude missing': lambda: sim.get_amplitude([True], [a]),
        'amplitude twice': lambda: sim.get_amplitude([True, False, False], [a, b, a]),
        'set size': lambda: sim.set_wavefunction([1.0, 0.0], [a, b]),
        'set unknown': lambda: sim.set_wavefunction([1.0, 0.0, 0.0, 0.0], [a, 99]),
        'set missing': lambda: sim.set_wavefunction([1.0, 0.0], [a]),
        'set twice': lambda: sim.set_wavefunction([1.0, 0.0, 0.0, 0.0], [a, a]),
        'collapse unknown': lambda: sim.collapse_wavefunction([99], [True]),
        'collapse sizes': lambda: sim.collapse_wavefunction([a, b], [True]),
        'collapse impossible': lambda: sim.collapse_wavefunction([b], [False]),
    }
    vc.raises('refused', (RuntimeError, ValueError), calls[case])
    same(vc, 'nothing happened', sim, ids, psi)


# --- the engine on top -------------------------------------------------------------------------------------------------------
class Mapper(BasicMapperEngine):
    """A mapper that does nothing but announce a mapping."""

    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        self.send(command_list)


def mapped(vc, n):
    """A simulator engine, logical qubits and the physical ids behind them."""
    perm = list(vc.choose('mapping', [None] + list(itertools.permutations(range(n)))[::2 if n == 3 else 1]) or [])
    mapper = Mapper() if perm else None
    eng, sim = engine(vc, n, mapper)
    phys = [IDS[i] for i in range(n)]
    if mapper is not None:
        logical = [20 + i for i in range(n)]
        mapper.current_mapping = {20 + i: phys[p] for i, p in enumerate(perm)}
        phys = [phys[p] for p in perm]
    else:
        logical = list(phys)
    sim.receive([W.mkcmd(ops.Allocate, [[p]], eng=eng) for p in sorted(phys)])
    return eng, sim, [WeakQubitRef(eng, i) for i in logical], phys


@contract(P, [E + f for f in ('get_probability', 'get_amplitude', 'get_expectation_value', 'apply_qubit_operator', 'set_wavefunction',
                              'collapse_wavefunction', 'cheat', '_convert_logical_to_mapped_qureg')], samples=150, size_bound='registers of 3 qubits')
@exact
def engine_queries(vc):
    """Queries name logical qubits in any order and accept strings, integers and booleans."""
    n = 3
    with python_backend(vc):
        eng, sim, q, phys = mapped(vc, n)
        psi = amplitudes(vc, 1 << n)
        sim.set_wavefunction(list(psi), q)
        same(vc, 'the first listed logical qubit is the least significant one', sim, phys, psi)
        kind = vc.choose('query', ['probability', 'amplitude', 'expectation', 'operator', 'collapse'])
        order = list(vc.choose('order', [(1, 2, 0), (2, 1, 0)]))
        form = vc.choose('form', ['str', 'int', 'bool']) if kind != 'expectation' else 'int'
        bits = [vc.pick('bit', 2) for _ in order] if kind in ('probability', 'amplitude', 'collapse') else []
        if kind in ('probability', 'collapse'):
            order, bits = order[:2], bits[:2]
        text = ''.join(map(str, bits)) if form == 'str' else [bool(b) for b in bits] if form == 'bool' else list(bits)
        reg = [q[i] for i in order]
        B = W.nb(vc)
        if kind == 'probability':
            want = sum((sq(x) for x in projected(psi, order, bits) if not isinstance(x, int)), Num() if vc.symbolic else 0.0)
            vc.eq('the probability', B.c(sim.get_probability(text, reg)), B.c(want))
        elif kind == 'amplitude':
            want, = [x for i, x in enumerate(psi) if all((i >> p) & 1 == b for p, b in zip(order, bits))]
            vc.eq('the amplitude', B.c(sim.get_amplitude(text, reg)), B.c(want))
        elif kind == 'collapse':
            keep = projected(psi, order, bits)
            if vc.symbolic:
                vc.assume([x for x in keep if isinstance(x, Num)][0].real >= 1e-3)
            else:
                vc.assume(sum(sq(x) for x in keep) > 1e-9)
            sim.collapse_wavefunction(reg, text)
            collapsed(vc, 'the state is the normalised projection', sim, phys, psi, order, bits)
            return
        else:
            op = QubitOperator(vc.choose('term', ['X0 Y2', 'Z1', '', 'Y0 Z1 X2']), 1.0) + QubitOperator('Z0 X1', 0.5)
            c = vc.real('c', -2, 2)
            for t in op.terms:
                op.terms[t] = op.terms[t] * c
            vec = [B.c(x) for x in psi]
            out = [B.c(0)] * len(vec)
            for t, x in op.terms.items():
                part = W.apply_matrix(B, vec, W.pauli_string(B, t, 3), order, [])
                out = [u + v * x for u, v in zip(out, part)]
            if kind == 'operator':
                sim.apply_qubit_operator(op, reg)
                same(vc, 'the operator is applied', sim, phys, out)
                return
            vc.eq('the expectation value', B.c(sim.get_expectation_value(op, reg)), sum((B.conj(x) * y for x, y in zip(vec, out)), B.c(0)))
        same(vc, 'the state is unchanged', sim, phys, psi)


@contract(P, [E + f for f in ('get_probability', 'get_amplitude', 'get_expectation_value', 'apply_qubit_operator', '_convert_logical_to_mapped_qureg')],
          samples=60)
@exact
def engine_invalid(vc):
    """Unknown qubits, operators on too many qubits and outcomes of the wrong length are refused."""
    with python_backend(vc):
        eng, sim, q, phys = mapped(vc, 2)
        psi = amplitudes(vc, 4)
        sim.set_wavefunction(list(psi), q)
        alien = WeakQubitRef(eng, 999)
        case = vc.choose('case', ['unknown probability', 'unknown amplitude', 'unknown collapse', 'unknown set', 'operator', 'apply',
                                  'short probability', 'short amplitude', 'short collapse'])
        op = QubitOperator('X0 Z2')
        calls = {
            'unknown probability': lambda: sim.get_probability('01', [q[0], alien]),
            'unknown amplitude': lambda: sim.get_amplitude('01', [q[0], alien]),
            'unknown collapse': lambda: sim.collapse_wavefunction([alien], '1'),
            'unknown set': lambda: sim.set_wavefunction([1, 0, 0, 0], [q[0], alien]),
            'operator': lambda: sim.get_expectation_value(op, q),
            'apply': lambda: sim.apply_qubit_operator(op, q),
            'short probability': lambda: sim.get_probability('0', q),
            'short amplitude': lambda: sim.get_amplitude('0', q),
            'short collapse': lambda: sim.collapse_wavefunction(q, '0'),
        }
        vc.raises('refused', Exception, calls[case])
        same(vc, 'nothing happened', sim, phys, psi)


@contract(P, [E + '_handle', E + 'receive', S + 'measure_qubits'], samples=100, size_bound='registers of 2 qubits')
@exact
def registered(vc):
    """Results are registered for the measured qubit, or for the logical qubit a mapper names in a tag."""
    with python_backend(vc):
        eng, sim = engine(vc, 2)
        ids = IDS[:2]
        sim.receive([W.mkcmd(ops.Allocate, [[p]], eng=eng) for p in sorted(ids)])
        refs = [WeakQubitRef(eng, i) for i in ids]
        bits = [vc.pick('value', 2), vc.pick('value', 2)]
        sim.set_wavefunction([1 if i == bits[0] + 2 * bits[1] else 0 for i in range(4)], refs)
        how = vc.choose('command', ['one', 'one tagged', 'both', 'two registers'])
        if how == 'one tagged':
            k = vc.pick('which', 2)
            name = vc.int('logical', 100) if vc.symbolic else 100 + vc.pick('logical', 50)
            tags = [LogicalQubitIDTag(name)]
            if vc.flag('other tag'):
                tags.insert(vc.pick('place', 2), object())
            sim.receive([W.mkcmd(ops.Measure, [[ids[k]]], tags=tags, eng=eng)])
            vc.ensure('registered for the logical qubit', eng.get_measurement_result(WeakQubitRef(eng, name)) == bool(bits[k]))
            for i in ids:
                vc.raises('and for no other', Exception, lambda i=i: eng.get_measurement_result(WeakQubitRef(eng, i)))
            return
        order = list(vc.choose('order', [(0, 1), (1, 0)]))
        if how == 'one':
            order = order[:1]
        regs = [[ids[p] for p in order]] if how != 'two registers' else [[ids[p]] for p in order]
        sim.receive([W.mkcmd(ops.Measure, regs, eng=eng)])
        for p in order:
            vc.ensure('each result is registered for its qubit', eng.get_measurement_result(refs[p]) == bool(bits[p]))
        if how == 'one':
            vc.raises('and for no other', Exception, lambda: eng.get_measurement_result(refs[1 - order[0]]))
        vc.raises('a controlled measurement is refused', ValueError,
                  lambda: sim.receive([W.mkcmd(ops.Measure, [[ids[0]]], [ids[1]], eng=eng)]))


@bounded(P, [E + 'get_expectation_value', E + 'get_probability'], 'random programs on 3 qubits, both the compiled and the Python backend', samples=40, thorough=400)
def both_backends(vc):
    """Products of operators have expectation values although their coefficients are stored as complex numbers."""
    import contextlib
    with python_backend(vc) if vc.flag('python') else contextlib.nullcontext():
        eng, sim = engine(vc, 3)
        q = eng.allocate_qureg(3)
        for x in q:
            ops.Ry(vc.angle('a')) | x
            ops.Rz(vc.angle('b')) | x
        eng.flush()
        a = QubitOperator('X0 Y1', vc.real('c', -1, 1)) + QubitOperator('Z2', vc.real('d', -1, 1))
        b = QubitOperator('X0 Z1', 0.5)
        mixed = QubitOperator('X0 Y2', complex(vc.real('re', -1, 1), vc.real('im', -1, 1))) + QubitOperator('Z1', 0.25 - 0.5j)
        op = vc.choose('operator', [mixed, mixed * a, a * a, a * b + b * a, a + b, QubitOperator('X0') * QubitOperator('X0')])
        ids = [x.id for x in q]
        vec = vector(sim, ids)
        want = sum((W.Float.conj(x) * y for x, y in zip(vec, [sum(r[j] * vec[j] for j in range(8)) for r in W.qubitop_matrix(W.Float, op, 3)])), 0)
        vc.eq('the expectation value', complex(sim.get_expectation_value(op, q)), want)
        order = list(vc.choose('order', list(itertools.permutations(range(3)))))[:2]
        p = sum(abs(x) ** 2 for x in projected(vec, order, (0, 1)))
        vc.eq('the probability', complex(sim.get_probability('01', [q[i] for i in order])), complex(p))
        after = vector(sim, ids)
        vc.mat_eq('the state is unchanged', [vec], [after])
        ops.All(ops.Measure) | q
        eng.flush()
        r = [int(x) for x in q]
        vc.eq('after the measurement the outcome is certain', complex(sim.get_probability(r, q)), 1 + 0j)
        del q


@bounded(P, [E + f for f in ('get_probability', 'get_amplitude', 'collapse_wavefunction')],
         'registers of 1 to 3 qubits, the simulator class as a user gets it (C++ extension when built)', samples=30)
def short_strings(vc):
    """A bit string which leaves qubits open is refused by the simulator a user gets, whatever its kernels do."""
    n = vc.pick('n', 3) + 1
    sim = Simulator(rnd_seed=1)
    eng = MainEngine(sim, [])
    reg = eng.allocate_qureg(n)
    for q in reg:
        ops.H | q
    eng.flush()
    short = ''.join(vc.choose('bit', '01') for _ in range(vc.pick('short', n)))
    before = sim.cheat()
    case = vc.choose('case', ['probability', 'amplitude', 'collapse'])
    vc.raises('refused', Exception, {'probability': lambda: sim.get_probability(short, reg),
                                     'amplitude': lambda: sim.get_amplitude(short, reg),
                                     'collapse': lambda: sim.collapse_wavefunction(reg, short)}[case])
    vc.mat_eq('nothing happened', [list(sim.cheat()[1])], [list(before[1])])
    vc.ensure('nothing happened', sim.cheat()[0] == before[0])
    ops.All(ops.Measure) | reg
    eng.flush()


@bounded(P, [S + f for f in ('get_probability', 'get_amplitude', 'get_expectation_value', 'collapse_wavefunction', 'measure_qubits', 'apply_qubit_operator')],
         'random states on 4 to 9 qubits, any ordered choice of qubits, operators of up to 6 terms', samples=150, thorough=2000)
def queries_large(vc):
    """Queries about many qubits, listed in any order."""
    import numpy as np

    from pv import fast
    n = 4 + vc.pick('size', 6)
    sim = s01_backend(vc)
    ids = list(range(3, 3 + 2 * n, 2))
    for i in range(n):
        j = i + vc.pick('layout', n - i)
        ids[i], ids[j] = ids[j], ids[i]
    for q in sorted(ids, key=lambda x: x * 7 % 11):
        sim.allocate_qubit(q)
    psi = fast.state(vc, n)
    if vc.flag('sparse'):
        psi[vc.pick('kept', 2)::2] = 0
        psi = psi / np.linalg.norm(psi)
    sim.set_wavefunction([complex(x) for x in psi], ids)

    def some(least):
        order = list(range(n))
        return [order.pop(vc.pick('qubit', len(order))) for _ in range(least + vc.pick('how many', n + 1 - least))]

    def state():
        m, v = sim.cheat()
        v = np.array(v)
        place = np.array([sum((j >> p & 1) << m[q] for p, q in enumerate(ids)) for j in range(1 << n)])
        return v[place]
    for _ in range(6):
        on = some(1)
        bits = [vc.pick('bit', 2) for _ in on]
        keep = np.array([all((i >> p & 1) == b for p, b in zip(on, bits)) for i in range(1 << n)])
        want = float((abs(psi[keep]) ** 2).sum())
        vc.ensure('the probability', abs(sim.get_probability([bool(b) for b in bits], [ids[p] for p in on]) - want) < 1e-9, f'{on} {bits}')
    order = list(range(n))
    order = [order.pop(vc.pick('place', len(order))) for _ in range(n)]
    bits = [vc.pick('bit', 2) for _ in range(n)]
    at = sum(b << p for p, b in zip(order, bits))
    vc.ensure('the amplitude', abs(sim.get_amplitude([bool(b) for b in bits], [ids[p] for p in order]) - psi[at]) < 1e-9)
    on = some(1)
    terms, want, applied = [], 0, np.zeros_like(psi)
    for _ in range(1 + vc.pick('terms', 6)):
        letters = [(i, vc.choose('letter', 'XYZ')) for i in range(len(on)) if vc.flag('in')]
        c = vc.real('c', -1, 1)
        v = psi
        for i, a in letters:
            v = fast.apply(v, W.PAULI[a](W.Float), [on[i]])
        want += c * np.vdot(psi, v)
        applied = applied + c * v
        terms.append((letters, c))
    vc.ensure('the expectation value', abs(sim.get_expectation_value(terms, [ids[p] for p in on]) - want) < 1e-8)
    vc.ensure('the state is as before', abs(state() - psi).max() < 1e-9)
    case = vc.choose('then', ['operator', 'collapse', 'measure'])
    if case == 'operator':
        sim.apply_qubit_operator(terms, [ids[p] for p in on])
        vc.ensure('the operator is applied', abs(state() - applied).max() < 1e-8)
        sim.set_wavefunction([complex(x) for x in psi], ids)
        on, case = list(range(n)), 'measure'
    on = some(1) if case == 'collapse' else on
    if case == 'collapse':
        bits = [vc.pick('bit', 2) for _ in on]
        keep = np.array([all((i >> p & 1) == b for p, b in zip(on, bits)) for i in range(1 << n)])
        p = float((abs(psi[keep]) ** 2).sum())
        if p > 1e-9:
            sim.collapse_wavefunction([ids[p] for p in on], [bool(b) for b in bits])
            want = np.where(keep, psi, 0) / math.sqrt(p)
            vc.ensure('the projection', abs(state() - want).max() < 1e-8)
            psi = want
        on = some(1)
    bits = [int(b) for b in sim.measure_qubits([ids[p] for p in on])]
    keep = np.array([all((i >> p & 1) == b for p, b in zip(on, bits)) for i in range(1 << n)])
    p = float((abs(psi[keep]) ** 2).sum())
    vc.ensure('the outcome is possible', p > 1e-20)
    vc.ensure('the measured projection', abs(state() - np.where(keep, psi, 0) / math.sqrt(p)).max() < 1e-7)
    vc.ensure('measured again: the same', [int(b) for b in sim.measure_qubits([ids[p] for p in on])] == bits)
    vc.ensure('the outcome is certain', abs(sim.get_probability([bool(b) for b in bits], [ids[p] for p in on]) - 1) < 1e-9)
