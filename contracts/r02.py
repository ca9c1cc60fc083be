"""R02: every setup compiles the gates of the library to gates its target accepts, without changing the operation."""
import contextlib
import importlib
import math
import os
import re
from fractions import Fraction

from pv import devices, num
from pv import world as W
from pv.shims import native
from pv.core import Unsupported, bounded, contract

import projectq.ops as ops
from projectq.meta import Control, LogicalQubitIDTag
from projectq.cengines import LocalOptimizer, MainEngine
from projectq.ops import Command, get_inverse
import projectq.libs.math as pm
from projectq.setups import default, grid, linear, restrictedgateset, trapped_ion_decomposer

from .c01 import qs
from .d01 import mgate, module, umat, vmat
from .r01 import allowed

P = 'R02'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real engines for all parameters, but for at most 2 controls, 3 qubits '
               'and the listed operations: bounded in structure, hence not counted as a proof for all programs')
DEEP = os.environ.get('VERIF_TIER') == 'thorough'
S = 'projectq.setups.'
ONE = {'Rz Ry': (ops.Rz, ops.Ry), 'Rz Rx': (ops.Rz, ops.Rx), 'Rz H': (ops.Rz, ops.H), 'Rz Ry Rx': (ops.Rz, ops.Ry, ops.Rx),
       'Rz Ry H': (ops.Rz, ops.Ry, ops.H), 'Rz Rx H': (ops.Rz, ops.Rx, ops.H), 'Rz Ry Rx H': (ops.Rz, ops.Ry, ops.Rx, ops.H),
       'any': 'any'}
TWO = {'CNOT': (ops.CNOT,), 'CZ': (ops.C(ops.Z),), 'CNOT Swap': (ops.CNOT, ops.Swap), 'any': 'any'}


class Target:
    """A setup with the set of commands its target accepts."""

    def __init__(self, name, engines, accepts):
        self.name, self.engines, self.accepts = name, engines, accepts


@contextlib.contextmanager
def answers(*triples):
    with devices.patched(*triples):
        yield


def hardware(vc, which):
    """The engine list of the setup for the device, and its backend."""
    kind = which.split()[0]
    mod = importlib.import_module(S + {'IBM': 'ibm', 'AQT': 'aqt', 'IonQ': 'ionq', 'Braket': 'awsbraket'}[kind])
    dev = devices.device(vc, {'IBM': 'IBM', 'AQT': 'AQT', 'IonQ': 'IonQ'}.get(kind, which))
    if kind == 'IonQ':
        class Service:
            def authenticate(self, token=None):
                pass

            def show_devices(self):
                return {'simulator': {'nq': 29}, 'ionq_qpu': {'nq': 11}}
        with answers((mod, 'IonQ', Service)):
            engs = mod.get_engine_list(device='ionq_qpu')
    else:
        lines = lambda n: [[i, j] for i in range(n) for j in range(n) if abs(i - j) == 1]
        shown = {'IBM': {'ibmqx2': {'nq': 5, 'coupling_map': [[0, 1], [1, 2], [2, 3], [3, 4], [2, 0], [4, 2]]},
                         'ibmq_qasm_simulator': {'nq': 32},
                         'ibmq_16_melbourne': {'nq': 15, 'coupling_map': MELBOURNE}},
                 'AQT': {'aqt_simulator': {'nq': 11}},
                 'Braket': {'SV1': {'nq': 34}, 'Aspen-8': {'nq': 32}, 'IonQ Device': {'nq': 11}}}[kind]
        with answers((mod, 'show_devices', lambda *a, **k: shown)):
            engs = mod.get_engine_list(device={'IBM': which[4:], 'AQT': 'aqt_simulator', 'Braket': which[7:]}[kind])
    return engs, dev


MELBOURNE = [list(p) for i in range(6) for p in ((i, i + 1), (i + 1, i))] + \
    [list(p) for i in range(7, 14) for p in ((i, i + 1), (i + 1, i))] + \
    [list(p) for i in range(7) for p in ((i, 14 - i), (14 - i, i))]
ROUTED = ('linear', 'grid', 'IBM ibmq_16_melbourne')
HW = ['IBM ibmqx2', 'IBM ibmq_qasm_simulator', 'IBM ibmq_16_melbourne', 'AQT', 'IonQ', 'Braket SV1', 'Braket Aspen-8',
      'Braket IonQ Device']


def target(vc, which, two=None, ones=tuple(ONE), big=False):
    if which in HW:
        engs, dev = hardware(vc, which)
        return engs, dev.backend.is_available
    if which == 'default':
        from projectq.backends import Simulator
        return default.get_engine_list(), Simulator(rnd_seed=1).is_available
    if which == 'trapped ion':
        return trapped_ion_decomposer.get_engine_list(), lambda c: allowed((ops.Rx, ops.Ry), (ops.Rxx,), (), c)
    one = vc.choose('one-qubit gates', [ONE[k] for k in ones])
    two = TWO[two] if two else vc.choose('two-qubit gates', list(TWO.values()))
    ok = lambda c: allowed(one, two, (), c)
    if which == 'restricted':
        return restrictedgateset.get_engine_list(one, two), ok
    if which == 'linear':
        return linear.get_engine_list(8 if big else 4, one_qubit_gates=one, two_qubit_gates=two), ok
    return grid.get_engine_list(2, 4 if big else 2, one_qubit_gates=one, two_qubit_gates=two), ok


def logical(cmd):
    """The logical qubit of an allocation or measurement; None for work qubits of a mapper."""
    for t in cmd.tags:
        if isinstance(t, LogicalQubitIDTag):
            return t.logical_qubit_id
    return None


def carried_out(vc, cmds, n, mapped):
    """Columns of the operation on the n logical qubits, read off the accepted commands."""
    B = W.nb(vc)
    locs = sorted({q.id for c in cmds if not isinstance(c.gate, ops.FlushGate) for r in c.all_qubits for q in r})
    pos = {p: i for i, p in enumerate(locs)}
    where = {}
    for c in cmds:
        if isinstance(c.gate, ops.MeasureGate):
            x = logical(c) if mapped else c.qubits[0][0].id
            where[x] = pos[c.qubits[0][0].id]
    vc.ensure('every qubit is measured once', sorted(where, key=str) == list(range(n)), str(where))
    # static mappers name the logical qubit only where it is measured
    static = not any(logical(c) is not None for c in cmds if isinstance(c.gate, ops.AllocateQubitGate))
    start = {}
    run = []
    for c in cmds:
        if isinstance(c.gate, ops.AllocateQubitGate):
            p = c.qubits[0][0].id
            x = logical(c) if not static else ([y for y in where if where[y] == pos[p]] + [None])[0]
            if x is not None and x < n:
                vc.ensure('a location is allocated before it is used',
                          p not in start and not any(q.id == p for d in run for r in d.all_qubits for q in r))
            start.setdefault(p, x)
        elif not W.is_classical(c):
            run.append(c)
    todo = W.steps(B, run, locs)
    cols = []
    for k in range(1 << n):
        at = sum(1 << pos[p] for p, x in start.items() if x is not None and k >> x & 1)
        vec = W.carry_out(B, todo, W.basis(B, len(locs), at))
        mask = sum(1 << where[x] for x in range(n))
        col = []
        for r in range(1 << len(locs)):
            if r & ~mask:
                vc.eq('other locations stay empty', vec[r], B.c(0))
        for y in range(1 << n):
            col.append(vec[sum(1 << where[x] for x in range(n) if y >> x & 1)])
        cols.append(col)
    return [[c[r] for c in cols] for r in range(1 << n)]


ROTS = ('Rx', 'Ry', 'Rz', 'Ph', 'R')
FIXED = ('H', 'X', 'Y', 'Z', 'S', 'T', 'SqrtX', 'Sdag', 'Tdag')
PAIRS = ('Swap', 'SqrtSwap')


class Unitary(ops.BasicGate):
    """A one-qubit gate of the user's, given by its matrix."""

    def __init__(self, matrix):
        super().__init__()
        self.matrix = matrix

    def get_inverse(self):
        raise ops.NotInvertible()

    def __str__(self):
        return 'Unitary'


def arbitrary(vc, known):
    """Any one-qubit unitary, by its parameters."""
    B = W.nb(vc)
    p = [vc.real(n, *(() if vc.symbolic else (-3, 3))) for n in 'abcd']
    if vc.flag('special form'):
        p = p[:3]
    known.append(tuple(p))
    return Unitary(mgate(vc, (umat if len(p) == 4 else vmat)(B, *p)).matrix)


def names(k):
    """The one- and two-qubit gates which the library decomposes, by their number of controls."""
    if k == 2 and not DEEP:
        return ['Rx', 'Rz', 'Ph', 'R', 'H', 'X', 'Z', 'T']
    return list(ROTS) + list(FIXED) + (list(PAIRS) if k < 2 else [])


def one_gate(vc, name, k, known, n):
    """The gate on some of the n qubits, with k controls."""
    g = arbitrary(vc, known) if name == 'arbitrary' else getattr(ops, name)(vc.angle('a')) if name in ROTS else getattr(ops, name)
    t = 2 if name in PAIRS else 1
    order = vc.choose('order', [list(range(n)), list(range(n))[::-1]][:2 if DEEP or k < 2 else 1])
    state = vc.choose('control state', ['1' * k, '0' + '1' * (k - 1)] + (['00'] if k == 2 and DEEP else [])) if k else None
    return [[g, [[i] for i in order[:t]], order[t:t + k], state]]


REFUSALS = {   # what a target may refuse
    # interactions which do not fit on the five-qubit chip without swaps; work qubits beyond the size of the chip
    'IBM ibmqx2': ('cannot be mapped without using Swaps', 'Too many qubits allocated'),
    'IonQ': ('Cannot allocate more than 11 qubits',),
    # the known finding (melbourne_corner)
    'IBM ibmq_16_melbourne': (r'execute the Swap gate .*Qureg\[15\]',)}


def compiled(vc, which, make, n, two=None, ones=tuple(ONE), optimize=True, big=False):
    """The commands (gate, registers, controls, control state), compiled for the target."""
    engs, accepts = target(vc, which, two, ones, big)
    if not optimize:
        engs = [e for e in engs if not isinstance(e, LocalOptimizer)]
    rec = W.make_rec(accepts)
    eng = MainEngine(rec, engs, verbose=True)
    q = eng.allocate_qureg(n)
    spec = make(eng)
    refs = [W.mkcmd(g, regs, ctrls, state) for g, regs, ctrls, state in spec]
    try:
        for g, regs, ctrls, state in spec:
            eng.receive([Command(eng, g, tuple([q[i] for i in r] for r in regs), controls=[q[i] for i in ctrls],
                                 **({'control_state': state} if ctrls else {}))])
        if which in ROUTED:       # a swap may otherwise follow the measurement
            eng.flush()
        ops.All(ops.Measure) | q
        eng.flush()
    except RuntimeError as exc:
        if not any(re.search(text, str(exc)) for text in REFUSALS.get(which, ())):
            raise
        for e in engs:      # what the refused program leaves behind is not sent
            e.receive = e.send = lambda cmds: None
        return
    for c in rec.cmds:
        if not W.is_classical(c):
            vc.ensure('the target accepts what it gets', bool(accepts(c)), f'{type(c.gate).__name__} on {len(c.control_qubits)} controls')
    B = W.nb(vc)
    mapped = any(logical(c) is not None for c in rec.cmds)
    vc.mat_eq('the compiled circuit implements the gates', carried_out(vc, rec.cmds, n, mapped),
              W.unitary(B, refs, list(range(n))), phase=True)


TARGETS = HW + ['default', 'trapped ion', 'linear', 'grid', 'restricted']


def functions(which):
    kind = which.split()[0]
    mod = {'IBM': 'ibm', 'AQT': 'aqt', 'IonQ': 'ionq', 'Braket': 'awsbraket', 'trapped': 'trapped_ion_decomposer',
           'restricted': 'restrictedgateset'}.get(kind, kind)
    funs = [S + mod + '.get_engine_list']
    if kind not in ('default', 'trapped'):
        funs += [S + '_utils.get_decomposition_rule_set', S + '_utils.high_level_gates', S + '_utils.one_and_two_qubit_gates']
    if kind in ('linear', 'grid', 'AQT') or which == 'IBM ibmq_16_melbourne':
        funs.append(S + '_utils.get_engine_list_linear_grid_base')
    return funs


def snapped(p):
    """The exact angle which the floating point number stands for (a multiple of pi/24)."""
    k = round(p / math.pi * 24)
    if abs(k * math.pi / 24 - p) > 1e-9:
        raise Unsupported('angle is no simple fraction of pi')
    return num.PI * Fraction(k, 24)


def witnesses(names):
    """Parameters of the rotations of the library."""
    out = []
    q = num.PI * Fraction(1, 4)
    for v in sorted(names):
        for s in (1, -1):
            t = num.Num.var(v) * Fraction(s, 2)
            out += [(num.Num(), -q, t, q), (num.Num(), num.Num(), t, num.Num()), (num.Num(), t, num.Num(), num.Num()),
                    (t * 2, num.Num(), num.Num(), num.Num()), (t, t, num.Num(), num.Num())]
    return out


@contextlib.contextmanager
def parameters(vc, known):
    """Symbolic runs: parameters found for one-qubit matrices.

    Matrices of numbers: what the real functions find.  Matrices which depend on parameters: these.
    """
    if not vc.symbolic:
        yield
        return
    one, ctl = module('arb1qubit2rzandry'), module('carb1qubit2cnotrzandry')
    find, special = native(vc.priv(one, '_find_parameters')), native(vc.priv(ctl, '_recognize_v'))
    B = W.Exact

    def exactly(m):
        return [[num.Num.const(x) for x in r] for r in m]

    def numbers(m):
        return [[complex(x.approx()) for x in r] for r in m]

    def same(m, w):
        return all((x - y).is_zero() or not (x - y).vars() and abs((x - y).approx()) < 1e-9 for r, o in zip(m, w) for x, y in zip(r, o))

    def constant(f, m, form):
        p = f(numbers(m))
        if p is False:
            return p
        p = tuple(snapped(float(x)) for x in p)
        if not same(m, form(B, *p)):
            raise Unsupported('parameters are not exact')
        return tuple(0 if x.is_zero() else x for x in p)

    def found(matrix):
        m = exactly(matrix)
        names = set().union(*(x.vars() for r in m for x in r))
        if not names:
            return constant(find, m, umat)
        h = num.PI * Fraction(1, 2)
        for w in list(known) + witnesses(names):
            if len(w) == 3:
                w = (w[0] + h, w[1] * Fraction(1, 2), w[2] + h, h - w[1] * Fraction(1, 2))
            if same(m, umat(B, *w)):
                return w
        raise Unsupported('parameters of a symbolic matrix')

    def recognized(matrix):
        m = exactly(matrix)
        names = set().union(*(x.vars() for r in m for x in r))
        if not names:
            return constant(special, m, vmat)
        for w in known:
            if len(w) == 3 and same(m, vmat(B, *w)):
                return w
        for w in list(known) + witnesses(names):
            if len(w) == 4 and same(m, umat(B, *w)):
                return False
        raise Unsupported('parameters of a symbolic matrix')

    with devices.patched((one, '_find_parameters', found), (ctl, '_recognize_v', recognized)):
        yield


FOUND = ['callee contracts: _find_parameters and _recognize_v return parameters of the matrix (D01), for matrices of numbers the ones they '
         'return natively, taken to be the multiples of pi/24 they are close to']


MERGES = ['callee contract: local optimizers leave the operation unchanged; they remove gates and merge adjacent gates of one class (E01)']


def _build():
    for which in TARGETS:
        tag = which.replace(' ', '_').replace('-', '_')
        for k in (0, 1, 2):
            for two in TWO if which in ('restricted', 'linear', 'grid') else [None]:
                end = f'{tag}_{k}' + ('_' + two.replace(' ', '_') if two else '')
                few = list(ONE) if DEEP else ['Rz Ry', 'Rz H', 'Rz Rx', 'Rz Ry Rx H', 'any'][:[5, 3, 1][k] + (which == 'restricted')]

                def fn(vc, which=which, k=k, two=two, few=few):
                    name = vc.choose('gate', names(k))
                    n = max(2, k + 1 + (name in PAIRS))
                    with parameters(vc, []):
                        compiled(vc, which, lambda eng: one_gate(vc, name, k, [], n), n, two, few)
                fn.__name__ = end
                fn.__doc__ = f'{which}: every gate of the library with {k} controls, all parameters.'
                contract(P, functions(which), samples=20, budget=100, max_paths=60000, size_bound='at most 2 controls', assumptions=FOUND)(fn)

                if k == 2 and not DEEP:
                    continue

                def user(vc, which=which, k=k, two=two, few=few[:2]):
                    known = []
                    n = max(2, k + 1)
                    with parameters(vc, known):
                        compiled(vc, which, lambda eng: one_gate(vc, 'arbitrary', k, known, n), n, two, few, optimize=not vc.symbolic)
                user.__name__ = 'unitary_' + end
                user.__doc__ = f'{which}: every one-qubit unitary with {k} controls.'
                contract(P, functions(which), samples=20, budget=100, max_paths=60000, size_bound='at most 2 controls', assumptions=FOUND + MERGES)(user)



_build()


# --- larger operations and programs ------------------------------------------------------------------------------------------
def t_evolution(vc, term):
    return ops.TimeEvolution(vc.angle('t'), ops.QubitOperator(term))


OPERATIONS = {   # name -> (gate, sizes of the registers, controls)
    'QFT2': (lambda vc: ops.QFT, [2], 0), 'QFT3': (lambda vc: ops.QFT, [3], 0), 'QFT2 inverse': (lambda vc: get_inverse(ops.QFT), [2], 0),
    'CQFT2': (lambda vc: ops.QFT, [2], 1), 'Entangle': (lambda vc: ops.Entangle, [3], 0),
    'time XY': (lambda vc: t_evolution(vc, 'X0 Y1'), [2], 0), 'time Z': (lambda vc: t_evolution(vc, 'Z0'), [1], 0),
    'time XZY': (lambda vc: t_evolution(vc, 'X0 Z1 Y2'), [3], 0), 'Ctime YX': (lambda vc: t_evolution(vc, 'Y0 X1'), [2], 1),
    'uniform Ry': (lambda vc: ops.UniformlyControlledRy([vc.angle('p'), vc.angle('q')]), [1, 1], 0),
    'uniform Rz': (lambda vc: ops.UniformlyControlledRz([vc.angle('p'), vc.angle('q')]), [1, 1], 0),
    'add1': (lambda vc: pm.AddConstant(1), [2], 0), 'sub1': (lambda vc: pm.SubConstant(1), [2], 0), 'Cadd1': (lambda vc: pm.AddConstant(1), [2], 1)}
LARGER = {**OPERATIONS, 'add3': (lambda vc: pm.AddConstant(3), [3], 0), 'Cadd3': (lambda vc: pm.AddConstant(3), [3], 1),
          'add mod': (lambda vc: pm.AddConstantModN(1, 4), [2], 0), 'sub mod': (lambda vc: pm.SubConstantModN(2, 4), [2], 0),
          'Cadd mod': (lambda vc: pm.AddConstantModN(3, 4), [2], 1), 'mul mod': (lambda vc: pm.MultiplyByConstantModN(3, 4), [2], 0),
          'C3X': (lambda vc: ops.X, [1], 3), 'C3Ry': (lambda vc: ops.Ry(vc.angle('a')), [1], 3), 'C2Swap': (lambda vc: ops.Swap, [1, 1], 2),
          'C2time': (lambda vc: t_evolution(vc, 'Z0 Z1'), [2], 2)}


def operation(vc, name, i=''):
    make, sizes, k = LARGER[name]
    g = make(vc)
    n = sum(sizes) + k
    order = vc.choose('order' + i, [list(range(n)), list(range(n))[::-1]])
    state = vc.choose('control state' + i, ['1' * k, '0' + '1' * (k - 1)]) if k else None
    regs, at = [], 0
    for s in sizes:
        regs.append(order[at:at + s])
        at += s
    return g, regs, order[at:], state


def _build_operations():
    for which in TARGETS:
        tag = which.replace(' ', '_').replace('-', '_')
        for two in (list(TWO) if DEEP else ['CNOT', 'CZ']) if which in ('restricted', 'linear', 'grid') else [None]:
            def fn(vc, which=which, two=two):
                name = vc.choose('operation', list(OPERATIONS))
                n = max(2, sum(LARGER[name][1]) + LARGER[name][2])
                vc.ghost['fork mod'] = True
                with parameters(vc, []):
                    compiled(vc, which, lambda eng: [list(operation(vc, name))], n, two, list(ONE) if DEEP else ['Rz Ry', 'any'])
            fn.__name__ = f'operations_{tag}' + ('_' + two.replace(' ', '_') if two else '')
            fn.__doc__ = f'{which}: Fourier transforms, time evolutions, additions, all parameters.'
            contract(P, functions(which), samples=20, budget=100, max_paths=60000, size_bound='at most 3 qubits', assumptions=FOUND)(fn)


_build_operations()


def random_gate(vc, i, n):
    """One of the operations or gates, on some of the n qubits."""
    if vc.pick(f'kind {i}', 3) == 0:
        name = vc.choose(f'operation {i}', [x for x in LARGER if sum(LARGER[x][1]) + LARGER[x][2] <= n])
        g, regs, ctrls, state = operation(vc, name, f' {i}')
    else:
        k = vc.pick(f'controls {i}', 3)
        name = vc.choose(f'gate {i}', list(ROTS) + list(FIXED) + list(PAIRS) * (k < 2) + ['arbitrary'])
        (g, regs, ctrls, state), = one_gate(vc, name, k, [], 1 + k + (name in PAIRS))
    m = sum(map(len, regs)) + len(ctrls)
    where = list(range(n))
    for j in range(m):
        r = j + vc.pick(f'place {i} {j}', n - j)
        where[j], where[r] = where[r], where[j]
    return [g, [[where[x] for x in r] for r in regs], [where[x] for x in ctrls], state]


def _build_programs():
    for which in TARGETS:
        def fn(vc, which=which):
            n = 4 if which != 'IBM ibmqx2' else 3
            compiled(vc, which, lambda eng: [random_gate(vc, i, n) for i in range(1 + vc.pick('gates', 3))], n, big=True)
        fn.__name__ = 'programs_' + which.replace(' ', '_').replace('-', '_')
        fn.__doc__ = f'{which}: random programs.'
        bounded(P, functions(which), 'random programs of at most 3 gates on 4 qubits (3 on ibmqx2), also modular arithmetic and up to 3 controls',
                samples=25 if which != 'IonQ' else 10, thorough=800)(fn)


_build_programs()


@bounded(P, functions('IBM ibmq_16_melbourne'), 'eight qubits', exhaustive=True)
def melbourne_corner(vc):
    """The locations of the compiled circuit are qubits of the device."""
    n = 8
    engs, accepts = target(vc, 'IBM ibmq_16_melbourne')
    rec = W.make_rec(accepts)
    eng = MainEngine(rec, engs, verbose=True)
    q = eng.allocate_qureg(n)
    ops.CNOT | (q[0], q[1])
    eng.flush()
    ops.All(ops.Measure) | q
    eng.flush()
    used = {x.id for c in rec.cmds if not isinstance(c.gate, ops.FlushGate) for r in c.all_qubits for x in r}
    vc.ensure('only qubits of the device are used', used <= set(range(15)), f'{sorted(used)}')
