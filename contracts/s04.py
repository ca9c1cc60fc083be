"""S04: the unitary simulator accumulates exactly the circuit's unitary."""
import itertools
import math
import random
import warnings

import numpy

from pv import num
from pv import world as W
from pv.core import bounded, contract
from pv.num import Num

import projectq.ops as ops
from projectq import MainEngine
from projectq.backends import UnitarySimulator, _unitary
from projectq.cengines import DummyEngine
from projectq.meta import LogicalQubitIDTag
from projectq.types import WeakQubitRef

from .s01 import IDS, amplitudes, exact, matrix, split

P = 'S04'
S = 'projectq.backends._unitary.UnitarySimulator.'
MASK = 'projectq.backends._unitary._qidmask'
ALL = [S + f for f in ('_handle', 'receive', '_flush', 'unitary', 'history')] + [MASK]


class MGate(ops.BasicGate):
    """A gate given by its matrix."""

    def __init__(self, m):
        super().__init__()
        self.m = m

    @property
    def matrix(self):
        return self.m


def mgate(vc, k, m=None):
    m = matrix(vc, k) if m is None else m
    return MGate(numpy.array(m, dtype=object if vc.symbolic else complex)), m


def start(vc, n=0):
    sim = UnitarySimulator()
    eng = MainEngine(backend=sim, engine_list=[])
    ids = IDS[:n]
    for i in ids:
        sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=eng)])
    return eng, sim, ids


def embedded(vc, n, m, t, c):
    """Columns of the matrix on n qubits."""
    B = W.nb(vc)
    return [W.apply_matrix(B, W.basis(B, n, j), m, t, [(p, 1) for p in c]) for j in range(1 << n)]


def after(vc, cols, m, t, c):
    B = W.nb(vc)
    return [W.apply_matrix(B, [B.c(x) for x in v], m, t, [(p, 1) for p in c]) for v in cols]


def rows(m):
    return numpy.asarray(m).tolist()


def same(vc, name, got, cols):
    got = rows(got)
    d = len(cols)
    if not isinstance(got[0], list):
        got = [got]
    vc.ensure(name + ': dimension', len(got) == d and all(len(r) == d for r in got), f'{len(got)}x{len(got[0])}, expected {d}')
    vc.mat_eq(name, got, [[cols[j][i] for j in range(d)] for i in range(d)])


def put(sim, eng, gate, t, c=(), tags=()):
    """Send a gate on the listed targets (one register each, or one for all)."""
    sim.receive([W.mkcmd(gate, t, list(c), tags=tags, eng=eng)])


def regs(vc, t):
    if len(t) > 1 and vc.flag('one register'):
        return [list(t)]
    return [[x] for x in t]


def ident(vc, n):
    B = W.nb(vc)
    return [W.basis(B, n, j) for j in range(1 << n)]


# --- gates -----------------------------------------------------------------------------------------------------------------
def _first(vc, n, k):
    eng, sim, ids = start(vc, n)
    same(vc, 'fresh qubits: the identity', sim.unitary, ident(vc, n))
    t, c = split(vc, n, k)
    g, m = mgate(vc, k)
    put(sim, eng, g, regs(vc, [ids[p] for p in t]), [ids[p] for p in c])
    same(vc, 'the embedded matrix', sim.unitary, embedded(vc, n, m, t, c))
    vc.ensure('no history', len(sim.history) == 0)


@contract(P, ALL, samples=80, size_bound='registers of at most 5 qubits')
@exact
def one_target(vc):
    """Every 2x2 matrix, position and control set, from the identity."""
    _first(vc, 1 + vc.pick('size', 5), 1)


@contract(P, ALL, samples=80, size_bound='registers of at most 4 qubits')
@exact
def two_targets(vc):
    """Every 4x4 matrix, ordered pair of targets and control set, from the identity."""
    _first(vc, 2 + vc.pick('size', 3), 2)


@contract(P, ALL, samples=80, size_bound='registers of at most 4 qubits')
@exact
def three_targets(vc):
    """Every 8x8 matrix, ordered triple of targets and control set, from the identity."""
    _first(vc, 3 + vc.pick('size', 2), 3)


@contract(P, ALL, samples=80, size_bound='registers of at most 3 qubits', budget=120)
@exact
def product(vc):
    """From an arbitrary current matrix: every further gate multiplies from the left; flushing and reading change nothing."""
    n = 1 + vc.pick('size', 3)
    k = 1 + vc.pick('targets', min(n, 3))
    eng, sim, ids = start(vc, n)
    g, m = mgate(vc, n)
    put(sim, eng, g, [ids])
    cols = embedded(vc, n, m, list(range(n)), [])
    if vc.flag('flush'):
        eng.flush()
        same(vc, 'flushing changes nothing', sim.unitary, cols)
    u = sim.unitary
    u *= 0
    t, c = split(vc, n, k)
    h, m = mgate(vc, k)
    put(sim, eng, h, [[ids[p]] for p in t], [ids[p] for p in c])
    same(vc, 'multiplied by the embedded matrix', sim.unitary, after(vc, cols, m, t, c))
    vc.ensure('no history', len(sim.history) == 0)


@contract(P, ALL, samples=60, size_bound='registers of at most 2 qubits, up to 2 new qubits')
@exact
def new_qubits(vc):
    """A new qubit extends an arbitrary current matrix by an identity factor; later gates act on the named qubits."""
    n = vc.pick('size', 3)
    eng, sim, ids = start(vc, n)
    cols = ident(vc, n)
    if n:
        g, m = mgate(vc, n)
        put(sim, eng, g, [ids])
        cols = embedded(vc, n, m, list(range(n)), [])
    if vc.flag('flush'):
        eng.flush()
    for j in range(1 + vc.pick('new qubits', 2)):
        i = IDS[n + j]
        sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=eng)])
        ids.append(i)
        d = len(cols)
        cols = [list(v) + [0] * d for v in cols] + [[0] * d + list(v) for v in cols]
        same(vc, 'identity factor', sim.unitary, cols)
    t, c = split(vc, len(ids), 1)
    h, m = mgate(vc, 1)
    put(sim, eng, h, [[ids[t[0]]]], [ids[p] for p in c])
    same(vc, 'gates act on the named qubits', sim.unitary, after(vc, cols, m, t, c))


# --- segments ----------------------------------------------------------------------------------------------------------------
class Seg:
    """What the simulator has to report."""

    def __init__(self, vc):
        self.vc, self.B = vc, W.nb(vc)
        self.eng = None
        self.live, self.gone, self.cols, self.history = [], [], [[self.B.c(1)]], []
        self.cut, self.flushed = False, False
        self.bits = {}                                   # classical values, as long as only permutations were applied

    def fresh(self):
        self.history.append(self.cols)
        self.live = [q for q in self.live if q not in self.gone]
        self.gone = []
        self.cols = ident(self.vc, len(self.live))
        self.cut = False

    def allocate(self, q):
        if self.gone:
            self.fresh()
        d = len(self.cols)
        self.cols = [list(v) + [self.B.c(0)] * d for v in self.cols] + [[self.B.c(0)] * d + list(v) for v in self.cols]
        self.live.append(q)
        self.bits[q] = 0

    def gate(self, m, t, c):
        if self.cut:
            self.fresh()
        self.cols = after(self.vc, self.cols, m, [self.live.index(q) for q in t], [self.live.index(q) for q in c])
        self.flushed = False

    def check(self, sim, name):
        same(self.vc, name + ': the current matrix', sim.unitary, self.cols)
        h = sim.history
        self.vc.ensure(name + ': one earlier matrix per segment', len(h) == len(self.history), f'{len(h)} instead of {len(self.history)}')
        for got, want in zip(h, self.history):
            same(self.vc, name + ': the earlier matrices', got, want)


FLIP = [[0, 1], [1, 0]]
CYCLE = [[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]


def cycle(bits):
    v = (bits[0] + 2 * bits[1] + 1) % 4
    return [v & 1, v >> 1]


def step(vc, sim, eng, seg, ids, what):
    """One step of a history with classical states; returns False if it is impossible."""
    alive = [q for q in seg.live if q not in seg.gone]
    if what == 'allocate':
        q = [i for i in ids if i not in seg.live and i not in vc.ghost.setdefault('used', [])]
        if not q:
            return False
        vc.ghost['used'].append(q[0])
        sim.receive([W.mkcmd(ops.Allocate, [[q[0]]], eng=eng)])
        seg.allocate(q[0])
    elif what == 'flip':
        if not alive:
            return False
        q = vc.choose('qubit', alive)
        c = [x for x in alive if x != q][:1]
        put(sim, eng, ops.X, [[q]], c)
        seg.gate(FLIP, [q], c)
        if all(seg.bits[x] for x in c):
            seg.bits[q] ^= 1
    elif what == 'cycle':
        if len(alive) < 2:
            return False
        a = vc.choose('qubits', list(itertools.permutations(alive, 2)))
        put(sim, eng, MGate(numpy.array(CYCLE)), [list(a)])
        seg.gate(CYCLE, list(a), [])
        seg.bits[a[0]], seg.bits[a[1]] = cycle([seg.bits[a[0]], seg.bits[a[1]]])
    elif what == 'remove':
        if not alive:
            return False
        q = vc.choose('qubit', alive)
        sim.receive([W.mkcmd(ops.Deallocate, [[q]], eng=eng)])
        seg.gone.append(q)
        seg.cut = True
    elif what == 'flush':
        eng.flush()
        seg.flushed = True
    else:
        if not alive:
            return False
        got = []
        eng.set_measurement_result = lambda q, v: got.append((q.id, bool(v)))
        if not seg.flushed:
            eng.flush()
            seg.flushed = True
        order = alive[::-1] if vc.flag('reverse') else alive
        sim.receive([W.mkcmd(ops.Measure, [order], eng=eng)])
        seg.cut = True
        vc.ensure('the qubits are measured', got == [(q, bool(seg.bits[q])) for q in order], f'{got}, expected {[(q, seg.bits[q]) for q in order]}')
    return True


STEPS = ['allocate', 'flip', 'cycle', 'remove', 'flush', 'measure']


def history(vc, length, first=2, final=True, steps=STEPS):
    eng, sim, _ = start(vc)
    seg = Seg(vc)
    ids = IDS[:4]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(first):
            step(vc, sim, eng, seg, ids, 'allocate')
        if first:
            step(vc, sim, eng, seg, ids, 'flip')
        for j in range(length):
            if not step(vc, sim, eng, seg, ids, vc.choose('step', steps)):
                return
            seg.check(sim, f'step {j}' if not vc.symbolic else 'each step')
        if final:
            alive = [q for q in seg.live if q not in seg.gone]
            if not alive or len(alive) > 2:
                return
            g, m = mgate(vc, len(alive))
            put(sim, eng, g, [alive[::-1]])
            seg.gate(m, alive[::-1], [])
            seg.check(sim, 'arbitrary gate')
            h = sim.history
            for x in h:
                x *= 0
            eng.flush()
            seg.check(sim, 'flushed')


@contract(P, ALL + [S + 'measure_qubits'], samples=150, size_bound='histories of 3 steps on up to 4 qubits, then an arbitrary gate', budget=100)
@exact
def segments(vc):
    """Three steps of any kind after a gate: matrices, history and measured values; then an arbitrary gate."""
    history(vc, 3)


@contract(P, ALL + [S + 'measure_qubits'], samples=150, size_bound='histories of 3 steps on up to 4 qubits', budget=100)
@exact
def segments_longer(vc):
    """Three steps where the first cuts the segment."""
    eng, sim, _ = start(vc)
    seg = Seg(vc)
    ids = IDS[:4]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(2):
            step(vc, sim, eng, seg, ids, 'allocate')
        step(vc, sim, eng, seg, ids, 'cycle')
        for what in (vc.choose('cut', ['remove', 'measure']), vc.choose('then', ['allocate', 'flip', 'cycle', 'remove']),
                     vc.choose('finally', ['flip', 'measure', 'allocate'])):
            if not step(vc, sim, eng, seg, ids, what):
                return
            seg.check(sim, 'each step')


@bounded(P, ALL + [S + 'measure_qubits'], 'random histories of up to 25 steps on up to 5 qubits', samples=150, thorough=1500)
def segments_random(vc):
    """Long histories with classical states: matrices, histories and measured values."""
    vc.ghost['used'] = []
    history(vc, vc.pick('length', 26), first=vc.pick('first', 3), final=False, steps=STEPS + ['flip', 'cycle'])


@bounded(P, ALL + [S + 'measure_qubits'], 'random circuits of up to 12 gates on up to 5 qubits, random unitary matrices on up to 3 qubits', samples=100,
         thorough=1000)
def circuits(vc):
    """Random circuits through the main engine: the matrix; measured values are possible, stable, and have their probabilities."""
    n = 1 + vc.pick('size', 5)
    eng, sim, ids = start(vc, n)
    cols = ident(vc, n)
    for _ in range(vc.pick('gates', 12)):
        k = 1 + vc.pick('targets', min(n, 3))
        order = list(range(n))
        t = [order.pop(vc.pick('target', len(order))) for _ in range(k)]
        c = [p for p in order if vc.pick('control', 4) == 0]
        g, m = mgate(vc, k)
        put(sim, eng, g, [[ids[p]] for p in t] if vc.flag('single') else [[ids[p] for p in t]], [ids[p] for p in c])
        cols = after(vc, cols, m, t, c)
        if vc.pick('flush', 4) == 0:
            eng.flush()
    same(vc, 'the product of the embedded matrices', sim.unitary, cols)
    eng.flush()
    psi = cols[0]
    got = {}
    eng.set_measurement_result = lambda q, v: got.setdefault(q.id, []).append(bool(v))
    on = [p for p in range(n) if vc.flag('measured')] or [0]
    for _ in range(2):
        sim.receive([W.mkcmd(ops.Measure, [[ids[p] for p in on]], eng=eng)])
    vc.ensure('repeated measurements agree', all(len(set(v)) == 1 and len(v) == 2 for v in got.values()) and len(got) == len(on))
    pr = sum(abs(x) ** 2 for i, x in enumerate(psi) if all((i >> p) & 1 == got[ids[p]][0] for p in on))
    vc.ensure('the outcome is possible', pr > 1e-20)
    sim.receive([W.mkcmd(ops.Measure, [ids], eng=eng)])
    vc.ensure('later measurements agree', all(got[ids[p]][0] == got[ids[p]][-1] for p in on))
    pr = sum(abs(x) ** 2 for i, x in enumerate(psi) if all((i >> p) & 1 == got[ids[p]][-1] for p in range(n)))
    vc.ensure('the joint outcome is possible', pr > 1e-20)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = vc.pick('target', n)
        put(sim, eng, ops.X, [[ids[p]]])
        eng.flush()
        sim.receive([W.mkcmd(ops.Measure, [ids], eng=eng)])
        vc.ensure('the state is kept over segments', all(got[ids[j]][-1] == (got[ids[j]][-2] ^ (j == p)) for j in range(n)))
        kept = [got[i][-1] for i in ids]
        new = eng.allocate_qubit()
        eng.flush()
        ids = list(ids) + [new[0].id]
        sim.receive([W.mkcmd(ops.Measure, [ids], eng=eng)])
        vc.ensure('a new qubit is 0 and changes no measured value', [got[i][-1] for i in ids] == kept + [False])


@bounded(P, ALL + [S + 'measure_qubits'], 'circuits of up to 10 gates on 5 to 8 qubits, matrices on up to 4 qubits, up to 7 controls', samples=60, thorough=600)
def circuits_large(vc):
    """Gates on few of many qubits, or with many controls."""
    n = 5 + vc.pick('size', 4)
    eng, sim, _ = start(vc)
    ids = list(range(4, 4 + 3 * n, 3))
    for i in ids:
        sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=eng)])
    want = numpy.identity(1 << n, dtype=complex)
    few = vc.flag('few gates')
    for _ in range(1 + vc.pick('gates', 2 if few else 10)):
        k = 1 + vc.pick('targets', 4)
        order = list(range(n))
        t = [order.pop(vc.pick('target', len(order))) for _ in range(k)]
        often = 1 + vc.pick('often', 4)
        c = [p for p in order if vc.pick('control', 5) >= often]
        rng = numpy.random.default_rng(vc.pick('matrix', 1 << 20))
        m = numpy.linalg.qr(rng.normal(size=(1 << k, 1 << k)) + 1j * rng.normal(size=(1 << k, 1 << k)))[0]
        g = MGate(m)
        put(sim, eng, g, [[ids[p]] for p in t] if vc.flag('single') else [[ids[p] for p in t]], [ids[p] for p in c])
        out = want.reshape((2,) * n + (1 << n,))
        at = tuple(1 if n - 1 - a in c else slice(None) for a in range(n))
        sub = out[at]
        free = [p for p in range(n - 1, -1, -1) if p not in c]
        axes = [free.index(p) for p in reversed(t)]
        res = numpy.tensordot(m.reshape((2,) * (2 * k)), sub, axes=(list(range(k, 2 * k)), axes))
        out = out.copy()
        out[at] = numpy.moveaxis(res, list(range(k)), axes)
        want = out.reshape(1 << n, 1 << n)
        if vc.pick('flush', 6) == 0:
            eng.flush()
    got = numpy.asarray(sim.unitary)
    vc.ensure('dimension', got.shape == want.shape)
    d = abs(got - want).max()
    vc.ensure('the product of the embedded matrices', d < 1e-8, f'deviation {d}')
    eng.flush()
    psi = want[:, 0]
    bits = {}
    eng.set_measurement_result = lambda q, v: bits.setdefault(q.id, []).append(int(bool(v)))
    order = list(range(n))
    on = [order.pop(vc.pick('measured', len(order))) for _ in range(1 + vc.pick('how many', n))]
    for _ in range(2):
        sim.receive([W.mkcmd(ops.Measure, [[ids[p] for p in on]], eng=eng)])
    vc.ensure('repeated measurements agree', len(bits) == len(on) and all(len(v) == 2 and v[0] == v[1] for v in bits.values()))
    pr = sum(abs(x) ** 2 for i, x in enumerate(psi) if all((i >> p) & 1 == bits[ids[p]][0] for p in on))
    vc.ensure('the outcome is possible', pr > 1e-20)
    kept = [bits[ids[p]][0] for p in on]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        new = eng.allocate_qubit()
        eng.flush()
        sim.receive([W.mkcmd(ops.Measure, [[ids[p] for p in on] + [new[0].id]], eng=eng)])
    vc.ensure('a new qubit is 0 and changes no measured value', [bits[ids[p]][-1] for p in on] == kept and bits[new[0].id] == [0])


class Draws:
    def __init__(self, u):
        self.u = u

    def random(self):
        return self.u

    def __getattr__(self, name):
        return getattr(random, name)


@bounded(P, [S + 'measure_qubits'], 'random states of up to 3 qubits, 200 equidistant draws each', samples=10, thorough=100)
def frequencies(vc):
    """Outcomes occur with their probabilities."""
    n = 1 + vc.pick('size', 3)
    psi = amplitudes(vc, 1 << n)
    a = numpy.array([psi] + [[1.0 if i == j else 0.0 for i in range(1 << n)] for j in range(1, 1 << n)], dtype=complex).T
    q, r = numpy.linalg.qr(a)
    q[:, 0] *= r[0, 0]
    m = q.tolist()
    on = [p for p in range(n) if vc.flag('measured')] or [n - 1]
    saved, count, total = vc.priv(_unitary, 'random'), {}, 200
    try:
        for k in range(total):
            eng, sim, ids = start(vc, n)
            put(sim, eng, MGate(numpy.array(m)), [ids])
            eng.flush()
            got = []
            eng.set_measurement_result = lambda qb, v: got.append(int(v))
            _unitary.random = Draws((k + 0.5) / total)
            sim.receive([W.mkcmd(ops.Measure, [[ids[p] for p in on]], eng=eng)])
            count[tuple(got)] = count.get(tuple(got), 0) + 1
    finally:
        _unitary.random = saved
    for key in itertools.product([0, 1], repeat=len(on)):
        pr = sum(abs(x) ** 2 for i, x in enumerate(psi) if all((i >> p) & 1 == b for p, b in zip(on, key)))
        vc.ensure('the frequency of an outcome is its probability', abs(count.get(key, 0) / total - pr) <= (1 << n) / total, f'{key}: {count.get(key, 0)}/{total}, {pr}')


# --- the rest ---------------------------------------------------------------------------------------------------------------
@contract(P, [S + 'is_available', S + 'receive', S + '_handle'], samples=60)
def availability(vc):
    """Gates with a matrix and positive controls are available, nothing else; commands are passed on unless the simulator is last."""
    last = vc.flag('last')
    sim = UnitarySimulator()
    back = DummyEngine(save_commands=True)
    eng = MainEngine(backend=sim if last else back, engine_list=[] if last else [sim])
    gate, ok = vc.choose('gate', [(ops.H, 1), (ops.Rx(0.5), 1), (ops.R(0.25), 1), (ops.Ph(0.5), 1), (MGate(numpy.eye(2)), 1), (ops.BasicGate(), 0),
                                  (ops.QFT, 0), (ops.BasicMathGate(lambda x: (x,)), 0), (ops.QubitOperator('X0'), 0), (ops.Barrier, 0)])
    ctl = vc.choose('controls', [None, '1', '0', '11', '10'])
    c = [] if ctl is None else [1, 2][:len(ctl)]
    cmd = W.mkcmd(gate, [[0]], c, ctl, eng=eng)
    want = bool(ok) and '0' not in (ctl or '')
    vc.ensure('available exactly if it can be simulated', bool(sim.is_available(cmd)) == want, f'{type(gate).__name__} {ctl}')
    for g in (ops.Allocate, ops.Deallocate, ops.Measure):
        vc.ensure('always available', bool(sim.is_available(W.mkcmd(g, [[0]], eng=eng))))
    cmds = [W.mkcmd(ops.Allocate, [[i]], eng=eng) for i in range(3)]
    sim.receive(cmds)
    if want:
        sim.receive([cmd])
        cmds.append(cmd)
    if not last:
        vc.ensure('commands are passed on', len(back.received_commands) == len(cmds) and all(a is b for a, b in zip(back.received_commands, cmds)))


@contract(P, [S + '_handle'], samples=60)
def measurement_rules(vc):
    """Measurements need a flush, no controls, and are registered for the logical qubit; the matrix is left alone."""
    eng, sim, ids = start(vc, 2)
    seen = []
    eng.set_measurement_result = lambda q, v: seen.append((q.id, bool(v)))
    put(sim, eng, ops.X, [[ids[0]]])
    u = sim.unitary
    kind = vc.choose('kind', ['unflushed', 'control', 'tag', 'plain'])
    if kind == 'unflushed':
        vc.raises('unflushed measurements are refused', RuntimeError, lambda: sim.receive([W.mkcmd(ops.Measure, [[ids[0]]], eng=eng)]))
        vc.ensure('nothing is registered', not seen)
        return
    eng.flush()
    if kind == 'control':
        vc.raises('controlled measurements are refused', ValueError, lambda: sim.receive([W.mkcmd(ops.Measure, [[ids[0]]], [ids[1]], eng=eng)]))
        return
    which = vc.pick('qubit', 2)
    tags = []
    if kind == 'tag':
        tags = [LogicalQubitIDTag(vc.int('logical', 0, 300))]
        if vc.flag('other'):
            tags.insert(vc.pick('place', 2), object())
    sim.receive([W.mkcmd(ops.Measure, [[ids[which]]], tags=tags, eng=eng)])
    vc.ensure('one result', len(seen) == 1)
    vc.ensure('for the qubit', seen[0][0] == ([t for t in tags if isinstance(t, LogicalQubitIDTag)][0].logical_qubit_id if tags else ids[which]))
    vc.ensure('its value', seen[0][1] == (which == 0))
    same(vc, 'the matrix is unchanged', sim.unitary, [[u[i][j] for i in range(4)] for j in range(4)])
    vc.ensure('no history yet', len(sim.history) == 0)


del WeakQubitRef, math, num, Num
