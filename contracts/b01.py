"""B01: resource counts equal the circuit that passed through."""
import contextlib
import io

from pv import progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.backends import ResourceCounter
from projectq.meta import LogicalQubitIDTag
from projectq.ops import Command

from .c01 import Opaque, ids, qs
from .e03 import ab
from .g02 import zoo

P = 'B01'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real code, but for structures of bounded size: '
               'at most 3 live qubits besides any counts and depths, commands on at most 3 qubits; '
               'hence not counted as a proof for all sizes')
R = 'projectq.backends._resource.ResourceCounter.'
FNS = [R + f for f in ('_add_cmd', 'receive', 'depth_of_dag', 'is_available')]


def smax(xs):
    r = 0
    for x in xs:
        r = x if bool(x > r) else r
    return r


def same_gate(a, b):
    """Gates of different classes are counted apart (a numerically equal matrix is another kind of gate)."""
    return type(a) is type(b) and a == b


class Ref:
    """What the counters must show for the commands seen so far."""

    def __init__(self):
        self.gates, self.classes = [], []          # [gate, controls, number]
        self.depth, self.done, self.width, self.live = [], 0, 0, 0

    def hit(self, table, key, ctl, same):
        for t in table:
            if t[1] == ctl and same(t[0], key):
                t[2] = t[2] + 1
                return
        table.append([key, ctl, 1])

    def see(self, name, gate, qubits, nctl):
        if name == 'FlushGate':
            return
        self.hit(self.gates, gate, nctl, same_gate)
        self.hit(self.classes, type(gate), nctl, lambda a, b: a is b)
        if name == 'AllocateQubitGate':
            self.depth.append([qubits[0], 0])
            self.live += 1
            self.width = self.live if bool(self.live > self.width) else self.width
            return
        if name == 'DeallocateQubitGate':
            for k, (x, d) in enumerate(self.depth):
                if bool(x == qubits[0]):
                    self.done = smax([self.done, d])
                    del self.depth[k]
                    break
            self.live -= 1
            return
        mine = [e for e in self.depth if any(bool(e[0] == x) for x in qubits)]
        m = smax([e[1] for e in mine])
        for e in mine:
            e[1] = m + 1

    def check(self, vc, rc):
        vc.eq('maximal width', rc.max_width, self.width)
        vc.eq('depth', rc.depth_of_dag, smax([self.done] + [d for _, d in self.depth]))
        for what, table, got, same in (('gates', self.gates, rc.gate_counts, same_gate),
                                       ('classes', self.classes, rc.gate_class_counts, lambda a, b: a is b)):
            vc.ensure(what + ': as many entries as kinds', len(got) == len(table), f'{got} instead of {table}')
            for key, ctl, n in table:
                r = [v for (k, c), v in got.items() if c == ctl and same(k, key)]
                vc.ensure(what + ': one entry each', len(r) == 1)
                vc.eq(what + ': number', r[0], n)


def name(gate):
    return type(gate).__name__


SIZE = 'inductive step: any counts and depths, at most 3 live qubits, one arbitrary command on at most 3 qubits'


def _step(vc, lo, hi):
    """One command from any reachable counter state: every public number moves exactly as the circuit does."""
    rc = ResourceCounter()
    last = bool(vc.pick('last', 2))
    engines = [] if last else [rc]
    if last:
        from projectq import MainEngine
        eng, rec = MainEngine(rc, []), None
    else:
        eng, rec = W.make_eng(engines)
    ref = Ref()
    k = lo + vc.pick('live', hi - lo + 1)
    xs = ids(vc, 'x', k + 1)
    sym = vc.symbolic
    g, h = Opaque('g'), Opaque('h')
    if sym:
        for a in ('_depth_of_qubit', '_previous_max_depth', '_active_qubits'):
            vc.priv(rc, a)
    if sym:
        num = [vc.int(f'd{i}', 0, None) for i in range(k)]
        done, more = vc.int('done', 0, None), vc.int('more', 0, None)
        ng, nc = vc.int('ng', 1, None), vc.int('nc', 0, None)
        rc._depth_of_qubit = {x: d for x, d in zip(xs, num)}
        rc._previous_max_depth = done
        rc._active_qubits = k
        rc.max_width = k + more
        rc.gate_counts = {(g, 1): ng}
        rc.gate_class_counts = {(Opaque, 1): ng + nc}
        ref.depth = [[x, d] for x, d in zip(xs, num)]
        ref.done, ref.width, ref.live = done, k + more, k
        ref.gates, ref.classes = [[g, 1, ng]], [[Opaque, 1, ng + nc]]
    else:
        for x in xs[:k]:
            c = Command(eng, ops.Allocate, (qs(eng, [x]),))
            eng.receive([c])
            ref.see('AllocateQubitGate', ops.Allocate, [x], 0)
        for i in range(vc.pick('before', 6) if k else 0):
            y = progs.subset(vc, xs[:k], 1 + vc.pick('m', k))
            gg = vc.choose('gg', [g, h])
            nctl = vc.pick('c', len(y))
            eng.receive([Command(eng, gg, (qs(eng, y[nctl:]),), controls=qs(eng, y[:nctl]))])
            ref.see('', gg, y, nctl)
    kinds = ['alloc', 'flush'] + (['dealloc', 'measure', 'gate'] if k else [])
    kind = vc.choose('kind', kinds)
    n0 = len(rec.cmds) if rec else 0
    if kind == 'alloc':
        y, nctl, gate = [xs[k]], 0, ops.Allocate
    elif kind == 'flush':
        y, nctl, gate = [], 0, ops.FlushGate()
    elif kind == 'gate':
        m = 1 + vc.pick('qubits', k)
        first = vc.pick('first', k if m < k or not sym else 1)
        y = [xs[(first + i) % k] for i in range(m)]
        nctl = vc.pick('controls', m)
        gate = vc.choose('which', [g, h])
    else:
        y, nctl, gate = [xs[vc.pick('which qubit', k)]], 0, ops.Deallocate if kind == 'dealloc' else ops.Measure
    tags = []
    other = None
    if kind == 'measure' and last and vc.flag('mapped'):
        other = ids(vc, 'z', 1)[0]
        tags = [LogicalQubitIDTag(other)]
    if kind == 'flush':
        cmd = Command(eng, gate, (qs(eng, [-1]),))
    else:
        regs = (qs(eng, y[nctl:]),) if not (kind == 'gate' and len(y) - nctl == 2 and vc.pick('registers', 2)) else \
            (qs(eng, y[nctl:nctl + 1]), qs(eng, y[nctl + 1:]))
        cmd = Command(eng, gate, regs, controls=qs(eng, y[:nctl]), tags=tags)
    want = ab(cmd)
    rc.receive([cmd])
    ref.see(name(gate), gate, y, nctl)
    ref.check(vc, rc)
    if rec:
        vc.ensure('forwarded once', len(rec.cmds) == n0 + 1)
        from pv.loops import same
        same(vc, 'forwarded unchanged', ab(rec.cmds[-1]), want)
    elif kind == 'measure':
        t = y[0] if other is None else other
        from projectq.types import WeakQubitRef
        vc.ensure('as last engine, zero is reported for the measured qubit', eng.get_measurement_result(WeakQubitRef(eng, t)) == 0)
    if sym:
        with vc.internal():
            vc.eq('live qubits', rc._active_qubits, ref.live)
            vc.eq('depth of the released qubits', smax([rc._previous_max_depth]), ref.done)
            vc.ensure('one depth per live qubit', len(rc._depth_of_qubit) == len(ref.depth))
            for x, d in ref.depth:
                vc.eq('depth of a live qubit', rc._depth_of_qubit[x], d)


@contract(P, FNS, samples=300, size_bound=SIZE, max_paths=30000, budget=100)
def step_small(vc):
    _step(vc, 0, 2)


@contract(P, FNS, samples=300, size_bound=SIZE, max_paths=30000, budget=200, weight=3)
def step_three(vc):
    _step(vc, 3, 3)


@contract(P, FNS, samples=100, size_bound='streams of at most 4 commands on at most 2 qubits', budget=100, max_paths=30000)
def start(vc):
    """From the empty counter, through the public interface only: the counts of every short stream."""
    rc = ResourceCounter()
    eng, rec = W.make_eng([rc])
    ref = Ref()
    xs = ids(vc, 'x', 2)
    live = []
    cmds, want = [], []
    for i in range(4):
        kinds = (['alloc'] if len(live) < 2 else []) + (['dealloc', 'gate', 'measure'] if live else []) + (['two'] if len(live) == 2 else [])
        kind = vc.choose('kind', kinds + ['end'])
        if kind == 'end':
            break
        if kind == 'alloc':
            y = [[x for x in xs if not any(x is z for z in live)][0]]
            live.append(y[0])
            c = Command(eng, ops.Allocate, (qs(eng, y),))
        elif kind in ('gate', 'two'):
            y = live[:2] if kind == 'two' else [live[vc.pick('w', len(live))]]
            c = Command(eng, Opaque('g'), (qs(eng, y[:1]),), controls=qs(eng, y[1:]))
        else:
            y = [live[vc.pick('w', len(live))]]
            c = Command(eng, ops.Measure if kind == 'measure' else ops.Deallocate, (qs(eng, y),))
            if kind == 'dealloc':
                live = [z for z in live if z is not y[0]]
        ref.see(name(c.gate), c.gate, y, len(c.control_qubits))
        cmds.append(c)
        want.append(ab(c))
    rc.receive(cmds)
    ref.check(vc, rc)
    from pv.loops import same
    same(vc, 'forwarded unchanged, in order', [ab(c) for c in rec.cmds], want)


@bounded(P, FNS + [R + '__str__'], 'random histories of at most 60 commands of all gate classes on at most 7 qubits, counter last or in '
         'the chain', samples=250, thorough=6000)
def histories(vc):
    """Long histories with library gates."""
    from projectq import MainEngine
    rc = ResourceCounter()
    last = vc.flag('last')
    if last:
        eng, rec = MainEngine(rc, []), None
    else:
        eng, rec = W.make_eng([rc])
    ref = Ref()
    live, nid = [], 0
    seen = []
    for i in range(1 + vc.pick('len', 60)):
        kinds = (['alloc', 'alloc'] if len(live) < 7 else []) + (['gate'] * 5 + ['measure', 'dealloc', 'flush'] if live else [])
        kind = vc.choose('kind', kinds)
        if kind == 'alloc':
            y, g = [nid], ops.Allocate
            live.append(nid)
            nid += 1
            c = Command(eng, g, (qs(eng, y),))
        elif kind == 'flush':
            eng.flush()
            continue
        elif kind == 'gate':
            n, g = _gate(vc)
            if seen and vc.pick('again', 2):
                n, g = vc.choose('seen', seen)
            seen.append((n, g))
            if n > len(live):
                continue
            y = progs.subset(vc, live, n + vc.pick('extra', min(3, len(live) - n) + 1))
            c = Command(eng, g, tuple(qs(eng, [q]) for q in y[:n]), controls=qs(eng, y[n:]))
        else:
            y = [vc.choose('w', live)]
            g = ops.Measure if kind == 'measure' else ops.Deallocate
            if kind == 'dealloc':
                live.remove(y[0])
            c = Command(eng, g, (qs(eng, y),))
        ref.see(name(c.gate), c.gate, y, len(c.control_qubits))
        eng.receive([c])
        if i % 5 == 0:
            ref.check(vc, rc)
    ref.check(vc, rc)
    text = str(rc)
    if ref.gates:
        vc.ensure('the width is printed', text.rstrip('.').endswith(f': {ref.width}'))
        for cls, ctl, n in ref.classes:
            vc.ensure('every class is printed', ctl * 'C' + cls.__name__ + f' : {n}' in text)


@bounded(P, FNS + [R + '__str__'], 'random histories of at most 300 commands on at most 60 qubits, up to 30 controls and 20 targets', samples=60, thorough=1500)
def histories_large(vc):
    """Wide and long circuits."""
    from projectq import MainEngine
    rc = ResourceCounter()
    eng = MainEngine(rc, []) if vc.flag('last') else W.make_eng([rc])[0]
    ref, live, nid, batch = Ref(), [], 0, []
    pool = [ops.H, ops.X, ops.Rz(0.5), ops.Rz(1.5), ops.QFT, ops.Swap, ops.T, ops.Entangle, ops.Y, ops.Ph(0.1)]
    for _ in range(vc.choose('qubits at first', [2, 12, 40])):
        live.append(nid)
        batch.append(Command(eng, ops.Allocate, (qs(eng, [nid]),)))
        nid += 1
    for _ in range(20 + vc.pick('len', 281)):
        kind = vc.choose('kind', ['gate'] * 7 + ['alloc', 'measure', 'dealloc', 'send'])
        if kind == 'alloc' and len(live) < 60:
            nid += 1 + vc.pick('gap', 5)
            live.append(nid)
            batch.append(Command(eng, ops.Allocate, (qs(eng, [nid]),)))
        elif kind == 'gate' and live:
            g = vc.choose('gate', pool)
            n = {'Swap': 2, 'QFT': 1 + vc.pick('targets', 20), 'Entangle': 1 + vc.pick('targets', 20)}.get(str(g), 1)
            k = vc.choose('controls', [0, 0, 0, 1, 2, 5, 9, 30])
            if n + k > len(live):
                continue
            y = progs.subset(vc, live, n + k)
            regs = (qs(eng, y[:n]),) if str(g) != 'Swap' else (qs(eng, y[:1]), qs(eng, y[1:2]))
            batch.append(Command(eng, g, regs, controls=qs(eng, y[n:])))
        elif kind in ('measure', 'dealloc') and live:
            y = [vc.choose('w', live)]
            if kind == 'dealloc':
                live.remove(y[0])
            batch.append(Command(eng, ops.Measure if kind == 'measure' else ops.Deallocate, (qs(eng, y),)))
        else:
            for c in batch:
                ref.see(name(c.gate), c.gate, [q.id for r in c.all_qubits for q in r], len(c.control_qubits))
            eng.receive(batch)
            batch = []
            ref.check(vc, rc)
    for c in batch:
        ref.see(name(c.gate), c.gate, [q.id for r in c.all_qubits for q in r], len(c.control_qubits))
    eng.receive(batch)
    ref.check(vc, rc)
    text = str(rc)
    vc.ensure('the width is printed', text.rstrip('.').endswith(f': {ref.width}'))
    for cls, ctl, n in ref.classes:
        vc.ensure('every class is printed', ctl * 'C' + cls.__name__ + f' : {n}' in text)


def _gate(vc):
    while True:
        g = zoo(vc, '')
        # (controlled and tensor gates act through other commands and never reach an engine)
        # numerical matrices are equal within a tolerance, which no dictionary key can reflect: the zoo's matrices are left out
        if isinstance(g, (ops.ClassicalInstructionGate, type(ops.Allocate))) or 'Matrix' in str(g):
            continue
        if name(g) not in ('BarrierGate', 'ControlledGate', 'Tensor'):
            return (2 if g.interchangeable_qubit_indices else 1 + vc.pick('n', 3)), g


@bounded(P, FNS, 'one command of every gate class of the library (with random parameters), twice', samples=150, thorough=1000)
def countable(vc):
    """Every kind of gate can be counted."""
    rc = ResourceCounter()
    eng, rec = W.make_eng([rc])
    n, g = _gate(vc) if vc.pick('matrix', 8) else (1, ops.MatrixGate([[0, 1], [1, 0]]))
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(2):
            rc.receive([Command(eng, ops.Allocate, (qs(eng, [i]),)) for i in range(n)] +
                       [Command(eng, g, tuple(qs(eng, [i]) for i in range(n)))] +
                       [Command(eng, ops.Deallocate, (qs(eng, [i]),)) for i in range(n)])
    vc.ensure('counted twice', rc.gate_counts[(g, 0)] == 2 and rc.gate_class_counts[(type(g), 0)] == 2)
    str(rc)
