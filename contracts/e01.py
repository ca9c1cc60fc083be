"""E01: the local optimizer never changes the meaning of a circuit.

Gates are taken from a free group: a gate is a formal word, its inverse the formal inverse, merging concatenation.  Two
command streams are compared in the group in which operations on disjoint qubits commute and no other relation holds
(right-angled Artin group); equality there means equality for every interpretation of the gates as operators.
"""
import itertools

from pv import progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.cengines import LocalOptimizer
from projectq.meta import ComputeTag, UncomputeTag
from projectq.ops import Command

from .c01 import ids, qs

P = 'E01'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real code, but for structures of bounded size: '
               'at most 2 arbitrary commands (3 when they share a qubit) with any gates, ids and cache sizes; '
               'hence not counted as a proof for all sizes')
C = 'projectq.cengines._optimize.LocalOptimizer.'


class Word(ops.BasicGate):
    """An arbitrary gate: a word over free generators."""

    def __init__(self, word, fam=None, inter=False, invertible=True):
        super().__init__()
        self.word, self.fam, self.invertible = tuple(word), fam, invertible
        self.inter = inter
        if inter:
            self.interchangeable_qubit_indices = [[0, 1]]

    def get_inverse(self):
        if not self.invertible:
            raise ops.NotInvertible()
        return Word(inv_word(self.word), self.fam, self.inter)

    def get_merged(self, other):
        if isinstance(other, Word) and self.fam and self.fam == other.fam:
            return Word(reduce_word(self.word + other.word), self.fam, self.inter)
        raise ops.NotMergeable()

    def is_identity(self):
        return not self.word

    def __eq__(self, other):
        return isinstance(other, Word) and (self.word, self.fam) == (other.word, other.fam)

    def __hash__(self):
        return hash(self.word)

    def __str__(self):
        return ''.join(n + ("'" if s < 0 else '') for n, s in self.word) or '1'


def inv_word(w):
    return tuple((n, -s) for n, s in reversed(w))


def reduce_word(w):
    out = []
    for n, s in w:
        if out and out[-1] == (n, -s):
            out.pop()
        else:
            out.append((n, s))
    return tuple(out)


def letters(cmd):
    """The word of a command: letters (name, sign, targets, controls, tags)."""
    g, sign = cmd.gate, 1
    while isinstance(g, ops.DaggeredGate):
        g, sign = g.get_inverse(), -sign
    tg = [q.id for r in cmd.qubits for q in r]
    ct = W.controls_of(cmd)
    tags = tuple(type(t).__name__ for t in cmd.tags)
    if isinstance(g, Word):
        w = g.word if sign > 0 else inv_word(g.word)
        return [(n, s, tg, ct, tags, g.inter) for n, s in w]
    name = {'AllocateQubitGate': ('alloc', 1), 'DeallocateQubitGate': ('alloc', -1)}.get(type(g).__name__)
    n, s = name or (type(g).__name__, 1)
    return [(n, s * sign, tg, ct, tags, False)]


def same_op(a, b):
    """Same generator on the same qubits with the same tags (symbolic ids allowed)."""
    if a[0] != b[0] or a[4] != b[4] or len(a[2]) != len(b[2]) or len(a[3]) != len(b[3]):
        return False
    if a[5]:
        ok = (a[2] == b[2]) or (a[2] == b[2][::-1])
    else:
        ok = all(bool(x == y) for x, y in zip(a[2], b[2]))
    if not ok:
        return False
    return all(any(v == w and bool(x == y) for y, w in b[3]) for x, v in a[3])


def disjoint(a, b):
    xs = a[2] + [c for c, _ in a[3]]
    ys = b[2] + [c for c, _ in b[3]]
    return not any(bool(x == y) for x in xs for y in ys)


def reduce(ls):
    """Normal form: cancel every inverse pair that can be brought together."""
    out = []
    for x in ls:
        k = len(out) - 1
        while k >= 0:
            y = out[k]
            if y[1] == -x[1] and same_op(x, y):
                out.pop(k)
                break
            if not disjoint(x, y):
                k = -1
                break
            k -= 1
        else:
            k = -1
        if k < 0:
            out.append(x)
    return out


def equal(xs, ys):
    inv = [(n, -s, t, c, g, i) for n, s, t, c, g, i in reversed(ys)]
    return not reduce(list(xs) + inv)


def word_of(cmds):
    return [x for c in cmds for x in letters(c) if type(c.gate).__name__ != 'FlushGate']


GATES1 = [lambda: Word([('a', 1)]), lambda: Word([('a', -1)]), lambda: Word([('r', 1)], 'R'), lambda: Word([('r', -1)], 'R'),
          lambda: Word([], 'R'), lambda: Word([('n', 1)], None, False, False)]
GATES2 = [lambda: Word([('c', 1)]), lambda: Word([('c', -1)]), lambda: Word([('s', 1)], 'S', True), lambda: Word([('s', -1)], 'S', True),
          lambda: Word([], 'S', True), lambda: Word([], 'C2')]


FUNS = [C + 'receive', C + '_cache_cmd', C + '_check_and_send', C + '_optimize', C + '_get_gate_indices', C + '_send_qubit_pipeline']


def symbolic_stream(vc, n, shapes, pools):
    """n commands with the given gate pools per position and shape; the ids are arbitrary, the cache size too."""
    cache = vc.int('cache', 1, None if vc.symbolic else 6)
    opt = LocalOptimizer(cache)
    eng, rec = W.make_eng([opt])
    cmds, sent, first = [], [], None
    for k in range(n):
        shape = vc.choose('shape', shapes)
        if n == 3 and k:                    # chains through one qubit: longer ones with free ids are sampled below
            x = ids(vc, 'x', 0 if shape == 'one' else 1) + [first]
            vc.assume(all(y != first for y in x[:-1]))
        else:
            x = ids(vc, 'x', 1 if shape == 'one' else 2)
        g = vc.choose('g', pools[shape][min(k, len(pools[shape]) - 1)])()
        if shape == 'two':
            c = Command(eng, g, (qs(eng, x[:1]), qs(eng, x[1:])))
        else:
            c = Command(eng, g, (qs(eng, x[:1]),), controls=qs(eng, x[1:]))
        if first is None:
            first = x[0]
        cmds.append(c)
    for c in cmds:
        sent += letters(c)
    eng.receive(cmds)
    eng.flush()
    vc.ensure('the flush is passed on last, once', [type(c.gate).__name__ for c in rec.cmds].count('FlushGate') == 1 and
              type(rec.cmds[-1].gate).__name__ == 'FlushGate')
    vc.ensure('the same operation', equal(word_of(rec.cmds), sent),
              f'{[str(c) for c in cmds]} became {[str(c) for c in rec.cmds]}')


@contract(P, FUNS, samples=400, budget=60, max_paths=60000,
          size_bound='streams of 2 commands on at most 2 qubits each (arbitrary, possibly equal ids), arbitrary free gates, every '
          'cache size')
def streams(vc):
    """For all qubit ids and cache sizes the emitted stream equals the received one in the group, flush last."""
    symbolic_stream(vc, 2, ['one', 'two', 'ctrl'], {'one': [GATES1[:1] + GATES1[2:3], GATES1[:5]],
                    'two': [[GATES2[0], GATES2[2]], GATES2[:5]], 'ctrl': [[GATES1[0], GATES1[2]], GATES1[:5]]})


@contract(P, FUNS, samples=400, budget=60, max_paths=60000,
          size_bound='streams of 3 commands that share a qubit, on at most 2 qubits each, arbitrary ids, free gates, every cache size')
def chains(vc):
    """The same for chains of three commands through one qubit."""
    symbolic_stream(vc, 3, ['one', 'two'], {'one': [GATES1[:1], GATES1[1:2]], 'two': [[GATES2[2]], [GATES2[3]]]})


@contract(P, FUNS, samples=400, budget=60, max_paths=60000,
          size_bound='streams of 3 commands that share a qubit, one control each, arbitrary ids, free gates, every cache size')
def ctrl_chains(vc):
    """The same for controlled commands."""
    symbolic_stream(vc, 3, ['one', 'ctrl'], {'one': [GATES1[2:3], GATES1[3:4]], 'ctrl': [GATES1[2:3], GATES1[3:4]]})


def random_cmd(vc, eng, n):
    kind = vc.choose('kind', ['one', 'one', 'one', 'two', 'two', 'ctrl', 'ctrl', 'three'])
    perm = progs.subset(vc, range(n), {'one': 1, 'two': 2, 'ctrl': 2, 'three': 3}[kind])
    tags = vc.choose('tags', [[], [], [], [], [ComputeTag()], [UncomputeTag()]])
    if kind == 'one':
        return Command(eng, vc.choose('g', GATES1)(), (qs(eng, perm),), tags=list(tags))
    if kind == 'two':
        return Command(eng, vc.choose('g', GATES2)(), tuple(qs(eng, [x]) for x in perm), tags=list(tags))
    if kind == 'ctrl':
        return Command(eng, vc.choose('g', GATES1)(), (qs(eng, perm[:1]),), controls=qs(eng, perm[1:]), tags=list(tags),
                       control_state=vc.choose('state', ['1', '1', '0']))
    return Command(eng, vc.choose('g', GATES2)(), tuple(qs(eng, [x]) for x in perm[:2]), controls=qs(eng, perm[2:]), tags=list(tags))


@bounded(P, [C + 'receive', C + '_check_and_send', C + '_optimize', C + '_get_gate_indices', C + '_send_qubit_pipeline'],
         'random streams of at most 24 commands on 3 to 4 qubits with free gates (up to 3 qubits each), repeated and inverted '
         'commands, measurements and deallocations, every cache size from 1 to 8, several flushes', samples=6000, thorough=120000,
         weight=3)
def long_streams(vc):
    stream(vc, 3 + vc.pick('n', 2), 1 + vc.pick('cache', 8), 3 + vc.pick('len', 22), 3)


@bounded(P, [C + 'receive', C + '_check_and_send', C + '_optimize', C + '_get_gate_indices', C + '_send_qubit_pipeline'],
         'the same with at most 200 commands on 4 to 12 qubits and cache sizes up to 60', samples=1000, thorough=15000)
def wide_streams(vc):
    """Many qubits and large caches."""
    stream(vc, 4 + vc.pick('n', 9), vc.choose('cache', [1, 5, 9, 10, 11, 20, 40, 60]), 10 + vc.pick('len', 191), 30)


@bounded(P, [C + 'receive', C + '_check_and_send', C + '_optimize', C + '_get_gate_indices', C + '_send_qubit_pipeline'],
         'random streams of at most 40 commands drawn from 2 to 4 commands on 3 qubits and their inverses, cache sizes 4 to 60',
         samples=2500, thorough=40000)
def repeated(vc):
    """The same few commands over and over: many equal commands wait at the same time."""
    n = 2 + vc.pick('n', 2)
    cache = vc.choose('cache', [4, 12, 25, 60])
    opt = LocalOptimizer(cache)
    eng, rec = W.make_eng([opt])
    pool = []
    for k in range(2 + vc.pick('pool', 3)):
        c = random_cmd(vc, eng, 3) if n == 3 else None
        while c is None or (not k and len([q for r in c.all_qubits for q in r]) < 2):
            perm = progs.subset(vc, range(n), 2 if not k else 1 + vc.pick('w', 2))
            c = Command(eng, vc.choose('g', GATES1)(), (qs(eng, perm[:1]),), controls=qs(eng, perm[1:]))
        pool.append(c)
    sent, text = [], []
    for _ in range(8 + vc.pick('len', 33)):
        c = pool[vc.pick('which', len(pool))]
        c = c.get_inverse() if vc.pick('inv', 4) == 0 else _copy(c)
        sent += letters(c)
        text.append(str(c))
        eng.receive([c])
    eng.flush()
    vc.ensure('the same operation', equal(word_of(rec.cmds), sent), f'{text} became {[str(x) for x in rec.cmds]} (cache {cache})')
    vc.ensure('the flush comes last', type(rec.cmds[-1].gate).__name__ == 'FlushGate')


def stream(vc, n, cache, length, back):
    opt = LocalOptimizer(cache)
    eng, rec = W.make_eng([opt])
    sent = []
    hist = []
    text = []
    alive = set(range(n))
    for _ in range(length):
        act = vc.choose('act', ['new', 'new', 'new', 'again', 'undo', 'undo', 'measure', 'flush', 'list', 'dealloc'])
        if act in ('again', 'undo') and not hist:
            act = 'new'
        if act == 'new':
            c = random_cmd(vc, eng, n)
        elif act == 'again':
            c = _copy(hist[-1 - vc.pick('back', min(back, len(hist)))])
        elif act == 'undo':
            c = hist[-1 - vc.pick('back', min(back, len(hist)))].get_inverse()
        elif act == 'measure':
            c = Command(eng, ops.Measure, (qs(eng, [vc.pick('q', n)]),))
        elif act == 'dealloc':
            c = Command(eng, ops.Deallocate, (qs(eng, [vc.pick('q', n)]),))
        elif act == 'flush':
            eng.flush()
            vc.ensure('flush passed on', type(rec.cmds[-1].gate).__name__ == 'FlushGate')
            vc.ensure('nothing stays cached after a flush', equal(word_of(rec.cmds), sent),
                      f'{text} became {[str(x) for x in rec.cmds]}')
            continue
        else:
            cs = [random_cmd(vc, eng, n) for _ in range(2)]
            if any(not {q.id for r in c.all_qubits for q in r} <= alive for c in cs):
                continue
            for c in cs:
                sent += letters(c)
                text.append(str(c))
            hist += [_copy(c) for c in cs]
            eng.receive(cs)
            continue
        used = {q.id for r in c.all_qubits for q in r}
        if not used <= alive:
            continue
        if act == 'dealloc':
            alive -= used
            if not alive:
                break
        sent += letters(c)
        text.append(str(c))
        if act in ('new', 'again', 'undo'):
            hist.append(_copy(c))
        eng.receive([c])
    eng.flush()
    vc.ensure('the same operation', equal(word_of(rec.cmds), sent), f'{text} became {[str(x) for x in rec.cmds]} (cache {cache})')
    vc.ensure('the flush comes last', type(rec.cmds[-1].gate).__name__ == 'FlushGate')


def _copy(c):
    return Command(c.engine, c.gate, tuple(list(r) for r in c.qubits), controls=list(c.control_qubits), tags=list(c.tags),
                   control_state=c.control_state)


@bounded(P, [C + '_optimize', C + '_get_gate_indices'], 'all streams of 3 commands from 11 free commands on 2 qubits, cache sizes '
         '1, 2, 3 and 5', exhaustive=True, samples=1, budget=60)
def short_streams(vc):
    """Exhaustive short streams."""
    cache = vc.choose('cache', [1, 2, 3, 5])
    eng, rec = W.make_eng([LocalOptimizer(cache)])
    sent, text = [], []
    for _ in range(3):
        k = vc.pick('cmd', 11)
        if k < 4:
            c = Command(eng, GATES1[(0, 1, 2, 4)[k]](), (qs(eng, [0]),))
        elif k < 6:
            c = Command(eng, GATES1[(1, 2)[k - 4]](), (qs(eng, [1]),))
        elif k < 9:
            c = Command(eng, GATES2[(0, 1, 4)[k - 6]](), (qs(eng, [0]), qs(eng, [1])))
        else:
            c = Command(eng, GATES1[(3, 4)[k - 9]](), (qs(eng, [1]),), controls=qs(eng, [0]))
        sent += letters(c)
        text.append(str(c))
        eng.receive([c])
    eng.flush()
    vc.ensure('the same operation', equal(word_of(rec.cmds), sent), f'{text} became {[str(x) for x in rec.cmds]} (cache {cache})')


@bounded(P, ['projectq.cengines._optimize.LocalOptimizer', 'projectq.ops'], 'random circuits of at most 14 library gates on 3 qubits '
         '(angles incl. multiples of pi, controls with values), cache sizes 1 to 8', samples=800, thorough=15000, weight=2)
def library(vc):
    """With library gates the circuit operator is unchanged."""
    import numpy as np
    cache = 1 + vc.pick('cache', 8)
    eng, rec = W.make_eng([LocalOptimizer(cache)])
    n = 3
    data = eng.allocate_qureg(n)
    ids_ = [q.id for q in data]
    a = [vc.choose('a', [0.0, np.pi, 2 * np.pi, 0.5, -0.5, 4 * np.pi, np.pi / 2]) for _ in range(2)]
    pool = [ops.H, ops.X, ops.Y, ops.Z, ops.S, ops.Sdag, ops.T, ops.Tdag, ops.Rx(a[0]), ops.Rx(a[1]), ops.Rz(a[0]), ops.Rz(a[1]),
            ops.Ph(a[0]), ops.Ph(a[1]), ops.R(a[0]), ops.R(a[1]), ops.Ry(a[0]), ops.SqrtX, ops.Swap, ops.SqrtSwap,
            ops.Rxx(a[0]), ops.Rxx(a[1]), ops.Rzz(a[0]), ops.Ryy(a[1]), ops.QubitOperator('X0 Y1', 1), ops.Entangle, ops.QFT,
            ops.TimeEvolution(0.3, ops.QubitOperator('Z0 Z1')), ops.get_inverse(ops.QFT), ops.Rz(2 * np.pi), ops.Barrier]
    u = np.eye(1 << n, dtype=complex)
    first = len(rec.cmds)
    ref = []
    for _ in range(2 + vc.pick('len', 13)):
        g = vc.choose('g', pool)
        nm = type(getattr(g, '_gate', g)).__name__
        k = 2 if nm in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Rzz', 'Ryy', 'QubitOperator', 'TimeEvolution', 'QFTGate',
                        'EntangleGate') else 1
        p = progs.subset(vc, range(n), k + (vc.pick('c', n - k + 1) if vc.pick('ctl', 2) and nm != 'BarrierGate' else 0))
        tg, ct = p[:k], p[k:]
        regs = tuple(qs(eng, [ids_[x]]) for x in tg)
        if nm in ('QubitOperator', 'TimeEvolution', 'QFTGate', 'EntangleGate'):
            regs = (qs(eng, [ids_[x] for x in tg]),)
        if nm == 'QubitOperator' and ct:
            continue
        c = Command(eng, g, regs, controls=qs(eng, [ids_[x] for x in ct]), control_state=''.join(vc.choose('v', '110') for _ in ct))
        ref.append(_copy(c))
        eng.receive([c])
    eng.flush()
    out = [c for c in rec.cmds[first:] if not W.is_classical(c)]
    got = np.array(W.unitary(W.Float, out, ids_), dtype=complex)
    want = np.array(W.unitary(W.Float, ref, ids_), dtype=complex)
    vc.ensure('the operator is unchanged', np.allclose(got, want, atol=1e-7),
              f'{[str(c) for c in ref]} became {[str(c) for c in out]} (cache {cache})')
    for q in data:
        q.id = -1
    del u


_ = itertools
