"""E05: direction flipping for restricted couplings preserves the circuit."""
from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.cengines import BasicEngine, InstructionFilter, SwapAndCNOTFlipper
from projectq.ops import Command

from .c01 import Opaque, Tag, ids, qs
from .m01 import tagname

P = 'E05'
C = 'projectq.cengines._swapandcnotflipper.SwapAndCNOTFlipper.'
FUN = [C + 'receive', C + '_needs_flipping', C + '_is_cnot', C + '_is_swap', C + '_send_cnot', C + '__init__']


class Coupling:
    """An arbitrary coupling relation: membership of a pair of ids is whatever it is, the same on every question."""

    def __init__(self, vc):
        self.vc, self.known, self.asked = vc, [], False

    def allowed(self, c, t):
        for (a, b), v in self.known:
            if bool(a == c) and bool(b == t):
                return v
        v = bool(self.vc.flag(f'coupling {len(self.known)}'))
        self.known.append(((c, t), v))
        return v

    def __contains__(self, pair):
        return self.allowed(*pair)

    def __iter__(self):
        from pv.num import Unsupported
        raise Unsupported('enumeration of an arbitrary coupling')

    __len__ = __iter__


def sem(vc, what, cmds, want, pair):
    """The commands (all on the pair of qubits) implement the same operator as `want`; directions are checked by the caller."""
    B = W.nb(vc)
    pos = list(pair)

    def local(c):
        """The command on positions 0 and 1."""
        def p(q):
            return 0 if bool(q.id == pos[0]) else 1
        return W.mkcmd(c.gate, [[p(q) for q in r] for r in c.qubits], [p(q) for q in c.control_qubits],
                       c.control_state if c.control_qubits else None)
    got = W.unitary(B, [local(c) for c in cmds], [0, 1])
    ref = W.unitary(B, [local(c) for c in want], [0, 1])
    vc.mat_eq(what, got, ref)


def follows(vc, cmds, coupling):
    for c in cmds:
        if isinstance(c.gate, type(ops.X)) and len(c.control_qubits) == 1:
            vc.ensure('every CNOT follows an allowed direction', coupling.allowed(c.control_qubits[0].id, c.qubits[0][0].id))
        vc.ensure('no swap left', not (c.gate == ops.Swap and not c.control_qubits))


@contract(P, FUN + ['projectq.cengines._basics.ForwarderEngine.receive', 'projectq.cengines._cmdmodifier.CommandModifier.receive'],
          samples=200, budget=60, assumptions=['one command at a time; the receive loop is the subject of E05.stream'])
def one_command(vc):
    """For every coupling relation and all ids: CNOT (either control value) and swap, with tags."""
    cp = Coupling(vc)
    kind = vc.choose('kind', ['cnot', 'cnot0', 'swap'])
    eng, rec = W.make_eng([SwapAndCNOTFlipper(cp)])
    a, b = ids(vc, 'q', 2)
    tags = vc.choose('tags', [[], [Tag(1)], [Tag(1), Tag(2)]])
    if kind == 'swap':
        cmd = Command(eng, ops.Swap, (qs(eng, [a]), qs(eng, [b])), tags=list(tags))
    else:
        cmd = Command(eng, ops.X, (qs(eng, [b]),), controls=qs(eng, [a]), control_state='0' if kind == 'cnot0' else '1', tags=list(tags))
    ref = W.mkcmd(cmd.gate, [[a], [b]] if kind == 'swap' else [[b]], [] if kind[0] == 's' else [a],
                  None if kind[0] == 's' else cmd.control_state)
    try:
        eng.next_engine.receive([cmd])
    except RuntimeError:
        vc.ensure('an error only for unconnected qubits', not cp.allowed(a, b) and not cp.allowed(b, a))
        vc.ensure('nothing is emitted', not rec.cmds)
        return
    vc.ensure('unconnected qubits are reported', cp.allowed(a, b) or cp.allowed(b, a))
    follows(vc, rec.cmds, cp)
    if kind[0] == 'c' and cp.allowed(a, b):
        vc.ensure('a compliant command is passed on unchanged', len(rec.cmds) == 1 and len(rec.cmds[0].control_qubits) == 1)
        vc.ensure('with its own control value', rec.cmds[0].control_state == ref.control_state)
    for c in rec.cmds:
        vc.ensure('tags are kept', c.tags == tags, str(c.tags))
        vc.ensure('commands belong to the main engine', c.engine is eng)
    sem(vc, 'same operator', rec.cmds, [ref], (a, b))


@contract(P, FUN, samples=150, assumptions=['command lists of any length'])
def stream(vc):
    """In a list of any length every other command passes unchanged and in order."""
    eng, rec = W.make_eng([SwapAndCNOTFlipper(set())])
    fl = eng.next_engine

    def ab(c):
        return [getattr(c.gate, 'uid', str(c.gate)), [q.id for r in c.qubits for q in r], [q.id for q in c.control_qubits], c.control_state, [tagname(t) for t in c.tags]]

    def make():
        kind = vc.choose('kind', ['gate', 'x', 'toffoli', 'cz', 'cswap', 'h', 'alloc', 'measure', 'flush', 'crz'])
        n = {'toffoli': 3, 'cz': 2, 'cswap': 3, 'crz': 2}.get(kind, 1)
        x = ids(vc, 'x', n)
        if kind == 'toffoli':
            vc.assume(x[1] < x[2])
        g = {'gate': lambda: Opaque('g'), 'x': lambda: ops.X, 'toffoli': lambda: ops.X, 'cz': lambda: ops.Z, 'cswap': lambda: ops.Swap,
             'h': lambda: ops.H, 'alloc': lambda: ops.Allocate, 'measure': lambda: ops.Measure, 'flush': ops.FlushGate,
             'crz': lambda: ops.Rz(1.0)}[kind]()
        k = 2 if kind == 'cswap' else 1
        return Command(eng, g, tuple([q] for q in qs(eng, x[:k])), controls=qs(eng, x[k:]), control_state='1' * (n - k),
                       tags=vc.choose('tags', [[], [Tag(4)]]))

    loops.stream(vc, 'flipper', make, fl.receive, lambda c: [ab(c)], lambda: [ab(c) for c in rec.cmds], [fl])


@contract(P, [C + 'is_available'], samples=30)
def available(vc):
    """Swaps are always accepted; otherwise the rest of the pipeline decides."""
    ans = vc.flag('answer')
    eng, rec = W.make_eng([SwapAndCNOTFlipper(set()), InstructionFilter(lambda s, c: bool(ans))])
    x = ids(vc, 'x', 3)
    kind = vc.choose('kind', ['swap', 'cswap', 'cnot', 'g'])
    c = {'swap': lambda: Command(eng, ops.Swap, (qs(eng, x[:1]), qs(eng, x[1:2]))),
         'cswap': lambda: Command(eng, ops.Swap, (qs(eng, x[:1]), qs(eng, x[1:2])), controls=qs(eng, x[2:])),
         'cnot': lambda: Command(eng, ops.X, (qs(eng, x[:1]),), controls=qs(eng, x[1:2])),
         'g': lambda: Command(eng, Opaque('g'), (qs(eng, x),))}[kind]()
    vc.ensure('availability', eng.next_engine.is_available(c) == (True if kind == 'swap' else ans))


class Marker(BasicEngine):
    """Adds a tag to every command it passes on; seen: the tag was there already."""

    def __init__(self):
        super().__init__()
        self.seen = False

    def receive(self, command_list):
        for c in command_list:
            self.seen = self.seen or 'mark' in c.tags
            c.tags.append('mark')
            self.send([c])


@bounded(P, FUN, 'random circuits of at most 10 commands (CNOT with either control value, swap, other gates) on 4 qubits with random '
         'couplings, tags, lists of several commands, the same engine reused', samples=600, thorough=10000)
def circuits(vc):
    """Whole circuits: same operator, allowed directions, errors exactly for unconnected pairs."""
    import numpy as np
    n = 4
    cp = {(a, b) for a in range(n) for b in range(n) if a != b and vc.pick('edge', 3)}
    mark = Marker()
    eng, rec = W.make_eng([SwapAndCNOTFlipper(cp), mark])
    ref = []
    err = False
    batch = []
    for _ in range(1 + vc.pick('len', 10)):
        kind = vc.choose('kind', ['cnot', 'cnot', 'cnot0', 'swap', 'h', 'cz', 'ccx'])
        p = progs.subset(vc, range(n), 3)
        tags = [Tag(vc.pick('tag', 3))]
        mk = {'cnot': lambda: Command(eng, ops.X, (qs(eng, p[:1]),), controls=qs(eng, p[1:2]), tags=list(tags)),
              'cnot0': lambda: Command(eng, ops.X, (qs(eng, p[:1]),), controls=qs(eng, p[1:2]), tags=list(tags), control_state='0'),
              'swap': lambda: Command(eng, ops.Swap, (qs(eng, p[:1]), qs(eng, p[1:2])), tags=list(tags)),
              'h': lambda: Command(eng, ops.H, (qs(eng, p[:1]),), tags=list(tags)),
              'cz': lambda: Command(eng, ops.Z, (qs(eng, p[:1]),), controls=qs(eng, p[1:2]), tags=list(tags)),
              'ccx': lambda: Command(eng, ops.X, (qs(eng, p[:1]),), controls=qs(eng, p[1:3]), tags=list(tags))}[kind]
        ref.append(mk())
        batch.append(mk())
        if kind in ('cnot', 'cnot0', 'swap') and (p[0], p[1]) not in cp and (p[1], p[0]) not in cp:
            err = True
            break
        if vc.pick('send', 2):
            eng.next_engine.receive(batch)
            batch = []
    if err:
        vc.raises('an unconnected pair is an error', RuntimeError, lambda: eng.next_engine.receive(batch))
        ref.pop()
    else:
        eng.next_engine.receive(batch)
    vc.ensure('a tag a later engine adds to one command appears on no other', not mark.seen)
    for c in rec.cmds:
        if isinstance(c.gate, type(ops.X)) and len(c.control_qubits) == 1:
            vc.ensure('allowed direction', (c.control_qubits[0].id, c.qubits[0][0].id) in cp, str(c))
        vc.ensure('no swap left', c.gate != ops.Swap)
        c.tags = [t for t in c.tags if t != 'mark']
        vc.ensure('tagged', len(c.tags) == 1)
    vc.ensure('tags in order', _dedup([c.tags[0].v for c in rec.cmds]) == _dedup([c.tags[0].v for c in ref]))
    got = np.array(W.unitary(W.Float, rec.cmds, list(range(n))), dtype=complex)
    want = np.array(W.unitary(W.Float, ref, list(range(n))), dtype=complex)
    vc.ensure('same operator', np.allclose(got, want, atol=1e-8), str([str(c) for c in rec.cmds]))


@bounded(P, FUN, 'random circuits of at most 40 commands (CNOT and other gates with up to 4 controls, swap) on 5 to 12 locations (any numbers below 40), on '
         'random states', samples=250, thorough=5000)
def circuits_large(vc):
    """The same on larger devices."""
    from pv import fast
    from . import c01
    n = 5 + vc.pick('n', 8)
    ids = c01.ids(vc, 'location', n)
    dense = vc.pick('dense', 2)
    cp = {(a, b) for a in ids for b in ids if a != b and (vc.pick('edge', 3) or dense)}
    for a, b in list(cp):
        if vc.flag('one way'):
            cp.discard((a, b) if vc.flag('which') else (b, a))
    eng, rec = W.make_eng([SwapAndCNOTFlipper(cp)])
    ref, batch, err = [], [], False
    for _ in range(1 + vc.pick('len', 40)):
        kind = vc.choose('kind', ['cnot', 'cnot', 'swap', 'h', 'cz', 'many'])
        p = progs.subset(vc, ids, 5)
        if kind in ('cnot', 'swap') and (p[0], p[1]) not in cp and (p[1], p[0]) not in cp:
            if vc.pick('error', 8):
                continue
            err = True
        k = {'cnot': 1, 'cz': 1, 'many': 2 + vc.pick('controls', 3)}.get(kind, 0)
        g = {'cz': ops.Z, 'h': ops.H, 'swap': ops.Swap}.get(kind, ops.X)
        w = 2 if kind == 'swap' else 1
        tags = [Tag(len(ref))]
        st = ''.join(vc.choose('value', '110') for _ in range(k))

        def mk():
            return Command(eng, g, tuple(qs(eng, [x]) for x in p[:w]), controls=qs(eng, p[w:w + k]), tags=list(tags), **({'control_state': st} if k else {}))
        ref.append(mk())
        batch.append(mk())
        if err:
            break
        if not vc.pick('send', 4):
            eng.next_engine.receive(batch)
            batch = []
    if err:
        vc.raises('an unconnected pair is an error', RuntimeError, lambda: eng.next_engine.receive(batch))
        ref.pop()
    else:
        eng.next_engine.receive(batch)
    for c in rec.cmds:
        if isinstance(c.gate, type(ops.X)) and len(c.control_qubits) == 1:
            vc.ensure('allowed direction', (c.control_qubits[0].id, c.qubits[0][0].id) in cp, str(c))
        vc.ensure('no swap left', c.gate != ops.Swap)
        vc.ensure('tagged', len(c.tags) == 1)
    vc.ensure('tags in order', _dedup([c.tags[0].v for c in rec.cmds]) == [c.tags[0].v for c in ref])
    for r in ref:
        mine = [c for c in rec.cmds if c.tags == r.tags]
        if r.gate != ops.Swap and not (isinstance(r.gate, type(ops.X)) and len(r.control_qubits) == 1 and
                                       (r.control_qubits[0].id, r.qubits[0][0].id) not in cp):
            vc.ensure('a command that complies is passed on unchanged', len(mine) == 1 and mine[0] == r, str(r))
    vec = fast.state(vc, n)
    fast.agree(vc, 'same operator', fast.run(vec, rec.cmds, ids), fast.run(vec, ref, ids))


def _dedup(xs):
    return [x for k, x in enumerate(xs) if k == 0 or xs[k - 1] != x]
