"""E04: qubit mappers keep a one-to-one placement and only adjacent interactions."""
import itertools

from pv import progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
from projectq.cengines import GridMapper, IBM5QubitMapper, LinearMapper, ManualMapper
from projectq.meta import LogicalQubitIDTag
from projectq.ops import Command

from .c01 import Opaque, ids, qs

P = 'E04'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real code, but for structures of bounded size: '
               'devices of 2 to 4 locations and at most 2 commands from every placement; '
               'hence not counted as a proof for all sizes')
E = 'projectq.cengines.'
L = E + '_linearmapper.LinearMapper.'
G = E + '_twodmapper.GridMapper.'
BASIC = [E + '_basicmapper.BasicMapperEngine._send_cmd_with_mapped_ids', E + '_basicmapper.BasicMapperEngine.current_mapping']
LIN = [L + f for f in ('receive', '_run', '_send_possible_commands', 'return_new_mapping', '_process_two_qubit_gate',
                       '_return_new_mapping_from_segments', '_odd_even_transposition_sort_swaps', 'is_available')]
GRID = [G + f for f in ('receive', '_run', '_send_possible_commands', '_return_new_mapping', 'return_swaps', '_sort_within_rows',
                        '_sort_within_columns', '_compare_and_swap', 'current_mapping', '__init__', 'is_available')]


class User:
    """Identifies a command of the user."""

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, o):
        return isinstance(o, User) and self.uid == o.uid

    def __hash__(self):
        return hash(self.uid)


class Watch:
    """Reads the emitted circuit through the placement and compares it with the received one."""

    def __init__(self, vc, rec, adjacent, live=()):
        self.vc, self.rec, self.adjacent, self.seen = vc, rec, adjacent, 0
        self.where = [(x, p) for x, p in live]          # logical id -> location
        self.temp = set()                               # locations holding clean work qubits
        self.todo = []                                  # (command, kind, logical ids), in order
        self.free_order = False

    def add(self, cmd):
        self.todo.append((cmd, type(cmd.gate).__name__, [q.id for r in cmd.qubits for q in r],
                          [q.id for q in cmd.control_qubits]))

    def at(self, loc):
        r = [x for x, p in self.where if p == loc]
        return r[0] if r else None

    def loc(self, x):
        for y, p in self.where:
            if bool(x == y):
                return p
        return None

    def used(self):
        return {p for _, p in self.where} | self.temp

    def take(self, pred):
        """The first waiting command with pred; the ones before it must act on other qubits."""
        for k, t in enumerate(self.todo):
            if pred(t):
                mine = t[2] + t[3]
                for s in self.todo[:k]:
                    self.vc.ensure('order is kept on every qubit', not any(bool(a == b) for a in mine for b in s[2] + s[3]))
                self.todo.pop(k)
                return t
        self.vc.ensure('every emitted command was received (once)', False, str([t[1] for t in self.todo]))

    def check(self):
        vc = self.vc
        for c in self.rec.cmds[self.seen:]:
            nm = type(c.gate).__name__
            tgt = [q.id for r in c.qubits for q in r]
            ctl = [q.id for q in c.control_qubits]
            user = [t for t in c.tags if isinstance(t, User)]
            log = [t.logical_qubit_id for t in c.tags if isinstance(t, LogicalQubitIDTag)]
            if nm == 'FlushGate':
                self.flushed = True
                continue
            if nm == 'AllocateQubitGate':
                vc.ensure('a location is allocated only when free', tgt[0] not in self.used(), f'{tgt} in {self.used()}')
                if log or user:
                    t = self.take(lambda t: t[1] == nm and (t[0].tags == user if user else bool(t[2][0] == log[0])))
                    self.where.append((t[2][0], tgt[0]))
                else:
                    self.temp.add(tgt[0])
                continue
            if nm == 'DeallocateQubitGate':
                if not log and not user:
                    vc.ensure('only clean work qubits are dropped', tgt[0] in self.temp)
                    self.temp.discard(tgt[0])
                    continue
                t = self.take(lambda t: t[1] == nm and (t[0].tags == user if user else bool(t[2][0] == log[0])))
                vc.ensure('the right location is deallocated', self.loc(t[2][0]) == tgt[0])
                self.where = [(x, p) for x, p in self.where if p != tgt[0]]
                continue
            if len(tgt) + len(ctl) == 2:
                a, b = tgt + ctl
                vc.ensure('two-qubit operations touch neighbours', self.adjacent(a, b), f'{a} {b}')
            if nm == 'SwapGate' and not user:
                a, b = tgt
                vc.ensure('swaps act on allocated locations', {a, b} <= self.used())
                self.where = [(x, b if p == a else a if p == b else p) for x, p in self.where]
                self.temp = {b if p == a else a if p == b else p for p in self.temp}
                continue
            vc.ensure('only received commands and swaps are emitted', len(user) == 1, str(c))
            t = self.take(lambda t: t[0].tags == user)
            vc.ensure('same gate', t[0].gate == c.gate and c.control_state == t[0].control_state)
            vc.ensure('targets at their current location', tgt == [self.loc(x) for x in t[2]], f'{tgt} {t[2]} {self.where}')
            vc.ensure('controls at their current location', sorted(ctl) == sorted([self.loc(x) for x in t[3]], key=lambda p: -1 if p is None else p))
            if nm == 'MeasureGate':
                vc.ensure('measurements announce the logical qubit', len(log) == 1 and log[0] == t[2][0])
            else:
                vc.ensure('no other tags', len(c.tags) == 1)
        self.seen = len(self.rec.cmds)
        locs = [p for _, p in self.where]
        vc.ensure('distinct locations', len(set(locs)) == len(locs))

    def mapping(self, mp):
        got = mp.current_mapping or {}
        for x, p in self.where:
            q = [v for k, v in got.items() if bool(k == x)]
            self.vc.ensure('current_mapping tells the location of every live qubit', q == [p], f'{got} instead of {self.where}')
        n = len(got)
        got.clear()
        self.vc.ensure('the reported mapping is a copy', len(mp.current_mapping or {}) == n)


def line(n, cyclic):
    return lambda a, b: abs(a - b) == 1 or (cyclic and abs(a - b) == n - 1)


def grid(rows, cols, names=None):
    back = {v: k for k, v in (names or {i: i for i in range(rows * cols)}).items()}

    def adj(a, b):
        a, b = back[a], back[b]
        return abs(a // cols - b // cols) + abs(a % cols - b % cols) == 1
    return adj


def command(vc, eng, kind, x, k):
    tag = [User(k)]
    if kind == 'cnot':
        return Command(eng, ops.X, (qs(eng, x[:1]),), controls=qs(eng, x[1:2]), tags=tag, control_state='1' if k % 2 else '0')
    if kind == 'two':
        return Command(eng, Opaque(('g', k)), (qs(eng, x[:2]),), tags=tag)
    if kind == 'swap':
        return Command(eng, ops.Swap, (qs(eng, x[:1]), qs(eng, x[1:2])), tags=tag)
    g = {'one': Opaque(('g', k)), 'measure': ops.Measure, 'alloc': ops.Allocate, 'dealloc': ops.Deallocate}[kind]
    return Command(eng, g, (qs(eng, x[:1]),), tags=tag)


def from_state(vc, mp, n, places, adj, steps):
    """From an arbitrary placement of the live qubits: a few arbitrary commands and a flush."""
    eng, rec = W.make_eng([mp])
    k = vc.pick('live', n + 1)
    xs = ids(vc, 'x', k)
    new = ids(vc, 'y', 1)
    for x in xs:
        vc.assume(x != new[0])
    left = list(places)
    live = []
    for x in xs:
        p = left.pop(vc.pick('place', len(left)))
        live.append((x, p))
    if k:
        mp.current_mapping = dict(live)
        vc.priv(mp, '_currently_allocated_ids')
        mp._currently_allocated_ids = set(xs)
        vc.priv(mp, '_stored_commands')
    w = Watch(vc, rec, adj, live)
    alive = list(xs)
    for i in range(steps):
        kinds = ['two'] if len(alive) > 1 else []
        if i == 0 and len(alive) > 1 and not vc.symbolic:
            kinds.append('cnot')
        if alive and i == 0:
            kinds += ['dealloc', 'measure']
        if len(alive) < n and new is not None:
            kinds.append('alloc')
        if not kinds:
            kinds = ['one'] if alive else ['none']
        kind = vc.choose('kind', kinds)
        if kind == 'none':
            continue
        if kind == 'alloc':
            y = list(new)
            alive.append(new[0])
            new = None
        elif kind in ('two', 'cnot'):
            pairs = list(itertools.combinations(range(len(alive)), 2))
            a, b = vc.choose('pair', pairs)
            y = [alive[a], alive[b]]
        else:
            y = [alive[vc.pick('which', len(alive))]]
            if kind == 'dealloc':
                alive = [z for z in alive if z is not y[0]]
        c = command(vc, eng, kind, y, i)
        w.add(c)
        eng.next_engine.receive([c])
        w.check()
    eng.flush()
    w.check()
    vc.ensure('nothing is left waiting after a flush', not w.todo, str([t[1] for t in w.todo]))
    vc.ensure('no work qubit is left allocated', not w.temp)
    w.mapping(mp)
    vc.ensure('the flush is passed on', type(rec.cmds[-1].gate).__name__ == 'FlushGate')


NOTE = ('inductive in the history: every placement of the live qubits, then at most {} commands and a flush; arbitrary logical ids; '
        'chains of {} locations')


@contract(P, BASIC + LIN, samples=150, budget=100, max_paths=30000, size_bound=NOTE.format(2, '2 and 3'), weight=3)
def linear_step(vc):
    """Linear and cyclic chain: from any placement, any commands are emitted correctly on neighbouring locations."""
    n = vc.choose('n', [3, 2])
    cyc = bool(vc.pick('cyclic', 2)) if n == 3 else False
    storage = vc.choose('storage', [1000, 1])
    mp = LinearMapper(n, cyclic=cyc, storage=storage)
    from_state(vc, mp, n, range(n), line(n, cyc), 2)


@contract(P, BASIC + LIN, samples=150, budget=100, max_paths=30000, weight=3,
          size_bound='every placement of 4 live qubits on chains of 4 locations (open and cyclic), then two two-qubit commands '
          '(the first one on any fixed pair, up to renaming) and a flush')
def linear_four(vc):
    cyc = bool(vc.pick('cyclic', 2))
    mp = LinearMapper(4, cyclic=cyc)
    full(vc, mp, range(4), line(4, cyc), [(1, 2), (2, 3)])


def full(vc, mp, places, adj, pairs):
    eng, rec = W.make_eng([mp])
    n = len(places)
    xs = ids(vc, 'x', n)
    left, live = list(places), []
    for x in xs:
        live.append((x, left.pop(vc.pick('place', len(left)))))
    mp.current_mapping = dict(live)
    vc.priv(mp, '_currently_allocated_ids')
    mp._currently_allocated_ids = set(xs)
    w = Watch(vc, rec, adj, live)
    for i in range(2):
        a, b = vc.choose('pair', pairs) if i or not vc.symbolic else (0, 1)
        c = command(vc, eng, 'two', [xs[a], xs[b]], i)
        w.add(c)
        eng.next_engine.receive([c])
    eng.flush()
    w.check()
    vc.ensure('nothing is left waiting after a flush', not w.todo)
    w.mapping(mp)


def _grid_step(vc, shapes, named):
    rows, cols = vc.choose('shape', shapes)
    n = rows * cols
    names = vc.choose('names', [{i: (i * 3 + 5) % 11 for i in range(n)}, None]) if named else None
    mp = GridMapper(rows, cols, mapped_ids_to_backend_ids=names, num_optimization_steps=vc.choose('steps', [4] if vc.symbolic else [50, 4, 1]))
    places = [names[i] for i in range(n)] if names else list(range(n))
    from_state(vc, mp, n, places, grid(rows, cols, names), 2 if n == 3 or not vc.symbolic else 1)


@contract(P, BASIC + GRID + LIN[3:6], samples=150, budget=150, max_paths=30000, weight=3,
          size_bound=NOTE.format(2, '1x3 grids with renamed locations of 3'))
def grid_row(vc):
    """Grid: from any placement, any commands are emitted correctly on neighbouring locations."""
    _grid_step(vc, [(1, 3), (3, 1)][:1 if vc.symbolic else 2], True)


@contract(P, BASIC + GRID + LIN[3:6], samples=150, budget=150, max_paths=30000, weight=3,
          size_bound=NOTE.format(2, '3x1 grids of 3'))
def grid_column(vc):
    _grid_step(vc, [(3, 1)], False)


@contract(P, BASIC + GRID + LIN[3:6], samples=150, budget=150, max_paths=30000, weight=3,
          size_bound=NOTE.format(1, '2x2 grids of 4'))
def grid_square(vc):
    _grid_step(vc, [(2, 2)], not vc.symbolic)


@contract(P, BASIC + GRID, samples=150, budget=100, max_paths=30000, weight=3,
          size_bound='every placement of 4 live qubits on the 2x2 grid, then two two-qubit commands (up to renaming) and a flush')
def grid_four(vc):
    full(vc, GridMapper(2, 2), range(4), grid(2, 2), [(1, 2), (2, 3)])


@contract(P, [E + '_manualmapper.ManualMapper.receive', E + '_manualmapper.ManualMapper.__init__'] + BASIC, samples=150,
          size_bound='lists of at most 3 commands on at most 3 qubits each')
def manual(vc):
    """Every injective map on the ids: each command arrives once, on the mapped locations; measurements name the logical qubit."""
    xs = ids(vc, 'x', 3)
    ys = ids(vc, 'p', 3)
    asked = []

    def f(i):
        asked.append(i)
        for x, y in zip(xs, ys):
            if bool(x == i):
                return y
        raise AssertionError('another id')

    mp = ManualMapper(f)
    eng, rec = W.make_eng([mp])
    cmds = []
    for k in range(1 + vc.pick('n', 3 if not vc.symbolic else 2)):
        kind = vc.choose('kind', ['two', 'cnot', 'one', 'measure', 'alloc', 'dealloc', 'swap'])
        p = vc.choose('perm', [(0, 1, 2), (2, 0, 1), (1, 2, 0)][:3 if k == 0 else 2])
        cmds.append(command(vc, eng, kind, [xs[i] for i in p], k))
    before = [([[q.id for q in r] for r in c.qubits], [q.id for q in c.control_qubits], list(c.tags)) for c in cmds]
    mp.receive(list(cmds))
    vc.ensure('one command each', len(rec.cmds) == len(cmds))

    def m(x):
        return [y for z, y in zip(xs, ys) if z is x or bool(z == x)][0]
    for c, d, (regs, ctl, tags) in zip(rec.cmds, cmds, before):
        vc.ensure('same gate', c.gate == d.gate and c.control_state == d.control_state)
        for r, s in zip(c.qubits, regs):
            for q, x in zip(r, s):
                if d.gate == ops.Swap:
                    vc.ensure('mapped', any(bool(q.id == m(z)) for t in regs for z in t))
                else:
                    vc.eq('mapped targets', q.id, m(x))
        vc.ensure('number of controls', len(c.control_qubits) == len(ctl))
        for q, x in zip(c.control_qubits, ctl):
            vc.eq('mapped controls', q.id, m(x))
        if type(d.gate).__name__ == 'MeasureGate':
            vc.ensure('tags', c.tags[:-1] == tags and isinstance(c.tags[-1], LogicalQubitIDTag) and
                      bool(c.tags[-1].logical_qubit_id == regs[0][0]))
        else:
            vc.ensure('tags', c.tags == tags)
        vc.ensure('the received command is not modified', [q.id for r in d.qubits for q in r] == [x for r in regs for x in r] and
                  d.tags == tags)
    got = mp.current_mapping
    for z in {id(q): q for r in before for s in r[0] for q in s}.values():
        vc.ensure('the placement is reported', any(bool(k == z) and bool(v == m(z)) for k, v in got.items()))
    vc.ensure('the engine chain is restored', eng.next_engine is mp and mp.next_engine is rec)


@contract(P, ['projectq.backends._ionq._ionq_mapper.BoundedQubitMapper.receive',
              'projectq.backends._ionq._ionq_mapper.BoundedQubitMapper._process_cmd'] + BASIC, samples=200, max_paths=30000,
          size_bound='histories of at most 5 actions on devices of at most 3 qubits, arbitrary logical ids')
def bounded_mapper(vc):
    """Live qubits on distinct hardware qubits below the limit, also across flushes; too many are refused."""
    limit = 1 + vc.pick('limit', 3)
    mp = BoundedQubitMapper(limit)
    eng, rec = W.make_eng([mp])
    xs = ids(vc, 'x', 4)
    w = Watch(vc, rec, lambda a, b: True)
    alive, fresh, since, used = [], list(xs), 0, set()
    for i in range(5 if vc.symbolic else 9):
        kinds = (['alloc'] if fresh else []) + (['flush', 'dealloc', 'one'] if alive else []) + (['two'] if len(alive) > 1 else [])
        kind = vc.choose('kind', kinds or ['flush'])
        if kind == 'flush':
            eng.flush()
            since, used = len(alive), set()
            continue
        if kind == 'alloc':
            y = [fresh.pop(0)]
        else:
            y = alive[:2] if kind == 'two' else [alive[vc.pick('which', len(alive))]]
        c = command(vc, eng, kind, y, i)
        w.add(c)
        if kind == 'alloc':
            try:
                mp.receive([c])
            except RuntimeError:
                vc.ensure('refused only when the hardware qubits are exhausted', since >= limit)
                return
            since += 1
            alive.append(y[0])
            w.check()
            vc.ensure('a hardware qubit is used once per circuit', w.loc(y[0]) not in used)
            used.add(w.loc(y[0]))
        else:
            mp.receive([c])
        if kind == 'dealloc':
            alive = [z for z in alive if z is not y[0]]
        w.check()
        vc.ensure('nothing waits', not w.todo)
        vc.ensure('within the device', all(0 <= p < limit for _, p in w.where))
        w.mapping(mp)


@bounded(P, BASIC + LIN + GRID, 'random histories of at most 40 commands (allocation, deallocation, measurement, one- and two-qubit '
         'commands, lists, flushes) on chains and rings of 2 to 7 and grids of up to 4x3 locations, storage 1 to 1000, renamed locations',
         samples=500, thorough=12000, weight=3)
def histories(vc):
    """Long random histories for the routing mappers."""
    if vc.flag('grid'):
        rows, cols = vc.choose('shape', [(2, 2), (2, 3), (3, 2), (1, 5), (4, 1), (3, 3), (4, 3)])
        n = rows * cols
        names = vc.choose('names', [None, {i: (7 * i + 3) % 31 for i in range(n)}])
        mp = GridMapper(rows, cols, mapped_ids_to_backend_ids=names, storage=vc.choose('storage', [1, 2, 3, 5, 9, 1000]),
                        num_optimization_steps=vc.choose('steps', [1, 3, 50]))
        adj = grid(rows, cols, names)
    else:
        n = 2 + vc.pick('n', 6)
        cyc = vc.flag('cyclic')
        mp = LinearMapper(n, cyclic=bool(cyc), storage=vc.choose('storage', [1, 2, 3, 5, 9, 1000]))
        adj = line(n, cyc)
    history(vc, mp, adj, n, 5 + vc.pick('len', 36))


@bounded(P, BASIC + LIN + GRID, 'random histories of at most 150 commands on chains and rings of 8 to 24 and grids of up to 4x5, 5x3 and 2x8 locations',
         samples=100, thorough=2000)
def histories_large(vc):
    """The same on larger devices."""
    if vc.flag('grid'):
        rows, cols = vc.choose('shape', [(4, 4), (2, 8), (5, 3), (4, 5), (3, 6)])
        n = rows * cols
        names = vc.choose('names', [None, {i: (7 * i + 3) % 31 for i in range(n)}])
        mp = GridMapper(rows, cols, mapped_ids_to_backend_ids=names, storage=vc.choose('storage', [10, 1000]), num_optimization_steps=vc.choose('steps', [1, 3, 50]))
        adj = grid(rows, cols, names)
    else:
        n = 8 + vc.pick('n', 17)
        cyc = vc.flag('cyclic')
        mp = LinearMapper(n, cyclic=bool(cyc), storage=vc.choose('storage', [1, 10, 1000]))
        adj = line(n, cyc)
    history(vc, mp, adj, n, 20 + vc.pick('len', 131))


def history(vc, mp, adj, n, length):
    eng, rec = W.make_eng([mp])
    w = Watch(vc, rec, adj)
    alive, nid = [], 0
    batch = []
    dense = vc.pick('dense', 2)
    for i in range(length):
        kinds = []
        if len(alive) < n and nid < 3 * n:
            kinds += ['alloc'] * (6 if dense and len(alive) < n - 1 else 2)
        if alive:
            kinds += ['one', 'measure', 'flush', 'dealloc']
        if len(alive) > 1:
            kinds += ['two', 'cnot', 'swap', 'two', 'cnot']
        kind = vc.choose('kind', kinds or ['flush'])
        if kind == 'flush':
            for c in batch:
                w.add(c)
            mp.receive(batch)
            batch = []
            eng.flush()
            w.check()
            vc.ensure('nothing is left waiting after a flush', not w.todo)
            vc.ensure('no work qubit is left allocated', not w.temp)
            w.mapping(mp)
            continue
        if kind == 'alloc':
            y = [nid]
            nid += 1 + vc.pick('skip', 2)
            alive.insert(vc.pick('at', len(alive) + 1), y[0])
        else:
            y = progs.subset(vc, alive, 2 if kind in ('two', 'cnot', 'swap') else 1)
            if kind == 'dealloc':
                alive.remove(y[0])
        batch.append(command(vc, eng, kind, y, i))
        if vc.pick('send', 3):
            for c in batch:
                w.add(c)
            mp.receive(batch)
            batch = []
            w.check()
            w.mapping(mp)
    for c in batch:
        w.add(c)
    mp.receive(batch)
    eng.flush()
    w.check()
    vc.ensure('nothing is left waiting at the end', not w.todo)
    w.mapping(mp)


@bounded(P, [E + '_ibm5qubitmapper.IBM5QubitMapper.receive', E + '_ibm5qubitmapper.IBM5QubitMapper._run',
             E + '_ibm5qubitmapper.IBM5QubitMapper._determine_cost', E + '_ibm5qubitmapper.IBM5QubitMapper._store'] + BASIC,
         'random circuits of at most 12 commands on at most 6 qubits, random and default couplings, against exhaustive search over '
         'placements', samples=250, thorough=4000)
def ibm(vc):
    """One placement per circuit along the couplings, the cheapest one; an error when there is none or too many qubits."""
    conn = vc.choose('coupling', [None, {(2, 1), (4, 2), (2, 0), (3, 2), (3, 4), (1, 0)}, 'random'])
    if conn == 'random':
        conn = {(a, b) for a in range(5) for b in range(5) if a != b and vc.pick('edge', 3) == 0}
    mp = IBM5QubitMapper(connections=conn) if conn is not None else IBM5QubitMapper()
    used = conn if conn is not None else mp.connections
    eng, rec = W.make_eng([mp])
    n = 1 + vc.pick('n', 6)
    w = Watch(vc, rec, lambda a, b: (a, b) in used or (b, a) in used)
    for x in range(n):
        c = command(vc, eng, 'alloc', [x], x)
        w.add(c)
        mp.receive([c])
    pairs = []
    for i in range(vc.pick('len', 13)):
        kind = vc.choose('kind', ['cnot', 'cnot', 'one', 'measure'] if n > 1 else ['one', 'measure'])
        y = progs.subset(vc, range(n), 2 if kind == 'cnot' else 1)
        if kind == 'cnot' and pairs and vc.pick('repeat', 2):
            y = list(vc.choose('pair', pairs))
        c = command(vc, eng, kind, y, n + i)
        if kind == 'cnot':
            pairs.append(tuple(y))
        w.add(c)
        mp.receive([c])
    vc.ensure('stored until the flush', not rec.cmds)
    costs = []
    if n <= 5 and pairs:
        for perm in itertools.permutations(range(5), n):
            cost = 0
            for t, c_ in pairs:
                a, b = perm[c_], perm[t]
                if (a, b) not in used:
                    cost = None if (b, a) not in used else cost + 1
                    if cost is None:
                        break
            if cost is not None:
                costs.append(cost)
    if n > 5 or (pairs and not costs):
        vc.raises('refused', RuntimeError, lambda: mp.receive([Command(eng, ops.FlushGate(), (qs(eng, [0]),))]))
        return
    mp.receive([Command(eng, ops.FlushGate(), (qs(eng, [0]),))])
    w.check()
    vc.ensure('nothing is left waiting', not w.todo)
    w.mapping(mp)
    if pairs:
        got = sum((w.loc(c_), w.loc(t)) not in used for t, c_ in pairs)
        vc.ensure('fewest CNOTs against the coupling', got == min(costs), f'{got} instead of {min(costs)}')


@bounded(P, BASIC + LIN + GRID, 'random circuits of at most 15 library gates on 4 to 6 qubits behind each mapper, state compared on the '
         'simulator through the placement', samples=40, thorough=600)
def operators(vc):
    """The state behind the mapper, read through the placement, is the state of the received circuit."""
    import numpy as np
    from projectq import MainEngine
    from projectq.backends import Simulator
    n = 4
    mp = vc.choose('mapper', [lambda: LinearMapper(n), lambda: LinearMapper(5, cyclic=True), lambda: GridMapper(2, 2), lambda: GridMapper(2, 3),
                              lambda: ManualMapper(lambda i: 9 - i), lambda: LinearMapper(4, storage=2)])()
    sims, outs = [], []
    seq = []
    for _ in range(3 + vc.pick('len', 13)):
        kind = vc.choose('kind', ['one', 'two', 'cnot', 'flush'])
        seq.append((kind, vc.choose('g', [ops.H, ops.T, ops.Rx(0.4), ops.Ry(1.3), ops.Rz(0.7)]), vc.choose('g2', [ops.Swap, ops.Rxx(0.8), ops.SqrtSwap]),
                    progs.subset(vc, range(n), 2)))
    for m in (None, mp):
        sim = Simulator()
        eng = MainEngine(sim, [m] if m else [])
        q = eng.allocate_qureg(n)
        for kind, g, g2, p in seq:
            if kind == 'one':
                g | q[p[0]]
            elif kind == 'two':
                g2 | (q[p[0]], q[p[1]])
            elif kind == 'cnot':
                ops.CNOT | (q[p[0]], q[p[1]])
            else:
                eng.flush()
        eng.flush()
        outs.append(np.array([sim.get_amplitude(format(k, f'0{n}b'), q) for k in range(1 << n)]))
        ops.All(ops.Measure) | q
        eng.flush()
        sims.append((sim, eng, q))
    vc.ensure('the same state', np.allclose(outs[0], outs[1], atol=1e-7))


@bounded(P, ['projectq.backends._ionq._ionq_mapper.BoundedQubitMapper.receive', 'projectq.backends._ionq._ionq_mapper.BoundedQubitMapper._process_cmd'] + BASIC,
         'random histories of at most 80 commands with several flushes on devices of up to 20 qubits', samples=200, thorough=4000)
def bounded_large(vc):
    """The mapper with a bound, on larger devices and over longer histories."""
    limit = 4 + vc.pick('limit', 17)
    mp = BoundedQubitMapper(limit)
    eng, rec = W.make_eng([mp])
    w = Watch(vc, rec, lambda a, b: True)
    alive, nid, since, used = [], 0, 0, set()
    for i in range(10 + vc.pick('len', 71)):
        kind = vc.choose('kind', ['alloc'] + (['flush', 'dealloc', 'one', 'measure', 'alloc'] if alive else []) + (['two', 'cnot', 'swap'] if len(alive) > 1 else []))
        if kind == 'flush':
            eng.flush()
            since, used = len(alive), set()
            w.mapping(mp)
            continue
        if kind == 'alloc':
            y = [nid]
            nid += 1 + vc.pick('skip', 3)
        else:
            y = progs.subset(vc, alive, 2 if kind in ('two', 'cnot', 'swap') else 1)
        c = command(vc, eng, kind, y, i)
        w.add(c)
        if kind == 'alloc':
            try:
                mp.receive([c])
            except RuntimeError:
                vc.ensure('refused only when the hardware qubits are exhausted', since >= limit)
                return
            since += 1
            alive.insert(vc.pick('at', len(alive) + 1), y[0])
            w.check()
            vc.ensure('a hardware qubit is used once per circuit', w.loc(y[0]) not in used)
            used.add(w.loc(y[0]))
        else:
            mp.receive([c])
        if kind == 'dealloc':
            alive.remove(y[0])
        w.check()
        vc.ensure('nothing waits', not w.todo)
        vc.ensure('within the device', all(0 <= p < limit for _, p in w.where))
        w.mapping(mp)


@bounded(P, [E + '_manualmapper.ManualMapper.receive', E + '_manualmapper.ManualMapper.__init__'] + BASIC,
         'maps of up to 30 qubits, lists of up to 60 commands', samples=150, thorough=3000)
def manual_large(vc):
    """Fixed placements of many qubits, given as a function or as a dictionary."""
    n = 3 + vc.pick('n', 28)
    places = list(range(0, 3 * n, 3))
    p = {}
    for x in range(n):
        p[x + 2 * n * vc.pick('far', 2)] = places.pop(vc.pick('place', len(places)))
    mp = ManualMapper(vc.choose('as', [p.__getitem__, lambda i: p[i]]))
    eng, rec = W.make_eng([mp])
    w = Watch(vc, rec, lambda a, b: True)
    todo, alive = list(p), []
    for i in range(10 + vc.pick('len', 51)):
        kinds = (['alloc', 'alloc'] if todo else []) + (['one', 'measure', 'dealloc'] if alive else []) + (['two', 'cnot', 'swap', 'two'] if len(alive) > 1 else [])
        if not kinds:
            break
        kind = vc.choose('kind', kinds)
        y = [todo.pop(vc.pick('which', len(todo)))] if kind == 'alloc' else progs.subset(vc, alive, 2 if kind in ('two', 'cnot', 'swap') else 1)
        c = command(vc, eng, kind, y, i)
        w.add(c)
        mp.receive([c])
        if kind == 'alloc':
            alive.append(y[0])
        w.check()
        vc.ensure('nothing waits', not w.todo)
        if kind == 'alloc':
            vc.ensure('placed where asked', w.loc(y[0]) == p[y[0]])
        if kind == 'dealloc':
            alive.remove(y[0])
    got = mp.current_mapping
    vc.ensure('the placement is reported', all(got[x] == p[x] for x in alive))
