"""C01: copying, inverting, merging and comparing commands preserves the operation."""
import copy
import itertools

from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.meta import ComputeTag, DirtyQubitTag, LogicalQubitIDTag, LoopTag, UncomputeTag, canonical_ctrl_state
from projectq.ops import Command, CtrlAll, IncompatibleControlState
from projectq.types import WeakQubitRef

P = 'C01'
C = 'projectq.ops._command.Command.'
ASSUMPTIONS = ['the gate is an arbitrary gate: get_inverse / get_merged / __eq__ of the gate are used through their contract '
               '(an opaque gate object recording the calls)',
               'engines are compared by identity']
SIZES = 'at most 3 control qubits and 3 target registers, all qubit ids, control values, tags'


class Eng:
    """Stands for the engine of a command."""


class Opaque(ops.BasicGate):
    """An arbitrary gate; equality and results of inversion/merging are those of an arbitrary gate class."""

    def __init__(self, uid, inter=()):
        super().__init__()
        self.uid = uid
        self.interchangeable_qubit_indices = [list(x) for x in inter]

    def get_inverse(self):
        return Opaque(('inv', self.uid), self.interchangeable_qubit_indices)

    def get_merged(self, other):
        if not isinstance(other, Opaque) or 'nomerge' in (self.uid, other.uid):
            raise ops.NotMergeable()
        return Opaque(('merge', self.uid, other.uid), self.interchangeable_qubit_indices)

    def is_identity(self):
        return self.uid == 'id'

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.uid == other.uid

    def __hash__(self):
        return hash(str(self.uid))

    def __str__(self):
        return f'Opaque{self.uid}'


class Tag:
    """A tag with value equality."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Tag) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


def ids(vc, name, n, top=40):
    """n pairwise different qubit ids, otherwise arbitrary."""
    out = [vc.int(f'{name}{i}', 0, None if vc.symbolic else top) for i in range(n)]
    if not vc.symbolic:
        return spread(out, top)
    for a, b in itertools.combinations(out, 2):
        vc.assume(a != b)
    return out


def spread(xs, top):
    """Different numbers made of arbitrary ones (themselves when they differ already)."""
    out = []
    for x in xs:
        while x in out:
            x = (x + 1) % (top + 1) if x <= top else x + 1
        out.append(x)
    return out


def qs(eng, xs):
    return [WeakQubitRef(eng, x) for x in xs]


STATES = {0: [''], 1: ['0', '1'], 2: ['00', '01', '10', '11'], 3: ['011', '100', '101', '000', '111']}


class Model:
    """What a command means: gate, target ids by register, control id -> value, tags, engine."""

    def __init__(self, gate_uid, regs, ctrl, tags, eng):
        self.uid, self.regs, self.ctrl, self.tags, self.eng = gate_uid, regs, ctrl, tags, eng


def draw(vc, max_c=3, regs=((1, 2),), inter=()):
    """An arbitrary command and its meaning."""
    nc = vc.pick('ncontrols', max_c + 1)
    shape = vc.choose('regs', list(regs))
    tot = nc + sum(shape)
    xs = ids(vc, 'q', tot)
    state = vc.choose('state', STATES[nc])
    eng = Eng()
    ctrl = xs[:nc]
    rest = xs[nc:]
    rg = []
    for k in shape:
        rg.append(rest[:k])
        rest = rest[k:]
    tags = [Tag(i) for i in range(vc.pick('ntags', 3))]
    cmd = Command(eng, Opaque('g', inter), tuple(qs(eng, r) for r in rg), controls=qs(eng, ctrl), tags=list(tags),
                  control_state=state)
    return cmd, Model('g', rg, list(zip(ctrl, state)), tags, eng)


def means(vc, what, cmd, m, uid=None, inter=()):
    """Postcondition: cmd denotes the operation m."""
    vc.ensure(what + ': gate', cmd.gate.uid == (m.uid if uid is None else uid), str(cmd.gate.uid))
    vc.ensure(what + ': engine', cmd.engine is m.eng and all(q.engine is m.eng for r in cmd.all_qubits for q in r))
    vc.ensure(what + ': tags', [t.v for t in cmd.tags] == [t.v for t in m.tags])
    vc.ensure(what + ': number of registers', [len(r) for r in cmd.qubits] == [len(r) for r in m.regs] or bool(inter))
    if not inter:
        for r, s in zip(cmd.qubits, m.regs):
            for q, x in zip(r, s):
                vc.eq(what + ': targets', q.id, x)
    vc.ensure(what + ': number of controls', len(cmd.control_qubits) == len(m.ctrl) and
              len(cmd.control_state) == len(m.ctrl))
    for q, b in zip(cmd.control_qubits, cmd.control_state):
        ok = None
        for x, s in m.ctrl:
            t = (q.id == x) if s == b else False
            ok = t if ok is None else (ok | t)
        vc.ensure(what + ': every control qubit has its required value', ok)
    vc.ensure(what + ': all_qubits lists controls first', len(cmd.all_qubits) == 1 + len(cmd.qubits))
    for a, b in zip(cmd.control_qubits, cmd.control_qubits[1:]):
        vc.ensure(what + ': controls in canonical order', a.id < b.id)


@contract(P, [C + '__init__', C + '__deepcopy__', C + 'control_qubits', C + 'control_state', C + 'engine',
              C + 'all_qubits'], size_bound=SIZES, samples=300)
def construct_and_copy(vc):
    cmd, m = draw(vc)
    means(vc, 'construction', cmd, m)
    cp = copy.deepcopy(cmd)
    means(vc, 'copy', cp, m)
    vc.ensure('copy equals original', cp == cmd)
    vc.ensure('copy is independent', cp is not cmd and cp.tags is not cmd.tags and
              cp.control_qubits is not cmd.control_qubits)
    cp.tags.append(Tag('new'))
    cp.control_qubits.append(WeakQubitRef(m.eng, 1))
    for r in cp.qubits:
        r.append(WeakQubitRef(m.eng, 2))
    cp.gate.uid = 'changed'
    means(vc, 'original after changing the copy', cmd, m)


@contract(P, [C + 'get_inverse', C + 'is_identity'], size_bound=SIZES, samples=200)
def inverse(vc):
    cmd, m = draw(vc)
    inv = cmd.get_inverse()
    means(vc, 'inverse', inv, m, uid=('inv', 'g'))
    means(vc, 'double inverse', inv.get_inverse(), m, uid=('inv', ('inv', 'g')))
    means(vc, 'original', cmd, m)
    vc.ensure('tags not shared', inv.tags is not cmd.tags)
    vc.ensure('identity test asks the gate', bool(cmd.is_identity()) is False)


@contract(P, [C + 'is_identity', C + 'get_inverse'], samples=30)
def gates_without_inverse(vc):
    eng = Eng()

    class NoInv(ops.BasicGate):
        """Not invertible."""

        def get_inverse(self):
            raise ops.NotInvertible()

    g = NoInv()
    cmd = Command(eng, g, (qs(eng, [3]),), controls=qs(eng, [7, 5]), control_state='01')
    inv = cmd.get_inverse()
    vc.ensure('wrapped as the dagger of the gate', isinstance(inv.gate, ops.DaggeredGate) and inv.gate.get_inverse() is g)
    vc.ensure('controls kept', W.controls_of(inv) == [(5, 1), (7, 0)])
    vc.ensure('identity', Command(eng, Opaque('id'), (qs(eng, [3]),)).is_identity() is True)


# (same engine, tags of the first, tags of the second)
CONTEXT = [(True, [], []), (True, [0, 1], [0, 1]), (True, [0], []), (True, [], [0]), (True, [0], [1]),
           (True, [0, 1], [1, 0]), (True, [0, 2], [1, 2]), (True, [0, 2], [2]), (True, [0, 2], [0, 1]), (False, [], [])]


@contract(P, [C + 'get_merged'], size_bound='at most 2 controls and 3 targets', samples=400)
def merge(vc):
    """Merging is refused unless targets, controls, control values, tags and engine agree."""
    nc, nt = vc.pick('nc', 3), vc.pick('nt', 2) + 1
    xs, ys = ids(vc, 'x', nc + nt), ids(vc, 'y', nc + nt)
    s1, s2 = vc.choose('s1', STATES[nc]), vc.choose('s2', STATES[nc])
    e1 = Eng()
    context = vc.choose('context', CONTEXT)
    e2 = e1 if context[0] else Eng()
    t1, t2 = [Tag(t) for t in context[1]], [Tag(t) for t in context[2]]
    for z in (xs, ys):      # listed in increasing order; other listings are equal by control_order
        if nc == 2:
            vc.assume(z[0] < z[1])
    a = Command(e1, Opaque('g'), (qs(e1, xs[nc:]),), controls=qs(e1, xs[:nc]), tags=t1, control_state=s1)
    b = Command(e2, Opaque('h'), (qs(e2, ys[nc:]),), controls=qs(e2, ys[:nc]), tags=t2, control_state=s2)
    same_t = True
    for x, y in zip(xs[nc:], ys[nc:]):
        same_t = same_t & (x == y)
    # controls agree as sets of (qubit, value)
    same_c = True
    for x, s in zip(xs[:nc], s1):
        hit = False
        for y, r in zip(ys[:nc], s2):
            if s == r:
                hit = hit | (x == y)
        same_c = same_c & hit
    try:
        m = a.get_merged(b)
    except ops.NotMergeable:
        ok = e1 is e2 and t1 == t2
        if ok:
            # refusing commands that act alike would only be a missed optimisation; required here: agreement is accepted
            vc.ensure('commands on the same qubits can be merged', _not(vc, same_t & same_c))
        else:
            vc.ensure('refused', True)
        return
    vc.ensure('only commands of the same engine are merged', e1 is e2)
    vc.ensure('only commands with the same tags are merged', t1 == t2)
    vc.ensure('only commands with the same targets are merged', same_t)
    vc.ensure('only commands with the same controls and control values are merged', same_c)
    means(vc, 'merged', m, Model(('merge', 'g', 'h'), [xs[nc:]], list(zip(xs[:nc], s1)), t1, e1))


def _not(vc, x):
    return ~x if vc.symbolic and not isinstance(x, bool) else not x


@contract(P, [C + 'get_merged'], samples=30)
def merge_asks_gate(vc):
    e = Eng()
    a = Command(e, Opaque('nomerge'), (qs(e, [1]),))
    b = Command(e, Opaque('h'), (qs(e, [1]),))
    vc.raises('refusal of the gate is passed on', ops.NotMergeable, lambda: a.get_merged(b))
    vc.raises('refusal of the gate is passed on', ops.NotMergeable, lambda: b.get_merged(a))


@contract(P, [C + '__eq__'], size_bound='at most 2 controls and 3 targets', samples=400)
def equality(vc):
    """Commands compare equal iff gate, targets, controls with values, tags and engine agree."""
    nc, nt = vc.pick('nc', 3), vc.pick('nt', 2) + 1
    xs, ys = ids(vc, 'x', nc + nt), ids(vc, 'y', nc + nt)
    s1, s2 = vc.choose('s1', STATES[nc]), vc.choose('s2', STATES[nc])
    e1 = Eng()
    context = vc.choose('context', CONTEXT)
    e2 = e1 if context[0] else Eng()
    t1, t2 = [Tag(t) for t in context[1]], [Tag(t) for t in context[2]]
    for z in (xs, ys):      # listed in increasing order; other listings are equal by control_order
        if nc == 2:
            vc.assume(z[0] < z[1])
    g2 = vc.choose('gate2', ['g', 'h'])
    a = Command(e1, Opaque('g'), (qs(e1, xs[nc:]),), controls=qs(e1, xs[:nc]), tags=t1, control_state=s1)
    b = Command(e2, Opaque(g2), (qs(e2, ys[nc:]),), controls=qs(e2, ys[:nc]), tags=t2, control_state=s2)
    same = True
    for x, y in zip(xs[nc:], ys[nc:]):
        same = same & (x == y)
    for x, s in zip(xs[:nc], s1):
        hit = False
        for y, r in zip(ys[:nc], s2):
            if s == r:
                hit = hit | (x == y)
        same = same & hit
    fixed = e1 is e2 and t1 == t2 and g2 == 'g'
    if a == b:
        vc.ensure('equal commands denote the same operation with the same tags', (same if fixed else False))
    else:
        vc.ensure('commands denoting the same operation are equal', _not(vc, same) if fixed else True)
    vc.ensure('!= is the negation', bool(a != b) is not bool(a == b))


@contract(P, [C + '__eq__'], samples=40)
def equality_shapes(vc):
    """Different numbers of controls, registers or qubits are never equal."""
    e = Eng()
    shapes = [((), [[1]]), ((2,), [[1]]), ((2, 3), [[1]]), ((), [[1, 2]]), ((), [[1], [2]]), ((1,), [[2]]), ((), [[2, 1]])]
    i, j = vc.pick('i', len(shapes)), vc.pick('j', len(shapes))
    a, b = (Command(e, Opaque('g'), tuple(qs(e, r) for r in s[1]), controls=qs(e, s[0])) for s in (shapes[i], shapes[j]))
    vc.ensure('equal iff the same shape and ids', bool(a == b) is (i == j))
    vc.ensure('never equal to something else', not a == 'x' and not a == a.gate)


@contract(P, [C + '__eq__', C + 'get_merged', 'projectq.meta._logicalqubit.LogicalQubitIDTag.__eq__', 'projectq.meta._compute.ComputeTag.__eq__',
              'projectq.meta._compute.UncomputeTag.__eq__', 'projectq.meta._dirtyqubit.DirtyQubitTag.__eq__', 'projectq.meta._loop.LoopTag.__eq__'],
          samples=400)
def library_tags(vc):
    """Commands which differ in one of the library's own tags are neither equal nor merged; copies carry equal tags."""
    e = Eng()
    x, y = vc.int('x', 0, None if vc.symbolic else 300), vc.int('y', 0, None if vc.symbolic else 300)
    if not vc.symbolic and vc.flag('congruent'):
        y = x % (1 << vc.pick('shift', 8))
    loops = [LoopTag(3), LoopTag(3), LoopTag(4)]
    make = [ComputeTag, UncomputeTag, DirtyQubitTag, lambda: LogicalQubitIDTag(x), lambda: LogicalQubitIDTag(y), lambda: loops[0],
            lambda: loops[1], lambda: loops[2]]
    i, j = vc.pick('i', len(make)), vc.pick('j', len(make))
    a, b = (Command(e, Opaque('g'), (qs(e, [1]),), tags=[make[k]()]) for k in (i, j))
    same = (x == y) if {i, j} == {3, 4} else i == j
    if bool(same):
        vc.ensure('equal', a == b and a == copy.deepcopy(b))
        m = a.get_merged(b)
        vc.ensure('merged', m.gate.uid == ('merge', 'g', 'g') and m.tags == a.tags and m.qubits == a.qubits)
    else:
        vc.ensure('different', not a == b and a != b)
        vc.raises('not merged', ops.NotMergeable, lambda: a.get_merged(b))


INTER = [[(0, 1)], [(0, 2)], [(1, 2)], [(0, 1, 2)], [(0, 1), (2, 3)], [(0, 3)], [(3, 0, 2)]]


@contract(P, [C + '_order_qubits', C + 'qubits', C + 'interchangeable_qubit_indices'], size_bound='4 registers of 1 qubit',
          samples=300)
def interchangeable(vc):
    """Interchangeable registers are stored sorted; others stay; permuted listings give equal commands."""
    inter = vc.choose('inter', INTER)
    e = Eng()
    xs = ids(vc, 'x', 4)
    c = Command(e, Opaque('g', inter), tuple(qs(e, [x]) for x in xs))
    got = [r[0].id for r in c.qubits]
    moved = [i for grp in inter for i in grp]
    for i in range(4):
        if i not in moved:
            vc.eq('other registers keep their place', got[i], xs[i])
    for grp in inter:
        for x in (xs[i] for i in grp):
            hit = False
            for y in (got[i] for i in grp):
                hit = hit | (y == x)
            vc.ensure('every qubit of the group is still in the group', hit)
        order = [got[i] for i in grp]
        for y, z in zip(order, order[1:]):
            vc.ensure('group is sorted', y < z)
    # any other listing of the group gives an equal command
    grp = vc.choose('group', inter)
    perm = vc.choose('perm', list(itertools.permutations(grp)))
    ys = list(xs)
    for a, b in zip(grp, perm):
        ys[b] = xs[a]
    d = Command(e, Opaque('g', inter), tuple(qs(e, [y]) for y in ys))
    vc.ensure('interchanged listing gives an equal command', c == d)


@contract(P, [C + '__init__', C + 'control_qubits'], size_bound='3 controls', samples=200)
def control_order(vc):
    """Listing the controls (with their values) in another order yields an equal command."""
    e = Eng()
    xs = ids(vc, 'x', 4)
    state = vc.choose('state', STATES[3])
    perm = vc.choose('perm', list(itertools.permutations(range(3))))
    a = Command(e, Opaque('g'), (qs(e, xs[3:]),), controls=qs(e, xs[:3]), control_state=state)
    b = Command(e, Opaque('g'), (qs(e, xs[3:]),), controls=qs(e, [xs[p] for p in perm]),
                control_state=''.join(state[p] for p in perm))
    vc.ensure('equal', a == b)
    means(vc, 'reordered', b, Model('g', [xs[3:]], list(zip(xs[:3], state)), [], e))


@contract(P, [C + 'add_control_qubits'], size_bound='at most 2 + 2 controls', samples=300)
def add_controls(vc):
    """Adding controls keeps the existing ones; contradictory values are refused."""
    e = Eng()
    n0, n1 = vc.pick('n0', 3), vc.pick('n1', 2) + 1
    xs = ids(vc, 'x', n0 + 1)
    ys = ids(vc, 'y', n1)
    for y in ys:
        vc.assume(y != xs[-1])
    s0, s1 = vc.choose('s0', STATES[n0]), vc.choose('s1', STATES[n1])
    c = Command(e, Opaque('g'), (qs(e, xs[n0:]),), controls=qs(e, xs[:n0]), control_state=s0, tags=[Tag(1)])
    conflict = False
    double = False
    for x, s in zip(xs[:n0], s0):
        for y, r in zip(ys, s1):
            double = double | (x == y)
            if s != r:
                conflict = conflict | (x == y)
    try:
        c.add_control_qubits(qs(e, ys), s1)
    except IncompatibleControlState:
        vc.ensure('refused only for contradictory control values', conflict)
        return
    vc.ensure('contradictory control values are refused', _not(vc, conflict))
    if double if isinstance(double, bool) else bool(double):
        vc.ensure('every listed control is present', len(c.control_qubits) == n0 + n1)
        return
    means(vc, 'command with added controls', c,
          Model('g', [xs[n0:]], list(zip(xs[:n0], s0)) + list(zip(ys, s1)), [Tag(1)], e))


@contract(P, [C + 'control_qubits', C + 'control_state'], size_bound='2 controls', samples=200)
def setters(vc):
    """Replacing the control qubits pairs the given qubits with the values in order; reading back is consistent."""
    e = Eng()
    xs = ids(vc, 'x', 3)
    ys = ids(vc, 'y', 2)
    s = vc.choose('s', STATES[2])
    c = Command(e, Opaque('g'), (qs(e, xs[2:]),), controls=qs(e, xs[:2]), control_state=s)
    st = c.control_state
    c.control_qubits = qs(e, ys)
    for q, b in zip(c.control_qubits, c.control_state):
        ok = False
        for y, r in zip(ys, st):
            if r == b:
                ok = ok | (q.id == y)
        vc.ensure('values follow the qubits', ok)
    t = vc.choose('t', STATES[2])
    c.control_state = t
    vc.ensure('control state is stored', c.control_state == t)
    other = Eng()
    c.engine = other
    vc.ensure('engine of the command and of all its qubits', c.engine is other and
              all(q.engine is other for r in c.all_qubits for q in r))


@bounded(P, ['projectq.meta._control.canonical_ctrl_state'], 'all control states of up to 5 qubits', exhaustive=True)
def canonical_state(vc):
    n = vc.pick('n', 6)
    v = vc.pick('v', 1 << n)
    bits = ''.join(str((v >> i) & 1) for i in range(n))
    vc.ensure('integer: least significant bit for the first qubit', canonical_ctrl_state(v, n) == bits)
    vc.ensure('string is kept', canonical_ctrl_state(bits, n) == bits)
    vc.ensure('all ones', canonical_ctrl_state(CtrlAll.One, n) == '1' * n)
    vc.ensure('all zeros', canonical_ctrl_state(CtrlAll.Zero, n) == '0' * n)
    if n:
        vc.raises('too large', ValueError, lambda: canonical_ctrl_state((1 << n) + v, n))
        vc.raises('wrong length', ValueError, lambda: canonical_ctrl_state(bits + '1', n))
        vc.raises('wrong digit', ValueError, lambda: canonical_ctrl_state('2' + bits[1:], n))
        vc.raises('wrong type', TypeError, lambda: canonical_ctrl_state(1.5, n))


@bounded(P, [C + f for f in ('__init__', '__deepcopy__', 'get_inverse', 'get_merged', '__eq__', 'add_control_qubits', 'control_qubits')],
         'random commands with up to 8 controls in up to 3 groups, 6 registers of up to 4 qubits and 5 tags', samples=300, thorough=5000)
def large(vc):
    """Larger commands: copy, inverse, merge, comparison and added controls."""
    e = Eng()
    shape = [1 + vc.pick('size', 4) for _ in range(1 + vc.pick('registers', 6))]
    groups = [vc.pick('controls', 5) for _ in range(1 + vc.pick('groups', 3))]
    nc = sum(groups)
    xs = spread([vc.pick(f'q{i}', 60) for i in range(nc + sum(shape))], 60)
    ctrl, rest = xs[:nc], xs[nc:]
    state = ''.join(vc.choose('value', '01') for _ in range(nc))
    regs = []
    for k in shape:
        regs.append(rest[:k])
        rest = rest[k:]
    tags = [Tag(vc.pick('tag', 3)) for _ in range(vc.pick('ntags', 6))]

    def mk(uid, regs=regs, ctrl=ctrl, state=state, tags=tags, eng=e):
        at, c = 0, None
        for g in groups:
            a, b = ctrl[at:at + g], state[at:at + g]
            if c is None:
                c = Command(eng, Opaque(uid), tuple(qs(eng, r) for r in regs), controls=qs(eng, a), tags=list(tags), control_state=b)
            elif g:
                c.add_control_qubits(qs(eng, a), b)
            at += g
        return c
    m = Model('g', regs, list(zip(ctrl, state)), tags, e)
    c = mk('g')
    means(vc, 'construction', c, m)
    means(vc, 'copy', copy.deepcopy(c), m)
    vc.ensure('a copy is equal', copy.deepcopy(c) == c)
    means(vc, 'inverse', c.get_inverse(), m, uid=('inv', 'g'))
    means(vc, 'merge', c.get_merged(mk('h')), m, uid=('merge', 'g', 'h'))
    means(vc, 'the command itself', c, m)
    new = spread([vc.pick(f'n{i}', 60) for i in range(nc + sum(shape))], 60)[:nc]
    new = [x for x in new if x not in sum(regs, [])] + [70 + i for i in range(nc)]
    again = mk('g')
    at = [i for _, i in sorted(zip(ctrl, range(nc)))]      # values are kept in the order of the ids
    again.control_qubits = qs(e, new[:nc])
    means(vc, 'reassigned controls', again, Model('g', regs, list(zip(new[:nc], [state[i] for i in at])), tags, e))
    # the same with one thing changed
    what = vc.choose('difference', ['tag', 'first tag', 'changed tag', 'order of tags', 'target', 'register', 'control', 'value', 'engine', 'swap', 'gate'])
    kw, eq = {}, None
    if what == 'tag':
        kw['tags'] = tags + [Tag(9)]
    elif what == 'first tag':
        kw['tags'] = [Tag(9)] + tags
    elif what == 'changed tag' and tags:
        k = vc.pick('which', len(tags))
        kw['tags'] = tags[:k] + [Tag(9)] + tags[k + 1:]
    elif what == 'order of tags':
        kw['tags'] = tags[::-1]
        eq = [t.v for t in tags] == [t.v for t in tags[::-1]]
    elif what in ('target', 'register', 'swap'):
        r = [list(x) for x in regs]
        k = vc.pick('which', len(r))
        if what == 'target':
            r[k][vc.pick('where', len(r[k]))] = 61
        elif what == 'register':
            r[k] = r[k] + [61]
        else:
            r = r[::-1]
            eq = r == regs
        kw['regs'] = r
    elif what == 'control' and nc:
        k = vc.pick('which', nc)
        kw['ctrl'] = ctrl[:k] + [61] + ctrl[k + 1:]
    elif what == 'value' and nc:
        k = vc.pick('which', nc)
        kw['state'] = state[:k] + '10'[int(state[k])] + state[k + 1:]
    elif what == 'engine':
        kw['eng'] = Eng()
    if what in ('control', 'value') and not nc or what == 'changed tag' and not tags:
        return
    d = mk('h' if what == 'gate' else 'g', **kw)
    vc.ensure('commands differing in their ' + what + ' are not equal', (c == d) is bool(eq), f'{kw}')
    if what == 'gate' or eq:
        return
    vc.raises('commands differing in their ' + what + ' are not merged', ops.NotMergeable, lambda: c.get_merged(d))


GATES = [ops.X, ops.Rz(0.5), ops.Swap, ops.QFT, ops.SqrtSwap, ops.Rxx(0.3), ops.T, ops.Ph(1.0)]


@bounded(P, ['projectq.ops._command.Command', 'projectq.ops._basics'],
         'library gates, up to 3 controls, random ids and control values', samples=400)
def library_gates(vc):
    """With the real gates: the inverse command is the adjoint operator, a merged command the product."""
    import numpy as np
    g = vc.choose('g', GATES)
    n = {'SwapGate': 2, 'SqrtSwapGate': 2, 'Rxx': 2, 'QFTGate': 2}.get(type(g).__name__, 1)
    nc = vc.pick('nc', 3)
    perm = list(range(n + nc))
    vc_r = vc.pick('perm', 24)
    for i in range(len(perm) - 1, 0, -1):
        j = vc_r % (i + 1)
        vc_r //= (i + 1)
        perm[i], perm[j] = perm[j], perm[i]
    e = Eng()
    regs = [[p] for p in perm[:n]] if type(g).__name__ != 'QFTGate' else [perm[:n]]
    state = ''.join(vc.choose('s', '01') for _ in range(nc))
    c = Command(e, g, tuple(qs(e, r) for r in regs), controls=qs(e, perm[n:]), control_state=state)
    order = list(range(n + nc))
    u = np.array(W.unitary(W.Float, [c], order), dtype=complex)
    # reference straight from the drawn data
    kind, m = W.gate_op(W.Float, g, [len(r) for r in regs])
    ref = []
    for k in range(1 << (n + nc)):
        ref.append(W.apply_matrix(W.Float, W.basis(W.Float, n + nc, k), m, [q for r in regs for q in r],
                                  [(q, int(s)) for q, s in zip(perm[n:], state)]))
    vc.mat_eq('command denotes the controlled gate', u.tolist(), np.array(ref).T.tolist())
    cp = copy.deepcopy(c)
    vc.mat_eq('copy', np.array(W.unitary(W.Float, [cp], order)).tolist(), u.tolist())
    if kind == 'mat' and type(g).__name__ != 'QFTGate':
        vc.mat_eq('inverse', np.array(W.unitary(W.Float, [c.get_inverse()], order)).tolist(), u.conj().T.tolist())
    try:
        mm = c.get_merged(cp)
    except ops.NotMergeable:
        return
    vc.mat_eq('merge', np.array(W.unitary(W.Float, [mm], order)).tolist(), (u @ u).tolist())
