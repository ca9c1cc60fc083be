"""R01: the restricted gate-set setups admit exactly the gates that were asked for."""
import functools
import itertools

from pv import progs
from pv import world as W
from pv.core import bounded, contract

import projectq.libs.math as pm
import projectq.ops as ops
from projectq.cengines import DecompositionRule, InstructionFilter, MainEngine
from projectq.cengines._replacer._decomposition_rule_set import DecompositionRuleSet
from projectq.meta import Control
from projectq.ops import All, Command
from projectq.setups import grid, linear, restrictedgateset, trapped_ion_decomposer
from projectq.setups.decompositions import cnot2rxx, h2rx, rz2rx

from .c01 import ids, qs

P = 'R01'
S = 'projectq.setups.'
FILTER = [S + 'restrictedgateset.get_engine_list', S + '_utils.get_engine_list_linear_grid_base', S + 'linear.get_engine_list',
          S + 'grid.get_engine_list', 'projectq.cengines._replacer._replacer.InstructionFilter.is_available']
CHOOSER = [S + 'trapped_ion_decomposer.chooser_Ry_reducer']


# --- gates about which nothing is known -----------------------------------------------------------------------------------
class A(ops.BasicGate):
    """An arbitrary gate class: an instance is known by an arbitrary number."""

    def __init__(self, k):
        super().__init__()
        self.k = k

    def __eq__(self, o):
        return type(self) is type(o) and bool(self.k == o.k)

    def __hash__(self):
        return 0

    def __str__(self):
        return type(self).__name__


class A1(A):
    """A subclass of it."""


class B(A):
    """Another class (equality is between instances of one class only)."""


def engines(which, one, two, other=()):
    """The engine list of the setup."""
    if which == 'restricted':
        return restrictedgateset.get_engine_list(one_qubit_gates=one, two_qubit_gates=two, other_gates=other)
    if which == 'linear':
        return linear.get_engine_list(4, one_qubit_gates=one, two_qubit_gates=two)
    return grid.get_engine_list(2, 2, one_qubit_gates=one, two_qubit_gates=two)


def gatekeeper(vc, engs):
    """What the last filter answers for a command."""
    last = [e for e in engs if isinstance(e, InstructionFilter)][-1]
    rec = W.make_rec(lambda c: False)
    last.next_engine = rec
    last.main_engine = rec

    def ask(cmd):
        return bool(last.is_available(cmd))

    return ask


def listed(item, cmd, control=True):
    """The command is the listed gate: an instance of the class, or an equal gate with as many (positive) controls."""
    if isinstance(item, type):
        return isinstance(cmd.gate, item)
    inner, n = (item._gate, item._n) if isinstance(item, ops.ControlledGate) else (item, 0)
    if len(cmd.control_qubits) != n or '0' in [str(s) for s in cmd.control_state]:
        return False
    return bool(cmd.gate == inner)


def allowed(one, two, other, cmd):
    """The command is one of the gates asked for."""
    n = sum(len(r) for r in cmd.all_qubits)
    if isinstance(cmd.gate, ops.ClassicalInstructionGate):
        return True
    if n == 1 and (one == 'any' or any(listed(g, cmd) for g in one)):
        return True
    if n == 2 and (two == 'any' or any(listed(g, cmd) for g in two)):
        return True
    return any(listed(g, cmd) for g in other)


def by_class(one, two, other, cmd):
    """Admitted because of 'any' or of a class (where a negative control may still be left to be decomposed)."""
    pick = lambda gs: 'any' if gs == 'any' else tuple(g for g in gs if isinstance(g, type))
    return allowed(pick(one), pick(two), pick(other), cmd)


def command(vc, gate, targets, controls, state=None):
    eng = W.make_rec(lambda c: False)
    loc = ids(vc, 'q', targets + controls)
    return Command(eng, gate, (qs(eng, loc[:targets]),), controls=qs(eng, loc[targets:]),
                   **({} if not controls or state is None else {'control_state': state}))


def admits(vc, which, one, two, other, cmd):
    """The contract of the final filter of the setup."""
    ask = gatekeeper(vc, engines(which, one, two, other))
    want = allowed(one, two, other, cmd)
    n = sum(len(r) for r in cmd.all_qubits)
    try:
        got = ask(cmd)
    except ValueError:
        vc.ensure('only gates on more than two qubits are refused outright', which != 'restricted' and n > 2)
        got = False
    vc.ensure('only the gates asked for are admitted', want or not got)
    # a gate that is asked for with a negative control may be sent to the decomposition that removes it
    vc.ensure('the gates asked for are admitted',
              got or not want or '0' in [str(s) for s in cmd.control_state] and by_class(one, two, other, cmd))


def arbitrary_item(vc, tag, top):
    """A class, an instance or an instance with controls."""
    kind = vc.pick(tag + ' kind', 3 + top)
    if kind == 0:
        return A
    if kind == 1:
        return A1
    k = vc.int(tag + ' gate', 0, 2)
    return A1(k) if kind == 2 else ops.ControlledGate(A1(k), kind - 2)


def arbitrary_command(vc, n):
    gate = vc.choose('class of the command', [A, A1, B])(vc.int('gate', 0, 2))
    c = vc.pick('controls', n)
    state = '1' * c
    if c:
        state = vc.choose('control state', ['1' * c, '0' + '1' * (c - 1), '1' * (c - 1) + '0'][:1 + c])
    return command(vc, gate, n - c, c, state)


def _admits_arbitrary(vc, which, cat):
    n = 1 + vc.pick('qubits', 3)
    cmd = arbitrary_command(vc, n)
    many = vc.pick('items', 3)
    items = tuple(arbitrary_item(vc, f'item {i}', 2 if cat == 'other' else 1) for i in range(many))
    rest = vc.flag('any elsewhere')
    one = 'any' if rest else ()
    two = 'any' if rest else ()
    admits(vc, which, items if cat == 'one' else one, items if cat == 'two' else two, items if cat == 'other' else (), cmd)


def _build():
    for which in ('restricted', 'linear', 'grid'):
        for cat in ('one', 'two') + (('other',) if which == 'restricted' else ()):
            def fn(vc, which=which, cat=cat):
                _admits_arbitrary(vc, which, cat)
            fn.__name__ = f'admits_{which}_{cat}'
            fn.__doc__ = f'{which}: the {cat}-qubit gates asked for, for arbitrary gate classes and gates.'
            contract(P, FILTER, samples=80, budget=200, max_paths=60000,
                     size_bound='at most 2 items in the list, commands on at most 3 qubits')(fn)


_build()


# --- the gates of the library ----------------------------------------------------------------------------------------------
def lib_items(vc, tag, top=True):
    a = vc.angle(tag + ' angle')
    one = [ops.Rx, ops.Rz, ops.BasicRotationGate, ops.HGate, ops.XGate, ops.H, ops.X, ops.T, ops.Tdag, ops.Rz(a), ops.Ph(a), ops.R(a)]
    two = [ops.CNOT, ops.Swap, ops.C(ops.Z), ops.C(ops.Rz(a)), ops.Rxx(a), ops.Rxx, ops.SwapGate, ops.Rz, ops.XGate]
    other = [ops.QFT, ops.TimeEvolution, ops.Barrier, ops.C(ops.X, 2), ops.C(ops.Swap), pm.AddConstant, ops.X, ops.CNOT, ops.Rz, ops.Rz(a)]
    return one, two, other


def lib_gates(vc):
    b = vc.angle('angle of the command')
    return [ops.Rx(b), ops.Rz(b), ops.Ph(b), ops.R(b), ops.H, ops.X, ops.T, ops.Tdag, ops.get_inverse(ops.T), ops.Z, ops.Swap,
            ops.Rxx(b), ops.Rzz(b), ops.QFT, ops.Barrier, ops.TimeEvolution(b, ops.QubitOperator('X0')), pm.AddConstant(3)]


def _lib(vc, which, cat):
    items = dict(zip(('one', 'two', 'other'), lib_items(vc, 'item')))[cat]
    item = vc.choose('item', items)
    gate = vc.choose('gate', lib_gates(vc))
    two = isinstance(gate, (ops.Rxx, ops.Rzz))
    eng = W.make_rec(lambda c: False)
    c = vc.pick('controls', 3)
    extra = vc.flag('one more target') if isinstance(gate, (ops.BasicMathGate, type(ops.QFT), type(ops.Barrier))) else False
    state = vc.choose('control state', ['1' * c, '0' * c] if c else [''])
    t = 2 if two or gate == ops.Swap else 1 + bool(extra)
    loc = ids(vc, 'q', t + c)
    regs = tuple(qs(eng, [q]) for q in loc[:t]) if t == 2 and not extra else (qs(eng, loc[:t]),)
    cmd = Command(eng, gate, regs, controls=qs(eng, loc[t:]), **({'control_state': state} if c else {}))
    one, twos, other = ((item,) if cat == k else () for k in ('one', 'two', 'other'))
    admits(vc, which, one, twos, other, cmd)


def _build_lib():
    for which in ('restricted', 'linear', 'grid'):
        for cat in ('one', 'two') + (('other',) if which == 'restricted' else ()):
            def fn(vc, which=which, cat=cat):
                _lib(vc, which, cat)
            fn.__name__ = f'library_{which}_{cat}'
            fn.__doc__ = f'{which}: gates of the library in the {cat} list, all angles.'
            contract(P, FILTER, samples=80, budget=200, max_paths=60000, size_bound='one item in the list, at most 2 controls')(fn)


_build_lib()


@contract(P, FILTER, samples=40)
def classical(vc):
    """Allocation, deallocation, measurement and flush always pass."""
    which = vc.choose('setup', ['restricted', 'linear', 'grid'])
    one = vc.choose('one', ['any', (), (A,), (ops.H,)])
    two = vc.choose('two', ['any', (), (A,), (ops.CNOT,)])
    ask = gatekeeper(vc, engines(which, one, two))
    g = vc.choose('instruction', [ops.Allocate, ops.Deallocate, ops.AllocateDirty, ops.Measure, ops.FlushGate(),
                                  ops.ClassicalInstructionGate(), ops.FastForwardingGate()])
    eng = W.make_rec(lambda c: False)
    cmd = Command(eng, g, (qs(eng, ids(vc, 'q', 1)),))
    vc.ensure('classical instructions always pass', ask(cmd))


BAD_ARGS = [None, [ops.H], {ops.H}, ops.H, ops.HGate, 'all', '', 3, {ops.H: 1}, iter(())]
BAD_ITEMS = [None, ops.CRz, 'H', 3, (ops.H,), [ops.X]]


@contract(P, FILTER, samples=60)
def unsupported_arguments(vc):
    """Anything but 'any' or a tuple of gates and gate classes is rejected."""
    which = vc.choose('setup', ['restricted', 'linear', 'grid'])
    cat = vc.choose('argument', ['one', 'two'] + (['other'] if which == 'restricted' else []))
    if vc.flag('item'):
        bad = vc.choose('bad item', BAD_ITEMS)
        good = [ops.Rz, ops.X] if cat == 'one' else [ops.CNOT, ops.Swap]
        where = vc.pick('position', 3)
        arg = tuple(good[:where] + [bad] + good[where:])
    else:
        arg = vc.choose('bad argument', BAD_ARGS + (['any'] if cat == 'other' else []))
    args = {'one': 'any', 'two': (ops.CNOT,), 'other': ()}
    args[cat] = arg
    vc.raises('arguments of an unsupported kind are rejected', (TypeError,), lambda: engines(which, args['one'], args['two'], args['other']))


# --- after the filter: nothing that was not asked for comes up again ----------------------------------------------------
@contract(P, FILTER, samples=60, budget=60)
def behind_the_filter(vc):
    """Two adjacent admitted gates of listed classes stay admitted through the rest of the engine list."""
    which = vc.choose('setup', ['restricted', 'linear', 'grid'])
    one, two = (ops.Rx, ops.Rz, ops.H), (ops.CNOT, ops.Swap, ops.Rxx)
    tail(vc, which, one, two, [lambda a: ops.Rx(a), lambda a: ops.Rz(a), lambda a: ops.H],
         [lambda a: ops.C(ops.X), lambda a: ops.Rxx(a), lambda a: ops.Swap])


@contract(P, FILTER, samples=40, budget=60)
def merged(vc):
    """Two adjacent admitted gates of listed rotation gates stay admitted through the rest of the engine list."""
    which = vc.choose('setup', ['restricted', 'linear', 'grid'])
    g = vc.choose('listed', [ops.Rx(0.5), ops.Rxx(0.5)])
    tail(vc, which, (ops.Rz, ops.H, ops.Rx(0.5)), (ops.CNOT, ops.Rxx(0.5)),
         [lambda a: ops.Rx(0.5), lambda a: ops.H] if g == ops.Rx(0.5) else [], [lambda a: ops.Rxx(0.5)] if g != ops.Rx(0.5) else [])


def tail(vc, which, one, two, ones, twos):
    engs = engines(which, one, two)
    last = max(i for i, e in enumerate(engs) if isinstance(e, InstructionFilter))
    rest = engs[last:]
    rec = W.make_rec(lambda c: True)
    for x, y in zip(rest, rest[1:] + [rec]):
        x.next_engine = y
    for x in rest + [rec]:
        x.main_engine = rec
    eng = rest[0]
    out = []
    for i in range(2):
        a = vc.angle(f'angle {i}')
        k = vc.pick(f'gate {i}', len(ones) + len(twos))
        if k < len(ones):
            out.append(Command(eng, ones[k](a), (qs(eng, [vc.pick(f'qubit {i}', 2)]),)))
        else:
            g = twos[k - len(ones)](a)
            p = [[0, 1], [1, 0]][vc.pick(f'pair {i}', 2)]
            if isinstance(g, ops.ControlledGate):
                out.append(Command(eng, ops.X, (qs(eng, p[1:]),), controls=qs(eng, p[:1])))
            else:
                out.append(Command(eng, g, tuple(qs(eng, [q]) for q in p)))
    ask = gatekeeper(vc, engines(which, one, two))
    for c in out:
        vc.ensure('the gates are admitted', ask(c))
    for c in out:
        eng.receive([c])
    eng.receive([Command(eng, ops.FlushGate(), (qs(eng, [0]),))])
    for c in rec.cmds:
        vc.ensure('what reaches the backend was asked for', allowed(one, two, (), c))


# --- the whole engine list --------------------------------------------------------------------------------------------------
CONFIGS = [((ops.Rz, ops.Ry), (ops.CNOT,), ()), ((ops.Rz, ops.Rx, ops.Ry, ops.H), (ops.CNOT,), ()), ((ops.Rz, ops.H), (ops.CNOT,), ()),
           ((ops.Rz, ops.Rx), (ops.CNOT,), ()), ((ops.Rz, ops.Ry, ops.X), (ops.C(ops.Z),), ()),
           ('any', (ops.CNOT,), ()), ('any', (ops.CNOT, ops.Swap), ()), ((ops.Rz, ops.Ry), 'any', ()),
           ((ops.Rz, ops.Ry), (ops.CNOT,), (ops.C(ops.X, 2),)), ((ops.Rz, ops.Ry), (ops.CNOT,), (ops.QFT, ops.TimeEvolution)),
           ((ops.Rz, ops.Ry, ops.S, ops.T), (ops.CNOT, ops.Rxx), (ops.C(ops.Swap),))]
GATES = [ops.H, ops.X, ops.Y, ops.Z, ops.S, ops.T, ops.Tdag, ops.SqrtX]
ROTS = [ops.Rx, ops.Ry, ops.Rz, ops.Ph, ops.R]


def program(vc, eng, n, steps, many=True):
    q = eng.allocate_qureg(n)
    for i in range(steps):
        k = vc.pick(f'kind {i}', 8)
        o = list(q)
        r = vc.pick(f'first {i}', n)
        o = o[r:] + o[:r]
        if vc.flag(f'swap {i}'):
            o[1], o[2] = o[2], o[1]
        g = vc.choose(f'rotation {i}', ROTS)(vc.real(f'angle {i}', 0, 6)) if vc.flag(f'rotate {i}') else vc.choose(f'gate {i}', GATES)
        if k <= 1:
            g | o[0]
        elif k == 2:
            with Control(eng, o[1], ctrl_state=vc.choose(f'control {i}', ['1', '0'])):
                g | o[0]
        elif k == 3:
            with Control(eng, o[1:3], ctrl_state=vc.choose(f'controls {i}', ['11', '01', '00'])):
                (ops.X if many else g) | o[0]
        elif k == 4:
            ops.Swap | (o[0], o[1])
        elif k == 5:
            ops.QFT | o[:2]
        elif k == 6:
            with Control(eng, o[2], ctrl_state=vc.choose(f'swap control {i}', ['1', '0'])):
                ops.Swap | (o[0], o[1])
        else:
            ops.TimeEvolution(vc.real(f'time {i}', 0, 2), ops.QubitOperator('X0 Y1')) | o[:2]
    if vc.flag('measure'):
        All(ops.Measure) | q
    eng.flush()
    All(ops.Measure) | q
    return q


MORE = [ops.H, ops.X, ops.S, ops.T, ops.Rx, ops.Ph, ops.R, ops.Y, ops.Z, ops.SqrtX, ops.HGate], \
    [ops.Swap, ops.C(ops.Z), ops.Rxx, ops.CNOT, ops.C(ops.H), ops.SwapGate]


@bounded(P, FILTER, 'random programs of at most 8 steps on 3 to 5 qubits, lists with up to 5 further gates', samples=300, thorough=1500)
def whole_list_large(vc):
    """Longer lists, larger programs."""
    which = vc.choose('setup', ['restricted', 'restricted', 'linear', 'grid'])
    one, two, other = vc.choose('gates', CONFIGS)
    one = one if one == 'any' else one + tuple(vc.choose('more', MORE[0]) for _ in range(vc.pick('further', 4)))
    two = two if two == 'any' else two + tuple(vc.choose('more pairs', MORE[1]) for _ in range(vc.pick('further pairs', 3)))
    if which != 'restricted':
        other = ()
    n = 3 + vc.pick('qubits', 3 if which == 'restricted' else 2)
    rec = W.make_rec(lambda c: True)
    eng = MainEngine(rec, engines(which, one, two, other), verbose=True)
    program(vc, eng, n, 1 + vc.pick('steps', 8))
    for c in rec.cmds:
        ok = allowed(one, two, other, c)
        vc.ensure('what reaches the backend was asked for', ok, '' if ok else str(c))


@bounded(P, FILTER, 'random programs of at most 4 steps on 3 qubits', samples=120, thorough=2500)
def whole_list(vc):
    """Everything that reaches the backend was asked for."""
    which = vc.choose('setup', ['restricted', 'restricted', 'linear', 'grid'])
    one, two, other = vc.choose('gates', CONFIGS)
    if which != 'restricted':
        other = ()
    rec = W.make_rec(lambda c: True)
    eng = MainEngine(rec, engines(which, one, two, other), verbose=True)
    q = program(vc, eng, 3, 1 + vc.pick('steps', 4))
    for c in rec.cmds:
        ok = allowed(one, two, other, c)
        vc.ensure('what reaches the backend was asked for', ok, '' if ok else str(c))


@bounded(P, FILTER, 'lists of up to 8 classes and gates each, of the library and others; commands on up to 7 qubits', samples=400, thorough=8000)
def long_lists(vc):
    """All lists at once, several items each, larger commands."""
    which = vc.choose('setup', ['restricted', 'restricted', 'linear', 'grid'])
    lists = []
    for cat, lib in zip(('one', 'two', 'other'), lib_items(vc, 'item')):
        if cat != 'other' and vc.pick(f'any {cat}', 8) == 0:
            lists.append('any')
            continue
        many = vc.pick(f'{cat} items', 9) if cat != 'other' or which == 'restricted' else 0
        lists.append(tuple(vc.choose(f'{cat} {i}', lib) if vc.pick(f'{cat} {i} known', 3) else
                           arbitrary_item(vc, f'{cat} {i}', 2 if cat == 'other' else 1) for i in range(many)))
    for k in range(6):
        c = vc.choose(f'controls {k}', [0, 0, 1, 1, 2, 3, 4])
        if vc.pick(f'other {k}', 3) == 0:
            gate, t = vc.choose(f'class {k}', [A, A1, B])(vc.int(f'gate {k}', 0, 2)), 1 + vc.pick(f'targets {k}', 3)
        else:
            gate = vc.choose(f'library {k}', lib_gates(vc))
            t = 2 if isinstance(gate, (ops.Rxx, ops.Rzz)) or gate == ops.Swap else 1
            if isinstance(gate, (ops.BasicMathGate, type(ops.QFT), type(ops.Barrier))):
                t = 1 + vc.pick(f'size {k}', 4)
        state = ''.join(vc.choose(f'state {k}', '1110') for _ in range(c))
        loc = ids(vc, f'q {k} ', t + c)
        eng = W.make_rec(lambda c: False)
        split = gate == ops.Swap or t == 2 and vc.flag(f'two registers {k}') and not isinstance(gate, ops.BasicMathGate)
        cmd = Command(eng, gate, tuple(qs(eng, [q]) for q in loc[:t]) if split else (qs(eng, loc[:t]),), controls=qs(eng, loc[t:]), control_state=state)
        admits(vc, which, lists[0], lists[1], lists[2], cmd)


@bounded(P, CHOOSER + [S + 'trapped_ion_decomposer.get_engine_list'], 'random programs of at most 4 steps on 3 qubits',
         samples=60, thorough=1000)
def trapped_ion(vc):
    """Everything that reaches the backend behind the trapped-ion setup is Rx, Ry or Rxx."""
    rec = W.make_rec(lambda c: True)
    eng = MainEngine(rec, trapped_ion_decomposer.get_engine_list(), verbose=True)
    q = program(vc, eng, 3, 1 + vc.pick('steps', 4))
    for c in rec.cmds:
        ok = allowed((ops.Rx, ops.Ry), (ops.Rxx,), (), c)
        vc.ensure('what reaches the backend was asked for', ok, '' if ok else str(c))


@bounded(P, CHOOSER + [S + 'trapped_ion_decomposer.get_engine_list'], 'random programs of 5 to 12 steps on 3 to 5 qubits',
         samples=150, thorough=2000, weight=2)
def trapped_ion_large(vc):
    """The same for longer programs on more qubits."""
    rec = W.make_rec(lambda c: True)
    eng = MainEngine(rec, trapped_ion_decomposer.get_engine_list(), verbose=True)
    program(vc, eng, 3 + vc.pick('qubits', 3), 5 + vc.pick('steps', 8))
    for c in rec.cmds:
        ok = allowed((ops.Rx, ops.Ry), (ops.Rxx,), (), c)
        vc.ensure('what reaches the backend was asked for', ok, '' if ok else str(c))


# --- the chooser ------------------------------------------------------------------------------------------------------------
def rules_for(vc, cmd, tag):
    """The decompositions the library offers for the command, in an arbitrary order, among others."""
    offered = rules_for_plain(cmd)
    extra = vc.pick(tag + ' others', 3)
    if extra:
        def _decompose_other(c):
            pass

        def decompose(c):
            pass

        for f in (_decompose_other, decompose)[:extra]:
            r = DecompositionRuleSet([DecompositionRule(type(cmd.gate), f)])
            offered = offered + r.decompositions[type(cmd.gate).__name__]
    k = vc.pick(tag + ' order', len(offered))
    offered = offered[k:] + offered[:k]
    if vc.flag(tag + ' reversed'):
        offered.reverse()
    return offered


@contract(P, CHOOSER, samples=60, budget=150, max_paths=60000, size_bound='histories of at most 2 earlier choices')
def chooser(vc):
    """After any choices for any qubits, one of the offered decompositions is chosen."""
    eng = W.make_eng([], lambda c: True)
    n = vc.pick('earlier choices', 3)
    loc = ids(vc, 'q', 2)
    for i in range(n + 1):
        kind = vc.pick(f'gate {i}', 4)
        if kind == 0:
            cmd = Command(eng, ops.H, (qs(eng, loc[:1]),))
        elif kind == 1:
            cmd = Command(eng, ops.Rz(vc.angle(f'angle {i}')), (qs(eng, loc[:1]),))
        else:
            p = loc if kind == 2 else loc[::-1]
            cmd = Command(eng, ops.X, (qs(eng, p[1:]),), controls=qs(eng, p[:1]))
        offered = rules_for(vc, cmd, f'step {i}') if i == n else rules_for_plain(cmd)
        got = trapped_ion_decomposer.chooser_Ry_reducer(cmd, list(offered))
        vc.ensure('one of the offered decompositions is chosen', any(got is d for d in offered))


@functools.lru_cache(None)
def library_rules(name):
    return tuple(DecompositionRuleSet(modules=[{'HGate': h2rx, 'XGate': cnot2rxx, 'Rz': rz2rx}[name]]).decompositions[name])


def rules_for_plain(cmd):
    return [d for d in library_rules(type(cmd.gate).__name__) if d.check(cmd)]


@contract(P, CHOOSER, samples=40)
def chooser_other_gates(vc):
    """For every other command, too, one of the decompositions offered by the library is chosen."""
    import projectq.setups.decompositions as dec
    eng = W.make_eng([], lambda c: True)
    rules = DecompositionRuleSet(modules=[dec]).decompositions
    names = sorted(rules)
    name = names[vc.pick('gate class', len(names))]
    offered = list(rules[name])
    k = vc.pick('order', len(offered))
    offered = offered[k:] + offered[:k]
    c = 1 + vc.pick('controls', 2)
    p = ids(vc, 'q', 3)
    cmd = Command(eng, vc.choose('gate', [ops.T, ops.H, ops.Rz(1.0)]), (qs(eng, p[:1]),), controls=qs(eng, p[1:1 + c]))
    got = trapped_ion_decomposer.chooser_Ry_reducer(cmd, list(offered))
    vc.ensure('one of the offered decompositions is chosen', any(got is d for d in offered))
