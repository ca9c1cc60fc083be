"""S05: the classical simulator computes the exact reversible function."""
import itertools

import z3

from pv import bits as Bt
from pv import world as W
from pv.bits import BInt, bits, conj, ite
from pv.core import SBool, bounded, contract

import projectq.ops as ops
from projectq import MainEngine
from projectq.backends import ClassicalSimulator
from projectq.cengines import BasicMapperEngine
from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN, SubConstant
from projectq.meta import LogicalQubitIDTag
from projectq.types import WeakQubitRef

P = 'S05'
S = 'projectq.backends._sim._classical_simulator.ClassicalSimulator.'
MOST = 58
IDS = [5, 2, 9, 4, 7, 1, 12, 3]
NOTE = ('the state is reached through the private attributes _state and _bit_positions (an arbitrary state word of up to 58 bits, arbitrary distinct '
        'positions); if they change, the bounded runs decide',
        'qubits not named by a command appear as further entries of the position table (two of them, arbitrary)')


class Mapper(BasicMapperEngine):
    def is_available(self, cmd):
        return True

    def receive(self, command_list):
        self.send(command_list)


def setup(vc, k, mapped=False):
    """A simulator in an arbitrary state with k tracked qubits; returns it, their references and their bits."""
    mapper = Mapper() if mapped else None
    sim = ClassicalSimulator()
    eng = MainEngine(backend=sim, engine_list=[mapper] if mapper else [])
    vc.ghost['eng'] = eng
    ids = IDS[:k]
    logical = [100 + i for i in ids] if mapped else ids
    if mapped:
        mapper.current_mapping = dict(zip(logical, ids))
    refs = [WeakQubitRef(eng, i) for i in logical]
    if vc.symbolic:
        vc.priv(sim, '_state')
        vc.priv(sim, '_bit_positions')
        n = bits(vc, 'qubits', 6)
        vc.assume(conj(n >= k, n <= MOST))
        pos = [bits(vc, f'position{i}', 6) for i in range(k)]
        for i, p in enumerate(pos):
            vc.assume(p < n)
            for q in pos[:i]:
                vc.assume(p != q)
        word = bits(vc, 'state', MOST)
        vc.assume(SBool(z3.ULT(word.e, z3.BitVecVal(1, 64) << n.e)))
        sim._state = word
        sim._bit_positions = dict(zip(ids, pos))
        values = [(word >> p) & 1 for p in pos]
        vc.ghost['n'] = n
        return eng, sim, refs, values
    fill = vc.pick('others', MOST - k)
    order = list(range(k + fill))
    where = [order.pop(vc.pick('place', len(order))) for _ in range(k)]
    allids = {p: ids[i] for i, p in enumerate(where)}
    extra = 500
    for p in range(k + fill):
        if p not in allids:
            allids[p] = extra
            extra += 1
        sim.receive([W.mkcmd(ops.Allocate, [[allids[p]]], eng=eng)])
    values = []
    for p in range(k + fill):
        v = vc.pick('bit', 2)
        if v:
            sim.receive([W.mkcmd(ops.X, [[allids[p]]], eng=eng)])
        if allids[p] >= 500:
            vc.ghost.setdefault('rest', {})[allids[p]] = v
    for q in refs:
        values.append(sim.read_bit(q))
    return eng, sim, refs, values


def observe(vc, name, sim, refs, want, skip=()):
    """The named qubits hold the wanted bits; all others are unchanged."""
    for i, (q, w) in enumerate(zip(refs, want)):
        if i not in skip:
            vc.ensure(f'{name}: qubit {i}', sim.read_bit(q) == w)
    eng = refs[0].engine
    for q, v in vc.ghost.get('rest', {}).items():
        if eng.mapper is None:
            vc.ensure(f'{name}: the other qubits', sim.read_bit(WeakQubitRef(eng, q)) == v)
    if vc.symbolic:
        with vc.internal():
            n = vc.ghost['n']
            st = BInt.of(sim._state)
            vc.ensure('only live qubits are stored', SBool(z3.ULT(st.e, z3.BitVecVal(1, 64) << n.e)))


def on(vc, controls, ctl):
    """All controls have the wanted value."""
    return conj(*[v == w for v, w in zip(controls, ctl)]) if controls else True


def phys(eng, refs):
    m = eng.mapper
    return [q.id if m is None else m.current_mapping[q.id] for q in refs]


@contract(P, [S + f for f in ('_handle', 'receive', '_mask', '_read_mapped_bit', '_write_mapped_bit', 'read_bit')], samples=100, assumptions=NOTE,
          size_bound='at most 3 controls')
def multi_controlled_not(vc):
    """X flips its target exactly if every control has its control value; nothing else changes."""
    c = vc.pick('controls', 4)
    eng, sim, q, v = setup(vc, c + 2)
    ctl = [vc.pick('control value', 2) for _ in range(c)]
    ids = phys(eng, q)
    how = vc.choose('gate', ['X', 'class'])
    gate = ops.X if how == 'X' else ops.XGate()
    cmd = W.mkcmd(gate, [[ids[0]]], ids[1:1 + c], ''.join(map(str, ctl)) if c else None, eng=eng)
    if vc.flag('two at once'):
        sim.receive([cmd, cmd])
        observe(vc, 'twice is the identity', sim, q, v)
        return
    sim.receive([cmd])
    flip = on(vc, v[1:1 + c], ctl)
    observe(vc, 'the target is flipped where the controls match', sim, q, [ite(flip, 1 - v[0], v[0])] + v[1:])


@contract(P, [S + f for f in ('read_register', 'write_register', 'write_bit', 'read_bit', '_convert_logical_to_mapped_qubit', '_read_mapped_register',
                              '_write_mapped_register')], samples=150, assumptions=NOTE, size_bound='registers of at most 4 qubits')
def registers(vc):
    """Reading and writing bits and registers, least significant first, with and without a mapper; refusals change nothing."""
    k = 1 + vc.pick('length', 4)
    eng, sim, q, v = setup(vc, k + 1, vc.flag('mapper'))
    op = vc.choose('operation', ['read', 'write', 'bit', 'big', 'negative', 'unknown'])
    reg = q[:k]
    total = sum((x << i for i, x in enumerate(v[:k])), 0)
    if op == 'read':
        vc.ensure('the register value is its bits, least significant first', sim.read_register(reg) == total)
        observe(vc, 'reading changes nothing', sim, q, v)
    elif op == 'write':
        x = bits(vc, 'value', k)
        sim.write_register(reg, x)
        observe(vc, 'the register holds the value', sim, q, [(x >> i) & 1 for i in range(k)] + v[k:])
        vc.ensure('and is read back', sim.read_register(reg) == x)
    elif op == 'bit':
        b = vc.choose('value', [0, 1, True, False, 2])
        sim.write_bit(q[0], b)
        observe(vc, 'the bit is written', sim, q, [int(bool(b))] + v[1:])
    elif op == 'unknown':
        alien = WeakQubitRef(eng, 999)
        f = vc.choose('call', [lambda: sim.read_bit(alien), lambda: sim.write_bit(alien, 1), lambda: sim.read_register(reg + [alien]),
                               lambda: sim.write_register([alien], 1)])
        vc.raises('unknown qubits are refused', Exception, f)
        observe(vc, 'nothing changes', sim, q, v)
    else:
        x = bits(vc, 'value', 20)
        x = x + (1 << k) if op == 'big' else -1 - x
        vc.raises('a value that does not fit is refused', ValueError, lambda: sim.write_register(reg, x))
        observe(vc, 'nothing changes', sim, q, v)


def word(v):
    return sum((x << i for i, x in enumerate(v)), 0)


@contract(P, [S + '_handle', S + '_read_mapped_register', S + '_write_mapped_register', S + '_mask'], samples=150, assumptions=NOTE,
          size_bound='one register of at most 3 qubits; at most 2 controls')
def arithmetic_any(vc):
    """An arbitrary function of the register values is applied modulo the register sizes, if the controls match."""
    sizes = vc.choose('registers', [(1,), (2,), (3,)])
    c = vc.pick('controls', 3) if sum(sizes) < 3 else vc.pick('controls', 2)
    any_body(vc, sizes, c)


@contract(P, [S + '_handle', S + '_read_mapped_register', S + '_write_mapped_register', S + '_mask'], samples=150, assumptions=NOTE,
          size_bound='two registers, three qubits in total; at most 1 control')
def arithmetic_any_two(vc):
    """The same for a function of two registers."""
    any_body(vc, vc.choose('registers', [(1, 1), (2, 1), (1, 2)]), vc.pick('controls', 2))


@contract(P, [S + '_handle', S + '_read_mapped_register', S + '_write_mapped_register', S + '_mask'], samples=150, assumptions=NOTE, budget=90,
          size_bound='two registers of two qubits, or three of one, or one of four; no control')
def arithmetic_any_large(vc):
    """The same for larger register lists."""
    any_body(vc, vc.choose('registers', [(2, 2), (1, 1, 1), (4,)]), 0)


def any_body(vc, sizes, c):
    eng, sim, q, v = setup(vc, sum(sizes) + c + 1)
    ids, regs, vals, at = phys(eng, q), [], [], 0
    for s in sizes:
        regs.append(ids[at:at + s])
        vals.append(word(v[at:at + s]))
        at += s
    ctl = [vc.pick('control value', 2) for _ in range(c)]
    fns = [z3.Function(f'f{i}', *[z3.BitVecSort(64)] * (len(sizes) + 1)) for i in range(len(sizes))]
    salt = [vc.pick('salt', 1 << 20) for _ in sizes] if not vc.symbolic else None

    def f(args):
        if vc.symbolic:
            out = []
            for fn in fns:
                e = fn(*[BInt.of(a).e for a in args])
                vc.assume(SBool(z3.And(e >= -(1 << 60), e < 1 << 60)))
                out.append(BInt(e, 61))
            return out
        return [(salt[i] * (sum(a << 5 * j for j, a in enumerate(args)) + 7) % 100003) - 50000 for i in range(len(sizes))]

    class Gate(ops.BasicMathGate):
        def __init__(self):
            super().__init__(None)

        def get_math_function(self, qubits):
            return f
    sim.receive([W.mkcmd(Gate(), regs, ids[at:at + c], ''.join(map(str, ctl)) if c else None, eng=eng)])
    flip = on(vc, v[at:at + c], ctl)
    out = f(list(vals))
    want = []
    for s, o in zip(sizes, out):
        want += [(o >> i) & 1 for i in range(s)]
    observe(vc, 'the registers hold the results', sim, q, [ite(flip, w, x) for w, x in zip(want, v)] + v[at:])


@contract(P, [S + '_handle', 'projectq.libs.math._gates.AddConstant.__init__', 'projectq.libs.math._gates.AddConstantModN.__init__',
              'projectq.libs.math._gates.MultiplyByConstantModN.__init__'], samples=150, assumptions=NOTE,
          budget=90, size_bound='registers of at most 3 qubits, constants of 20 bits')
def arithmetic_library(vc):
    """The library's constant gates, for every constant."""
    library_body(vc, 1 + vc.pick('bits', 3), ['add', 'sub'])


@contract(P, [S + '_handle', 'projectq.libs.math._gates.AddConstantModN.__init__'], samples=150, assumptions=NOTE,
          budget=110, size_bound='registers of at most 3 qubits')
def arithmetic_modular(vc):
    """The modular adder, for every modulus and constant."""
    library_body(vc, 1 + vc.pick('bits', 3), ['addmod'])


@contract(P, [S + '_handle', 'projectq.libs.math._gates.MultiplyByConstantModN.__init__'], samples=150, assumptions=NOTE,
          budget=110, size_bound='registers of at most 3 qubits')
def arithmetic_multiply(vc):
    """The modular multiplier, for every modulus and factor."""
    library_body(vc, 1 + vc.pick('bits', 3), ['mulmod'])


def library_body(vc, k, kinds):
    eng, sim, q, v = setup(vc, k + 2)
    ids, x = phys(eng, q), word(v[:k])
    kind = vc.choose('gate', kinds)
    if kind in ('add', 'sub'):
        a = bits(vc, 'constant', 20)
        gate, want = (AddConstant(a), x + a) if kind == 'add' else (SubConstant(a), x - a)
    else:
        n = vc.choose('modulus', list(range(2, (1 << k) + 1))) if k > 1 else 2
        a = bits(vc, 'constant', k, n)
        if kind == 'mulmod' and n % 2 == 0:
            a = vc.choose('factor', [b for b in range(1, n) if __import__('math').gcd(b, n) == 1])
        elif kind == 'mulmod':
            a = vc.choose('factor', [1, 2, n - 1] if n > 3 else [1, 2])
        if kind == 'addmod':
            gate, want = AddConstantModN(a, n), (x + a) % n
        else:
            gate, want = MultiplyByConstantModN(a, n), (x * a) % n
    ctl = vc.flag('control')
    sim.receive([W.mkcmd(gate, [ids[:k]], [ids[k]] if ctl else [], eng=eng)])
    flip = v[k] == 1 if ctl else True
    observe(vc, 'the register holds the result', sim, q, [ite(flip, (want >> i) & 1, v[i]) for i in range(k)] + v[k:])


@contract(P, [S + '_handle'], samples=100, assumptions=NOTE, size_bound='at most 3 measured qubits')
def measure(vc):
    """Measurement registers the stored bits, for the logical qubit if a tag names one, and changes nothing."""
    k = 1 + vc.pick('measured', 3)
    eng, sim, q, v = setup(vc, k + 1)
    ids = phys(eng, q)
    tags, names = [], [x.id for x in q[:k]]
    if k == 1 and vc.flag('tag'):
        names = [vc.int('logical', 0, 400)]
        tags = [LogicalQubitIDTag(names[0])]
        if vc.flag('other tag'):
            tags.insert(vc.pick('place', 2), object())
    seen = []
    eng.set_measurement_result = lambda qubit, value: seen.append((qubit.id, value))
    sim.receive([W.mkcmd(ops.Measure, [ids[:k]] if vc.flag('register') else [[i] for i in ids[:k]], tags=tags, eng=eng)])
    vc.ensure('one result per qubit', len(seen) == k)
    for i in range(k):
        vc.ensure('registered for this qubit', seen[i][0] == names[i])
        vc.ensure('the stored bit', seen[i][1] == v[i])
    observe(vc, 'nothing changes', sim, q, v)


@contract(P, [S + '_handle'], samples=100, assumptions=NOTE, size_bound='3 tracked qubits besides the removed one')
def deallocate(vc):
    """Exactly the given qubit is removed, wherever its bit is; every other qubit keeps its value."""
    eng, sim, q, v = setup(vc, 4)
    i = vc.pick('which', 4)
    ids = phys(eng, q)
    sim.receive([W.mkcmd(ops.Deallocate, [[ids[i]]], eng=eng)])
    if vc.symbolic:
        vc.ghost['n'] = vc.ghost['n'] - 1
    rest = [x for j, x in enumerate(q) if j != i]
    observe(vc, 'the others keep their values', sim, rest, [x for j, x in enumerate(v) if j != i])
    vc.raises('the qubit is gone', Exception, lambda: sim.read_bit(q[i]))
    if vc.symbolic:
        with vc.internal():
            pos = list(sim._bit_positions.values())
            for j, p in enumerate(pos):
                vc.ensure('positions stay in range', conj(p >= 0, p < vc.ghost['n']))
                for r in pos[:j]:
                    vc.ensure('positions stay distinct', p != r)


@contract(P, [S + '_handle'], samples=100, assumptions=NOTE, size_bound='up to 5 live qubits')
def allocate(vc):
    """A new qubit is zero; the others keep their values."""
    k = vc.pick('live', 6)
    if not k:
        eng, sim = MainEngine(backend=ClassicalSimulator(), engine_list=[]), None
        sim = eng.backend
        sim.receive([W.mkcmd(ops.Allocate, [[70]], eng=eng)])
        vc.ensure('it is zero', sim.read_bit(WeakQubitRef(eng, 70)) == 0)
        return
    eng, sim, q, v = setup(vc, k)
    if vc.symbolic:
        vc.assume(vc.ghost['n'] == k)
    sim.receive([W.mkcmd(ops.Allocate, [[70]], eng=eng)])
    if vc.symbolic:
        vc.ghost['n'] = vc.ghost['n'] + 1
    observe(vc, 'the new qubit is zero and the others keep their values', sim, q + [WeakQubitRef(eng, 70)] if eng.mapper is None else q, v + [0])
    if vc.symbolic:
        with vc.internal():
            pos = list(sim._bit_positions.values())
            for j, p in enumerate(pos):
                vc.ensure('positions stay in range', conj(BInt.of(p) >= 0, BInt.of(p) < k + 1))
                for r in pos[:j]:
                    vc.ensure('positions stay distinct', BInt.of(p) != r)


@contract(P, [S + 'is_available', S + '_handle', S + 'receive'], samples=60)
def availability(vc):
    """What is declared available is simulated, everything else is refused; commands are passed on unless the simulator is last."""
    last = vc.flag('last')
    sim = ClassicalSimulator()
    eng, got = W.make_rec(), None
    from projectq.cengines import DummyEngine
    back = DummyEngine(save_commands=True)
    main = MainEngine(backend=sim if last else back, engine_list=[] if last else [sim])
    sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=main) for i in range(3)])
    gate, ok = vc.choose('gate', [(ops.X, True), (ops.NOT, True), (AddConstant(1), True), (ops.H, False), (ops.Z, False), (ops.Rx(3.0), False),
                                  (ops.Swap, False), (ops.Measure, True), (ops.QFT, False), (ops.Y, False)])
    regs = [[0], [1]] if gate is ops.Swap else [[0]]
    cmd = W.mkcmd(gate, regs, [2] if gate is not ops.Measure and vc.flag('control') else [], eng=main)
    vc.ensure('declared available exactly if it can be simulated', bool(sim.is_available(cmd)) == ok)
    if not ok:
        vc.raises('others are refused', Exception, lambda: sim.receive([cmd]))
        return
    sim.receive([cmd])
    if not last:
        vc.ensure('passed on once', back.received_commands[-1] is cmd and [c is cmd for c in back.received_commands].count(True) == 1)
    del eng, got


@bounded(P, [S + '_handle', S + 'read_register', S + 'write_register'], 'random histories of up to 60 operations on up to 80 live qubits, with library gates and '
         'negative controls', samples=150, thorough=2000)
def histories(vc):
    """Histories agree with a table of bits."""
    eng = MainEngine(backend=ClassicalSimulator(), engine_list=[])
    sim, val, nxt = eng.backend, {}, 0
    for _ in range(vc.pick('qubits at first', 70)):
        sim.receive([W.mkcmd(ops.Allocate, [[nxt]], eng=eng)])
        val[nxt] = 0
        nxt += 1
    for _ in range(1 + vc.pick('length', 60)):
        kind = vc.choose('op', ['alloc', 'free', 'x', 'x', 'x', 'math', 'write', 'read'])
        if kind == 'alloc' or len(val) < 4:
            nxt += 1 + vc.pick('gap', 3)
            sim.receive([W.mkcmd(ops.Allocate, [[nxt]], eng=eng)])
            val[nxt] = 0
            continue
        live = list(val)
        some = [live.pop(vc.pick('qubit', len(live))) for _ in range(min(len(live), 1 + vc.pick('number', 6)))]
        if kind == 'free':
            sim.receive([W.mkcmd(ops.Deallocate, [[some[0]]], eng=eng)])
            val.pop(some[0])
        elif kind == 'x':
            ctl = [vc.pick('value', 2) for _ in some[1:]]
            sim.receive([W.mkcmd(ops.X, [[some[0]]], some[1:], ''.join(map(str, ctl)) if ctl else None, eng=eng)])
            if all(val[q] == b for q, b in zip(some[1:], ctl)):
                val[some[0]] ^= 1
        elif kind == 'math':
            c = some[:1] if len(some) > 1 and vc.flag('control') else []
            reg = some[len(c):]
            a = vc.pick('constant', 1 << 12)
            gate = vc.choose('gate', ['add', 'mul'])
            x = sum(val[q] << i for i, q in enumerate(reg))
            if gate == 'add':
                g, y = AddConstant(a - 2048), x + a - 2048
            else:
                n = 1 << len(reg)
                g, y = MultiplyByConstantModN((2 * a + 1) % n if n > 2 else 1, n), x * (2 * a + 1) % n
            sim.receive([W.mkcmd(g, [reg], c, eng=eng)])
            if all(val[q] for q in c):
                val.update({q: y >> i & 1 for i, q in enumerate(reg)})
        elif kind == 'write':
            x = vc.pick('value', 1 << len(some))
            sim.write_register([WeakQubitRef(eng, q) for q in some], x)
            val.update({q: x >> i & 1 for i, q in enumerate(some)})
        else:
            vc.ensure('the register value', sim.read_register([WeakQubitRef(eng, q) for q in some]) == sum(val[q] << i for i, q in enumerate(some)))
        vc.ensure('every bit', all(sim.read_bit(WeakQubitRef(eng, q)) == b for q, b in val.items()), f'{kind} {val}')


@bounded(P, [S + f for f in ('_handle', 'read_register', 'write_register', '_read_mapped_register', '_write_mapped_register', '_mask')],
         'random histories of up to 15 operations on 60 to 200 live qubits, registers of up to 150 qubits, up to 40 controls', samples=150, thorough=2000)
def histories_wide(vc):
    """Registers and states of more bits than a machine word."""
    eng = MainEngine(backend=ClassicalSimulator(), engine_list=[])
    sim, total = eng.backend, 60 + vc.pick('qubits', 141)
    vals = {i: 0 for i in range(total)}
    sim.receive([W.mkcmd(ops.Allocate, [[i]], eng=eng) for i in range(total)])

    def wide(k):
        return sum(vc.pick('word', 1 << 20) << 20 * i for i in range(k // 20 + 1)) % (1 << k)

    def some(k):
        live = list(vals)
        for i in range(k):
            j = i + vc.pick('which', len(live) - i)
            live[i], live[j] = live[j], live[i]
        return live[:k]

    def put(reg, x):
        vals.update({q: x >> i & 1 for i, q in enumerate(reg)})

    def get(reg):
        return sum(vals[q] << i for i, q in enumerate(reg))

    class Gate(ops.BasicMathGate):
        def __init__(self, f):
            super().__init__(f)
    reg = some(total)
    x = wide(total)
    sim.write_register([WeakQubitRef(eng, q) for q in reg], x)
    put(reg, x)
    for _ in range(1 + vc.pick('length', 15)):
        kind = vc.choose('op', ['x', 'add', 'modular', 'math', 'many', 'write', 'read', 'measure', 'free'])
        k = 1 + vc.pick('size', min(150, len(vals) - 45))
        qs = some(k + vc.choose('number of controls', [0, 0, 1, 40]))
        reg, ctl = qs[:k], qs[k:]
        on = [vals[q] for q in ctl]
        if vc.flag('a control fails') and on:
            i = vc.pick('control', len(on))
            on[i] ^= 1
        go = all(vals[q] == b for q, b in zip(ctl, on))
        state = ''.join(map(str, on)) if ctl else None
        refs = [WeakQubitRef(eng, q) for q in reg]
        if kind == 'x':
            sim.receive([W.mkcmd(ops.X, [reg[:1]], ctl, state, eng=eng)])
            vals[reg[0]] ^= go
        elif kind in ('add', 'modular'):
            c, x = wide(k), get(reg)
            if kind == 'modular':
                n = c + 1 + wide(k) % ((1 << k) - c)
                g, y = AddConstantModN(c, n), (x + c) % n
            else:
                g, y = AddConstant(c), x + c
            sim.receive([W.mkcmd(g, [reg], ctl, state, eng=eng)])
            if go:
                put(reg, y)
        elif kind == 'math':
            a, b = reg[:k // 2], reg[k // 2:]
            if not a:
                continue
            sim.receive([W.mkcmd(Gate(lambda u, v: (v, u * v - u)), [a, b], ctl, state, eng=eng)])
            if go:
                u, v = get(a), get(b)
                put(a, v)
                put(b, u * v - u)
        elif kind == 'many':
            m = min(k, 3 + vc.pick('registers', 8))
            at = [k * i // m for i in range(m + 1)]
            parts = [reg[a:b] for a, b in zip(at, at[1:])]
            sim.receive([W.mkcmd(Gate(lambda *a: [2 * x + i for i, x in enumerate(a[1:] + a[:1])]), parts, ctl, state, eng=eng)])
            if go:
                a = [get(r) for r in parts]
                for i, (r, x) in enumerate(zip(parts, a[1:] + a[:1])):
                    put(r, 2 * x + i)
        elif kind == 'write':
            x = wide(k)
            sim.write_register(refs, x)
            put(reg, x)
            vc.raises('too large a value', ValueError, lambda: sim.write_register(refs, 1 << k))
        elif kind == 'measure':
            sim.receive([W.mkcmd(ops.Measure, [reg], eng=eng)])
            vc.ensure('the measured bits', all(eng.get_measurement_result(q) == vals[q.id] for q in refs))
        elif kind == 'free' and len(vals) > 55:
            sim.receive([W.mkcmd(ops.Deallocate, [reg[:1]], eng=eng)])
            vals.pop(reg[0])
        reg = list(vals)
        vc.ensure('every bit', sim.read_register([WeakQubitRef(eng, q) for q in reg]) == get(reg), kind)
        vc.ensure('single bits', all(sim.read_bit(WeakQubitRef(eng, q)) == b for q, b in vals.items()), kind)


@bounded(P, [S + '_handle'], 'random circuits of up to 12 gates on up to 6 qubits through a main engine, with a logical-to-physical mapper or none',
         samples=60, thorough=600)
def programs(vc):
    """Programs written by a user: registers, controls, measurement."""
    from projectq.meta import Control
    mapper = None
    if vc.flag('mapper'):
        from projectq.cengines import SwapAndCNOTFlipper  # noqa: F401  (kept simple: a permuting manual mapper)
        from projectq.cengines import ManualMapper
        n = 6
        perm = vc.choose('mapping', list(itertools.permutations(range(n)))[::37])
        mapper = ManualMapper(lambda i: perm[i])
    eng = MainEngine(backend=ClassicalSimulator(), engine_list=[mapper] if mapper else [])
    q = eng.allocate_qureg(6)
    val = [0] * 6
    for _ in range(vc.pick('length', 13)):
        order = list(range(6))
        some = [order.pop(vc.pick('qubit', len(order))) for _ in range(1 + vc.pick('number', 4))]
        if vc.flag('arithmetic'):
            reg, c = some[:2], some[2:]
            a = vc.pick('constant', 4)
            with Control(eng, [q[i] for i in c]):
                AddConstant(a) | [q[i] for i in reg]
            if all(val[i] for i in c):
                x = sum(val[i] << k for k, i in enumerate(reg)) + a
                for k, i in enumerate(reg):
                    val[i] = x >> k & 1
        else:
            with Control(eng, [q[i] for i in some[1:]]):
                ops.X | q[some[0]]
            if all(val[i] for i in some[1:]):
                val[some[0]] ^= 1
    eng.flush()
    vc.ensure('read through the mapper', [eng.backend.read_bit(x) for x in q] == val)
    vc.ensure('and as a register', eng.backend.read_register(q) == sum(b << i for i, b in enumerate(val)))
    ops.All(ops.Measure) | q
    eng.flush()
    vc.ensure('measured', [int(x) for x in q] == val)
