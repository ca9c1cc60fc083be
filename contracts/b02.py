"""B02: hardware backends submit exactly the circuit they accepted."""
import functools

from pv import devices as dv
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.backends._exceptions import InvalidCommandError, MidCircuitMeasurementError
from projectq.meta import LogicalQubitIDTag
from projectq.ops import Command, FlushGate, get_inverse

from .c01 import Opaque, Tag, ids, qs

P = 'B02'
BK = 'projectq.backends.'
MODS = {'IBM': '_ibm._ibm.IBMBackend', 'AQT': '_aqt._aqt.AQTBackend', 'IonQ': '_ionq._ionq.IonQBackend',
        'Braket Aspen-8': '_awsbraket._awsbraket.AWSBraketBackend', 'Braket IonQ Device': '_awsbraket._awsbraket.AWSBraketBackend',
        'Braket SV1': '_awsbraket._awsbraket.AWSBraketBackend', 'Azure IonQ': '_azure._azure_quantum.AzureQuantumBackend',
        'Azure Quantinuum': '_azure._azure_quantum.AzureQuantumBackend'}


def functions(which, *names):
    out = [BK + MODS[which] + '.' + n for n in names]
    if which.startswith('Azure'):
        out += [BK + '_azure._utils.' + n for n in
                (['is_available_ionq', 'to_json'] if 'IonQ' in which else ['is_available_quantinuum', 'to_qasm'])]
    return out


# --- gates --------------------------------------------------------------------------------------------------------------
ROT = {'Rx': (ops.Rx, 1), 'Ry': (ops.Ry, 1), 'Rz': (ops.Rz, 1), 'R': (ops.R, 1), 'Ph': (ops.Ph, 1), 'Rxx': (ops.Rxx, 2),
       'Ryy': (ops.Ryy, 2), 'Rzz': (ops.Rzz, 2)}
FIX = {'X': (ops.X, 1), 'Y': (ops.Y, 1), 'Z': (ops.Z, 1), 'H': (ops.H, 1), 'S': (ops.S, 1), 'T': (ops.T, 1),
       'SqrtX': (ops.SqrtX, 1), 'Swap': (ops.Swap, 2), 'SqrtSwap': (ops.SqrtSwap, 2)}
GATES = {**{k: (g, n) for k, (g, n) in ROT.items()}, **{k: (lambda t, g=g: g, n) for k, (g, n) in FIX.items()},
         **{k + 'dag': (lambda t, g=FIX[k][0]: get_inverse(g), FIX[k][1]) for k in ('S', 'T', 'SqrtX', 'SqrtSwap')}}


def inset(x, xs):
    return any(bool(x == y) for y in xs)


def place(locs, x):
    for k, y in enumerate(locs):
        if bool(x == y):
            return k
    return None


def instr_operator(vc, instr, locs):
    """The operator of a submitted instruction on the given locations (None when it uses another one)."""
    B = W.nb(vc)
    t, c = [place(locs, x) for x in instr.targets], [place(locs, x) for x in instr.controls]
    if None in t or None in c or len(set(t + c)) != len(t + c):
        return None
    return columns(B, len(locs), lambda v: W.apply_matrix(B, v, instr.matrix, t, [(p, 1) for p in c]))


def columns(B, n, f):
    cs = [f(W.basis(B, n, k)) for k in range(1 << n)]
    return [[c[r] for c in cs] for r in range(1 << n)]


def cmd_operator(vc, cmd, locs):
    """The operator of a command given by its operands."""
    g = cmd.gate
    regs = [[place(locs, q.id) for q in r] for r in cmd.qubits]
    if isinstance(g, ops.ControlledGate):
        flat = [p for r in regs for p in r]
        ctrl, regs, g = flat[:g._n], [flat[g._n:]], g._gate
    else:
        ctrl = []
    st = cmd.control_state if cmd.control_qubits else ''
    ref = W.mkcmd(g, regs if len(regs[0]) == 1 or len(regs) > 1 else [[p] for p in regs[0]],
                  [place(locs, q.id) for q in cmd.control_qubits] + ctrl, (st + '1' * len(ctrl)) or None)
    return W.unitary(W.nb(vc), [ref], list(range(len(locs))))


def placed(vc, n, nc):
    """Arbitrary different locations of n operands and nc controls; commands keep their controls sorted (C01)."""
    locs = ids(vc, 'loc', n + nc, 10)
    if not vc.symbolic:
        return locs[:n] + sorted(locs[n:])
    for a, b in zip(locs[n:], locs[n + 1:]):
        vc.assume(a < b)
    return locs


class Sent(Exception):
    """The fake device hangs up after the upload."""


def hang_up(dev):
    """Only the upload matters: the device gives no result."""
    def result(*a):
        raise Sent()
    dev.result = result
    dev.probs = dev.fractions = dev.stats = result


def name_of(cmd):
    return f'{cmd.gate.__class__.__name__} with {len(cmd.control_qubits)} controls'


def allocate(dev, locs):
    return [Command(dev.eng, ops.Allocate, (qs(dev.eng, [x]),), tags=[LogicalQubitIDTag(x)]) for x in locs]


def flush(dev):
    return Command(dev.eng, FlushGate(), ([W.qid(-1)],))


def refused(dev, cmds):
    """Whether the backend refuses to receive the commands."""
    try:
        with dv.patched(*([(Command, '__str__', lambda self: 'command')] if dev.vc.symbolic else [])):
            dev.backend.receive(cmds)
    except (InvalidCommandError, MidCircuitMeasurementError) as err:
        return err
    return None


def translate_on(vc, which):
    vc.ghost['exact round'] = 11
    dev = dv.device(vc, which)
    try:
        name = vc.choose('gate', list(GATES))
        make, n = GATES[name]
        nc = vc.choose('controls', [0, 1, 2, 3])
        state = [vc.flag(f'c{k}') for k in range(nc)]
        one_reg = n == 2 and name[0] == 'R' and nc == 0 and vc.flag('one register')
        locs = placed(vc, n, nc)
        eng = dev.eng
        g = make(vc.angle('t'))
        tq = qs(eng, locs[:n])
        cmd = Command(eng, g, (tq,) if one_reg else tuple([q] for q in tq), controls=qs(eng, locs[n:]),
                      control_state=''.join('1' if s else '0' for s in state), tags=[Tag(1)])
        want = cmd_operator(vc, cmd, locs)
        check_one(vc, dev, cmd, locs, want)
    finally:
        dev.close()


def check_one(vc, dev, cmd, locs, want):
    available = bool(dev.backend.is_available(cmd))
    hang_up(dev)
    dev.mapper.current_mapping = {x: x for x in locs}
    with dev.online():
        dev.backend.receive(allocate(dev, locs))
        err = refused(dev, [cmd])
        if not available:
            vc.ensure('a command that is not available is refused', err is not None, name_of(cmd))
        else:
            vc.ensure('an available command is accepted', err is None, f'{name_of(cmd)} {err!r}')
        try:
            dev.backend.receive([flush(dev)])
        except Sent:
            pass
        if not available:
            vc.ensure('nothing is submitted for a refused command', all(not s.instrs for s in dev.subs))
            return
    vc.ensure('one circuit is submitted', len(dev.subs) == 1)
    s = dev.subs[0]
    vc.ensure('one instruction', len(s.instrs) == 1 and s.instrs[0].kind == 'gate', str(s.instrs))
    got = instr_operator(vc, s.instrs[0], locs)
    vc.ensure('on the qubits of the command', got is not None, str(s.instrs))
    vc.mat_eq('the instruction denotes the command', got, want, phase=True)
    if s.nq is not None and not dev.name.startswith('Braket'):
        for x in locs:
            vc.ensure('the register has room for every location', s.nq > x)
    vc.ensure('the number of runs', s.shots == dev.num_runs)


# --- further gates ------------------------------------------------------------------------------------------------------
def many_on(vc, which):
    """More controls than any table of named instructions: compared operand by operand."""
    dev = dv.device(vc, which)
    try:
        name = vc.choose('gate', ['X', 'Z', 'H', 'Rx'])
        nc = vc.choose('controls', [4, 5, 6, 7, 8, 9])
        zero = vc.pick('negative control', nc + 1)
        locs = placed(vc, 1, nc)
        cmd = Command(dev.eng, GATES[name][0](vc.angle('t')), (qs(dev.eng, locs[:1]),), controls=qs(dev.eng, locs[1:]),
                      control_state=''.join('0' if k == zero else '1' for k in range(nc)))
        available = bool(dev.backend.is_available(cmd))
        hang_up(dev)
        dev.mapper.current_mapping = {x: x for x in locs}
        with dev.online():
            dev.backend.receive(allocate(dev, locs))
            err = refused(dev, [cmd])
            vc.ensure('refused exactly when not available', (err is None) == available, f'{name_of(cmd)} {err!r}')
            try:
                dev.backend.receive([flush(dev)])
            except Sent:
                pass
        if not available:
            vc.ensure('nothing is submitted for a refused command', all(not s.instrs for s in dev.subs))
            return
        i, = dev.subs[0].instrs
        vc.ensure('no negative control is available', zero == nc)
        vc.ensure('the target', len(i.targets) == 1 and i.targets[0] == locs[0])
        vc.ensure('the controls', len(i.controls) == nc and all(inset(x, i.controls) for x in locs[1:]))
        vc.mat_eq('the operator', i.matrix, W.ref_matrix(W.nb(vc), 'XGate') if name == 'X' else W.PAULI['Z'](W.nb(vc)))
    finally:
        dev.close()


def wrapped_on(vc, which):
    """ControlledGate objects, whose controls are the first operands, possibly under further controls."""
    dev = dv.device(vc, which)
    try:
        inner = vc.choose('gate', ['X', 'Z', 'H', 'S', 'Rz', 'Swap'])
        make, n = GATES[inner]
        nw, nc = vc.choose('wrapped', [1, 2]), vc.choose('controls', [0, 1])
        locs = ids(vc, 'loc', n + nw + nc, 10)
        tq = qs(dev.eng, locs[:n + nw])
        shape = vc.choose('shape', ['registers', 'one register', 'two registers'])
        regs = {'registers': [[q] for q in tq], 'one register': [tq], 'two registers': [tq[:nw], tq[nw:]]}[shape]
        cmd = Command(dev.eng, ops.ControlledGate(make(vc.angle('t')), nw), tuple(regs), controls=qs(dev.eng, locs[n + nw:]),
                      control_state=('0' if vc.flag('negative') else '1') * nc)
        check_one(vc, dev, cmd, locs, cmd_operator(vc, cmd, locs))
    finally:
        dev.close()


def foreign_on(vc, which):
    """Gates of a kind the backend cannot know, and the meta commands."""
    dev = dv.device(vc, which)
    try:
        locs = ids(vc, 'loc', 2, 10)
        nc = vc.choose('controls', [0, 1])
        cmd = Command(dev.eng, Opaque('g'), (qs(dev.eng, locs[:1]),), controls=qs(dev.eng, locs[1:1 + nc]),
                      control_state='1' * nc)
        vc.ensure('an unknown gate is not available', not dev.backend.is_available(cmd))
        hang_up(dev)
        dev.mapper.current_mapping = {x: x for x in locs}
        with dev.online():
            dev.backend.receive(allocate(dev, locs))
            vc.ensure('an unknown gate is refused', refused(dev, [cmd]) is not None)
            try:
                dev.backend.receive([flush(dev)])
            except Sent:
                pass
            vc.ensure('nothing is submitted', all(not s.instrs for s in dev.subs))
    finally:
        dev.close()


# --- programs -----------------------------------------------------------------------------------------------------------
BASIC = {'IBM': ['H', 'Rx', 'Rz', 'CX'], 'AQT': ['Rx', 'Ry', 'Rxx'], 'IonQ': ['H', 'Rz', 'CX', 'Swap'],
         'Braket Aspen-8': ['H', 'Rz', 'CX', 'Swap'], 'Braket IonQ Device': ['SqrtX', 'Ry', 'CX'],
         'Braket SV1': ['X', 'R', 'CX'], 'Azure IonQ': ['H', 'Rx', 'CX', 'Rxx'], 'Azure Quantinuum': ['H', 'Rx', 'CX', 'Rzz']}
SENDS_BARRIERS = ('IBM', 'Azure Quantinuum')


def measure(dev, logical, loc):
    return Command(dev.eng, ops.Measure, (qs(dev.eng, [loc]),), tags=[LogicalQubitIDTag(logical)] if dev.mapped else [])


def one_run(vc, dev, which, length, mapping, logicals, one_by_one):
    """Draw a circuit, send it in batches, flush; check the submission."""
    eng = dev.eng
    locs = [mapping[q] for q in logicals]
    cmds, want, measured = allocate(dev, locs), [], []
    kinds = (BASIC[which][1:3] if vc.symbolic else BASIC[which]) + ([] if which == 'Azure IonQ' else ['Barrier'])
    for k in range(length):
        free = [x for x in locs if x not in measured]
        if not free:
            break
        name = vc.choose('cmd', [x for x in kinds + ['Measure'] if len(free) >= (1 if x[0] != 'C' and GATES.get(x, (0, 1))[1] == 1
                                                                                else 2)])
        if name == 'Measure':
            loc = free[vc.pick('which', len(free))]
            cmds.append(measure(dev, logicals[locs.index(loc)], loc))
            measured.append(loc)
            continue
        if name == 'Barrier':
            cmds.append(Command(eng, ops.Barrier, (qs(eng, free[:2]),)))
            want.append((name, free[:2]))
            continue
        n = 2 if name == 'CX' else GATES[name][1]
        p = free[vc.pick('at', 2):][:n] if len(free) > n and not vc.symbolic else free[:n]
        p = p[::-1] if not vc.symbolic and vc.flag('swapped') else p
        c = Command(eng, ops.X, (qs(eng, p[1:]),), controls=qs(eng, p[:1])) if name == 'CX' else \
            Command(eng, GATES[name][0](vc.angle('t')), tuple([q] for q in qs(eng, p)))
        cmds.append(c)
        want.append((name, cmd_operator(vc, c, locs)))
    before = len(dev.subs)
    if one_by_one:
        for c in cmds:
            dev.backend.receive([c])
    else:
        dev.backend.receive(cmds)
    vc.ensure('nothing is submitted before the flush', len(dev.subs) == before)
    dev.backend.receive([flush(dev)])
    gates = [w for w in want if w[0] != 'Barrier']
    if not gates and len(dev.subs) == before:
        return      # nothing to run
    vc.ensure('one submission per circuit', len(dev.subs) == before + 1)
    s = dev.subs[-1]
    got = [i for i in s.instrs if i.kind == 'gate' or i.kind == 'barrier' and which in SENDS_BARRIERS]
    want = [w for w in want if w[0] != 'Barrier' or which in SENDS_BARRIERS]
    vc.ensure('every command once, nothing else', len(got) == len(want), f'{got} {want}')
    for i, (name, op) in zip(got, want):
        vc.ensure('in order', (i.kind == 'barrier') == (name == 'Barrier'))
        if name == 'Barrier':
            vc.ensure('the qubits of the barrier', sorted(i.targets) == sorted(op))
            continue
        m = instr_operator(vc, i, locs)
        vc.ensure('on the qubits of the command', m is not None, str(i))
        vc.mat_eq('the instruction denotes the command', m, op, phase=True)
    if dev.measures_explicitly:
        ms = [i for i in s.instrs if i.kind == 'measure']
        vc.ensure('every measured qubit is measured once', sorted(i.targets[0] for i in ms) == sorted(measured), f'{ms} {measured}')
        vc.ensure('into the slot of its location', all(i.slot == i.targets[0] for i in ms))
        kinds = [i.kind for i in s.instrs]
        vc.ensure('measurements come last', 'gate' not in kinds[kinds.index('measure'):] if ms else True)
    if s.measured is not None:
        vc.ensure('the measured locations', s.measured == measured, f'{s.measured} {measured}')
    if s.nq is not None:
        vc.ensure('room for every location', s.nq > max(locs))
    vc.ensure('the requested number of runs', s.shots == dev.num_runs, str(s.shots))


def programs_on(vc, which, lengths):
    dev = dv.device(vc, which, num_runs=vc.choose('runs', [100, 64]) if not vc.symbolic else None)
    vc.ghost['exact round'] = 11
    try:
        mapping = dict(enumerate(vc.choose('mapping', [(0, 1), (2, 0)] if vc.symbolic else [(0, 1), (2, 0), (1, 3), (3, 1)])))
        dev.mapper.current_mapping = dict(mapping)
        one = vc.flag('one by one')
        with dev.online():
            for n in lengths:
                one_run(vc, dev, which, n, mapping, [0, 1], one)
    finally:
        dev.close()


def wide_on(vc, which):
    """Many commands of every available kind on many locations, in several circuits."""
    dev = dv.device(vc, which, num_runs=vc.choose('runs', [100, 64, 200]))
    try:
        eng = dev.eng
        every = list(range(11))
        locs = [every.pop(vc.pick('place', len(every))) for _ in range(3 + vc.pick('locations', 8))]
        mapping = {3 * k + 1: x for k, x in enumerate(locs)}
        dev.mapper.current_mapping = dict(mapping)
        dev.outcomes = [('0' * 12, dev.num_runs)]
        with dev.online():
            for _ in range(1 + vc.pick('circuits', 3)):
                cmds, measured, fresh = [], [], sorted(locs, key=lambda x: x * 5 % 11)
                for _ in range(1 + vc.pick('length', 40)):
                    free = [x for x in locs if x not in measured]
                    if len(free) < 2:
                        break
                    if vc.pick('measure', 12) == 0:
                        x = free[vc.pick('which', len(free))]
                        cmds.append(measure(dev, [q for q in mapping if mapping[q] == x][0], x))
                        measured.append(x)
                        continue
                    if which in SENDS_BARRIERS and vc.pick('barrier', 8) == 0:
                        pool = list(free)
                        cmds.append(Command(eng, ops.Barrier, tuple([q] for q in qs(eng, [
                            pool.pop(vc.pick('in barrier', len(pool))) for _ in range(1 + vc.pick('barrier on', len(pool)))]))))
                        continue
                    c = None
                    while c is None or not dev.backend.is_available(c):
                        name = vc.choose('gate', list(GATES))
                        make, n = GATES[name]
                        pool = list(free)
                        t = [pool.pop(vc.pick('target', len(pool))) for _ in range(n)]
                        k = vc.choose('controls', [0, 0, 1, 1, 2, 3])
                        if k > len(pool):
                            continue
                        ctrl = [pool.pop(vc.pick('control', len(pool))) for _ in range(k)]
                        c = Command(eng, make(vc.angle('t')), tuple([q] for q in qs(eng, t)), controls=qs(eng, ctrl))
                    cmds.append(c)
                early = vc.flag('all allocated first')
                sent, known = [], []
                if early:
                    sent, known = allocate(dev, fresh), list(fresh)
                for c in cmds:
                    new = [x for x in fresh if x not in known and x in [q.id for r in c.all_qubits for q in r]]
                    sent += allocate(dev, new)
                    known += new
                    sent.append(c)
                before = len(dev.subs)
                while sent:
                    k = 1 + vc.pick('batch', 6)
                    dev.backend.receive(sent[:k])
                    sent = sent[k:]
                vc.ensure('nothing is submitted before the flush', len(dev.subs) == before)
                dev.backend.receive([flush(dev)])
                gates = [c for c in cmds if not isinstance(c.gate, type(ops.Measure))]
                if all(isinstance(c.gate, type(ops.Barrier)) for c in gates) and len(dev.subs) == before:
                    return      # nothing to run
                vc.ensure('one submission per circuit', len(dev.subs) == before + 1)
                s = dev.subs[-1]
                got = [i for i in s.instrs if i.kind in ('gate', 'barrier')]
                vc.ensure('every command once, nothing else', len(got) == len(gates), f'{len(got)} / {len(gates)}')
                for i, c in zip(got, gates):
                    on = sorted(q.id for r in c.all_qubits for q in r)
                    vc.ensure('in order', (i.kind == 'barrier') == isinstance(c.gate, type(ops.Barrier)))
                    if i.kind == 'barrier':
                        vc.ensure('the qubits of the barrier', sorted(i.targets) == on)
                        continue
                    m = instr_operator(vc, i, on)
                    vc.ensure('on the qubits of the command', m is not None, f'{i} for {c}')
                    vc.mat_eq('the instruction denotes the command', m, cmd_operator(vc, c, on), phase=True)
                if dev.measures_explicitly:
                    ms = [i for i in s.instrs if i.kind == 'measure']
                    vc.ensure('every measured qubit is measured once', sorted(i.targets[0] for i in ms) == sorted(measured), f'{ms} {measured}')
                    vc.ensure('into the slot of its location', all(i.slot == i.targets[0] for i in ms))
                if s.measured is not None:
                    vc.ensure('the measured locations', s.measured == measured, f'{s.measured} {measured}')
                if s.nq is not None:
                    vc.ensure('room for every location', s.nq > max(known))
                vc.ensure('the requested number of runs', s.shots == dev.num_runs, str(s.shots))
    finally:
        dev.close()


def mid_on(vc, which):
    """A gate after the measurement of one of its qubits: refused (or really executed after it)."""
    vc.ghost['exact round'] = 11
    dev = dv.device(vc, which)
    try:
        name = vc.choose('gate', BASIC[which] + (['CCX'] if which in ('IonQ', 'Braket SV1', 'Braket Aspen-8', 'Azure IonQ', 'Azure Quantinuum') else []))
        n = 2 if name == 'CX' else 3 if name == 'CCX' else GATES[name][1]
        locs = ids(vc, 'loc', 4, 10)
        logical = ids(vc, 'id', 4)
        m = locs[vc.pick('measured', 4)]
        p = locs[:n]
        eng = dev.eng
        c = Command(eng, ops.X, (qs(eng, p[-1:]),), controls=qs(eng, p[:-1])) if name in ('CX', 'CCX') else \
            Command(eng, GATES[name][0](vc.angle('t')), tuple([q] for q in qs(eng, p)))
        if not dev.backend.is_available(c):
            return
        dev.mapper.current_mapping = dict(zip(logical, locs))
        again = vc.flag('second circuit')
        if vc.symbolic:
            hang_up(dev)
        else:
            dev.outcomes = [('0' * 12, dev.num_runs)]
        with dev.online():
            if again:
                dev.backend.receive(allocate(dev, locs) + [Command(eng, GATES[BASIC[which][1]][0](vc.angle('t')), (qs(eng, locs[:1]),))]
                                    + [measure(dev, a, x) for a, x in zip(logical, locs)])
                try:
                    dev.backend.receive([flush(dev)])
                except Sent:
                    vc.priv(dev.backend, '_reset')()
                dev.subs.clear()
            dev.backend.receive(allocate(dev, locs))
            dev.backend.receive([measure(dev, a, x) for a, x in zip(logical, locs) if x is m])
            err = refused(dev, [c])
            if m not in p:
                vc.ensure('a gate on other qubits is accepted after a measurement', err is None, repr(err))
                return
            if err is not None:
                return
            try:
                dev.backend.receive([flush(dev)])
            except Sent:
                pass
            kinds = [i.kind for i in dev.subs[-1].instrs] if dev.subs else []
            vc.ensure('a gate is not executed before a preceding measurement of its qubit',
                      kinds == ['measure', 'gate'], str(kinds))
    finally:
        dev.close()


def _define(name, body, which, doc, names=('is_available', '_store', 'receive', '_run'), deco=contract, extra=(), **kw):
    def fn(vc):
        body(vc, which, *extra)
    fn.__name__ = name + '_' + which.lower().replace(' ', '_').replace('-', '')
    fn.__doc__ = f'{which}: {doc}'
    globals()[fn.__name__] = deco(P, functions(which, *names), **kw)(fn)


PUB = 'published instruction sets as written in pv/devices.py'
for w in dv.ALL:
    _define('translate', translate_on, w, 'every gate kind, all locations, angles and control states: refused, or one instruction '
            'meaning the same.', samples=400, budget=80, size_bound='up to 3 controls', assumptions=[PUB, 'trig identities'])
    _define('many_controls', many_on, w, 'controlled gates with more controls, all locations.', samples=100, budget=60,
            size_bound='4 to 9 controls', assumptions=[PUB])
    _define('wrapped', wrapped_on, w, 'ControlledGate objects.', samples=200, budget=60, size_bound='up to 2 wrapped controls',
            assumptions=[PUB])
    _define('foreign', foreign_on, w, 'gates of unknown kinds are refused.', samples=50)
    _define('programs', programs_on, w, 'two circuits in sequence: order, completeness, emptiness of the second.',
            extra=((2, 1),), samples=1, budget=80, size_bound='circuits of 2 and 1 commands on two locations', assumptions=[PUB])
    _define('mid_circuit', mid_on, w, 'gates after measurements.', samples=150, assumptions=[PUB])
    _define('long_programs', programs_on, w, 'three longer circuits in sequence.', deco=bounded, extra=((6, 5, 4),),
            bound='three random circuits of 6, 5 and 4 commands on two locations', samples=400, thorough=8000)
    _define('wide', wide_on, w, 'many commands on many locations.', deco=bounded,
            bound='up to three random circuits of up to 40 commands of every available kind and barriers on 3 to 10 of 11 locations, in batches', samples=300,
            thorough=1500)


@contract(P, functions('IBM', 'get_qasm', '_store', '_run'), samples=200,
          assumptions=['OpenQASM meaning of u1, u2, u3 and cx'])
def ibm_qasm(vc):
    """The OpenQASM text the IBM backend reports describes the circuit it submitted."""
    dev = dv.device(vc, 'IBM')
    try:
        name = vc.choose('gate', ['H', 'Rx', 'Ry', 'Rz', 'CX', 'Barrier', 'Measure'])
        locs = ids(vc, 'loc', 2, 10)
        logical = ids(vc, 'id', 2)
        eng = dev.eng
        cmd = {'CX': lambda: Command(eng, ops.X, (qs(eng, locs[:1]),), controls=qs(eng, locs[1:])),
               'Barrier': lambda: Command(eng, ops.Barrier, (qs(eng, locs),)),
               'Measure': lambda: measure(dev, logical[0], locs[0])}.get(
                   name, lambda: Command(eng, GATES[name][0](vc.angle('t')), (qs(eng, locs[:1]),)))()
        dev.mapper.current_mapping = dict(zip(logical, locs))
        hang_up(dev)
        with dev.online():
            dev.backend.receive(allocate(dev, locs) + [cmd])
            try:
                dev.backend.receive([flush(dev)])
            except Sent:
                pass
        text, sent = dv.ibm_qasm(vc, dev.backend.get_qasm()), dev.subs[0].instrs
        vc.ensure('the same number of statements', len(text) == len(sent) == 1)
        a, b = text[0], sent[0]
        vc.ensure('of the same kind', a.kind == b.kind and len(a.targets) == len(b.targets))
        vc.ensure('on the same qubits', all(x == y for x, y in zip(a.targets, b.targets)))
        if a.kind == 'measure':
            vc.ensure('into the same slot', a.slot == b.slot)
        if a.kind == 'gate':
            vc.mat_eq('same operator', instr_operator(vc, a, locs), instr_operator(vc, b, locs), phase=True)
    finally:
        dev.close()
