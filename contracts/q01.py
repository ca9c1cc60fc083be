"""Q01: every qubit is allocated and deallocated exactly once; reads need a measurement."""
import copy
import gc

from pv import progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq import MainEngine
from projectq.cengines import NotYetMeasuredError
from projectq.meta import Compute, Dagger, DirtyQubitTag, Loop, Uncompute
from projectq.ops import Command
from projectq.types import Qubit, Qureg, WeakQubitRef

from .c01 import ids

P = 'Q01'
E = 'projectq.cengines.'
M = E + '_main.MainEngine.'
BE = E + '_basics.BasicEngine.'
T = 'projectq.types._qubit.'


def kinds(cmds):
    return [type(c.gate).__name__ for c in cmds]


@contract(P, [M + 'get_new_qubit_id', BE + 'allocate_qubit', BE + 'is_meta_tag_supported'], samples=60)
def allocate(vc):
    """From any history (next id n): the id is n, it is announced once, and the next id is larger (so never used before)."""
    eng, rec = W.make_eng()
    dirty = vc.flag('dirty')
    handler = vc.flag('dirty qubits supported')
    if handler:
        rec.is_meta_tag_handler = lambda tag: tag == DirtyQubitTag
    if vc.symbolic:
        n = vc.int('next', 0)
        vc.priv(eng, '_qubit_idx')
        eng._qubit_idx = n
    else:
        for _ in range(vc.pick('before', 5)):
            n = eng.get_new_qubit_id()
        n = eng.get_new_qubit_id() + 1
    via = vc.choose('engine', ['main', 'forwarder', 'control'])
    source = eng
    if via == 'forwarder':
        from projectq.cengines import ForwarderEngine
        source = ForwarderEngine(eng.next_engine)
        source.main_engine = eng
    elif via == 'control':
        from projectq.meta import Control
        ctl = Control(eng, [WeakQubitRef(eng, 999)])
        ctl.__enter__()
    q = source.allocate_qubit(dirty=dirty)
    vc.ensure('one qubit is returned', isinstance(q, Qureg) and len(q) == 1 and isinstance(q[0], Qubit))
    vc.eq('its id is new', q[0].id, n)
    vc.ensure('the next id is larger', eng.get_new_qubit_id() > n)
    vc.ensure('announced exactly once', kinds(rec.cmds) == ['AllocateQubitGate'])
    vc.eq('announced with its id', rec.cmds[0].qubits[0][0].id, n)
    vc.ensure('no controls', not rec.cmds[0].control_qubits)
    tagged = [type(t) for t in rec.cmds[0].tags] == [DirtyQubitTag]
    vc.ensure('dirty tag iff a dirty qubit was requested and is supported', tagged == (dirty and handler))
    vc.ensure('the qubit is active', any(x is q[0] for x in eng.active_qubits))
    q[0].id = -1


@contract(P, [BE + 'allocate_qureg'], samples=20, size_bound='registers of at most 4 qubits')
def allocate_register(vc):
    eng, rec = W.make_eng()
    n = vc.pick('n', 5)
    if vc.symbolic:
        first = vc.int('next', 0)
        vc.priv(eng, '_qubit_idx')
        eng._qubit_idx = first
    else:
        first = 0
    reg = eng.allocate_qureg(n)
    vc.ensure('number of qubits', isinstance(reg, Qureg) and len(reg) == n)
    vc.ensure('announced once each', kinds(rec.cmds) == ['AllocateQubitGate'] * n)
    for k, (q, c) in enumerate(zip(reg, rec.cmds)):
        vc.eq('ids in order', q.id, first + k)
        vc.eq('announced ids', c.qubits[0][0].id, first + k)
    for q in reg:
        q.id = -1


@contract(P, [BE + 'deallocate_qubit', T + 'Qubit.__del__'], samples=60)
def deallocate(vc):
    """Releasing a qubit sends its deallocation once, with the dirty tag iff allocated dirty; a second release sends nothing."""
    eng, rec = W.make_eng()
    rec.is_meta_tag_handler = lambda tag: tag == DirtyQubitTag
    dirty = vc.flag('dirty')
    others = [eng.allocate_qubit(), eng.allocate_qubit(dirty=True)]
    if vc.symbolic:
        vc.priv(eng, '_qubit_idx')
        eng._qubit_idx = vc.int('next', 2)
    q = eng.allocate_qubit(dirty=dirty)
    i = q[0].id
    how = vc.choose('how', ['del', 'engine', 'scope', 'flush', 'delitem'])
    n = len(rec.cmds)
    if how == 'del':
        q[0].__del__()
        vc.ensure('the handle is invalid', q[0].id == -1)
        q[0].__del__()
        vc.raises('second explicit deallocation is refused', ValueError, lambda: eng.deallocate_qubit(q[0]))
    elif how == 'engine':
        eng.deallocate_qubit(q[0])
        vc.ensure('the handle is invalid', q[0].id == -1)
    elif how == 'scope':
        del q
    elif how == 'delitem':
        del q[0]
    else:
        eng.flush(deallocate_qubits=True)
        got = rec.cmds[n:]
        vc.ensure('flush comes last', kinds(got) == ['DeallocateQubitGate'] * 3 + ['FlushGate'])
        mine = 0
        for c in got[:-1]:
            if c.qubits[0][0].id == i:
                mine += 1
                vc.ensure('dirty tag', (DirtyQubitTag() in c.tags) == dirty)
        vc.ensure('every live qubit exactly once', mine == 1 and all(x[0].id == -1 for x in others) and q[0].id == -1)
        return
    if how != 'flush':
        got = rec.cmds[n:]
        vc.ensure('deallocated exactly once', kinds(got) == ['DeallocateQubitGate'])
        vc.eq('with its id', got[0].qubits[0][0].id, i)
        vc.ensure('dirty tag iff allocated dirty', (DirtyQubitTag() in got[0].tags) == dirty and len(got[0].tags) == int(dirty))
        vc.ensure('not active any more', all(x is others[0][0] or x is others[1][0] or x.id == -1 for x in eng.active_qubits))
    for x in others:
        x[0].id = -1


@contract(P, [M + 'set_measurement_result', M + 'get_measurement_result', T + 'BasicQubit.__bool__', T + 'BasicQubit.__int__',
              T + 'Qureg.__bool__', T + 'Qureg.__int__'], samples=150, size_bound='3 registrations on arbitrary ids')
def results(vc):
    """A read returns the last value registered for that id; without one it raises."""
    eng, _rec = W.make_eng()
    qs = [WeakQubitRef(eng, vc.int(f'q{i}', 0, None if vc.symbolic else 3)) for i in range(3)]
    n = vc.pick('n', 4)
    vals = [vc.choose('value', [True, False, 0, 1]) for _ in range(n)]
    for q, v in zip(qs, vals):
        eng.set_measurement_result(q, v)
    r = WeakQubitRef(eng, vc.int('r', 0, None if vc.symbolic else 3))
    want = None
    for q, v in reversed(list(zip(qs, vals))):
        if q.id == r.id:
            want = bool(v)
            break
    if want is None:
        vc.raises('reading without a measurement', NotYetMeasuredError, lambda: bool(r))
        vc.raises('reading without a measurement', NotYetMeasuredError, lambda: int(r))
        vc.raises('reading without a measurement', NotYetMeasuredError, lambda: int(Qureg([r])))
        vc.raises('reading without a measurement', NotYetMeasuredError, lambda: eng.get_measurement_result(r))
    else:
        got = [bool(r), int(r), bool(Qureg([r])), int(Qureg([r])), eng.get_measurement_result(r)]
        vc.ensure('the last registered value is read', got == [want] * 5, str(got))


@contract(P, [T + 'Qureg.__bool__', T + 'Qureg.__int__', T + 'BasicQubit.__eq__', T + 'BasicQubit.__hash__', T + 'Qubit.__copy__',
              T + 'Qubit.__deepcopy__'], samples=40)
def handles(vc):
    """Handles are equal iff same id and engine; copying never duplicates a qubit; registers are not read as one value."""
    eng, rec = W.make_eng()
    eng2, _ = W.make_eng()
    xs = ids(vc, 'x', 2)
    a, b = WeakQubitRef(eng, xs[0]), WeakQubitRef(eng, xs[1])
    vc.ensure('different ids differ', not a == b)
    vc.ensure('same id and engine are equal', a == WeakQubitRef(eng, xs[0]) and hash(a) == hash(WeakQubitRef(eng, xs[0])))
    vc.ensure('different engines differ', not a == WeakQubitRef(eng2, xs[0]))
    vc.ensure('released handles are equal only to themselves', not WeakQubitRef(eng, -1) == WeakQubitRef(eng, -1))
    q = eng.allocate_qubit()
    n = len(rec.cmds)
    c, d = copy.copy(q[0]), copy.deepcopy(q[0])
    vc.ensure('copies are the same qubit', c is q[0] and d is q[0])
    del c, d
    vc.ensure('copies do not deallocate', len(rec.cmds) == n)
    reg = eng.allocate_qureg(2)
    for f in (bool, int):
        vc.raises('a register of several qubits has no single value', Exception, lambda f=f: f(reg))
    vc.raises('an unmeasured qubit', NotYetMeasuredError, lambda: int(q))
    q[0].__del__()
    vc.raises('a deallocated qubit', NotYetMeasuredError, lambda: int(q))




@contract(P, [M + '__init__'], samples=40)
def pipeline(vc):
    """The main engine wires exactly the given engines in order and refuses unusable lists."""
    from projectq.cengines import BasicEngine, DummyEngine, ManualMapper
    from projectq.cengines._main import UnsupportedEngineError
    n = vc.pick('engines', 4)
    lst = [DummyEngine() for _ in range(n)]
    rec = W.make_rec()
    eng = MainEngine(backend=rec, engine_list=list(lst))
    chain = []
    e = eng.next_engine
    while e is not None:
        chain.append(e)
        e = e.next_engine
    vc.ensure('engines in order, backend last', len(chain) == n + 1 and all(x is y for x, y in zip(chain, lst + [rec])))
    vc.ensure('all know the main engine', all(x.main_engine is eng for x in chain) and eng.main_engine is eng)
    vc.ensure('only the backend is last', [x.is_last_engine for x in chain] == [False] * n + [True])
    case = vc.choose('bad', ['class', 'backend', 'tuple', 'twice', 'mappers', 'many', 'item'])
    if case == 'class':
        vc.raises('engine class instead of instance', UnsupportedEngineError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=[DummyEngine]))
    elif case == 'backend':
        vc.raises('backend class instead of instance', UnsupportedEngineError,
                  lambda: MainEngine(backend=DummyEngine, engine_list=[]))
    elif case == 'tuple':
        vc.raises('engine list must be a list', UnsupportedEngineError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=(DummyEngine(),)))
    elif case == 'twice':
        d = DummyEngine()
        vc.raises('the same engine twice', UnsupportedEngineError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=[d, DummyEngine(), d]))
        r = W.make_rec()
        vc.raises('the same engine twice', UnsupportedEngineError, lambda: MainEngine(backend=r, engine_list=[r]))
    elif case == 'mappers':
        vc.raises('two mappers', UnsupportedEngineError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=[ManualMapper(lambda x: x), ManualMapper(lambda x: x)]))
    elif case == 'item':
        vc.raises('something else in the list', UnsupportedEngineError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=[DummyEngine(), 3]))
    else:
        vc.raises('too many engines', ValueError,
                  lambda: MainEngine(backend=W.make_rec(), engine_list=[BasicEngine() for _ in range(100)]))


# --- histories ------------------------------------------------------------------------------------------------------------
class History:
    """Checks the command stream of a history."""

    def __init__(self, vc, cmds):
        live, seen, gone, dirty = set(), set(), set(), {}
        for c in cmds:
            g = type(c.gate).__name__
            i = c.qubits[0][0].id
            if g == 'AllocateQubitGate':
                vc.ensure('an allocated id is new', i not in seen, str(i))
                seen.add(i)
                live.add(i)
                dirty[i] = any(isinstance(t, DirtyQubitTag) for t in c.tags)
            elif g == 'DeallocateQubitGate':
                vc.ensure('a deallocated qubit is alive', i in live, f'qubit {i} ' + ('again' if i in gone else 'unknown'))
                live.discard(i)
                gone.add(i)
                vc.ensure('dirty tag on both', dirty[i] == any(isinstance(t, DirtyQubitTag) for t in c.tags), str(i))
            elif g != 'FlushGate':
                for q in [q.id for r in c.all_qubits for q in r]:
                    vc.ensure('only live qubits are used', q in live, f'{c}')
        self.live, self.seen = live, seen




def measuring(rec, outcomes):
    orig = rec.receive

    def receive(cmds):
        orig(cmds)
        for c in cmds:
            if type(c.gate).__name__ == 'MeasureGate':
                for r in c.qubits:
                    for q in r:
                        v = outcomes()
                        rec.last[q.id] = v
                        rec.main_engine.set_measurement_result(q, v)
    rec.last = {}
    rec.receive = receive


@bounded(P, [M + 'flush', M + '__del__', M + 'receive', M + 'send', BE + 'allocate_qubit', BE + 'deallocate_qubit', T + 'Qubit.__del__'],
         'random histories of at most 25 actions: allocation (dirty or not), release by deletion, scope and garbage collection, '
         'gates, measurement, reads, flush, compute/dagger/loop blocks, end of the engine', samples=400, thorough=8000, weight=2)
def histories(vc):
    """Along every history the stream allocates and deallocates each id exactly once and reads give the last outcome."""
    rec = W.make_rec()
    support = vc.flag('dirty qubits supported')
    if support:
        rec.is_meta_tag_handler = lambda tag: tag == DirtyQubitTag
    engines = []
    if vc.flag('optimizer'):
        from projectq.cengines import LocalOptimizer
        engines.append(LocalOptimizer(vc.pick('cache', 6) + 1))
    measuring(rec, lambda: bool(vc.pick('outcome', 2)))
    eng = MainEngine(backend=rec, engine_list=engines)
    pool = []
    allids = []
    for _ in range(5 + vc.pick('len', 20)):
        act = vc.choose('act', ['alloc', 'alloc', 'dirty', 'reg', 'free', 'scope', 'gate', 'gate', 'measure', 'read', 'flush', 'gc',
                                'compute', 'dagger', 'loop', 'cycle'])
        live = [q for q in pool if q[0].id != -1]
        if act in ('alloc', 'dirty'):
            q = eng.allocate_qubit(dirty=(act == 'dirty'))
            allids.append(q[0].id)
            pool.append(q)
        elif act == 'reg':
            for q in eng.allocate_qureg(2):
                allids.append(q.id)
                pool.append(Qureg([q]))
            del q
        elif not live:
            continue
        elif act == 'free':
            q = vc.choose('which', live)
            q[0].__del__()
            q[0].__del__()
        elif act == 'scope':
            k = vc.pick('which', len(pool))
            pool.pop(k)
            live = q = None
            gc.collect(0)
        elif act == 'cycle':
            q = vc.choose('which', live)
            pool.remove(q)
            q.append(q)
            live = q = None
            gc.collect(0)
        elif act == 'gc':
            gc.collect(0)
        elif act == 'gate':
            q = vc.choose('which', live)
            if len(live) > 1 and vc.flag('two'):
                r = vc.choose('other', [x for x in live if x is not q])
                ops.CNOT | (r, q)
            else:
                vc.choose('g', [ops.H, ops.X, ops.Rz(0.3)]) | q
        elif act == 'measure':
            ops.Measure | vc.choose('which', live)
        elif act == 'read':
            q = vc.choose('which', live)
            eng.flush()
            if q[0].id in rec.last:
                vc.ensure('a read gives the last outcome', bool(q) is rec.last[q[0].id] and int(q[0]) == int(rec.last[q[0].id]))
            else:
                vc.raises('reading without a measurement', NotYetMeasuredError, lambda: bool(q))
        elif act == 'flush':
            eng.flush()
            vc.ensure('the flush is passed on', kinds(rec.cmds)[-1] == 'FlushGate')
        elif act == 'compute':
            q = vc.choose('which', live)
            with Compute(eng):
                a = eng.allocate_qubit()
                ops.CNOT | (q, a)
                if vc.flag('local'):
                    b = eng.allocate_qubit(dirty=vc.flag('d'))
                    ops.H | b
                    b[0].__del__()
            ops.X | a
            Uncompute(eng)
            vc.ensure('ancilla handle is invalid', a[0].id == -1)
            del a
        elif act in ('dagger', 'loop'):
            q = vc.choose('which', live)
            with (Dagger(eng) if act == 'dagger' else Loop(eng, vc.pick('n', 3))):
                a = eng.allocate_qubit(dirty=vc.flag('d'))
                ops.CNOT | (q, a)
                a[0].__del__()
            del a
        live = q = r = None
    vc.ensure('ids given to the user are distinct', len(set(allids)) == len(allids))
    end = vc.choose('end', ['flush', 'del', 'flush twice'])
    if end == 'del':
        # the engine goes away together with its user
        eng.__del__()
    else:
        eng.flush(deallocate_qubits=True)
        if end == 'flush twice':
            eng.flush(deallocate_qubits=True)
    vc.ensure('handles are invalid after the final flush', all(q[0].id == -1 for q in pool))
    h = History(vc, [c for c in rec.cmds])
    vc.ensure('every qubit is deallocated in the end', not h.live, str(h.live))
    if not engines:
        vc.ensure('every id given to the user was allocated', set(allids) <= h.seen)
    n = len(rec.cmds)
    pool.clear()
    gc.collect(0)
    vc.ensure('nothing is deallocated again', 'DeallocateQubitGate' not in kinds(rec.cmds[n:]))


@bounded(P, [M + 'flush', M + '__del__', BE + 'allocate_qureg', BE + 'allocate_qubit', BE + 'deallocate_qubit', T + 'Qubit.__del__', M + 'set_measurement_result',
             M + 'get_measurement_result', M + 'get_new_qubit_id'],
         'one to four registers of up to 150 qubits, up to 60 dirty qubits, any of them measured repeatedly, some released, in any order', samples=60, thorough=1000)
def crowds(vc):
    """Many live qubits at once."""
    rec = W.make_rec()
    rec.is_meta_tag_handler = lambda tag: tag == DirtyQubitTag
    eng = MainEngine(backend=rec, engine_list=[])
    measuring(rec, lambda: bool(vc.pick('outcome', 2)))
    regs, every = [], []
    for _ in range(1 + vc.pick('registers', 4)):
        n = vc.choose('size', [0, 1, 5, 30, 33, 64, 100, 150])
        reg = eng.allocate_qureg(n)
        vc.ensure('the register has the size asked for', isinstance(reg, Qureg) and len(reg) == n)
        every += [q.id for q in reg]
        regs.append(reg)
        reg = None
    for _ in range(vc.choose('dirty', [0, 1, 20, 60])):
        q = eng.allocate_qubit(dirty=True)
        every.append(q[0].id)
        regs.append(q)
        q = None
    vc.ensure('ids are distinct', len(set(every)) == len(every))
    for _ in range(vc.pick('measurements', 4)):
        for r in regs:
            for q in r:
                if vc.flag('measured'):
                    ops.Measure | q
    for r in regs:
        for q in r:
            if q.id in rec.last:
                vc.ensure('a read gives the last outcome', int(q) == int(rec.last[q.id]) and bool(q) is bool(rec.last[q.id]))
            else:
                vc.raises('reading without a measurement', NotYetMeasuredError, lambda: int(q))
    q = r = None
    for _ in range(vc.pick('released', 3)):
        if regs:
            regs.pop(vc.pick('which', len(regs)))
    gc.collect(0)
    if vc.flag('end of the engine'):
        eng.__del__()
    else:
        eng.flush(deallocate_qubits=True)
    vc.ensure('handles are invalid after the final flush', all(q.id == -1 for r in regs for q in r))
    for r in regs:
        for q in r[:2]:
            vc.raises('reading a released qubit', NotYetMeasuredError, lambda: bool(q))
    q = r = None
    h = History(vc, list(rec.cmds))
    vc.ensure('every qubit is deallocated in the end', not h.live, str(h.live))
    vc.ensure('every id given to the user was allocated', set(every) == h.seen)
    n = len(rec.cmds)
    regs.clear()
    gc.collect(0)
    vc.ensure('nothing is deallocated again', 'DeallocateQubitGate' not in kinds(rec.cmds[n:]))


@bounded(P, ['projectq.backends', M + 'set_measurement_result', 'projectq.types'],
         'random circuits on the simulators, read back after measurement', samples=60, thorough=1000)
def simulators(vc):
    """Reads after a measurement agree with the state left by the simulators, also behind a mapper."""
    from projectq.backends import ClassicalSimulator, Simulator
    from projectq.cengines import ManualMapper
    which = vc.choose('backend', ['sim', 'classical'])
    be = Simulator() if which == 'sim' else ClassicalSimulator()
    perm = [3, 1, 0, 2]
    mapped = vc.flag('mapper')
    eng = MainEngine(backend=be, engine_list=[ManualMapper(lambda i: perm[i])] if mapped else [])
    q = eng.allocate_qureg(4)
    want = [0] * 4
    for _ in range(vc.pick('len', 8)):
        i = vc.pick('i', 4)
        j = vc.pick('j', 4)
        if i == j:
            ops.X | q[i]
            want[i] ^= 1
        else:
            ops.CNOT | (q[i], q[j])
            want[j] ^= want[i]
    sup = vc.pick('measured', 4)
    ops.Measure | q[sup]
    eng.flush()
    for i in range(4):
        if i == sup:
            vc.ensure('the measured value', int(q[i]) == want[i])
        else:
            vc.raises('not measured', NotYetMeasuredError, lambda i=i: int(q[i]))
    ops.All(ops.Measure) | q
    eng.flush()
    vc.ensure('all measured values', [int(x) for x in q] == want)
    ops.X | q[0]
    ops.Measure | q[0]
    eng.flush()
    vc.ensure('the last measurement counts', int(q[0]) == 1 - want[0])


_ = (progs, Command)
