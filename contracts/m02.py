"""M02: uncompute undoes exactly the compute section, for every program."""
from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.meta import Compute, ComputeTag, Control, CustomUncompute, Uncompute, UncomputeTag
from projectq.ops import Command

from .c01 import Opaque, Tag, ids, qs
from .m01 import abstract, arbitrary_command, has

P = 'M02'
C = 'projectq.meta._compute.'


def receives(vc, enter, tagcls, what, keeps):
    """Loop contract of ComputeEngine.receive / UncomputeEngine.receive for command lists of any length."""
    eng, rec = W.make_eng()
    with enter(eng):
        e = eng.next_engine
        if not vc.symbolic:
            cmds = [arbitrary_command(vc, eng, []) for _ in range(vc.pick('length', 5))]
            want = [abstract(c) for c in cmds]
            n0 = len(rec.cmds)
            eng.receive(cmds)
            got = [abstract(c) for c in rec.cmds[n0:]]
            vc.ensure('every command arrives once', len(got) == len(want))
            for g, w in zip(got, want):
                has(vc, what, g, (w[0], w[1], w[2], w[3] + [tagcls.__name__]))
            return
        alloc, dealloc = loops.TraceSet(), loops.TraceSet()
        vc.priv(e, '_allocated_qubit_ids')
        vc.priv(e, '_deallocated_qubit_ids')
        e._allocated_qubit_ids, e._deallocated_qubit_ids = alloc, dealloc
        stored = None
        if keeps:
            vc.priv(e, '_l')
            stored = e._l = loops.TraceList()
        rec.cmds = loops.TraceList()
        st = {}

        def make():
            c = arbitrary_command(vc, eng, [])
            st['want'] = abstract(c)
            st['n'] = len(rec.cmds.added())
            return c

        def check(c):
            w = st['want']
            kind = w[0]
            q = c.qubits[0][0].id
            has(vc, what + ' (command)', abstract(c), (w[0], w[1], w[2], w[3] + [tagcls.__name__]))
            with vc.internal():
                for name, log, gate in (('allocated', alloc, 'AllocateQubitGate'), ('deallocated', dealloc, 'DeallocateQubitGate')):
                    vc.ensure(what + ': number of ids recorded as ' + name, len(log.log) == (1 if kind == gate else 0))
                    for x in log.log:
                        vc.eq(what + ': id recorded as ' + name, x, q)
                sent = rec.cmds.added()[st['n']:]
                st['each'] = len(sent)
                for s in sent:
                    vc.ensure(what + ': the command itself is sent', s is c)
                vc.ensure(what + ': sent at most once', len(sent) <= 1)
                if keeps:
                    vc.ensure(what + ': stored once', len(stored.added()) == 1)
                    has(vc, what + ' (stored copy, untagged)', abstract(stored.added()[0]), w)
                    vc.ensure(what + ': stored as a copy', stored.added()[0] is not c)

        seq = loops.Arbitrary(vc, make, check)
        eng.receive(seq)
        out = rec.cmds.added()
        if out:
            with vc.internal():
                vc.ensure(what + ': the whole list is sent once after tagging', len(out) == 1 and out[0][1] is seq)
        else:
            vc.ensure(what + ': commands were sent one by one', True)


class _One:
    """A compute section whose commands are of no interest (only its engine is)."""

    def __init__(self, eng):
        self.eng = eng

    def __enter__(self):
        with Compute(self.eng):
            pass
        self.c = CustomUncompute(self.eng)
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(KeyError, KeyError(), None)


@contract(P, [C + 'ComputeEngine.receive', C + 'Compute.__enter__'], samples=200)
def compute_receive(vc):
    eng_exit = {}

    class Section:
        def __init__(self, eng):
            self.eng = eng

        def __enter__(self):
            self.c = Compute(self.eng)
            self.c.__enter__()

        def __exit__(self, *a):
            eng_exit['x'] = True
    receives(vc, Section, ComputeTag, 'compute section', True)


@contract(P, [C + 'UncomputeEngine.receive', C + 'CustomUncompute.__enter__'], samples=200)
def custom_uncompute_receive(vc):
    receives(vc, _One, UncomputeTag, 'custom uncompute section', False)


@contract(P, [C + 'ComputeEngine.receive'], samples=100)
def between(vc):
    """Commands between compute and uncompute pass unchanged, for lists of any length."""
    eng, rec = W.make_eng()
    with Compute(eng):
        pass
    if not vc.symbolic:
        cmds = [arbitrary_command(vc, eng, []) for _ in range(vc.pick('length', 5))]
        want = [abstract(c) for c in cmds]
        eng.receive(cmds)
        vc.ensure('passed on', [abstract(c) for c in rec.cmds] == want)
        Uncompute(eng)
        vc.ensure('nothing to undo', len(rec.cmds) == len(want))
        return
    rec.cmds = loops.TraceList()
    bad = []
    seq = loops.Arbitrary(vc, lambda: arbitrary_command(vc, eng, []), bad.append)
    eng.receive(seq)
    out = rec.cmds.added()
    with vc.internal():
        vc.ensure('the list is passed on as it is', len(out) == 1 and out[0][1] is seq)


# --- scripts: issued operations, mirrored abstractly ----------------------------------------------------------------------
class Script:
    """Issues operations through the engine and mirrors what was issued."""

    def __init__(self, vc, eng, outer):
        self.vc, self.eng, self.outer = vc, eng, outer
        self.log = []
        self.k = 0
        self.live = {}

    def gate(self, target, ctrls=(), tags=()):
        self.k += 1
        uid = ('g', self.k)
        regs = [list(r) for r in target] if isinstance(target, (list, tuple)) else [[target]]
        c = Command(self.eng, Opaque(uid), tuple(qs(self.eng, [self.real(x) for x in r]) for r in regs), controls=qs(self.eng, [self.real(x) for x, _ in ctrls]),
                    control_state=''.join(str(v) for _, v in ctrls), tags=list(tags))
        self.eng.receive([c])
        self.log.append((uid, regs, list(ctrls), [type(t).__name__ + (str(t.v) if isinstance(t, Tag) else '') for t in tags]))

    def real(self, x):
        return self.live[x][0].id if isinstance(x, str) else x

    def alloc(self, name, dirty=False):
        self.live[name] = self.eng.allocate_qubit(dirty=dirty)
        self.log.append(('AllocateQubitGate', [[name]], [], ['DirtyQubitTag'] if dirty else []))

    def free(self, name, dirty=False):
        self.live[name][0].__del__()
        self.log.append(('DeallocateQubitGate', [[name]], [], ['DirtyQubitTag'] if dirty else []))


def undone(log):
    """The prescribed uncompute of a list of operations."""
    flips = {'AllocateQubitGate': 'DeallocateQubitGate', 'DeallocateQubitGate': 'AllocateQubitGate'}
    loc = {e[1][0][0] for e in log if e[0] == 'AllocateQubitGate'} & {e[1][0][0] for e in log if e[0] == 'DeallocateQubitGate'}
    ren = {x: x + "'" for x in loc}
    out = []
    for uid, tg, ct, tags in reversed(log):
        uid = flips[uid] if uid in flips else ('inv', uid)
        out.append((uid, [[ren.get(t, t) if isinstance(t, str) else t for t in r] for r in tg],
                    [(ren.get(c, c) if isinstance(c, str) else c, v) for c, v in ct], tags + ['UncomputeTag']))
    return out


def compare(vc, what, cmds, want, known=None):
    """Recorded commands are the prescribed ones, allocated names bound to ids that were never used before."""
    vc.ensure(what + ': number of operations', len(cmds) == len(want), '; '.join(str(abstract(c)) for c in cmds)[:300])
    names = known if known is not None else {}
    for c, w in zip(cmds, want):
        if w[0] == 'AllocateQubitGate':
            q = c.qubits[0][0].id
            vc.ensure(what + ': allocation', abstract(c)[0] == w[0], str(abstract(c)))
            vc.ensure(what + ': new id', not isinstance(q, int) or q not in names.values(), str(q))
            names[w[1][0][0]] = q
        tr = lambda x: names.get(x) if isinstance(x, str) else x    # noqa: E731
        has(vc, what, abstract(c), (w[0], [[tr(t) for t in r] for r in w[1]], [(tr(x), v) for x, v in w[2]], w[3]))


def long_body(vc, s, xs):
    """A random section of up to 100 operations with up to 10 ancillas (natively only)."""
    live, made = [], 0
    most = vc.choose('ancillas', [1, 2, 10, 10])
    for _ in range(vc.pick('operations', 101 if most < 3 and not vc.pick('many', 3) else 41)):
        do = vc.choose('do', ['gate', 'gate', 'gate', 'alloc', 'free'] if most > 3 else ['gate'] * 9 + ['alloc'])
        if do == 'alloc' and made < most:
            live.append(f'n{made}')
            s.alloc(live[-1])
            made += 1
        elif do == 'free' and live:
            s.free(live.pop(vc.pick('which', len(live))))
        else:
            pool = list(xs) + live
            take = [pool.pop(vc.pick('on', len(pool))) for _ in range(1 + vc.pick('width', min(len(pool), 4)))]
            c = [(x, vc.pick('value', 2)) for x in pool if vc.pick('control', 4) == 0]
            tags = [vc.choose('tag', [Tag(1), Tag(2), ComputeTag(), UncomputeTag()])] if vc.pick('tagged', 5) == 0 else []
            s.gate([take] if vc.flag('one register') else [[x] for x in take], c, tags)
    if vc.pick('all freed', 3):
        while live:
            s.free(live.pop(vc.pick('which', len(live))))


def body(vc, s, xs):
    """An arbitrary short compute section: gates with controls, ancillas kept or local, dirty or not."""
    cases = ['gates', 'kept', 'local', 'both', 'twice', 'nested', 'tagged', 'dirty', 'controls', 'registers']
    case = vc.choose('section', cases if vc.symbolic else cases + ['long'] * 8)
    if case == 'long':
        long_body(vc, s, xs)
        return case
    if case == 'gates':
        for _ in range(vc.pick('n', 4)):
            s.gate(xs[vc.pick('x', 2)], [(xs[2], vc.pick('v', 2))] if vc.pick('c', 2) else [])
    elif case == 'kept':
        s.alloc('a')
        s.gate('a', [(xs[0], 1)])
        s.gate(xs[1], [('a', 0)])
    elif case == 'local':
        s.alloc('a')
        s.gate('a', [(xs[0], 1)])
        s.gate(xs[1], [('a', 0), (xs[2], 1)])
        s.free('a')
    elif case == 'both':
        s.alloc('a')
        s.gate('a')
        s.alloc('b')
        s.gate('b', [('a', 1)])
        s.gate('a', [('b', 0)])
        s.free('a')
        s.gate('b', [(xs[0], 1)])
    elif case == 'twice':
        for n in 'ab':
            s.alloc(n)
            s.gate(n, [(xs[0], 1)])
            s.free(n)
        s.gate(xs[0])
    elif case == 'nested':
        s.gate(xs[0])
        s.alloc('a')
        s.alloc('b')
        s.gate('b', [('a', 1)])
        s.free('b')
        s.gate('a', [(xs[1], 0)])
        s.free('a')
    elif case == 'tagged':
        s.gate(xs[0], tags=[Tag(1)])
        s.gate(xs[1], [(xs[0], 1)], tags=[ComputeTag()])
        s.gate(xs[2], tags=[UncomputeTag(), Tag(2)])
    elif case == 'dirty':
        s.alloc('a')
        s.gate('a')
        s.gate(xs[0], [('a', 1), (xs[1], 0)], tags=[Tag(1)])
    elif case == 'registers':
        s.alloc('a')
        s.gate([[xs[0], 'a']], [(xs[2], 0)])
        s.alloc('b')
        s.gate([[xs[1]], ['b', xs[2], 'a']])
        s.gate([['a', 'b'], [xs[0]]])
        s.free('b')
        if vc.pick('free', 2):
            s.free('a')
    else:
        s.gate(xs[0], [(xs[1], 0), (xs[2], 1)])
        s.gate(xs[1], [(xs[0], 1)])
    return case


@contract(P, [C + 'ComputeEngine.run_uncompute', C + 'ComputeEngine.receive', C + 'ComputeEngine.end_compute', C + 'Compute.__exit__',
              C + 'Uncompute', C + '_add_uncompute_tag'], samples=300, size_bound='sections of at most 7 operations (100 natively) on 3 outer '
          'qubits (arbitrary ids) and 2 ancillas')
def section(vc):
    """Emitted: section tagged compute, action unchanged, then the inverses in reverse order tagged uncompute."""
    eng, rec = W.make_eng()
    xs = ids(vc, 'x', 3)
    for x in xs:
        vc.assume(x >= 1000) if vc.symbolic else None
    if not vc.symbolic:
        xs = [1000 + x for x in xs]
    nxt = eng.next_engine
    early = eng.allocate_qureg(2)
    early_ids = [q.id for q in early]
    rec.cmds.clear()
    s = Script(vc, eng, xs)
    with Compute(eng):
        body(vc, s, xs)
    names = {}
    n1 = len(rec.cmds)
    com = list(s.log)
    compare(vc, 'compute', rec.cmds[:n1], [(u, t, c, g + ['ComputeTag']) for u, t, c, g in com], names)
    s.log = []
    kept = [n for n in s.live if s.live[n][0].id != -1]
    s.gate(xs[0], [(kept[0], 1)] if kept else [])
    vc.ensure('the section is sent before the action', len(rec.cmds) == n1 + 1)
    compare(vc, 'action', rec.cmds[n1:], s.log, names)
    late = eng.allocate_qubit()
    late_id = late[0].id
    vc.ensure('a qubit allocated by the action is new', len(rec.cmds) == n1 + 2 and late_id not in early_ids
              and late_id not in names.values())
    rec.cmds.pop()
    Uncompute(eng)
    compare(vc, 'uncompute', rec.cmds[n1 + 1:], undone(com), names)
    vc.ensure('the engine chain is restored', eng.next_engine is nxt and eng.n_engines == 1)
    for q in s.live.values():
        vc.ensure('handles of ancillas are invalid afterwards', q[0].id == -1)
    n2 = len(rec.cmds)
    s.live.clear()
    vc.ensure('ancillas are not deallocated again', len(rec.cmds) == n2)
    vc.ensure('other qubits stay valid', [q.id for q in early] == early_ids and late[0].id == late_id)
    for q in [*late, *early]:
        q.__del__()
    vc.ensure('and can be released', [(type(c.gate).__name__, c.qubits[0][0].id, c.tags) for c in rec.cmds[n2:]]
              == [('DeallocateQubitGate', i, []) for i in [late_id] + early_ids])


@contract(P, [C + 'CustomUncompute.__enter__', C + 'CustomUncompute.__exit__', C + 'UncomputeEngine'], samples=200,
          size_bound='sections of at most 7 operations')
def custom_section(vc):
    """A custom uncompute passes the user's operations unchanged apart from the tag; ancillas must be gone at its end."""
    eng, rec = W.make_eng()
    xs = ids(vc, 'x', 3)
    if not vc.symbolic:
        xs = [1000 + x for x in xs]
    for x in xs:
        vc.assume(x >= 1000)
    nxt = eng.next_engine
    s = Script(vc, eng, xs)
    with Compute(eng):
        body(vc, s, xs)
    kept = [n for n in s.live if s.live[n][0].id != -1]
    leave = vc.flag('leave an ancilla alive')
    extra = vc.choose('extra', ['none', 'local', 'alive'])
    names = {}
    compare(vc, 'compute', list(rec.cmds), [(u, t, c, g + ['ComputeTag']) for u, t, c, g in s.log], names)
    n1 = len(rec.cmds)
    s.log = []
    bad = bool(leave and kept) or extra == 'alive'
    try:
        with CustomUncompute(eng):
            s.gate(xs[1], [(xs[0], 0)], tags=[Tag(5)])
            if extra != 'none':
                s.alloc('z')
                s.gate('z')
                if extra == 'local':
                    s.free('z')
            for n in reversed(kept):
                s.gate(n)
                if not leave:
                    s.free(n)
    except Exception as exc:  # pylint: disable=broad-except
        vc.ensure('only ancillas left alive are reported', bad and type(exc).__name__ == 'QubitManagementError', repr(exc))
        _forget(eng)
        return
    vc.ensure('ancillas left alive are reported', not bad)
    compare(vc, 'custom uncompute', rec.cmds[n1:], [(u, t, c, g + ['UncomputeTag']) for u, t, c, g in s.log], names)
    vc.ensure('the engine chain is restored', eng.next_engine is nxt and eng.n_engines == 1)


def _forget(eng):
    for q in list(eng.active_qubits):
        q.id = -1


@contract(P, [C + 'Uncompute', C + 'CustomUncompute.__enter__', C + 'ComputeEngine.end_compute', C + 'ComputeEngine.run_uncompute'],
          samples=60)
def misuse(vc):
    """Misuse is reported with the documented errors."""
    from projectq.meta._exceptions import QubitManagementError
    from projectq.meta._compute import NoComputeSectionError
    eng, rec = W.make_eng()
    case = vc.choose('case', ['uncompute', 'custom', 'outer', 'exchanged', 'custom exchanged', 'gone', 'gone local', 'control between', 'user error'])
    if case == 'uncompute':
        vc.raises('uncompute without compute section', NoComputeSectionError, lambda: Uncompute(eng))
    elif case == 'custom':
        vc.raises('custom uncompute without compute section', NoComputeSectionError, lambda: CustomUncompute(eng).__enter__())
    elif case == 'control between':
        with Compute(eng):
            eng.receive([Command(eng, Opaque('g'), (qs(eng, [7]),))])

        def f():
            with Control(eng, qs(eng, [8])):
                Uncompute(eng)
        vc.raises('uncompute inside an open block of the action', NoComputeSectionError, f)
    elif case == 'outer':
        q = eng.allocate_qubit()

        def f():
            with Compute(eng):
                eng.receive([Command(eng, Opaque('g'), (qs(eng, [7]),))])
                q[0].__del__()
        vc.raises('deallocating an outer qubit in the compute section', QubitManagementError, f)
    elif case == 'exchanged':
        q = eng.allocate_qubit()
        hold = []

        def f():
            with Compute(eng):
                hold.append(eng.allocate_qubit())
                q[0].__del__()
        vc.raises('an outer qubit exchanged for a new one in the compute section', QubitManagementError, f)
    elif case == 'custom exchanged':
        q = eng.allocate_qubit()
        with Compute(eng):
            a = eng.allocate_qubit()

        def f():
            with CustomUncompute(eng):
                q[0].__del__()
        vc.raises('an outer qubit deallocated instead of the ancilla', QubitManagementError, f)
        del a
    elif case in ('gone', 'gone local'):
        with Compute(eng):
            a = eng.allocate_qubit()
            if case == 'gone local':
                b = eng.allocate_qubit()
                b[0].__del__()
        a[0].__del__()
        vc.raises('an ancilla of the compute section deallocated by the action', QubitManagementError, lambda: Uncompute(eng))
    else:
        nxt = eng.next_engine
        with Compute(eng):
            pass
        try:
            with CustomUncompute(eng):
                raise KeyError('user error')
        except KeyError:
            vc.ensure('errors of the user are passed on', True)
        del nxt
    _forget(eng)


@bounded(P, [C + 'Compute', C + 'Uncompute', C + 'CustomUncompute', 'projectq.meta'], 'random meta-programs: 3 data qubits, nesting '
         'depth 3, at most 3 statements per block', samples=1500, thorough=30000, weight=3)
def programs(vc):
    """Whole programs: exact list of emitted operations and their operator (A, B, inverse of A)."""
    n = 3
    kinds = ['ctrl', 'cau', 'ccau', 'dag', 'loop', 'anc', 'anccomp']
    a = progs.draw(vc, range(n), 2, kinds, 2)
    b = progs.draw(vc, range(n), 1, ['ctrl', 'cau', 'anc'], 2, False)
    prog = [(vc.choose('how', ['cau', 'cau', 'ccau']), a, b)]
    progs.check_program(vc, prog, n, tagloop=vc.flag('loop tags'))


@bounded(P, [C + 'ComputeEngine.run_uncompute'], 'operations on ancillas of the compute section inside the action and nested '
         'compute sections with ancillas', samples=300)
def nested_sections(vc):
    """Compute sections inside compute sections, each with its own ancillas."""
    eng, rec = W.make_eng()
    data = eng.allocate_qureg(2)
    ids_ = [q.id for q in data]
    n0 = len(rec.cmds)
    th = vc.real('theta', -3, 3)
    outer_kind = vc.choose('outer', ['kept', 'local'])
    inner_kind = vc.choose('inner', ['kept', 'local', 'none'])
    with Compute(eng):
        a = eng.allocate_qubit()
        ops.CNOT | (data[0], a)
        with Compute(eng):
            if inner_kind != 'none':
                b = eng.allocate_qubit()
                ops.CNOT | (a, b)
                ops.CNOT | (data[1], b)
                if inner_kind == 'local':
                    ops.Rz(th) | b
                    ops.CNOT | (data[1], b)
                    ops.CNOT | (a, b)
                    b[0].__del__()
        ops.S | a
        Uncompute(eng)
        if outer_kind == 'local':
            ops.CNOT | (data[0], a)
            a[0].__del__()
    ops.Rx(th) | data[1]
    Uncompute(eng)
    sim = progs.Sim(vc, ids_)
    for c in rec.cmds[n0:]:
        sim.cmd(c)
    vc.ensure('no ancilla is left alive', sim.live == ids_)
    import numpy as np
    rx = progs.embed(W.rot(W.Float, 'X', th), [1], 2)
    s_on0 = progs.embed([[1, 0], [0, 1j]], [0], 2)
    a_ = s_on0       # the inner section is undone inside the outer one
    vc.ensure('operator', np.allclose(sim.v, a_.conj().T @ rx @ a_, atol=1e-8))

