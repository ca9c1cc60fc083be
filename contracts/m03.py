"""M03: a dagger block emits the inverse of its body in reverse order."""
from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract
from pv.num import Unsupported

import projectq.ops as ops
from projectq.meta import Dagger
from projectq.meta._exceptions import QubitManagementError
from projectq.ops import Command

from .c01 import Opaque, ids, qs
from .m01 import abstract, arbitrary_command, has
from .m02 import Script, _forget, body, compare

P = 'M03'
C = 'projectq.meta._dagger.'
FLIP = {'AllocateQubitGate': 'DeallocateQubitGate', 'DeallocateQubitGate': 'AllocateQubitGate'}


def inverted(w):
    return (FLIP[w[0]] if isinstance(w[0], str) and w[0] in FLIP else ('inv', w[0]),) + tuple(w[1:])


@contract(P, [C + 'DaggerEngine.receive', C + 'Dagger.__enter__'], samples=200)
def receive(vc):
    """Nothing leaves; every command of a list of any length is kept in order; allocations are noted."""
    eng, rec = W.make_eng()
    d = Dagger(eng)
    d.__enter__()
    e = eng.next_engine
    if not vc.symbolic:
        eng.receive([arbitrary_command(vc, eng, []) for _ in range(vc.pick('length', 5))])
        vc.ensure('nothing leaves the block', not rec.cmds)
        return
    vc.priv(e, '_commands')
    vc.priv(e, '_allocated_qubit_ids')
    vc.priv(e, '_deallocated_qubit_ids')
    kept = e._commands = loops.TraceList()
    al, de = loops.TraceSet(), loops.TraceSet()
    e._allocated_qubit_ids, e._deallocated_qubit_ids = al, de
    rec.cmds = loops.TraceList()
    st = {}

    def make():
        c = arbitrary_command(vc, eng, [])
        st['want'] = abstract(c)
        return c

    def check(c):
        has(vc, 'the command is not changed', abstract(c), st['want'])
        q = c.qubits[0][0].id
        with vc.internal():
            for name, log, gate in (('allocated', al, 'AllocateQubitGate'), ('deallocated', de, 'DeallocateQubitGate')):
                vc.ensure('number of ids noted as ' + name, len(log.log) == (1 if st['want'][0] == gate else 0))
                for x in log.log:
                    vc.eq('id noted as ' + name, x, q)
            out = kept.added()
            vc.ensure('kept at most once', len(out) <= 1 and all(x is c for x in out))
            vc.ensure('nothing leaves the block', not rec.cmds.added())
        st['one'] = True

    seq = loops.Arbitrary(vc, make, check)
    eng.receive(seq)
    out = kept.added()
    with vc.internal():
        vc.ensure('the whole list is kept once, in order', len(out) == 1 and out[0][1] is seq)
        vc.ensure('nothing leaves the block', not rec.cmds.added())


@contract(P, [C + 'DaggerEngine.run', C + 'Dagger.__exit__'], samples=200)
def run(vc):
    """At the end the inverse of every kept command is sent, for a body of any length, in reverse order."""
    eng, rec = W.make_eng()
    nxt = eng.next_engine
    d = Dagger(eng)
    d.__enter__()
    e = eng.next_engine

    def make():
        k = vc.choose('kind', ['gate', 'alloc', 'dealloc'])
        if k == 'gate':
            c = arbitrary_command(vc, eng, [])
            vc.assume(isinstance(c.gate, Opaque))
            return c
        x = ids(vc, 'x', 1)
        return Command(eng, ops.Allocate if k == 'alloc' else ops.Deallocate, (qs(eng, x),))

    if not vc.symbolic:
        cmds = []
        for _ in range(vc.pick('length', 5)):
            c = arbitrary_command(vc, eng, [])
            vc.assume(isinstance(c.gate, Opaque))
            cmds.append(c)
        want = [inverted(abstract(c)) for c in reversed(cmds)]
        eng.receive(cmds)
        d.__exit__(None, None, None)
        vc.ensure('every inverse once', len(rec.cmds) == len(want))
        for g, w in zip(rec.cmds, want):
            has(vc, 'inverse in reverse order', abstract(g), w)
        vc.ensure('the chain is restored', eng.next_engine is nxt and eng.n_engines == 1)
        return
    vc.priv(e, '_commands')
    st = {}

    def mk():
        c = make()
        st['want'] = inverted(abstract(c))
        st['n'] = len(rec.cmds)
        return c

    class Back(loops.Arbitrary):
        """May only be traversed from the end."""

        def __iter__(self):
            raise Unsupported('the body is traversed in another way')

    def check(c):
        got = rec.cmds[st['n']:]
        if not got:
            raise Unsupported('the output is not produced element by element')
        vc.ensure('one inverse per command', len(got) == 1)
        has(vc, 'inverse of the command', abstract(got[0]), st['want'])

    def leave():
        st['exit'] = len(rec.cmds)

    e._commands = Back(vc, mk, check, leave=leave)
    d.__exit__(None, None, None)
    vc.ensure('nothing else is sent', len(rec.cmds) == st.get('exit'))
    vc.ensure('the chain is restored', eng.next_engine is nxt and eng.n_engines == 1)


@contract(P, [C + 'DaggerEngine', C + 'Dagger'], samples=300, size_bound='bodies of at most 7 operations on 3 outer qubits '
          '(arbitrary ids) and 2 ancillas')
def block(vc):
    """Exact list emitted by a block; qubits left alive are reported; local qubits appear allocate first."""
    eng, rec = W.make_eng()
    xs = ids(vc, 'x', 3)
    if not vc.symbolic:
        xs = [1000 + x for x in xs]
    for x in xs:
        vc.assume(x >= 1000)
    nxt = eng.next_engine
    s = Script(vc, eng, xs)
    double = vc.flag('nested')
    try:
        with Dagger(eng):
            if double:
                with Dagger(eng):
                    body(vc, s, xs)
            else:
                body(vc, s, xs)
            vc.ensure('nothing leaves the block before its end', not rec.cmds)
    except Exception as exc:  # pylint: disable=broad-except
        alive = any(q[0].id != -1 for q in s.live.values())
        vc.ensure('only qubits left alive are reported', alive and type(exc).__name__ == 'QubitManagementError', repr(exc))
        _forget(eng)
        return
    vc.ensure('qubits left alive are reported', all(q[0].id == -1 for q in s.live.values()))
    want = [(u, t, c, g) for u, t, c, g in s.log]
    for _ in range(1 + double):
        want = [(FLIP[u] if u in FLIP else ('inv', u), t, c, g) for u, t, c, g in reversed(want)]
    compare(vc, 'dagger block', list(rec.cmds), want)
    vc.ensure('the chain is restored', eng.next_engine is nxt and eng.n_engines == 1)


@contract(P, [C + 'DaggerEngine.run', C + 'Dagger.__exit__'], samples=60)
def misuse(vc):
    """Outer qubits deallocated inside, qubits alive, operations without inverse, errors of the user."""
    eng, rec = W.make_eng()
    nxt = eng.next_engine
    case = vc.choose('case', ['outer', 'alive', 'exchanged', 'measure', 'user error'])
    if case == 'outer':
        q = eng.allocate_qubit()

        def f():
            with Dagger(eng):
                q[0].__del__()
        vc.raises('deallocating an outer qubit', QubitManagementError, f)
    elif case == 'alive':
        hold = []

        def f():
            with Dagger(eng):
                hold.append(eng.allocate_qubit())
        vc.raises('a qubit left alive', QubitManagementError, f)
    elif case == 'exchanged':
        q = eng.allocate_qubit()
        hold = []

        def f():
            with Dagger(eng):
                hold.append(eng.allocate_qubit())
                ops.H | hold[0]
                q[0].__del__()
        vc.raises('an outer qubit exchanged for a local one', QubitManagementError, f)
    elif case == 'measure':
        with Dagger(eng):
            eng.receive([Command(eng, Opaque('g'), (qs(eng, [7]),)), Command(eng, ops.Measure, (qs(eng, [7]),))])
        vc.ensure('an operation without inverse is emitted as its own dagger, never dropped or replaced',
                  len(rec.cmds) == 2 and isinstance(rec.cmds[0].gate, ops.DaggeredGate) and
                  rec.cmds[0].gate.get_inverse() is ops.Measure)
        from projectq.backends import ClassicalSimulator, Simulator
        for be in (Simulator(), ClassicalSimulator()):
            vc.ensure('and refused by the simulators', not be.is_available(rec.cmds[0]))
    else:
        try:
            with Dagger(eng):
                eng.receive([Command(eng, Opaque('g'), (qs(eng, [7]),))])
                raise KeyError('user error')
        except KeyError:
            vc.ensure('errors of the user are passed on and nothing is emitted', not rec.cmds)
    del nxt
    _forget(eng)


@bounded(P, [C + 'Dagger', 'projectq.meta'], 'random meta-programs: 3 data qubits, nesting depth 3, at most 3 statements per '
         'block', samples=1500, thorough=30000, weight=3)
def programs(vc):
    """Whole programs inside dagger blocks: exact list and adjoint operator."""
    n = 3
    prog = [('dag', progs.draw(vc, range(n), 2, ['ctrl', 'cau', 'ccau', 'dag', 'dag', 'loop', 'anc', 'anccomp']))]
    if vc.flag('enclosed'):
        prog = [vc.choose('by', [('dag', prog), ('cau', prog, [('g', ops.H, [0])]), ('loop', 2, prog),
                                 ('cau', [('g', ops.H, [1])], prog)])]
    progs.check_program(vc, prog, n, tagloop=vc.flag('loop tags'))
