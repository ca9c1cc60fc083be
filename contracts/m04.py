"""M04: a loop block repeats its body exactly the requested number of times."""
from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.meta import Loop, LoopTag
from projectq.meta._exceptions import QubitManagementError
from projectq.ops import Command

from .c01 import Opaque, Tag, ids, qs
from .m01 import abstract as _abstract
from .m01 import arbitrary_command, has
from .m02 import Script, _forget, body, compare

P = 'M04'
C = 'projectq.meta._loop.'


def abstract(c):
    a = _abstract(c)
    return a[:3] + ([f'Loop{t.num}' if isinstance(t, LoopTag) else n for t, n in zip(c.tags, a[3])],)


def make(vc, tags=False):
    eng, rec = W.make_eng()
    if tags:
        rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    return eng, rec


@contract(P, [C + 'LoopEngine.receive', C + 'Loop.__enter__'], samples=200)
def tagged(vc):
    """With an engine that supports loop tags, every command of a list of any length is sent once with the count."""
    eng, rec = make(vc, True)
    n = vc.choose('times', [2, 3, 7])
    e = Loop(eng, n)
    e.__enter__()
    le = eng.next_engine
    tags = []

    def spec(c):
        w = _abstract(c)
        return [w[:3] + (w[3] + [f'Loop{n}'],)]

    if not vc.symbolic:
        cmds = [arbitrary_command(vc, eng, []) for _ in range(vc.pick('length', 5))]
        want = [y for c in cmds for y in spec(c)]
        eng.receive(cmds)
        vc.ensure('each command once', len(rec.cmds) == len(want))
        for g, w in zip(rec.cmds, want):
            has(vc, 'tagged command', abstract(g), w)
            tags.append(g.tags[-1])
        vc.ensure('one loop has one tag', all(t == tags[0] for t in tags))
        _forget(eng)
        return
    al, de = loops.TraceSet(), loops.TraceSet()
    vc.priv(le, '_allocated_qubit_ids')
    le._allocated_qubit_ids, le._deallocated_qubit_ids = al, de
    st = {}

    def mk():
        c = arbitrary_command(vc, eng, [])
        st['want'] = spec(c)[0]
        st['n'] = len(rec.cmds)
        return c

    def check(c):
        got = rec.cmds[st['n']:]
        if not got:
            from pv.num import Unsupported
            raise Unsupported('the output is not produced element by element')
        vc.ensure('each command once', len(got) == 1)
        has(vc, 'tagged command', abstract(got[0]), st['want'])
        q = c.qubits[0][0].id
        for log, gate in ((al, 'AllocateQubitGate'), (de, 'DeallocateQubitGate')):
            vc.ensure('allocations are noted', len(log.log) == (1 if st['want'][0] == gate else 0))
            for x in log.log:
                vc.eq('noted id', x, q)
        c2 = Command(eng, Opaque('z'), (qs(eng, [1]),))
        eng.receive([c2])
        vc.ensure('one loop has one tag', rec.cmds[-1].tags[-1] == got[0].tags[-1])

    seq = loops.Arbitrary(vc, mk, check)
    eng.receive(seq)
    vc.ensure('nothing else is sent', not rec.cmds)


@contract(P, [C + 'LoopTag.__init__', C + 'LoopTag.__eq__'], samples=20)
def tags_differ(vc):
    a, b = LoopTag(3), LoopTag(3)
    vc.ensure('tags of different loops differ', not a == b and a == a and not a == Tag(3))
    c = LoopTag(4)
    vc.ensure('tags of different counts differ', not a == c)


@contract(P, [C + 'LoopEngine.receive', C + 'LoopEngine.run', C + 'Loop.__exit__'], samples=400,
          size_bound='at most 3 repetitions (12 natively) of bodies of at most 7 operations on 3 outer qubits (arbitrary ids) and 2 ancillas')
def unrolled(vc):
    """Exact list emitted by a loop block: the body, repeated; local qubits get new ids in every repetition."""
    tagmode = vc.flag('loop tags supported')
    eng, rec = make(vc, tagmode)
    n = vc.pick('times', 4) if vc.symbolic else vc.choose('times', [0, 1, 2, 3, 5, 8, 12])
    xs = ids(vc, 'x', 3)
    if not vc.symbolic:
        xs = [1000 + x for x in xs]
    for x in xs:
        vc.assume(x >= 1000)
    nxt = eng.next_engine
    s = Script(vc, eng, xs)
    try:
        with Loop(eng, n):
            body(vc, s, xs)
            if not tagmode and n != 1:
                vc.ensure('nothing is sent before the end of an unrolled loop', not rec.cmds)
    except Exception as exc:  # pylint: disable=broad-except
        alive = any(q[0].id != -1 for q in s.live.values())
        vc.ensure('only qubits left alive are reported', alive and type(exc).__name__ == 'QubitManagementError', repr(exc))
        _forget(eng)
        return
    if n != 1:
        vc.ensure('qubits left alive are reported', all(q[0].id == -1 for q in s.live.values()))
    one = list(s.log)
    cmds = list(rec.cmds)
    if tagmode and n != 1:
        want = [(u, t, c, g + [f'Loop{n}']) for u, t, c, g in one] if n else []
        for c in cmds:
            vc.ensure('loop tag', any(isinstance(t, LoopTag) and t.num == n for t in c.tags))
            c.tags = [Tag2(f'Loop{t.num}') if isinstance(t, LoopTag) else t for t in c.tags]
    else:
        want = one * n
    compare2(vc, cmds, want)
    vc.ensure('the chain is restored', eng.next_engine is nxt and eng.n_engines == 1)
    _forget(eng)


class Tag2(Tag):
    """Replaces a loop tag."""


def compare2(vc, cmds, want):
    fixed = []
    for c in cmds:
        c.tags = [t for t in c.tags if not isinstance(t, Tag2)]
        fixed.append(c)
    compare(vc, 'loop block', fixed, [(u, t, c, [x for x in g if not x.startswith('Loop')]) for u, t, c, g in want])


@contract(P, [C + 'Loop.__init__', C + 'LoopEngine.run', C + 'LoopEngine.receive'], samples=80)
def misuse(vc):
    """Wrong counts; outer qubits deallocated or local qubits left alive, whatever the count and mode."""
    tagmode = vc.flag('loop tags supported')
    eng, rec = make(vc, tagmode)
    case = vc.choose('case', ['count', 'outer', 'alive', 'swap'])
    n = vc.choose('times', [0, 2, 3])
    if case == 'count':
        for bad in (1.0, '2', None, 2.5):
            vc.raises('the count must be an integer', TypeError, lambda b=bad: Loop(eng, b))
        vc.raises('the count must not be negative', ValueError, lambda: Loop(eng, -1 - n))
    elif case == 'outer':
        q = eng.allocate_qubit()

        def f():
            with Loop(eng, n):
                ops.H | q
                q[0].__del__()
        # deallocation of an outer qubit may already be reported when it is issued
        _err(vc, 'deallocating an outer qubit', f)
    elif case == 'alive':
        hold = []

        def f():
            with Loop(eng, n):
                hold.append(eng.allocate_qubit())
                ops.H | hold[-1]
        _err(vc, 'a qubit left alive', f)
    else:
        q = eng.allocate_qubit()
        hold = []

        def f():
            with Loop(eng, n):
                hold.append(eng.allocate_qubit())
                q[0].__del__()
        _err(vc, 'an outer qubit exchanged for a local one', f)
    _forget(eng)


def _err(vc, what, f):
    try:
        f()
    except (QubitManagementError, KeyError, RuntimeError, ValueError):
        vc.ensure(what + ' is reported', True)
        return
    vc.ensure(what + ' is reported', False, 'no error')


@bounded(P, [C + 'Loop', 'projectq.meta'], 'random meta-programs: 3 data qubits, nesting depth 3, at most 3 statements per '
         'block, loops of 0 to 3 repetitions', samples=1500, thorough=30000, weight=3)
def programs(vc):
    """Whole programs inside loop blocks, unrolled or tagged: exact list and power of the operator."""
    n = 3
    prog = [('loop', vc.pick('times', 4), progs.draw(vc, range(n), 2, ['ctrl', 'cau', 'dag', 'loop', 'loop', 'anc', 'anccomp']))]
    if vc.flag('enclosed'):
        prog = [vc.choose('by', [('dag', prog), ('cau', prog, [('g', ops.H, [0])]), ('loop', 2, prog),
                                 ('cau', [('g', ops.H, [1])], prog)])]
    progs.check_program(vc, prog, n, tagloop=vc.flag('loop tags'))


_ = Command
