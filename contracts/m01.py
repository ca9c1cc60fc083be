"""M01: a control block controls exactly the operations issued inside it."""
from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract
from pv.num import Unsupported

import projectq.ops as ops
from projectq.meta import Compute, ComputeTag, Control, CustomUncompute, Dagger, DirtyQubitTag, Loop, LoopTag, Uncompute, UncomputeTag
from projectq.ops import Command, CtrlAll
from projectq.ops._metagates import ControlQubitError

from .c01 import Opaque, Tag, ids, qs

P = 'M01'
C = 'projectq.meta._control.'
STATES = {1: ['0', CtrlAll.One, 0], 2: ['01', 2, CtrlAll.Zero], 3: ['011', 4]}
TAGS = [[], [Tag(3)], [ComputeTag()], [UncomputeTag()], [Tag(1), ComputeTag()], [DirtyQubitTag()], [ComputeTag(), UncomputeTag()]]


def bits(state, n):
    """Documented meaning of a control state: one value per listed control qubit."""
    if state is CtrlAll.One:
        return [1] * n
    if state is CtrlAll.Zero:
        return [0] * n
    if isinstance(state, str):
        return [int(c) for c in state]
    return [(state >> i) & 1 for i in range(n)]


def tagname(t):
    return type(t).__name__ + (str(t.v) if isinstance(t, Tag) else '')


def abstract(c):
    """What a recorded command denotes: (gate, targets, sorted (control, value) by id order, tags)."""
    return (getattr(c.gate, 'uid', type(c.gate).__name__), [[q.id for q in r] for r in c.qubits],
            list(zip([q.id for q in c.control_qubits], [int(b) for b in c.control_state])),
            [tagname(t) for t in c.tags])


def has(vc, name, got, want):
    """Same operation: controls compared as a set of (qubit, value)."""
    loops.same(vc, name + ': gate', got[0], want[0])
    loops.same(vc, name + ': targets', got[1], want[1])
    loops.same(vc, name + ': tags', got[3], want[3])
    vc.ensure(name + ': number of controls', len(got[2]) == len(want[2]), f'{got[2]} / {want[2]}')
    for x, v in want[2]:
        hit = False
        for y, w in got[2]:
            if v == w:
                hit = hit | (x == y)
        vc.ensure(name + ': every control with its value', hit)


def arbitrary_command(vc, eng, avoid, wide=True):
    """Any command: quantum or classical, tagged or not, with or without own controls."""
    kind = vc.choose('kind', ['quantum', 'alloc', 'dealloc', 'measure', 'flush'])
    own = vc.pick('own controls', 3 if wide else 2) if kind == 'quantum' else 0
    xs = ids(vc, 'c', own + 1 + (vc.pick('two', 2) if kind == 'quantum' and not own else 0))
    for x in xs:
        for a in avoid:
            vc.assume(x != a)
    if own == 2:
        vc.assume(xs[0] < xs[1])
    st = vc.choose('own state', ['', '10', '01'][:1] if not own else ['0', '1'] if own == 1 else ['10', '01'])
    tags = list(vc.choose('tags', TAGS if not own else TAGS[:2]))
    gate = {'quantum': Opaque('g'), 'alloc': ops.Allocate, 'dealloc': ops.Deallocate, 'measure': ops.Measure,
            'flush': ops.FlushGate()}[kind]
    return Command(eng, gate, tuple([q] for q in qs(eng, xs[own:])), controls=qs(eng, xs[:own]), control_state=st, tags=tags)


@contract(P, [C + 'ControlEngine.receive', C + 'ControlEngine._handle_command', C + 'Control.__enter__', C + 'Control.__exit__',
              'projectq.ops._command.Command.add_control_qubits'], samples=300,
          assumptions=['at most 3 control qubits in the block and 2 own controls per command; command lists of any length'])
def command_stream(vc):
    """Whatever list of commands is issued inside the block, each arrives once, in order, with the controls added."""
    eng, rec = W.make_eng()
    n = 1 + vc.pick('n', 3)
    cs = ids(vc, 'k', n)
    for a, b in zip(cs, cs[1:]):
        if n > 2 or vc.symbolic:
            vc.assume(a < b)      # the listing order is the subject of C01.control_order
    state = vc.choose('state', STATES[n])
    want_bits = bits(state, n)

    def make():
        return arbitrary_command(vc, eng, cs, n == 1)

    def spec(c):
        a = abstract(c)
        plain = isinstance(c.gate, ops.ClassicalInstructionGate) or any(isinstance(t, (ComputeTag, UncomputeTag)) for t in c.tags)
        return [(a[0], a[1], a[2] + ([] if plain else list(zip(cs, want_bits))), a[3])]

    nxt = eng.next_engine
    with Control(eng, qs(eng, cs), ctrl_state=state):
        vc.ensure('one engine is inserted', eng.next_engine is not nxt and eng.next_engine.next_engine is nxt and
                  eng.next_engine.main_engine is eng)
        stream_set(vc, 'control block', make, eng.receive, spec, lambda: [abstract(c) for c in rec.cmds], [eng.next_engine])
    vc.ensure('the engine chain is restored', eng.next_engine is nxt and eng.n_engines == 1)


def stream_set(vc, name, make, feed, spec, rec, objs):
    """loops.stream with controls compared as sets."""
    old = loops.same

    def cmp(vc_, nm, g, w):
        loops.same = old
        try:
            has(vc_, nm, g, w)
        finally:
            loops.same = cmp
    loops.same = cmp
    try:
        loops.stream(vc, name, make, feed, spec, rec, objs)
    finally:
        loops.same = old


@contract(P, [C + 'Control.__init__', C + 'Control.__enter__', C + 'Control.__exit__', C + 'canonical_ctrl_state'], samples=60)
def block_arguments(vc):
    """A single qubit, an empty list, wrong types; nothing is inserted for an empty block; errors restore the chain."""
    eng, rec = W.make_eng()
    nxt = eng.next_engine
    q = qs(eng, [vc.int('k', 0, 30)])[0]
    case = vc.choose('case', ['single', 'empty', 'tuple', 'long', 'error'])
    vc.assume(q.id != 31)
    if case == 'single':
        with Control(eng, q):
            eng.receive([Command(eng, Opaque('g'), (qs(eng, [31]),))])
        has(vc, 'single control qubit', abstract(rec.cmds[0]), ('g', [[31]], [(q.id, 1)], []))
    elif case == 'empty':
        with Control(eng, []):
            vc.ensure('nothing is inserted', eng.next_engine is nxt)
            eng.receive([Command(eng, Opaque('g'), (qs(eng, [31]),))])
        has(vc, 'no control qubit', abstract(rec.cmds[0]), ('g', [[31]], [], []))
    elif case == 'tuple':
        vc.raises('tuples are refused', TypeError, lambda: Control(eng, (q,)))
    elif case == 'long':
        vc.raises('control state of wrong length is refused', ValueError, lambda: Control(eng, [q], ctrl_state='11'))
    else:
        try:
            with Control(eng, [q]):
                raise KeyError('user error')
        except KeyError:
            pass
    vc.ensure('the engine chain is restored', eng.next_engine is nxt and eng.n_engines == 1)


@contract(P, ['projectq.ops._metagates.Tensor.__or__'], samples=100, size_bound='registers of at most 4 qubits (12 in the native runs)')
def tensor_gates(vc):
    """Tensor(g) | reg is g on every qubit, in order; two registers are refused."""
    eng, rec = W.make_eng()
    g = Opaque('g')
    xs = ids(vc, 'x', 1 + vc.pick('n', 4 if vc.symbolic else 12))
    if vc.flag('two registers'):
        vc.raises('two registers are refused', ValueError, lambda: ops.Tensor(g) | (qs(eng, xs), qs(eng, xs[:1])))
        vc.ensure('nothing is emitted', not rec.cmds)
        return
    ops.All(g) | (qs(eng, xs) if vc.flag('bare') else (qs(eng, xs),))
    vc.ensure('one operation for each qubit', len(rec.cmds) == len(xs))
    for c, x in zip(rec.cmds, xs):
        has(vc, 'each qubit', abstract(c), ('g', [[x]], [], []))


@contract(P, ['projectq.ops._metagates.ControlledGate.__init__', 'projectq.ops._metagates.ControlledGate.__or__', 'projectq.ops._metagates.C',
              C + 'Control.__enter__', C + 'ControlEngine._handle_command'], samples=400,
          size_bound='at most 3 control qubits (9 in the native runs) in at most 3 registers, one or two target registers')
def controlled_gates(vc):
    """C(g, n) | qubits is g controlled on the first n qubits; wrong shapes are refused."""
    eng, rec = W.make_eng()
    nxt = eng.next_engine
    top = 3 if vc.symbolic else 9
    g = Opaque('g')
    sizes = [1 + vc.pick('size', top if vc.symbolic else 5) for _ in range(1 + vc.pick('registers', 2 if vc.symbolic else 3))]
    k = sum(sizes)
    n = k + vc.choose('declared', [0, 0, 0, 1, -1])
    vc.assume(0 < n and k <= top)
    targets = [1 + vc.pick('width', 2) for _ in range(1 + vc.pick('targets', 2))]
    xs = ids(vc, 'x', k + sum(targets))
    regs, i = [], 0
    for w in sizes + targets:
        regs.append(xs[i:i + w])
        i += w
    # which leading registers hold exactly the n control qubits
    total, used = 0, 0
    while total < n and used < len(regs):
        total += len(regs[used])
        used += 1
    args = tuple(qs(eng, r) if len(r) > 1 or (r is not regs[0] if vc.symbolic else vc.flag('list')) else qs(eng, r)[0] for r in regs)
    outer = vc.pick('outer', n)
    gate = ops.C(ops.C(g, n - outer), outer) if outer else ops.C(g, n)
    if total != n:
        vc.raises('a register across the boundary is refused', ControlQubitError, lambda: gate | args)
        vc.ensure('nothing is emitted', not rec.cmds)
        return
    vc.assume(used < len(regs))
    gate | args
    vc.ensure('the engine chain is restored', eng.next_engine is nxt and eng.n_engines == 1)
    vc.ensure('one operation', len(rec.cmds) == 1)
    has(vc, 'the controlled operation', abstract(rec.cmds[0]), ('g', regs[used:], [(x, 1) for r in regs[:used] for x in r], []))


@contract(P, [C + 'ControlEngine.receive', C + 'ControlEngine._handle_command'], samples=200, size_bound='3 nested blocks')
def nested_blocks(vc):
    """Nested blocks accumulate their controls and values."""
    eng, rec = W.make_eng()
    d = 1 + vc.pick('depth', 3)
    cs = ids(vc, 'k', d)
    st = [vc.choose('state', ['0', '1', CtrlAll.Zero]) for _ in range(d)]
    for x, y in zip(cs, cs[1:]):
        vc.assume(x < y)
    cmd = arbitrary_command(vc, eng, cs, False)
    a = abstract(cmd)
    plain = isinstance(cmd.gate, ops.ClassicalInstructionGate) or any(isinstance(t, (ComputeTag, UncomputeTag)) for t in cmd.tags)

    def nest(k):
        if k == d:
            eng.receive([cmd])
            return
        with Control(eng, qs(eng, [cs[k]]), ctrl_state=st[k]):
            nest(k + 1)
    nest(0)
    vc.ensure('arrives once', len(rec.cmds) == 1)
    has(vc, 'nested control', abstract(rec.cmds[0]),
        (a[0], a[1], a[2] + ([] if plain else [(c, bits(s, 1)[0]) for c, s in zip(cs, st)]), a[3]))


@contract(P, [C + 'ControlEngine', 'projectq.meta._compute.ComputeEngine', 'projectq.meta._compute.UncomputeEngine'], samples=200,
          size_bound='at most 2 operations per section')
def compute_inside_control(vc):
    """Sections opened inside the block stay uncontrolled, sections opened outside do not exempt anything."""
    eng, rec = W.make_eng()
    k = ids(vc, 'k', 1)
    inside = vc.flag('compute opened inside')
    custom = vc.flag('custom uncompute')
    na, nb = 1 + vc.pick('na', 2), 1 + vc.pick('nb', 2)
    xs = ids(vc, 'x', na + nb)
    for x in xs:
        vc.assume(x != k[0])
    ctl = [(k[0], 1)]

    def send(uid, x):
        eng.receive([Command(eng, Opaque(uid), (qs(eng, [x]),))])

    def section(wrap):
        with Compute(eng):
            wrap(lambda: [send(('a', i), xs[i]) for i in range(na)])
        wrap(lambda: [send(('b', i), xs[na + i]) for i in range(nb)])
        if custom:
            with CustomUncompute(eng):
                wrap(lambda: [send(('inv', ('a', i)), xs[i]) for i in reversed(range(na))])
        else:
            Uncompute(eng)

    def controlled(f):
        with Control(eng, qs(eng, k)):
            f()
    if inside:
        controlled(lambda: section(lambda f: f()))
    else:
        section(controlled)
    c_ = [] if inside else ctl
    want = [(('a', i), [[xs[i]]], c_, ['ComputeTag']) for i in range(na)]
    want += [(('b', i), [[xs[na + i]]], ctl, []) for i in range(nb)]
    want += [(('inv', ('a', i)), [[xs[i]]], c_, ['UncomputeTag']) for i in reversed(range(na))]
    vc.ensure('number of operations', len(rec.cmds) == len(want), f'{len(rec.cmds)}')
    for g, w in zip(rec.cmds, want):
        has(vc, 'control with compute', abstract(g), w)


@bounded(P, [C + 'Control', 'projectq.meta'], 'random meta-programs: 3 data qubits, nesting depth 3, at most 3 statements per '
         'block, control values, ancillas', samples=1500, thorough=30000, weight=3)
def programs(vc):
    """Whole programs: emitted operations and operator are those of the controlled body."""
    n = 3
    prog = [('ctrl', [vc.pick('ctl', n)], str(vc.pick('val', 2)), None)]
    q = prog[0][1][0]
    free = [i for i in range(n) if i != q]
    body = progs.draw(vc, free, 2, ['ctrl', 'cau', 'ccau', 'dag', 'loop', 'anc', 'anccomp'])
    prog = [('ctrl', [q], prog[0][2], body)]
    if vc.flag('enclosed'):
        prog = [vc.choose('by', [('dag', prog), ('cau', prog, [('g', ops.H, [0])]), ('loop', 2, prog),
                                 ('cau', [('g', ops.H, [q])], prog)])]
    progs.check_program(vc, prog, n)


@bounded(P, [C + 'has_negative_control', C + 'get_control_count'], 'all control states of up to 4 controls', exhaustive=True)
def helpers(vc):
    from projectq.meta import get_control_count, has_negative_control
    n = vc.pick('n', 5)
    s = ''.join(str(vc.pick('b', 2)) for _ in range(n))
    eng, _ = W.make_eng()
    c = Command(eng, ops.X, (qs(eng, [9]),), controls=qs(eng, range(n)), control_state=s)
    vc.ensure('number of controls', get_control_count(c) == n)
    vc.ensure('negative control', has_negative_control(c) == ('0' in s))


@bounded(P, [C + 'Control', C + 'ControlEngine.receive', C + 'canonical_ctrl_state'],
         'up to 4 nested blocks of up to 9 controls each, control states as integers (any value), strings and constants; commands of up to 6 own controls '
         'and 4 targets, with up to 7 tags in any order; all integer states of up to 6 controls', samples=3000, thorough=30000)
def wide(vc):
    """Many controls, many blocks: every listed qubit controls with its own value."""
    eng, rec = W.make_eng()
    W.reserve(eng, 100)
    pool = list(range(60))

    def take(k):
        return [pool.pop(vc.pick('id', len(pool))) for _ in range(k)]
    if vc.pick('every state', 4) == 0:
        n = 1 + vc.pick('few', 6)
        a = take(n + 1)
        for v in range(1 << n):
            with Control(eng, qs(eng, a[:n]), ctrl_state=v):
                eng.receive([Command(eng, Opaque('g'), (qs(eng, a[n:]),))])
            has(vc, f'state {v}', abstract(rec.cmds[-1]), ('g', [a[n:]], list(zip(a, bits(v, n))), []))
        vc.ensure('one operation each', len(rec.cmds) == 1 << n)
        vc.raises('a larger number is refused', ValueError, lambda: Control(eng, qs(eng, a[:n]), ctrl_state=1 << n))
        return
    blocks = []
    for _ in range(1 + vc.pick('depth', 4)):
        k = 1 + vc.pick('controls', 9)
        st = vc.choose('how', ['int', 'string', 'one', 'zero', 'low', 'high'])
        r = vc.pick('state', 1 << k)
        blocks.append((take(k), {'int': r, 'string': format(r, f'0{k}b'), 'one': CtrlAll.One, 'zero': CtrlAll.Zero, 'low': r & 3 & (1 << k) - 1,
                                 'high': 1 << k - 1}[st]))
    own, state, want, on = [], '', [], []
    body = []
    for i in range(1 + vc.pick('commands', 4)):
        own = take(vc.pick('own', 3))
        t = take(1 + vc.pick('targets', 2))
        state = ''.join(vc.choose('value', '01') for _ in own)
        split = vc.flag('registers')
        tags = [vc.choose('tag', [Tag(1), Tag(2), LoopTag(2), LoopTag(3), DirtyQubitTag(), ComputeTag(), UncomputeTag()][:7 if plain else 5])
                for _ in range(vc.choose('ntags', [0, 0, 1, 3, 7]))] if (plain := vc.pick('compute tags', 3) == 0) or vc.flag('tagged') else []
        body.append((f'g{i}', [[x] for x in t] if split else [t], own, state, tags))
    for a, st in blocks:
        on += list(zip(a, bits(st, len(a))))

    def enter(k):
        if k == len(blocks):
            for g, regs, own, state, tags in body:
                eng.receive([Command(eng, Opaque(g), tuple(qs(eng, r) for r in regs), controls=qs(eng, own), control_state=state, tags=list(tags))])
            return
        with Control(eng, qs(eng, blocks[k][0]), ctrl_state=blocks[k][1]):
            enter(k + 1)
    enter(0)
    want = [(g, regs, list(zip(own, [int(b) for b in state])) + ([] if any(isinstance(t, (ComputeTag, UncomputeTag)) for t in tags) else on),
             [tagname(t) for t in tags]) for g, regs, own, state, tags in body]
    vc.ensure('one operation each', len(rec.cmds) == len(want))
    for got, w in zip(rec.cmds, want):
        has(vc, w[0], abstract(got), w)


_ = (Dagger, Loop, Unsupported)
