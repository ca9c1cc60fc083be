"""E03: observing and filtering engines pass every command on unchanged, once, in order."""
import contextlib
import io

from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter, ResourceCounter
from projectq.cengines import (AutoReplacer, BasicEngine, CommandModifier, CompareEngine, DecompositionRuleSet, DummyEngine,
                               ForwarderEngine, InstructionFilter, LastEngineException, TagRemover)
from projectq.meta import ComputeTag, DirtyQubitTag, LoopTag, UncomputeTag, drop_engine_after, insert_engine
from projectq.ops import Command

from .c01 import Opaque, Tag, ids, qs
from .m01 import arbitrary_command, has, tagname

P = 'E03'
E = 'projectq.cengines.'
B = 'projectq.backends.'


class SubCompute(ComputeTag):
    """A subclass of a removed tag."""


def gname(g):
    return getattr(g, 'uid', None) or (type(g).__name__, str(g))


def tname(t):
    return tagname(t) if not isinstance(t, str) else t


def ab(c):
    return (gname(c.gate), [[q.id for q in r] for r in c.qubits],
            list(zip([q.id for q in c.control_qubits], [int(b) for b in c.control_state])), [tname(t) for t in c.tags])


def run_stream(vc, name, make, feed, spec, rec, objs, batch=None):
    old = loops.same

    def cmp(vc_, nm, g, w):
        loops.same = old
        try:
            has(vc_, nm, g, w)
        finally:
            loops.same = cmp

    loops.same = cmp
    try:
        loops.stream(vc, name, make, feed, spec, lambda: [ab(c) for c in rec.cmds], objs, batch=batch)
    finally:
        loops.same = old


@contract(P, [E + '_tagremover.TagRemover.receive', E + '_tagremover.TagRemover.__init__'], samples=200, budget=60,
          assumptions=['command lists of any length; at most 3 tags per command'])
def tag_remover(vc):
    """Exactly the instances of the given tag classes are removed, the other tags stay in order."""
    given = vc.choose('given', [None, [], [ComputeTag, UncomputeTag], [Tag], [LoopTag, ComputeTag], [DirtyQubitTag]])
    removed = tuple(given) if given else (ComputeTag, UncomputeTag)
    eng, rec = W.make_eng([TagRemover(given) if given is not None else TagRemover()])
    tr = eng.next_engine
    pool = [Tag(1), ComputeTag(), UncomputeTag(), SubCompute(), LoopTag(3), DirtyQubitTag(), 'a string']

    def make():
        c = arbitrary_command(vc, eng, [], False) if not vc.symbolic else _short(vc, eng)
        c.tags = [vc.choose('tag', pool) for _ in range(vc.pick('ntags', 4 if not vc.symbolic else 3))]
        if vc.symbolic and len(c.tags) == 2 and vc.flag('third'):
            c.tags = c.tags + [c.tags[0]]
        return c

    def spec(c):
        a = ab(c)
        return [a[:3] + ([tname(t) for t in c.tags if not isinstance(t, removed)],)]

    run_stream(vc, 'tag remover', make, tr.receive, spec, rec, [tr])


def _short(vc, eng):
    kind = vc.choose('kind', ['quantum', 'measure'])
    x = ids(vc, 'c', 1)
    return Command(eng, Opaque('g') if kind == 'quantum' else ops.Measure, (qs(eng, x),))


@contract(P, [E + '_replacer._replacer.InstructionFilter.receive', E + '_testengine.DummyEngine.receive',
              E + '_basics.ForwarderEngine.__init__', B + '_printer.CommandPrinter.receive'], samples=300, budget=60,
          assumptions=['command lists of any length'])
def engines(vc):
    """Filter, dummy engine and printer: the same commands, in order."""
    kind = vc.choose('engine', ['filter', 'filter-no', 'dummy', 'dummy-save', 'printer'])
    e = {'filter': lambda: InstructionFilter(lambda s, c: True), 'filter-no': lambda: InstructionFilter(lambda s, c: False),
         'dummy': DummyEngine, 'dummy-save': lambda: DummyEngine(save_commands=True),
         'printer': lambda: CommandPrinter(accept_input=False)}[kind]()
    eng, rec = W.make_eng([e])
    objs = [e]
    if kind == 'dummy-save':
        if vc.symbolic:
            e.received_commands = loops.TraceList()
        objs = []
    with contextlib.redirect_stdout(io.StringIO()):
        run_stream(vc, kind, lambda: arbitrary_command(vc, eng, [], False), e.receive, lambda c: [ab(c)], rec, objs)


@contract(P, [E + '_cmdmodifier.CommandModifier.receive', E + '_basics.ForwarderEngine.receive', E + '_basics.BasicEngine.send'],
          samples=400, budget=60, max_paths=30000, size_bound='lists of at most 2 commands (they are collected before being sent on)')
def modifiers(vc):
    """Modifier and forwarder: the user's function is applied to each command once, in order."""
    kind = vc.choose('engine', ['modifier', 'replace', 'forwarder', 'forward-mod'])
    extra, other = Tag(77), Opaque('other')

    def mod(cmd):
        cmd.tags = cmd.tags + [extra]
        return cmd

    def repl(cmd):
        return Command(cmd.engine, other, cmd.qubits, controls=cmd.control_qubits, control_state=cmd.control_state, tags=cmd.tags)

    e = {'modifier': lambda: CommandModifier(mod), 'replace': lambda: CommandModifier(repl)}.get(kind, BasicEngine)()
    eng, rec = W.make_eng([e])
    if kind in ('forwarder', 'forward-mod'):
        e = ForwarderEngine(rec, mod if kind == 'forward-mod' else None)
        vc.ensure('a forwarder stands for the main engine', e.main_engine is eng and e.next_engine is rec)

    def make():
        return arbitrary_command(vc, eng, [], False) if not vc.symbolic else _short(vc, eng)

    def spec(c):
        a = ab(c)
        if kind in ('modifier', 'forward-mod'):
            return [a[:3] + (a[3] + [tname(extra)],)]
        return [('other',) + a[1:]] if kind == 'replace' else [a]

    run_stream(vc, kind, make, e.receive, spec, rec, [e], batch=2)


@contract(P, [B + '_resource.ResourceCounter.receive', B + '_circuits._drawer.CircuitDrawer.receive',
              B + '_circuits._drawer_matplotlib.CircuitDrawerMatplotlib.receive', B + '_printer.CommandPrinter.receive',
              E + '_testengine.CompareEngine.receive', E + '_testengine.DummyEngine.receive'], samples=200,
          size_bound='3 allocations and 2 further commands on any of them; arbitrary ids except for the comparison engine')
def observers(vc):
    """Observing engines forward the same objects and record independently of it."""
    kind = vc.choose('engine', ['counter', 'drawer', 'mpl', 'printer', 'compare', 'dummy'])
    e = {'counter': ResourceCounter, 'drawer': CircuitDrawer, 'mpl': CircuitDrawerMatplotlib, 'compare': CompareEngine,
         'printer': lambda: CommandPrinter(accept_input=False), 'dummy': lambda: DummyEngine(True)}[kind]()
    eng, rec = W.make_eng([e])
    xs = ids(vc, 'x', 3) if kind != 'compare' else [vc.choose('id', [0, 4]), 2, 7]
    cmds = [Command(eng, ops.Allocate, (qs(eng, [x]),)) for x in xs]
    for k in range(2):
        g = vc.choose('g', ['ctrl', 'measure'] if vc.symbolic and k == 0 else ['one', 'ctrl', 'two', 'measure', 'flush', 'dealloc'])
        p = vc.choose('perm', [(0, 1, 2), (2, 0, 1)][:1 if vc.symbolic and k else 2])
        y = [xs[k] for k in p]
        cmds.append({'one': lambda: Command(eng, ops.H, (qs(eng, y[:1]),), tags=[Tag(1)]),
                     'ctrl': lambda: Command(eng, ops.X, (qs(eng, y[:1]),), controls=qs(eng, y[1:]), control_state='01'),
                     'two': lambda: Command(eng, ops.Swap, (qs(eng, y[:1]), qs(eng, y[1:2]))),
                     'measure': lambda: Command(eng, ops.Measure, (qs(eng, y[:1]),)),
                     'flush': lambda: Command(eng, ops.FlushGate(), (qs(eng, y[:1]),)),
                     'dealloc': lambda: Command(eng, ops.Barrier, (qs(eng, y[:2]),))}[g]())
    want = [ab(c) for c in cmds]
    own = list(cmds)
    split = vc.choose('split', [5, 4])
    with contextlib.redirect_stdout(io.StringIO()):
        e.receive(own[:split])
        if split < 5:
            e.receive(own[split:])
    vc.ensure('the same commands', len(rec.cmds) == len(cmds))
    for c, w in zip(rec.cmds, want):
        has(vc, kind, ab(c), w)
    vc.ensure('the input list is not modified', len(own) == len(cmds) and all(a is b for a, b in zip(own, cmds)))


class Probe(BasicEngine):
    """A next engine that answers and records availability questions."""

    def __init__(self, ans):
        super().__init__()
        self.ans, self.asked, self.is_last_engine = ans, [], True

    def is_available(self, cmd):
        self.asked.append(cmd)
        return self.ans

    def receive(self, command_list):
        pass


@contract(P, [E + '_basics.BasicEngine.is_available', B + '_printer.CommandPrinter.is_available', B + '_resource.ResourceCounter.is_available',
              B + '_circuits._drawer.CircuitDrawer.is_available', E + '_replacer._replacer.InstructionFilter.is_available',
              B + '_circuits._drawer_matplotlib.CircuitDrawerMatplotlib.is_available', E + '_testengine.DummyEngine.is_available',
              E + '_testengine.CompareEngine.is_available'], samples=100)
def availability(vc):
    """The answer is that of the next engine for the same command, or the engine's own documented one."""
    ans = vc.flag('answer')
    mine = vc.flag('filter answer')
    kind = vc.choose('engine', ['basic', 'tags', 'modifier', 'forwarder', 'replacer', 'counter', 'drawer', 'mpl', 'printer', 'filter', 'dummy',
                                'compare'])
    seen = []

    def f(s, c):
        seen.append((s, c))
        return mine

    mk = {'basic': BasicEngine, 'tags': TagRemover, 'modifier': lambda: CommandModifier(lambda c: c), 'filter': lambda: InstructionFilter(f),
          'replacer': lambda: AutoReplacer(DecompositionRuleSet()), 'counter': ResourceCounter, 'drawer': CircuitDrawer,
          'mpl': CircuitDrawerMatplotlib, 'printer': CommandPrinter, 'dummy': DummyEngine, 'compare': CompareEngine,
          'forwarder': lambda: None}[kind]
    probe = Probe(ans)
    from projectq import MainEngine
    e = mk()
    eng = MainEngine(probe, [e] if e is not None else [BasicEngine()])
    if e is None:
        e = ForwarderEngine(probe)
    x = ids(vc, 'x', 1)
    c = Command(eng, Opaque('g'), (qs(eng, x),))
    got = e.is_available(c)
    if kind == 'filter':
        vc.ensure('the filter function decides', got == mine and len(seen) == 1 and seen[0][0] is e and seen[0][1] is c)
    elif kind in ('dummy', 'compare'):
        vc.ensure('accepts everything', got is True)
    else:
        vc.ensure('the next engine is asked about the same command', len(probe.asked) == 1 and probe.asked[0] is c)
        vc.ensure('its answer is passed on', got == ans)
    if kind in ('counter', 'drawer', 'mpl', 'printer', 'dummy', 'compare'):
        last = mk()
        last.is_last_engine = True
        vc.ensure('as last engine everything is accepted', last.is_available(c) is True)
    if kind == 'basic':
        last = BasicEngine()
        last.is_last_engine = True
        vc.raises('a basic engine cannot answer as last engine', LastEngineException, lambda: last.is_available(c))


@contract(P, ['projectq.meta._util.insert_engine', 'projectq.meta._util.drop_engine_after'], samples=60,
          size_bound='chains of at most 4 engines')
def chain(vc):
    """Inserting and dropping engines: the rest of the chain is intact, counted and restored."""
    n = 1 + vc.pick('n', 3)
    es = [BasicEngine() for _ in range(n)]
    eng, rec = W.make_eng(es)
    chain0 = _chain(eng)
    pos = vc.pick('pos', n + 1)
    before = chain0[pos]
    cnt = eng.n_engines
    new = BasicEngine()
    insert_engine(before, new)
    vc.ensure('inserted after the given engine', _same(_chain(eng), chain0[:pos + 1] + [new] + chain0[pos + 1:]) and
              new.main_engine is eng and eng.n_engines == cnt + 1)
    if vc.flag('another'):
        new2 = BasicEngine()
        at = vc.choose('at', [before, new])
        insert_engine(at, new2)
        d = drop_engine_after(at)
        vc.ensure('the dropped engine is returned, detached', d is new2 and d.next_engine is None and d.main_engine is None)
    d = drop_engine_after(before)
    vc.ensure('the dropped engine is returned', d is new and d.next_engine is None and d.main_engine is None)
    vc.ensure('the chain is restored', _same(_chain(eng), chain0) and eng.n_engines == cnt)
    vc.ensure('the other engines keep their main engine', all(e.main_engine is eng for e in chain0))
    lone = BasicEngine()
    lone.next_engine = rec
    insert_engine(lone, new)
    vc.ensure('works without a main engine', lone.next_engine is new and new.next_engine is rec and new.main_engine is None and
              drop_engine_after(lone) is new and lone.next_engine is rec)
    eng.n_engines_max = eng.n_engines
    vc.raises('the limit of engines is enforced', RuntimeError, lambda: insert_engine(before, BasicEngine()))
    vc.ensure('a refused insertion changes nothing', _same(_chain(eng), chain0))


def _chain(eng):
    out, e = [], eng
    while e is not None:
        out.append(e)
        e = e.next_engine
    return out


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


ALL = {'tags': lambda: TagRemover(), 'tags2': lambda: TagRemover([Tag]), 'modifier': lambda: CommandModifier(lambda c: c), 'filter': lambda: InstructionFilter(
    lambda s, c: True), 'counter': ResourceCounter, 'drawer': CircuitDrawer, 'mpl': CircuitDrawerMatplotlib,
    'printer': lambda: CommandPrinter(accept_input=False), 'compare': CompareEngine, 'dummy': lambda: DummyEngine(True)}


@bounded(P, [E, B], 'random chains of at most 5 observing engines, random programs with blocks, tags and loops (loop tags supported or not)',
         samples=400, thorough=8000, weight=2)
def chains(vc):
    """A random chain changes only what is documented, compared with the same program without the chain."""
    kinds = [vc.choose('engine', sorted(ALL)) for _ in range(1 + vc.pick('n', 5))]
    n = 2 + vc.pick('data', 2)
    prog = progs.draw(vc, list(range(n)), 2, ['ctrl', 'cau', 'ccau', 'dag', 'loop', 'anc'], 2)
    outs = []
    for engines_ in ([], [ALL[k]() for k in kinds]):
        eng, rec = W.make_eng(engines_)
        with contextlib.redirect_stdout(io.StringIO()):
            data = eng.allocate_qureg(n)
            progs.run(eng, data, prog)
            ops.All(ops.Measure) | data
            eng.flush()
            outs.append([((type(c.gate).__name__, str(c.gate)), [[q.id for q in r] for r in c.qubits], [q.id for q in c.control_qubits], c.control_state,
                          [tagname(t) for t in c.tags]) for c in rec.cmds])
            for q in data:
                q.id = -1
    gone = ({'ComputeTag', 'UncomputeTag'} if 'tags' in kinds else set())
    want = [x[:4] + ([t for t in x[4] if t not in gone],) for x in outs[0]]
    vc.ensure('the chain only removes tags', outs[1] == want, f'{kinds}: {outs[1]} instead of {want}'[:600])


@bounded(P, [E, B], 'beyond the contracts: random chains of at most 14 observing engines, at most 200 commands in lists of at most 120, 30 qubits, '
         'commands on at most 8 qubits with at most 14 controls and at most 12 tags', samples=120, thorough=3000)
def chains_large(vc):
    """Long chains, long lists and wide commands."""
    names = sorted(set(ALL) - {'compare'})
    kinds = [vc.choose('engine', names) for _ in range(1 + vc.pick('n', 14))]
    n = 4 + vc.pick('data', 27)
    es = [ALL[k]() for k in kinds]
    eng, rec = W.make_eng(es)
    pool = [Tag(1), Tag(2), ComputeTag(), UncomputeTag(), SubCompute(), LoopTag(3), DirtyQubitTag(), 'a string']
    xs = [3 * i for i in range(n)]
    cmds = [Command(eng, ops.Allocate, (qs(eng, [x]),)) for x in xs]
    for _ in range(vc.choose('len', [0, 5, 40, 90, 170])):
        kind = vc.choose('kind', ['one', 'one', 'wide', 'two', 'measure', 'flush', 'barrier'])
        k = {'one': 1, 'two': 2, 'measure': 1, 'flush': 1}.get(kind, min(n, 2 + vc.pick('width', 7)))
        nc = min(n - k, vc.choose('controls', [0, 1, 2, 5, 14])) if kind in ('one', 'wide', 'two') else 0
        y = progs.subset(vc, xs, k + nc)
        g = {'one': lambda: vc.choose('g', [ops.H, ops.X, ops.Rz(0.25), ops.T]), 'wide': lambda: vc.choose('g', [ops.QFT, Opaque('wide')]),
             'two': lambda: ops.Swap, 'measure': lambda: ops.Measure, 'flush': ops.FlushGate, 'barrier': lambda: ops.Barrier}[kind]()
        tags = [vc.choose('tag', pool) for _ in range(vc.choose('ntags', [0, 0, 1, 3, 12]))]
        regs = (qs(eng, y[:1]), qs(eng, y[1:2])) if kind == 'two' else (qs(eng, y[:k]),)
        cmds.append(Command(eng, g, regs, controls=qs(eng, y[k:]), control_state=''.join(vc.choose('v', '10') for _ in range(nc)), tags=tags))
    gone = [c for k, c in (('tags', (ComputeTag, UncomputeTag)), ('tags2', (Tag,))) if k in kinds]
    want = [ab(c)[:3] + ([tname(t) for t in c.tags if not any(isinstance(t, g) for g in gone)],) for c in cmds]
    at = 0
    with contextlib.redirect_stdout(io.StringIO()):
        while at < len(cmds):
            size = vc.choose('list', [1, 7, 30, 120])
            es[0].receive(cmds[at:at + size])
            at += size
    got = [ab(c) for c in rec.cmds]
    vc.ensure('the same commands, in order', len(got) == len(want), f'{kinds}: {len(got)} of {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
        vc.ensure('a command is unchanged', g == w, f'{kinds}: {g} instead of {w} at {i}')
