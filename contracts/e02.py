"""E02: automatic replacement emits only supported commands and an equivalent circuit."""
import itertools

from pv import loops, progs
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.cengines import AutoReplacer, DecompositionRule, DecompositionRuleSet, InstructionFilter
from projectq.cengines._replacer._replacer import NoGateDecompositionError
from projectq.meta import Compute, ComputeTag, Control, Dagger, Uncompute, UncomputeTag
from projectq.ops import Command

from .c01 import Tag, ids, qs
from .m01 import abstract, has

P = 'E02'
R = 'projectq.cengines._replacer.'
FUN = [R + '_replacer.AutoReplacer._process_command', R + '_replacer.AutoReplacer.receive',
       R + '_decomposition_rule_set.DecompositionRuleSet.add_decomposition_rule',
       R + '_decomposition_rule_set._Decomposition.get_inverse_decomposition', R + '_decomposition_rule.DecompositionRule.__init__',
       'projectq.cengines._cmdmodifier.CommandModifier.receive', 'projectq.cengines._basics.ForwarderEngine.receive',
       R + '_replacer.InstructionFilter.is_available', R + '_replacer.InstructionFilter.receive']


# --- gates: a class hierarchy with inverses in another hierarchy -----------------------------------------------------------
def _gate(name, base, inverse):
    def __init__(self, uid):
        ops.BasicGate.__init__(self)
        self.uid = uid

    def get_inverse(self):
        if inverse is None:
            raise ops.NotInvertible()
        return CLASSES[inverse](inv(self.uid))

    d = {'get_inverse': get_inverse}
    if base is ops.BasicGate:
        d.update(__init__=__init__, __eq__=lambda s, o: type(s) is type(o) and s.uid == o.uid, __str__=lambda s: str(s.uid),
                 __hash__=lambda s: hash(str(s.uid)))
    return type(name, (base,), d)


def inv(uid):
    return uid[1] if isinstance(uid, tuple) and uid[0] == 'inv' else ('inv', uid)


CLASSES = {}
for _n, _b, _i in [('Fwd0', None, 'Bwd0'), ('Fwd1', 'Fwd0', 'Bwd2'), ('Bwd0', None, 'Fwd0'), ('Bwd1', 'Bwd0', 'Fwd0'),
                   ('Bwd2', 'Bwd1', 'Fwd1'), ('Self0', None, 'Self0'), ('Self1', 'Self0', 'Self1'), ('Lone', None, None),
                   ('Out', None, 'Out'), ('Step', None, 'Step'), ('Short', None, 'Long3'), ('Long0', None, 'Short'),
                   ('Long1', 'Long0', 'Short'), ('Long2', 'Long1', 'Short'), ('Long3', 'Long2', 'Short'),
                   ('Lone1', 'Lone', None), ('Lone2', 'Lone1', None)]:
    CLASSES[_n] = _gate(_n, CLASSES[_b] if _b else ops.BasicGate, _i)


def uid_of(g):
    if isinstance(g, ops.DaggeredGate):
        return ('dag', uid_of(g.get_inverse()))
    return getattr(g, 'uid', type(g).__name__)


def ab(c):
    a = abstract(c)
    return (uid_of(c.gate),) + a[1:]


class Rule:
    """A registered rule and its meaning: it emits two gates on the target, controlled like the command."""

    def __init__(self, cls, name, accepts, fwd='Out'):
        self.cls, self.name, self.accepts, self.fwd = cls, name, accepts, fwd

    def registered(self):
        gates = [CLASSES[self.fwd]((self.name, 0)), CLASSES['Out']((self.name, 1))]

        def decompose(cmd):
            with Control(cmd.engine, cmd.control_qubits):
                for g in gates:
                    g | cmd.qubits[0]

        return DecompositionRule(CLASSES[self.cls] if self.cls in CLASSES else getattr(ops, self.cls), decompose,
                                 lambda cmd: self.accepts(uid_of(cmd.gate), len(cmd.control_qubits)))

    def meaning(self, a):
        return [((self.name, k),) + a[1:3] + (list(a[3]),) for k in (0, 1)]


def inverse_meaning(rule, a):
    return [(inv(x[0]),) + x[1:] for x in reversed(rule.meaning(a))]


def applicable(rules, gate, nctrl):
    """Documented lookup: class of the gate, class of the inverse gate, then the same for the parent classes."""
    fm = [c.__name__ for c in type(gate).mro()[:-1]]
    ig = ops.get_inverse(gate)
    im = [c.__name__ for c in type(ig).mro()[:-2]]
    for f, i in itertools.zip_longest(fm, im):
        hit = [(r, False) for r in rules if r.cls == f and r.accepts(uid_of(gate), nctrl)]
        if not hit and i is not None:
            hit = [(r, True) for r in rules if r.cls == i and r.accepts(uid_of(ig), nctrl)]
        if hit:
            return hit
    return []


def setup(rules, available, chooser=None):
    rs = DecompositionRuleSet(rules=[r.registered() for r in rules])
    repl = AutoReplacer(rs, chooser) if chooser else AutoReplacer(rs)
    eng, rec = W.make_eng([repl, InstructionFilter(lambda self, cmd: available(cmd))])
    return eng, rec, rs


def avail(cmd):
    return type(cmd.gate).__name__ in ('Out',) or isinstance(cmd.gate, ops.ClassicalInstructionGate)


# --- 1. streams of any length ---------------------------------------------------------------------------------------------
YES = lambda *a: True      # noqa: E731


@contract(P, FUN, samples=250, budget=60,
          assumptions=['the rule bodies emit two gates; at most 2 controls per command; command lists of any length'])
def stream(vc):
    """Supported commands pass unchanged, the others are replaced by the rule's commands with their tags, in order."""
    rules = [Rule('Fwd0', 'f', YES), Rule('Self0', 's', lambda u, n: n != 1), Rule('Lone', 'l', YES), Rule('Self0', 'one', lambda u, n: n == 1,
                                                                                                        fwd='Step'),
             Rule('Step', 'step', YES)]
    eng, rec, rs = setup(rules, avail)
    repl = eng.next_engine

    def make():
        kind = vc.choose('kind', ['out', 'fwd', 'bwd', 'child', 'self', 'lone', 'dag', 'alloc', 'measure', 'flush'])
        quantum = kind not in ('alloc', 'measure', 'flush')
        own = vc.pick('controls', 3) if kind in ('fwd', 'bwd', 'self') else 0
        xs = ids(vc, 'c', own + 1)
        for a, b in zip(xs[:own], xs[1:own]):
            vc.assume(a < b)
        gate = {'out': lambda: CLASSES['Out']('o'), 'fwd': lambda: CLASSES['Fwd0']('g'), 'bwd': lambda: CLASSES['Bwd0']('h'),
                'child': lambda: CLASSES['Fwd1']('k'), 'self': lambda: CLASSES['Self0']('t'), 'lone': lambda: CLASSES['Lone']('u'),
                'dag': lambda: ops.get_inverse(CLASSES['Lone']('v')), 'alloc': lambda: ops.Allocate, 'measure': lambda: ops.Measure,
                'flush': ops.FlushGate}[kind]()
        tags = vc.choose('tags', [[], [Tag(3)], [Tag(1), ComputeTag()]]) if quantum else []
        return Command(eng, gate, tuple([q] for q in qs(eng, xs[own:])), controls=qs(eng, xs[:own]),
                       control_state='1' * own, tags=list(tags))

    def spec(c):
        a = ab(c)
        if avail(c):
            return [a]
        hit, back = applicable(rules, c.gate, len(c.control_qubits))[0]
        out = (inverse_meaning if back else hit.meaning)(*((hit, a) if back else (a,)))
        if hit.name == 'one' and not back:
            out = [(('step', k),) + a[1:] for k in (0, 1)] + out[1:]
        return out

    old = loops.same

    def cmp(vc_, nm, g, w):
        loops.same = old
        try:
            has(vc_, nm, g, w)
        finally:
            loops.same = cmp

    loops.same = cmp
    try:
        loops.stream(vc, 'replacer', make, repl.receive, spec, lambda: [ab(c) for c in rec.cmds], [repl])
    finally:
        loops.same = old


@contract(P, FUN[:1], samples=60)
def forwarded_object(vc):
    """A supported command is forwarded as it is: same gate object, qubits, control state, tags, engine."""
    rs = DecompositionRuleSet(rules=[Rule('Fwd0', 'f', YES).registered()])
    eng, rec = W.make_eng([AutoReplacer(rs)])
    n = vc.pick('controls', 3)
    xs = ids(vc, 'x', n + 2)
    for a, b in zip(xs[:n], xs[1:n]):
        vc.assume(a < b)
    st = vc.choose('state', ['', '0', '01'][n:n + 1] + (['1'] if n == 1 else ['10'] if n == 2 else []))
    t = Tag(vc.pick('tag', 2))
    g = CLASSES['Fwd0']('g')
    eng.next_engine.receive([Command(eng, g, (qs(eng, xs[n:]),), controls=qs(eng, xs[:n]), control_state=st, tags=[t])])
    vc.ensure('one command', len(rec.cmds) == 1)
    c = rec.cmds[0]
    vc.ensure('same gate', c.gate is g)
    vc.ensure('same tags', c.tags == [t] and c.engine is eng)
    loops.same(vc, 'targets', [q.id for q in c.qubits[0]], xs[n:])
    loops.same(vc, 'controls', [q.id for q in c.control_qubits], xs[:n])
    vc.ensure('control state', c.control_state == st)


# --- 2. lookup --------------------------------------------------------------------------------------------------------------
def _accept(kind, name):
    return {'no': lambda u, n: False, 'yes': lambda u, n: True, 'plain': lambda u, n: u == 'g',
            'inv': lambda u, n: u == ('inv', 'g')}[kind]


@contract(P, FUN, samples=300, max_paths=40000, budget=60,
          size_bound='one gate class with one parent, at most two rules per class, one command after an arbitrary earlier one')
def lookup(vc):
    """Exactly the documented rules are offered to the chooser, whatever was compiled before; no rule: error, no output."""
    leaf = vc.choose('gate', ['Fwd1', 'Bwd2', 'Self1'])
    mro = [c.__name__ for c in CLASSES[leaf].mro()[:-2]]
    imro = [c.__name__ for c in type(CLASSES[leaf]('g').get_inverse()).mro()[:-2]]
    names = list(dict.fromkeys(x for p in itertools.zip_longest(mro, imro) for x in p if x))
    rules = []
    second = vc.choose('second rule', ['none'] + names[:2] if vc.symbolic else ['none'] + names[:4])
    for nm in names[:4] + ['BasicGate']:
        kind = vc.choose('rule ' + nm, ['none', 'yes'] if nm == 'BasicGate' else ['none', 'no', 'yes', 'inv'] if len(names) < 3 else
                         ['none', 'no', 'yes'])
        if kind != 'none':
            rules.append(Rule(nm, nm + 'a', _accept(kind, nm)))
        if nm == second:
            rules.append(Rule(nm, nm + 'b', _accept('yes', nm)))
    seen = []
    last = vc.choose('chooser', ['first', 'last'])

    def chooser(cmd, lst):
        seen.append((cmd, list(lst)))
        return lst[0 if last == 'first' else -1]

    eng, rec, rs = setup(rules, avail, chooser)
    repl = eng.next_engine
    x = ids(vc, 'x', 1)
    tag = Tag(9)

    def compile_one(gate):
        del rec.cmds[:], seen[:]
        want = applicable(rules, gate, 0)
        c = Command(eng, gate, (qs(eng, x),), tags=[tag])
        try:
            repl.receive([c])
            err = False
        except NoGateDecompositionError:
            err = True
        vc.ensure('an error exactly when no rule applies', err == (not want), f'{[r.name for r in rules]}: {uid_of(gate)}')
        if err:
            vc.ensure('nothing is emitted without a rule', not rec.cmds)
            return
        vc.ensure('the chooser sees every applicable rule once', len(seen) == 1 and len(seen[0][1]) == len(want),
                  f'{len(seen[0][1])} instead of {[r.name for r, _ in want]}')
        rule, back = want[0 if last == 'first' else -1]
        a = (uid_of(gate), [x], [], ['Tag9'])
        out = inverse_meaning(rule, a) if back else rule.meaning(a)
        loops.same(vc, 'emitted', [ab(c) for c in rec.cmds], out)

    if vc.choose('history', ['inverse'] if vc.symbolic else ['none', 'same', 'inverse']) != 'none':
        compile_one(CLASSES[leaf]('g').get_inverse())
    compile_one(CLASSES[leaf]('g'))
    if not vc.symbolic:
        compile_one(CLASSES[leaf]('g'))


@contract(P, FUN, samples=200, budget=60,
          size_bound='hierarchies of at most four classes above the gate or above its inverse, one rule per class')
def lookup_uneven(vc):
    """The gate and its inverse have hierarchies of different depth: the rules found are still the documented ones."""
    which = vc.choose('gate', ['short', 'long', 'daggered'])
    gate = {'short': lambda: CLASSES['Short']('g'), 'long': lambda: CLASSES['Long3'](('inv', 'g')),
            'daggered': lambda: ops.get_inverse(CLASSES['Lone2']('g'))}[which]()
    names = ['Lone2', 'Lone1', 'Lone'] if which == 'daggered' else ['Short', 'Long3', 'Long2', 'Long1', 'Long0']
    rules = [Rule(nm, nm + 'a', _accept(kind, nm)) for nm in names for kind in [vc.choose('rule ' + nm, ['none', 'no', 'yes'])]
             if kind != 'none']
    eng, rec, rs = setup(rules, avail)
    x = ids(vc, 'x', 1)
    for g in (gate, ops.get_inverse(gate)):
        del rec.cmds[:]
        want = applicable(rules, g, 0)
        c = Command(eng, g, (qs(eng, x),), tags=[Tag(9)])
        try:
            eng.next_engine.receive([c])
            err = False
        except NoGateDecompositionError:
            err = True
        vc.ensure('an error exactly when no rule applies', err == (not want), f'{[r.name for r in rules]}: {uid_of(g)}')
        if err:
            vc.ensure('nothing is emitted without a rule', not rec.cmds)
            continue
        rule, back = want[0]
        a = (uid_of(g), [x], [], ['Tag9'])
        loops.same(vc, 'emitted', [ab(c) for c in rec.cmds], inverse_meaning(rule, a) if back else rule.meaning(a))


# --- 3. negative controls -------------------------------------------------------------------------------------------------
@contract(P, FUN[:1] + ['projectq.setups.decompositions.controlstate._decompose_controlstate', 'projectq.meta._control.has_negative_control'],
          samples=150, size_bound='at most 3 controls')
def negative_controls(vc):
    """Unsupported negative controls become X conjugation around the same command; its tags appear exactly once."""
    from projectq.meta import has_negative_control
    from projectq.setups.decompositions import controlstate
    n = 1 + vc.pick('n', 3)
    st = ''.join(vc.choose('v', '01') for _ in range(n))
    xs = ids(vc, 'x', n + 1)
    for a, b in zip(xs[:n], xs[1:n]):
        vc.assume(a < b)
    rs = DecompositionRuleSet(modules=[controlstate])
    if vc.flag('other rule'):
        rs.add_decomposition_rule(Rule('Out', 'never', YES).registered())
    eng, rec = W.make_eng([AutoReplacer(rs), InstructionFilter(lambda s, c: not has_negative_control(c))])
    tags = vc.choose('tags', [[], [Tag(4)], [Tag(1), Tag(2)]])
    eng.next_engine.receive([Command(eng, CLASSES['Out']('o'), (qs(eng, xs[n:]),), controls=qs(eng, xs[:n]), control_state=st,
                                     tags=list(tags))])
    neg = [x for x, s in zip(xs, st) if s == '0']
    names = ['Tag%d' % t.v for t in tags]
    vc.ensure('number of commands', len(rec.cmds) == 2 * len(neg) + 1, str([str(type(c.gate)) for c in rec.cmds]))
    got = [ab(c) for c in rec.cmds]
    has(vc, 'the command', got[len(neg)], ('o', [xs[n:]], [(x, 1) for x in xs[:n]], names))
    for part, t in ((got[:len(neg)], 'ComputeTag'), (got[len(neg) + 1:], 'UncomputeTag')):
        left = list(neg)
        for g in part:
            vc.ensure('X without controls, original tags first', g[0] == 'XGate' and not g[2] and g[3] == names + [t], str(g))
            k = [i for i, y in enumerate(left) if bool(y == g[1][0][0])]
            vc.ensure('on a negative control, once', len(k) == 1)
            left.pop(k[0])


# --- 4. random rule sets --------------------------------------------------------------------------------------------------
class NoRule(Exception):
    """The reference finds no rule."""


def level_classes(vc, levels):
    """Per level: gate class, class of the inverse gate, mode (0 self-inverse class, 1 two classes, 2 not invertible)."""
    out = []
    for k in range(levels):
        mode = vc.pick('inverse', 3)
        cls = type(f'L{k}', (ops.BasicGate,), {})
        bwd = type(f'B{k}', (ops.BasicGate,), {}) if mode == 1 else cls

        def mk(c, o, can):
            def __init__(self, s=1):
                ops.BasicGate.__init__(self)
                self.s = s

            def get_inverse(self):
                if not can:
                    raise ops.NotInvertible()
                return o(-self.s)
            c.__init__, c.get_inverse = __init__, get_inverse
            c.__eq__ = lambda a, b: type(a) is type(b) and a.s == b.s
            c.__hash__ = lambda a: hash((type(a).__name__, a.s))
            c.__str__ = lambda a: f'{type(a).__name__}({a.s})'
        mk(cls, bwd, mode != 2)
        if bwd is not cls:
            mk(bwd, cls, True)
        out.append((cls, bwd, mode))
    return out


def level(g):
    if isinstance(g, ops.DaggeredGate):
        g = g.get_inverse()
    return int(type(g).__name__[1:])


def run_body(cmd, body, k, classes):
    """A rule body: plain gates, controlled by an extra qubit of its own, daggered, or conjugated (compute)."""
    eng = cmd.engine
    with Control(eng, cmd.control_qubits):
        for kind, j, t, i in body:
            g = classes[j][0]()
            pair = (cmd.qubits[t], cmd.qubits[1 - t])
            if kind == 'plain':
                g | pair
            elif kind == 'ctrl':
                with Control(eng, qs(eng, [100 + k])):
                    g | pair
            elif kind == 'dag':
                with Dagger(eng):
                    g | pair
            else:
                with Compute(eng):
                    g | pair
                classes[i][0]() | (pair[1], pair[0])
                Uncompute(eng)


def recursive(rules, classes, ok, last, gate, regs, ctrl, tags):
    """Reference: recursive expansion as a list of (gate, registers, set of controls, tags)."""
    if level(gate) in ok:
        return [(gate, regs, ctrl, tags)]

    def hits(g):
        return [(k, b) for k, b, only in rules if type(g) is classes[k][0] and (only is None or g.s == only)]
    found, back = hits(gate), False
    if not found:
        found, back = hits(ops.get_inverse(gate)), True
    if not found:
        raise NoRule()
    k, body = found[-1 if last else 0]
    out = []
    for kind, j, t, i in body:
        pair = (regs[t], regs[1 - t])
        g = classes[j][0]()
        if kind == 'plain':
            out.append((g, pair, ctrl, []))
        elif kind == 'ctrl':
            out.append((g, pair, ctrl | {100 + k}, []))
        elif kind == 'dag':
            out.append((ops.get_inverse(g), pair, ctrl, []))
        else:
            out += [(g, pair, frozenset(), ['ComputeTag']), (classes[i][0](), pair[::-1], ctrl, []),
                    (ops.get_inverse(g), pair, frozenset(), ['UncomputeTag'])]
    if back:
        out = [(ops.get_inverse(g), r, c, t) for g, r, c, t in reversed(out)]
    return [x for g, r, c, t in out for x in recursive(rules, classes, ok, last, g, r, c, tags + t)]


@bounded(P, FUN, 'random rule sets over 5 levels of gates (two rules per gate at most, bodies of at most 3 items with control, '
         'compute and dagger blocks), random supported sets, histories of 4 commands with tags', samples=1200, thorough=20000)
def random_rules(vc):
    """The output is the recursive expansion, each command supported, whatever was compiled before."""
    levels = 5
    classes = level_classes(vc, levels)
    ok = {0} | {k for k in range(1, levels) if vc.pick('available', 3) == 0}
    rules = []
    for k in range(1, levels):
        for _ in range(1 + vc.pick('rules', 2)):
            body = [(vc.choose('kind', ['plain', 'plain', 'ctrl', 'conj', 'dag']), vc.pick('level', k), vc.pick('q', 2),
                     vc.pick('level', k)) for _ in range(1 + vc.pick('items', 3))]
            rules.append((k, body, vc.choose('only', [None, None, 1, -1])))
    rs = DecompositionRuleSet()
    for k, body, only in rules:
        rs.add_decomposition_rule(DecompositionRule(classes[k][0], lambda cmd, b=body, k=k: run_body(cmd, b, k, classes),
                                                    lambda cmd, o=only: o is None or cmd.gate.s == o))

    def supported(cmd):
        return isinstance(cmd.gate, ops.ClassicalInstructionGate) or level(cmd.gate) in ok
    last = vc.pick('chooser', 2)
    kw = {'decomposition_chooser': lambda cmd, lst: lst[-1]} if last else {}
    eng, rec = W.make_eng([AutoReplacer(rs, **kw), InstructionFilter(lambda s, c: supported(c))])
    for _ in range(1 + vc.pick('history', 4)):
        cls, bwd, mode = vc.choose('gate', classes)
        g = vc.choose('form', [lambda: cls(1), lambda: cls(-1), lambda: bwd(1), lambda: ops.get_inverse(cls(1))])()
        p = progs.subset(vc, range(3), 2)
        ctrl = progs.subset(vc, [7, 9], vc.pick('controls', 3))
        tags = [Tag(i) for i in range(vc.pick('tags', 3))]
        del rec.cmds[:]
        try:
            want = recursive(rules, classes, ok, last, g, tuple(p), frozenset(ctrl), ['Tag%d' % t.v for t in tags])
        except NoRule:
            want = None
        c = Command(eng, g, tuple(qs(eng, [x]) for x in p), controls=qs(eng, ctrl), tags=list(tags))
        try:
            eng.next_engine.receive([c])
            got = list(rec.cmds)
        except NoGateDecompositionError:
            got = None
        vc.ensure('an error exactly when no rule applies', (got is None) == (want is None), f'{g} {got} {want}')
        if got is None:
            continue
        key = [(str(x.gate), tuple(q.id for r in x.qubits for q in r), frozenset(q.id for q in x.control_qubits),
                ['Tag%d' % t.v if isinstance(t, Tag) else type(t).__name__ for t in x.tags]) for x in got]
        exp = [(str(a), b, c_, t_) for a, b, c_, t_ in want]
        vc.ensure('the recursive expansion', key == exp, f'{key} instead of {exp}')
        vc.ensure('only supported commands', all(supported(x) for x in got))


# --- 5. the library's own rules ---------------------------------------------------------------------------------------------
@bounded(P, FUN[:2] + ['projectq.setups.decompositions'], 'random circuits of at most 4 library gates on 3 qubits, four target gate '
         'sets, tags, one rule set shared by the whole history', samples=150, thorough=3000, weight=2)
def library(vc):
    """With the library's rules: only supported commands, the tags kept first, the same operator (ancillas returned clean)."""
    import numpy as np
    import projectq.setups.decompositions as dec
    rs = DecompositionRuleSet(modules=[dec])
    target = vc.choose('target', [{'H', 'T', 'Rz', 'Ry', 'Ph', 'X', 'CX', 'S'}, {'H', 'Rz', 'Ry', 'Ph', 'X', 'CX', 'CZ'},
                                  {'Rz', 'Ry', 'R', 'X', 'CX', 'Ph', 'H', 'CR', 'Swap'}])

    def supported(cmd):
        if isinstance(cmd.gate, ops.ClassicalInstructionGate):
            return True
        nm = {'XGate': 'X', 'HGate': 'H', 'TGate': 'T', 'SGate': 'S', 'ZGate': 'Z', 'SwapGate': 'Swap'}.get(type(cmd.gate).__name__,
                                                                                           type(cmd.gate).__name__)
        return '0' not in cmd.control_state and 'C' * len(cmd.control_qubits) + nm in target

    eng, rec = W.make_eng([AutoReplacer(rs), InstructionFilter(lambda s, c: supported(c))])
    data = eng.allocate_qureg(3)
    ids_ = [q.id for q in data]
    a = vc.choose('a', [0.3, np.pi / 2, -1.1, np.pi])
    pool = [ops.H, ops.X, ops.Z, ops.S, ops.T, ops.Tdag, ops.Y, ops.Rx(a), ops.Ry(a), ops.Rz(a), ops.Ph(a), ops.R(a), ops.SqrtX, ops.Swap,
            ops.QFT, ops.get_inverse(ops.QFT), ops.TimeEvolution(0.3, ops.QubitOperator('X0 Y1', 0.7)), ops.QubitOperator('X0 Z1', 1)]
    ref, first = [], len(rec.cmds)
    for _ in range(1 + vc.pick('len', 4)):
        g = vc.choose('g', pool)
        nm = type(getattr(g, '_gate', g)).__name__
        k = 2 if nm in ('SwapGate', 'QFTGate', 'TimeEvolution', 'QubitOperator') else 1
        nc = 0 if nm in ('QubitOperator',) or g in (ops.SqrtX,) else vc.pick('c', min(4 - k, 3))
        p = progs.subset(vc, range(3), k + nc)
        whole = nm in ('QFTGate', 'TimeEvolution', 'QubitOperator')
        regs = (qs(eng, [ids_[x] for x in p[:k]]),) if whole else tuple(qs(eng, [ids_[x]]) for x in p[:k])
        st = ''.join(vc.choose('v', '110') for _ in range(nc))
        c = Command(eng, g, regs, controls=qs(eng, [ids_[x] for x in p[k:]]), control_state=st, tags=[Tag(5)])
        ref.append(Command(eng, g, regs, controls=qs(eng, [ids_[x] for x in p[k:]]), control_state=st))
        eng.next_engine.receive([c])
    out = rec.cmds[first:]
    vc.ensure('only supported commands', all(supported(c) for c in out), str([str(c) for c in out if not supported(c)]))
    vc.ensure('the tags of the command come first', all(c.tags[:1] == [Tag(5)] and c.tags.count(Tag(5)) == 1 for c in out
                                                        if not W.is_classical(c)))
    anc = sorted({q.id for c in out for r in c.all_qubits for q in r} - set(ids_))
    q = [c for c in out if not W.is_classical(c)]
    n = 3 + len(anc)
    got = np.array(W.unitary(W.Float, q, ids_ + anc, cols=range(1 << 3)), dtype=complex)
    want = np.array(W.unitary(W.Float, ref, ids_), dtype=complex)
    vc.ensure('ancillas are returned to zero', np.allclose(got[8:], 0, atol=1e-7))
    u = got[:8]
    k = np.unravel_index(np.argmax(abs(want)), want.shape)
    ph = u[k] / want[k]
    vc.ensure('the same operator', np.allclose(u, ph * want, atol=1e-6) and abs(abs(ph) - 1) < 1e-6,
              f'{[str(c) for c in ref]} became {[str(c) for c in q]}')
    del n


@bounded(P, FUN[:2] + ['projectq.setups.decompositions'], 'random circuits of at most 6 library gates on 4 to 8 qubits, up to 6 controls, registers of up to 6 '
         'qubits, three target gate sets, on random states', samples=60, thorough=1500)
def library_large(vc):
    """The library's rules on larger circuits."""
    import projectq.setups.decompositions as dec
    import numpy as np
    from pv import fast
    rs = DecompositionRuleSet(modules=[dec])
    target = vc.choose('target', [{'H', 'T', 'Rz', 'Ry', 'Ph', 'X', 'CX', 'S'}, {'H', 'Rz', 'Ry', 'Ph', 'X', 'CX', 'CZ'},
                                  {'Rz', 'Ry', 'R', 'X', 'CX', 'Ph', 'H', 'CR', 'Swap'}])

    def supported(cmd):
        if isinstance(cmd.gate, ops.ClassicalInstructionGate):
            return True
        nm = {'XGate': 'X', 'HGate': 'H', 'TGate': 'T', 'SGate': 'S', 'ZGate': 'Z', 'SwapGate': 'Swap'}.get(type(cmd.gate).__name__, type(cmd.gate).__name__)
        return '0' not in cmd.control_state and 'C' * len(cmd.control_qubits) + nm in target
    n = 4 + vc.pick('n', 5)
    eng, rec = W.make_eng([AutoReplacer(rs), InstructionFilter(lambda s, c: supported(c))])
    data = eng.allocate_qureg(n)
    ids_ = [q.id for q in data]
    ref, first = [], len(rec.cmds)
    for _ in range(1 + vc.pick('len', 6)):
        kind = vc.choose('kind', ['one', 'one', 'one', 'swap', 'qft', 'entangle', 'ucr', 'pauli', 'evolve'])
        a = vc.choose('a', [0.3, np.pi / 2, -1.1, np.pi, 2.6])
        k = {'one': 1, 'swap': 2}.get(kind, 2 + vc.pick('width', min(n, 6) - 1))
        g = {'one': lambda: vc.choose('g', [ops.H, ops.X, ops.Z, ops.S, ops.Tdag, ops.Y, ops.Rx(a), ops.Ry(a), ops.Rz(a), ops.Ph(a), ops.R(a)]),
             'swap': lambda: ops.Swap, 'qft': lambda: vc.choose('g', [ops.QFT, ops.get_inverse(ops.QFT)]), 'entangle': lambda: ops.Entangle,
             'ucr': lambda: vc.choose('g', [ops.UniformlyControlledRy, ops.UniformlyControlledRz])([a * i * i - 1 for i in range(1 << (k - 1))]),
             'pauli': lambda: ops.QubitOperator(tuple((i, vc.choose('p', 'XYZ')) for i in range(k)), 1),
             'evolve': lambda: ops.TimeEvolution(a, ops.QubitOperator(tuple((i, vc.choose('p', 'XYZ')) for i in range(k)), 0.7))}[kind]()
        nc = 0 if kind == 'pauli' else min(vc.choose('controls', [0, 1, 2, 5, 6] if kind == 'one' else [0, 0, 1]), n - k)
        p = progs.subset(vc, ids_, k + nc)
        regs = (qs(eng, p[:k]),)
        if kind == 'swap':
            regs = (qs(eng, p[:1]), qs(eng, p[1:2]))
        elif kind == 'ucr':
            regs = (qs(eng, p[:k - 1]), qs(eng, p[k - 1:k]))
        st = ''.join(vc.choose('v', '110') for _ in range(nc))
        ref.append(Command(eng, g, regs, controls=qs(eng, p[k:]), control_state=st))
        eng.next_engine.receive([Command(eng, g, regs, controls=qs(eng, p[k:]), control_state=st, tags=[Tag(5)])])
    out = rec.cmds[first:]
    vc.ensure('only supported commands', all(supported(c) for c in out), str([str(c) for c in out if not supported(c)]))
    vc.ensure('the tags of the command come first', all(c.tags[:1] == [Tag(5)] and c.tags.count(Tag(5)) == 1 for c in out if not W.is_classical(c)))
    vec = fast.state(vc, n)
    fast.agree(vc, 'the same operator', fast.run(vec, out, ids_), fast.run(vec, ref, ids_), phase=True)
    for q in data:
        q.id = -1
