"""D01: fixed-size decomposition rules are exact for all parameters and controls."""
import contextlib
import importlib
import itertools
import math

from pv import num
from pv import world as W
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.cengines._replacer._replacer import NoGateDecompositionError
from projectq.ops import Command, get_inverse

from .c01 import Tag, qs

P = 'D01'
D = 'projectq.setups.decompositions.'

# what each module is registered for: gates and numbers of controls it has to accept
ROT = {'Rx': ops.Rx, 'Ry': ops.Ry, 'Rz': ops.Rz, 'Ph': ops.Ph, 'R': ops.R}
FIX = {'H': ops.H, 'X': ops.X, 'Y': ops.Y, 'Z': ops.Z, 'S': ops.S, 'T': ops.T, 'SqrtX': ops.SqrtX, 'Swap': ops.Swap,
       'SqrtSwap': ops.SqrtSwap}
OTHER = {'Sdag': lambda: get_inverse(ops.S), 'Tdag': lambda: get_inverse(ops.T), 'SqrtXdag': lambda: get_inverse(ops.SqrtX),
         'SqrtSwapdag': lambda: get_inverse(ops.SqrtSwap)}
ROT2 = {'Rxx': ops.Rxx, 'Ryy': ops.Ryy, 'Rzz': ops.Rzz}
SCOPE = {
    'cnot2cz': {'X': [1]}, 'cnot2rxx': {'X': [1]}, 'crz2cxandrz': {'Rz': [1, 2, 3]}, 'globalphase': {'Ph': [0]},
    'h2rx': {'H': [0]}, 'ph2r': {'Ph': [1, 2, 3]}, 'r2rzandph': {'R': [0, 1, 2, 3]}, 'rx2rz': {'Rx': [0]}, 'ry2rz': {'Ry': [0]},
    'rz2rx': {'Rz': [0]}, 'sqrtswap2cnot': {'SqrtSwap': [0, 1, 2], 'SqrtSwapdag': [0, 1, 2]},
    'swap2cnot': {'Swap': [0, 1, 2]}, 'toffoli2cnotandtgate': {'X': [2]},
}
NAMES = list(ROT) + list(FIX) + list(OTHER) + list(ROT2)


def module(name):
    return importlib.import_module(D + name)


def rule_set(*names):
    return DecompositionRuleSet(modules=[module(n) for n in names])


def replace(vc, names, make, tagged=False):
    """Let the replacer decompose one command with the rules of the given modules; any offered decomposition may be chosen.

    Returns (reference command, emitted commands) or None when no rule is offered."""
    first = [True]

    def avail(self, cmd):
        r = not first[0]
        first[0] = False
        return r

    def chooser(cmd, decomps):
        return decomps[vc.pick('rule', len(decomps))]

    eng, rec = W.make_eng([AutoReplacer(rule_set(*names), chooser), InstructionFilter(avail)])
    cmd, ref = make(eng), make(eng)
    tags = list(cmd.tags)
    try:
        eng.next_engine.receive([cmd])
    except NoGateDecompositionError:
        vc.ensure('nothing is emitted for a refused command', not rec.cmds)
        return None
    for c in rec.cmds:
        vc.ensure('the tags of the command are kept', c.tags[:len(tags)] == tags, str(c.tags))
    return ref, rec.cmds


def same_operator(vc, ref, cmds, phase=None):
    ids = sorted(q.id for r in list(ref.qubits) + [ref.control_qubits] for q in r)
    for c in cmds:
        vc.ensure('only the qubits of the command are used', all(q.id in ids for r in c.all_qubits for q in r), str(c))
        vc.ensure('no measurement or allocation', not W.is_classical(c), str(c))
    B = W.nb(vc)
    if phase is None:
        phase = not ref.control_qubits
    vc.mat_eq('the emitted circuit implements the command', W.unitary(B, cmds, ids), W.unitary(B, [ref], ids), phase=phase)


def gate(vc, name):
    if name in ROT:
        return ROT[name](vc.angle('a'))
    if name in ROT2:
        return ROT2[name](vc.angle('a'))
    if name in OTHER:
        return OTHER[name]()
    return FIX[name]


def width(name):
    return 2 if name.startswith(('Swap', 'SqrtSwap')) or name in ROT2 else 1


def order(vc, n):
    """Positions of targets and controls among each other: every order matters up to the sorting of the controls."""
    perms = list(itertools.permutations(range(n))) if n <= 3 else [list(range(n)), list(range(n))[::-1], [2, 0, 3, 1] + list(range(4, n)),
                                                                  [n - 1] + list(range(n - 1))]
    return list(vc.choose('order', perms))


def command(vc, name, k):
    g = gate(vc, name)
    w = width(name)
    ids = order(vc, w + k)
    tags = vc.choose('tags', [[], [Tag(1)]])

    def make(eng):
        regs = ([[ids[0], ids[1]]] if name in ROT2 else [[i] for i in ids[:w]])
        return Command(eng, g, tuple(qs(eng, r) for r in regs), controls=qs(eng, ids[w:]), tags=list(tags))
    return make


FUNS = {m: [D + m] for m in SCOPE}


def _one(vc, mod):
    name = vc.choose('gate', list(SCOPE[mod]))
    k = vc.choose('controls', SCOPE[mod][name])
    out = replace(vc, [mod], command(vc, name, k))
    vc.ensure('the rule is offered', out is not None, f'{mod}: {name} with {k} controls')
    same_operator(vc, *out)


def _mk(mod):
    def fn(vc):
        return _one(vc, mod)
    fn.__name__ = mod
    fn.__doc__ = f'Every parameter value, target/control order and offered rule of {mod}.'
    big = max(max(v) for v in SCOPE[mod].values()) > 1 and mod != 'toffoli2cnotandtgate'
    mm = module(mod)
    funs = [D + mod + '.' + n for n, v in vars(mm).items() if callable(v) and getattr(v, '__module__', '') == mm.__name__]
    contract(P, funs, samples=60, **(dict(size_bound='at most 3 control qubits') if big else {}))(fn)


for _m in SCOPE:
    _mk(_m)


@contract(P, [D + m + ' (recognizers)' for m in SCOPE], samples=400, budget=100, size_bound='at most 3 control qubits')
def offered_rules_one_qubit(vc):
    """No module offers a rule for a command it does not implement: one-qubit gates."""
    _offered(vc, [n for n in NAMES if width(n) == 1], 3)


@contract(P, [D + m + ' (recognizers)' for m in SCOPE], samples=200, budget=100, size_bound='at most 2 control qubits')
def offered_rules_two_qubits(vc):
    """No module offers a rule for a command it does not implement: two-qubit gates."""
    _offered(vc, [n for n in NAMES if width(n) == 2], 2)


def _offered(vc, names, kmax):
    mod = vc.choose('module', list(SCOPE))
    name = vc.choose('gate', names)
    k = vc.pick('controls', kmax + 1)
    if k in SCOPE[mod].get(name, []):
        return
    g = gate(vc, name)
    w = width(name)

    def make(eng):
        regs = [[0, 1]] if name in ROT2 else [[i] for i in range(w)]
        return Command(eng, g, tuple(qs(eng, r) for r in regs), controls=qs(eng, range(w, w + k)))
    out = replace(vc, [mod], make)
    if out is None:
        return
    same_operator(vc, *out)


@contract(P, [D + 'swap2cnot._decompose_swap', D + 'sqrtswap2cnot._decompose_sqrtswap'], samples=20)
def malformed_sqrtswap(vc):
    """A square-root swap which does not act on two registers of one qubit is refused."""
    regs = vc.choose('regs', [[[0, 1], [2]], [[0], [1], [2]], [[0], [1, 2]]])
    k = vc.pick('controls', 2)

    def run():
        replace(vc, ['sqrtswap2cnot'], lambda eng: Command(eng, ops.SqrtSwap, tuple(qs(eng, r) for r in regs),
                                                           controls=qs(eng, range(5, 5 + k))))
    vc.raises('refused', ValueError, run)


# --- arbitrary one-qubit matrices -------------------------------------------------------------------------------------------
def umat(B, a, b, c, d):
    """exp(ia) Rz(2b) Ry(2c) Rz(2d), entry by entry (the documented parametrisation)."""
    return [[B.expi(a - b - d) * B.cos(c), -(B.expi(a - b + d) * B.sin(c))],
            [B.expi(a + b - d) * B.sin(c), B.expi(a + b + d) * B.cos(c)]]


def vmat(B, a, b, c):
    """The documented special form of the controlled rule."""
    return [[-(B.expi(a) * B.sin(c)), B.expi(a - b) * B.cos(c)], [B.expi(a + b) * B.cos(c), B.expi(a) * B.sin(c)]]


@contextlib.contextmanager
def stub(vc, mod, name, val):
    """Use the contract of a function at its call sites instead of its body (symbolic runs only)."""
    if not vc.symbolic:
        yield
        return
    m = module(mod)
    old = vc.priv(m, name)
    setattr(m, name, lambda matrix: val)
    try:
        yield
    finally:
        setattr(m, name, old)


class MatrixGate(ops.MatrixGate):
    """A matrix gate whose inverse is computed from the definition (the base class inverts numerically)."""

    def get_inverse(self):
        return mgate(None, W.dagger(W.Exact, self.matrix.tolist()))


class NoMatrix(ops.BasicGate):
    """A gate without a matrix."""

    def __str__(self):
        return 'NoMatrix'


def mgate(vc, m):
    if vc is not None and not vc.symbolic:
        return ops.MatrixGate(m)
    from pv.shims import _obj_matrix
    g = MatrixGate([[1, 0], [0, 1]])
    g.matrix = _obj_matrix(m)
    return g


@contract(P, [D + 'arb1qubit2rzandry._decompose_arb1qubit', D + 'arb1qubit2rzandry._recognize_arb1qubit'], samples=400,
          assumptions=['callee contract: _find_parameters returns parameters of the matrix (contract find_parameters)'])
def arbitrary(vc):
    """Every one-qubit matrix without controls."""
    B = W.nb(vc)
    a, b, c, d = _params(vc, 4)
    if vc.flag('special unitary') or vc.flag('a is zero'):
        a = 0
    m = umat(B, B.c(a) if vc.symbolic else a, b, c, d)
    g = mgate(vc, m)
    with stub(vc, 'arb1qubit2rzandry', '_find_parameters', (a, b, c, d)):
        out = replace(vc, ['arb1qubit2rzandry'], lambda eng: Command(eng, g, (qs(eng, [0]),), tags=[Tag(1)]))
    vc.ensure('the rule is offered', out is not None)
    same_operator(vc, *out)


@contract(P, [D + 'carb1qubit2cnotrzandry._decompose_carb1qubit', D + 'carb1qubit2cnotrzandry._recognize_carb1qubit'], samples=400,
          assumptions=['callee contracts: _find_parameters and _recognize_v return parameters of the matrix (contracts find_parameters, recognize_v)'])
def arbitrary_controlled(vc):
    """Every one-qubit matrix with one control (both forms)."""
    B = W.nb(vc)
    a, b, c, d = _params(vc, 4)
    if vc.flag('a is zero'):
        a = 0
    a_ = B.c(a) if vc.symbolic else a
    special = vc.flag('special form')
    m = vmat(B, a_, b, c) if special else umat(B, a_, b, c, d)
    g = mgate(vc, m)
    t = vc.pick('target', 2)
    with stub(vc, 'arb1qubit2rzandry', '_find_parameters', (a, b, c, d)), \
            stub(vc, 'carb1qubit2cnotrzandry', '_recognize_v', (a, b, c) if special else False):
        out = replace(vc, ['carb1qubit2cnotrzandry'],
                      lambda eng: Command(eng, g, (qs(eng, [t]),), controls=qs(eng, [1 - t]), tags=[Tag(1)]))
    vc.ensure('the rule is offered', out is not None)
    same_operator(vc, *out)


@contract(P, [D + 'arb1qubit2rzandry._recognize_arb1qubit', D + 'carb1qubit2cnotrzandry._recognize_carb1qubit'], samples=60)
def arbitrary_not_offered(vc):
    """The matrix rules are offered for one-qubit matrices with exactly zero (one) controls only."""
    k = vc.pick('controls', 4)
    which = vc.choose('gate', ['matrix', 'matrix4', 'swap', 'nomatrix'])
    g = {'matrix': lambda: ops.MatrixGate([[0, 1], [1, 0]]), 'matrix4': lambda: ops.MatrixGate(ops.Swap.matrix), 'swap': lambda: ops.Swap,
         'nomatrix': NoMatrix}[which]()
    w = 2 if which in ('matrix4', 'swap') else 1
    for mod, n in (('arb1qubit2rzandry', 0), ('carb1qubit2cnotrzandry', 1)):
        if which == 'matrix' and k == n:
            continue
        out = replace(vc, [mod], lambda eng: Command(eng, g, tuple([q] for q in qs(eng, range(w))), controls=qs(eng, range(w, w + k))))
        vc.ensure('not offered', out is None, f'{mod} {which} {k}')


TOL = 1e-12


def _entries(vc, shift):
    """An arbitrary unitary by its entries: r e^{i f00}, s e^{i f01}, s e^{i f10}, -r e^{i (f01 + f10 - f00)}, r^2 + s^2 = 1."""
    case = vc.choose('case', ['diagonal', 'antidiagonal', 'full'])
    PI = num.PI
    f = [vc.real(n) for n in ('f00', 'f01', 'f10')]
    for x in f:
        vc.assume(x > -PI)
        vc.assume(x <= PI)
    r, s = {'diagonal': (num.Num.const(1), num.Num()), 'antidiagonal': (num.Num(), num.Num.const(1)), 'full': (vc.real('r'), vc.real('s'))}[case]
    if case == 'full':
        t = vc.real('t')
        (name,) = t.vars()
        num.ANGLES[name] = (r, s)
        vc.assume(t > 0)
        vc.assume(t < PI / 2)
        for x in (r, s):
            vc.assume(x >= TOL)
            vc.assume(x <= 1)
    # the phase of (minus) the determinant is either exactly 0 or outside the tolerance
    e = vc.choose('turns', [-2, -1, 0, 1])
    det = f[1] + f[2] + PI * shift - PI * 2 * (e + 1)
    vc.assume(det >= 0)
    vc.assume(det < PI * 2)
    if vc.flag('unit determinant'):
        vc.assume(det == 0)
    else:
        vc.assume(det >= TOL)
        vc.assume(det <= PI * 2 - TOL)
    ei = num.expi
    return [[r * ei(f[0]), s * ei(f[1])], [s * ei(f[2]), -(r * ei(f[1] + f[2] - f[0]))]]


EXACT = ['a matrix is exactly diagonal, antidiagonal, special unitary or differs from that by more than the tolerance 1e-12 '
         '(the rest: bounded stand-in matrices)']


@contract(P, [D + 'arb1qubit2rzandry._find_parameters', D + 'arb1qubit2rzandry._test_parameters'], samples=0, budget=100, assumptions=EXACT)
def find_parameters(vc):
    """Parameters are found for every unitary matrix and are those of the matrix."""
    if not vc.symbolic:
        return
    num.ANGLES.clear()
    vc.ghost['fork mod'] = True
    fun = vc.priv(module('arb1qubit2rzandry'), '_find_parameters')
    try:
        m = _entries(vc, 1)
        a, b, c, d = fun(m)
        vc.cover()
        vc.mat_eq('the parameters are those of the matrix', umat(W.Exact, num.Num.const(a), num.Num.const(b), num.Num.const(c), num.Num.const(d)), m)
    finally:
        num.ANGLES.clear()


@contract(P, [D + 'carb1qubit2cnotrzandry._recognize_v', D + 'carb1qubit2cnotrzandry._test_parameters'], samples=0, budget=100, assumptions=EXACT)
def recognize_v(vc):
    """Parameters of the special form are only reported for matrices of that form."""
    if not vc.symbolic:
        return
    num.ANGLES.clear()
    vc.ghost['fork mod'] = vc.ghost['abstract allclose'] = True
    fun = vc.priv(module('carb1qubit2cnotrzandry'), '_recognize_v')
    try:
        m = _entries(vc, 0)
        res = fun(m)
        vc.cover()
        if res:
            a, b, c = [num.Num.const(x) for x in res]
            v = [x for row in vmat(W.Exact, a, b, c) for x in row]
            flat = [x for row in m for x in row]
            close = [[(x - y).is_zero() and (z - w).is_zero() for (x, z), y, w in zip(p, v, flat)] for p in vc.ghost.get('close', [])]
            vc.ensure('the parameters are those of the matrix, up to the tolerance of the comparison',
                      all((x - y).is_zero() for x, y in zip(v, flat)) or any(all(c) for c in close))
        else:
            vc.ensure('refused', res is False)
    finally:
        num.ANGLES.clear()


def _params(vc, n):
    if vc.symbolic:
        return [vc.angle(f'p{k}') for k in range(n)]
    out = []
    for k in range(n):
        kind = vc.pick('kind', 4)
        x = vc.choose('quarter', [q * math.pi / 4 for q in range(-8, 9)])
        if kind == 0:
            x = vc.real('x', -7, 7)
        if kind == 1:
            x += vc.choose('sign', [1, -1]) * 10.0 ** -vc.real('exp', 1, 17)
        out.append(x)
    return out


@bounded(P, [D + 'arb1qubit2rzandry._find_parameters', D + 'carb1qubit2cnotrzandry._recognize_v'],
         'random one-qubit unitaries: each of the four angles drawn from multiples of pi/4, reals, and both perturbed by 1e-1..1e-17; '
         'zero and one controls', samples=3000, thorough=60000)
def matrices(vc):
    """Parameters are found for every unitary, also next to the degenerate ones."""
    a, b, c, d = _params(vc, 4)
    m = vmat(W.Float, a, b, c) if vc.flag('special form') else umat(W.Float, a, b, c, d)
    g = ops.MatrixGate(m)
    k = vc.pick('controls', 2)
    mod = ['arb1qubit2rzandry', 'carb1qubit2cnotrzandry'][k]
    out = replace(vc, [mod], lambda eng: Command(eng, g, (qs(eng, [0]),), controls=qs(eng, [1][:k])))
    vc.ensure('the rule is offered', out is not None)
    same_operator(vc, *out)


@bounded(P, [D + m for m in SCOPE] + [D + 'arb1qubit2rzandry', D + 'carb1qubit2cnotrzandry'],
         'every built-in one-qubit and two-qubit gate with at most 2 controls, random angles, through the full default rule set, any '
         'offered rule, control values zero or one, replaced once or down to {one-qubit rotations, CNOT}', samples=500, thorough=8000)
def library(vc):
    """The default rule set as a whole."""
    import projectq.setups.decompositions as dec
    name = vc.choose('gate', NAMES)
    k = vc.pick('controls', 3)
    g = gate(vc, name)
    w = width(name)
    deep = vc.flag('deep')
    regs = [[0, 1]] if name in ROT2 else [[i] for i in range(w)]
    state = ''.join(vc.choose('state', '01') for _ in range(k))
    if name in ROT2:
        return          # no rule is registered for them
    first = [True]

    def avail(self, cmd):
        if W.is_classical(cmd):
            return True
        if deep:
            n = len(cmd.control_qubits)
            return (n == 0 and type(cmd.gate).__name__ in ('Rz', 'Ry', 'Ph', 'HGate', 'XGate', 'TGate', 'DaggeredGate') and len(cmd.gate.matrix) == 2) \
                or (n == 1 and cmd.control_state == '1' and isinstance(cmd.gate, type(ops.X)))
        r = not first[0]
        first[0] = False
        return r
    chooser = (lambda c, ds: ds[0]) if deep else (lambda c, ds: ds[vc.pick('rule', len(ds))])
    eng, rec = W.make_eng([AutoReplacer(DecompositionRuleSet(modules=[dec]), chooser), InstructionFilter(avail)])

    def make():
        return Command(eng, g, tuple(qs(eng, r) for r in regs), controls=qs(eng, range(w, w + k)),
                       **({'control_state': state} if k else {}))
    cmd, ref = make(), make()
    W.reserve(eng, 10)
    eng.next_engine.receive([cmd])
    ids = list(range(w + k))
    extra = sorted({q.id for c in rec.cmds for r in c.all_qubits for q in r} - set(ids))
    import numpy as np
    cmds = [c for c in rec.cmds if not W.is_classical(c)]
    got = np.array(W.unitary(W.Float, cmds, ids + extra, cols=range(1 << len(ids))), dtype=complex)
    want = np.zeros_like(got)
    want[:1 << len(ids)] = np.array(W.unitary(W.Float, [ref], ids), dtype=complex)
    if k == 0:
        i = np.argmax(abs(want))
        got = got * (want.flat[i] / got.flat[i])
    vc.ensure('the emitted circuit implements the command', np.allclose(got, want, atol=1e-7), f'{name} {k} {[str(c) for c in rec.cmds]}')


@bounded(P, [D + m for m in ('crz2cxandrz', 'ph2r', 'r2rzandph', 'sqrtswap2cnot', 'swap2cnot', 'globalphase', 'toffoli2cnotandtgate', 'cnot2cz', 'cnot2rxx')],
         '3 to 9 control qubits on identifiers below 40 in any order, random angles, the rules of one module applied once or the rules of all modules '
         'applied repeatedly at random, on random states', samples=400, thorough=8000)
def many_controls(vc):
    """The rules with many more control qubits than the contracts try."""
    from pv import fast
    from . import c01
    k = 3 + vc.pick('controls', 7)
    every = {'Rz': 'crz2cxandrz', 'Ph': 'ph2r', 'R': 'r2rzandph', 'Swap': 'swap2cnot', 'SqrtSwap': 'sqrtswap2cnot', 'SqrtSwapdag': 'sqrtswap2cnot'}
    deep, offered = vc.flag('deep'), vc.pick('kind', 5)
    name = vc.choose('gate', list(every) if deep or offered else [n for n in NAMES if n not in ROT2])
    mods = list(every.values()) if deep else [every[name]] if offered else [vc.choose('module', list(SCOPE))]
    g = gate(vc, name)
    w = width(name)
    ids = c01.ids(vc, 'qubit', w + k)
    left = [1 + (vc.pick('steps', 4) if deep else 0)]

    def avail(self, cmd):
        if not left[0] or deep and not (
                cmd.control_qubits and (isinstance(cmd.gate, (ops.Rz, ops.Ph, ops.R)) or len(cmd.qubits) == 2)):
            return True
        left[0] -= 1
        return False
    eng, rec = W.make_eng([AutoReplacer(rule_set(*dict.fromkeys(mods)), lambda c, ds: ds[vc.pick('rule', len(ds))]), InstructionFilter(avail)])
    W.reserve(eng, 50)

    def make():
        return Command(eng, g, tuple(qs(eng, [i]) for i in ids[:w]), controls=qs(eng, ids[w:]))
    ref = make()
    try:
        eng.next_engine.receive([make()])
    except NoGateDecompositionError:
        vc.ensure('a rule is offered', not deep and not offered)
        vc.ensure('nothing is emitted for a refused command', not rec.cmds)
        return
    pos = sorted(ids)
    for c in rec.cmds:
        vc.ensure('only the qubits of the command are used', all(q.id in pos for r in c.all_qubits for q in r) and not W.is_classical(c), str(c))
    vec = fast.state(vc, w + k)
    fast.agree(vc, 'the emitted circuit implements the command', fast.run(vec, rec.cmds, pos), fast.run(vec, [ref], pos))
