"""L01: arithmetic circuits compute the documented integer functions."""
import contextlib
import math

import z3

from pv import world as W
from pv.bits import BInt, bits, conj
from pv.core import SBool, bounded, contract

import projectq.libs.math
import projectq.ops as ops
from projectq import MainEngine
from projectq.cengines import AutoReplacer, BasicEngine, DecompositionRuleSet
from projectq.libs import math as lib
from projectq.meta import Control, Dagger
from projectq.setups.decompositions import controlstate

P = 'L01'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real code, but for structures of bounded size: '
               'registers of the listed sizes (2 to 20 qubits), all their values at once; '
               'hence not counted as a proof for all sizes')
M = 'projectq.libs.math._quantummath.'
C = 'projectq.libs.math._constantmath.'
R = 'projectq.libs.math._default_rules.'
G = 'projectq.libs.math._gates.'
SIZES = 'registers of at most %s qubits, every value'
REFUSED = (ValueError,)


# --- classical bits: Python booleans or solver terms ---------------------------------------------------------------------
def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        a, b = b, a
    if b is False:
        return a
    return z3.Not(a) if b is True else z3.Xor(a, b)


def band(bs):
    if any(b is False for b in bs):
        return False
    bs = [b for b in bs if b is not True]
    return True if not bs else z3.And(bs) if len(bs) > 1 else bs[0]


def bit(v, i):
    if isinstance(v, BInt):
        e = z3.simplify(z3.Extract(i, i, v.e))
        return bool(e.as_long()) if z3.is_bv_value(e) else e == z3.BitVecVal(1, 1)
    return bool(int(v) >> i & 1)


def value(bs):
    """The number written in the bits, lowest first."""
    if all(isinstance(b, bool) for b in bs):
        return sum(1 << i for i, b in enumerate(bs) if b)
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    e = [(one if b else zero) if isinstance(b, bool) else z3.If(b, one, zero) for b in reversed(bs)]
    e = z3.Concat(e) if len(e) > 1 else e[0]
    return BInt(z3.ZeroExt(64 - len(bs), e), len(bs))


def cond(b):
    return b if isinstance(b, bool) else SBool(b)


def pick(b, x, y):
    """x where the bit is set, else y."""
    if isinstance(b, bool):
        return x if b else y
    p, q = BInt.of(x), BInt.of(y)
    return BInt(z3.If(b, p.e, q.e), max(p.m, q.m))


# --- documented functions: register values before -> after ------------------------------------------------------------------
def add(n, a, b, c=None):
    s = a + b
    return (a, s % (1 << n[0])) if c is None else (a, s % (1 << n[0]), c ^ (s >> n[0]))


def sub(n, a, b, c=None):
    d = (b - a) % (1 << n[0])
    return (a, d) if c is None else (a, d, c ^ less(b, a))


def less(a, b):
    r = a < b
    return BInt.of(r) if isinstance(r, SBool) else int(r)


def compare(n, a, b, c):
    return a, b, c ^ less(b, a)


def mul(n, a, b, c):
    return a, b, (c + a * b) % (1 << n[2])


def unmul(n, a, b, c):
    return a, b, (c - a * b) % (1 << n[2])


def div(n, a, r, d):
    return a % d, a // d, d


def undiv(n, r, q, d):
    return q * d + r, 0, d


CALLEES = {lib._gates.AddQuantumGate: add, type(ops.get_inverse(lib.AddQuantum)): sub, lib._gates.SubtractQuantumGate: sub}


class Machine(BasicEngine):
    """Executes X, Swap and the gates whose contracts are assumed on classical bits."""

    def __init__(self, vc, callees=None):
        super().__init__()
        self.vc, self.bits, self.callees, self.done = vc, {}, callees or {}, False

    def spec(self, gate):
        return self.callees.get(type(gate))

    def is_available(self, cmd):
        return W.is_classical(cmd) or isinstance(cmd.gate, (type(ops.X), ops.SwapGate)) or self.spec(cmd.gate) is not None

    def receive(self, command_list):
        for cmd in command_list:
            self.step(cmd)
        if not self.is_last_engine:
            self.send(command_list)

    def step(self, cmd):
        vc, g = self.vc, cmd.gate
        if isinstance(g, ops.FlushGate) or self.done:
            return
        ids = [q.id for r in cmd.all_qubits for q in r]
        vc.ensure('no qubit is used twice by a command', len(set(ids)) == len(ids), str(cmd))
        if isinstance(g, ops.AllocateQubitGate):
            vc.ensure('a fresh qubit', ids[0] not in self.bits)
            self.bits[ids[0]] = False
            return
        vc.ensure('the qubits are allocated', all(i in self.bits for i in ids), str(cmd))
        if isinstance(g, ops.DeallocateQubitGate):
            vc.ensure('ancillas are restored to zero', cond(bxor(True, self.bits.pop(ids[0]))))
            return
        vc.ensure('no measurement', not W.is_classical(cmd), str(cmd))
        state = cmd.control_state
        c = band([bxor(self.bits[q.id], state[k] == '0') for k, q in enumerate(cmd.control_qubits)])
        regs = [[q.id for q in r] for r in cmd.qubits]
        if isinstance(g, type(ops.X)):
            (t,), = regs
            self.bits[t] = bxor(self.bits[t], c)
        elif isinstance(g, ops.SwapGate):
            s, t = (i for r in regs for i in r)
            x, y = self.bits[s], self.bits[t]
            d = band([c, bxor(x, y)])
            self.bits[s], self.bits[t] = bxor(x, d), bxor(y, d)
        else:
            f = self.spec(g)
            vc.ensure('a contract for the gate', f is not None, str(cmd))
            old = [self.get(r) for r in regs]
            new = f(vc, g, len(cmd.control_qubits), c, [len(r) for r in regs], *old)
            for r, x, y in zip(regs, old, new):
                self.put(r, pick(c, y, x))

    def get(self, ids):
        return value([self.bits[i] for i in ids])

    def put(self, ids, v):
        for k, i in enumerate(ids):
            self.bits[i] = bit(v, k)


def callee(f):
    """The contract of an adder: equal sizes, at most one control, a carry qubit (two with a control), the second one zero."""
    def apply(vc, gate, nctl, on, n, *vals):
        vc.ensure('registers of equal size are added', n[0] == n[1] and (len(n) == 2 or n[2] in (1, 2)))
        if nctl > 1 and isinstance(gate, lib._gates.AddQuantumGate):
            raise ValueError('additions have at most one control qubit')
        if len(vals) < 3:
            return f(n, *vals)
        if n[2] == 2:
            vc.ensure('the carry ancilla is zero', conj(pick(on, vals[2] >> 1, 0) == 0))
        return f(n, vals[0], vals[1], vals[2])
    return apply


ADDERS = {g: callee(f) for g, f in CALLEES.items()}
RULES = DecompositionRuleSet(modules=[projectq.libs.math, controlstate])


def machine(vc, callees=None):
    m = Machine(vc, callees)
    return m, MainEngine(m, [AutoReplacer(RULES)])


def under(eng, ctrls, state):
    return Control(eng, ctrls, state) if len(ctrls) else contextlib.nullcontext()


def execute(vc, gate, sizes, inputs, nctl=0, how='plain', callees=None):
    """Register values after the gate; obliges ancillas to be restored and the controls and everything else to be kept."""
    m, eng = machine(vc, callees)
    other = eng.allocate_qubit()
    regs = [eng.allocate_qureg(n) for n in sizes]
    ctl = eng.allocate_qureg(nctl)
    cv = bits(vc, 'controls', nctl) if nctl else 0
    ov = bits(vc, 'bystander', 1)
    for r, v in zip(regs, inputs):
        m.put([q.id for q in r], v)
    m.put([q.id for q in ctl], cv)
    m.put([other[0].id], ov)
    live = set(m.bits)
    state = ''.join(vc.choose('control state', '10') for _ in ctl) if nctl else None
    try:
        with under(eng, ctl, state):
            if how == 'dagger':
                with Dagger(eng):
                    gate | tuple(regs)
            else:
                gate | tuple(regs)
        eng.flush()
    except Exception:
        m.done = True
        raise
    vc.ensure('the qubits stay the same', set(m.bits) == live)
    on = band([bxor(bit(cv, i), state[i] == '0') for i in range(nctl)])
    vc.ensure('the controls are kept', conj(m.get([q.id for q in ctl]) == cv) if nctl else True)
    vc.ensure('other qubits are kept', conj(m.get([other[0].id]) == ov))
    m.done = True
    return [m.get([q.id for q in r]) for r in regs], on


def agree(vc, got, want, on, old):
    for k, (g, w, o) in enumerate(zip(got, want, old)):
        vc.ensure(f'register {k}', conj(g == pick(on, w, o)), f'register {k}: {g}, {w}')


def emulate(vc, gate, sizes, inputs):
    """What the simulators compute: the math function, every register modulo its size."""
    m, eng = machine(vc)
    regs = [eng.allocate_qureg(n) for n in sizes]
    out = gate.get_math_function(tuple(regs))(list(inputs))
    vc.ensure('one result per register', len(out) == len(sizes))
    return [v % (1 << n) for v, n in zip(out, sizes)]


# --- adders, subtraction, comparison ---------------------------------------------------------------------------------------
@contract(P, [M + 'add_quantum', M + 'quantum_conditional_add', M + 'subtract_quantum', R + '_replace_addquantum', R + '_replace_inverse_add_quantum'],
          samples=150, size_bound=SIZES % 7, budget=90)
def adders(vc):
    """Sum and difference without carry, directly, inverted, and with positive or negative control."""
    n = 1 + vc.pick('n', 7)
    a, b = bits(vc, 'a', n), bits(vc, 'b', n)
    gate, f, how = vc.choose('gate', [(lib.AddQuantum, add, 'plain'), (lib.AddQuantum, sub, 'dagger'), (lib.SubtractQuantum, sub, 'plain'),
                                      (lib.SubtractQuantum, add, 'dagger')])
    k = vc.pick('controls', 2 if f is add else 3)
    got, on = execute(vc, gate, (n, n), (a, b), k, how)
    agree(vc, got, f((n, n), a, b), on, (a, b))


@contract(P, [M + 'add_quantum', M + 'inverse_add_quantum_carry', M + 'quantum_conditional_add_carry', R + '_replace_addquantum',
              R + '_replace_inverse_add_quantum'], samples=150, size_bound=SIZES % 7, budget=90)
def carries(vc):
    """Sum with carry out (flipping the carry qubit), its inverse, and the difference with borrow; the controlled sum has a carry ancilla."""
    n = 1 + vc.pick('n', 7)
    a, b = bits(vc, 'a', n), bits(vc, 'b', n)
    k = vc.pick('controls', 2)
    c = bits(vc, 'c', 1)
    gate, f, how = vc.choose('gate', [(lib.AddQuantum, add, 'plain'), (lib.AddQuantum, sub, 'dagger'), (lib.SubtractQuantum, sub, 'plain')])
    sizes = (n, n, 1 + k)
    got, on = execute(vc, gate, sizes, (a, b, c), k, how)
    agree(vc, got, f(sizes, a, b, c), on, (a, b, c))


@contract(P, [M + 'comparator', R + '_replace_comparator', G + 'ComparatorQuantumGate.get_inverse'], samples=100, size_bound=SIZES % 7, budget=90)
def comparators(vc):
    """The comparator flips its qubit exactly if the first number is greater; it is its own inverse."""
    n = 1 + vc.pick('n', 7)
    a, b, c = bits(vc, 'a', n), bits(vc, 'b', n), bits(vc, 'c', 1)
    got, on = execute(vc, lib.ComparatorQuantum, (n, n, 1), (a, b, c), vc.pick('controls', 3), vc.choose('how', ['plain', 'dagger']))
    agree(vc, got, compare(n, a, b, c), on, (a, b, c))


# --- multiplication and division -------------------------------------------------------------------------------------------
def refused_or(vc, what, nctl, run):
    """Controlled multiplication and division would need adders with two controls, which are refused."""
    if not nctl:
        return run()
    try:
        return run()
    except ValueError:
        return None


def product(vc, n, callees):
    a, b = bits(vc, 'a', n), bits(vc, 'b', n)
    k, sizes = vc.pick('controls', 2), (n, n, 2 * n + 1)
    how = vc.choose('how', ['plain', 'dagger'])
    c = 0 if how == 'plain' else a * b
    r = refused_or(vc, 'product', k, lambda: execute(vc, lib.MultiplyQuantum, sizes, (a, b, c), k, how, callees))
    if r is not None:
        agree(vc, r[0], (a, b, a * b if how == 'plain' else 0), r[1], (a, b, c))


def quotient(vc, n, callees):
    a, d = bits(vc, 'a', n), bits(vc, 'd', n)
    if vc.symbolic:
        vc.assume(conj(d > 0, d <= a))
    else:
        a = max(a, 1)
        d = d % a + 1
    k, sizes = vc.pick('controls', 2), (n, n, n)
    how = vc.choose('how', ['plain', 'dagger'])
    old, new = (a, 0, d), (a % d, a // d, d)
    if how == 'dagger':
        old, new = new, old
    r = refused_or(vc, 'quotient', k, lambda: execute(vc, lib.DivideQuantum, sizes, old, k, how, callees))
    if r is not None:
        agree(vc, r[0], new, r[1], old)


MUL = [M + 'quantum_multiplication', M + 'inverse_quantum_multiplication', R + '_replace_quantummultiplication', R + '_replace_inversequantummultiplication']
DIV = [M + 'quantum_division', M + 'inverse_quantum_division', R + '_replace_quantumdivision', R + '_replace_inversequantumdivision']


@contract(P, MUL, samples=100, size_bound=SIZES % 4, budget=90)
def products(vc):
    """Product and its inverse, down to Toffoli gates."""
    product(vc, 1 + vc.pick('n', 4), None)


@contract(P, MUL, samples=100, size_bound=SIZES % 5, budget=90)
def products_modular(vc):
    """Product and its inverse over the contracts of the adders."""
    product(vc, 1 + vc.pick('n', 5), ADDERS)


@contract(P, DIV, samples=100, size_bound=SIZES % 4, budget=90)
def quotients(vc):
    """Quotient and remainder and their inverse, down to Toffoli gates."""
    quotient(vc, 1 + vc.pick('n', 4), None)


@contract(P, DIV, samples=100, size_bound=SIZES % 5, budget=90)
def quotients_modular(vc):
    """Quotient and remainder over the contracts of the adders."""
    quotient(vc, 1 + vc.pick('n', 5), ADDERS)


# --- arithmetic with constants ------------------------------------------------------------------------------------------
def plus_constant(vc, gate, nctl, on, n, x):
    return ((x + gate.a) % (1 << n[0]),)


def plus_mod(vc, gate, nctl, on, n, x):
    if isinstance(gate.a, int) and not 0 <= gate.a < gate.N:
        raise ValueError('constant out of range')
    vc.ensure('the summand is in range', conj(gate.a >= 0, gate.a < gate.N))
    vc.ensure('the number is below the modulus', conj(pick(on, x, 0) < gate.N))
    return ((x + gate.a) % gate.N,)


CONSTANT = {lib.AddConstant: plus_constant}
MODULAR = {lib.AddConstantModN: plus_mod}


@contract(P, [C + 'add_constant_modN', R + '_replace_addconstmodN', G + 'SubConstantModN', G + 'SubConstant', G + 'AddConstantModN.get_inverse',
              G + 'AddConstant.get_inverse'], samples=200, size_bound=SIZES % 3, budget=120)
def modular_sums(vc):
    """Adding a constant modulo N, for every modulus that fits, constant and value below it, over the contract of AddConstant."""
    n = 1 + vc.pick('n', 3)
    modular_sum(vc, n, vc.pick('controls', 3 if n < 3 else 2))


@contract(P, [C + 'add_constant_modN'], samples=50, size_bound='registers of 4 to 8 qubits, every value', budget=120)
def modular_sums_wide(vc):
    """The same for larger registers."""
    modular_sum(vc, 4 + vc.pick('n', 5), 0, ['plain'])


def modular_sum(vc, n, nctl, hows=('plain', 'dagger')):
    N = bits(vc, 'N', n, below=1 << n) + 1
    c, x = bits(vc, 'c', n, below=N), bits(vc, 'x', n, below=N)
    how = vc.choose('how', list(hows))
    minus = len(hows) > 1 and vc.flag('subtract')
    gate = (lib.SubConstantModN if minus else lib.AddConstantModN)(c, N)
    got, on = execute(vc, gate, (n,), (x,), nctl, how, CONSTANT)
    down = minus != (how == 'dagger')
    agree(vc, got, ((x - c) % N if down else (x + c) % N,), on, (x,))


def units(n):
    return [(c, N) for N in range(1, (1 << n) + 1) for c in range(N) if math.gcd(c, N) == 1]


def modular_product(vc, n, c, N, x, nctl, callees):
    gate = lib.MultiplyByConstantModN(c, N)
    got, on = execute(vc, gate, (n,), (x,), nctl, 'plain', callees)
    agree(vc, got, ((c * x) % N,), on, (x,))


MULMOD = [C + 'mul_by_constant_modN', C + 'inv_mod_N', R + '_replace_multiplybyconstantmodN']


@contract(P, MULMOD, samples=50, size_bound='registers of 4 qubits, invertible constants modulo 9, 12, 13, 15 and 16, every value', budget=90)
def modular_products_wide(vc):
    """Multiplying by an invertible constant modulo N, over the contract of AddConstantModN: some larger moduli."""
    c, N = vc.choose('constant and modulus', [u for u in units(4) if u in ((4, 9), (7, 9), (5, 12), (11, 13), (6, 13), (2, 15), (14, 15), (3, 16), (13, 16))])
    modular_product(vc, 4, c, N, bits(vc, 'x', 4, below=N), 0, MODULAR)


@contract(P, MULMOD, samples=100, size_bound='registers of at most 3 qubits, every modulus, invertible constant and value', budget=90)
def modular_products(vc):
    """Multiplying by an invertible constant modulo N, over the contract of AddConstantModN."""
    n = 1 + vc.pick('n', 3)
    c, N = vc.choose('constant and modulus', units(n))
    x = bits(vc, 'x', n, below=N)
    modular_product(vc, n, c, N, x, vc.pick('controls', 2), MODULAR)


@contract(P, MULMOD + [C + 'add_constant_modN'], samples=100, size_bound='registers of at most 2 qubits, every modulus, invertible constant and value', budget=60)
def modular_products_full(vc):
    """The same down to the contract of AddConstant."""
    n = 1 + vc.pick('n', 2)
    c, N = vc.choose('constant and modulus', units(n))
    x = bits(vc, 'x', n, below=N)
    modular_product(vc, n, c, N, x, vc.pick('controls', 2), CONSTANT)


@bounded(P, MULMOD + [C + 'add_constant_modN'], 'random moduli of up to 24 bits', samples=60, thorough=2000)
def modular_products_large(vc):
    """Random larger modular products and sums."""
    n = 4 + vc.pick('n', 21)
    N = (1 << (n - 1)) + vc.pick('N', (1 << (n - 1)) + 1)
    x = vc.pick('x', N)
    c = vc.pick('c', N)
    if vc.flag('sum'):
        got, on = execute(vc, lib.AddConstantModN(c, N), (n,), (x,), vc.pick('controls', 2), 'plain', CONSTANT)
        return agree(vc, got, ((x + c) % N,), on, (x,))
    vc.assume(math.gcd(c, N) == 1)
    modular_product(vc, n, c, N, x, vc.pick('controls', 2), CONSTANT if vc.flag('full') else MODULAR)


@bounded(P, [C + 'inv_mod_N'], 'all moduli up to 60 and random ones of up to 200 bits', samples=3000)
def inverses(vc):
    """The modular inverse."""
    from projectq.libs.math._constantmath import inv_mod_N
    if vc.flag('small'):
        N = 1 + vc.pick('N', 60)
        c = vc.pick('c', N)
    else:
        w = vc.choose('bits', [20, 53, 54, 64, 100, 200])
        N = sum(vc.pick('N', 1 << 20) << (20 * k) for k in range(w // 20 + 1)) + 1
        c = sum(vc.pick('c', 1 << 20) << (20 * k) for k in range(w // 20 + 1)) % N
    vc.assume(math.gcd(c, N) == 1)
    r = inv_mod_N(c, N)
    vc.ensure('the inverse', isinstance(r, int) and 0 <= r < N and (c * r - 1) % N == 0, f'{c}, {N}: {r}')


def shift_columns(B, n, c, nctl):
    """Columns of the controlled addition of c on qubits 0..n-1 with the controls behind."""
    d = 1 << (n + nctl)
    cols = []
    for v in range(d):
        w = v
        if v >> n == (1 << nctl) - 1:
            w = (v >> n << n) | ((v + c) % (1 << n))
        cols.append([B.c(int(k == w)) for k in range(d)])
    return cols


def fourier(vc, n, c, nctl, how):
    """The emitted circuit of a constant addition, with the Fourier transform kept, against the shift by the constant."""
    eng, rec = W.make_eng([AutoReplacer(RULES)], lambda cmd: not isinstance(cmd.gate, ops.BasicMathGate))
    x, ctl = eng.allocate_qureg(n), eng.allocate_qureg(nctl)
    rec.cmds.clear()
    with under(eng, ctl, '1' * nctl):
        if how == 'dagger':
            with Dagger(eng):
                lib.AddConstant(c) | x
        else:
            (lib.AddConstant if how == 'plain' else lib.SubConstant)(c) | x
    ids = [q.id for q in x] + [q.id for q in ctl]
    cmds = list(rec.cmds)
    for m in cmds:
        vc.ensure('only the qubits of the number and the controls', all(q.id in ids for r in m.all_qubits for q in r), str(m))
    B = W.nb(vc)
    u = W.unitary(B, cmds, ids)
    want = shift_columns(B, n, c if how == 'plain' else -c, nctl)
    d = len(want)
    vc.mat_eq('addition of the constant', u, [[want[j][i] for j in range(d)] for i in range(d)])


@contract(P, [C + 'add_constant', R + '_replace_addconstant', G + 'SubConstant', G + 'AddConstant.get_inverse'], samples=60,
          size_bound='registers of at most 4 qubits, every constant modulo the range', budget=60)
def constants(vc):
    """Adding and subtracting a constant, with and without control: the exact unitary."""
    n = 1 + vc.pick('n', 4)
    if n == 4:
        c = vc.choose('c', [1, 3, 5, 6, 8, 10, 12, 13, 15, 16, -1, -6])
        how = 'plain'
    else:
        how = vc.choose('how', ['plain', 'dagger', 'sub'])
        c = vc.pick('c', (1 << n) + 2) if how != 'plain' else vc.pick('c', (2 << n) + 2) - (1 << n)
    fourier(vc, n, c, vc.pick('controls', 3 if n < 3 else 2 if n == 3 else 1), how)


@bounded(P, [C + 'add_constant'], 'registers of at most 6 qubits, constants of up to 40 bits', samples=60, thorough=600)
def constants_large(vc):
    """Adding random constants, also far beyond the range of the register."""
    n = 1 + vc.pick('n', 6)
    c = vc.pick('c', 1 << vc.choose('bits', [3, 7, 20, 40]))
    fourier(vc, n, -c if vc.flag('negative') else c, vc.pick('controls', 2), vc.choose('how', ['plain', 'dagger', 'sub']))


@bounded(P, [C + 'add_constant', C + 'add_constant_modN'], 'registers of 5 to 11 qubits, constants of up to 40 bits, at most 2 controls, on random states',
         samples=60, thorough=1000)
def constants_long(vc):
    """Adding constants to long registers: every rotation counts."""
    import numpy as np
    from pv import fast
    n = 5 + vc.pick('n', 7)
    k = vc.pick('controls', 3) if n < 10 else vc.pick('control', 2)
    c = vc.pick('c', 1 << vc.choose('bits', [3, 7, 11, 20, 40]))
    how = vc.choose('how', ['plain', 'dagger', 'sub'])
    eng, rec = W.make_eng([AutoReplacer(RULES)], lambda cmd: not isinstance(cmd.gate, ops.BasicMathGate))
    x, ctl = eng.allocate_qureg(n), eng.allocate_qureg(k)
    rec.cmds.clear()
    with under(eng, ctl, '1' * k), (Dagger(eng) if how == 'dagger' else contextlib.nullcontext()):
        (lib.SubConstant if how == 'sub' else lib.AddConstant)(c) | x
    ids = [q.id for q in list(x) + list(ctl)]
    vec = got = fast.state(vc, n + k)
    for m in list(rec.cmds):
        vc.ensure('only the qubits of the number and the controls', all(q.id in ids for r in m.all_qubits for q in r) and not W.is_classical(m), str(m))
        if m.gate in (ops.QFT, ops.get_inverse(ops.QFT)):
            t = [ids.index(q.id) for r in m.qubits for q in r]
            d = np.arange(1 << len(t))
            rev = [int(f'{i:b}'.zfill(len(t))[::-1], 2) for i in range(len(d))]      # the transform leaves its output bits reversed
            u = np.exp(2j * np.pi * (np.outer(rev, d) % len(d)) / len(d)) / np.sqrt(len(d))
            got = fast.apply(got, u if m.gate == ops.QFT else u.conj().T, t, [(ids.index(i), v) for i, v in W.controls_of(m)])
        else:
            got = fast.command(got, m, {q: i for i, q in enumerate(ids)})
    want = vec.copy()
    want[-(1 << n):] = np.roll(vec[-(1 << n):], c if how == 'plain' else -c)
    fast.agree(vc, 'addition of the constant', got, want, tol=1e-8)


# --- emulation ---------------------------------------------------------------------------------------------------------------
EMULATED = {'AddQuantum': (lib.AddQuantum, False, add, 2), 'AddQuantum carry': (lib.AddQuantum, False, add, 3), 'AddQuantum inverse': (lib.AddQuantum, True, sub, 2),
            'AddQuantum carry inverse': (lib.AddQuantum, True, sub, 3), 'Subtract': (lib.SubtractQuantum, False, sub, 2),
            'Subtract inverse': (lib.SubtractQuantum, True, add, 2), 'Comparator': (lib.ComparatorQuantum, False, compare, 3),
            'Comparator inverse': (lib.ComparatorQuantum, True, compare, 3)}


@contract(P, [G + c for c in ('AddQuantumGate.get_math_function', '_InverseAddQuantumGate.get_math_function', 'SubtractQuantumGate.__init__',
                              'ComparatorQuantumGate.__init__', 'AddQuantumGate.get_inverse', 'SubtractQuantumGate.get_inverse')],
          samples=200, size_bound='registers of at most 20 qubits, every value', budget=60)
def emulated_sums(vc):
    """The emulation of sums, differences and comparisons gives what the circuits give."""
    gate, inverse, f, k = EMULATED[vc.choose('gate', list(EMULATED))]
    n = vc.choose('size', [1, 2, 3, 4, 5, 10, 20])
    if inverse:
        gate = ops.get_inverse(gate)
    # the carry register: one qubit, or two (as needed under control) of which the lowest is flipped
    sizes = (n, n) + ((1 + (f is not compare and vc.pick('carry', 2)),) if k == 3 else ())
    vals = [bits(vc, nm, w) for nm, w in zip('abc', sizes)]
    got = emulate(vc, gate, sizes, vals)
    want = f(sizes, *vals) if f is not compare else compare(n, *vals)
    agree(vc, got, want, True, vals)


@contract(P, [G + c for c in ('MultiplyQuantumGate.__init__', '_InverseMultiplyQuantumGate.__init__', 'DivideQuantumGate.__init__', '_InverseDivideQuantumGate.__init__',
                              'MultiplyQuantumGate.get_inverse', 'DivideQuantumGate.get_inverse')],
          samples=200, size_bound='registers of at most 5 qubits (10 natively), every value', budget=90)
def emulated_products(vc):
    """The emulation of products and quotients."""
    n = 1 + vc.pick('n', 5 if vc.symbolic else 10)
    inverse = vc.flag('inverse')
    a, b = bits(vc, 'a', n), bits(vc, 'b', n)
    if vc.flag('product'):
        sizes, old, new, gate = (n, n, 2 * n + 1), (a, b, 0), (a, b, a * b), lib.MultiplyQuantum
    else:
        if vc.symbolic:
            vc.assume(conj(b > 0, b <= a))
        else:
            a = max(a, 1)
            b = b % a + 1
        sizes, old, new, gate = (n, n, n), (a, 0, b), (a % b, a // b, b), lib.DivideQuantum
    if inverse:
        old, new, gate = new, old, ops.get_inverse(gate)
    agree(vc, emulate(vc, gate, sizes, old), new, True, old)


@contract(P, [G + c + '.__init__' for c in ('AddConstant', 'AddConstantModN', 'MultiplyByConstantModN')] + [G + 'SubConstant', G + 'SubConstantModN'],
          samples=200, size_bound='registers of at most 20 qubits (6 for products), every value', budget=60)
def emulated_constants(vc):
    """The emulation of arithmetic with constants, and of the inverse gates."""
    kind = vc.choose('kind', ['add', 'sub', 'add mod', 'sub mod', 'mul mod'])
    n = 1 + vc.pick('n', 6) if 'mul' in kind else vc.choose('size', [1, 2, 3, 8, 20])
    x = bits(vc, 'x', n)
    if 'mod' not in kind:
        c = bits(vc, 'c', n + 2) - (bits(vc, 'less', n + 2) if vc.flag('negative') else 0)
        gate = lib.AddConstant(c) if kind == 'add' else lib.SubConstant(c)
        up = kind == 'add'
        if vc.flag('inverse'):
            gate, up = ops.get_inverse(gate), not up
        return agree(vc, emulate(vc, gate, (n,), (x,)), ((x + c if up else x - c) % (1 << n),), True, (x,))
    N = bits(vc, 'N', n) + 1
    c = bits(vc, 'c', n, below=N)
    if vc.symbolic:
        vc.assume(conj(x < N))
    else:
        x %= N
    if kind == 'mul mod':
        return agree(vc, emulate(vc, lib.MultiplyByConstantModN(c, N), (n,), (x,)), ((c * x) % N,), True, (x,))
    gate, up = (lib.AddConstantModN if kind == 'add mod' else lib.SubConstantModN)(c, N), kind == 'add mod'
    if vc.flag('inverse'):
        gate, up = ops.get_inverse(gate), not up
    agree(vc, emulate(vc, gate, (n,), (x,)), ((x + c if up else x - c) % N,), True, (x,))


# --- refusals ------------------------------------------------------------------------------------------------------------
@contract(P, [M + f for f in ('add_quantum', 'subtract_quantum', 'comparator', 'quantum_conditional_add', 'quantum_conditional_add_carry', 'quantum_division',
                              'inverse_quantum_division', 'quantum_multiplication', 'inverse_quantum_multiplication', 'inverse_add_quantum_carry')],
          samples=200, size_bound='registers of at most 5 qubits, all sizes')
def sizes_refused(vc):
    """Registers of sizes the documentation does not allow are refused."""
    a, b = 1 + vc.pick('a', 4), 1 + vc.pick('b', 4)
    gates = {'add': lib.AddQuantum, 'sub': lib.SubtractQuantum, 'add carry': lib.AddQuantum, 'compare': lib.ComparatorQuantum, 'divide': lib.DivideQuantum,
             'multiply': lib.MultiplyQuantum}
    kind = vc.choose('gate', list(gates))
    gate, sizes, k, legal = gates[kind], [a, b], 0, a == b
    if kind in ('add', 'sub', 'add carry'):
        k = vc.pick('controls', 2)
    if kind in ('add carry', 'compare'):
        c = 1 + vc.pick('carry', 3)
        sizes.append(c)
        legal = legal and c == 1 + k
    elif kind == 'divide':
        sizes.append(1 + vc.pick('c', 4))
        legal = a == b == sizes[2]
    elif kind == 'multiply':
        sizes.append(2 * a + vc.pick('c', 4) - 1)
        legal = legal and sizes[2] == 2 * a + 1
    m, eng = machine(vc)
    regs = [eng.allocate_qureg(s) for s in sizes]
    ctl = eng.allocate_qureg(k)
    inverse = kind != 'compare' and vc.flag('inverse')

    def run():
        with under(eng, ctl, '1' * k):
            if inverse:
                with Dagger(eng):
                    gate | tuple(regs)
            else:
                gate | tuple(regs)
        eng.flush()
    try:
        if legal:
            run()
            vc.ensure('accepted', True)
        else:
            vc.raises('registers of a wrong size', REFUSED, run)
    finally:
        m.done = True


@contract(P, [C + 'add_constant_modN', C + 'mul_by_constant_modN'], samples=200, size_bound='registers of at most 4 qubits; constants and moduli of up to 6 bits')
def constants_refused(vc):
    """Constants outside 0 <= c < N, and multipliers without inverse, are refused."""
    n = 2 + vc.pick('n', 3)
    mul = vc.flag('product')
    if mul:
        N = 1 + vc.pick('N', 1 << n)
        c = vc.pick('c', N + 6) - 3
        legal = 0 <= c < N and math.gcd(c, N) == 1
    else:
        N = bits(vc, 'N', n)
        vc.assume(N >= 1)
        c = bits(vc, 'c', n + 2) - bits(vc, 'less', n)
        legal = bool(c >= 0) and bool(c < N)
    m, eng = machine(vc, {**CONSTANT, **(MODULAR if mul else {})})
    x = eng.allocate_qureg(n)

    def run():
        (lib.MultiplyByConstantModN if mul else lib.AddConstantModN)(c, N) | x
        eng.flush()
    try:
        if legal:
            run()
            vc.ensure('accepted', True)
        else:
            vc.raises('constants out of range', REFUSED, run)
    finally:
        m.done = True


@bounded(P, MUL + DIV + [M + f for f in ('add_quantum', 'subtract_quantum', 'comparator', 'quantum_conditional_add', 'quantum_conditional_add_carry')],
         'random registers of up to 24 qubits', samples=120, thorough=3000)
def large(vc):
    """Random larger registers, every circuit down to Toffoli gates."""
    kind = vc.choose('kind', ['add', 'carry', 'compare', 'multiply', 'divide'])
    n = 8 + vc.pick('n', 17)
    a, b = vc.pick('a', 1 << n), vc.pick('b', 1 << n)
    if vc.flag('close'):
        b = max(0, min((1 << n) - 1, a + vc.pick('d', 3) - 1))
    how = vc.choose('how', ['plain', 'dagger'])
    if kind in ('add', 'carry'):
        k = vc.pick('controls', 2)
        c = (vc.pick('c', 2),) if kind == 'carry' else ()
        sizes = (n, n) + ((1 + k,) if c else ())
        got, on = execute(vc, lib.AddQuantum, sizes, (a, b) + c, k, how)
        return agree(vc, got, (add if how == 'plain' else sub)(sizes, a, b, *c), on, (a, b) + c)
    if kind == 'compare':
        c = vc.pick('c', 2)
        got, on = execute(vc, lib.ComparatorQuantum, (n, n, 1), (a, b, c), vc.pick('controls', 3), how)
        return agree(vc, got, compare(n, a, b, c), on, (a, b, c))
    if kind == 'multiply':
        old, new, gate, sizes = (a, b, 0), (a, b, a * b), lib.MultiplyQuantum, (n, n, 2 * n + 1)
    else:
        a, b = max(a, b, 1), max(1, min(a, b) >> vc.pick('shift', n))
        old, new, gate, sizes = (a, 0, b), (a % b, a // b, b), lib.DivideQuantum, (n, n, n)
    if how == 'dagger':
        old, new = new, old
    got, on = execute(vc, gate, sizes, old, 0, how)
    agree(vc, got, new, on, old)
