"""Specification side: reference operators of gates, and the operator of a command list.

Everything here is written from the documented definitions and does not call the gates' own matrix code.  It works over
plain complex numbers (concrete runs) and over Num (symbolic runs).
"""
import cmath
import math
from fractions import Fraction

from . import num
from .core import SBool, SInt
from .num import Num, Unsupported


def issym(*xs):
    return any(isinstance(x, (Num, SInt, SBool)) for x in xs)


class Exact:
    """Exact arithmetic (Num)."""
    I = num.I_
    PI = num.PI

    @staticmethod
    def c(x):
        return Num.const(x)

    @staticmethod
    def cos(x):
        return num.cos(x)

    @staticmethod
    def sin(x):
        return num.sin(x)

    @staticmethod
    def expi(x):
        return num.expi(x)

    RS2 = num.SQRT2 * Fraction(1, 2)
    HALF = Fraction(1, 2)

    @staticmethod
    def iszero(x):
        return not isinstance(x, Num) and x == 0 or isinstance(x, Num) and not x.t

    @staticmethod
    def conj(x):
        return x.conjugate()


class Float:
    """Double precision arithmetic."""
    I = 1j
    PI = math.pi

    @staticmethod
    def c(x):
        return complex(x)

    @staticmethod
    def cos(x):
        return math.cos(x)

    @staticmethod
    def sin(x):
        return math.sin(x)

    @staticmethod
    def expi(x):
        return cmath.exp(1j * x)

    RS2 = 1 / math.sqrt(2)
    HALF = 0.5

    @staticmethod
    def iszero(x):
        return x == 0

    @staticmethod
    def conj(x):
        return complex(x).conjugate()


def nb(vc):
    return Exact if vc.symbolic else Float


def dagger(B, m):
    return [[B.conj(B.c(m[j][i])) for j in range(len(m))] for i in range(len(m[0]))]


def matmul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return [[sum((a[i][t] * b[t][j] for t in range(1, k)), a[i][0] * b[0][j]) for j in range(m)] for i in range(n)]


def ident(B, n):
    return [[B.c(1) if i == j else B.c(0) for j in range(n)] for i in range(n)]


def kron(a, b):
    """b acts on the less significant qubits."""
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


PAULI = {
    'X': lambda B: [[0, 1], [1, 0]],
    'Y': lambda B: [[0, -B.I], [B.I, 0]],
    'Z': lambda B: [[1, 0], [0, -1]],
}


def rot(B, which, t):
    """exp(-i t/2 P) for a Pauli string P on len(which) qubits (first letter on qubit 0)."""
    p = [[B.c(1)]]
    for ch in which:
        p = kron(PAULI[ch](B), p)
    n = len(p)
    c, s = B.cos(t * B.HALF), B.sin(t * B.HALF)
    return [[(c if i == j else 0) - B.I * s * p[i][j] for j in range(n)] for i in range(n)]


def ref_matrix(B, name, angle=None):
    """Documented operator of a built-in gate by class name (first target is the least significant index bit)."""
    if name == 'HGate':
        return [[B.RS2, B.RS2], [B.RS2, -B.RS2]]
    if name in ('XGate', 'YGate', 'ZGate'):
        return PAULI[name[0]](B)
    if name == 'SGate':
        return [[1, 0], [0, B.I]]
    if name == 'TGate':
        return [[1, 0], [0, B.expi(B.PI * B.c(Fraction(1, 4)).real if B is Exact else math.pi / 4)]]
    if name == 'SqrtXGate':
        a, b = (1 + B.I) * B.HALF, (1 - B.I) * B.HALF
        return [[a, b], [b, a]]
    if name == 'SwapGate':
        return [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
    if name == 'SqrtSwapGate':
        a, b = (1 + B.I) * B.HALF, (1 - B.I) * B.HALF
        return [[1, 0, 0, 0], [0, a, b, 0], [0, b, a, 0], [0, 0, 0, 1]]
    if name == 'Ph':
        e = B.expi(angle)
        return [[e, 0], [0, e]]
    if name == 'R':
        return [[1, 0], [0, B.expi(angle)]]
    if name in ('Rx', 'Ry', 'Rz'):
        return rot(B, name[1].upper(), angle)
    if name in ('Rxx', 'Ryy', 'Rzz'):
        return rot(B, (name[1] * 2).upper(), angle)
    return None


FIXED1 = ['HGate', 'XGate', 'YGate', 'ZGate', 'SGate', 'TGate', 'SqrtXGate']
FIXED2 = ['SwapGate', 'SqrtSwapGate']
ROT1 = ['Rx', 'Ry', 'Rz', 'Ph', 'R']
ROT2 = ['Rxx', 'Ryy', 'Rzz']


class NoRef(Exception):
    """The gate has no reference operator."""


def gate_op(B, gate, sizes):
    """Reference operator of a gate object: ('mat', matrix) or ('perm', f) or ('ops', list of (matrix, local targets))."""
    from projectq import ops
    from projectq.ops import _metagates
    name = type(gate).__name__
    if isinstance(gate, _metagates.DaggeredGate):
        kind, m = gate_op(B, gate._gate, sizes)
        if kind == 'mat':
            return 'mat', dagger(B, m)
        raise NoRef('dagger of ' + name)
    if name in FIXED1 or name in FIXED2:
        return 'mat', ref_matrix(B, name)
    if name in ROT1 or name in ROT2:
        return 'mat', ref_matrix(B, name, gate.angle)
    if name in ('MatrixGate', 'Unitary'):
        return 'mat', gate.matrix.tolist()
    if name == 'QubitOperator':
        return 'mat', qubitop_matrix(B, gate, sum(sizes))
    if name == 'TimeEvolution':
        return 'mat', timeevo_matrix(B, gate, sum(sizes))
    if name == 'QFTGate':
        n = sum(sizes)
        s = B.c(1)
        for _ in range(n):
            s = s * B.RS2
        # documented: the final swaps are not included (the output register is re-indexed, lowest bit last)
        rev = [int(format(j, f'0{n}b')[::-1], 2) for j in range(1 << n)]
        return 'mat', [[s * B.expi(B.PI * 2 * ((rev[j] * k) % (1 << n)) * _fr(B, 1, 1 << n)) for k in range(1 << n)]
                       for j in range(1 << n)]
    if name == 'EntangleGate':
        n = sum(sizes)
        m = ident(B, 1 << n)
        cols = []
        for x in range(1 << n):
            v = [B.c(0)] * (1 << n)
            rest = x & ~1
            full = (1 << n) - 2
            v[rest] = v[rest] + B.RS2
            v[(rest ^ full) | 1] = v[(rest ^ full) | 1] + (B.RS2 if not x & 1 else -B.RS2)
            cols.append(v)
        del m
        return 'mat', [[cols[c][r] for c in range(1 << n)] for r in range(1 << n)]
    if name in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        n = sizes[0]
        letter = name[-1].upper()
        dim = 1 << (n + 1)
        m = [[B.c(0)] * dim for _ in range(dim)]
        for k in range(1 << n):
            r = rot(B, letter, gate.angles[k])
            for a in (0, 1):
                for b in (0, 1):
                    m[k | (a << n)][k | (b << n)] = r[a][b]
        return 'mat', m
    if hasattr(gate, 'get_math_function'):
        return 'perm', gate
    raise NoRef(name)


def _fr(B, a, b):
    return Fraction(a, b) if B is Exact else a / b


def pauli_string(B, term, n):
    m = [[B.c(1)]]
    d = dict(term)
    for q in range(n):
        p = PAULI[d[q]](B) if q in d else [[1, 0], [0, 1]]
        m = kron(p, m)
    return m


def qubitop_matrix(B, op, n):
    dim = 1 << n
    tot = [[B.c(0)] * dim for _ in range(dim)]
    for term, c in op.terms.items():
        p = pauli_string(B, term, n)
        tot = [[tot[i][j] + p[i][j] * c for j in range(dim)] for i in range(dim)]
    return tot


def _commute(t1, t2):
    d1, d2 = dict(t1), dict(t2)
    return sum(1 for q in d1 if q in d2 and d1[q] != d2[q]) % 2 == 0


def timeevo_matrix(B, gate, n):
    """exp(-i t H): product formula when all terms commute (exact), numerical exponential otherwise."""
    terms = list(gate.hamiltonian.terms.items())
    if all(_commute(a, b) for a, _ in terms for b, _ in terms):
        tot = ident(B, 1 << n)
        for term, c in terms:
            p = pauli_string(B, term, n)
            a = gate.time * c
            a = a.real if isinstance(a, complex) else a
            cc, ss = B.cos(a), B.sin(a)
            e = [[(cc if i == j else 0) - B.I * ss * p[i][j] for j in range(1 << n)] for i in range(1 << n)]
            tot = matmul(e, tot)
        return tot
    if B is Exact:
        raise NoRef('exponential of non-commuting terms')
    import numpy as np
    h = np.array(qubitop_matrix(B, gate.hamiltonian, n), dtype=complex)
    w, v = np.linalg.eigh(h)
    return (v @ np.diag(np.exp(-1j * gate.time * w)) @ v.conj().T).tolist()


# --- commands -----------------------------------------------------------------------------------------------------------
def ctrl_state_of(cmd):
    s = getattr(cmd, 'control_state', None)
    n = len(cmd.control_qubits)
    if s is None:
        return '1' * n
    return s


def targets_of(cmd):
    return [q.id for reg in cmd.qubits for q in reg]


def controls_of(cmd):
    return [(q.id, int(b)) for q, b in zip(cmd.control_qubits, ctrl_state_of(cmd))]


def is_classical(cmd):
    from projectq.ops import ClassicalInstructionGate
    return isinstance(cmd.gate, ClassicalInstructionGate)


def apply_matrix(B, vec, m, tpos, cpos):
    """Apply matrix to positions tpos (first least significant) controlled on cpos [(pos, value)]."""
    dim = len(vec)
    k = len(tpos)
    cm = 0
    cv = 0
    for p, v in cpos:
        cm |= 1 << p
        cv |= v << p
    tmask = 0
    offs = []
    for r in range(1 << k):
        o = 0
        for b in range(k):
            if (r >> b) & 1:
                o |= 1 << tpos[b]
        offs.append(o)
    for p in tpos:
        tmask |= 1 << p
    assert not tmask & cm, 'target used as control'
    out = list(vec)
    for base in range(dim):
        if base & tmask or (base & cm) != cv:
            continue
        idx = [base | o for o in offs]
        old = [vec[i] for i in idx]
        if all(B.iszero(x) for x in old):
            continue
        for r in range(1 << k):
            acc = None
            for c in range(1 << k):
                e = m[r][c]
                if (isinstance(e, (int, float, complex)) and e == 0) or (isinstance(e, Num) and not e.t) or \
                        B.iszero(old[c]):
                    continue
                t = old[c] * e if not (isinstance(e, int) and e == 1) else old[c]
                acc = t if acc is None else acc + t
            out[idx[r]] = acc if acc is not None else B.c(0)
    return out


def apply_perm(B, vec, f, regpos, cpos):
    """Permutation given by a function on register values (list -> list)."""
    out = [B.c(0)] * len(vec)
    allpos = [p for reg in regpos for p in reg]
    for i, amp in enumerate(vec):
        if B.iszero(amp):
            continue
        if any(((i >> p) & 1) != v for p, v in cpos):
            out[i] = out[i] + amp
            continue
        vals = [sum(((i >> p) & 1) << k for k, p in enumerate(reg)) for reg in regpos]
        res = f(vals)
        j = i
        for p in allpos:
            j &= ~(1 << p)
        for reg, v in zip(regpos, res):
            for k, p in enumerate(reg):
                j |= ((v >> k) & 1) << p
        out[j] = out[j] + amp
    return out


def apply_cmd(B, vec, cmd, pos):
    """Reference semantics of one quantum command on a state vector; pos: id -> bit position."""
    regs = [[pos[q.id] for q in reg] for reg in cmd.qubits]
    tp = [p for r in regs for p in r]
    cp = [(pos[i], v) for i, v in controls_of(cmd)]
    kind, m = gate_op(B, cmd.gate, [len(r) for r in regs])
    if kind == 'perm':
        fun = m.get_math_function(cmd.qubits)
        return apply_perm(B, vec, fun, regs, cp)
    if len(m) == 1 << len(tp):
        return apply_matrix(B, vec, m, tp, cp)
    # a one-qubit gate (such as Ph) applied to a register: global phase once
    if type(cmd.gate).__name__ == 'Ph':
        return apply_matrix(B, vec, m, tp[:1], cp)
    raise NoRef(f'{cmd.gate} on {len(tp)} qubits')


def run_cmds(B, cmds, ids, vec, skip_classical=True):
    pos = {q: i for i, q in enumerate(ids)}
    for cmd in cmds:
        if is_classical(cmd):
            if skip_classical:
                continue
        if type(cmd.gate).__name__ == 'BarrierGate':
            continue
        vec = apply_cmd(B, vec, cmd, pos)
    return vec


def steps(B, cmds, ids):
    """The commands as operators (computed once), runs of one-qubit gates multiplied out."""
    pos = {q: i for i, q in enumerate(ids)}
    out, waiting = [], {}

    def done(positions):
        for p in positions:
            if p in waiting:
                out.append(('mat', waiting.pop(p), [p], []))

    for cmd in cmds:
        if is_classical(cmd) or type(cmd.gate).__name__ == 'BarrierGate':
            continue
        regs = [[pos[q.id] for q in reg] for reg in cmd.qubits]
        tp = [p for r in regs for p in r]
        cp = [(pos[i], v) for i, v in controls_of(cmd)]
        kind, m = gate_op(B, cmd.gate, [len(r) for r in regs])
        if kind == 'mat' and len(m) != 1 << len(tp):
            if type(cmd.gate).__name__ != 'Ph':
                raise NoRef(f'{cmd.gate} on {len(tp)} qubits')
            tp = tp[:1]
        if kind == 'mat' and len(tp) == 1 and not cp:
            old = waiting.get(tp[0])
            waiting[tp[0]] = m if old is None else [[m[r][0] * old[0][c] + m[r][1] * old[1][c] for c in (0, 1)] for r in (0, 1)]
            continue
        done(tp + [p for p, _ in cp])
        out.append((kind, m, tp, cp) if kind == 'mat' else (kind, m.get_math_function(cmd.qubits), regs, cp))
    done(list(waiting))
    return out


def carry_out(B, todo, vec):
    for kind, m, where, cp in todo:
        vec = apply_matrix(B, vec, m, where, cp) if kind == 'mat' else apply_perm(B, vec, m, where, cp)
    return vec


def basis(B, n, k):
    v = [B.c(0)] * (1 << n)
    v[k] = B.c(1)
    return v


def unitary(B, cmds, ids, cols=None):
    """Columns of the operator of a command list over the listed qubits (first is least significant)."""
    n = len(ids)
    todo = steps(B, cmds, ids)
    cs = [carry_out(B, todo, basis(B, n, k)) for k in (cols if cols is not None else range(1 << n))]
    return [[c[r] for c in cs] for r in range(1 << n)]


# --- engines ------------------------------------------------------------------------------------------------------------
def make_rec(available=None):
    """A backend that records the command objects it receives."""
    from projectq.cengines import BasicEngine

    class Rec(BasicEngine):
        """Recording last engine."""

        def __init__(self):
            super().__init__()
            self.cmds = []
            self.is_last_engine = True
            self.avail = available

        def is_available(self, cmd):
            return True if self.avail is None else self.avail(cmd)

        def receive(self, command_list):
            if type(self.cmds) is not list:      # a trace of a proof
                self.cmds.extend(command_list)
                return
            for c in command_list:
                self.cmds.append(c)

        def quantum(self):
            return [c for c in self.cmds if not is_classical(c)]

    return Rec()


def make_eng(engines=(), available=None):
    from projectq import MainEngine
    rec = make_rec(available)
    eng = MainEngine(backend=rec, engine_list=list(engines))
    return eng, rec


def reserve(eng, upto):
    """Ids below the given one are in use elsewhere: the engine hands out later ones."""
    while eng.get_new_qubit_id() < upto - 1:
        pass


def qid(i, eng=None):
    from projectq.types import WeakQubitRef
    return WeakQubitRef(eng, i)


def mkcmd(gate, regs, ctrls=(), state=None, tags=(), eng=None):
    """A command with given qubit ids, built through the public constructor."""
    from projectq.ops import Command
    c = Command(eng, gate, tuple([qid(i, eng) for i in r] for r in regs), controls=[qid(i, eng) for i in ctrls],
                tags=tuple(tags), **({} if state is None else {'control_state': state}))
    return c


def snapshot(cmd):
    """Everything observable about a command."""
    return (gate_key(cmd.gate), tuple(tuple(q.id for q in r) for r in cmd.qubits), frozenset(controls_of(cmd)),
            tuple(cmd.tags))


def gate_key(g):
    d = {}
    for k, v in sorted(getattr(g, '__dict__', {}).items()):
        d[k] = repr(v)
    return (type(g).__name__, tuple(sorted(d.items())))
