"""L02: Pauli-operator sums form the Pauli algebra."""
import cmath
import copy
import itertools
import math

from pv import num
from pv import world as W
from pv.core import bounded, contract
from pv.maps import MISSING, AnyMap, Key, at
from pv.num import Num
from .c01 import spread

import projectq.ops as ops
from projectq.ops import QubitOperator
from projectq.ops._qubit_operator import QubitOperatorError

P = 'L02'
Q = 'projectq.ops._qubit_operator.QubitOperator.'
LOOP = ('the loops over terms are independent iterations over distinct keys (rule for independent iterations, pv/maps.py)',)
REFUSED = (ValueError, TypeError, QubitOperatorError)


# --- any number of terms ------------------------------------------------------------------------------------------------
def anyop(vc, tag, key, real=False):
    """An operator with an unknown number of terms, seen at an arbitrary term."""
    op = QubitOperator()
    vc.priv(op, 'terms')
    present = vc.flag('term in ' + tag)
    c = (vc.real if real else vc.cplx)('c' + tag) if present else MISSING
    if vc.symbolic:
        op.terms = AnyMap(key, c)
    elif present:
        op.terms[((3, 'X'),)] = c
    return op


def coeff(vc, op, key):
    return at(op.terms, key) if vc.symbolic else op.terms.get(((3, 'X'),), 0)


def others(vc, name, op, want):
    """Concrete runs: random further terms."""


def val(x):
    return 0 if x is MISSING else x


@contract(P, [Q + f for f in ('__add__', '__iadd__', '__sub__', '__isub__')], samples=150, assumptions=LOOP)
def sums(vc):
    """Sums and differences, in place and not, also of an operator with itself: the coefficient of every term; operands unchanged."""
    key = Key()
    a = anyop(vc, 'a', key)
    alias = vc.flag('with itself')
    b = a if alias else anyop(vc, 'b', key)
    x, y = coeff(vc, a, key), coeff(vc, b, key)
    how = vc.choose('operation', ['+', '-', '+=', '-='])
    c = a
    if how == '+':
        c = a + b
    elif how == '-':
        c = a - b
    elif how == '+=':
        c += b
    else:
        c -= b
    vc.ensure('a Pauli sum', isinstance(c, QubitOperator))
    vc.eq('every coefficient', coeff(vc, c, key), x + y if '+' in how else x - y)
    if '=' in how:
        vc.ensure('in place', c is a)
    else:
        vc.ensure('a new operator', c is not a and c is not b and c.terms is not a.terms and c.terms is not b.terms)
        vc.eq('the left operand is unchanged', coeff(vc, a, key), x)
    if not (alias and '=' in how):
        vc.eq('the right operand is unchanged', coeff(vc, b, key), y)


@contract(P, [Q + f for f in ('__mul__', '__imul__', '__rmul__', '__neg__', '__truediv__', '__itruediv__')], samples=200, assumptions=LOOP)
def scalars(vc):
    """Scalar multiples, quotients and the negative: every coefficient; the operand is unchanged unless changed in place."""
    key = Key()
    a = anyop(vc, 'a', key)
    x = coeff(vc, a, key)
    kind = vc.choose('scalar', ['complex', 'real', 'integer'])
    s = vc.cplx('s') if kind == 'complex' else vc.real('s') if kind == 'real' else vc.choose('n', [0, 1, -1, 2, 4])
    how = vc.choose('operation', ['a*s', 's*a', 'a*=s', 'a/s', 'a/=s', '-a'])
    c = a
    if '/' in how:
        if kind == 'complex':
            s = vc.choose('divisor', [1j, 1 + 1j, -2.0, 0.5 - 0.5j])
        elif kind == 'real':
            vc.assume(s != 0) if vc.symbolic else None
            s = s if vc.symbolic or abs(s) > 1e-3 else 0.5
        elif s == 0:
            vc.raises('division by zero is refused', ZeroDivisionError, lambda: a / s)
            return
    if how == 'a*s':
        c = a * s
    elif how == 's*a':
        c = s * a
    elif how == 'a*=s':
        c *= s
    elif how == 'a/s':
        c = a / s
    elif how == 'a/=s':
        c /= s
    else:
        c = -a
    vc.ensure('a Pauli sum', isinstance(c, QubitOperator))
    if '/' in how:
        vc.eq('every coefficient', coeff(vc, c, key) * s, x)
    else:
        vc.eq('every coefficient', coeff(vc, c, key), -x if how == '-a' else x * s)
    if '=' in how:
        vc.ensure('in place', c is a)
    else:
        vc.ensure('a new operator', c is not a and c.terms is not a.terms)
        vc.eq('the operand is unchanged', coeff(vc, a, key), x)


@contract(P, [Q + 'compress'], samples=200, assumptions=LOOP)
def compress(vc):
    """Every coefficient changes by at most the tolerance in each part; small ones disappear."""
    key = Key()
    a = anyop(vc, 'a', key, vc.flag('real'))
    x = coeff(vc, a, key)
    tol = vc.real('tol', 0, 2)
    if not vc.symbolic:
        tol = vc.choose('t', [tol, 0.0, 1e-12])
    a.compress(tol)
    y = coeff(vc, a, key)
    re, im = (x.real, x.imag)
    big = abs(x)
    # the imaginary part is removed exactly if it is small; the term exactly if the rest is small
    if abs(im) <= tol:
        want = re if abs(re) > tol else 0
    else:
        want = x if big > tol else 0
    vc.eq('the coefficient', y, want)
    stored = (a.terms.value is not MISSING if isinstance(a.terms, AnyMap) else key in a.terms) if vc.symbolic else ((3, 'X'),) in a.terms
    if stored:
        vc.ensure('terms close to zero are dropped', abs(y) > tol)


@contract(P, [Q + 'isclose'], samples=200, assumptions=LOOP)
def isclose(vc):
    """Close exactly if every coefficient is; operands unchanged."""
    key = Key()
    a, b = anyop(vc, 'a', key, True), anyop(vc, 'b', key, True)
    x, y = coeff(vc, a, key), coeff(vc, b, key)
    both = (key in a.terms and key in b.terms) if vc.symbolic else bool(a.terms and b.terms)
    rel, tol = vc.real('rel', 0, 2), vc.real('abs', 0, 2)
    if not vc.symbolic:
        rel, tol = vc.choose('r', [rel, 1e-12]), vc.choose('t', [tol, 1e-12])
    if vc.flag('defaults'):
        got, rel, tol = a.isclose(b), 1e-12, 1e-12
    else:
        got = a.isclose(b, rel, tol) if vc.flag('positional') else a.isclose(b, abs_tol=tol, rel_tol=rel)
    d = abs(x - y)
    close = d <= tol
    if not close and both:
        close = d <= rel * abs(x) or d <= rel * abs(y)
    vc.ensure('close exactly if the coefficients are', bool(got) == bool(close), f'{got}')
    vc.eq('the left operand is unchanged', coeff(vc, a, key), x)
    vc.eq('the right operand is unchanged', coeff(vc, b, key), y)


@contract(P, [Q + '__init__', Q + '__add__', Q + '__eq__'], samples=50)
def refusals(vc):
    """Operands of other types are refused and nothing changes."""
    a = QubitOperator('X0 Y1', 2.0) + QubitOperator('', 1.0)
    before = dict(a.terms)
    bad = vc.choose('operand', ['1', [1], None, ops.X, object()])

    def inplace(f):
        def g():
            c = a
            c = f(c)
        return g
    import operator
    fs = [lambda: a * bad, lambda: bad * a, lambda: a + bad, lambda: bad + a, lambda: a - bad, lambda: bad - a, lambda: a / bad, lambda: a / a,
          inplace(lambda c: operator.iadd(c, bad)), inplace(lambda c: operator.isub(c, bad)), inplace(lambda c: operator.imul(c, bad)),
          inplace(lambda c: operator.itruediv(c, bad)), inplace(lambda c: operator.itruediv(c, a)), lambda: a + 1, lambda: a - 1.0]
    vc.raises('refused', TypeError, vc.choose('operation', fs))
    vc.ensure('nothing changes', a.terms == before)
    vc.ensure('different from other objects', (a == bad) is False and a != bad)


# --- products --------------------------------------------------------------------------------------------------------------
def local(vc, tag, most, letters):
    """A term on distinct arbitrary qubits, sorted."""
    k = vc.pick('length of ' + tag, (most if vc.symbolic else 9) + 1)
    out, last = [], None
    for i in range(k):
        if vc.symbolic:
            q = vc.int(f'{tag}{i}', 0, 10 ** 6)
            if last is not None:
                vc.assume(q > last)
        else:
            q = (last if last is not None else -1) + 1 + vc.pick('gap', 3)
        last = q
        out.append((q, vc.choose(f'pauli of {tag}{i}', letters)))
    return tuple(out)


MUL = {('X', 'Y'): (1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y'), ('Y', 'X'): (-1j, 'Z'), ('Z', 'Y'): (-1j, 'X'), ('X', 'Z'): (-1j, 'Y')}


def product_of(t1, t2):
    """Reference: letter by letter."""
    phase, out, used = 1, [], []
    for q, p in t1:
        hit = [(j, r) for j, (s, r) in enumerate(t2) if j not in used and q == s]
        if not hit:
            out.append((q, p))
            continue
        j, r = hit[0]
        used.append(j)
        if p != r:
            f, letter = MUL[p, r]
            phase *= f
            out.append((q, letter))
    return phase, out + [x for j, x in enumerate(t2) if j not in used]


def _product(vc, most1, most2, letters):
    t1, t2 = local(vc, 'a', most1, letters), local(vc, 'b', most2, letters)
    c1, c2 = vc.cplx('ca'), vc.cplx('cb')
    a, b = QubitOperator(), QubitOperator()
    a.terms[t1], b.terms[t2] = c1, c2
    if vc.flag('in place'):
        r = a
        r *= b
        vc.ensure('in place', r is a)
    else:
        r = a * b
        vc.ensure('the left operand is unchanged', list(a.terms.items()) == [(t1, c1)])
    vc.ensure('the right operand is unchanged', list(b.terms.items()) == [(t2, c2)])
    vc.ensure('one term', len(r.terms) == 1)
    (term, c), = r.terms.items()
    phase, want = product_of(t1, t2)
    vc.ensure('as many factors', len(term) == len(want))
    for q, p in want:
        hit = [r for s, r in term if s == q]
        vc.ensure('every qubit has the product of its letters', hit == [p], f'{term}')
    vc.ensure('sorted by qubit', all(bool(x[0] < y[0]) for x, y in zip(term, term[1:])))
    vc.eq('the coefficient', c, c1 * c2 * phase)


@contract(P, [Q + '__imul__', Q + '__mul__'], samples=200, budget=100, size_bound='terms of at most 2 factors on arbitrary qubits')
def product_small(vc):
    """Products of two Pauli strings with arbitrary letters, qubits and coefficients."""
    _product(vc, 2, 2, 'XYZ')


@contract(P, [Q + '__imul__', Q + '__mul__'], samples=200, budget=100, size_bound='terms of at most 3 factors on arbitrary qubits')
def product_positions(vc):
    """All interleavings of the qubits of longer terms."""
    t = vc.choose('letters', [('X', 'Y'), ('Y', 'Z')])
    _product(vc, 3, 3, t[:1]) if vc.flag('equal letters') else _mixed(vc, t)


def _mixed(vc, t):
    t1, t2 = local(vc, 'a', 3, t[:1]), local(vc, 'b', 3, t[1:])
    a, b = QubitOperator(), QubitOperator()
    a.terms[t1], b.terms[t2] = 1.0, 1.0
    (term, c), = (a * b).terms.items()
    phase, want = product_of(t1, t2)
    vc.ensure('as many factors', len(term) == len(want))
    for q, p in want:
        vc.ensure('every qubit has the product of its letters', [r for s, r in term if s == q] == [p], f'{term}')
    vc.ensure('sorted by qubit', all(bool(x[0] < y[0]) for x, y in zip(term, term[1:])))
    vc.eq('the coefficient', c, phase)


STR = ['', 'X0', 'Y0', 'Z0', 'X1', 'X0 Y1', 'Z0 Z1', 'Y0 X1']


@contract(P, [Q + '__imul__', Q + '__mul__'], samples=200, budget=100, size_bound='sums of at most 2 terms on 2 qubits')
def product_sums(vc):
    """Products of sums with arbitrary coefficients, also of an operator with itself, as operators."""
    def mk(tag):
        out, pick = QubitOperator(), []
        for i in range(vc.pick('terms of ' + tag, 3)):
            s = vc.choose('term', [x for x in STR[:6] if x not in pick])
            pick.append(s)
            out += QubitOperator(s, vc.cplx(f'{tag}{i}'))
        return out
    a = mk('a')
    alias = vc.flag('with itself')
    b = a if alias else mk('b')
    B = W.nb(vc)
    ua, ub = W.qubitop_matrix(B, a, 2), W.qubitop_matrix(B, b, 2)
    inplace = vc.flag('in place')
    r = a
    if inplace:
        r *= b
    else:
        r = a * b
        vc.mat_eq('the left operand is unchanged', W.qubitop_matrix(B, a, 2), ua)
    vc.mat_eq('the product', W.qubitop_matrix(B, r, 2), W.matmul(ua, ub))
    if not (alias and inplace):
        vc.mat_eq('the right operand is unchanged', W.qubitop_matrix(B, b, 2), ub)


# --- construction -----------------------------------------------------------------------------------------------------------
@contract(P, [Q + '__init__'], samples=200, size_bound='terms of at most 3 factors')
def tuples(vc):
    """Tuple terms in any order on arbitrary qubits denote the operator they spell."""
    k = vc.pick('length', 4)
    qs, last = [], None
    for i in range(k):
        q = vc.int(f'q{i}', 0, 10 ** 6) if vc.symbolic else (-1 if last is None else last) + 1 + vc.pick('gap', 4)
        if vc.symbolic and last is not None:
            vc.assume(q > last)
        last = q
        qs.append(q)
    ps = [vc.choose('pauli', 'XYZ') for _ in qs]
    order = vc.choose('order', list(itertools.permutations(range(k))))
    c = vc.cplx('c')
    term = tuple((qs[i], ps[i]) for i in order)
    op = QubitOperator(term, c)
    (t, d), = op.terms.items()
    vc.ensure('the factors, sorted by qubit', isinstance(t, tuple) and len(t) == k and all(bool(x[0] == q) and x[1] == p for x, q, p in zip(t, qs, ps)), f'{t}')
    vc.eq('the coefficient', d, c)
    vc.ensure('no terms, zero', QubitOperator().terms == {} and QubitOperator(None, c).terms == {})


@bounded(P, [Q + '__init__'], 'strings of up to 5 factors on qubits below 1000', samples=300)
def strings(vc):
    """String terms in any order and spacing denote the operator they spell."""
    k = vc.pick('length', 6)
    qs = []
    while len(qs) < k:
        q = vc.pick('qubit', 12) if vc.flag('small') else vc.pick('qubit', 1000)
        if q not in qs:
            qs.append(q)
    ps = [vc.choose('pauli', 'XYZ') for _ in qs]
    s = vc.choose('space', [' ', '  ', '\t']).join(f'{p}{q}' for p, q in zip(ps, qs))
    if vc.flag('padding'):
        s = f' {s} '
    c = vc.choose('c', [1.0, 2, -0.5, 1j, 0])
    op = QubitOperator(s, c)
    vc.ensure('the factors, sorted by qubit', op.terms == {tuple(sorted(zip(qs, ps))): c}, f'{s!r}: {op.terms}')
    vc.ensure('the same as a tuple', op == QubitOperator(tuple(zip(qs, ps)), c))


BAD = ['X', 'X0Y1', 'Q0', 'x0', 'X-1', 'X1.5', '0X', 'X 0', 'XY0', 'I', 'X0 Y', 'X0, Y1', [], [(0, 'X')], {}, 5, (0, 'X'), ((0, 1, 'X'),), ((0,),), ((1, 'Q'),),
       ((1, 'I'),), (('1', 'X'),), ((-1, 'X'),), ((1.0, 'X'),), ((0, 'XY'),), ((0, 'YZ'), (1, 'X')), ((0, ''),), ((0, 'XYZ'),), ((0, None),), ((None, 'X'),),
       ((0, 'X'), 1), ('X0',), ([0, 'X'],), ((0, 5),), frozenset()]


@contract(P, [Q + '__init__'], samples=80, exhaustive=True)
def malformed(vc):
    """Malformed terms and coefficients are rejected."""
    bad = vc.choose('term', BAD)
    vc.raises('rejected', REFUSED, lambda: QubitOperator(bad))
    vc.raises('coefficients must be numbers', REFUSED, lambda: QubitOperator('X0', vc.choose('coefficient', ['0.5', None, [1], (1,)])))


@contract(P, [Q + '__init__'], samples=80)
def malformed_qubits(vc):
    """Negative qubit numbers are rejected, whatever their values, in the first factor or a later one."""
    q, r = vc.int('q', -10 ** 6, 10 ** 6), vc.int('r', 0, 10 ** 6)
    vc.assume(q != r)
    p = vc.choose('p', 'XYZ')
    term = vc.choose('place', [((q, p),), ((q, p), (r, 'X')), ((r, 'Y'), (q, p))])
    if q < 0:
        vc.raises('negative numbers', REFUSED, lambda: QubitOperator(term))
    else:
        vc.ensure('accepted', len(QubitOperator(term).terms) == 1)


@contract(P, [Q + '__init__'], samples=80)
def repeated(vc):
    """Terms naming a qubit twice are rejected (they would not denote the operator they spell)."""
    q, r = vc.int('q', 0, 10 ** 6), vc.int('r', 0, 10 ** 6)
    vc.assume(q != r)
    p, p2 = vc.choose('p', 'XYZ'), vc.choose('p2', 'XYZ')
    if vc.flag('string') and not vc.symbolic:
        term = f'{p}{q} {p2}{q}' + vc.choose('more', ['', f' Z{r}'])
    else:
        term = ((q, p), (q, p2)) + vc.choose('more', [(), ((r, 'Z'),)])
    vc.raises('repeated qubits', REFUSED, lambda: QubitOperator(term))


# --- application ------------------------------------------------------------------------------------------------------------
def apply(vc, op, n, how):
    eng, rec = W.make_eng()
    q = eng.allocate_qureg(n)
    arg = {'register': q, 'tuple': (q,), 'list': list(q), 'qubit': q[0] if n == 1 else q}[how]
    del rec.cmds[:]
    op | arg
    ids = [x.id for x in q]
    cmds = list(rec.cmds)
    return cmds, ids, q


@contract(P, [Q + '__or__'], samples=150, size_bound='registers of at most 3 qubits')
def application(vc):
    """Applying a unit-length term is the Pauli string with its phase, on the right qubits."""
    n = 1 + vc.pick('size', 3)
    term = []
    for i in range(n):
        p = vc.choose('pauli', 'IXYZ')
        if p != 'I':
            term.append((i, p))
    t = vc.angle('t')
    if vc.symbolic:
        vc.assume(t > -num.PI)
        vc.assume(t <= num.PI)
        c = num.expi(t)
    else:
        c = vc.choose('c', [cmath.exp(1j * t), 1, -1, 1j, -1j, 1.0 + 0j])
    op = QubitOperator(tuple(term), c)
    B = W.nb(vc)
    want = W.qubitop_matrix(B, op, n)
    cmds, ids, q = apply(vc, op, n, vc.choose('how', ['register', 'tuple', 'list', 'qubit']))
    vc.mat_eq('the Pauli string with its phase', W.unitary(B, cmds, ids), want)
    for cmd in cmds:
        on = [x.id for r in cmd.qubits for x in r]
        vc.ensure('only qubits the term acts on', set(on) <= {ids[i] for i, _ in term} or not term and on == [ids[0]])
        vc.ensure('no controls', not cmd.control_qubits)
    vc.ensure('the operator is unchanged', list(op.terms) == [tuple(term)])
    del q


@contract(P, [Q + '__or__'], samples=150, size_bound='terms of 2 to 4 factors on registers of 20 qubits')
def wide_application(vc):
    """A term on a few qubits of a long register acts on exactly these qubits, and the gate sent is in standard form."""
    n = 20
    where = vc.choose('where', [(1, 8, 16), (0, 19), (16, 17, 8, 3), (9, 18)]) if vc.symbolic else \
        spread([vc.pick(f'q{i}', n) for i in range(2 + vc.pick('factors', 3))], n - 1)
    term = [(i, vc.choose('pauli', 'XYZ')) for i in sorted(where)]
    t = vc.angle('t')
    if vc.symbolic:
        vc.assume(t > -num.PI)
        vc.assume(t <= num.PI)
    c = num.expi(t) if vc.symbolic else vc.choose('c', [cmath.exp(1j * t), 1, -1, 1j, -1j])
    op = QubitOperator(tuple(term), c)
    cmds, ids, q = apply(vc, op, n, vc.choose('how', ['register', 'tuple', 'list']))
    used = [ids[i] for i, _ in term]
    vc.ensure('only qubits the term acts on', all(x.id in used for cmd in cmds for r in cmd.all_qubits for x in r))
    B = W.nb(vc)
    want = W.qubitop_matrix(B, QubitOperator(tuple((k, p) for k, (_, p) in enumerate(term)), c), len(used))
    vc.mat_eq('the Pauli string with its phase', W.unitary(B, cmds, used), want)
    for g in (cmd.gate for cmd in cmds if isinstance(cmd.gate, QubitOperator)):
        for t in g.terms:
            vc.ensure('the factors of the gate are in order', all(a[0] < b[0] for a, b in zip(t, t[1:])), str(t))
    del q


@contract(P, [Q + '__or__'], samples=100)
def application_refused(vc):
    """Sums, terms without unit length, missing qubits and several registers are refused before anything is applied."""
    eng, rec = W.make_eng()
    q = eng.allocate_qureg(3)
    before = len(rec.cmds)
    kind = vc.choose('kind', ['zero', 'sum', 'length', 'qubits', 'registers'])
    if kind == 'zero':
        f, err = (lambda: QubitOperator() | q), TypeError
    elif kind == 'sum':
        f, err = (lambda: (QubitOperator('X0') + QubitOperator(vc.choose('term', ['Y0', 'X1', '']))) | q), TypeError
    elif kind == 'length':
        r = vc.real('r', -3, 3)
        if vc.symbolic:
            for s in (1, -1):
                vc.assume(abs(r - s) > 1e-9)
        elif abs(abs(r) - 1) < 1e-9:
            return
        op = QubitOperator(vc.choose('term', ['X0', '', 'X0 Y2']), r * vc.choose('phase', [1, 1j, -1]))
        f, err = (lambda: op | q), TypeError
    elif kind == 'qubits':
        i = vc.int('i', 3, 10 ** 6)
        term = vc.choose('term', [((i, 'X'),), ((0, 'X'), (i, 'Z')), ((0, 'X'), (1, 'Z'), (i, 'Y'))])
        f, err = (lambda: QubitOperator(term) | q), ValueError
    else:
        f, err = (lambda: QubitOperator('X0') | (q[:1], q[1:])), TypeError
    vc.raises('refused', err, f)
    vc.ensure('nothing is applied', len(rec.cmds) == before)


# --- random algebra ---------------------------------------------------------------------------------------------------------
def rnd(vc):
    out = QubitOperator()
    for _ in range(vc.pick('terms', 5)):
        out += QubitOperator(tuple((i, p) for i in range(3) for p in [vc.choose('p', 'IXYZ')] if p != 'I'),
                             vc.choose('c', [1, -1, 2.5, 1j, -0.5j, 1 + 1j, 0.25]))
    return out


@bounded(P, [Q + f for f in ('__add__', '__sub__', '__mul__', '__imul__', '__iadd__', '__isub__', '__truediv__', '__neg__', 'isclose', 'compress', '__eq__')],
         'random expressions of up to 8 operations on sums of up to 4 terms on 3 qubits', samples=200, thorough=2000)
def expressions(vc):
    """Random expressions denote the corresponding matrices."""
    B = W.Float
    xs = [rnd(vc), rnd(vc), QubitOperator('', 1.0)]
    ms = [W.qubitop_matrix(B, x, 3) for x in xs]

    def lin(f, *args):
        return [[f(*(m[i][j] for m in args)) for j in range(8)] for i in range(8)]
    for _ in range(vc.pick('operations', 8) + 1):
        i, j = vc.pick('left', len(xs)), vc.pick('right', len(xs))
        how = vc.choose('op', ['+', '-', '*', 's', '/', 'neg', '+=', '-=', '*=', 'c'])
        a, b, ma, mb = xs[i], xs[j], ms[i], ms[j]
        if len(a.terms) * len(b.terms) > 40:
            continue
        s = vc.choose('s', [2, -1j, 0.5 + 0.5j, 0])
        if how == 's':
            r, m = (a * s if vc.flag('right') else s * a), lin(lambda x: x * s, ma)
        elif how == '/':
            r, m = a / (s or 4), lin(lambda x: x / (s or 4), ma)
        elif how == 'neg':
            r, m = -a, lin(lambda x: -x, ma)
        elif how == 'c':
            r, m = copy.deepcopy(a), ma
            r.compress()
        elif how in ('+', '-', '*'):
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[how]()
            m = lin(lambda x, y: x + y, ma, mb) if how == '+' else lin(lambda x, y: x - y, ma, mb) if how == '-' else W.matmul(ma, mb)
        else:
            m = lin(lambda x, y: x + y, ma, mb) if how == '+=' else lin(lambda x, y: x - y, ma, mb) if how == '-=' else W.matmul(ma, mb)
            r = a
            if how == '+=':
                r += b
            elif how == '-=':
                r -= b
            else:
                r *= b
            ms[i] = m
        vc.mat_eq('the result', W.qubitop_matrix(B, r, 3), m)
        if r is not a:
            xs.append(r)
            ms.append(m)
        for x, m in zip(xs, ms):
            vc.mat_eq('all other operators are unchanged', W.qubitop_matrix(B, x, 3), m)
    a, b = xs[-1], xs[vc.pick('other', len(xs))]
    far = max(abs(x - y) for u, v in zip(W.qubitop_matrix(B, a, 3), W.qubitop_matrix(B, b, 3)) for x, y in zip(u, v))
    if a.isclose(b):
        vc.ensure('close operators have close matrices', far < 1e-8)
    elif far < 1e-14:
        vc.ensure('equal operators are close', False)
    if a == b:
        vc.ensure('equal operators have the same matrix', far < 1e-9)


# --- many qubits, many terms: strings as pairs of bit masks, i^|x&z| X^x Z^z ------------------------------------------------------
def masks(term):
    x = z = 0
    for i, p in term:
        x |= (p in 'XY') << i
        z |= (p in 'ZY') << i
    return x, z


def times(a, b):
    """Coefficients of the product."""
    out = {}
    for (x1, z1), c1 in a.items():
        for (x2, z2), c2 in b.items():
            x, z = x1 ^ x2, z1 ^ z2
            k = bin(x1 & z1).count('1') + bin(x2 & z2).count('1') + 2 * bin(z1 & x2).count('1') - bin(x & z).count('1')
            out[x, z] = out.get((x, z), 0) + c1 * c2 * (1, 1j, -1, -1j)[k % 4]
    return out


def plus(a, b, s):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return out


@bounded(P, [Q + f for f in ('__init__', '__add__', '__sub__', '__mul__', '__imul__', '__iadd__', '__isub__', '__truediv__', '__neg__', 'isclose', 'compress',
                             '__eq__', '__str__', '__or__')],
         'random expressions of up to 8 operations on sums of up to 30 terms of up to 20 factors on 40 qubits, products of up to 400 terms', samples=250, thorough=4000)
def expressions_large(vc):
    """Large operators against the algebra on bit masks."""
    def term():
        qubits = sorted({vc.pick('qubit', 40) for _ in range(vc.choose('factors', [0, 1, 2, 5, 9, 20]))})
        return tuple((i, vc.choose('p', 'XYZ')) for i in qubits)

    def spell(t):
        t = list(t)
        for i in range(len(t) - 1):
            j = i + vc.pick('order', len(t) - i)
            t[i], t[j] = t[j], t[i]
        return ' '.join(p + str(i) for i, p in t) if vc.flag('as text') else tuple(t)

    def draw():
        op, ref = QubitOperator(), {}
        known = [term() for _ in range(3)]
        for _ in range(vc.choose('terms', [0, 1, 1, 3, 10, 30])):
            t = vc.choose('known', known) if vc.flag('again') else term()
            c = vc.choose('c', [1, -1, 2.5, 1j, -0.5j, 1 + 1j, 0.25])
            op += QubitOperator(spell(t), c)
            ref = plus(ref, {masks(t): c}, 1)
        return op, ref

    def check(name, op, ref):
        got = {}
        for t, c in op.terms.items():
            vc.ensure(name + ': factors in order', all(a[0] < b[0] for a, b in zip(t, t[1:])), str(t))
            vc.ensure(name + ': every term once', masks(t) not in got)
            got[masks(t)] = c
        d = max([abs(got.get(k, 0) - ref.get(k, 0)) for k in set(got) | set(ref)] + [0])
        vc.ensure(name, d < 1e-9 * (1 + max([abs(c) for c in ref.values()] + [0])), f'deviation {d}')
    xs = [draw() for _ in range(3)]
    for _ in range(1 + vc.pick('operations', 8)):
        i, j = vc.pick('left', len(xs)), vc.pick('right', len(xs))
        how = vc.choose('op', ['+', '-', '*', 's', '/', 'neg', '+=', '-=', '*=', '*=', 'c'])
        (a, ra), (b, rb) = xs[i], xs[j]
        if '*' in how and len(a.terms) * len(b.terms) > 400:
            continue
        s = vc.choose('s', [2, -1j, 0.5 + 0.5j, -1.0])
        want = {'+': lambda: plus(ra, rb, 1), '-': lambda: plus(ra, rb, -1), '*': lambda: times(ra, rb), 's': lambda: plus({}, ra, s),
                '/': lambda: plus({}, ra, 1 / s), 'n': lambda: plus({}, ra, -1), 'c': lambda: ra}[how[0]]()
        if how in ('+=', '-=', '*='):
            r = a
            if how == '+=':
                r += b
            elif how == '-=':
                r -= b
            else:
                r *= b
            vc.ensure('in place', r is a)
            xs[i] = (a, want)
        else:
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, 's': lambda: a * s if vc.flag('right') else s * a, '/': lambda: a / s,
                 'n': lambda: -a, 'c': lambda: copy.deepcopy(a)}[how[0]]()
            if how == 'c':
                r.compress()
                vc.ensure('no vanishing terms are left', all(abs(c) > 1e-12 for c in r.terms.values()))
            xs.append((r, want))
        for x, ref in xs:
            check('the operator', x, ref)
    (a, ra), (b, rb) = xs[-1], xs[vc.pick('other', len(xs))]
    far = max([abs(c) for c in plus(ra, rb, -1).values()] + [0])
    if a.isclose(b) or a == b:
        vc.ensure('close operators are close', far < 1e-6 * (1 + max([abs(c) for c in ra.values()] + [0])))
    elif far == 0:
        vc.ensure('equal operators are close', a.isclose(b))


del math, Num
