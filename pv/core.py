"""Path exploration, symbolic booleans and integers, proof obligations and concrete replay."""
import contextlib
import gc
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import num
from .num import Num, PI_VAR, Unsupported

ABS_TOL = 1e-9


class PathEnd(BaseException):
    """The current path ends here (infeasible assumption or loop step finished)."""


class EnsureFailed(BaseException):
    """A postcondition failed in concrete mode."""

    def __init__(self, name, detail=''):
        super().__init__(f'{name}: {detail}')
        self.name = name
        self.detail = detail


def _is_sym(x):
    return isinstance(x, (SBool, SInt, Num))


class SBool:
    """Symbolic boolean; using it as a Python condition forks the path."""

    __slots__ = ('e', 'fact')

    def __init__(self, e, fact=None):
        self.e = e
        self.fact = fact      # (Num, polarity): the Num is zero when this condition has that truth value

    def __bool__(self):
        r = num._ctx().decide(self.e)
        if self.fact is not None and r == self.fact[1]:
            num._ctx().learn_zero(self.fact[0])
        return r

    def __and__(self, o):
        return SBool(z3.And(self.e, as_z3_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, as_z3_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.e, as_z3_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e), self.fact and (self.fact[0], not self.fact[1]))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.e == as_z3_bool(o))
        if isinstance(o, (int, SInt)):
            return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return 0

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'SBool({self.e})'


def as_z3_bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    raise Unsupported(f'cannot use {type(x)} as a boolean term')


class SInt:
    """Symbolic mathematical integer."""

    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e if not isinstance(e, int) else z3.IntVal(e)

    @staticmethod
    def _c(o):
        if isinstance(o, SInt):
            return o.e
        if isinstance(o, SBool):
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        try:
            import numpy as np
            if isinstance(o, np.integer):
                return z3.IntVal(int(o))
        except ImportError:
            pass
        return None

    def _bin(self, o, f):
        c = SInt._c(o)
        if c is None:
            return NotImplemented
        return SInt(f(self.e, c))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _fdiv(a, b):
        # Python floor division from z3 (Euclidean) division
        q = a / b
        return z3.If(z3.And(b < 0, a % b != 0), q - 1, q)

    @staticmethod
    def _fmod(a, b):
        m = a % b  # in [0,|b|)
        return z3.If(z3.And(b < 0, m != 0), m + b, m)

    def _divcheck(self, c):
        if num._ctx().decide(c == 0):
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        c = SInt._c(o)
        if c is None:
            return NotImplemented
        self._divcheck(c)
        return SInt(SInt._fdiv(self.e, c))

    def __rfloordiv__(self, o):
        c = SInt._c(o)
        if c is None:
            return NotImplemented
        self._divcheck(self.e)
        return SInt(SInt._fdiv(c, self.e))

    def __mod__(self, o):
        c = SInt._c(o)
        if c is None:
            return NotImplemented
        self._divcheck(c)
        return SInt(SInt._fmod(self.e, c))

    def __rmod__(self, o):
        c = SInt._c(o)
        if c is None:
            return NotImplemented
        self._divcheck(self.e)
        return SInt(SInt._fmod(c, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __lshift__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        return self // (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            if o == 0:
                return 0
            if (o + 1) & o == 0:  # 2^k - 1
                return self % (o + 1)
            out = 0
            b = 0
            while (1 << b) <= o:
                if (o >> b) & 1:
                    out = out + ((self >> b) % 2) * (1 << b)
                b += 1
            return out
        if isinstance(o, SInt):
            return num._ctx().int_bitop('and', self, o)
        return NotImplemented

    __rand__ = __and__

    def __xor__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        if isinstance(o, int) and o > 0:
            return self + o - 2 * (self & o)
        if isinstance(o, SInt):
            return num._ctx().int_bitop('xor', self, o)
        return NotImplemented

    __rxor__ = __xor__

    def __or__(self, o):
        if isinstance(o, int) and o >= 0:
            return self + o - (self & o)
        if isinstance(o, SInt):
            return num._ctx().int_bitop('or', self, o)
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return -self - 1

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = SInt(1)
            for _ in range(o):
                r = r * self
            return r
        return NotImplemented

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, f):
        c = SInt._c(o)
        if c is None:
            if isinstance(o, float) and o == int(o):
                c = z3.IntVal(int(o))
            else:
                return NotImplemented
        return SBool(f(self.e, c))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return num._ctx().decide(self.e != 0)

    def __int__(self):
        return num._ctx().concretize(self)

    __index__ = __int__

    def __truediv__(self, o):
        return self.to_num() / (o.to_num() if isinstance(o, SInt) else o)

    def to_num(self):
        return num._ctx().int_to_num(self)

    def __repr__(self):
        return num._ctx().token(self) if num._active() else str(self.e)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Obligation:
    """One discharged (or not) verification condition."""

    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'model')

    def __init__(self, name, status, backend, tm, detail='', model=None):
        self.name, self.status, self.backend, self.time = name, status, backend, tm
        self.detail, self.model = detail, model


class VC:
    """Verification context handed to a contract harness; symbolic or concrete."""

    symbolic = False

    nb = None

    def uname(self, name):
        """Unique input name, assigned in drawing order."""
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f'{name}~{k}'

    def priv(self, obj, name):
        """An internal of the real code; its absence is an engine limit, never a verdict."""
        if not hasattr(obj, name):
            raise Unsupported(f'{getattr(obj, "__name__", obj)} has no {name} any more')
        return getattr(obj, name)

    _internal = False

    @contextlib.contextmanager
    def internal(self):
        """Obligations about the representation used by the proof (invariants of private state): when they fail, the proof
        does not apply to this code any more and the bounded search decides; they are no verdict on behaviour."""
        old, self._internal = self._internal, True
        try:
            yield
        finally:
            self._internal = old

    # --- shared helpers -------------------------------------------------------------------------------------------
    def choose(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def flag(self, name):
        return bool(self.pick(name, 2))

    def all_eq(self, name, pairs):
        for k, (a, b) in enumerate(pairs):
            self.eq(f'{name}[{k}]', a, b)

    def mat_eq(self, name, a, b, phase=False):
        """Matrices (lists of lists) equal, optionally up to a global phase; one obligation."""
        raise NotImplementedError

    def unreachable(self, name, detail=''):
        self.ensure(name, False, detail)

    def raises(self, name, excs, fn, *args):
        """Postcondition: fn raises one of excs."""
        try:
            fn(*args)
        except excs:
            self.ensure(name, True)
            return True
        self.ensure(name, False, 'no error was reported')
        return False


def _mat_pairs(a, b):
    la = a.tolist() if hasattr(a, 'tolist') else a
    lb = b.tolist() if hasattr(b, 'tolist') else b
    if len(la) != len(lb) or any(len(x) != len(y) for x, y in zip(la, lb)):
        return None
    return [(x, y) for ra, rb in zip(la, lb) for x, y in zip(ra, rb)]


class SymVC(VC):
    """Symbolic mode: one execution of one path."""

    symbolic = True
    dead = False

    def __init__(self, runner, prefix):
        num.ROOTS.clear()
        self.runner = runner
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', runner.timeout_ms)
        self.inputs = {}
        self.subst = {}
        self.num_consts = {}
        self.tokens = {}
        self.tok_of = []
        self.fresh_n = 0
        self.pi = z3.Real(PI_VAR)
        self.solver.add(self.pi > z3.Q(314159265358, 10**11), self.pi < z3.Q(314159265360, 10**11))
        self.choices = {}
        self.covered = False
        self.z3time = 0.0
        self.ghost = {}
        self.names = {}

    # inputs ---------------------------------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, nonzero=False):
        name = self.uname(name)
        n = Num.var(name)
        c = z3.Real(name)
        self.num_consts[name] = c
        self.inputs[name] = ('real', c)
        if lo is not None:
            self.solver.add(c >= self._z3num(Num.const(lo)))
        if hi is not None:
            self.solver.add(c <= self._z3num(Num.const(hi)))
        if nonzero:
            self.solver.add(c != 0)
        return n

    def cplx(self, name):
        return self.real(name + '.re') + self.real(name + '.im') * num.I_

    def angle(self, name):
        return self.real(name)

    def int(self, name, lo=None, hi=None):
        name = self.uname(name)
        c = z3.Int(name)
        self.inputs[name] = ('int', c)
        if lo is not None:
            self.solver.add(c >= (lo.e if isinstance(lo, SInt) else lo))
        if hi is not None:
            self.solver.add(c <= (hi.e if isinstance(hi, SInt) else hi))
        return SInt(c)

    def bool(self, name):
        name = self.uname(name)
        c = z3.Bool(name)
        self.inputs[name] = ('bool', c)
        return SBool(c)

    def pick(self, name, n):
        """Nondeterministic choice among n alternatives, all of them explored."""
        name = self.uname(name)
        k = self._branch(n)
        self.choices[name] = k
        return k

    # path machinery -----------------------------------------------------------------------------------------------------
    def _branch(self, n, feasible=None):
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            opts = list(range(n)) if feasible is None else feasible
            k = opts[0]
            for o in opts[1:]:
                self.runner.push(self.trace + [o])
        self.trace.append(k)
        return k

    def _check(self, *extra):
        if self.dead:
            raise PathEnd()
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.z3time += dt
        self.runner.z3time += dt
        return r

    def decide(self, e):
        if self.dead:
            raise PathEnd()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trace.append(k)
        else:
            ft = self._check(e)
            ff = self._check(z3.Not(e))
            if ft == z3.unsat and ff == z3.unsat:
                raise PathEnd()
            if ft == z3.unsat:
                opts = [0]
            elif ff == z3.unsat:
                opts = [1]
            else:
                opts = [1, 0]
            k = self._branch(2, opts)
        self.solver.add(e if k else z3.Not(e))
        return bool(k)

    def assume(self, cond):
        e = as_z3_bool(cond)
        self.solver.add(e)
        if self._check() == z3.unsat:
            raise PathEnd()
        if isinstance(cond, SBool) and cond.fact is not None and cond.fact[1]:
            self.learn_zero(cond.fact[0])

    def concretize(self, s, cap=64):
        """Case split a symbolic integer over all its feasible values."""
        e = z3.simplify(s.e)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self._check()
                if r == z3.unknown:
                    self.solver.pop()
                    raise Unsupported('solver unknown while enumerating an integer')
                if r == z3.unsat:
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(e != v)
                if len(vals) > cap:
                    self.solver.pop()
                    raise Unsupported('unbounded integer used as a concrete index')
            self.solver.pop()
            if not vals:
                raise PathEnd()
            vals.sort()
            v = self._branch(0, vals)
            self.solver.add(e == v)
            return v
        self.trace.append(v)
        self.solver.add(e == v)
        return v

    # numbers ----------------------------------------------------------------------------------------------------------
    def fresh_real(self, hint='t'):
        self.fresh_n += 1
        name = f'#{hint}{self.fresh_n}'
        c = z3.Real(name)
        self.num_consts[name] = c
        return Num.var(name), c

    def _z3num(self, n):
        """z3 real term of a real-valued Num (trig parts become constrained cos/sin pairs)."""
        n = n.subst()
        tot = z3.RealVal(0)
        rest = Num()
        for (mono, lin, r), c in n.t.items():
            if lin or r:
                rest = rest + num._mk(mono, lin, r, c)
                continue
            term = z3.RealVal(c)
            for v, p in mono:
                x = self._const(v)
                for _ in range(abs(p)):
                    term = term * x if p > 0 else term / x
            tot = tot + term
        if rest.t:
            tot = tot + self._z3trig(rest)
        return tot

    def _const(self, v):
        if v == PI_VAR:
            return self.pi
        if v == '#one':
            return z3.RealVal(1)
        if v not in self.num_consts:
            self.num_consts[v] = z3.Real(v)
        return self.num_consts[v]

    def _z3trig(self, n):
        tot = z3.RealVal(0)
        for (mono, lin, r), c in n.t.items():
            if lin:
                raise Unsupported('comparison of a trigonometric expression')
            # constant phase: real part only (value is real overall)
            term = z3.RealVal(c)
            for v, p in mono:
                x = self._const(v)
                for _ in range(abs(p)):
                    term = term * x if p > 0 else term / x
            tot = tot + term * self._cospi(r)
        return tot

    def _cospi(self, r):
        key = f'#cos({r}pi)'
        if key not in self.num_consts:
            cst = z3.Real(key)
            self.num_consts[key] = cst
            if r == Fraction(1, 4):
                self.solver.add(2 * cst * cst == 1, cst > 0)
            elif r == Fraction(3, 4):
                self.solver.add(2 * cst * cst == 1, cst < 0)
            elif r == Fraction(1, 2):
                self.solver.add(cst == 0)
            else:
                val = Fraction(math.cos(math.pi * float(r)))
                self.solver.add(cst > val - Fraction(1, 10**9), cst < val + Fraction(1, 10**9))
        return self.num_consts[key]

    def num_cmp(self, op, a, b):
        d = (a - b).subst()
        if d.is_zero():
            return op in ('==', '<=', '>=')
        if d.is_const():
            v = d.approx()
            if abs(v.imag) > 1e-12:
                if op in ('==', '!='):
                    return op == '!='
                raise TypeError('complex numbers cannot be ordered')
            v = v.real
            return {'==': False, '!=': True, '<': v < 0, '<=': v < 0, '>': v > 0, '>=': v > 0}[op]
        if d.vars() <= {PI_VAR}:
            v = d.approx()
            if abs(v.imag) < 1e-12 and 1e-6 < abs(v.real) < 1e6:
                v = v.real
                return {'==': False, '!=': True, '<': v < 0, '<=': v < 0, '>': v > 0, '>=': v > 0}[op]
        if not d.is_real():
            if op in ('==', '!='):
                e = z3.And(self._z3num(d.real) == 0, self._z3num(d.imag) == 0)
                return SBool(e if op == '==' else z3.Not(e))
            raise TypeError('complex numbers cannot be ordered')
        z = self._z3num(d)
        e = {'==': z == 0, '!=': z != 0, '<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op]
        return SBool(e, (d, op == '==') if op in ('==', '!=') else None)

    def learn_zero(self, d):
        """Path fact d == 0: define one of its variables by the others."""
        d = d.subst()
        occ = {}
        for (mono, lin, r), _c in d.t.items():
            if lin:
                return
            for v, p in mono:
                occ.setdefault(v, []).append((mono, r))
        for v in sorted(occ):
            if v == PI_VAR or len(occ[v]) != 1 or occ[v][0] != (((v, 1),), 0):
                continue
            c = d.t[(((v, 1),), (), Fraction(0))]
            self.subst[v] = (Num.var(v) * c - d) * (1 / c)
            return

    def num_mod(self, a, b):
        """a % b for reals, b > 0: a - k*b with k integer, result in [0, b)."""
        if a.is_const() and b.is_const() and not a.t:
            return Num()
        if self.ghost.get('fork mod'):      # case split on the multiple
            for k in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5):
                x = a - b * k
                if x >= 0 and x < b:
                    return x
            raise Unsupported('modulo of an unbounded real')
        za, zb = self._z3num(a), self._z3num(b)
        if self._check(zb <= 0) != z3.unsat:
            raise Unsupported('modulo by a possibly non-positive real')
        self.fresh_n += 1
        k = z3.Int(f'#k{self.fresh_n}')
        kr, kc = self.fresh_real('kr')
        self.solver.add(kc == z3.ToReal(k))
        z = za - kc * zb
        self.solver.add(z >= 0, z < zb)
        self.ghost.setdefault('mods', []).append((a, b, kr))
        return a - kr * b

    def num_round(self, a, nd):
        """round(a, nd): some real within half a unit in the last place (assumption: that is all round() does)."""
        if nd is not None and nd >= self.ghost.get('exact round', 1000):
            return a
        r, c = self.fresh_real('round')
        eps = z3.Q(1, 2 * 10 ** (nd or 0))
        za = self._z3num(a)
        self.solver.add(c - za <= eps, za - c <= eps, z3.Implies(za >= 0, c >= 0), z3.Implies(za <= 0, c <= 0))
        return r

    def num_sqrt(self, x):
        if not x.is_real():
            raise Unsupported('sqrt of a complex symbolic number')
        for name, y in num.ROOTS.items():
            if (x - y).is_zero():
                return Num.var(name)
        r, c = self.fresh_real('sqrt')
        self.solver.add(c >= 0, c * c == self._z3num(x))
        name, = r.vars()
        num.ROOTS[name] = x
        return r

    def int_to_num(self, s):
        e = z3.simplify(s.e)
        if z3.is_int_value(e):
            return Num.const(e.as_long())
        name = f'#int:{e}'
        c = self._const(name)
        self.solver.add(c == z3.ToReal(e))
        return Num.var(name)

    def int_extreme(self, hint, xs, better):
        """max() / min() of integers some of which are symbolic: one of them, and at least as large / small as all of them."""
        zs = [x.e if isinstance(x, SInt) else z3.IntVal(x) for x in xs]
        self.fresh_n += 1
        r = z3.Int(f'#{hint}{self.fresh_n}')
        self.solver.add(z3.Or([r == z for z in zs]), *[better(r, z) for z in zs])
        return SInt(r)

    def int_bitop(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            e = z3.simplify(y.e)
            if z3.is_int_value(e):
                return {'and': x.__and__, 'xor': x.__xor__, 'or': x.__or__}[op](e.as_long())
        raise Unsupported('bit operation on two symbolic integers')

    # strings --------------------------------------------------------------------------------------------------------------
    def token(self, x):
        """Parametric text: a symbolic value prints as a unique token."""
        if isinstance(x, SInt):
            key = 'i:' + str(z3.simplify(x.e))
        else:
            x = x.subst()
            if not x.t:
                return '0'
            if x.is_const() and x.is_real():
                v = x.approx().real
                return repr(v)
            key = 'n:' + x.show()
        if key not in self.tokens:
            self.tokens[key] = f'\u27e6{len(self.tok_of)}\u27e7'
            self.tok_of.append(x)
        return self.tokens[key]

    # obligations -----------------------------------------------------------------------------------------------------------
    def _record(self, name, status, backend, t0, detail='', model=None):
        self.covered = True
        if self._internal and status != 'discharged':
            raise Unsupported(f'the internal representation differs: {name}')
        self.runner.record(Obligation(name, status, backend, time.time() - t0, detail, model))

    def _model(self, extra=None):
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        out = None
        if self._check() == z3.sat:
            m = self.solver.model()
            out = {}
            for name, (kind, c) in self.inputs.items():
                v = m.eval(c, model_completion=True)
                if kind == 'int':
                    out[name] = v.as_long()
                elif kind == 'bool':
                    out[name] = z3.is_true(v)
                else:
                    out[name] = _z3float(v)
        self.solver.pop()
        return dict(values=out or {}, choices=dict(self.choices), solved=out is not None)

    def ensure(self, name, cond, detail=''):
        if self.dead:
            raise PathEnd()
        t0 = time.time()
        if isinstance(cond, (bool, int)) and not isinstance(cond, SBool):
            if cond:
                self._record(name, 'discharged', 'evaluation', t0)
                return
            r = self._check()
            if r == z3.unsat:
                self._record(name, 'discharged', 'z3 (infeasible path)', t0)
                raise PathEnd()
            self._record(name, 'refuted' if r == z3.sat else 'unknown', 'evaluation', t0, detail or 'postcondition is false',
                         self._model())
            return
        e = as_z3_bool(cond)
        r = self._check(z3.Not(e))
        if r == z3.unsat:
            self._record(name, 'discharged', 'z3', t0)
            if self.runner.cross:
                self.runner.cross_check(self.solver, z3.Not(e))
            return
        if r == z3.sat:
            self._record(name, 'refuted', 'z3', t0, detail or str(z3.simplify(e))[:300], self._model(z3.Not(e)))
        else:
            self._record(name, 'unknown', 'z3', t0, f'solver: {self.solver.reason_unknown()}', self._model())
        # continue under the assumption that the postcondition holds
        self.solver.add(e)
        if self._check() == z3.unsat:
            raise PathEnd()

    def eq(self, name, a, b, detail=''):
        """a == b exactly (algebraic when trigonometric)."""
        t0 = time.time()
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, Num) or isinstance(b, Num):
                a, b = Num.const(a) if not isinstance(a, SInt) else a.to_num(), b
            r = (a == b)
            return self.ensure(name, r if isinstance(r, (SBool, bool)) else False, detail)
        if isinstance(a, Num) or isinstance(b, Num) or isinstance(a, (int, float, complex)):
            try:
                d = Num.const(a) - Num.const(b)
            except TypeError:
                return self.ensure(name, a == b, detail)
            if d.is_zero():
                self._record(name, 'discharged', 'exact trigonometric algebra', t0)
                return
            return self._num_nonzero(name, [d], t0, detail or f'{_show(a)} != {_show(b)}')
        return self.ensure(name, a == b, detail or f'{a!r} != {b!r}'[:300])

    def _num_nonzero(self, name, diffs, t0, detail):
        # path facts may still force equality: linear facts through z3, otherwise report
        bad = [d.subst() for d in diffs if not d.is_zero()]
        if not bad:
            self._record(name, 'discharged', 'exact trigonometric algebra', t0)
            return
        try:
            terms = []
            for d in bad:
                terms += [self._z3num(d.real) == 0, self._z3num(d.imag) == 0]
            e = z3.And(*terms)
            r = self._check(z3.Not(e))
            if r == z3.unsat:
                self._record(name, 'discharged', 'z3', t0)
                return
            self._record(name, 'refuted' if r == z3.sat else 'unknown', 'z3', t0, detail, self._model(z3.Not(e)))
            return
        except Unsupported:
            pass
        if self._check() == z3.unsat:
            raise PathEnd()
        self._record(name, 'refuted', 'exact trigonometric algebra', t0, detail, self._model())

    def mat_eq(self, name, a, b, phase=False):
        t0 = time.time()
        pairs = _mat_pairs(a, b)
        if pairs is None:
            return self.ensure(name, False, 'shapes differ')
        pairs = [(Num.const(x), Num.const(y)) for x, y in pairs]
        if phase:
            # a = e^{i phi} b  <=>  a_k b_l = a_l b_k for a pivot l with a_l, b_l nonzero and |a_l| = |b_l|
            piv = None
            for k, (x, y) in enumerate(pairs):
                if not x.is_zero() and not y.is_zero():
                    piv = k
                    break
            if piv is None:
                return self.ensure(name, False, 'no common nonzero entry')
            px, py = pairs[piv]
            diffs = [x * py - y * px for x, y in pairs] + [px * px.conjugate() - py * py.conjugate()]
        else:
            diffs = [x - y for x, y in pairs]
        bad = [d for d in diffs if not d.is_zero()]
        if not bad:
            self._record(name, 'discharged', 'exact trigonometric algebra', t0)
            return
        self._num_nonzero(name, bad, t0, f'{len(bad)} entries differ, e.g. by {_show(bad[0])}')

    def cover(self):
        """The precondition of this path is satisfiable."""
        self.covered = self._check() != z3.unsat
        return self.covered


def _show(x):
    return (x.show() if isinstance(x, Num) else repr(x))[:160]


def _z3float(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    try:
        return float(v.approx(20).as_fraction())
    except Exception:  # pylint: disable=broad-except
        return 0.0


class ConcVC(VC):
    """Concrete mode: native execution of the real code on one input."""

    def __init__(self, rng=None, values=None, choices=None, script=None):
        self.rng = rng or random.Random(0)
        self.values_in = values or {}
        self.choices_in = choices or {}
        self.script = script          # exhaustive enumeration: list of forced picks
        self.picks = []
        self.values = {}
        self.choices = {}
        self.n_ensures = 0
        self.fails = []
        # what decided the run first: a failed obligation or an assumption that does not hold.  Python swallows
        # exceptions raised while a destructor runs (a qubit's destructor sends its deallocation), so the exception
        # alone would be lost.
        self.first = None
        self.ghost = {}
        self.names = {}

    def fail(self, name, detail):
        exc = EnsureFailed(name, detail)
        if self.first is None:
            self.first = exc
        raise exc

    def real(self, name, lo=None, hi=None, nonzero=False):
        name = self.uname(name)
        if name in self.values_in:
            v = self.values_in[name]
        else:
            lo_, hi_ = (-15.0 if lo is None else float(lo)), (15.0 if hi is None else float(hi))
            k = self.rng.random()
            specials = [q * math.pi for q in (0, .5, 1, 1.5, 2, 2.5, 3, 4, -.5, -1, -2, -4, .25, .125)] + \
                [1e-13, -1e-13, 4 * math.pi - 1e-13, 2 * math.pi - 1e-13]
            specials = [s for s in specials if lo_ <= s <= hi_ and not (nonzero and s == 0)]
            if k < 0.35 and specials:
                v = self.rng.choice(specials)
            else:
                v = self.rng.uniform(lo_, hi_)
        self.values[name] = v
        return v

    def cplx(self, name):
        return complex(self.real(name + '.re', -2, 2), self.real(name + '.im', -2, 2))

    def angle(self, name):
        return self.real(name)

    def int(self, name, lo=None, hi=None):
        name = self.uname(name)
        if name in self.values_in:
            v = int(self.values_in[name])
        else:
            lo = -50 if lo is None else lo
            hi = (lo + 100) if hi is None else hi
            v = self.rng.randint(lo, hi)
        self.values[name] = v
        return v

    def bool(self, name):
        name = self.uname(name)
        if name in self.values_in:
            v = bool(self.values_in[name])
        else:
            v = self.rng.random() < 0.5
        self.values[name] = v
        return v

    def pick(self, name, n):
        name = self.uname(name)
        if name in self.choices_in:
            k = self.choices_in[name] % n
        elif self.script is not None:
            i = len(self.picks)
            k = self.script[i] if i < len(self.script) else 0
        else:
            k = self.rng.randrange(n)
        self.picks.append((k, n))
        self.choices[name] = k
        return k

    def assume(self, cond):
        if not cond:
            if self.first is None:
                self.first = PathEnd()
            raise PathEnd()

    def ensure(self, name, cond, detail=''):
        self.n_ensures += 1
        if not bool(cond):
            self.fail(name, detail)

    def eq(self, name, a, b, detail=''):
        self.n_ensures += 1
        ok = False
        try:
            if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and \
                    not isinstance(a, bool):
                ok = abs(a - b) <= ABS_TOL * max(1.0, abs(a), abs(b))
            else:
                import numpy as np
                if isinstance(a, np.generic) or isinstance(b, np.generic):
                    ok = bool(abs(a - b) <= ABS_TOL * max(1.0, abs(a), abs(b)))
                else:
                    ok = bool(a == b)
        except TypeError:
            ok = a == b
        if not ok:
            self.fail(name, detail or f'{a!r} != {b!r}')

    def mat_eq(self, name, a, b, phase=False):
        import numpy as np
        self.n_ensures += 1
        a = np.array(a, dtype=complex)
        b = np.array(b, dtype=complex)
        if a.shape != b.shape:
            self.fail(name, f'shapes {a.shape} and {b.shape}')
        if phase:
            k = np.argmax(np.abs(b))
            if abs(a.flat[k]) > 1e-12:
                a = a * (b.flat[k] / a.flat[k]) / (abs(b.flat[k] / a.flat[k]))
        err = float(np.max(np.abs(a - b))) if a.size else 0.0
        if not err < 1e-8:
            self.fail(name, f'max entry difference {err:.3g}')

    def token(self, x):
        return str(x)

    def cover(self):
        return True


class Harness:
    """A contract: setup of the pre-state, call of the real function, postconditions."""

    def __init__(self, fn, prop, functions, name=None, bounded=None, samples=200, thorough=2000, max_paths=20000,
                 timeout_ms=20000, weight=1, exhaustive=False, assumptions=(), search=True, raw_ctor=False,
                 size_bound=None, budget=60, budget_thorough=600):
        self.raw_ctor = raw_ctor
        self.size_bound = size_bound      # text: proved for all values, structure size limited as stated
        self.budget, self.budget_thorough = budget, budget_thorough
        self.fn, self.prop, self.functions = fn, prop, functions
        self.name = name or fn.__name__
        self.bounded = bounded            # None: deductive; text: stated bound of a bounded stand-in
        self.samples, self.thorough = samples, thorough
        self.max_paths, self.timeout_ms = max_paths, timeout_ms
        self.weight = weight
        self.exhaustive = exhaustive
        self.assumptions = tuple(assumptions)
        self.search = search


REGISTRY = []


def contract(prop, functions, **kw):
    """Deductive contract: proved for all inputs."""
    def deco(fn):
        h = Harness(fn, prop, functions if isinstance(functions, (list, tuple)) else [functions], **kw)
        REGISTRY.append(h)
        fn.harness = h
        return fn
    return deco


def bounded(prop, functions, bound, **kw):
    """Bounded stand-in: concrete runs of the real code within a stated bound."""
    def deco(fn):
        h = Harness(fn, prop, functions if isinstance(functions, (list, tuple)) else [functions], bounded=bound, **kw)
        REGISTRY.append(h)
        fn.harness = h
        return fn
    return deco


class SymRunner:
    """Explores all paths of one deductive harness."""

    def __init__(self, harness, tier='quick', shims=None):
        self.h = harness
        self.timeout_ms = harness.timeout_ms * (3 if tier == 'thorough' else 1)
        self.tier = tier
        self.obligations = []
        self.stack = [[]]
        self.z3time = 0.0
        self.paths = 0
        self.unsupported = []
        self.errors = []
        self.cross = (tier == 'thorough')
        self.crossed = 0
        self.cross_fail = []
        self.shims = shims
        self.done_paths = 0

    def push(self, prefix):
        self.stack.append(prefix)

    def record(self, ob):
        self.obligations.append(ob)

    def cross_check(self, solver, neg):
        """Second back end (thorough tier): cvc5 on the same VC."""
        from . import cvc
        s = z3.Solver()
        s.add(*solver.assertions())
        s.add(neg)
        r = cvc.check(s.to_smt2(), 10000)
        self.crossed += 1
        if r == 'sat':
            self.cross_fail.append(s.to_smt2()[:2000])

    def run(self, deadline=None):
        # objects of finished paths must not run their destructors inside a later path
        gc.collect()
        gc.freeze()
        gc.disable()
        try:
            return self._run(deadline)
        finally:
            with _dead(self):
                gc.collect()
            gc.enable()

    def _run(self, deadline):
        t0 = time.time()
        while self.stack:
            if self.paths % 64 == 63:
                with _dead(self):
                    gc.collect()
            if self.paths >= self.h.max_paths or (deadline and time.time() > deadline):
                self.unsupported.append('path budget exhausted')
                break
            prefix = self.stack.pop()
            self.paths += 1
            vc = SymVC(self, prefix)
            num._CTX.append(vc)
            num.set_subst(vc.subst)
            n0 = len(self.obligations)
            lost = []
            hook = sys.unraisablehook
            sys.unraisablehook = lambda u, lost=lost: lost.append(f'{u.exc_value} (in a destructor)') if isinstance(
                u.exc_value, Unsupported) or _engine_limit(u.exc_value) else None
            try:
                if self.shims:
                    with self.shims():
                        self.h.fn(vc)
                else:
                    self.h.fn(vc)
                self.done_paths += 1
                self.unsupported += lost[:1]
            except PathEnd:
                pass
            except Unsupported as exc:
                self.unsupported.append(f'{exc} [{_where(exc)}]')
            except z3.Z3Exception as exc:
                self.unsupported.append(f'z3: {exc} [{_where(exc)}]')
            except RecursionError as exc:
                self.unsupported.append(f'recursion limit [{_where(exc)}]')
            except Exception as exc:  # pylint: disable=broad-except
                # an exception no postcondition allows
                try:
                    feasible = vc._check() != z3.unsat
                except Exception:  # pylint: disable=broad-except
                    feasible = True
                if feasible:
                    if _engine_limit(exc):
                        self.unsupported.append(f'{type(exc).__name__}: {exc} [{_where(exc)}]')
                    else:
                        self.record(Obligation('no unexpected exception', 'refuted', 'path exploration', 0.0,
                                               f'{type(exc).__name__}: {exc} [{_where(exc)}]', vc._model()))
            finally:
                vc.dead = True
                sys.unraisablehook = hook
                num._CTX.pop()
                num.set_subst({})
            del n0
            if sum(1 for o in self.obligations if o.status != 'discharged') > 5:
                break
        self.wall = time.time() - t0
        return self


@contextlib.contextmanager
def _dead(runner):
    """A context in which nothing can be decided (destructors of finished paths)."""
    vc = SymVC(runner, [])
    vc.dead = True
    num._CTX.append(vc)
    hook = sys.unraisablehook
    sys.unraisablehook = lambda *a: None
    try:
        yield
    finally:
        sys.unraisablehook = hook
        num._CTX.pop()


def _engine_limit(exc):
    """Exceptions caused by native code meeting a symbolic value."""
    msg = str(exc)
    return isinstance(exc, TypeError) and any(w in msg for w in ('Num', 'SInt', 'SBool', 'object arrays', 'ufunc',
                                                                  'dtype', 'loop of'))


def _where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(tb):
        if '/pv/' not in fr.filename:
            return f'{os.path.basename(fr.filename)}:{fr.lineno} in {fr.name}'
    return ''


def run_concrete(h, rng=None, values=None, choices=None, script=None):
    """One native run of a harness.  Returns (status, vc, detail)."""
    vc = ConcVC(rng, values, choices, script)
    st, det = _run_concrete(h, vc)
    if isinstance(vc.first, EnsureFailed):
        return 'fail', vc, str(vc.first)
    if isinstance(vc.first, PathEnd) and st == 'ok':
        return 'skip', vc, ''
    vc.first = None
    return st, vc, det


def _run_concrete(h, vc):
    try:
        h.fn(vc)
        return 'ok', ''
    except PathEnd:
        return 'skip', ''
    except EnsureFailed as exc:
        return 'fail', str(exc)
    except Unsupported as exc:
        return 'unsupported', str(exc)
    except Exception as exc:  # pylint: disable=broad-except
        return 'fail', f'unexpected {type(exc).__name__}: {exc} [{_where(exc)}]'


def search_concrete(h, seed, n, deadline, known=None):
    """Bounded search on the real code.  Exhaustive over picks when h.exhaustive, else pseudo-random."""
    stats = dict(evals=0, skipped=0, ensures=0, distinct=set(), samples=[], exhausted=False, known=[], unsup=0)
    fails = []

    def one(rng_key, script=None):
        st, vc, det = run_concrete(h, random.Random(rng_key), script=script)
        vc.rng_key = rng_key
        _acc(stats, st, vc)
        if st == 'unsupported':
            stats['unsup'] += 1
        if st == 'fail':
            e = known(vc, det) if known else None
            if e:
                stats['known'].append(e)
            else:
                fails.append((vc, det))
        return vc

    if h.exhaustive:
        script = []
        while not fails and time.time() < deadline:
            vc = one(f'{seed}', script)
            picks = vc.picks
            k = len(picks) - 1
            while k >= 0 and picks[k][0] + 1 >= picks[k][1]:
                k -= 1
            if k < 0:
                stats['exhausted'] = True
                break
            script = [p[0] for p in picks[:k]] + [picks[k][0] + 1]
    else:
        for i in range(n):
            if fails or time.time() > deadline:
                break
            one(f'{seed}/{h.name}/{i}')
    return fails, stats


def _acc(stats, st, vc):
    stats['evals'] += 1
    if st in ('skip', 'unsupported'):
        stats['skipped'] += 1
        return
    stats['ensures'] += vc.n_ensures
    key = json.dumps([vc.choices, {k: (round(v, 9) if isinstance(v, float) else v) for k, v in vc.values.items()}],
                     sort_keys=True, default=str)
    if vc.n_ensures:
        stats['distinct'].add(hash(key))
        if len(stats['samples']) < 3:
            stats['samples'].append(dict(choices=vc.choices, values=vc.values))
