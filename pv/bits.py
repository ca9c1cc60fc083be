"""Symbolic machine-independent integers with exact bit operations.

A BInt is a Python integer of known magnitude (|x| < 2**m, m <= 62) held in a 64-bit two's complement vector, for which
all operations below agree with Python's unbounded integers; anything that could leave the range is Unsupported.
"""
import z3

from .core import SBool, SInt, Unsupported, as_z3_bool

W = 64


def _bv(v):
    return z3.BitVecVal(v, W)


def _low(e, w):
    return z3.Extract(w - 1, 0, e) if w < W else e


def _wide(e):
    return z3.SignExt(W - e.size(), e) if e.size() < W else e


def _power(o):
    """k if the divisor is the number 2**k."""
    return o.bit_length() - 1 if isinstance(o, int) and o > 0 and not o & (o - 1) else None


class BInt:
    __slots__ = ('e', 'm')

    def __init__(self, e, m):
        if m > 62:
            raise Unsupported('integer beyond 62 bits')
        self.e, self.m = e, m

    @staticmethod
    def of(o):
        if isinstance(o, BInt):
            return o
        if isinstance(o, SBool):
            return BInt(z3.If(o.e, _bv(1), _bv(0)), 1)
        if isinstance(o, (bool, int)):
            return BInt(_bv(int(o)), max(abs(int(o)), 1).bit_length() if abs(int(o)) < 1 << 62 else 99)
        try:
            import numpy
            if isinstance(o, numpy.integer):
                return BInt.of(int(o))
        except ImportError:
            pass
        return None

    def _bin(self, o, f, m, swap=False):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        a, b = (c, self) if swap else (self, c)
        return BInt(f(a.e, b.e), m(a.m, b.m))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda p, q: max(p, q) + 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda p, q: max(p, q) + 1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda p, q: max(p, q) + 1, True)

    def __mul__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        w = min(self.m + c.m + 1, W)  # narrow circuits for the solver: the product fits in w bits
        return BInt(_wide(_low(self.e, w) * _low(c.e, w)), self.m + c.m)
    __rmul__ = __mul__

    def __and__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        if not isinstance(o, BInt) and int(o) >= 0:
            return BInt(self.e & c.e, c.m)
        return BInt(self.e & c.e, max(self.m, c.m))
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, max)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b, max)
    __rxor__ = __xor__

    def __invert__(self):
        return BInt(~self.e, self.m + 1)

    def __neg__(self):
        return BInt(-self.e, self.m)

    def __pos__(self):
        return self

    def __abs__(self):
        return BInt(z3.If(self.e < 0, -self.e, self.e), self.m)

    def __rshift__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        self._nonneg(c)
        return BInt(self.e >> z3.If(z3.ULT(c.e, _bv(63)), c.e, _bv(63)), self.m)

    def __rrshift__(self, o):
        return BInt.of(o) >> self

    def __lshift__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        self._nonneg(c)
        limit = o if not isinstance(o, BInt) else self._limit(c, 60 - self.m)
        return BInt(self.e << c.e, self.m + limit)

    def __rlshift__(self, o):
        c = BInt.of(o)
        return NotImplemented if c is None else c << self

    @staticmethod
    def _nonneg(c):
        if bool(SBool(c.e < 0)):
            raise ValueError('negative shift count')

    @staticmethod
    def _limit(c, most):
        """A proved bound of the shift count."""
        if bool(SBool(z3.UGT(c.e, _bv(max(most, 0))))):
            raise Unsupported('shift beyond 62 bits')
        return max(most, 0)

    def _divisor(self, c):
        if bool(SBool(c.e == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')

    def __mod__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        self._divisor(c)
        k = _power(o)
        if k is not None:
            return BInt(self.e & _bv((1 << k) - 1), max(k, 1))
        w = min(max(self.m, c.m) + 1, W)
        d = _low(c.e, w)
        r = z3.SRem(_low(self.e, w), d)
        return BInt(_wide(z3.If(z3.And(r != 0, (r < 0) != (d < 0)), r + d, r)), c.m)

    def __rmod__(self, o):
        return BInt.of(o) % self

    def __floordiv__(self, o):
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        self._divisor(c)
        k = _power(o)
        if k is not None:
            return BInt(self.e >> k, self.m)
        w = min(max(self.m, c.m) + 2, W)
        n, d = _low(self.e, w), _low(c.e, w)
        q, r = n / d, z3.SRem(n, d)
        return BInt(_wide(z3.If(z3.And(r != 0, (r < 0) != (d < 0)), q - 1, q)), self.m + 1)

    def __rfloordiv__(self, o):
        return BInt.of(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        if isinstance(o, SInt):
            raise Unsupported('mixed integer sorts')
        c = BInt.of(o)
        if c is None:
            return NotImplemented
        return SBool(f(self.e, c.e))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(SBool(self.e != 0))

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        raise Unsupported('a symbolic bit pattern is used as a concrete number')

    __int__ = __index__

    def __repr__(self):
        return f'BInt({self.e})'


def bits(vc, name, width, below=None):
    """An arbitrary nonnegative integer of the given width (and below a bound)."""
    if not vc.symbolic:
        v = vc.int(name, 0, (1 << width) - 1)
        return v if below is None else v % below
    name = vc.uname(name)
    c = z3.BitVec(name, W)
    vc.inputs[name] = ('int', c)
    vc.solver.add(z3.ULT(c, _bv(1 << width)))
    if below is not None:
        b = BInt.of(below)
        vc.solver.add(c < b.e)
    return BInt(c, width)


def ite(cond, a, b):
    """Value of a or b, without forking."""
    if not isinstance(cond, SBool):
        return a if cond else b
    x, y = BInt.of(a), BInt.of(b)
    return BInt(z3.If(cond.e, x.e, y.e), max(x.m, y.m))


def conj(*conds):
    if any(isinstance(c, SBool) for c in conds):
        return SBool(z3.And([as_z3_bool(c) for c in conds]))
    return all(conds)
