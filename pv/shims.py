"""Number shims: module-level names through which the real code objects compute on symbolic numbers.

The code that runs is the code in /repo, byte for byte.  While a symbolic run is active, the global names math, cmath,
np/numpy/_np and the builtins float, int, complex, round, isinstance, abs, sum, pow of every projectq module are bound to
versions that pass ordinary values through unchanged and give symbolic numbers their mathematical meaning.
"""
import builtins
import cmath
import contextlib
import json
import math
import sys
import types
from fractions import Fraction

import numpy

from . import num
from .bits import BInt
from .core import SBool, SInt
from .num import Num, Unsupported


def _sym(x):
    return isinstance(x, (Num, SInt, SBool))


def _n(x):
    return x.to_num() if isinstance(x, SInt) else x


class _Proxy:
    def __init__(self, mod, over):
        object.__setattr__(self, '_mod', mod)
        object.__setattr__(self, '_over', over)

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        attr = getattr(self._mod, name)
        if callable(attr) and not isinstance(attr, type) and self._mod in (math, cmath):
            def call(*args, **kw):
                if any(_sym(a) for a in args):
                    raise Unsupported(f'{self._mod.__name__}.{name} of a symbolic value')
                return attr(*args, **kw)
            return call
        return attr


def _wrap1(real, sym):
    def f(x):
        return sym(_n(x)) if _sym(x) else real(x)
    return f


def _exact_sqrt(real):
    def f(x):
        if isinstance(x, (int, float)) and not isinstance(x, bool) and x == int(x) and x >= 0:
            try:
                return num.sqrt(Num.const(int(x)))
            except Unsupported:
                return real(x)
        return num.sqrt(_n(x)) if _sym(x) else real(x)
    return f


def _phase(z):
    """Argument in (-pi, pi] of rho * exp(iL): the multiple of 2 pi is a case split."""
    if not _sym(z):
        return cmath.phase(z)
    p = num.polar(_n(z))
    if p is None or p[0].has_trig():
        raise Unsupported('phase of a symbolic number')
    rho, ang = p
    if rho == 0:
        return Num()
    if rho < 0:
        ang = ang + num.PI
    for k in (0, 1, -1, 2, -2, 3, -3, 4, -4):
        x = ang - num.PI * (2 * k)
        if x > -num.PI and x <= num.PI:
            return x
    raise Unsupported('phase of a symbolic number with an unbounded angle')


def _common(a, x, b, y):
    """k with a == k*x and b == k*y (x, y single monomials)."""
    if not (a * y - b * x).is_zero():
        return None
    try:
        k = a * x.inv()
    except (Unsupported, ZeroDivisionError):
        return None
    return k if (k * x - a).is_zero() and (k * y - b).is_zero() else None


def _hypot(*xs):
    if not any(_sym(x) for x in xs):
        return math.hypot(*xs)
    xs = [Num.const(_n(x)) for x in xs]
    if len(xs) == 2:
        for x, y in (xs, xs[::-1]):
            if x.is_zero():
                return abs(y)
            for co, si in num.ANGLES.values():
                k = _common(x, co, y, si)
                if k is not None:
                    return abs(k)
    return num.sqrt(sum((x * x for x in xs), Num()))


def _inverse_trig(name):
    real = getattr(math, name)

    def f(*xs):
        if not any(_sym(x) for x in xs):
            return real(*xs)
        xs = [Num.const(_n(x)) for x in xs]
        if name == 'atan2' and len(xs) == 2 and (xs[0].is_zero() or xs[1].is_zero()):
            if xs[0].is_zero():
                return Num() if xs[1] >= 0 else num.PI
            return num.PI * Fraction(1 if xs[0] > 0 else -1, 2)
        for v, (co, si) in num.ANGLES.items():
            t = Num.var(v)          # in (0, pi/2)
            if name == 'atan2':
                k = _common(xs[0], si, xs[1], co)
                if k is not None and k > 0:
                    return t
                k = _common(xs[0], co, xs[1], si)
                if k is not None and k > 0:
                    return num.PI / 2 - t
            hit = {'acos': [((co,), t), ((si,), num.PI / 2 - t)], 'asin': [((si,), t), ((co,), num.PI / 2 - t)],
                   'atan2': [((si, co), t), ((co, si), num.PI / 2 - t)]}[name]
            for args, val in hit:
                if all((a - b).is_zero() for a, b in zip(xs, args)):
                    return val
        raise Unsupported(f'{name} of a symbolic number')
    return f


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not _sym(a) and not _sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


_MATH = _Proxy(math, dict(pi=num.PI, tau=num.PI * 2, cos=_wrap1(math.cos, num.cos), sin=_wrap1(math.sin, num.sin),
                          sqrt=_exact_sqrt(math.sqrt), isclose=_isclose,
                          acos=_inverse_trig('acos'), asin=_inverse_trig('asin'), atan2=_inverse_trig('atan2'), hypot=_hypot))
_CMATH = _Proxy(cmath, dict(pi=num.PI, tau=num.PI * 2, cos=_wrap1(cmath.cos, num.cos), sin=_wrap1(cmath.sin, num.sin),
                            exp=_wrap1(cmath.exp, num.cexp), sqrt=_exact_sqrt(cmath.sqrt), phase=_phase,
                            isclose=_isclose))


def _has_sym(a):
    arr = numpy.asarray(a)
    return arr.dtype == object and any(_sym(x) for x in arr.flat)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _has_sym(a) and not _has_sym(b):
        return numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    pairs = [(Num.const(x), Num.const(y)) for x, y in zip(numpy.asarray(a).flat, numpy.asarray(b).flat)]
    vc = num._ctx()
    try:
        for x, y in pairs:
            d = x - y
            if d.is_zero():
                continue
            if not abs(d) <= atol + rtol * abs(y):
                return False
        return True
    except Unsupported:
        if not vc.ghost.get('abstract allclose'):
            raise
    # undecidable: both answers are explored; a positive one is a fact about these two arrays
    asked = vc.ghost.setdefault('allclose asked', [])
    for old, answer in asked:
        if len(old) == len(pairs) and all((x - u).is_zero() and (y - v).is_zero() for (x, y), (u, v) in zip(pairs, old)):
            return answer
    answer = bool(vc.pick('allclose', 2))
    asked.append((pairs, answer))
    if answer:
        vc.ghost.setdefault('close', []).append(pairs)
    return answer


def _npfun(real, sym):
    def f(x, *a, **kw):
        if _sym(x):
            return sym(_n(x))
        return real(x, *a, **kw)
    return f


class _ObjMatrix(numpy.matrix):
    """numpy.matrix over object entries whose adjoint conjugates."""

    def getH(self):
        return self.transpose() if self.dtype != object else _obj_matrix(
            [[_conj(self[j, i]) for j in range(self.shape[0])] for i in range(self.shape[1])])

    H = property(getH)

    @property
    def I(self):  # noqa: E743
        raise Unsupported('numerical inverse of a symbolic matrix')


def _conj(x):
    return Num.const(x).conjugate()


def _obj_matrix(rows):
    return numpy.array(rows, dtype=object).view(_ObjMatrix)


def _matrix(data, dtype=None, copy=True):
    if isinstance(data, _ObjMatrix) or _has_sym(data):
        arr = numpy.array(data.tolist() if isinstance(data, numpy.ndarray) else data, dtype=object)
        return arr.view(_ObjMatrix)
    return numpy.matrix(data, dtype=dtype, copy=copy)


# While ARRAYS is set, arrays made by the code under test hold exact numbers (dtype object) instead of floats.
ARRAYS = [False]


@contextlib.contextmanager
def arrays(on=True):
    old, ARRAYS[0] = ARRAYS[0], on
    try:
        yield
    finally:
        ARRAYS[0] = old


def _exact_array(x):
    arr = numpy.array(x.tolist() if isinstance(x, numpy.ndarray) else x, dtype=object)
    flat = arr.reshape(-1)
    for i, v in enumerate(flat):
        if isinstance(v, (int, float, complex, numpy.number)):
            flat[i] = Num.const(v if isinstance(v, (int, float, complex)) else complex(v))
        elif isinstance(v, SInt):
            flat[i] = v.to_num()
    return arr


def _maker(name):
    real = getattr(numpy, name)

    def f(*a, **kw):
        a = [x.real if isinstance(x, _TypeShim) else x for x in a]
        kw = {k: x.real if isinstance(x, _TypeShim) else x for k, x in kw.items()}
        if not ARRAYS[0] or _integers(kw, a):
            return real(*a, **kw)
        return _exact_array(real(*a, **kw))
    return f


def _integers(kw, a=()):
    """Index arrays and flags stay ordinary arrays (their arithmetic is exact)."""
    for d in [kw.get('dtype')] + [x for x in a[1:] if isinstance(x, (type, str, numpy.dtype))]:
        if d is not None:
            try:
                return numpy.dtype(d).kind in 'iub'
            except TypeError:
                return False
    return False


def _array(x, *a, **kw):
    kw = {k: v.real if isinstance(v, _TypeShim) else v for k, v in kw.items()}
    if ARRAYS[0] and not _has_sym(x):
        a = [v.real if isinstance(v, _TypeShim) else v for v in a]
        real = numpy.array(x, *a, **kw)
        if _integers(kw, [None] + a) or (kw.get('dtype') is None and not a and real.dtype.kind in 'iubUS'):
            return real
    if ARRAYS[0] or _has_sym(x):
        return _exact_array(x)
    return numpy.array(x, *a, **kw)


def _copy_array(x, *a, **kw):
    return numpy.array(x, dtype=object) if _has_sym(x) else numpy.copy(x, *a, **kw)


def _vdot(a, b):
    if not _has_sym(a) and not _has_sym(b):
        return numpy.vdot(a, b)
    return sum((_conj(x) * y for x, y in zip(numpy.asarray(a).flat, numpy.asarray(b).flat)), Num())


class _Linalg:
    def __getattr__(self, name):
        return getattr(numpy.linalg, name)

    @staticmethod
    def norm(x, *a, **kw):
        if not _has_sym(x):
            return numpy.linalg.norm(numpy.asarray(x, dtype=complex) if numpy.asarray(x).dtype == object else x, *a, **kw)
        script = num._ctx().ghost.get('norm')
        if script is not None:
            return script(x)
        return num.sqrt(sum((_conj(v) * v for v in numpy.asarray(x).flat), Num()))


_NP = _Proxy(numpy, dict(zeros=_maker('zeros'), ones=_maker('ones'), zeros_like=_maker('zeros_like'), empty=_maker('empty'),
                         ones_like=_maker('ones_like'), eye=_maker('eye'), identity=_maker('identity'), array=_array,
                         copy=_copy_array, vdot=_vdot, linalg=_Linalg(),
                         pi=num.PI, matrix=None, allclose=_allclose, cos=_npfun(numpy.cos, num.cos), sin=_npfun(numpy.sin, num.sin),
                         sqrt=_npfun(numpy.sqrt, num.sqrt), exp=_npfun(numpy.exp, num.cexp)))


# builtins whose symbolic version must still work as a type in isinstance()
class _TypeShim:
    def __init__(self, real, fn):
        self.real, self.fn = real, fn

    def __call__(self, *a, **kw):
        return self.fn(*a, **kw)

    def __getattr__(self, name):
        if name == 'dtype':              # numpy asks for it
            return numpy.dtype(object if ARRAYS[0] and self.real in (float, complex) else self.real)
        return getattr(self.real, name)

    def __instancecheck__(self, x):
        return isinstance(x, self.real)

    def __or__(self, other):
        return (self, other)

    def __hash__(self):
        return hash(self.real)

    def __eq__(self, o):
        return o is self or o is self.real


def _float(*a):
    if a and isinstance(a[0], SInt):
        return a[0].to_num()
    if a and isinstance(a[0], Num):
        x = a[0].subst()
        if x.is_real():
            return x
        raise TypeError("can't convert complex to float")
    return float(*a)


def _int(*a):
    if a and isinstance(a[0], SInt):
        return a[0]
    if a and isinstance(a[0], SBool):
        return SInt(SInt._c(a[0]))
    if a and isinstance(a[0], Num):
        x = a[0].subst()
        if x.is_const() and x.is_real():
            return int(x.approx().real)
        if x.is_real() and x >= 0:      # case split on the integer part
            for k in range(6):
                if x < k + 1:
                    return k
        raise Unsupported('int() of a symbolic real')
    return int(*a)


def _complex(*a):
    if a and any(_sym(x) for x in a):
        return _n(a[0]) + (_n(a[1]) * num.I_ if len(a) > 1 else 0)
    return complex(*a)


def _bool(*a):
    return bool(*a)


def _round(x, nd=None):
    if isinstance(x, Num):
        return x.__round__(nd)
    if isinstance(x, SInt):
        return x
    return round(x) if nd is None else round(x, nd)


_NP._over['matrix'] = _TypeShim(numpy.matrix, _matrix)
FLOAT, INT, COMPLEX = _TypeShim(float, _float), _TypeShim(int, _int), _TypeShim(complex, _complex)


def _flat(types_):
    if isinstance(types_, tuple):
        out = []
        for t in types_:
            out += _flat(t)
        return out
    if isinstance(types_, types.UnionType):
        return list(types_.__args__)
    return [types_]


def _isinstance(x, ts):
    lst = _flat(ts)
    real = tuple(t.real if isinstance(t, _TypeShim) else t for t in lst)
    if isinstance(x, Num):
        cur = x.subst()
        if float in real and cur.is_real():
            return True
        if complex in real and (x.cplx if hasattr(x, 'cplx') else not cur.is_real()):
            return True
        return isinstance(x, real)
    if isinstance(x, SInt):
        return int in real or isinstance(x, real)
    if isinstance(x, SBool):
        return bool in real or int in real or isinstance(x, real)
    return isinstance(x, real)


def _bin(x):
    """bin() of a symbolic non-negative integer: only its length is known (case split on it)."""
    if not isinstance(x, (SInt, BInt)):
        return bin(x)
    if x < 0:
        raise Unsupported('bin() of a negative symbolic integer')
    n = 1
    while not x < (1 << n):
        n += 1
        if n > 80:
            raise Unsupported('bin() of an unbounded integer')
    return '0b' + '?' * n


class _Json(types.SimpleNamespace):
    """json whose dumps prints symbolic values as their tokens."""

    def __getattr__(self, name):
        return getattr(json, name)


_JSON = _Json(dumps=lambda x, **kw: json.dumps(x, **{'default': str, **kw}))
def _extreme(real, better):
    def f(*args, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if kw or not xs or not any(isinstance(x, SInt) for x in xs) or \
                not all(isinstance(x, (SInt, int)) for x in xs):
            return real(xs, **kw)
        return num._ctx().int_extreme(real.__name__, xs, better)
    return f


_max, _min = _extreme(max, lambda a, b: a >= b), _extreme(min, lambda a, b: a <= b)
_BUILTINS = dict(max=_max, min=_min, bin=_bin, float=FLOAT, int=INT, complex=COMPLEX, round=_round, isinstance=_isinstance)
_MODULES = {'math': (math, _MATH), 'cmath': (cmath, _CMATH), 'np': (numpy, _NP), 'numpy': (numpy, _NP),
            '_np': (numpy, _NP), 'json': (json, _JSON)}


def targets():
    """The projectq modules loaded from the tree under test."""
    return [m for n, m in list(sys.modules.items())
            if (n == 'projectq' or n.startswith('projectq.')) and m is not None and not n.endswith('_test')]


@contextlib.contextmanager
def shimmed(extra=()):
    """Bind the symbolic versions for the duration of a symbolic run."""
    saved = []
    missing = object()

    def put(d, k, v):
        saved.append((d, k, d.get(k, missing)))
        d[k] = v

    try:
        for m in targets():
            d = m.__dict__
            for name, (real, shim) in _MODULES.items():
                if d.get(name) is real:
                    put(d, name, shim)
            for name, val in list(d.items()):
                for real, shim in ((math, _MATH), (cmath, _CMATH)):
                    if isinstance(val, (types.BuiltinFunctionType, float)) and name in real.__dict__ and \
                            real.__dict__[name] is val and name in shim._over:
                        put(d, name, getattr(shim, name))  # "from math import cos"
            for name, shim in _BUILTINS.items():
                if name not in d:
                    put(d, name, shim)
        for obj, name, val in extra:
            d = obj.__dict__
            if isinstance(obj, type):
                saved.append((obj, name, d.get(name, missing)))
                setattr(obj, name, val)
            else:
                put(d, name, val)
        yield
    finally:
        for d, k, v in reversed(saved):
            if isinstance(d, type):
                if v is missing:
                    delattr(d, k)
                else:
                    setattr(d, k, v)
            elif v is missing:
                d.pop(k, None)
            else:
                d[k] = v


def native(fn):
    """A function of the real code as it runs natively, with everything it uses from its module, during a symbolic run."""
    old = fn.__globals__
    ns = dict(old)
    for name, (real, shim) in _MODULES.items():
        if ns.get(name) is shim:
            ns[name] = real
    for name, val in list(ns.items()):
        for real, shim in ((math, _MATH), (cmath, _CMATH)):
            if name in shim._over and name in real.__dict__ and val is getattr(shim, name):
                ns[name] = real.__dict__[name]
        if name in _BUILTINS and val is _BUILTINS[name]:
            del ns[name]
    for name, val in list(ns.items()):
        if isinstance(val, types.FunctionType) and val.__globals__ is old:
            ns[name] = types.FunctionType(val.__code__, ns, val.__name__, val.__defaults__, val.__closure__)
            ns[name].__kwdefaults__ = val.__kwdefaults__
    return types.FunctionType(fn.__code__, ns, fn.__name__, fn.__defaults__, fn.__closure__)


def ideal_angle_init(cls, period):
    """Contract of the rotation/phase gate constructor used in its callers: the stored angle is congruent to the given one."""

    def __init__(self, angle):
        super(cls, self).__init__()
        if isinstance(angle, (Num, SInt)):
            self.angle = _float(angle)
        else:
            r = round(float(angle) % (period * math.pi), 12)
            self.angle = 0.0 if r > period * math.pi - 1e-11 else r
    return __init__


def ideal_ucr_init(cls):
    """Contract of the uniformly controlled rotation constructor used in its callers (verified in G01)."""
    raw = cls.__init__

    def __init__(self, angles):
        angles = list(angles)
        if not any(isinstance(a, (Num, SInt)) for a in angles):
            raw(self, angles)
            return
        super(cls, self).__init__()
        self.angles = [_float(a) for a in angles]
    return __init__


@contextlib.contextmanager
def ideal():
    """Symbolic run with the rotation constructors replaced by their contract (verified in G01)."""
    from projectq.ops import UniformlyControlledRy, UniformlyControlledRz, _basics
    extra = [(UniformlyControlledRy, '__init__', ideal_ucr_init(UniformlyControlledRy)),
             (UniformlyControlledRz, '__init__', ideal_ucr_init(UniformlyControlledRz)),
             (_basics.BasicRotationGate, '__init__', ideal_angle_init(_basics.BasicRotationGate, 4)),
             (_basics.BasicPhaseGate, '__init__', ideal_angle_init(_basics.BasicPhaseGate, 2))]
    with shimmed(extra):
        yield
