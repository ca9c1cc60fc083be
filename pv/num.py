"""Exact algebra of trigonometric polynomials: the algebraic back end.

A Num is a finite sum  c * x^a * exp(i*L)  with c rational, x^a a monomial in real variables (PI is one of them) and
L a rational linear form in real variables plus a rational multiple of pi.  i is exp(i*pi/2), sqrt(2) is
exp(i*pi/4)+exp(-i*pi/4).  Functions exp(i*L) for distinct L are linearly independent over the polynomials, so
testing a Num for zero is a decision procedure: group by (monomial, L) and reduce the remaining element of a
cyclotomic field modulo the cyclotomic polynomial.
"""
from fractions import Fraction
from math import gcd
import math
import numbers

PI_VAR = '#pi'


class Unsupported(BaseException):
    """A construct outside the verifier's reach (not a verdict)."""


_cyc_cache = {}


def cyclotomic(n):
    """Coefficients (low to high) of the n-th cyclotomic polynomial."""
    if n in _cyc_cache:
        return _cyc_cache[n]
    # x^n - 1 divided by all Phi_d, d | n, d < n
    poly = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            poly = _polydiv(poly, cyclotomic(d))
    _cyc_cache[n] = poly
    return poly


def _polydiv(a, b):
    a = list(a)
    out = [0] * (len(a) - len(b) + 1)
    for k in range(len(out) - 1, -1, -1):
        q = a[k + len(b) - 1] // b[-1]
        out[k] = q
        if q:
            for j, bj in enumerate(b):
                a[k + j] -= q * bj
    assert not any(a[: len(b) - 1])
    return out


def _cyc_zero(parts):
    """parts: dict r -> Fraction (r a Fraction in [0,2)); is sum c*exp(i pi r) zero?"""
    parts = {r: c for r, c in parts.items() if c != 0}
    if not parts:
        return True
    if len(parts) == 1:
        return False
    n = 1
    for r in parts:
        n = n * r.denominator // gcd(n, r.denominator)
    order = 2 * n
    vec = [Fraction(0)] * order
    for r, c in parts.items():
        vec[int(r * n) % order] += c
    phi = cyclotomic(order)
    deg = len(phi) - 1
    for k in range(order - 1, deg - 1, -1):
        q = vec[k]
        if q:
            for j in range(deg + 1):
                vec[k - deg + j] -= q * phi[j]
    return not any(vec[:deg])


# substitution hook installed by the path explorer (facts such as "x == 0 on this path")
_subst = {}


def set_subst(d):
    """Install the current path's variable definitions (var name -> Num)."""
    global _subst
    _subst = d


class Num:
    """An exact (complex) number depending on real variables."""

    __slots__ = ('t',)
    __array_priority__ = -1.0

    def __init__(self, terms=None):
        self.t = terms or {}

    # construction ---------------------------------------------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, Num):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, (int, Fraction)):
            return Num({((), (), Fraction(0)): Fraction(c)} if c else {})
        if isinstance(c, complex):
            return Num.const(c.real) + Num.const(c.imag) * I_
        if isinstance(c, numbers.Complex) and not isinstance(c, numbers.Real):
            return Num.const(complex(c))
        if isinstance(c, numbers.Real):
            f = float(c)
            if math.isnan(f) or math.isinf(f):
                raise Unsupported('nan/inf constant')
            return Num.const(Fraction(f))
        raise TypeError(f'cannot convert {type(c)} to Num')

    @staticmethod
    def var(name):
        return Num({(((name, 1),), (), Fraction(0)): Fraction(1)})

    @staticmethod
    def expi_pi(r):
        """exp(i*pi*r) for rational r."""
        return _mk((), (), Fraction(r), Fraction(1))

    # normal form ------------------------------------------------------------------------------------------------
    def subst(self):
        if not _subst:
            return self
        cur = self
        for _ in range(8):
            if not any(v in _subst for v in cur.vars()):
                return cur
            cur = cur._subst_once(_subst)
        return cur

    def _subst_once(self, sub):
        out = Num()
        for (mono, lin, r), c in self.t.items():
            term = _mk((), (), r, c)
            for v, p in mono:
                base = sub.get(v, None)
                base = base if base is not None else Num.var(v)
                if p < 0:
                    base = base.inv()
                for _ in range(abs(p)):
                    term = term * base
            if lin:
                arg = Num()
                for v, q in lin:
                    base = sub.get(v, None)
                    arg = arg + (base if base is not None else Num.var(v)) * q
                term = term * expi(arg)
            out = out + term
        return out

    def vars(self):
        s = set()
        for (mono, lin, _r) in self.t:
            s.update(v for v, _ in mono)
            s.update(v for v, _ in lin)
        return s

    def is_zero(self):
        cur = self.subst()
        groups = {}
        for (mono, lin, r), c in cur.t.items():
            groups.setdefault((mono, lin), {})
            g = groups[(mono, lin)]
            g[r] = g.get(r, Fraction(0)) + c
        return all(_cyc_zero(g) for g in groups.values())

    def is_const(self):
        return all(not mono and not lin for (mono, lin, _r) in self.t)

    def is_real(self):
        return (self - self.conjugate()).is_zero()

    def has_trig(self):
        return any(lin for (_m, lin, _r) in self.t)

    def approx(self, env=None):
        """Numerical value given variable values."""
        env = env or {}
        tot = 0j
        for (mono, lin, r), c in self.t.items():
            v = complex(float(c))
            for n, p in mono:
                v *= (math.pi if n == PI_VAR else env[n]) ** p
            ang = math.pi * float(r)
            for n, q in lin:
                ang += float(q) * (math.pi if n == PI_VAR else env[n])
            v *= complex(math.cos(ang), math.sin(ang))
            tot += v
        return tot

    # arithmetic -------------------------------------------------------------------------------------------------
    def _coerce(self, o):
        if isinstance(o, Num):
            return o
        if isinstance(o, (int, float, complex, Fraction)) or isinstance(o, numbers.Number):
            return Num.const(o)
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for k, c in o.t.items():
            s = t.get(k, 0) + c
            if s:
                t[k] = s
            else:
                t.pop(k, None)
        return Num(t)

    __radd__ = __add__

    def __neg__(self):
        return Num({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        t = {}
        a, b = (self.t, o.t) if len(self.t) <= len(o.t) else (o.t, self.t)
        if not a:
            return Num()
        for (m1, l1, r1), c1 in a.items():
            if not (m1 or l1 or r1):
                if c1 == 1 and len(a) == 1:
                    return Num(b)
                for k, c2 in b.items():
                    s = c1 * c2
                    if k in t:
                        s += t[k]
                    if s:
                        t[k] = s
                    else:
                        t.pop(k, None)
                continue
            for (m2, l2, r2), c2 in b.items():
                rr = _RSUM.get((r1, r2))
                if rr is None:
                    rr = _rsum(r1, r2)
                c = c1 * c2
                if rr[1]:
                    c = -c
                k = (_mm(m1, m2) if m1 and m2 else m1 or m2, _ll(l1, l2) if l1 and l2 else l1 or l2, rr[0])
                if k in t:
                    c += t[k]
                if c:
                    t[k] = c
                else:
                    t.pop(k, None)
        if ROOTS and any(p > 1 and v in ROOTS for m, _l, _r in t for v, p in m):
            return _reduce_roots(t)
        return Num(t)

    __rmul__ = __mul__

    def inv(self):
        cur = self.subst()
        if cur.is_zero():
            raise ZeroDivisionError('division by zero')
        if len(cur.t) == 1:
            ((mono, lin, r), c), = cur.t.items()
            for v, _p in mono:
                if v != PI_VAR and bool(_ctx().num_cmp('==', Num.var(v), Num())):
                    raise ZeroDivisionError('division by zero')
            return _mk(tuple((v, -p) for v, p in mono), tuple((v, -q) for v, q in lin), -r, 1 / c)
        if cur.is_const():
            return _cyc_inv(cur)
        raise Unsupported('division by a symbolic sum')

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __pow__(self, n):
        if isinstance(n, Num):
            if not n.is_const():
                raise Unsupported('symbolic exponent')
            n = n.approx().real
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            base = self if n >= 0 else self.inv()
            out = Num.const(1)
            for _ in range(abs(n)):
                out = out * base
            return out
        if n == 0.5:
            return sqrt(self)
        raise Unsupported('fractional power')

    def conjugate(self):
        out = Num()
        for (mono, lin, r), c in self.t.items():
            out = out + _mk(mono, tuple((v, -q) for v, q in lin), -r, c)
        return out

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * Fraction(1, 2) * _mk((), (), Fraction(-1, 2), Fraction(1))

    # comparisons delegate to the verification context ----------------------------------------------------------------
    def __eq__(self, o):
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        return _ctx().num_cmp('==', self, o2)

    def __ne__(self, o):
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        return _ctx().num_cmp('!=', self, o2)

    def __lt__(self, o):
        return _ctx().num_cmp('<', self, Num.const(o))

    def __le__(self, o):
        return _ctx().num_cmp('<=', self, Num.const(o))

    def __gt__(self, o):
        return _ctx().num_cmp('>', self, Num.const(o))

    def __ge__(self, o):
        return _ctx().num_cmp('>=', self, Num.const(o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        if self.is_const():
            if self.is_real():
                return self if self.approx().real >= 0 else -self
            return sqrt(self * self.conjugate())
        if self.is_real():
            if _ctx().num_cmp('>=', self, Num()):
                return self
            return -self
        sq = self * self.conjugate()
        if (sq - 1).is_zero():
            return Num.const(1)
        p = polar(self)
        if p is not None and not p[0].has_trig():
            return abs(p[0])
        return sqrt(sq)

    def __mod__(self, o):
        return _ctx().num_mod(self, Num.const(o))

    def __rmod__(self, o):
        return _ctx().num_mod(Num.const(o), self)

    def __float__(self):
        cur = self.subst()
        if cur.is_const() and cur.is_real():
            return cur.approx().real
        raise Unsupported('float() of a symbolic real reached native code')

    def __complex__(self):
        cur = self.subst()
        if cur.is_const():
            return cur.approx()
        raise Unsupported('complex() of a symbolic number reached native code')

    def __round__(self, nd=None):
        return _ctx().num_round(self, nd)

    def __repr__(self):
        return _ctx().token(self) if _active() else self.show()

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def show(self):
        if not self.t:
            return '0'
        out = []
        for (mono, lin, r), c in sorted(self.t.items(), key=str):
            s = str(c)
            for v, p in mono:
                s += f'*{v}' + (f'^{p}' if p > 1 else '')
            if lin or r:
                s += '*e^i(' + '+'.join([f'{q}*{v}' for v, q in lin] + ([f'{r}pi'] if r else [])) + ')'
            out.append(s)
        return ' + '.join(out)


# variables that stand for the nonnegative square root of a number (their squares are replaced by that number)
ROOTS = {}


def _reduce_roots(t):
    out = Num()
    for (mono, lin, r), c in t.items():
        hit = [(v, p) for v, p in mono if p > 1 and v in ROOTS]
        if not hit:
            out = out + Num({(mono, lin, r): c})
            continue
        keep = tuple((v, p if (v, p) not in hit else p % 2) for v, p in mono)
        term = Num({(tuple((v, p) for v, p in keep if p), lin, r): c})
        for v, p in hit:
            for _ in range(p // 2):
                term = term * ROOTS[v]
        out = out + term
    return out


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, p in m2:
        d[v] = d.get(v, 0) + p
        if not d[v]:
            del d[v]
    return tuple(sorted(d.items()))


def _ll(l1, l2):
    if not l1:
        return l2
    if not l2:
        return l1
    d = dict(l1)
    for v, q in l2:
        s = d.get(v, 0) + q
        if s:
            d[v] = s
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


_RSUM = {}


def _rsum(r1, r2):
    """exp(i pi (r1 + r2)) as (r, negative) with 0 <= r < 1."""
    r = (r1 + r2) % 2
    out = (r, False) if r < 1 else (r - 1, True)
    if len(_RSUM) < 100000:
        _RSUM[(r1, r2)] = out
    return out


def _key(mono, lin, r, c):
    r = r % 2
    if r >= 1:
        r -= 1
        c = -c
    return (mono, lin, r), c


def _mk(mono, lin, r, c):
    k, c = _key(mono, tuple(sorted(lin)), Fraction(r), Fraction(c))
    return Num({k: c}) if c else Num()


I_ = Num.expi_pi(Fraction(1, 2))
SQRT2 = Num.expi_pi(Fraction(1, 4)) + Num.expi_pi(Fraction(-1, 4))
SQRT3 = Num.expi_pi(Fraction(1, 6)) + Num.expi_pi(Fraction(-1, 6))
PI = Num.var(PI_VAR)


def _cyc_inv(x):
    """Inverse of a constant cyclotomic number through its norm (product of conjugates)."""
    n = 1
    for (_m, _l, r) in x.t:
        n = n * r.denominator // gcd(n, r.denominator)
    order = 2 * n
    prod = Num.const(1)
    for k in range(2, order):
        if gcd(k, order) == 1:
            prod = prod * Num._galois(x, k)
    norm = x * prod
    # the norm is rational; find it exactly
    val = Fraction(norm.approx().real).limit_denominator(10**12)
    if not (norm - val).is_zero():
        raise Unsupported('cyclotomic inverse')
    return prod * (1 / val)


def _galois(x, k):
    out = Num()
    for (_m, _l, r), c in x.t.items():
        out = out + _mk((), (), r * k, c)
    return out


Num._galois = staticmethod(_galois)


def expi(x):
    """exp(i*x) for a real linear form x."""
    x = Num.const(x).subst()
    lin = {}
    r = Fraction(0)
    for (mono, l, rr), c in x.t.items():
        if l or rr or len(mono) > 1 or (mono and mono[0][1] != 1):
            raise Unsupported('exp of a non-linear argument')
        if not mono:
            if c != 0:
                q = Fraction(float(c) / math.pi).limit_denominator(1024)
                if abs(float(c) - math.pi * float(q)) < 1e-11 and q != 0:
                    r += q  # a float literal that denotes a rational multiple of pi
                else:
                    lin['#one'] = lin.get('#one', Fraction(0)) + c
            continue
        v = mono[0][0]
        if v == PI_VAR:
            r += c
        else:
            lin[v] = lin.get(v, Fraction(0)) + c
    return _mk((), tuple((v, q) for v, q in lin.items() if q), r, Fraction(1))


def cexp(z):
    """exp(z) for purely imaginary z."""
    z = Num.const(z)
    if not z.real.is_zero():
        raise Unsupported('exp of a number with a real part')
    return expi(z.imag)


ANGLES = {}        # variable -> (cosine, sine) of an angle that is only known by these


def _known_angle(x, quarter):
    """cos(x - quarter*pi/2) for x = +-v + k*pi/2 with v in ANGLES."""
    if not ANGLES:
        return None
    x = Num.const(x).subst()
    v, sign, k = None, 0, Fraction(0)
    for (mono, lin, r), c in x.t.items():
        if lin or r or len(mono) > 1 or (mono and mono[0][1] != 1):
            return None
        name = mono[0][0] if mono else None
        if name == PI_VAR:
            k = c * 2
        elif name in ANGLES and c in (1, -1) and v is None:
            v, sign = name, c
        else:
            return None
    if v is None or k.denominator != 1:
        return None
    co, si = ANGLES[v]
    si = si * sign
    k = (int(k) - quarter) % 4
    return [co, -si, -co, si][k]


def polar(x):
    """(rho, L) with x = rho * exp(iL), rho real; None when x has no such form."""
    x = Num.const(x).subst()
    if x.is_real():
        return x, Num()
    keys = list(x.t)
    if len({k[1] for k in keys}) == 1:
        _mono, lin, r = keys[0]
        for rr in [r] + [k[2] for k in keys[1:]] + [r + Fraction(1, 4), r + Fraction(1, 2), r + Fraction(3, 4)]:
            rho = x * _mk((), tuple((v, -q) for v, q in lin), -rr, Fraction(1))
            if rho.is_real():
                out = PI * rr
                for v, q in lin:
                    out = out + (Num.var(v) if v != '#one' else Num.const(1)) * q
                return rho, out
    return None


def cos(x):
    known = _known_angle(x, 0)
    if known is not None:
        return known
    e = expi(x)
    return (e + e.conjugate()) * Fraction(1, 2)


def sin(x):
    known = _known_angle(x, 1)
    if known is not None:
        return known
    e = expi(x)
    return (e - e.conjugate()) * Fraction(1, 2) * Num.expi_pi(Fraction(-1, 2))


def sqrt(x):
    x = Num.const(x).subst()
    if x.is_zero():
        return Num()
    if x.is_const() and x.is_real():
        f = Fraction(x.approx().real).limit_denominator(10**9)
        if (x - f).is_zero() and f > 0:
            num, den = f.numerator * f.denominator, f.denominator  # sqrt(f) = sqrt(num)/den
            root = 1
            d = 2
            while d * d <= num:
                while num % (d * d) == 0:
                    num //= d * d
                    root *= d
                d += 1
            base = {1: Num.const(1), 2: SQRT2, 3: SQRT3}.get(num)
            if num == 6:
                base = SQRT2 * SQRT3
            if base is not None:
                return base * Fraction(root, den)
    return _ctx().num_sqrt(x)


_CTX = []


def _active():
    return bool(_CTX)


def _ctx():
    if not _CTX:
        raise Unsupported('symbolic number used outside a verification context')
    return _CTX[-1]
