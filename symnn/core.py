"""Symbolic scalars, path exploration and solver queries.

A symbolic number (`S`) is an exact complex rational function

        (re + i*im) / (a1**n1 * a2**n2 ...)

whose `re`, `im` are polynomials over Q in normal form (poly.P) and whose
denominator is a multiset of polynomials, each recorded as being nonzero.
Machine floats are read as the exact rational they denote; arithmetic is exact
(real-number semantics).  Every polynomial has a z3 term; all verdicts (path
feasibility, comparisons, obligations) are z3's.

Next to the term each number carries `v`, the value of the same expression at
one fixed sample point.  `v` never decides anything: it orders pivots, picks the
side of a branch explored first and proposes candidate counterexamples; at the
end of a run it validates the encoding against the real code at that point.
"""
import cmath
import itertools
import math
import os
import random
import time
from fractions import Fraction

import z3

from . import poly
from .poly import P, const as pconst

F0, F1 = poly.ZERO, poly.ONE
SLOW = float(os.environ.get("SYMNN_SLOW", "0"))


class Inconclusive(BaseException):
    """The check could not decide (solver unknown, unsupported construct...)."""


class Infeasible(BaseException):
    """The current path has no input.  (BaseException: the sources catch Exception)"""


class Violation(BaseException):
    def __init__(self, name, model, detail=""):
        super().__init__(name)
        self.name, self.model, self.detail = name, model, detail


def frac(x):
    """exact rational of a python/numpy real number"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Inconclusive(f"non-finite constant {x}")
    return Fraction(x)


def zfrac(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def pz(p):
    """z3 term of a polynomial"""
    if p._z is None:
        if p.is_const():
            p._z = zfrac(p.const())
        else:
            ts = []
            R = poly.RING
            for m, c in p.d.items():
                fs = []
                for i, e in poly.mono_items(m):
                    z = R.z[i]
                    fs.extend([z] * e)
                if not fs:
                    ts.append(zfrac(Fraction(c, p.q)))
                    continue
                t = fs[0] if len(fs) == 1 else z3.Product(fs)
                f = Fraction(c, p.q)
                ts.append(t if f == 1 else zfrac(f) * t)
            p._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return p._z


def lift(x):
    """python/numpy number -> S (None when x is not a number)"""
    if isinstance(x, S):
        return x
    if isinstance(x, SB):
        return ite(x, ONE, ZERO)
    if isinstance(x, (bool, int, Fraction)):
        f = Fraction(int(x)) if isinstance(x, bool) else Fraction(x)
        return S(pconst(f), F0, (), _fl(f))
    if isinstance(x, float):
        return S(pconst(frac(x)), F0, (), float(x))
    if isinstance(x, complex):
        return S(pconst(frac(x.real)), pconst(frac(x.imag)), (), complex(x))
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return lift(x.item())
    return None


def _fl(f):
    try:
        return float(f)
    except OverflowError:
        return math.inf if f > 0 else -math.inf


# denominators: sorted tuple of (atom id, power); CTX.atoms[id] = P


def den_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    d = dict(d1)
    for k, n in d2:
        d[k] = d.get(k, 0) + n
    return tuple(sorted(d.items()))


def den_lcm(d1, d2):
    if d1 == d2:
        return d1
    d = dict(d1)
    for k, n in d2:
        d[k] = max(d.get(k, 0), n)
    return tuple(sorted(d.items()))


def den_quot(d, d1):
    """polynomial d/d1 for d multiple of d1"""
    if d == d1:
        return F1
    dd1 = dict(d1)
    r = F1
    for k, n in d:
        r = r * CTX.atoms[k].pow(n - dd1.get(k, 0))
    return r


def den_poly(d):
    r = F1
    for k, n in d:
        r = r * CTX.atoms[k].pow(n)
    return r


def _sdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return float("nan")


class S:
    __slots__ = ("re", "im", "den", "v")

    def __init__(self, re, im, den, v):
        self.re, self.im, self.den, self.v = re, im, den, v

    # -- predicates
    def is_const(self):
        return not self.den and self.re.is_const() and self.im.is_const()

    def is_real(self):
        return not self.im.d

    def is_zero(self):
        return not self.re.d and not self.im.d

    def rconst(self):
        """value of a real constant, as a Fraction"""
        return self.re.const()

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.is_zero():
            return self
        if self.is_zero():
            return o
        v = self.v + o.v
        if self.den == o.den:
            r = S(self.re + o.re, self.im + o.im, self.den, v)
        else:
            d = den_lcm(self.den, o.den)
            m1, m2 = den_quot(d, self.den), den_quot(d, o.den)
            r = S(self.re * m1 + o.re * m2, self.im * m1 + o.im * m2, d, v)
        return r.cancel()

    __radd__ = __add__

    def cancel(self):
        """cancel denominator factors that divide the numerator"""
        if self.is_zero():
            return ZERO
        if not self.den:
            return self
        re, im, den = self.re, self.im, list(self.den)
        out = []
        changed = False
        for k, n in den:
            a = CTX.atoms[k]
            while n:
                q = poly.divide(re, a)
                if q is None:
                    break
                q2 = poly.divide(im, a)
                if q2 is None:
                    break
                re, im, n = q, q2, n - 1
                changed = True
            if n:
                out.append((k, n))
        return S(re, im, tuple(out), self.v) if changed else self

    def __neg__(self):
        return S(-self.re, -self.im, self.den, -self.v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.is_zero() or o.is_zero():
            return ZERO
        v = self.v * o.v
        d = den_mul(self.den, o.den)
        a, b, c, e = self.re, self.im, o.re, o.im
        re = a * c
        im = F0
        if b.d or e.d:
            if b.d and e.d:
                re = re - b * e
            if e.d:
                im = a * e
            if b.d:
                im = im + b * c
        r = S(re, im, d, v)
        return r.cancel() if d else r

    __rmul__ = __mul__

    def inv(self):
        if self.is_const():
            x, y = self.re.const(), self.im.const()
            n2 = x * x + y * y
            if n2 == 0:
                if CTX is not None and CTX.nan_ok == "any":
                    return NAN
                raise Inconclusive("division by the constant 0")
            return S(pconst(x / n2), pconst(-y / n2), (), _sdiv(1, self.v))
        v = _sdiv(1, self.v)
        if self.is_zero():
            raise Inconclusive("division by 0")
        if CTX.div_log is not None:
            CTX.note_div(self)
        if self.is_real():
            c, den = CTX.factor(self.re)
            num = den_poly(self.den).scale(1 / c)
            return S(num, F0, den, v).cancel()
        if not self.re.d:
            r = S(self.im, F0, self.den, 1.0).inv()
            return S(F0, -r.re, r.den, v)
        dp = den_poly(self.den)
        n2 = self.re * self.re + self.im * self.im
        c, den = CTX.factor(n2)
        dp = dp.scale(1 / c)
        return S(self.re * dp, -(self.im * dp), den, v).cancel()

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if CTX is not None and CTX.nan_ok and o.is_zero():
            if CTX.nan_ok == "any" or self.is_zero() or CTX.sat((self != 0).z, 10)[0] == z3.unsat:
                return NAN
            raise Inconclusive("division by 0")
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o * self.inv()

    def __floordiv__(self, o):
        q = self / o
        return floor_of(q)

    def __rfloordiv__(self, o):
        return floor_of(lift(o) / self)

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self // o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __pow__(self, p):
        if isinstance(p, S):
            if not p.is_const() or p.im.d:
                return CTX.power(self, p)
            p = p.re.const()
        if not isinstance(p, Fraction):
            p = p.item() if hasattr(p, "item") else p
            p = frac(p.real if isinstance(p, complex) else p)
        if p.denominator == 1:
            n = p.numerator
            if n < 0:
                return (self ** (-n)).inv()
            if n == 0:
                return ONE
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        if p.denominator == 2:
            s = self.sqrt()
            return s ** p.numerator
        return CTX.power(self, lift(p))

    def __rpow__(self, b):
        return lift(b) ** self

    def conjugate(self):
        if self.is_real():
            return self
        return S(self.re, -self.im, self.den, complex(self.v).conjugate())

    conj = conjugate

    @property
    def real(self):
        if self.is_real():
            return self
        return S(self.re, F0, self.den, complex(self.v).real).cancel()

    @property
    def imag(self):
        return S(self.im, F0, self.den, complex(self.v).imag).cancel()

    def __abs__(self):
        if self.is_real():
            return self if bool(self >= 0) else -self
        if not self.re.d:
            return abs(self.imag)
        return self.abs2().sqrt()

    def abs2(self):
        return self.real * self.real + self.imag * self.imag

    # numpy's object-dtype ufuncs call these methods
    def sqrt(self):
        return CTX.sqrt(self)

    def exp(self):
        return CTX.exp(self)

    def cos(self):
        return CTX.cossin(self)[0]

    def sin(self):
        return CTX.cossin(self)[1]

    def tanh(self):
        return CTX.ufun("tanh", self)

    def tan(self):
        c, s = CTX.cossin(self)
        return s / c

    def log(self):
        return CTX.ufun("log", self)

    def log2(self):
        return CTX.ufun("log2", self)

    def floor(self):
        return floor_of(self)

    def rint(self):
        return floor_of(self + Fraction(1, 2))

    def square(self):
        return self * self

    # -- comparisons
    def z(self):
        """the real value as a z3 term"""
        if not self.is_real():
            raise Inconclusive("ordering of a complex number")
        if not self.den:
            return pz(self.re)
        return pz(self.re) / pz(den_poly(self.den))

    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = complex(self.v).real, complex(o.v).real
        pv = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if not (self.is_real() and o.is_real()):
            raise Inconclusive("ordering of complex numbers")
        d = self - o
        if d.is_const():
            x = d.re.const()
            return SB.const({"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0}[op])
        x = d.re
        sg = CTX.den_sign(d.den)
        if sg is None:
            odd = F1
            for k, n in d.den:
                if n % 2 and CTX.sign_of(k) is None:
                    odd = odd * CTX.atoms[k]
                elif n % 2 and CTX.sign_of(k) < 0:
                    odd = -odd
            x = x * odd
        elif sg < 0:
            x = -x
        # positive content is irrelevant
        mm, c, prim = x.monic_content()
        x = x.scale(1 / abs(c))
        key = (op, x.key())
        r = CTX._cmp_cache.get(key)
        if r is None:
            x = pz(x)
            r = {"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0}[op]
            CTX._cmp_cache[key] = r
        return SB(r, pv)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o = lift(o)
        if o is None:
            return NotImplemented
        d = self - o
        pv = abs(complex(self.v) - complex(o.v)) <= 1e-12 * (abs(self.v) + abs(o.v))
        cs = []
        for p in (d.re, d.im):
            if p.is_const():
                if p.d:
                    return SB.const(False)
            else:
                cs.append(pz(p) == 0)
        if not cs:
            return SB.const(True)
        return SB(z3.And(*cs) if len(cs) > 1 else cs[0], pv)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented or isinstance(r, bool):
            return r if r is NotImplemented else not r
        return ~r

    def __hash__(self):
        if self.is_const() and not self.im.d:
            return hash(self.re.const())
        return id(self)

    def __bool__(self):
        if self.is_const():
            return not self.is_zero()
        return bool(self != 0)

    def __int__(self):
        return CTX.concretize_int(self, trunc=True)

    def __index__(self):
        return CTX.concretize_int(self, trunc=False)

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        if self.is_const() and not self.im.d:
            return round(self.re.const()) if n is None else lift(round(float(self.re.const()), n))
        raise Inconclusive("round of a symbolic number")

    def __float__(self):
        if self.is_const() and not self.im.d:
            return float(self.re.const())
        raise Inconclusive("float() of a symbolic number")

    def __complex__(self):
        if self.is_const():
            return complex(float(self.re.const()), float(self.im.const()))
        raise Inconclusive("complex() of a symbolic number")

    def __format__(self, spec):
        return f"<sym {self.v}>"

    def __repr__(self):
        return f"S({self.v})"

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(object)

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")


def floor_of(x):
    if x.is_const():
        return lift(Fraction(math.floor(x.re.const())))
    return CTX.opaque("floor", z3.ToReal(z3.ToInt(x.z())), math.floor(complex(x.v).real))


ZERO = S(F0, F0, (), 0.0)
ONE = S(F1, F0, (), 1.0)
IMAG = S(F0, F1, (), 1j)


class SB:
    """symbolic boolean"""

    __slots__ = ("z", "v")

    def __init__(self, z, v):
        self.z, self.v = z, bool(v)

    @staticmethod
    def const(b):
        return SB(z3.BoolVal(bool(b)), bool(b))

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        o = liftb(o)
        return SB(z3.And(self.z, o.z), self.v and o.v)

    __rand__ = __and__

    def __or__(self, o):
        o = liftb(o)
        return SB(z3.Or(self.z, o.z), self.v or o.v)

    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.z), not self.v)

    def __xor__(self, o):
        o = liftb(o)
        return SB(z3.Xor(self.z, o.z), self.v != o.v)

    def __eq__(self, o):
        o = liftb(o)
        return SB(self.z == o.z, self.v == o.v)

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(bool(self))

    def logical_not(self):
        return ~self

    # arithmetic on truth values
    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return f"SB({self.v})"


class Nan(S):
    """0 / 0: not a number"""

    __slots__ = ()

    def _op(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _op
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __pos__ = __abs__ = _op
    sqrt = exp = cos = sin = tanh = conjugate = square = inv = _op

    def _no(self, *a):
        return SB.const(False)

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _no

    def __ne__(self, o):
        return SB.const(True)

    def __hash__(self):
        return 0

    def is_const(self):
        return False

    def is_real(self):
        return True

    def is_zero(self):
        return False

    def z(self):
        raise Inconclusive("not a number")

    def __repr__(self):
        return "nan"


NAN = Nan(F0, F0, (), float("nan"))


def liftb(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, S):
        return x != 0
    return SB.const(bool(x))



def ite(c, a, b):
    """merged conditional"""
    c = liftb(c)
    if z3.is_true(c.z):
        return a
    if z3.is_false(c.z):
        return b
    if isinstance(a, SB) or isinstance(b, SB) or (isinstance(a, bool) and isinstance(b, bool)):
        a, b = liftb(a), liftb(b)
        return SB(z3.If(c.z, a.z, b.z), a.v if c.v else b.v)
    a, b = lift(a), lift(b)
    d = den_lcm(a.den, b.den)
    m1, m2 = den_quot(d, a.den), den_quot(d, b.den)

    def pick(x, y):
        if x.eq(y):
            return x
        v = (x if c.v else y).value(CTX.ring.v)
        return CTX.opaque("ite", z3.If(c.z, pz(x), pz(y)), v).re

    return S(pick(a.re * m1, b.re * m2), pick(a.im * m1, b.im * m2), d, a.v if c.v else b.v)


# --------------------------------------------------------------------------
# context: one symbolic run
# --------------------------------------------------------------------------

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.proved = 0
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.samples = []
        self.kinds = {}
        self.validated = 0
        self.witness = 0

    def add(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n


def poly_sqrt(p):
    """r with r*r == p, or None"""
    if not p.d:
        return p
    if p.is_const():
        f = p.const()
        if f < 0:
            return None
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        return pconst(Fraction(a, b)) if a * a == f.numerator and b * b == f.denominator else None
    lead = max(p.d)
    for i, e in poly.mono_items(lead):
        if e % 2:
            return None
    f = Fraction(p.d[lead], p.q)
    c = poly_sqrt(pconst(f))
    if c is None:
        return None
    half = 0
    for i, e in poly.mono_items(lead):
        half |= (e // 2) << (poly.BITS * i)
    r = P({half: 1}, 1).scale(c.const())
    lt = (half, c.const())
    n = 0
    rem = p - r * r
    while rem.d:
        m = max(rem.d)
        q = poly.mono_div(m, half)
        if q is None or n > 60:
            return None
        t = P({q: 1}, 1).scale(Fraction(rem.d[m], rem.q) / (2 * c.const()))
        r2 = r + t
        rem2 = p - r2 * r2
        if rem2.d and max(rem2.d) >= m:
            return None
        r, rem = r2, rem2
        n += 1
    return r


class SymCtx:
    """Execution context of a harness in symbolic mode."""

    symbolic = True

    def __init__(self, stats=None, seed=1, timeout=60.0, max_paths=3000, tier="quick"):
        self.stats = stats or Stats()
        self.seed = seed
        self.timeout = timeout
        self.max_paths = max_paths
        self.tier = tier
        self.prefix = []
        self.reset()

    def reset(self):
        self.rng = random.Random(self.seed)
        self.ring = poly.Ring()
        poly.set_ring(self.ring)
        self.atoms = []
        self._atomkey = {}
        self.pc = []  # assumptions, path condition, function axioms: (z3 term, size)
        self.nz = []
        self.trail = []
        self.sqrt_hints = []
        self.sqrt_cache = []
        self.exp_cache = []
        self.ang = []
        self.ufs = []
        self.inputs = {}
        self.counter = 0
        self.notes = []
        self._sign = {}
        self._cmp_cache = {}
        self._opq = {}
        self._keep = []
        self.observed = {}
        self.merge_where = False
        self.eig_stub = None
        self.fft_stub = None
        self.exp_monotone = False
        self.nan_ok = False
        # lazy: nonlinear branch conditions are taken both ways without a query
        # (more paths than the code has; sound for what is proved)
        self.lazy = False
        self.exp_log = self.div_log = None
        self.zero_eps = False
        self.has_opaque = False
        self._sv = None
        self.pending = []
        self._decided = {}
        self._vars = {}
        self._hyps = []

    # ---------------- variables
    def _name(self, name):
        if name in self.ring.names:
            self.counter += 1
            name = f"{name}!{self.counter}"
        return name

    def fresh(self, name, v, z=None):
        """a new symbolic real"""
        name = self._name(name)
        z = z3.Real(name) if z is None else z
        i = self.ring.new(name, z, v)
        return S(self.ring.var(i), F0, (), v)

    def _idx(self, x):
        return x.re.vars()[0]

    def opaque(self, name, z, v):
        k = z.get_id()
        r = self._opq.get(k)
        if r is None:
            self.has_opaque = True
            r = self.fresh("#" + name, v if v is not None else 0.0, z=z)
            self._opq[k] = r
            self._keep.append(z)
        if v is not None and r.v != v:
            r = S(r.re, r.im, r.den, v)
        return r

    def _sample(self, lo, hi):
        a = -2.0 if lo is None else float(lo)
        b = (a + 3.0 if lo is not None else 2.0) if hi is None else float(hi)
        if hi is not None and lo is None:
            a = b - 3.0
        return round(a + (b - a) * self.rng.uniform(0.15, 0.85), 3)

    def real(self, name, lo=None, hi=None, strict=True, sample=None):
        """a real input, lo < x < hi (<= when strict=False)"""
        v = float(sample) if sample is not None else self._sample(lo, hi)
        x = self.fresh(name, v)
        c = pz(x.re)
        if lo is not None:
            l = zfrac(frac(lo))
            self.assume_z(c > l if strict else c >= l)
        if hi is not None:
            h = zfrac(frac(hi))
            self.assume_z(c < h if strict else c <= h)
        self.inputs[name] = x
        return x

    def cplx(self, name, sample=None, re_lo=None, im_lo=None, strict=False):
        sr = None if sample is None else complex(sample).real
        si = None if sample is None else complex(sample).imag
        a = self.real(name + ".re", lo=re_lo, sample=sr, strict=strict)
        b = self.real(name + ".im", lo=im_lo, sample=si, strict=strict)
        return a + IMAG * b

    def integer(self, name, lo, hi, sample=None):
        """an integer input (symbolic; enumerated only where the code needs it)"""
        v = sample if sample is not None else self.rng.randint(lo, hi)
        c = z3.Int(name)
        self.assume_z(z3.And(c >= lo, c <= hi))
        x = self.fresh(name, float(v), z=z3.ToReal(c))
        self.inputs[name] = x
        self.has_opaque = True
        return x

    def boolean(self, name, sample=False):
        c = z3.Bool(name)
        b = SB(c, sample)
        self.inputs[name] = b
        return b

    def choice(self, name, options):
        """a nondeterministic choice, explored by forking"""
        k = self.integer(name, 0, len(options) - 1, sample=0)
        return options[self.concretize_int(k, trunc=False)]

    def _unit(self, name, ang):
        """(cos, sin) of a free angle: c, s with s*s = 1 - c*c"""
        t = Fraction(round(math.tan(ang / 2) * 1000), 1000)
        den = 1 + t * t
        cv, sv = float((1 - t * t) / den), float(2 * t / den)
        c = self.fresh(name + ".c", cv)
        s = self.fresh(name + ".s", sv)
        self.ring.rule(self._idx(s), F1 - P({2 * max(c.re.d): 1}, 1))
        cz, sz = pz(c.re), pz(s.re)
        self.assume_z(sz * sz + cz * cz == 1)
        return c, s

    def angle(self, name, lo=None, hi=None, sample=None):
        """an angle in degrees; its cosine and sine are symbolic, c*c + s*s = 1.
        lo < a < hi (open interval, at most 180 degrees wide)"""
        a0 = -175.0 if lo is None else lo
        a1 = 175.0 if hi is None else hi
        deg = self.rng.uniform(a0 + 0.2 * (a1 - a0), a1 - 0.2 * (a1 - a0)) if sample is None else sample
        c, s = self._unit(name, math.radians(deg))
        deg = math.degrees(math.atan2(s.v, c.v))
        exact = {0: (1, 0), 90: (0, 1), 180: (-1, 0), -90: (0, -1), -180: (-1, 0)}

        def cs(x):
            if x in exact:
                return [Fraction(y) for y in exact[x]]
            return [frac(round(math.cos(math.radians(x)), 9)), frac(round(math.sin(math.radians(x)), 9))]

        if lo is not None:
            cl, sl = cs(lo)
            self.assume(s * cl - c * sl > 0)
        if hi is not None:
            ch, sh = cs(hi)
            self.assume(c * sh - s * ch > 0)
        a = self.fresh(name, deg)
        self.ang.append((a * frac(math.pi / 180), c, s))
        self.inputs[name] = ("angle", c, s, deg)
        return a

    def pyth(self, p=3, q=4, r=5):
        """the angle (degrees) of cosine p/r and sine q/r, exactly"""
        a = lift(math.degrees(math.atan2(q, p)))
        c, s = lift(Fraction(p, r)), lift(Fraction(q, r))
        self.ang.append((a * frac(math.pi / 180), c, s))
        self.ang.append((lift(float(a) * (math.pi / 180)), c, s))
        return a

    def cs(self, a):
        """(cos, sin) of an angle in degrees, as the code sees them"""
        return self.cossin(lift(a) * frac(math.pi / 180))

    # ---------------- assumptions
    def nonlinear(self, z):
        """does the term contain a product or quotient of unknowns?"""
        todo, seen = [z], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if len(seen) > 400:
                return True
            k, ch = t.decl().kind(), t.children()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER) and sum(not z3.is_rational_value(c) for c in ch) > 1:
                return True
            todo += ch
        return False

    def assume_z(self, z, size=1):
        if self.lazy and size <= 60 and self.nonlinear(z):
            size = 61
        self.pc.append((z, size))
        if size <= 60:
            self._hyps.append((z, self.zvars(z)))
        if self._sv is not None and size <= 60:
            self._sv.add(z)

    def assume(self, cond, note=None):
        cond = liftb(cond)
        if note and note not in self.notes:
            self.notes.append(note)
        self.assume_z(cond.z)
        if z3.is_false(cond.z):
            raise Infeasible()

    def add_atom(self, p):
        """register a nonzero polynomial (primitive)"""
        k = p.key()
        i = self._atomkey.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(p)
            self._atomkey[k] = i
        return i

    def factor(self, p):
        """p = c * product of atoms"""
        if p.is_const():
            return p.const(), ()
        mm, c, prim = p.monic_content()
        den = {}
        for i, e in poly.mono_items(mm):
            k = self.add_atom(self.ring.var(i))
            den[k] = den.get(k, 0) + e
        if not prim.is_const():
            for k in range(len(self.atoms)):
                a = self.atoms[k]
                if len(a.d) < 2 or len(a.d) > len(prim.d) * 3:
                    continue
                while not prim.is_const():
                    q = poly.divide(prim, a)
                    if q is None:
                        break
                    prim = q
                    den[k] = den.get(k, 0) + 1
            if not prim.is_const():
                mm2, c2, prim = prim.monic_content()
                c *= c2
                for i, e in poly.mono_items(mm2):
                    k = self.add_atom(self.ring.var(i))
                    den[k] = den.get(k, 0) + e
                if not prim.is_const():
                    # perfect squares: keep the root
                    r = poly_sqrt(prim)
                    n = 1
                    if r is not None:
                        _, c3, r = r.monic_content()
                        prim, n = r, 2
                        c *= c3 * c3
                    for f, e in poly.factors(prim):
                        k = self.add_atom(f)
                        den[k] = den.get(k, 0) + n * e
        if prim.is_const():
            c *= prim.const()
        return c, tuple(sorted(den.items()))

    def sign_of(self, k):
        r = self._sign.get(k)
        if r is None or (r[0] is None and r[1] != len(self.pc)):
            a = self.atoms[k]
            if len(a.d) > 200:
                self._sign[k] = (None, len(self.pc))
                return None
            z = pz(a)
            v = a.value(self.ring.v)
            s = None
            if v > 0 and self.sat(z <= 0, 3)[0] == z3.unsat or v > 0 and self.sat(z < 0, 3)[0] == z3.unsat:
                s = 1
            elif v < 0 and self.sat(z > 0, 3)[0] == z3.unsat:
                s = -1
            self._sign[k] = r = (s, len(self.pc))
        return r[0]

    def den_sign(self, den):
        s = 1
        for k, n in den:
            if n % 2 == 0:
                continue
            t = self.sign_of(k)
            if t is None:
                return None
            s *= t
        return s

    # ---------------- solver
    def _check(self, s, timeout=None):
        t0 = time.time()
        s.set("timeout", max(100, int(1000 * (timeout or self.timeout))))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.solver_s += dt
        if SLOW and dt > SLOW:
            import sys
            import traceback

            sys.stderr.write(f"--- {dt:.1f}s {r}\n" + str(s.assertions()[len(s.assertions()) - 1] if len(s.assertions()) else "")[:300] + "\n" + "".join(traceback.format_stack()[-9:-1]) + "\n")
        return r

    def _light(self):
        if self._sv is None:
            self._sv = z3.Solver()
            for z, n in self.pc:
                if n <= 60:
                    self._sv.add(z)
        return self._sv

    def zvars(self, z):
        """names of the constants in a term (None: too large to look)"""
        k = z.get_id()
        r = self._vars.get(k)
        if r is not None:
            return r[1]
        out, todo, seen = set(), [z], set()
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if len(seen) > 1500:
                out = None
                break
            n = t.num_args()
            if n == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            for j in range(n):
                todo.append(t.arg(j))
        r = frozenset(out) if out is not None else None
        self._vars[k] = (z, r)
        return r

    def near(self, z):
        """unsat from the hypotheses over the variables of z alone?"""
        vs = self.zvars(z)
        if not vs or len(vs) > 4:
            return False
        hs = [h for h, v in self._hyps if v and v <= vs]
        if len(hs) > 40:
            hs = hs[:10] + hs[-30:]
        if len(hs) == len(self._hyps):
            return False
        s = z3.Solver()
        s.add(*hs)
        s.add(z)
        return self._check(s, 0.5) == z3.unsat

    def sat(self, z, timeout=None):
        """satisfiability of z under the (small) hypotheses of the path.

        unsat is a proof; sat may ignore the large hypotheses"""
        if self.near(z):
            return z3.unsat, None
        s = self._light()
        s.push()
        s.add(z)
        r = self._check(s, min(timeout or self.timeout, 2.0))
        m = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unknown and not self.has_opaque and (timeout or self.timeout) > 2:
            s = z3.SolverFor("QF_NRA")
            for h, n in self.pc:
                if n <= 60:
                    s.add(h)
            s.add(z)
            r = self._check(s, timeout)
            m = s.model() if r == z3.sat else None
        return r, m

    def full(self, z, timeout=None):
        """satisfiability of z under all hypotheses, nonzero denominators too"""
        r = z3.unknown
        m = None
        for mk in ("QF_NRA", None):
            if mk and self.has_opaque:
                continue
            s = z3.SolverFor(mk) if mk else z3.Solver()
            for h, n in self.pc:
                s.add(h)
            for a in self.atoms:
                s.add(pz(a) != 0)
            s.add(z)
            r = self._check(s, timeout)
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return r, m

    def pinned(self, z, timeout=20):
        """z at the sample point of the real inputs (solver query)"""
        eqs = []
        for name, x in self.inputs.items():
            if isinstance(x, tuple):
                t = Fraction(round(math.tan(math.radians(x[3]) / 2) * 1000), 1000)
                eqs.append(pz(x[1].re) == zfrac((1 - t * t) / (1 + t * t)))
                eqs.append(pz(x[2].re) == zfrac(2 * t / (1 + t * t)))
            elif isinstance(x, SB):
                eqs.append(x.z == x.v)
            else:
                eqs.append(pz(x.re) == zfrac(frac(x.v)))
        return self.full(z3.And(z, *eqs), timeout)

    def implied(self, sb, timeout=10):
        if z3.is_true(sb.z):
            return True
        if z3.is_false(sb.z) or not sb.v:
            return False
        r, _ = self.sat(z3.Not(sb.z), timeout)
        return r == z3.unsat

    # ---------------- branching
    def branch(self, sb):
        z = sb.z
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = self._decided.get(z.get_id())
        if k is not None:
            return k[1]
        self.stats.branches += 1
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append((d, False))
            self.assume_z(z if d else z3.Not(z))
            self._decided[z.get_id()] = (z, d)
            return d
        opts = []
        free = self.lazy and self.nonlinear(z)
        for d in (sb.v, not sb.v):
            if free:
                opts.append(d)
                continue
            r, _ = self.sat(z if d else z3.Not(z), 10)
            if r != z3.unsat:
                opts.append(d)
        if not opts:
            raise Infeasible()
        d = opts[0]
        self.trail.append((d, len(opts) > 1))
        self.assume_z(z if d else z3.Not(z))
        self._decided[z.get_id()] = (z, d)
        return d

    def concretize_int(self, x, trunc):
        if x.is_const():
            if x.im.d:
                raise TypeError("int of complex")
            f = x.re.const()
            if f.denominator != 1 and not trunc:
                raise TypeError("non-integer index")
            return int(f)
        guess = int(complex(x.v).real)
        if trunc and not (not x.den and all(self.ring.z[i].decl().kind() == z3.Z3_OP_TO_REAL for i in x.re.vars())):
            if bool((x > guess - 1 if guess <= 0 else x >= guess) & (x < guess + 1 if guess >= 0 else x <= guess)):
                return guess
            step = 1 if bool(x >= guess) else -1
            v = guess
            for _ in range(64):
                v += step
                if bool((x < v + 1 if v >= 0 else x <= v) if step > 0 else (x > v - 1 if v <= 0 else x >= v)):
                    return v
            raise Inconclusive("integer range too large to enumerate")
        # deterministic enumeration (replays of a prefix must meet the same
        # decisions): the sample value, then upwards, then downwards
        k = z3.ToInt(x.z())
        if not trunc:
            self.prove("integer index", x == floor_of(x))
        elif bool(x < 0):
            k = -z3.ToInt(-x.z())
        if bool(SB(k == guess, True)):
            return guess
        step = 1 if bool(SB(k > guess, False)) else -1
        v = guess
        for _ in range(200):
            v += step
            if bool(SB(k == v, False)):
                return v
        raise Inconclusive("integer range too large to enumerate")

    # ---------------- transcendental / algebraic functions
    def hint_sqrt(self, *roots):
        """numbers whose squares have known roots: sqrt(w) is h when h*h == w and
        Re h > 0 or (Re h = 0 and Im h >= 0), which is checked"""
        self.sqrt_hints.extend(lift(r) for r in roots)

    def same(self, a, b):
        return (a - b).is_zero()

    def sqrt(self, w):
        if w.is_zero():
            return ZERO
        if w.is_const() and not w.im.d:
            f = w.re.const()
            neg = f < 0
            r = poly_sqrt(pconst(abs(f)))
            if r is not None:
                r = S(r, F0, (), math.sqrt(abs(f)))
                return IMAG * r if neg else r
        for w0, r in self.sqrt_cache:
            if w0 is w or self.same(w0, w):
                return r
        r = self._sqrt(w)
        self.sqrt_cache.append((w, r))
        return r

    def _principal(self, h):
        """h or -h, whichever is the principal root on this path"""
        x = h if h.is_real() else (h.imag if not h.re.d else h.real)
        if self.implied(x >= 0):
            return h
        if self.implied(x <= 0):
            return -h
        if not h.is_real() and h.re.d:
            # real part 0 would need the sign of the imaginary part
            if bool(x > 0):
                return h
            if bool(x < 0):
                return -h
            return h if bool(h.imag >= 0) else -h
        return h if bool(x >= 0) else -h

    def _sqrt(self, w):
        for h in self.sqrt_hints:
            if self.same(h * h, w):
                return self._principal(h)
        if self.lazy and w.is_real() and not w.is_const():
            r = self.fresh("sqrt", math.sqrt(max(0.0, complex(w.v).real)))
            rz = pz(r.re)
            self.assume_z(rz >= 0)
            d = r * r - w
            self.assume_z(pz(d.re) == 0, max(61, len(d.re.d)))
            t = "square roots are of nonnegative numbers"
            if t not in self.notes:
                self.notes.append(t)
            return r
        if w.is_real():
            # sqrt(n/d) = sqrt(n*odd(d)) / half(d)
            n = w.re
            half = []
            for k, e in w.den:
                if e % 2:
                    n = n * self.atoms[k]
                half.append((k, (e + 1) // 2))
            half = tuple(half)
            hv = den_poly(half).value(self.ring.v) if half else 1.0
            for sg in (1, -1):
                m = n if sg == 1 else -n
                r = poly_sqrt(m)
                if r is not None:
                    h = S(r, F0, half, r.value(self.ring.v) / hv)
                    if sg == -1:
                        h = IMAG * h
                    return self._principal(h)
            if bool(w >= 0):
                wv = complex(n.value(self.ring.v)).real
                mm, c, prim = n.monic_content()
                r = self.fresh("sqrt", math.sqrt(max(0.0, wv)))
                self.ring.rule(self._idx(r), n)
                rz = pz(r.re)
                self.assume_z(rz >= 0)
                self.assume_z(rz * rz == pz(n), len(n.d))
                if not half:
                    return r
                h = S(r.re, F0, half, r.v / hv)
                return self._principal(h)
            return IMAG * self.sqrt(-w)
        sv = cmath.sqrt(complex(w.v))
        a = self.fresh("sqrt.re", sv.real)
        b = self.fresh("sqrt.im", sv.imag)
        r = a + IMAG * b
        d = r * r - w
        self.assume_z(pz(a.re) >= 0)
        self.assume_z(z3.Implies(pz(a.re) == 0, pz(b.re) >= 0))
        self.assume_z(pz(d.re) == 0, len(d.re.d))
        self.assume_z(pz(d.im) == 0, len(d.im.d))
        # 2ab = Im w gives no rule; a^2 = b^2 + Re w does
        wr = w.real
        if not wr.den:
            self.ring.rule(self._idx(a), b.re * b.re + wr.re) if not wr.den and self._idx(a) > max([-1] + wr.re.vars()) else None
        return r

    def cossin(self, a):
        if not a.is_real():
            raise Inconclusive("cos/sin of a complex argument")
        if a.is_const():
            x = float(a.re.const())
            k = round(x / (math.pi / 2))
            if abs(x - k * math.pi / 2) < 1e-9:
                return [(ONE, ZERO), (ZERO, ONE), (-ONE, ZERO), (ZERO, -ONE)][k % 4]
        if a.is_const():
            for x, c, s in self.ang:
                if x.is_const() and abs(float(x) - float(a)) < 1e-12:
                    return c, s
        r = self._lin(a, self.ang)
        if r is not None:
            c, s = ONE, ZERO
            for n, (_, c1, s1) in r:
                if n < 0:
                    n, s1 = -n, -s1
                for _ in range(n):
                    c, s = c * c1 - s * s1, c * s1 + s * c1
            return c, s
        c, s = self._unit("ang", complex(a.v).real)
        if a.is_const():
            c = S(c.re, c.im, c.den, math.cos(a.v))
            s = S(s.re, s.im, s.den, math.sin(a.v))
            for x, f in ((c, math.cos(a.v)), (s, math.sin(a.v))):
                lo, hi = frac(f) - Fraction(1, 10**12), frac(f) + Fraction(1, 10**12)
                self.assume_z(z3.And(pz(x.re) > zfrac(lo), pz(x.re) < zfrac(hi)))
                self.ring.v[self._idx(x)] = f
        else:
            c = S(c.re, c.im, c.den, math.cos(complex(a.v).real))
            s = S(s.re, s.im, s.den, math.sin(complex(a.v).real))
            self.ring.v[self._idx(c)] = c.v
            self.ring.v[self._idx(s)] = s.v
        self.ang.append((a, c, s))
        return c, s

    def _lin(self, x, tab):
        """x as an integer combination of the arguments in tab (exact)"""
        tab = list(tab)
        r = self._lin1(x, tab)
        if r is not False:
            return r
        for a in tab:
            r = self._lin1(x, [a])
            if r:
                return r
        for i, a in enumerate(tab):
            for b in tab[i + 1 :]:
                r = self._lin1(x, [a, b])
                if r:
                    return r
        return None

    def _lin1(self, x, tab):
        """as above with the first independent ones; False: not integers"""
        if not tab:
            return None
        den = x.den
        for e in tab:
            den = den_lcm(den, e[0].den)
        rows = [e[0].re * den_quot(den, e[0].den) for e in tab]
        t = x.re * den_quot(den, x.den)
        mons = sorted(set(t.d).union(*[r.d for r in rows]))
        # solve sum k_i rows_i = t
        n = len(rows)
        M = [[Fraction(r.d.get(m, 0), r.q) for r in rows] + [Fraction(t.d.get(m, 0), t.q)] for m in mons]
        piv, row = [], 0
        for col in range(n):
            p = next((i for i in range(row, len(M)) if M[i][col]), None)
            if p is None:
                continue
            M[row], M[p] = M[p], M[row]
            f = M[row][col]
            M[row] = [y / f for y in M[row]]
            for i in range(len(M)):
                if i != row and M[i][col]:
                    f = M[i][col]
                    M[i] = [y - f * w for y, w in zip(M[i], M[row])]
            piv.append(col)
            row += 1
        if any(M[i][n] for i in range(row, len(M))):
            return None
        out = []
        for i, col in enumerate(piv):
            k = M[i][n]
            if k:
                if k.denominator != 1 or abs(k) > 8:
                    return False
                out.append((int(k), tab[col]))
        return out

    def exp(self, a):
        """exp(re + i*im) = exp(re) * (cos im + i sin im)"""
        if self.exp_log is not None:
            self.exp_log.append(a)
        r, i = a.real, a.imag
        out = ONE
        if not i.is_zero():
            c, s = self.cossin(i)
            out = c + IMAG * s
        if not r.is_zero():
            log, self.div_log = self.div_log, None
            out = out * self.expr(r)
            self.div_log = log
        return out

    def log_exp(self):
        """record the arguments of the exponentials from now on"""
        self.exp_log, self.div_log = [], []
        return self.exp_log

    def note_div(self, x):
        """record division by a multiple of real exponentials"""
        mm = None
        for p in (x.re, x.im):
            for m in p.d:
                mm = m if mm is None else poly.mono_gcd(mm, m)
        if not mm:
            return
        ex = {self._idx(e): r for r, e in self.exp_cache}
        a = None
        for i, n in poly.mono_items(mm):
            if i in ex:
                t = ex[i] * n
                a = t if a is None else a + t
        if a is not None:
            self.div_log.append(a)

    def expr(self, r):
        """exp of a real: a positive variable per independent argument; integer
        combinations of arguments are products of powers; <1 / >1 facts"""
        k = self._lin(r, self.exp_cache)
        if k is not None:
            out = ONE
            for n, (_, e) in k:
                out = out * (e ** n)
            return out
        v = math.exp(min(700.0, complex(r.v).real))
        e = self.fresh("exp", v)
        c, rz = pz(e.re), r.z()
        self.assume_z(c > 0)
        self.assume_z(z3.Implies(rz <= 0, c <= 1))
        self.assume_z(z3.Implies(rz < 0, c < 1))
        self.assume_z(z3.Implies(rz > 0, c > 1))
        if self.exp_monotone:
            for r0, e0 in self.exp_cache:
                self.assume_z((pz(e0.re) < c) == (r0.z() < rz))
                self.assume_z((pz(e0.re) > c) == (r0.z() > rz))
        self.exp_cache.append((r, e))
        return e

    def power(self, b, p):
        """b**p for a non-half-integer or symbolic exponent: uninterpreted with
        the facts of the real power function on [0, inf)"""
        for (b0, p0, r) in [u[1:] for u in self.ufs if u[0] == "pow"]:
            if self.same(b0, b) and self.same(p0, p):
                return r
        if b.is_zero():
            return ZERO
        if self.same(b, ONE):
            return ONE
        if not b.is_real() or not p.is_real():
            raise Inconclusive("complex power")
        bz, pzz = b.z(), p.z()
        v = abs(complex(b.v).real) ** complex(p.v).real
        e = self.fresh("pow", v)
        c = pz(e.re)
        self.assume_z(z3.Implies(z3.And(bz == 0, pzz > 0), c == 0))
        self.assume_z(z3.Implies(bz == 1, c == 1))
        self.assume_z(z3.Implies(pzz == 1, c == bz))
        self.assume_z(z3.Implies(bz > 0, c > 0))
        self.assume_z(z3.Implies(z3.And(bz >= 0, bz <= 1, pzz > 0), z3.And(c >= 0, c <= 1)))
        self.assume_z(z3.Implies(z3.And(bz >= 0, bz <= 1, pzz >= 1), c <= bz))
        self.assume_z(z3.Implies(pzz == 0, c == 1))
        for u in self.ufs:
            if u[0] == "pow":
                b0, p0, r0 = u[1].z(), u[2].z(), pz(u[3].re)
                self.assume_z(z3.Implies(z3.And(b0 == bz, p0 == pzz), r0 == c))
                for x, y, rx, ry in ((b0, bz, r0, c), (bz, b0, c, r0)):
                    self.assume_z(z3.Implies(z3.And(x >= 0, x < y, p0 == pzz, pzz > 0), rx < ry))
        self.ufs.append(("pow", b, p, e))
        return e

    def ufun(self, name, a):
        for u in self.ufs:
            if u[0] == name and self.same(u[1], a):
                return u[2]
        if not a.is_real():
            raise Inconclusive(f"{name} of a complex number")
        if name != "tanh":
            raise Inconclusive(f"function {name}")
        if a.is_zero():
            return ZERO
        for u in self.ufs:
            if u[0] == name and self.same(-u[1], a):
                return -u[2]
        az = a.z()
        v = math.tanh(complex(a.v).real)
        e = self.fresh("tanh", v)
        c = pz(e.re)
        # odd, strictly increasing, bounded by 1 and by the identity
        self.assume_z(z3.And(c > -1, c < 1))
        self.assume_z(z3.Implies(az > 0, z3.And(c > 0, c < az)))
        self.assume_z(z3.Implies(az < 0, z3.And(c < 0, c > az)))
        self.assume_z(z3.Implies(az == 0, c == 0))
        for u in self.ufs:
            if u[0] == name:
                bz, d = u[1].z(), pz(u[2].re)
                self.assume_z(z3.And((az < bz) == (c < d), (az == bz) == (c == d)))
                self.assume_z(z3.And((az < -bz) == (c < -d), (az == -bz) == (c == -d)))
        self.ufs.append((name, a, e))
        return e

    # ---------------- obligations
    def prove(self, name, cond, timeout=None, kind="assert"):
        """cond must hold on every input of the current path"""
        cond = liftb(cond)
        self._prove_z(name, cond.z, timeout, kind)

    def prove_eq(self, name, a, b, timeout=None, tol=None):
        """a == b as exact numbers; shapes must agree (one may be a scalar)"""
        import numpy

        def arr(x):
            if isinstance(x, S):
                y = numpy.empty((), dtype=object)
                y[()] = x
                return y
            return numpy.asarray(x, dtype=object)

        A, B = arr(a), arr(b)
        if A.shape != B.shape:
            if A.shape == () or B.shape == ():
                A, B = numpy.broadcast_arrays(A, B)
            else:
                raise Violation(name, self.sample_inputs(), f"shape {A.shape} != {B.shape}")
        ident = []
        for idx in numpy.ndindex(A.shape):
            x, y = lift(A[idx]), lift(B[idx])
            d = x - y
            nm = f"{name}{list(idx) if idx else ''}"
            if d.is_zero():
                # equal normal forms; the solver still has the last word
                if x.den != y.den:
                    dd = den_lcm(x.den, y.den)
                    m1, m2 = den_quot(dd, x.den), den_quot(dd, y.den)
                    pr = [(x.re * m1, y.re * m2), (x.im * m1, y.im * m2)]
                else:
                    pr = [(x.re, y.re), (x.im, y.im)]
                for p, q in pr:
                    if len(p.d) <= 400:
                        ident.append((nm, pz(p.norm()) if p._z is None else pz(p), pz(q)))
                    else:
                        ident.append((nm, pz(p - q), pz(F0)))
                continue
            for p in (d.re, d.im):
                if p.d:
                    self._prove_z(nm, pz(p) == 0, timeout, "equality", size=len(p.d))
        if ident:
            self.stats.add("identity", len(ident))
            s = z3.Solver()
            s.add(z3.Or(*[p != q for _, p, q in ident]))
            r = self._check(s, 30)
            if r != z3.unsat:
                r, _ = self.full(z3.Or(*[p != q for _, p, q in ident]), timeout)
            if r != z3.unsat:
                raise Inconclusive(f"{name}: identity not confirmed by the solver")
            self.stats.proved += len(ident)
            self.sample(name, "equal normal forms, confirmed unsat (no hypotheses)")
        return A.size

    def sample(self, name, how):
        b = name.split("[")[0]
        if len(self.stats.samples) < 40 and not any(s["obligation"].split("[")[0] == b for s in self.stats.samples):
            self.stats.samples.append({"obligation": name, "decided_by": how, "path_decisions": len(self.trail)})

    def _prove_z(self, name, z, timeout, kind, size=1):
        self.stats.add(kind)
        if z3.is_true(z):
            z = z3.BoolVal(True)
        neg = z3.Not(z)
        if size <= 400:
            r, m = self.sat(neg, timeout)
            if r == z3.unsat:
                self.stats.proved += 1
                self.sample(name, "unsat")
                return
        # a counterexample at the sample point?
        r, m = self.pinned(neg)
        if r == z3.sat:
            raise Violation(name, self.model_inputs(m), "at the sample point")
        r, m = self.full(neg, timeout)
        if r == z3.unsat:
            self.stats.proved += 1
            self.sample(name, "unsat under all hypotheses")
            return
        if r == z3.sat:
            raise Violation(name, self.model_inputs(m))
        raise Inconclusive(f"{name}: solver unknown")

    def fail(self, name, detail=""):
        """the current path reached a state that must not be reachable"""
        r, m = self.full(z3.BoolVal(True), 30)
        if r == z3.unsat:
            raise Infeasible()
        raise Violation(name, self.model_inputs(m) if m is not None else self.sample_inputs(), detail)

    def model_inputs(self, m):
        """harness inputs from a solver model, as floats"""
        out = {}
        for name, x in self.inputs.items():
            if isinstance(x, tuple):
                c, s = mval(m, pz(x[1].re)), mval(m, pz(x[2].re))
                out[name] = math.degrees(math.atan2(s, c)) if c is not None and s is not None else x[3]
            elif isinstance(x, SB):
                out[name] = bool(z3.is_true(m.eval(x.z, model_completion=True)))
            else:
                t = mval(m, pz(x.re))
                out[name] = t if t is not None else complex(x.v).real
        return out

    def sample_inputs(self):
        out = {}
        for name, x in self.inputs.items():
            if isinstance(x, tuple):
                out[name] = x[3]
            elif isinstance(x, SB):
                out[name] = x.v
            else:
                out[name] = complex(x.v).real
        return out

    def witness(self):
        """vacuity guard: the hypotheses of the path must be satisfiable (a final
        assert(false) must come back violated)"""
        if self.lazy and self.stats.witness:
            return None
        r, m = self.pinned(z3.BoolVal(True), timeout=5)
        if r != z3.sat:
            r, m = self.full(z3.BoolVal(True), 2 if self.stats.witness else 20)
        if r == z3.unknown and not self.stats.witness:
            r, m = self.sat(z3.BoolVal(True), 10)
        if r == z3.unsat:
            raise Infeasible()
        if r == z3.sat:
            self.stats.witness += 1
        return r

    def observe(self, name, x):
        """a value whose sample-point evaluation is compared with the real code"""
        self.observed[name] = x


def mval(m, c):
    v = m.eval(c, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None
