"""A numpy-compatible backend whose numbers are symbolic (core.S).

Everything not listed here is numpy itself, working on object arrays: numpy
does the indexing, stacking, broadcasting and matrix products, and the elements
do exact symbolic arithmetic.  The functions below are those that numpy
implements natively on machine numbers (linear algebra, FFT, sorting, ...);
each is replaced by its mathematical definition.
"""
import functools
import math
import operator
import sys
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import IMAG, ONE, S, SB, ZERO, Inconclusive, ite, lift, liftb


IMMUTABLE = False  # arrays of the jax library do not support assignment


class _At:
    """x.at[i].set(v) of jax: a changed copy"""

    def __init__(self, a, i=None):
        self.a, self.i = a, i

    def __getitem__(self, i):
        return _At(self.a, i)

    def set(self, v):
        r = base(self.a).copy()
        if r.dtype != object and is_sym(v):
            r = r.astype(object)
        r[self.i] = base(v)
        return wrap(r)


class SymArray(np.ndarray):
    """ndarray whose object elements are symbolic numbers"""

    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        pass

    @property
    def at(self):
        if not IMMUTABLE:
            raise AttributeError("'numpy.ndarray' object has no attribute 'at'")
        return _At(self)

    def __setitem__(self, i, v):
        if IMMUTABLE and str(sys._getframe(1).f_globals.get("__name__")).split(".")[0] == "nannos":
            raise TypeError("JAX arrays are immutable and do not support in-place item assignment.")
        np.ndarray.__setitem__(self, i, v)

    @property
    def real(self):
        if self.dtype == object:
            return wrap(_vec(lambda x: lift(x).real)(self))
        return wrap(np.asarray(self).real)

    @property
    def imag(self):
        if self.dtype == object:
            return wrap(_vec(lambda x: lift(x).imag)(self))
        return wrap(np.asarray(self).imag)

    def conj(self):
        return conj(self)

    conjugate = conj

    def item(self, *a):
        x = np.ndarray.item(self, *a)
        return x

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(np.ndarray.item(self))

    def __float__(self):
        return float(np.ndarray.item(self))

    def __complex__(self):
        return complex(np.ndarray.item(self))

    def __int__(self):
        return int(np.ndarray.item(self))

    def __format__(self, spec):
        if self.shape == ():
            return format(np.ndarray.item(self), spec if self.dtype != object else "")
        return super().__format__(spec)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [base(x) for x in inputs]
        obj = any(isinstance(x, (S, SB)) or (isinstance(x, np.ndarray) and x.dtype == object) for x in ins)
        if obj and ufunc.__name__ in UFUNCS and method == "__call__":
            r = UFUNCS[ufunc.__name__](*ins)
            if out is not None:
                out[0][...] = r
                return out[0]
            return wrap(r)
        if obj and ufunc.__name__ in CMP and method == "__call__":
            return wrap(_vec2(CMP[ufunc.__name__])(ins[0], ins[1]))
        if obj and ufunc.__name__ in ("maximum", "minimum") and method in ("reduce", "__call__"):
            f = smax if ufunc.__name__ == "maximum" else smin
            if method == "__call__":
                return wrap(_vec2(f)(ins[0], ins[1]))
            return wrap(_reduce(f, ins[0], kw.get("axis", 0), kw.get("keepdims", False)))
        if obj and ufunc.__name__ in ("logical_and", "logical_or") and method == "reduce":
            f = operator.and_ if ufunc.__name__ == "logical_and" else operator.or_
            return wrap(_reduce(lambda a, b: f(liftb(a), liftb(b)), ins[0], kw.get("axis", 0), kw.get("keepdims", False)))
        if out is not None:
            kw["out"] = tuple(base(o) if o is not None else None for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func.__name__) if getattr(func, "__module__", "").startswith("numpy") else None
        key = f"{func.__module__}.{func.__name__}"
        if key in QFUNCS:
            h = QFUNCS[key]
        if h is not None:
            return wrap(h(*args, **kwargs))
        return wrap(func(*deep(args), **{k: deep(v) for k, v in kwargs.items()}))

    # ndarray methods that numpy implements on machine numbers
    def max(self, axis=None, **k):
        return np.max(self, axis=axis)

    def min(self, axis=None, **k):
        return np.min(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis=axis)

    def astype(self, dtype, **k):
        if self.dtype == object and _is_num_dtype(dtype):
            if np.dtype(dtype).kind in "iub":
                return wrap(np.array([int(x) for x in self.ravel()], dtype=dtype).reshape(self.shape))
            return wrap(self.copy())
        return wrap(np.ndarray.astype(base(self), dtype, **k))

    def round(self, decimals=0, **k):
        return around(self, decimals)

    # torch-flavoured spellings, used in the torch branches of the sources
    def to(self, *a, **k):
        return self

    def double(self):
        return self

    def detach(self):
        return self

    def cpu(self):
        return self

    def clone(self):
        return self.copy()

    def requires_grad_(self, *a):
        return self

    def numpy(self):
        return self


def base(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def deep(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(deep(y) for y in x)
    if isinstance(x, list):
        return [deep(y) for y in x]
    return x


def wrap(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return x.view(SymArray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    if isinstance(x, (np.floating, np.complexfloating)):
        return lift(x)
    return x


def _vec(f):
    def g(a):
        a = np.asarray(base(a))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i])
        return out if a.shape != () else _zd(out)

    return g


def _zd(out):
    return out


def _vec2(f):
    def g(a, b):
        a, b = np.broadcast_arrays(oarr(a), oarr(b))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out[()] if a.shape == () else out

    return g


def oarr(x):
    """object ndarray of x without converting symbolic scalars"""
    if isinstance(x, np.ndarray):
        return base(x)
    if isinstance(x, (S, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.asarray(x)


def _reduce(f, a, axis, keepdims=False):
    a = base(a)
    if axis is None:
        a = a.reshape(-1)
        r = functools.reduce(f, list(a))
        return r
    if isinstance(axis, tuple):
        axis = sorted(ax % a.ndim for ax in axis)
        for k in reversed(axis):
            a = _reduce(f, a, k)
        return a
    a = np.moveaxis(a, axis, 0)
    out = np.empty(a.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = functools.reduce(f, [a[(k,) + i] for k in range(a.shape[0])])
    if keepdims:
        out = np.expand_dims(out, axis)
    return out[()] if out.shape == () else out


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b) if core.CTX.merge_where else (a if bool(a >= b) else b)


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b) if core.CTX.merge_where else (a if bool(a <= b) else b)


def _abs(x):
    x = lift(x)
    if core.CTX.merge_where and x.is_real():
        r = ite(x >= 0, x, -x)
        v = r.re.vars()
        ring = core.CTX.ring
        if len(v) == 1 and v[0] not in ring.rules and r.re.eq(ring.var(v[0])) and v[0] not in x.re.vars() and len(x.re.d) <= 60:
            # its square is known without the sign
            ring.rule(v[0], x.re * x.re)
        return r
    return abs(x)


def _lc(op):
    def f(a, b):
        return op(lift(a) if not isinstance(a, SB) else a, lift(b) if not isinstance(b, SB) else b)

    return f


CMP = {
    "less": _lc(operator.lt),
    "less_equal": _lc(operator.le),
    "greater": _lc(operator.gt),
    "greater_equal": _lc(operator.ge),
    "equal": _lc(operator.eq),
    "not_equal": _lc(operator.ne),
    "logical_and": lambda a, b: liftb(a) & liftb(b),
    "logical_or": lambda a, b: liftb(a) | liftb(b),
    "logical_xor": lambda a, b: liftb(a) ^ liftb(b),
}


def _arctan2(y, x):
    """angle whose cos/sin are x/r, y/r"""
    y, x = lift(y), lift(x)
    ctx = core.CTX
    for yy, xx, a in ctx.__dict__.setdefault("_atan", []):
        if ctx.same(yy, y) and ctx.same(xx, x):
            return a
    v = math.atan2(complex(y.v).real, complex(x.v).real)
    a = ctx.fresh("atan2", v)
    r = (x * x + y * y).sqrt()
    # r == 0 is excluded (angle undefined); callers assume it
    ctx.ang.append((a, x / r, y / r))
    ctx._atan.append((y, x, a))
    return a


def _isfinite(x):
    return True


UFUNCS = {
    "absolute": _vec(_abs),
    "fabs": _vec(_abs),
    "sqrt": _vec(lambda x: lift(x).sqrt()),
    "exp": _vec(lambda x: lift(x).exp()),
    "cos": _vec(lambda x: lift(x).cos()),
    "sin": _vec(lambda x: lift(x).sin()),
    "tan": _vec(lambda x: lift(x).tan()),
    "tanh": _vec(lambda x: lift(x).tanh()),
    "log2": _vec(lambda x: lift(x).log2()),
    "log": _vec(lambda x: lift(x).log()),
    "ceil": _vec(lambda x: -core.floor_of(-lift(x))),
    "floor": _vec(lambda x: core.floor_of(lift(x))),
    "trunc": _vec(lambda x: lift(int(lift(x)))),
    "rint": _vec(lambda x: lift(x).rint()),
    "conjugate": _vec(lambda x: lift(x).conjugate()),
    "square": _vec(lambda x: lift(x) * lift(x)),
    "reciprocal": _vec(lambda x: ONE / lift(x)),
    "negative": _vec(lambda x: -lift(x)),
    "positive": _vec(lambda x: lift(x)),
    "deg2rad": _vec(lambda x: lift(x) * core.frac(math.pi / 180)),
    "radians": _vec(lambda x: lift(x) * core.frac(math.pi / 180)),
    "logical_not": _vec(lambda x: ~liftb(x)),
    "invert": _vec(lambda x: ~liftb(x)),
    "isnan": _vec(lambda x: False),
    "isinf": _vec(lambda x: False),
    "isfinite": _vec(lambda x: True),
    "arctan2": _vec2(_arctan2),
    "hypot": _vec2(lambda a, b: (lift(a) * lift(a) + lift(b) * lift(b)).sqrt()),
    "sign": _vec(lambda x: ite(lift(x) > 0, ONE, ite(lift(x) < 0, -ONE, ZERO))),
}


def conj(x):
    if isinstance(x, S):
        return x.conjugate()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return wrap(_vec(lambda y: lift(y).conjugate())(x))
    return wrap(np.conj(base(x)))


def is_sym(x):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def _is_num_dtype(d):
    try:
        return np.dtype(d).kind in "fciu"
    except TypeError:
        return False


def _is_float_dtype(d):
    if d is None:
        return False
    if d in (float, complex):
        return True
    try:
        return np.dtype(d).kind in "fc"
    except TypeError:
        return False


def exact(a):
    """numeric array -> object array of exact numbers"""
    a = np.asarray(base(a))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = lift(a[i])
    return wrap(out)


def _objectify(x):
    if isinstance(x, np.ndarray):
        return base(x)
    if isinstance(x, (list, tuple)):
        xs = [_objectify(y) for y in x]
        if any(isinstance(y, np.ndarray) for y in xs):
            return np.stack([np.asarray(y, dtype=object) if not isinstance(y, np.ndarray) else y for y in xs])
        if any(isinstance(y, (S, SB)) for y in xs) or xs:
            out = np.empty(len(xs), dtype=object)
            for i, y in enumerate(xs):
                out[i] = y
            return out
        return np.asarray(xs)
    if isinstance(x, (S, SB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def array(x, dtype=None, copy=True, **kw):
    if is_sym(x):
        a = _objectify(x)
        if dtype is not None and not isinstance(dtype, type(None)):
            try:
                kind = np.dtype(dtype).kind
            except TypeError:
                kind = "O"
            if kind in "iub":
                return wrap(np.array([int(v) for v in a.ravel()], dtype=dtype).reshape(a.shape))
            if kind == "f":
                # numpy discards the imaginary part (ComplexWarning)
                return wrap(_vec(lambda v: v if isinstance(v, SB) else lift(v).real)(a))
        return wrap(a.copy())
    a = np.array(deep(x), dtype=dtype if not _is_float_dtype(dtype) else dtype)
    if a.dtype.kind in "fc":
        return exact(a)
    return wrap(a)


def asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and (dtype is None or _is_float_dtype(dtype)):
        return x
    return array(x, dtype=dtype)


def _filled(shape, v):
    out = np.empty(shape, dtype=object)
    out[...] = v
    if out.shape == ():
        out[()] = v
    return wrap(out)


def _creator(val):
    def f(shape, dtype=float, **kw):
        if dtype is None or _is_float_dtype(dtype):
            return _filled(shape, val)
        return wrap(np.full(shape, 1 if val is ONE else 0, dtype=dtype))

    return f


zeros, ones, empty = _creator(ZERO), _creator(ONE), _creator(ZERO)


def full(shape, fill_value, dtype=None, **kw):
    if isinstance(fill_value, (bool, int, np.integer, np.bool_)) and dtype is None or (dtype is not None and not _is_float_dtype(dtype)):
        return wrap(np.full(shape, fill_value, dtype=dtype))
    return _filled(shape, lift(fill_value))


def zeros_like(a, dtype=None, **kw):
    if dtype is None and isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return wrap(np.zeros(a.shape, dtype=a.dtype))
    return zeros(np.shape(base(a)), dtype=float if dtype is None else dtype)


def ones_like(a, dtype=None, **kw):
    if dtype is None and isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return wrap(np.ones(a.shape, dtype=a.dtype))
    return ones(np.shape(base(a)), dtype=float if dtype is None else dtype)


def full_like(a, v, dtype=None, **kw):
    return full(np.shape(base(a)), v, dtype=dtype)


def eye(n, m=None, k=0, dtype=float, **kw):
    e = np.eye(int(n), None if m is None else int(m), k)
    return exact(e) if _is_float_dtype(dtype) else wrap(e.astype(dtype))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def linspace(a, b, num=50, endpoint=True, **kw):
    num = int(num)
    a, b = lift(a), lift(b)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a + (b - a) * Fraction(i, div) if div else a
    return wrap(out)


def arange(*a, dtype=None, **kw):
    a = [x if not isinstance(x, (S, SymArray)) else _num(x) for x in a]
    r = np.arange(*a, dtype=dtype)
    return exact(r) if r.dtype.kind == "f" else wrap(r)


def _num(x):
    x = x.item() if isinstance(x, SymArray) else x
    if isinstance(x, S):
        if x.is_const() and x.re.const().denominator != 1:
            return float(x.re.const())
        return int(x)
    return x


def real(x):
    if isinstance(x, np.ndarray):
        return wrap(x).real
    return lift(x).real


def imag(x):
    if isinstance(x, np.ndarray):
        return wrap(x).imag
    return lift(x).imag


def where(c, *ab):
    if not ab:
        c = base(c)
        if isinstance(c, np.ndarray) and c.dtype == object:
            c = np.vectorize(bool, otypes=[bool])(c)
        return wrap(np.where(c))
    c, a, b = (oarr(v) if not isinstance(v, (list, tuple)) else base(array(v)) for v in (c,) + ab)
    if c.dtype != object and a.dtype != object and b.dtype != object:
        return wrap(np.where(c, a, b))
    c, a, b = np.broadcast_arrays(c, a, b)
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        ci = liftb(c[i])
        if core.CTX.merge_where:
            out[i] = ite(ci, a[i], b[i])
        else:
            out[i] = a[i] if bool(ci) else b[i]
    return wrap(out)


def _cmp_key(a, b):
    """-1/0/1 comparison, forking"""
    if bool(lift(a) < lift(b)):
        return -1
    return 1 if bool(lift(b) < lift(a)) else 0


def argsort(a, axis=-1, **kw):
    a = base(a)
    if a.dtype != object:
        return wrap(np.argsort(a, axis=axis, kind="stable"))
    if a.ndim != 1:
        raise Inconclusive("argsort of a symbolic matrix")
    return wrap(np.array(_sorted_idx(list(a)), dtype=int))


def _sorted_idx(xs):
    """argsort, forking on each undecided comparison (ties in any order is the
    contract): insertion sort started from the order at the sample point"""
    xs = [lift(x) for x in xs]
    idx = sorted(range(len(xs)), key=lambda i: (float("%.10g" % complex(xs[i].v).real), i))
    for a in range(1, len(idx)):
        b = a
        while b > 0 and bool(xs[idx[b]] < xs[idx[b - 1]]):
            idx[b], idx[b - 1] = idx[b - 1], idx[b]
            b -= 1
    return idx


def sort(a, axis=-1, **kw):
    a = array(a) if not isinstance(a, np.ndarray) else a
    if base(a).dtype != object:
        return wrap(np.sort(base(a), axis=axis))
    return a[argsort(a)]


def unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = base(array(a) if not isinstance(a, np.ndarray) else a).ravel()
    if a.dtype != object:
        return wrap(np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts))
    xs = list(a)
    out, idx = [], []
    for i in _sorted_idx(xs):
        if out and _cmp_key(out[-1], xs[i]) == 0:
            continue
        out.append(xs[i])
        idx.append(i)
    r = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        r[i] = x
    if return_inverse or return_counts:
        raise Inconclusive("unique(return_inverse)")
    return (wrap(r), wrap(np.array(idx, dtype=int))) if return_index else wrap(r)


def amax(a, axis=None, **kw):
    a = array(a) if not isinstance(a, np.ndarray) else a
    if base(a).dtype != object:
        return wrap(np.max(base(a), axis=axis))
    return wrap(_reduce(smax, a, axis))


def amin(a, axis=None, **kw):
    a = array(a) if not isinstance(a, np.ndarray) else a
    if base(a).dtype != object:
        return wrap(np.min(base(a), axis=axis))
    return wrap(_reduce(smin, a, axis))


def _arg_ext(op):
    def f(a, axis=None, **kw):
        a = base(array(a) if not isinstance(a, np.ndarray) else a).ravel()
        k = 0
        for i in range(1, len(a)):
            if bool(op(lift(a[i]), lift(a[k]))):
                k = i
        return k

    return f


def all_(a, axis=None, **kw):
    a = array(a) if not isinstance(a, np.ndarray) else a
    if base(a).dtype != object:
        return np.all(base(a), axis=axis)
    return wrap(_reduce(lambda x, y: liftb(x) & liftb(y), a, axis))


def any_(a, axis=None, **kw):
    a = array(a) if not isinstance(a, np.ndarray) else a
    if base(a).dtype != object:
        return np.any(base(a), axis=axis)
    return wrap(_reduce(lambda x, y: liftb(x) | liftb(y), a, axis))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    def f(x, y):
        x, y = lift(x), lift(y)
        return liftb(abs(x - y) <= lift(atol) + lift(rtol) * abs(y))

    return wrap(_vec2(f)(a, b))


def allclose(a, b, **kw):
    return all_(array(isclose(a, b, **kw)))


def around(a, decimals=0, **kw):
    k = 10 ** int(decimals)
    return wrap(_vec(lambda x: (lift(x) * k).rint() * Fraction(1, k) if decimals >= 0 else lift(x))(oarr(a)))


def diag(a, k=0):
    a = base(array(a) if not isinstance(a, np.ndarray) else a)
    if a.ndim == 1:
        n = len(a) + abs(k)
        out = np.empty((n, n), dtype=object) if a.dtype == object else np.zeros((n, n), dtype=a.dtype)
        if a.dtype == object:
            out[...] = ZERO
        for i, x in enumerate(a):
            out[i + max(0, -k), i + max(0, k)] = x
        return wrap(out)
    return wrap(np.diag(a, k))


def einsum(sub, *ops, **kw):
    ops = [base(array(o) if not isinstance(o, np.ndarray) else o) for o in ops]
    if not any(o.dtype == object for o in ops):
        return wrap(np.einsum(sub, *ops))
    sub = sub.replace(" ", "")
    ins, _, out = sub.partition("->")
    ins = ins.split(",")
    if "->" not in sub:
        cnt = "".join(ins)
        out = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    if "..." in sub:
        raise Inconclusive("einsum ellipsis")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(res.shape):
        env = dict(zip(out, oi))
        acc = ZERO
        for si in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, si))
            p = ONE
            for s, o in zip(ins, ops):
                p = p * o[tuple(env[c] for c in s)]
                if isinstance(p, S) and p.is_zero():
                    break
            acc = acc + p
        res[oi] = acc
    return wrap(res) if res.shape != () else res[()]


def matmul(a, b, **kw):
    a = base(array(a) if not isinstance(a, np.ndarray) else a)
    b = base(array(b) if not isinstance(b, np.ndarray) else b)
    if a.dtype != object and b.dtype != object:
        return wrap(a @ b)
    if a.ndim > 2 or b.ndim > 2:
        return wrap(np.matmul(a.astype(object), b.astype(object)))
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError(f"matmul: mismatch {a.shape} {b.shape}")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            acc = ZERO
            for k in range(A.shape[1]):
                x = lift(A[i, k])
                if x.is_zero():
                    continue
                y = lift(B[k, j])
                if y.is_zero():
                    continue
                acc = acc + x * y
            out[i, j] = acc
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        return wrap(out[0])
    if b.ndim == 1:
        return wrap(out[:, 0])
    return wrap(out)


UFUNCS["matmul"] = lambda a, b: matmul(a, b)


def dot(a, b, **kw):
    if np.ndim(base(a) if isinstance(a, np.ndarray) else array(a)) == 0 or np.ndim(base(b) if isinstance(b, np.ndarray) else array(b)) == 0:
        return wrap(array(a) * array(b))
    return matmul(a, b)


def cross(a, b, **kw):
    a, b = [list(base(array(v))) for v in (a, b)]
    if len(a) == 2 and len(b) == 2:
        return wrap(oarr(lift(a[0]) * b[1] - lift(a[1]) * b[0]))
    if len(a) == 2:
        a = a + [ZERO]
    if len(b) == 2:
        b = b + [ZERO]
    return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def gradient(a, *h, axis=None, **kw):
    a = base(a)
    if a.dtype != object:
        return wrap(np.gradient(a, *h, axis=axis))
    if h:
        raise Inconclusive("gradient spacing")

    def one(k):
        m = np.moveaxis(a, k, 0)
        n = m.shape[0]
        out = np.empty(m.shape, dtype=object)
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            out[i] = (m[hi] - m[lo]) * Fraction(1, hi - lo)
        return wrap(np.moveaxis(out, 0, k))

    axes = range(a.ndim) if axis is None else ([axis] if not isinstance(axis, tuple) else axis)
    r = [one(k) for k in axes]
    return r[0] if len(r) == 1 else r


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = base(array(y))
    if x is None:
        t = ZERO
        for i in range(len(y) - 1):
            t = t + (lift(y[i]) + y[i + 1]) * Fraction(1, 2) * lift(dx)
        return t
    raise Inconclusive("trapezoid with x")


def angle(x, deg=False):
    return _arctan2(lift(x).imag, lift(x).real)


def nan_to_num(x, **k):
    return x


def iscomplexobj(x):
    return True


def mean(a, axis=None, **kw):
    a = wrap(array(a) if not isinstance(a, np.ndarray) else a)
    n = a.size if axis is None else (a.shape[axis] if isinstance(axis, int) else int(np.prod([a.shape[k] for k in axis])))
    return np.sum(a, axis=axis) * Fraction(1, n)


# --------------------------------------------------------------------------
# FFT: the defining sum.  Sizes 1-4, 6, 8, 12 have exact twiddles; others use the
# exact rationals of the double-precision twiddles (results then agree with the
# real transform up to 1e-15 relative; harnesses that need identities use exact ones)
# --------------------------------------------------------------------------


def twiddle(n, k, sign):
    k %= n
    if (24 * k) % n == 0 and ((24 * k) // n) % 2 == 0 or (8 * k) % n == 0:
        # multiples of 30 or 45 degrees
        d = 360 * k // n
        h = Fraction(1, 2)

        def c(d):
            d %= 360
            d = min(d, 360 - d)
            if d > 90:
                return -c(180 - d)
            if d % 30:
                return lift(2).sqrt() * h
            return {0: lift(1), 30: lift(3).sqrt() * h if d == 30 else None, 60: lift(h), 90: lift(0)}[d]

        return c(d) + IMAG * sign * c(d - 90)
    a = 2 * math.pi * k / n
    return lift(complex(math.cos(a), sign * math.sin(a)))


def _dft(a, axis, sign, n=None):
    a = np.moveaxis(base(a), axis, 0)
    m = a.shape[0]
    n = m if n is None else int(n)
    out = np.empty((n,) + a.shape[1:], dtype=object)
    for i in np.ndindex(a.shape[1:]):
        col = [lift(a[(k,) + i]) if k < m else ZERO for k in range(n)]
        for q in range(n):
            acc = ZERO
            for k in range(n):
                if not col[k].is_zero():
                    acc = acc + col[k] * twiddle(n, q * k, sign)
            if sign == 1:
                acc = acc * Fraction(1, n)
            out[(q,) + i] = acc
    return np.moveaxis(out, 0, axis)


def _fftn(sign):
    def f(a, s=None, axes=None, norm=None, dim=None, shape=None, **kw):
        if norm not in (None, "backward"):
            raise Inconclusive("fft norm")
        a = array(a) if not isinstance(a, np.ndarray) else a
        s = shape if s is None else s
        axes = dim if axes is None else axes
        if axes is None:
            axes = (-2, -1)
        if isinstance(axes, int):
            axes = (axes,)
        r = base(a)
        if core.CTX.fft_stub is not None:
            shape_ = list(r.shape)
            for k, ax in enumerate(axes):
                if s is not None:
                    shape_[ax] = s[k]
            return wrap(core.CTX.fft_stub(r, sign, tuple(shape_)))
        for k, ax in enumerate(axes):
            r = _dft(r, ax, sign, None if s is None else s[k])
        return wrap(r)

    return f


def _fft1(sign):
    def f(a, n=None, axis=-1, norm=None, **kw):
        if norm not in (None, "backward"):
            raise Inconclusive("fft norm")
        a = array(a) if not isinstance(a, np.ndarray) else a
        return wrap(_dft(a, axis, sign, n))

    return f


fft = types.SimpleNamespace(
    fft2=_fftn(-1),
    ifft2=_fftn(1),
    fftn=_fftn(-1),
    ifftn=_fftn(1),
    fft=_fft1(-1),
    ifft=_fft1(1),
    fftshift=lambda a, axes=None, **k: wrap(np.fft.fftshift(base(a), axes=axes)),
    ifftshift=lambda a, axes=None, **k: wrap(np.fft.ifftshift(base(a), axes=axes)),
    fftfreq=lambda n, d=1.0: wrap(oarr([lift(Fraction(k if k < (n + 1) // 2 else k - n, n)) / d for k in range(n)])),
)

# --------------------------------------------------------------------------
# linear algebra
# --------------------------------------------------------------------------


def _complexity(x):
    if x.is_const():
        return 0
    return len(x.re.d) + len(x.im.d) + 3 * len(x.den)


def lu_solve(A, B):
    """exact A^-1 B by elimination with structurally simple nonzero pivots"""
    A = [[lift(x) for x in r] for r in A]
    B = [[lift(x) for x in r] for r in B]
    n, m = len(A), len(B[0]) if B else 0
    rows, cols = list(range(n)), list(range(n))
    piv = []
    X = [[ZERO] * m for _ in range(n)]
    done = []
    for step in range(n):
        if len(rows) == 2 and not any(A[i][j].is_zero() for i in rows for j in cols):
            # a full 2x2 block: by its determinant
            (i0, i1), (j0, j1) = rows, cols
            a, b, c, d = A[i0][j0], A[i0][j1], A[i1][j0], A[i1][j1]
            dt = a * d - b * c
            if dt.is_zero():
                raise np.linalg.LinAlgError("Singular matrix")
            dt = ONE / dt
            for l in range(m):
                X[j0][l] = (d * B[i0][l] - b * B[i1][l]) * dt
                X[j1][l] = (a * B[i1][l] - c * B[i0][l]) * dt
            done += [j0, j1]
            break
        best = None
        for i in rows:
            nzr = sum(1 for j in cols if not A[i][j].is_zero())
            for j in cols:
                x = A[i][j]
                if x.is_zero():
                    continue
                if abs(x.v) < 1e-10:
                    # numerically 0 at the sample: only usable when the solver
                    # says that it is not identically 0; avoid when possible
                    pen = 100
                else:
                    pen = 0
                nzc = sum(1 for k in rows if not A[k][j].is_zero())
                c = (pen, (nzr - 1) * (nzc - 1), _complexity(x), i != j)
                if best is None or c < best[0]:
                    best = (c, i, j)
        if best is None:
            raise np.linalg.LinAlgError("Singular matrix")
        _, i, j = best
        rows.remove(i)
        cols.remove(j)
        piv.append((i, j))
        p = A[i][j]
        for k in rows:
            if A[k][j].is_zero():
                continue
            f = A[k][j] / p
            A[k][j] = ZERO
            for l in cols:
                if not A[i][l].is_zero():
                    A[k][l] = A[k][l] - f * A[i][l]
            for l in range(m):
                if not B[i][l].is_zero():
                    B[k][l] = B[k][l] - f * B[i][l]
    for i, j in reversed(piv):
        for l in range(m):
            acc = B[i][l]
            for jj in done:
                if not A[i][jj].is_zero() and not X[jj][l].is_zero():
                    acc = acc - A[i][jj] * X[jj][l]
            X[j][l] = acc / A[i][j] if not acc.is_zero() else ZERO
        done.append(j)
    return X


def solve(A, B, **kw):
    A = base(array(A) if not isinstance(A, np.ndarray) else A)
    B = base(array(B) if not isinstance(B, np.ndarray) else B)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    vec = B.ndim == 1
    if B.shape[0] != A.shape[0]:
        raise ValueError("solve: shape mismatch")
    X = lu_solve(A.tolist(), B.reshape(B.shape[0], -1).tolist())
    out = np.empty((len(X), len(X[0])), dtype=object)
    for i, r in enumerate(X):
        for j, x in enumerate(r):
            out[i, j] = x
    return wrap(out[:, 0] if vec else out)


def inv(A, **kw):
    A = base(array(A) if not isinstance(A, np.ndarray) else A)
    return solve(A, eye(A.shape[0]))


def det(A):
    A = base(array(A))
    n = A.shape[0]
    if n == 1:
        return lift(A[0, 0])
    r = ZERO
    for j in range(n):
        x = lift(A[0, j])
        if x.is_zero():
            continue
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        r = r + x * det(minor) * (-1) ** j
    return r


def norm(x, ord=None, axis=None, **kw):
    x = base(array(x) if not isinstance(x, np.ndarray) else x)
    if ord not in (None, 2, "fro"):
        raise Inconclusive("norm order")

    def one(v):
        acc = ZERO
        for y in v:
            acc = acc + lift(y).abs2()
        return acc.sqrt()

    if axis is None:
        return one(list(x.ravel()))
    m = np.moveaxis(x, axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = one([m[(k,) + i] for k in range(m.shape[0])])
    return wrap(out)


def eig(A):
    """nondeterministic eigendecomposition: supplied by the harness as a
    contract stub (ctx.eig), default: refuse"""
    f = getattr(core.CTX, "eig_stub", None)
    if f is None:
        raise Inconclusive("eigendecomposition without a stub")
    return f(wrap(base(A)))


linalg = types.SimpleNamespace(
    solve=solve,
    inv=inv,
    pinv=inv,
    det=det,
    norm=norm,
    eig=eig,
    eigvals=lambda A: eig(A)[0],
    LinAlgError=np.linalg.LinAlgError,
)

FUNCS = dict(
    array=array,
    where=where,
    argsort=argsort,
    sort=sort,
    unique=unique,
    max=amax,
    amax=amax,
    min=amin,
    amin=amin,
    all=all_,
    any=any_,
    isclose=isclose,
    allclose=allclose,
    around=around,
    round=around,
    diag=diag,
    einsum=einsum,
    dot=dot,
    cross=cross,
    gradient=gradient,
    trapezoid=trapezoid,
    trapz=trapezoid,
    real=real,
    imag=imag,
    zeros_like=zeros_like,
    ones_like=ones_like,
    full_like=full_like,
    linspace=linspace,
    angle=angle,
    nan_to_num=nan_to_num,
    iscomplexobj=iscomplexobj,
    mean=mean,
    argmax=_arg_ext(operator.gt),
    argmin=_arg_ext(operator.lt),
)
QFUNCS = {
    "numpy.linalg.solve": solve,
    "numpy.linalg.inv": inv,
    "numpy.linalg.det": det,
    "numpy.linalg.norm": norm,
    "numpy.linalg.eig": eig,
    "numpy.fft.fft2": fft.fft2,
    "numpy.fft.ifft2": fft.ifft2,
    "numpy.fft.fftn": fft.fftn,
    "numpy.fft.ifftn": fft.ifftn,
    "numpy.fft.fft": fft.fft,
    "numpy.fft.ifft": fft.ifft,
    "numpy.fft.fftshift": fft.fftshift,
    "numpy.fft.ifftshift": fft.ifftshift,
}


def _tensordot(a, b, axes=None, dims=None):
    axes = dims if axes is None else axes
    if isinstance(axes, int):
        axes = (list(range(-axes, 0)), list(range(axes)))
    a = base(array(a) if not isinstance(a, np.ndarray) else a).astype(object)
    b = base(array(b) if not isinstance(b, np.ndarray) else b).astype(object)
    ax, bx = [[v] if isinstance(v, int) else list(v) for v in axes]
    a = np.moveaxis(a, ax, range(-len(ax), 0))
    b = np.moveaxis(b, bx, range(len(bx)))
    n = int(np.prod(a.shape[a.ndim - len(ax):]))
    sa, sb = a.shape[: a.ndim - len(ax)], b.shape[len(bx):]
    return wrap(base(matmul(a.reshape(-1, n), b.reshape(n, -1))).reshape(sa + sb))


FUNCS["tensordot"] = _tensordot
FUNCS["matmul"] = matmul


class Shim(types.ModuleType):
    """the backend module handed to the sources"""

    def __init__(self, name="numpy", extra=None):
        super().__init__(name)
        self.__dict__.update(
            zeros=zeros,
            ones=ones,
            empty=empty,
            full=full,
            eye=eye,
            identity=identity,
            arange=arange,
            asarray=asarray,
            conj=conj,
            conjugate=conj,
            linalg=linalg,
            fft=fft,
            matmul=matmul,
            tensordot=_tensordot,
            ndarray=np.ndarray,
            pi=math.pi,
            abs=_scalarize(lambda x: UFUNCS["absolute"](x)),
            int32=_int32,
            finfo=_finfo,
            **{k: v for k, v in FUNCS.items() if k not in ("matmul", "tensordot")},
        )
        for k in ("sqrt", "exp", "cos", "sin", "tan", "tanh", "log2", "log", "ceil", "floor", "arctan2", "square", "absolute"):
            self.__dict__[k] = _scalarize(UFUNCS[k])
        if extra:
            self.__dict__.update(extra)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        f = getattr(np, k)
        if isinstance(f, (type, types.ModuleType)) or not callable(f):
            return f

        @functools.wraps(f)
        def g(*a, **kw):
            kw = {n: v for n, v in kw.items() if not (n == "dtype" and _is_float_dtype(v))}
            if isinstance(f, np.ufunc):
                a = [array(x) if isinstance(x, (list, tuple)) else x for x in a]
                a = [wrap(oarr(x)) if is_sym(x) else x for x in a]
                return _unz(f(*a, **kw))
            return wrap(f(*[_arrs(x) for x in a], **kw))

        return g


def _finfo(d):
    """machine epsilon: its exact value, or 0 in harnesses that say so"""
    f = np.finfo(d)
    if getattr(core.CTX, "zero_eps", False):
        return types.SimpleNamespace(eps=0, tiny=0, max=f.max, min=f.min)
    return f


def _arrs(x):
    if isinstance(x, (list, tuple)) and any(isinstance(y, np.ndarray) or is_sym(y) for y in x):
        return type(x)(oarr(y) if isinstance(y, (S, SB)) else _arrs(y) for y in x)
    return base(x)


def _unz(r):
    return r[()] if isinstance(r, np.ndarray) and r.shape == () else r


def _scalarize(f):
    def g(*a, **kw):
        a = [oarr(x) if not isinstance(x, (list, tuple)) else base(array(x)) for x in a]
        scal = all(x.shape == () for x in a)
        r = f(*[x if x.dtype == object else base(exact(x)) for x in a])
        if scal:
            return r[()] if isinstance(r, np.ndarray) else r
        return wrap(r)

    return g


class _int32(int):
    """numpy.int32: used by the sources as a conversion function"""

    def __new__(cls, x=0):
        x = x.item() if isinstance(x, np.ndarray) else x
        return int(x)
