"""Tangent and Jones fields."""
from contextlib import contextmanager

from symnn.run import Harness, harness

from .common import PI, arr, asum, conj, grid, lift_

ABOUT = "get_jones_field on arbitrary vectors; Layer.get_tangent_field with arbitrary patterns, the transforms (type 'fft') or the minimizer, its derivatives and the interpolation (type 'opt') replaced by what is known of them."
ASSUMPTIONS = [
    "type 'fft', length harnesses: transforms of nonzero arrays return any array (more than they do), of zero arrays zero",
    "type 'opt': scipy's minimize returns any vector, derivatives are not computed, interpolation on a regular grid is exactly linear",
]
HARNESSES = []


# ----------------------------------------------------------------- Jones field


def jones(ctx, nn, ts):
    """the Jones vectors of the tangent vectors ts, as a field of one row"""
    from nannos.formulations.jones import get_jones_field

    if ctx.symbolic:
        ctx.zero_eps = True
    J = get_jones_field([arr(ctx, [[t[k] for t in ts]]) for k in range(2)])
    return [[J[k][0, i] for k in range(2)] for i in range(len(ts))]


def abs2(v):
    return asum((x * conj(x)).real for x in v)


@harness(HARNESSES, bounds="every pair of nonzero tangent vectors")
def jones_length(ctx, nn):
    t = [[ctx.real(f"t{i}{k}", sample=0.3 + 0.4 * i - 0.5 * k) for k in range(2)] for i in range(2)]
    for v in t:
        ctx.assume(v[0] * v[0] + v[1] * v[1] > 0)
    for i, J in enumerate(jones(ctx, nn, t)):
        ctx.prove_eq(f"length {i}", abs2(J), 1)


@harness(HARNESSES, bounds="every unit tangent vector")
def jones_parallel(ctx, nn):
    c, s = ctx.cs(ctx.angle("a", sample=37.0))
    J = jones(ctx, nn, [[c, s]])[0]
    ctx.prove_eq("parallel", J[0] * s - J[1] * c, 0)
    ctx.prove_eq("length", abs2(J), 1)


@harness(HARNESSES, bounds="every nonzero tangent vector, every rotation")
def jones_rotation(ctx, nn):
    t = [ctx.real("tx", sample=0.3), ctx.real("ty", sample=-0.4)]
    ctx.assume(t[0] * t[0] + t[1] * t[1] > 0)
    c, s = ctx.cs(ctx.angle("a", sample=37.0))
    u = [c * t[0] - s * t[1], s * t[0] + c * t[1]]
    A, B = jones(ctx, nn, [t, u])
    e = c - lift_(ctx, 1j) * s
    ctx.prove_eq("x", B[0], e * (c * A[0] - s * A[1]))
    ctx.prove_eq("y", B[1], e * (s * A[0] + c * A[1]))


def _ellipse(name, r, chi, tol):
    def f(ctx, nn):
        c, s = ctx.cs(ctx.angle("a", sample=37.0))
        k = lift_(ctx, 1) * r[0] / r[1]
        J = jones(ctx, nn, [[c * k, s * k]])[0]
        x = 2 * (conj(J[0]) * J[1]).imag
        ctx.prove("ellipticity", (x > chi - tol) & (x < chi + tol))
        n = abs2(J)
        ctx.prove("length", (n > 1 - 1e-4) & (n < 1 + 1e-4))
        if name == "short":
            d = [J[0] - lift_(ctx, 0.5**0.5), J[1] + lift_(ctx, 1j * 0.5**0.5)]
            ctx.prove("the same circular polarization for every direction", abs2(d) < 1e-4)

    HARNESSES.append(Harness("jones_" + name, f, bounds=f"every tangent vector of length {r[0]} / {r[1]}"))


_ellipse("short", (1, 10**10), -1.0, 1e-4)
_ellipse("half", (1, 2), -(0.5**0.5), 1e-9)


# ----------------------------------------------------------- fft tangent field


def layer(ctx, nn, e, **kw):
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=tuple(e.shape), harmonics_array=nn.backend.array([[0], [0]]))
    return lat.Layer("g", thickness=1, epsilon=e, **kw), nn.backend.array([[0], [0]])


class Any:
    """transforms that return any array of the right shape, zero for zero"""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, 0

    def __call__(self, a, sign, shape):
        import numpy as np

        from symnn.core import ZERO, lift

        out = np.empty(shape, dtype=object)
        nil = all(lift(x).is_zero() for x in np.ravel(a))
        self.k += 1
        for i in np.ndindex(shape):
            if nil:
                out[i] = ZERO
            elif sign < 0:
                # spectra are not looked at: one value is as arbitrary as many
                out[i] = lift(1)
            else:
                out[i] = self.ctx.cplx(f"ft{self.k}_{'_'.join(map(str, i))}")
        return out


def _fft(shape, normalize, kind, tier="quick"):
    def f(ctx, nn):
        N, M = shape
        if ctx.symbolic:
            ctx.nan_ok = "any"
            ctx.fft_stub = Any(ctx)
            ctx.zero_eps = not normalize
        lo, hi = 1, 4
        if kind == "any":
            e = grid(ctx, "e", shape, lo=1, hi=9, nn=nn)
        else:
            v = [ctx.real(f"e{i}", lo=1, hi=9, sample=1.5 + 2.5 * (i % 2)) for i in range(N if kind == "x" else M)]
            e = arr(ctx, [[v[i] if kind == "x" else v[j] for j in range(M)] for i in range(N)])
            ctx.assume(v[0] > v[1])
        if kind == "any":
            ctx.assume(e[0, 0] > e[-1, -1])
        g, hs = layer(ctx, nn, e, tangent_field_type="fft")
        t = g.get_tangent_field(hs, normalize=normalize)
        top = []
        for i in range(N):
            for j in range(M):
                x, y = t[0][i, j], t[1][i, j]
                n = x * x + y * y
                ctx.prove(f"length {i},{j}", (n < 1 + 1e-9) & (n >= (1 - 1e-9 if normalize else 0)))
                top.append(n)
                if kind == "any":
                    continue
                flat = x if kind == "x" else y
                if ctx.symbolic:
                    flat, unit = lift_(ctx, flat) == 0, (lift_(ctx, x) == 1) & (lift_(ctx, y) == 0)
                else:
                    flat, unit = abs(flat) < 1e-9, abs(x - 1) + abs(y) < 1e-9
                # a vanishing field is replaced by the unit vector along x
                ctx.prove(f"parallel to the lines {i},{j}", flat | unit if normalize else flat)
        if not normalize:
            one = top[0] == 1 if ctx.symbolic else max(top) > 1 - 1e-9
            for n in top[1:]:
                one = one | (n == 1)  if ctx.symbolic else one
            ctx.prove("the longest vector has unit length", one)

    HARNESSES.append(Harness(f"fft_{shape[0]}x{shape[1]}_{kind}_" + ("unit" if normalize else "scaled"), f, tier=tier, max_paths=4000, merge_where=True, validate=False, bounds=f"{shape[0]} x {shape[1]} samples, " + {"any": "every pattern", "x": "every pattern that depends on x", "y": "every pattern that depends on y"}[kind]))


for k in ("any", "x", "y"):
    for s in [(2, 2), (3, 2), (2, 4), (4, 1)]:
        for n in (True, False):
            _fft(s, n, k, "quick" if s == (2, 2) else "thorough")


@harness(HARNESSES, bounds="every uniform permittivity; every given field of 2 x 2 vectors")
def given(ctx, nn):
    a = ctx.cplx("eps", sample=2.5)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 4), harmonics_array=nn.backend.array([[0], [0]]))
    hs = nn.backend.array([[0], [0]])
    g = lat.Layer("u", thickness=1, epsilon=a)
    ctx.prove("none for uniform layers", g.get_tangent_field(hs) is None and g.get_jones_field(None) is None)
    T = [grid(ctx, f"t{k}", (2, 2), nn=nn) for k in "xy"]
    e = grid(ctx, "e", (2, 2), lo=1, hi=9, nn=nn)
    g = lat.Layer("g", thickness=1, epsilon=e, tangent_field=T)
    for normalize in (True, False):
        t = g.get_tangent_field(hs, normalize=normalize)
        for k in range(2):
            for i in range(2):
                for j in range(2):
                    ctx.prove_eq(f"as given {k},{i},{j}", t[k][i, j], T[k][i, j])


# ------------------------------------------------------ optimized tangent field


class Linear:
    """linear interpolation on a regular grid, exactly (nodes and points known)"""

    def __init__(self, nodes, values, bounds_error=True, fill_value=None, **kw):
        self.nodes = [[float(x) for x in n] for n in nodes]
        self.values = values
        if any(b <= a for n in self.nodes for a, b in zip(n, n[1:])):
            raise ValueError("nodes must be increasing")
        if tuple(len(n) for n in self.nodes) != tuple(values.shape):
            raise ValueError(f"{[len(n) for n in self.nodes]} nodes, values of shape {values.shape}")

    def _at(self, k, x):
        n = self.nodes[k]
        for i, a in enumerate(n):
            if abs(a - x) < 1e-9:
                return [(i, 1)]
        from fractions import Fraction

        i = max(i for i, a in enumerate(n) if a < x)
        w = Fraction((x - n[i]) / (n[i + 1] - n[i])).limit_denominator(10**6)
        return [(i, 1 - w), (i + 1, w)]

    def __call__(self, points):
        import numpy as np

        from symnn import shim

        points = shim.base(points)
        out = np.empty(points.shape[:-1], dtype=object)
        for q in np.ndindex(out.shape):
            s = 0
            for i, a in self._at(0, float(points[q + (0,)])):
                for j, b in self._at(1, float(points[q + (1,)])):
                    s = s + self.values[i, j] * (a * b)
            out[q] = s
        return shim.wrap(out)


class Minimizer:
    """scipy's minimize: returns the vector it is told to; keeps the objective"""

    def __init__(self, x):
        self.x, self.calls = x, []

    def __call__(self, fun, x0, *a, jac=None, hessp=None, **k):
        import types

        self.calls.append((fun, x0, jac, hessp, k))
        return types.SimpleNamespace(x=self.x, success=True, fun=0)


@contextmanager
def optimizer(ctx, mod, m, filtered=True):
    keep = {k: getattr(mod, k) for k in ("minimize", "RegularGridInterpolator", "apply_filter") if hasattr(mod, k)}
    import scipy.optimize as so

    real = so.minimize
    try:
        mod.minimize = so.minimize = m
        if ctx.symbolic:
            mod.RegularGridInterpolator = Linear
            if not filtered:
                # the target of the fit, which is not looked at
                mod.apply_filter = lambda x, *a, **k: x
        yield
    finally:
        so.minimize = real
        for k, v in keep.items():
            setattr(mod, k, v)


def series(ctx, c, hs, i, j, N, M):
    from .common import root

    return asum(a * root(ctx, h[0] * i, N) * root(ctx, h[1] * j, M) for a, h in zip(c, hs))


def unknowns(ctx, n):
    """(vector given by the minimizer, Fourier coefficients of both components)"""
    import numpy as np

    c = [[ctx.cplx(f"a{k}{i}", sample=(0.3 + 0.2 * i) * (1 - 2 * k) + (0.1 + 0.15 * k - 0.07 * i) * 1j) for i in range(n)] for k in range(2)]
    x = [z.real for z in c[0]] + [z.imag for z in c[0]] + [z.real for z in c[1]] + [z.imag for z in c[1]]
    if ctx.symbolic:
        return arr(ctx, x), c
    return np.array(x, dtype=float), c


HS = {
    "1": [(0, 0)],
    "2": [(0, 0), (1, 0)],
    "3": [(0, 0), (1, 0), (0, -1)],
    "asym": [(0, 0), (-1, 1), (1, 0)],
}


def _opt(shape, hname, normalize, tier="quick", exact=True):
    hs = HS[hname]
    N, M = shape

    def f(ctx, nn):
        import numpy as np

        import nannos.formulations.tangent as tan

        if ctx.symbolic:
            ctx.zero_eps = True
        e = np.ones(shape)
        e[: (N + 1) // 2] = 4
        e = nn.backend.array(e) * 1.0
        hz = nn.backend.array([list(x) for x in zip(*hs)])
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=shape, harmonics_array=hz)
        g = lat.Layer("g", thickness=1, epsilon=e)
        x, c = unknowns(ctx, len(hs))
        if not exact:
            pts = [(0, 0), (N - 1, M - 1), (1, 0)]
        else:
            pts = [(i, j) for i in range(N) for j in range(M)]
        U = {}
        for i, j in pts if exact or hname == "1" else []:
            u = [series(ctx, c[k], hs, i, j, N, M).real for k in (1, 0)]
            U[i, j] = [u[0], -u[1]]
            if normalize:
                # vectors shorter than 1e-6 are replaced by the unit vector along x
                ctx.assume(u[0] * u[0] + u[1] * u[1] > 1e-10)
        m = Minimizer(x)
        with optimizer(ctx, tan, m, exact):
            t = g.get_tangent_field(hz, normalize=normalize)
        ctx.prove("one minimization", len(m.calls) == 1)
        ctx.prove("start", len(m.calls[0][1]) == 4 * len(hs))
        ctx.prove("shape", tuple(t[0].shape) == shape and tuple(t[1].shape) == shape)
        for i, j in pts:
            if exact or hname == "1":
                u = U[i, j]
                tx, ty = t[0][i, j], t[1][i, j]
                # same direction: tx uy = ty ux and (tx, ty).(ux, uy) >= 0
                d = tx * u[1] - ty * u[0]
                ctx.prove_eq(f"turned series {i},{j}", d, 0)
                dot = tx * u[0] + ty * u[1]
                ctx.prove(f"orientation {i},{j}", dot >= 0 if ctx.symbolic else bool(dot > -1e-12))
            n = t[0][i, j] * t[0][i, j] + t[1][i, j] * t[1][i, j]
            if normalize:
                ctx.prove(f"unit length {i},{j}", (n < 1 + 1e-9) & (n > 1 - 3e-4))
            elif len(hs) < 3:
                ctx.prove(f"at most unit length {i},{j}", n < 1 + 1e-9)
            if not normalize and (i, j) in U:
                for a in range(2):
                    for b in range(2):
                        ctx.prove_eq(f"common scale {i},{j}: {a}{b}", t[a][i, j] * U[pts[0]][b], U[i, j][a] * t[b][pts[0]])

    HARNESSES.append(Harness(f"opt_{N}x{M}_{hname}_" + ("unit" if normalize else "scaled"), f, tier=tier, merge_where=not normalize and len(hs) > 2, bounds=f"{N} x {M} samples, {len(hs)} harmonics, every result of the minimizer"))


_opt((2, 2), "1", True)
_opt((2, 2), "1", False)
_opt((2, 2), "2", True)
_opt((2, 2), "2", False)
_opt((3, 2), "3", True)
_opt((3, 2), "3", False)
_opt((2, 4), "asym", True)
_opt((2, 4), "asym", False)


def _objective(shape, hname, tier="quick"):
    hs = HS[hname]
    N, M = shape

    def f(ctx, nn):
        import numpy as np

        import nannos.formulations.tangent as tan

        if ctx.symbolic:
            ctx.zero_eps = True
        # lines: the gradient is known up to its scale
        e = np.ones(shape)
        e[: N // 2] = 4
        e = nn.backend.array(e) * 1.0
        hz = nn.backend.array([list(x) for x in zip(*hs)])
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=shape, harmonics_array=hz)
        g = lat.Layer("g", thickness=1, epsilon=e)
        x, c = unknowns(ctx, len(hs))
        m = Minimizer(x)
        with optimizer(ctx, tan, m):
            g.get_tangent_field(hz, normalize=True)
        fun = m.calls[0][0]
        y = fun(x)
        z = fun(x * 0)
        # the functional is the mean squared deviation from a target that it
        # determines: f(x) - f(0) = mean (|s|^2 - 2 s.g)
        s = [[[series(ctx, c[k], hs, i, j, N, M).real for j in range(M)] for i in range(N)] for k in range(2)]
        s2 = asum(s[k][i][j] ** 2 for k in range(2) for i in range(N) for j in range(M))
        # the target is the gradient of the pattern: along x, towards its higher part
        n = 2 * len(hs)
        only = x * 0
        only[:n] = x[:n]
        ctx.prove_eq("no target along the lines", y - fun(-x), fun(only) - fun(-only))
        if hname == "1":
            a = c[0][0].real
            ctx.prove("target towards the higher part", (y - fun(-x)) * a > 0 if not ctx.symbolic else ((y - fun(-x)) * a > 0) | (a == 0))
        # even part in x
        ctx.prove_eq("quadratic part", y + fun(-x) - 2 * z, s2 / (N * M))

    HARNESSES.append(Harness(f"objective_{N}x{M}_{hname}", f, tier=tier, merge_where=True, bounds=f"{N} x {M} samples, {len(hs)} harmonics, every vector of unknowns"))


_objective((2, 2), "1")
_objective((3, 2), "3")


for s in [(70, 2), (130, 2), (2, 130), (66, 3)]:
    _opt(s, "1", True, tier="quick" if s[0] == 130 else "thorough", exact=False)
_opt((4, 4), "3", False, tier="thorough")
_objective((2, 4), "asym", tier="thorough")
_objective((4, 4), "3", tier="thorough")
