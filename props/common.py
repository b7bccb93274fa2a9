"""Helpers shared by the harnesses (work on symbolic and on concrete numbers)."""
import math
from fractions import Fraction

PI = math.pi


def half(ctx):
    return Fraction(1, 2) if ctx.symbolic else 0.5


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x.conj()


def is_sym(ctx):
    return ctx.symbolic


def asum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def expi(ctx, x):
    """exp(i*x)"""
    if ctx.symbolic:
        from symnn.core import IMAG, lift

        return (IMAG * lift(x)).exp()
    import cmath

    return cmath.exp(1j * x)


def root(ctx, k, n):
    """exp(2 i pi k / n)"""
    if ctx.symbolic:
        from symnn import shim

        return shim.twiddle(n, k, 1)
    import cmath

    return cmath.exp(2j * PI * k / n)


def ratlat(ctx, nn, hs, one_d=False, swap=False, **kw):
    """oblique lattice whose reciprocal vectors (9, 12) and (0, 15) are rational:
    with w = 17 the orders 0 and +-1 have rational normal wavenumbers for
    permittivities p / 289, p = 289 (17, 8), 625 (25, 20), 81 (9, 12i),
    144 (12, 9i), -64 (8i, 17i), -400 (20i, 25i)"""
    pi = lift_(ctx, PI)
    if one_d:
        basis = pi * 2 / 15
    else:
        basis = ((pi * 2 / 9, 0), (-pi * 8 / 45, pi * 2 / 15))
        if swap:
            basis = basis[::-1]
    kw.setdefault("discretization", (9, 9) if not one_d else 9)
    return nn.Lattice(basis, harmonics_array=nn.backend.array(hs), **kw)


def ratwave(ctx, nn, th=0, ph=0, psi=0, w=17):
    return nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / w, angles=(th, ph, psi))


def amplitudes(ctx, n, name="a"):
    """n free real incident amplitudes"""
    a = arr(ctx, [ctx.real(f"{name}{i}", sample=0.3 + 0.7 * ((5 * i) % 7) / 7) for i in range(n)])
    return amps(ctx, a)


def amps(ctx, a):
    """amplitudes as the package stores them: complex arrays"""
    return arr(ctx, a) if ctx.symbolic else arr(ctx, a) * (1 + 0j)


def lift_(ctx, x):
    """an exact number in symbolic runs"""
    if ctx.symbolic:
        from symnn.core import lift

        return lift(x)
    return x


def J(ctx):
    if ctx.symbolic:
        from symnn.core import IMAG

        return IMAG
    return 1j


def sqr(ctx, x):
    if ctx.symbolic:
        from symnn.core import lift

        return lift(x).sqrt()
    import cmath

    r = cmath.sqrt(x)
    return r.real if r.imag == 0 else r


def wave(ctx, nn, w, th=None, ph=None, psi=None, pref=""):
    """a plane wave of wavenumber w with symbolic angles; returns (pw, angles)"""
    th = ctx.angle(pref + "theta", lo=-90, hi=90) if th is None else th
    ph = ctx.angle(pref + "phi") if ph is None else ph
    psi = ctx.angle(pref + "psi") if psi is None else psi
    return nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ph, psi)), (th, ph, psi)


def arr(ctx, x):
    """an array of (symbolic) numbers"""
    if ctx.symbolic:
        from symnn import shim

        return shim.array(x)
    import numpy as np

    if hasattr(x, "detach"):
        return x
    nn = getattr(ctx, "nn", None)
    if nn is not None and nn.get_backend() in ("torch", "jax"):
        return nn.backend.array(npy_(x))
    return np.array(x)


def npy_(x):
    if isinstance(x, (list, tuple)):
        return [npy_(y) for y in x]
    return x.item() if hasattr(x, "item") and getattr(x, "shape", None) == () else npy(x)


def grid(ctx, name, shape, lo=None, hi=None, im=False, nn=None):
    """array of free real (complex) values, in the form a user passes them"""
    import itertools

    if ctx.symbolic:
        from symnn import shim

        import numpy as np

        out = np.empty(shape, dtype=object)
        for idx in itertools.product(*[range(n) for n in shape]):
            nm = name + "".join(map(str, idx))
            out[idx] = ctx.cplx(nm, im_lo=0) if im else ctx.real(nm, lo=lo, hi=hi)
        return shim.wrap(out)
    import numpy as np

    out = np.empty(shape, dtype=complex if im else float)
    for idx in itertools.product(*[range(n) for n in shape]):
        nm = name + "".join(map(str, idx))
        out[idx] = ctx.cplx(nm, im_lo=0) if im else ctx.real(nm, lo=lo, hi=hi)
    return out if nn is None else nn.backend.array(out)


def npy(x):
    """a numpy array of a tensor of another library (concrete runs)"""
    return x.detach().resolve_conj().cpu().numpy() if hasattr(x, "resolve_conj") else x


class Modes:
    """stub for the eigendecomposition of a patterned layer: arbitrary modes.

    Equal matrices get the same modes; each new matrix gets fresh wavenumbers
    (real positive, or in the closed first quadrant) and a fresh mode matrix
    with unit diagonal.  Over-approximates the library's contract."""

    def __init__(self, ctx, kinds="p", full=True, given=False):
        self.ctx, self.kinds, self.full, self.given = ctx, kinds, full, given
        self.seen = []

    def __call__(self, A):
        import numpy as np

        from symnn import shim
        from symnn.core import IMAG, ONE, ZERO, lift

        ctx = self.ctx
        A = np.asarray(A, dtype=object)
        n = A.shape[0]
        for B, r in self.seen:
            if B.shape == A.shape and all((lift(x) - lift(y)).is_zero() for x, y in zip(A.ravel(), B.ravel())):
                return r[0].copy(), r[1].copy()
        k = len(self.seen)
        w = np.empty(n, dtype=object)
        V = np.empty((n, n), dtype=object)
        for i in range(n):
            kind = self.kinds[i % len(self.kinds)]
            if self.given:
                a = lift(Fraction(11 + 4 * i + 2 * k, 10))
            else:
                a = ctx.fresh(f"#q{k}{i}", 1.1 + 0.37 * i + 0.21 * k)
                ctx.assume(a > 0)
            q = a
            if kind == "e":
                q = IMAG * a
            elif kind == "c":
                if self.given:
                    b = lift(Fraction(3 + i, 10))
                else:
                    b = ctx.fresh(f"#qi{k}{i}", 0.3 + 0.1 * i)
                    ctx.assume(b > 0)
                q = a + IMAG * b
            ctx.hint_sqrt(q)
            w[i] = q * q
            for j in range(n):
                V[i, j] = ONE if i == j else ((lift(Fraction(2 + i - 3 * j, 10)) if self.given else ctx.fresh(f"#v{k}{i}{j}", 0.2 + 0.13 * i - 0.31 * j)) if self.full else ZERO)
        ctx.has_modes = True
        w, V = shim.wrap(w), shim.wrap(V)
        self.seen.append((A.copy(), (w, V)))
        return w.copy(), V.copy()


def modes(ctx, kinds="p", full=True, given=False):
    """patterned layers get arbitrary modes (symbolic runs only)"""
    if ctx.symbolic:
        ctx.eig_stub = Modes(ctx, kinds, full, given)
        t = "eigendecomposition replaced by arbitrary modes (a deterministic function of the matrix)"
        if t not in ctx.notes:
            ctx.notes.append(t)


class Known(Modes):
    """eigendecomposition by given eigenvectors: exact, and checked.

    vecs: columns (numbers); roots: square roots of the eigenvalues to use"""

    def __init__(self, ctx, vecs, roots=()):
        super().__init__(ctx)
        self.vecs, self.roots = vecs, roots

    def __call__(self, A):
        import numpy as np

        from symnn import shim
        from symnn.core import lift

        A = np.asarray(A, dtype=object)
        n = A.shape[0]
        V = np.empty((n, n), dtype=object)
        w = np.empty(n, dtype=object)
        self.ctx.hint_sqrt(*self.roots)
        for k, v in enumerate(self.vecs):
            v = [lift(x) for x in v]
            i0 = next(i for i in range(n) if not v[i].is_zero())
            img = [asum([lift(A[i, j]) * v[j] for j in range(n) if not v[j].is_zero()]) for i in range(n)]
            w[k] = lift(img[i0]) / v[i0]
            for i in range(n):
                V[i, k] = v[i]
                self.ctx.prove_eq("the eigenvectors are those of the operator", img[i], w[k] * v[i])
        self.ctx.has_modes = True
        return shim.wrap(w), shim.wrap(V)


def known_modes(ctx, vecs, roots=()):
    if ctx.symbolic:
        ctx.eig_stub = Known(ctx, vecs, roots)
        t = "eigendecomposition by given exact eigenvectors of the symmetric operator (checked)"
        if t not in ctx.notes:
            ctx.notes.append(t)


def unit_vectors(n):
    return [[1 if i == j else 0 for i in range(n)] for j in range(n)]
