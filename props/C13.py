"""Fourier operators of sampled patterns."""
from symnn.run import Harness, harness

from .common import PI, conj, arr, grid, lift_, root

ABOUT = "build_matrix of a patterned layer, the Toeplitz operator and the discrete Fourier transforms."
HARNESSES = []

OBLIQUE = ((4, 0), (3, 4))
SETS = {
    "1": [(0, 0)],
    "3": [(0, 0), (1, 0), (0, -1)],
    "5": [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)],
    "asym": [(-1, 1), (0, 0), (2, 1), (0, -2)],
    "cross": [(0, 0), (2, 0), (-1, 2), (-2, -2), (1, 1)],
    "1d": [(0, 0), (1, 0), (-1, 0)],
    "1d5": [(-2, 0), (0, 0), (1, 0), (2, 0), (-1, 0)],
}


def make(ctx, nn, e, hs, formulation="original", lattice=None, **kw):
    """a three-layer simulation with the pattern e; (simulation, layer)"""
    one_d = kw.pop("one_d", False)
    hz = nn.backend.array([list(x) for x in zip(*hs)])
    shape = tuple(e.shape[-2:]) if hasattr(e, "shape") and len(e.shape) > 1 else kw.pop("shape")
    if one_d:
        lat = nn.Lattice(3, discretization=shape[0], harmonics_array=hz)
    else:
        lat = nn.Lattice(lattice or OBLIQUE, discretization=shape, harmonics_array=hz)
    pw = kw.pop("pw", None) or nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 3, angles=(0, 0, 0))
    L = lat.Layer
    g = L("g", epsilon=e, thickness=1, **kw)
    sim = nn.Simulation([L("a", epsilon=1), g, L("b", epsilon=2.25)], pw, nh=len(hs), formulation=formulation)
    return sim, g


def coef(ctx, e, m, n):
    N, M = e.shape
    s = 0
    for i in range(N):
        for j in range(M):
            s = s + e[i, j] * root(ctx, -m * i, N) * root(ctx, -n * j, M)
    return s / (N * M)


def orders(sim):
    return [(int(sim.harmonics[0, i]), int(sim.harmonics[1, i])) for i in range(sim.nh)]


def entries(ctx, A, e, hs, what="operator"):
    for i, a in enumerate(hs):
        for j, b in enumerate(hs):
            ctx.prove_eq(f"{what}[{i},{j}]", A[i, j], coef(ctx, e, a[0] - b[0], a[1] - b[1]))


def _toeplitz(name, shape, hs, one_d=False, tier="quick"):
    def f(ctx, nn):
        e = grid(ctx, "e", shape, im=True, nn=nn)
        sim, g = make(ctx, nn, e, SETS[hs], one_d=one_d)
        H = orders(sim)
        ctx.prove("harmonics as given", sorted(H) == sorted(SETS[hs]))
        A = sim._get_toeplitz_matrix(g.epsilon)
        entries(ctx, A, e, H)
        ctx.observe("A", A)
        F = sim.get_epsilon("g")
        N, M = shape
        for i in range(N):
            for j in range(M):
                # orders relative to the zeroth one
                s = 0
                for m, n in SETS[hs]:
                    s = s + coef(ctx, e, m, n) * root(ctx, m * i, N) * root(ctx, n * j, M)
                ctx.prove_eq("truncated series", F[i, j], s)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"every complex pattern on a {shape} grid, {len(SETS[hs])} harmonics"))


_toeplitz("toeplitz_4x3", (4, 3), "5")
_toeplitz("toeplitz_6x8", (6, 8), "cross")
_toeplitz("toeplitz_8x6", (8, 6), "asym")
_toeplitz("toeplitz_1d", (8, 1), "1d5", True)
_toeplitz("toeplitz_1d_odd", (3, 1), "1d", True)
_toeplitz("toeplitz_12x8", (12, 8), "cross", tier="thorough")
_toeplitz("toeplitz_8x12", (8, 12), "asym", tier="thorough")


def _built(name, shape, hs, one_d=False, tier="quick"):
    def f(ctx, nn):
        e = grid(ctx, "e", shape, lo=0, nn=nn)
        sim, g = make(ctx, nn, e, SETS[hs], one_d=one_d)
        sim.build_matrix("g")
        n = sim.nh
        entries(ctx, g.eps_hat, e, orders(sim), "eps_hat")
        I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        ctx.prove_eq("inverse", g.eps_hat @ g.eps_hat_inv, arr(ctx, I))
        for i in range(n):
            for j in range(n):
                ctx.prove_eq("hermitian", g.eps_hat[i, j], conj(g.eps_hat[j, i]))
                ctx.prove_eq("mu_hat", g.mu_hat[i, j], I[i][j])
                ctx.prove_eq("mu_hat_inv", g.mu_hat_inv[i, j], I[i][j])
        ctx.observe("eps_hat", g.eps_hat)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"every real pattern on a {shape} grid, {len(SETS[hs])} harmonics: operators of the built layer"))


_built("built_1d", (4, 1), "1d", True)
SETS["2"] = [(1, -1), (0, 0)]
_built("built_2", (4, 3), "2")
_built("built_1", (4, 3), "1")


def _zz(name, shape, hs):
    def f(ctx, nn):
        """anisotropic: eps_hat is the operator of the zz component"""
        e = [[grid(ctx, f"e{i}{j}", shape, im=True, nn=nn) for j in range(3)] for i in range(3)]
        E = arr(ctx, e) if ctx.symbolic else nn.backend.stack([nn.backend.stack(list(r)) for r in e])
        sim, g = make(ctx, nn, E, SETS[hs])
        T = sim._get_toeplitz_matrix(g.epsilon, transverse=True)
        for i in range(2):
            for j in range(2):
                entries(ctx, T[i][j], e[i][j], orders(sim), f"component {i}{j}")

    HARNESSES.append(Harness(name, f, bounds=f"every complex tensor pattern on a {shape} grid, {len(SETS[hs])} harmonics"))


_zz("tensor", (4, 3), "3")


def _round(name, shape, axes=None, extra=False):
    def f(ctx, nn):
        fft = nn.formulations.fft
        full = (shape + (2,)) if extra else shape
        u = grid(ctx, "u", full, im=True, nn=nn)
        kw = {} if axes is None else {"axes": axes}
        U = fft.fourier_transform(u, **kw)
        V = fft.inverse_fourier_transform(u, **kw)
        ctx.prove_eq("inverse of forward", fft.inverse_fourier_transform(U, **kw), u)
        ctx.prove_eq("forward of inverse", fft.fourier_transform(V, **kw), u)
        N, M = shape
        for c in range(2 if extra else 1):
            w = u[:, :, c] if extra else u
            for m in range(N):
                for n in range(M):
                    x = U[m, n, c] if extra else U[m, n]
                    y = V[m, n, c] if extra else V[m, n]
                    ctx.prove_eq("forward", x, coef(ctx, w, m, n))
                    ctx.prove_eq("inverse", y, coef(ctx, w, -m, -n) * (N * M))
        ctx.observe("U", U)

    HARNESSES.append(Harness(name, f, bounds=f"every complex array on a {shape} grid" + (" with a trailing axis" if extra else "")))


_round("transform_4x3", (4, 3))
_round("transform_2x6", (2, 6))
_round("transform_6x1", (6, 1))
_round("transform_axes", (3, 4), (0, 1), True)


def _constant(name, shape, hs, one_d=False):
    def f(ctx, nn):
        c = ctx.cplx("c", sample=2.2 + 0.3j)
        ctx.assume(c != 0) if not ctx.symbolic else ctx.assume(c.abs2() > 0)
        e = grid(ctx, "e", shape, nn=nn) * 0 + c
        sim, g = make(ctx, nn, e, SETS[hs], one_d=one_d)
        sim.build_matrix(g)
        for i in range(sim.nh):
            for j in range(sim.nh):
                ctx.prove_eq("constant", g.eps_hat[i, j], c if i == j else 0)
                ctx.prove_eq("constant inverse", g.eps_hat_inv[i, j] * c, 1 if i == j else 0)
        ctx.prove_eq("constant map", sim.get_epsilon("g"), e)

    HARNESSES.append(Harness(name, f, bounds=f"every complex constant on a {shape} grid, {len(SETS[hs])} harmonics"))


_constant("constant", (6, 8), "asym")
_constant("constant_1d", (8, 1), "1d5", True)


def _shift(name, shape, hs, by):
    def f(ctx, nn):
        e = grid(ctx, "e", shape, im=True, nn=nn)
        N, M = shape
        s = [[e[(i - by[0]) % N, (j - by[1]) % M] for j in range(M)] for i in range(N)]
        s = arr(ctx, s) if ctx.symbolic else nn.backend.array(s)
        A = make(ctx, nn, e, SETS[hs])
        B = make(ctx, nn, s, SETS[hs])
        hs_ = orders(A[0])
        a = A[0]._get_toeplitz_matrix(A[1].epsilon)
        b = B[0]._get_toeplitz_matrix(B[1].epsilon)
        for i, p in enumerate(hs_):
            for j, q in enumerate(hs_):
                ph = root(ctx, -(p[0] - q[0]) * by[0], N) * root(ctx, -(p[1] - q[1]) * by[1], M)
                ctx.prove_eq("shift", b[i, j], a[i, j] * ph)

    HARNESSES.append(Harness(name, f, bounds=f"every complex pattern on a {shape} grid shifted by {by}"))


_shift("shift_x", (4, 3), "5", (1, 0))
_shift("shift_y", (4, 3), "5", (0, 1))
_shift("shift_xy", (6, 8), "asym", (5, 3))
