"""Real-space fields and permittivity."""
from symnn.run import Harness, harness

from .C13 import OBLIQUE, coef, make, orders
from .C15 import diag
from .common import amplitudes, arr, asum, grid, lift_, modes, ratlat, ratwave, root

ABOUT = "get_ifft_amplitudes, get_ifft, get_field_grid and get_epsilon against the Fourier sums written out."
HARNESSES = []


def series(ctx, a, H, shape, i, j):
    """sum of a_h exp(2 i pi (m i / N + n j / M))"""
    N, M = shape
    return asum([a[k] * root(ctx, (m * i) % N, N) * root(ctx, (n * j) % M, M) for k, (m, n) in enumerate(H)])


def check(ctx, what, F, a, H, shape, iz=None):
    for i in range(shape[0]):
        for j in range(shape[1]):
            ctx.prove_eq(f"{what} at the grid point", F[i, j] if iz is None else F[i, j, iz], series(ctx, a, H, shape, i, j))


HS = [(0, 0), (1, 0), (-1, 0), (0, 1), (1, -1)]


def _sim(ctx, nn, hs, one_d=False, eps=2, shape=(4, 3), **kw):
    h = nn.backend.array([[m for m, n in hs], [n for m, n in hs]])
    L = ratlat(ctx, nn, h, one_d, discretization=(12, 12) if not one_d else 12).Layer
    return nn.Simulation([L("a", epsilon=1), L("g", thickness=lift_(ctx, 0) + 0.3, epsilon=eps), L("b", epsilon=2)], ratwave(ctx, nn), nh=len(hs), **kw)


def _series(name, shape, hs, one_d=False, n=2):
    def f(ctx, nn):
        sim = _sim(ctx, nn, hs, one_d)
        H = orders(sim)
        a = grid(ctx, "a", (n, len(hs)), im=True, nn=nn)
        F = sim.get_ifft_amplitudes(a, shape)
        ctx.prove("one field per depth", tuple(F.shape) == tuple(shape) + (n,))
        for iz in range(n):
            check(ctx, "field", F, a[iz], H, shape, iz)
        ctx.observe("F", F)
        G = sim.get_ifft(a[0], shape)
        ctx.prove("shape", tuple(G.shape) == tuple(shape))
        check(ctx, "sum", G, a[0], H, shape)

    HARNESSES.append(Harness(name, f, bounds=f"every complex amplitude of harmonics {hs} on a {shape} grid, {n} depths"))


_series("series", (4, 3), HS)
_series("series_fine", (6, 4), HS[:3] + [(2, -1)])
_series("series_high", (8, 6), [(0, 0), (3, -2), (-3, 2), (0, 2)], n=1)
_series("series_thin", (3, 12), [(0, 0), (1, 5), (-1, -5), (0, 3)], n=1)
_series("series_1d", (12, 1), [(0, 0), (1, 0), (-1, 0), (-4, 0)], True)
_series("series_many", (4, 3), HS[:3], n=5)


def _grid(name, which, mode, one_d=False, zs=(0, 0.2), shape=None):
    def f(ctx, nn):
        hs = [(0, 0), (1, 0)] if one_d else [(0, 0), (0, 1)]
        pat = (4, 1) if one_d else (4, 3)
        eps = 81 * lift_(ctx, 1) / 289
        if mode == "pattern":
            modes(ctx, "pe", given=True)
            eps = arr(ctx, [[2, 3, 3], [2, 2, 4], [2, 3, 4], [2, 2, 2]] if not one_d else [[2], [3], [3], [2]])
            if not ctx.symbolic:
                eps = nn.backend.array([[2.0, 3, 3], [2, 2, 4], [2, 3, 4], [2, 2, 2]] if not one_d else [[2.0], [3], [3], [2]])
        sim = _sim(ctx, nn, hs, one_d, eps)
        am, bm = amplitudes(ctx, 4), amplitudes(ctx, 4, "b")
        sim.solve()
        sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
        H = orders(sim)
        want = shape or (pat if mode == "pattern" else ((12, 1) if one_d else (12, 12)))
        kw = {} if shape is None else dict(shape=shape)
        z = list(zs) if mode != "pattern" else [0]
        z = [ctx.real("z", lo=0, sample=0.1) if k and not one_d else x for k, x in enumerate(z)]
        A = sim.get_field_fourier(which, z)
        E, F = sim.get_field_grid(which, z, **kw)
        n = len(z)
        ctx.prove("shape", tuple(E.shape) == (3,) + tuple(want) + (n,) and tuple(F.shape) == tuple(E.shape))
        for G, k in ((E, 0), (F, 1)):
            for c in range(3):
                for iz in range(n):
                    check(ctx, f"{'EH'[k]}{'xyz'[c]}", G[c], A[iz, k, c], H, want, iz)
        ctx.observe("E", E)

    HARNESSES.append(Harness(name, f, validate=mode != "pattern", bounds=f"every amplitude in both directions of two harmonics, layer {which} ({mode}), depths {zs}, grid {shape or 'default'}"))


_grid("grid_first", 0, "uniform", shape=(4, 3))
_grid("grid_film", 1, "uniform", shape=(3, 4))
_grid("grid_film_name", "g", "uniform", shape=(2, 6))
_grid("grid_last", -1, "uniform", shape=(4, 3))
_grid("grid_pattern", "g", "pattern")
_grid("grid_pattern_shape", "g", "pattern", shape=(6, 2))
_grid("grid_1d", 1, "uniform", True)
_grid("grid_pattern_1d", 1, "pattern", True)
_grid("grid_default", 2, "uniform", zs=(0,))


def _filled(ctx, nn):
    """a solved simulation with free amplitudes in both directions"""
    sim = _sim(ctx, nn, [(0, 0), (0, 1)], eps=lift_(ctx, 81) / 289)
    am, bm = amplitudes(ctx, 4), amplitudes(ctx, 4, "b")
    sim.solve()
    sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
    return sim


def _selections(name, which, z):
    def f(ctx, nn):
        sim = _filled(ctx, nn)
        shape = (2, 3)
        n = len(z) if isinstance(z, list) else 1
        E, H = sim.get_field_grid(which, z, shape=shape)
        ctx.prove("shape", tuple(E.shape) == (3,) + shape + (n,))
        for k, c in enumerate("xyz"):
            e, h = sim.get_field_grid(which, z, shape=shape, component=c)
            ctx.prove_eq(f"component {c}", e, E[k])
            ctx.prove_eq(f"component {c}", h, H[k])
            ctx.prove_eq("E only", sim.get_field_grid(which, z, shape, "E", c), E[k])
            ctx.prove_eq("H only", sim.get_field_grid(which, z, shape, "H", c), H[k])
            ctx.prove_eq("E of component", sim.get_Efield_grid(which, z, shape=shape, component=c), E[k])
            ctx.prove_eq("H of component", sim.get_Hfield_grid(which, z, shape=shape, component=c), H[k])
        ctx.prove_eq("E only", sim.get_field_grid(which, z, shape=shape, field="E"), E)
        ctx.prove_eq("H only", sim.get_field_grid(which, z, shape=shape, field="H"), H)
        ctx.prove_eq("E", sim.get_Efield_grid(which, z, shape=shape), E)
        ctx.prove_eq("H", sim.get_Hfield_grid(which, z, shape=shape), H)
        ctx.observe("E", E)

    HARNESSES.append(Harness(name, f, bounds=f"every choice of field and component in layer {which}, depths {z}: every amplitude"))


_selections("selections_first", 0, 0.25)
_selections("selections_inner", "g", [0.1, 0.4])
_selections("selections_last", 2, [0, 0.5])


def _depths(name, which):
    def f(ctx, nn):
        sim = _filled(ctx, nn)
        zs = [0.3, 0.1, 0.2, 0.1, 0]
        F = sim.get_field_fourier(which, zs)
        ctx.prove("shape", tuple(F.shape) == (5, 2, 3, 2))
        for k, z in enumerate(zs):
            ctx.prove_eq("field at the depth", F[k], sim.get_field_fourier(which, z)[0])
        ctx.observe("F", F)

    HARNESSES.append(Harness(name, f, bounds=f"layer {which}, five depths in any order with repetitions, against one depth at a time: every amplitude"))


for w in (0, 1, 2):
    _depths(f"depths_{w}", w)


def _epsilon(name, shape, hs, kind="s", one_d=False, fm="original"):
    def f(ctx, nn):
        e = grid(ctx, "e", shape, im=True, nn=nn)
        E = e
        if kind == "t":
            a, b = grid(ctx, "a", shape, im=True, nn=nn), grid(ctx, "b", shape, im=True, nn=nn)
            E = diag(ctx, nn, a, b, e)
        sim, g = make(ctx, nn, E, hs, fm, one_d=one_d)
        H = orders(sim)
        out = sim.get_epsilon("g")
        ctx.prove("shape", tuple(out.shape) == tuple(shape))
        c = [coef(ctx, e, *h) for h in H]
        check(ctx, "permittivity", out, c, H, shape)
        ctx.observe("epsilon", out)
        if len(hs) == shape[0] * shape[1]:
            ctx.prove_eq("all harmonics: the pattern", out, e)

    HARNESSES.append(Harness(name, f, bounds=f"every complex pattern on a {shape} grid, harmonics {hs}"))


_epsilon("epsilon", (4, 3), HS)
_epsilon("epsilon_order", (4, 3), [(0, 1), (1, -1), (0, 0), (1, 0)])
_epsilon("epsilon_zz", (4, 3), HS[:3], "t")
_epsilon("epsilon_1d", (6, 1), [(0, 0), (1, 0), (-1, 0), (2, 0)], one_d=True)
_epsilon("epsilon_full", (3, 1), [(0, 0), (1, 0), (-1, 0)], one_d=True)


@harness(HARNESSES, bounds="every complex permittivity of a uniform layer")
def epsilon_uniform(ctx, nn):
    e = ctx.cplx("e", im_lo=0)
    sim = _sim(ctx, nn, [(0, 0)], eps=e)
    ctx.prove_eq("uniform", sim.get_epsilon("g"), e)
    ctx.prove_eq("uniform", sim.get_epsilon(1), e)
