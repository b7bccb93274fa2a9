"""Anisotropic layers."""
from symnn.run import Harness, harness

from .C13 import OBLIQUE, make, orders
from .C14 import H2, H3, field, toep, two
from .common import PI, J, arr, grid, known_modes, lift_, unit_vectors

ABOUT = "build_matrix of layers whose permittivity is a sampled 3x3 tensor."
ASSUMPTIONS = ["machine epsilon (added by the package to lengths before dividing) is taken as 0"]
HARNESSES = []


def stack(ctx, nn, e):
    if ctx.symbolic:
        return arr(ctx, e)
    return nn.backend.stack([nn.backend.stack(list(r)) for r in e])


def diag(ctx, nn, a, b, c):
    z = a * 0
    return stack(ctx, nn, [[a, z, z], [z, b, z], [z, z, c]])


def wave(ctx, nn):
    return nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 3, angles=(ctx.pyth(15, 8, 17), ctx.pyth(), ctx.pyth(5, 12, 13)))


def _displacement(name, shape, hs, one_d=False):
    def f(ctx, nn):
        e = {}
        for i in range(3):
            for j in range(3):
                if i == j == 2:
                    a, b = ctx.real("z0", lo=0, sample=2.5), ctx.real("z1", lo=0, sample=1.5)
                    v = [[a if (2 * x + y * x + y) % 3 else b for y in range(shape[1])] for x in range(shape[0])]
                    e[i, j] = arr(ctx, v) if ctx.symbolic else nn.backend.array(v)
                elif (i == 2) == (j == 2):
                    e[i, j] = grid(ctx, f"e{i}{j}", shape, im=True, nn=nn)
        z = e[0, 0] * 0
        E = stack(ctx, nn, [[e.get((i, j), z) for j in range(3)] for i in range(3)])
        sim, g = make(ctx, nn, E, hs, one_d=one_d, pw=wave(ctx, nn))
        sim.build_matrix("g")
        n, H = sim.nh, orders(sim)
        T = {k: toep(ctx, x, H) for k, x in e.items()}
        P = g.Peps
        for i in range(n):
            for j in range(n):
                # (-Dy, Dx) = P (-ey, ex)
                ctx.prove_eq("Dx of ex", P[n + i, n + j], T[0, 0][i, j])
                ctx.prove_eq("Dx of ey", -P[n + i, j], T[0, 1][i, j])
                ctx.prove_eq("Dy of ex", -P[i, n + j], T[1, 0][i, j])
                ctx.prove_eq("Dy of ey", P[i, j], T[1, 1][i, j])
                ctx.prove_eq("zz operator", g.eps_hat[i, j], T[2, 2][i, j])
        ctx.observe("Peps", P)

    HARNESSES.append(Harness(name, f, bounds=f"every complex in-plane tensor (and two zz values) on a {shape} grid, {len(hs)} harmonics"))


_displacement("displacement", (4, 3), H3)
_displacement("displacement_1d", (6, 1), [(0, 0), (1, 0), (-2, 0)], True)


def _scalar(name, formulation, one_d=False):
    def f(ctx, nn):
        e = two(ctx, nn, "blob")
        kw = {}
        if one_d:
            e = e[:, :1]
        elif formulation != "original":
            a = ctx.angle("alpha", sample=25.0)
            kw = dict(tangent_field=field(ctx, nn, (4, 3), *ctx.cs(a)))
        hs = [(0, 0), (1, 0)] if one_d else H2
        pw = wave(ctx, nn)
        s1, g1 = make(ctx, nn, e, hs, formulation, pw=pw, one_d=one_d, **kw)
        s2, g2 = make(ctx, nn, diag(ctx, nn, e, e, e), hs, formulation, pw=pw, one_d=one_d, **kw)
        for s in (s1, s2):
            s.build_matrix("g")
        for k in ("Peps", "Qeps", "Keps", "Kmu", "eps_hat", "matrix"):
            ctx.prove_eq(k, getattr(g2, k), getattr(g1, k))
        ctx.observe("matrix", g1.matrix)

    HARNESSES.append(Harness(name, f, bounds=f"every pair of materials, formulation {formulation}: tensor e I against e"))


for fm in ("original", "tangent", "pol", "jones"):
    _scalar(f"scalar_{fm}", fm)
_scalar("scalar_1d", "original", True)


def _axes(name, formulation, along):
    """diagonal tensor, lines along one axis: direct rule along, inverse across"""

    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        v = [ctx.real(f"a{i}", lo=0, sample=2.2 + i) for i in range(2)]
        w = [ctx.real(f"b{i}", lo=0, sample=3.1 + i) for i in range(2)]
        from .C14 import MASK

        def lay(p):
            m = [[p[x] for x in r] for r in MASK["blob"]]
            return arr(ctx, m) if ctx.symbolic else nn.backend.array(m)

        a, b = lay(v), lay(w)
        t = field(ctx, nn, (4, 3), *((0, 1) if along == "y" else (-1, 0)))
        sim, g = make(ctx, nn, diag(ctx, nn, a, b, a), H2, formulation, tangent_field=t)
        sim.build_matrix("g")
        n, H = sim.nh, orders(sim)
        P = g.Peps
        al, ac = (b, a) if along == "y" else (a, b)
        E, V = toep(ctx, al, H), toep(ctx, 1 / ac, H)
        dir_ = P[:n, :n] if along == "y" else P[n:, n:]
        inv_ = P[n:, n:] if along == "y" else P[:n, :n]
        for i in range(n):
            for j in range(n):
                ctx.prove_eq("direct rule along", dir_[i, j], E[i, j])
                ctx.prove_eq("inverse rule across", sum((V[i, l] * inv_[l, j] for l in range(n)), 0), 1 if i == j else 0)
                ctx.prove_eq("uncoupled", P[i, n + j], 0)
                ctx.prove_eq("uncoupled", P[n + i, j], 0)
        ctx.observe("Peps", P)

    HARNESSES.append(Harness(name, f, bounds=f"formulation {formulation}: every pair of diagonal tensors in a given layout, lines along {along}"))


for fm in ("tangent", "pol", "jones"):
    _axes(f"axes_{fm}_y", fm, "y")
    _axes(f"axes_{fm}_x", fm, "x")


def _index(name, formulation, psi, kinds="pp"):
    """uniform in the plane: the film of the permittivity along the polarization"""

    def f(ctx, nn):
        w = 3
        qs = [ctx.real(f"q{i}", lo=0, sample=4.4 + i) * (1 if k == "p" else J(ctx)) for i, k in enumerate(kinds)]
        a, b = qs[0] ** 2 / w**2, qs[1] ** 2 / w**2
        t = ctx.real("t", lo=0, sample=0.3)
        c = ctx.real("c", lo=0, sample=3.3)
        known_modes(ctx, unit_vectors(2), qs)
        o = [[lift_(ctx, 1)] * 3 for _ in range(4)]
        o = arr(ctx, o) if ctx.symbolic else nn.backend.array(o) * (1 + 0j)
        kw = {}
        if formulation != "original":
            kw = dict(tangent_field=field(ctx, nn, (4, 3), 0, 1))
        sims = []
        for e in (diag(ctx, nn, o * a, o * b, o * c), a if psi == 0 else b):
            lat = nn.Lattice(OBLIQUE, discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
            L = lat.Layer
            pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / w, angles=(0, 0, psi))
            sims.append(nn.Simulation([L("a", epsilon=lift_(ctx, 16) / 9), L("g", thickness=t, epsilon=e, **kw), L("b", epsilon=lift_(ctx, 25) / 9)], pw, nh=1, formulation=formulation))
        if ctx.symbolic:
            ctx.zero_eps = True
            ctx.hint_sqrt(4, 5, lift_(ctx, 4) / 3, lift_(ctx, 5) / 3)
        am = sims[0].excitation.amplitude
        ctx.prove_eq("polarization", am[1 if psi == 0 else 0], 0)
        for nm, x, y in zip("RT", *[s.diffraction_efficiencies() for s in sims]):
            ctx.prove_eq(nm, x, y)
        for nm, x, y in zip("rt", *[s.diffraction_efficiencies(complex=True) for s in sims]):
            for k in range(3):
                ctx.prove_eq(f"complex {nm}", x[k], y[k])
        ctx.observe("R", sims[0].diffraction_efficiencies()[0])

    HARNESSES.append(Harness(name, f, bounds=f"every diagonal tensor constant in the plane, every thickness, normal incidence, polarization along {'x' if psi == 0 else 'y'}, formulation {formulation}"))


_index("index_x", "original", 0)
_index("index_y", "original", 90)
_index("index_x_metal", "original", 0, "ep")
_index("index_y_tangent", "tangent", 90)
