"""Hermitian operators and energy balance of lossless patterned layers."""
from symnn.run import Harness, harness

from .C13 import OBLIQUE, make, orders
from .C14 import H2, H3, field, toep
from .C15 import stack
from .common import PI, J, amplitudes, arr, asum, grid, known_modes, lift_

ABOUT = "Operators of the built layers, and efficiencies of gratings whose modes are known by symmetry."
HARNESSES = []


def hermitian(ctx, A, what):
    n = A.shape[0]
    for i in range(n):
        for j in range(n):
            ctx.prove_eq(f"{what} is Hermitian", A[i, j], lift_(ctx, A[j, i]).conjugate())


def definition(ctx, sim, g):
    """the eigenvalue matrix from the operators and the wavevectors"""
    n = sim.nh
    w2 = sim.omega**2
    k = [sim.kx, sim.ky]
    ei = g.eps_hat_inv

    def blk(A, a, b, i, j):
        return A[a * n + i, b * n + j]

    for i in range(n):
        for j in range(n):
            d = 1 if i == j else 0
            ky, kx = [sim.ky[i], -sim.kx[i]], [sim.ky[j], -sim.kx[j]]
            for a in range(2):
                for b in range(2):
                    ctx.prove_eq("longitudinal electric term", blk(g.Keps, a, b, i, j), ky[a] * ei[i, j] * kx[b])
                    ctx.prove_eq("longitudinal magnetic term", blk(g.Kmu, a, b, i, j), k[a][i] * k[b][j] * d)
                    ctx.prove_eq("magnetic operator", blk(g.Qeps, a, b, i, j), w2 * d * (a == b) - ky[a] * ei[i, j] * kx[b])
                    s = 0
                    for c in range(2):
                        for l in range(n):
                            s = s + blk(g.Peps, a, c, i, l) * blk(g.Qeps, c, b, l, j)
                    ctx.prove_eq("eigenvalue matrix", blk(g.matrix, a, b, i, j), s - k[a][i] * k[b][j] * d)


def anywave(ctx, nn):
    w = ctx.real("w", lo=0, sample=2.0)
    return nn.PlaneWave(wavelength=2 * PI / w, angles=(ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi"), 0))


def _herm(name, shape, hs, formulation="original", one_d=False, free=None):
    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        kw = {}
        if formulation != "original" or free:
            nu = [ctx.real(f"nu{i}", lo=0, sample=0.3 + 0.15 * i) for i in range(free or shape[0])]
            e = [[1 / nu[(i + 2 * i * j + j) % len(nu)] for j in range(shape[1])] for i in range(shape[0])]
            e = arr(ctx, e) if ctx.symbolic else nn.backend.array(e)
        else:
            e = grid(ctx, "e", shape, lo=0, nn=nn)
        if not one_d and formulation != "original":
            kw["tangent_field"] = field(ctx, nn, shape, *ctx.cs(ctx.angle("alpha", sample=25.0)))
        sim, g = make(ctx, nn, e, hs, formulation, one_d=one_d, pw=anywave(ctx, nn), **kw)
        sim.build_matrix("g")
        hermitian(ctx, g.Peps, "permittivity operator")
        hermitian(ctx, g.eps_hat_inv, "inverse operator")
        hermitian(ctx, g.Qeps, "magnetic operator")
        definition(ctx, sim, g)
        ctx.observe("matrix", g.matrix)

    HARNESSES.append(Harness(name, f, bounds=f"every {'set of ' + str(free) + ' lossless materials' if free else 'lossless pattern'} on a {shape} grid, {len(hs)} harmonics, every wave, formulation {formulation}"))


_herm("hermitian", (4, 3), H2)
_herm("hermitian_3", (4, 3), H3, free=3)
_herm("hermitian_1d", (4, 1), [(0, 0), (1, 0), (-1, 0)], one_d=True)
_herm("hermitian_1d_tangent", (4, 1), [(0, 0), (1, 0)], "tangent", True)
_herm("hermitian_1d_tangent_3", (4, 1), [(0, 0), (1, 0), (-1, 0)], "tangent", True, free=3)
_herm("hermitian_tangent", (4, 3), H2, "tangent", free=2)
_herm("hermitian_pol", (4, 3), H2, "pol", free=2)
_herm("hermitian_jones", (4, 3), H2, "jones", free=2)


def _tensor(name, hs):
    def f(ctx, nn):
        a, b = grid(ctx, "a", (4, 3), nn=nn), grid(ctx, "b", (4, 3), nn=nn)
        c = grid(ctx, "c", (4, 3), im=True, nn=nn)
        z = a * 0
        zz = z + 2.25
        E = stack(ctx, nn, [[a + z, c, z], [c.conj(), b + z, z], [z, z, zz]])
        sim, g = make(ctx, nn, E, hs, pw=anywave(ctx, nn))
        sim.build_matrix("g")
        hermitian(ctx, g.Peps, "permittivity operator")
        definition(ctx, sim, g)

    HARNESSES.append(Harness(name, f, bounds="every Hermitian in-plane tensor on a 4 x 3 grid, every wave"))


_tensor("hermitian_tensor", H2)


# ---------------------------------------------------------------- gratings
# Littrow mounting (orders 0 and -1 with opposite wavevectors) of an even
# profile truncated to two orders: the modes are even and odd.



def littrow(ctx, nn, ep, em, films, psi, sub, formulation="original", flip=False, roots=(), triple=(15, 8, 17), W0=None):
    """grating with e0 + e1 = ep and e0 - e1 = em in two orders; triple:
    normal wavenumber of both orders, tangential one, wavenumber; W0: vacuum
    wavenumber, if the incidence medium is another one"""
    C, S, W = triple
    W0 = W0 or W
    half = lift_(ctx, 1) / 2
    e0, e1 = (ep + em) * half, (ep - em) * half
    prof = [[e0 + 2 * e1], [e0], [e0 - 2 * e1], [e0]]
    pi = lift_(ctx, PI)
    sg = -1 if not flip else 1
    lat = nn.Lattice(2 * pi / (2 * S), discretization=4, harmonics_array=nn.backend.array([[0, -sg], [0, 0]]))
    L = lat.Layer
    known_modes(ctx, [[1, 1, 0, 0], [1, -1, 0, 0], [0, 0, 1, 1], [0, 0, 1, -1]], roots)
    if ctx.symbolic:
        ctx.zero_eps = True
        ctx.hint_sqrt(C)
    pw = nn.PlaneWave(wavelength=2 * pi / W0, angles=(ctx.pyth(C, sg * S, W), 0, psi))
    pat = arr(ctx, prof) if ctx.symbolic else nn.backend.array(prof)
    ls = [L("a", epsilon=1 if W0 == W else lift_(ctx, W**2) / W0**2)]
    for i, t in enumerate(films):
        if isinstance(t, tuple):
            ls.append(L(f"f{i}", epsilon=t[0], thickness=t[1]))
        else:
            ls.append(L(f"g{i}", epsilon=pat, thickness=t))
    ls.append(L("b", epsilon=sub))
    return nn.Simulation(ls, pw, nh=2, formulation=formulation)


def check(ctx, sim):
    R, T = sim.diffraction_efficiencies(orders=True)
    ctx.prove_eq("energy balance", asum(list(R)) + asum(list(T)), 1)
    ctx.observe("R", R)
    ctx.observe("T", T)


def _littrow_s(name, kinds, sub=1, formulation="original", flip=False, tier="quick"):
    def f(ctx, nn):
        S, W = 8, 17
        q = [ctx.real(f"q{i}", lo=0, sample=11.0 + 3 * i) * (1 if k == "p" else J(ctx)) for i, k in enumerate(kinds)]
        ep, em = [(x * x + S**2) / lift_(ctx, W**2) for x in q]
        films = [ctx.real("t", lo=0, sample=0.1)]
        if ctx.symbolic:
            ctx.hint_sqrt(20, 36, J(ctx) * 6)
        sim = littrow(ctx, nn, ep, em, films, 90, lift_(ctx, (15**2 if sub == 1 else sub) + S**2) / W**2, formulation, flip, q)
        check(ctx, sim)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"grating of two orders in Littrow mounting, s polarization: every lossless profile ({kinds} modes), every thickness"))


_littrow_s("littrow_s", "pp")
_littrow_s("littrow_s_flip", "pp", flip=True)
_littrow_s("littrow_s_evanescent", "pe", sub=400)
_littrow_s("littrow_s_tangent", "pp", formulation="tangent")
_littrow_s("littrow_s_tangent_2", "pp", sub=400, formulation="tangent", tier="thorough")
_littrow_s("littrow_s_metal", "ep", sub=400, tier="thorough")
_littrow_s("littrow_s_metal_2", "ee", tier="thorough")
_littrow_s("littrow_s_tir", "pp", sub=-36)


def _littrow_p(name, triple, ep, em, roots, sub, formulation="original", psi=0, film=False):
    def f(ctx, nn):
        a, b = [lift_(ctx, x[0]) / x[1] for x in (ep, em)]
        t = ctx.real("t", lo=0, sample=0.1)
        r = [lift_(ctx, x[0]) / x[1] * (J(ctx) if len(x) > 2 else 1) for x in roots]
        films = [t]
        if film:
            films.append((lift_(ctx, 4 + triple[1] ** 2) / triple[2] ** 2, ctx.real("t2", lo=0, sample=0.15)))
        if ctx.symbolic:
            ctx.hint_sqrt(2)
            # s modes of the same grating, and the substrate
            ctx.hint_sqrt(abs(sub) ** 0.5 if sub > 0 else J(ctx) * abs(sub) ** 0.5)
        sim = littrow(ctx, nn, a, b, films, psi, lift_(ctx, sub + triple[1] ** 2) / triple[2] ** 2, formulation, roots=r, triple=triple)
        check(ctx, sim)

    HARNESSES.append(Harness(name, f, bounds=f"grating of two orders in Littrow mounting, {'p' if psi == 0 else 'mixed'} polarization, formulation {formulation}: a given profile, every thickness"))


def profile_p(ctx, q, S, W):
    """even and odd permittivities whose p modes have the wavenumbers q"""
    r = (q[0] * q[0] - S**2) / (q[1] * q[1] - S**2)
    return [(x + y) / lift_(ctx, W**2) for x, y in ((q[0] * q[0], S**2 * r), (q[1] * q[1], S**2 / r))]


def _littrow_p_any(name, kinds, sub, film=False, psi=0, tier="quick", above=False):
    def f(ctx, nn):
        C, S, W = 15, 8, 17
        q = [ctx.real(f"q{i}", lo=0, sample=11.0 + 3 * i) * (1 if k == "p" else J(ctx)) for i, k in enumerate(kinds)]
        for x in q:
            ctx.assume(x * x > S * S if above else x * x != S * S)
        ep, em = profile_p(ctx, q, S, W)
        films = [ctx.real("t", lo=0, sample=0.1)]
        if film:
            films.append((lift_(ctx, 36 + S**2) / W**2, ctx.real("t2", lo=0, sample=0.05)))
        if ctx.symbolic:
            ctx.hint_sqrt(15, 6, J(ctx) * 6)
        sim = littrow(ctx, nn, ep, em, films, psi, lift_(ctx, sub + S**2) / W**2, roots=q)
        check(ctx, sim)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"grating of two orders in Littrow mounting, p polarization: every lossless profile ({kinds} modes{', wavenumbers above the tangential one' if above else ''}), every thickness"))


_littrow_p_any("littrow_p_any_above", "pp", 15**2, above=True)
_littrow_p_any("littrow_p_any_e", "pe", 15**2)
_littrow_p_any("littrow_p_any_e_sub", "pe", 36)
_littrow_p_any("littrow_p_any_e_film", "pe", 36, True, tier="thorough")
_littrow_p_any("littrow_p_any_ee", "ee", 36)
_littrow_p_any("littrow_p_any", "pp", 15**2, tier="thorough")
_littrow_p_any("littrow_p_any_sub", "pp", 36, tier="thorough")
_littrow_p_any("littrow_p_any_tir", "pe", -36, tier="thorough")
_littrow_p("littrow_p", (3, 4, 5), (20, 1), (16, 5), [(20, 1), (44, 5)], 9)
_littrow_p("littrow_p_film", (3, 4, 5), (20, 1), (16, 5), [(20, 1), (44, 5)], 9, film=True)
_littrow_p("littrow_p_film_e", (4, 3, 5), (9, 5), (1, 5), [(6, 1, 1), (2, 1)], 16, film=True)
_littrow_p("littrow_p_evanescent", (4, 3, 5), (9, 5), (1, 5), [(6, 1, 1), (2, 1)], 16)
_littrow_p("littrow_p_tir", (4, 3, 5), (18, 5), (2, 5), [(3, 1), (3, 1)], -4)
_littrow_p("littrow_p_tangent", (4, 3, 5), (18, 25), (-6, 25), [(5, 1), (3, 1)], 16, "tangent")
_littrow_p("littrow_p_tangent_e", (3, 4, 5), (4, 9), (1, 4), [(65, 16, 1), (55, 36, 1)], 9, "tangent")
_littrow_p("littrow_mix", (3, 4, 5), (20, 1), (16, 5), [(20, 1), (44, 5)], 9, psi=45)
