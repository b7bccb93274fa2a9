"""Poynting flux."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq, wavenum
from .C09 import pattern
from .common import J, amplitudes, conj, lift_, modes, ratlat, ratwave

ABOUT = "get_z_poynting_flux, get_field_fourier and diffraction_efficiencies of the same simulation."
HARNESSES = []


def re(x):
    return (x + conj(x)) / 2


def field_flux(F, h):
    """z component of Re(E x H*) of one harmonic"""
    (ex, ey, ez), (hx, hy, hz) = [[F[f, c, h] for c in range(3)] for f in range(2)]
    return re(ex * conj(hy) - ey * conj(hx))


def flux(ctx, sim, i, z, what=""):
    a, b = sim._get_amplitudes(i, z)
    fwd, bwd = sim.get_z_poynting_flux(sim.layers[i], a, b)
    F = sim.get_field_fourier(i, z)[0]
    tot = 0
    for h in range(sim.nh):
        p = field_flux(F, h)
        ctx.prove_eq(f"{what} flux of layer {i}", fwd[h] + bwd[h], p)
        tot = tot + p
    return tot


def incident(ctx, sim, F0):
    """flux of the incident wave alone: unit amplitude divided by the index"""
    e0 = sim.layers[0].epsilon
    c = (e0 * sim.omega**2 - sim.kx[sim.index_zeroth_order] ** 2 - sim.ky[sim.index_zeroth_order] ** 2) ** 0.5
    return c / (sim.omega * e0)


def ends(ctx, sim, unit=True):
    """efficiencies against the fluxes of the fields in the outer media"""
    R, T = sim.diffraction_efficiencies(orders=True)
    ctx.observe("R", R)
    n = len(sim.layers) - 1
    Fi, Fo = sim.get_field_fourier(0)[0], sim.get_field_fourier(n)[0]
    inc = incident(ctx, sim, Fi)
    s = 0
    for h in range(sim.nh):
        ctx.prove_eq("T", T[h] * inc, field_flux(Fo, h))
        s = s + field_flux(Fi, h)
    if unit:
        Rs, Ts = sim.diffraction_efficiencies()
        ctx.prove_eq("1 - R", (1 - Rs) * inc, s)
    return s


def _film(name, kind, psi, phi=0, num=False, sub="p", tier="quick"):
    def f(ctx, nn):
        q = ctx.real("a", lo=0) + J(ctx) * ctx.real("b", lo=0) if kind == "a" else kindq(ctx, "q", kind)
        q2, t, z = kindq(ctx, "q2", sub), ctx.real("t", lo=0, sample=0.9), ctx.real("z", lo=0, sample=0.35)
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        sim, d = setup(ctx, nn, q2, [(q, t)], psi=ps, phi=ph, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        s = ends(ctx, sim)
        x = flux(ctx, sim, 1, z)
        if kind != "a":
            ctx.prove_eq("flux of the film", x, s)
            ctx.prove_eq("flux of the substrate", flux(ctx, sim, 2, z), s)
            ctx.prove_eq("flux of the incidence medium", flux(ctx, sim, 0, z), s)

    HARNESSES.append(Harness(name, f, bounds=f"one film ({kind}: p lossless propagating, e evanescent, a absorbing) of every thickness and media, every depth; {'one oblique wave' if num else f'every polar angle and wavelength, azimuth {phi}, {psi} polarization'}", tier=tier))


for k in "pea":
    _film(f"film_{k}_p", k, "p", num=True, tier="thorough" if k == "a" else "quick")
    _film(f"film_{k}_s", k, "s", num=True)
_film("film_p_mix", "p", "mix", "345", num=True)
_film("film_e_mix", "e", "mix", "345", num=True)
_film("film_e_tir", "e", "p", num=True, sub="e")


@harness(HARNESSES, bounds="one interface: every wave, index and complex normal wavenumber of the substrate")
def interface(ctx, nn):
    q = ctx.real("a", lo=0) + (J(ctx) * ctx.real("b", lo=0) if ctx.choice("absorbing", [0, 1]) else 0)
    sim, d = setup(ctx, nn, q, [])
    s = ends(ctx, sim)
    ctx.prove_eq("incidence medium", flux(ctx, sim, 0, 0), s)
    ctx.prove_eq("substrate", flux(ctx, sim, 1, 0), s)


def _harmonics(name, e, sub, one_d=False):
    def f(ctx, nn):
        hs = [[0, 1, -1], [0, 0, 0]] if one_d else [[1, 0, 0], [0, 0, 1]]
        L = ratlat(ctx, nn, hs, one_d).Layer
        sim = nn.Simulation([L("a", epsilon=1), L("f", epsilon=lift_(ctx, e) / 289, thickness=ctx.real("t", lo=0, sample=0.1)), L("b", epsilon=lift_(ctx, sub) / 289)], ratwave(ctx, nn), nh=3)
        sim.a0 = amplitudes(ctx, 6)
        s = ends(ctx, sim, unit=False)
        x = flux(ctx, sim, 1, ctx.real("z", lo=0, sample=0.05))
        ctx.prove_eq("flux of the film", x, s)

    HARNESSES.append(Harness(name, f, bounds="three harmonics with every incident amplitude, film of given medium and every thickness and depth"))


_harmonics("harmonics", 81, 625)
_harmonics("harmonics_metal", -64, 625)
_harmonics("harmonics_ev", -400, 81)
_harmonics("harmonics_1d", 144, 625, True)


def _pat(name, kinds, full):
    def f(ctx, nn):
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
        d = wavenum(ctx, nn)
        modes(ctx, kinds, full=full, given=True)
        L = lat.Layer
        sim = nn.Simulation([L("a", epsilon=d["n"] ** 2), L("g", thickness=ctx.real("t", lo=0), epsilon=pattern(ctx, nn, 1)), L("b", epsilon=eps(d, 5))], d["pws"], nh=1)
        ends(ctx, sim)
        for i in range(3):
            flux(ctx, sim, i, ctx.real("z", lo=0))

    HARNESSES.append(Harness(name, f, validate=False, bounds=f"patterned layer with given modes ({kinds}), every thickness and depth; one oblique wave"))


_pat("patterned_e", "e", True)
_pat("patterned_pe", "pe", True)
_pat("patterned_p", "p", False)


@harness(HARNESSES, bounds="patterned layer of two harmonics with given modes: every amplitude of the modes", validate=False)
def patterned_harmonics(ctx, nn):
    L = ratlat(ctx, nn, [[0, 1], [0, 0]], discretization=(4, 3)).Layer
    modes(ctx, "pe", given=True)
    sim = nn.Simulation([L("a", epsilon=1), L("g", thickness=0, epsilon=pattern(ctx, nn, 1)), L("b", epsilon=2)], ratwave(ctx, nn), nh=2)
    am, bm = amplitudes(ctx, 4), amplitudes(ctx, 4, "b")
    sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
    fwd, bwd = sim.get_z_poynting_flux(sim.layers[1], am, bm)
    F = sim.get_field_fourier(1, 0)
    for h in range(2):
        ctx.prove_eq("flux", fwd[h] + bwd[h], field_flux(F[0], h))
