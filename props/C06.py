"""Energy balance of uniform stacks."""
from symnn.run import Harness, harness

from .common import PI, J

ABOUT = "Stacks of uniform layers: diffraction_efficiencies of the real code for every wave, medium and thickness."
HARNESSES = []


def setup(ctx, nn, q_sub, films, psi=None, phi=None, sup_name="sup", one_d=False, num=False, th=None):
    """half-space of index n / films [(q, thickness)] / half-space of normal
    wavenumber q_sub; permittivities follow from the normal wavenumbers"""
    w = 2 if num else ctx.real("w", lo=0, sample=2.0)
    n = 1.5 if num else ctx.real("n", lo=0, sample=1.3)
    th = ctx.angle("theta", lo=-90, hi=90) if th is None else th
    phi = ctx.angle("phi") if phi is None else phi
    psi = ctx.angle("psi") if psi is None else psi
    c, s = ctx.cs(th)
    kt2 = (n * w * s) ** 2
    if ctx.symbolic:
        ctx.hint_sqrt(w * c, n * w * c)
        for q in [q_sub] + [f[0] for f in films]:
            ctx.hint_sqrt(q)
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, phi, psi))
    lat = nn.Lattice(1 if one_d else ((1, 0), (0, 1)), discretization=9)
    ls = [lat.Layer(sup_name, epsilon=n * n)]
    for i, (q, t) in enumerate(films):
        ls.append(lat.Layer(f"film{i}", thickness=t, epsilon=(q * q + kt2) / w**2))
    ls.append(lat.Layer("sub", epsilon=(q_sub * q_sub + kt2) / w**2))
    return nn.Simulation(ls, pw, nh=1), dict(w=w, n=n, c=c, s=s, kt2=kt2, pw=pw, lat=lat)


def balance(ctx, nn, sim, each=True):
    R, T = sim.diffraction_efficiencies()
    ctx.observe("R", R)
    ctx.observe("T", T)
    ctx.prove_eq("R + T", R + T, 1)
    return R, T


@harness(HARNESSES, bounds="one interface, every wave, index and normal wavenumber of the substrate")
def interface(ctx, nn):
    q = ctx.real("q", lo=0)
    sim, _ = setup(ctx, nn, q, [])
    R, T = balance(ctx, nn, sim)
    ctx.prove("R >= 0", R >= 0)
    ctx.prove("T >= 0", T >= 0)


@harness(HARNESSES, bounds="total reflection at one interface (evanescent or metallic substrate), every wave")
def total_reflection(ctx, nn):
    k = ctx.real("kappa", lo=0)
    sim, _ = setup(ctx, nn, J(ctx) * k, [])
    R, T = balance(ctx, nn, sim)
    ctx.prove_eq("R", R, 1)
    ctx.prove_eq("T", T, 0)


@harness(HARNESSES, bounds="absorbing substrate: every complex normal wavenumber in the first quadrant")
def absorbing_substrate(ctx, nn):
    a, b = ctx.real("a", lo=0), ctx.real("b", lo=0)
    sim, _ = setup(ctx, nn, a + J(ctx) * b, [])
    R, T = balance(ctx, nn, sim)


PSI = {"p": 0, "s": 90}


def _stack(name, kinds, phi, psi, num=False, tier="quick", sub="prop", what="R + T = 1"):
    """films of the given kinds; p: propagating, e: evanescent"""

    def f(ctx, nn):
        q2 = ctx.real("q2", lo=0) * (1 if sub == "prop" else J(ctx))
        films = [(ctx.real(f"q{i}", lo=0) * (J(ctx) if k == "e" else 1), ctx.real(f"t{i}", lo=0)) for i, k in enumerate(kinds)]
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        sim, _ = setup(ctx, nn, q2, films, phi=ph, psi=ps, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        R, T = balance(ctx, nn, sim)
        if sub != "prop":
            ctx.prove_eq("T", T, 0)

    wv = "one oblique wave (theta, phi, psi of rational sine)" if num else f"every index, wavelength and polar angle, azimuth {phi}, polarization {psi}"
    HARNESSES.append(Harness(name, f, bounds=f"{len(kinds)} film(s) [{kinds}: p propagating, e evanescent] of every normal wavenumber and thickness, {'propagating' if sub == 'prop' else 'evanescent'} substrate, {wv}", tier=tier))


for k in "pe":
    for phi, psi in ((0, "p"), (0, "s"), (90, "p"), (180, "s")):
        _stack(f"film_{k}_{phi}_{psi}", k, phi, psi)
    _stack(f"film_{k}_oblique", k, "345", "mix", num=True)
    _stack(f"film_{k}_345_p", k, "345", "p", tier="thorough")
    _stack(f"film_{k}_tir_p", k, 0, "p", sub="ev")
    _stack(f"film_{k}_tir_s", k, 0, "s", sub="ev")
for kk, pol in (("pp", "p"), ("pe", "s"), ("ep", "p"), ("ee", "s")):
    _stack(f"films_{kk}_{pol}", kk, 0, pol, num=True)


def _thick(name, qs, psi, tier="quick"):
    """three films of given media, every thickness"""

    def f(ctx, nn):
        films = [(q, ctx.real(f"t{i}", lo=0)) for i, q in enumerate(qs)]
        sim, _ = setup(ctx, nn, 3, [(J(ctx) * -q if q < 0 else q, t) for q, t in films], phi=0, psi=PSI[psi], num=True, th=ctx.pyth(15, 8, 17))
        balance(ctx, nn, sim)

    HARNESSES.append(Harness(name, f, bounds=f"films of normal wavenumbers {qs} (negative: evanescent), every thickness; one oblique wave", tier=tier))


_thick("three_films", (4, -1, 5), "p")
_thick("three_films_s", (-2, 4, 3), "s")
_thick("four_films", (4, 2, 5, 3), "s")

