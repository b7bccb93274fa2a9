"""Reciprocity."""
from symnn.run import Harness

from .C16 import littrow, profile_p
from .common import PI, J, arr, lift_

ABOUT = "Pairs of simulations: a stack, and the same stack upside down lit along the reversed transmitted wave."
HARNESSES = []
POL = {"p": 0, "s": 90}
# tangential wavenumber 8, vacuum wavenumber 17
A, B = (15, 8, 17), (6, 8, 10)


def wavenumber(ctx, name, kind, i=0):
    """propagating, evanescent, or absorbing; capital letters: a given one"""
    if kind in "PEA":
        x = lift_(ctx, 21 - 9 * i)
        q = x if kind == "P" else J(ctx) * x
        if kind == "A":
            q = x + J(ctx) * (2 - i)
        if ctx.symbolic:
            ctx.hint_sqrt(q)
        return q
    x = ctx.real(name, lo=0, sample=11.0 + 3 * i)
    q = x if kind == "p" else J(ctx) * x
    if kind == "a":
        q = x + J(ctx) * ctx.real(name + "i", lo=0, sample=0.7 + i)
    if ctx.symbolic:
        ctx.hint_sqrt(q)
    return q


def medium(ctx, t):
    return lift_(ctx, t[2] ** 2) / 289


def _uniform(name, kinds, psi, tier="quick", phi=0):
    def f(ctx, nn):
        if ctx.symbolic:
            ctx.hint_sqrt(15, 6, 17, 10)
        qs = [wavenumber(ctx, f"q{i}", k, i) for i, k in enumerate(kinds)]
        ts = [ctx.real(f"t{i}", lo=0, sample=0.05 + 0.02 * i) for i in range(len(qs))]
        films = [((q * q + 64) / 289, t) for q, t in zip(qs, ts)]
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else POL[psi]
        ph = ctx.pyth() if phi else 0
        out = []
        for a, b, fs in ((A, B, films), (B, A, films[::-1])):
            L = nn.Lattice(((1, 0), (0, 1)), discretization=9).Layer
            pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 17, angles=(ctx.pyth(a[0], -a[1] if out else a[1], a[2]), ph, ps))
            ls = [L("a", epsilon=medium(ctx, a))]
            ls += [L(f"f{i}", epsilon=e, thickness=t) for i, (e, t) in enumerate(fs)]
            out.append(nn.Simulation(ls + [L("b", epsilon=medium(ctx, b))], pw, nh=1))
        (R1, T1), (R2, T2) = [s.diffraction_efficiencies() for s in out]
        ctx.prove_eq("transmission", T2, T1)
        if "a" not in kinds:
            ctx.prove_eq("reflection", R2, R1)
        (r1, t1), (r2, t2) = [s.diffraction_efficiencies(orders=True, complex=True) for s in out]
        ctx.prove_eq("squared amplitude", sum(x * x.conjugate() for x in t2[:, 0]), sum(x * x.conjugate() for x in t1[:, 0]))
        ctx.observe("T", T1)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"{len(kinds)} films ({kinds}: propagating, evanescent, absorbing) of every thickness between two given media, one oblique wave, {psi} polarization"))


for k in ("p", "e", "a"):
    for ps in ("p", "s"):
        _uniform(f"film_{k}_{ps}", k, ps)
_uniform("film_p_mix", "p", "mix", phi=1)
_uniform("films_pe_s", "pe", "s")
_uniform("films_pp_p", "pp", "p")



def reverse(ctx, nn, ep, em, films, psi, q, order, formulation):
    # the reverse of the transmitted order -1 has the tangential wavenumber
    # of the incident wave, that of order 0 the opposite one
    s1 = littrow(ctx, nn, ep, em, films, psi, medium(ctx, B), formulation, roots=q, triple=A, W0=17)
    s2 = littrow(ctx, nn, ep, em, films[::-1], psi, medium(ctx, A), formulation, roots=q, triple=B, W0=17, flip=order == 0)
    (R1, T1), (R2, T2) = [s.diffraction_efficiencies(orders=True) for s in (s1, s2)]
    other = [[i for i in range(2) if (s.harmonics[0, i] == 0) == (order == 0)][0] for s in (s1, s2)]
    k1, k2 = [s.kx[i] for s, i in zip((s1, s2), other)]
    # waves come back along the incident ones
    ctx.prove_eq("the reversed wave", k2, -s1.kx[s1.index_zeroth_order])
    ctx.prove_eq("the reversed wave", k1, -s2.kx[s2.index_zeroth_order])
    ctx.prove_eq("transmission", T2[other[1]], T1[other[0]])
    ctx.observe("T", T1)


def _grating(name, kinds, pol, order, formulation="original", film=None, tier="quick"):
    def f(ctx, nn):
        S, W = 8, 17
        q = [wavenumber(ctx, f"q{i}", k, i) for i, k in enumerate(kinds)]
        if pol == "s":
            ep, em = [(x * x + S**2) / lift_(ctx, W**2) for x in q]
        else:
            for x, k in zip(q, kinds):
                if k == "p":
                    ctx.assume(x > S)
            ep, em = profile_p(ctx, q, S, W)
        films = [ctx.real("t", lo=0, sample=0.1)]
        if film:
            films.append((lift_(ctx, film + S**2) / W**2, ctx.real("t2", lo=0, sample=0.05)))
        if ctx.symbolic:
            ctx.hint_sqrt(15, 6)
            if film:
                ctx.hint_sqrt(abs(film) ** 0.5 if film > 0 else J(ctx) * abs(film) ** 0.5)
        reverse(ctx, nn, ep, em, films, POL[pol], q, order, formulation)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"grating of two orders in Littrow mounting ({kinds} modes), {pol} polarization, formulation {formulation}: {'every' if kinds.islower() else 'a given'} profile, every thickness, order {order}" + (", film below" if film else "")))


def _absorbing(name, taus, psi, order, formulation="original", film=None, tier="quick"):
    """even and odd permittivities (S (x + 1 / x) / 2 W)^2: all wavenumbers are
    rational in x, for both polarizations"""

    def f(ctx, nn):
        S, W = 8, 17
        x = [lift_(ctx, a) / b + J(ctx) * (lift_(ctx, c) / d) for a, b, c, d in taus]
        sm = [S * (y + 1 / y) / 2 for y in x]
        df = [S * (y - 1 / y) / 2 for y in x]
        ep, em = [y * y / lift_(ctx, W**2) for y in sm]
        rts = df + [sm[0] / sm[1] * df[1], sm[1] / sm[0] * df[0]]
        films = [ctx.real("t", lo=0, sample=0.1)]
        if film:
            films.append((lift_(ctx, film + S**2) / W**2, ctx.real("t2", lo=0, sample=0.05)))
        if ctx.symbolic:
            ctx.hint_sqrt(15, 6)
            if film:
                ctx.hint_sqrt(abs(film) ** 0.5 if film > 0 else J(ctx) * abs(film) ** 0.5)
        pol = ctx.pyth(5, 12, 13) if psi == "mix" else POL[psi]
        reverse(ctx, nn, ep, em, films, pol, rts, order, formulation)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"absorbing grating of two orders in Littrow mounting, {psi} polarization, formulation {formulation}: a given profile, every thickness, order {order}" + (", film below" if film else "")))


X = [(3, 1, 1, 2), (2, 1, 1, 3)]
for o in (0, -1):
    _grating(f"grating_s_{-o}", "pp", "s", o)
    _grating(f"grating_s_evanescent_{-o}", "pe", "s", o)
    _grating(f"grating_p_{-o}", "pp", "p", o)
    _grating(f"grating_p_evanescent_{-o}", "pe", "p", o)
    _grating(f"grating_s_tangent_{-o}", "pp", "s", o, "tangent")
    _absorbing(f"absorbing_s_{-o}", X, "s", o)
    _absorbing(f"absorbing_p_{-o}", X, "p", o)
    _absorbing(f"absorbing_mix_{-o}", X, "mix", o)
    _absorbing(f"lossless_film_{-o}", [(3, 1, 0, 1), (2, 1, 0, 1)], "p", o, film=225, tier="thorough")
