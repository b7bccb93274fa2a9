"""Continuity of the tangential fields."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq, wavenum
from .common import PI, J, amplitudes, arr, lift_, modes, ratlat, ratwave

ABOUT = "get_field_fourier at both sides of every interface of a stack."
HARNESSES = []


def continuous(ctx, sim, zs=None):
    """zs: thicknesses of the layers"""
    n = len(sim.layers)
    for i in range(n - 1):
        t = sim.layers[i].thickness or 0 if zs is None else zs[i]
        a = sim.get_field_fourier(i, t)[0]
        b = sim.get_field_fourier(i + 1, 0)[0]
        for f in range(2):
            for c in range(2):
                ctx.prove_eq(f"{'EH'[f]}{'xy'[c]} at interface {i}", a[f, c], b[f, c])
    ctx.observe("f", b)


@harness(HARNESSES, bounds="one interface: every wave, index and normal wavenumber (propagating or absorbing) of the substrate")
def interface(ctx, nn):
    q = ctx.real("a", lo=0) + (J(ctx) * ctx.real("b", lo=0) if ctx.choice("absorbing", [0, 1]) else 0)
    sim, d = setup(ctx, nn, q, [])
    continuous(ctx, sim)
    # the displacement and the magnetic field normal to the interface
    a, b = sim.get_field_fourier(0)[0], sim.get_field_fourier(1)[0]
    ctx.prove_eq("Hz", a[1, 2], b[1, 2])
    ctx.prove_eq("Dz", a[0, 2] * sim.layers[0].epsilon, b[0, 2] * sim.layers[1].epsilon)


def _film(name, kind, psi, phi=0, num=False):
    def f(ctx, nn):
        q, q2, t = kindq(ctx, "q", kind), kindq(ctx, "q2", "p"), ctx.real("t", lo=0)
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        sim, d = setup(ctx, nn, q2, [(q, t)], psi=ps, phi=ph, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        continuous(ctx, sim)

    HARNESSES.append(Harness(name, f, bounds=f"one film ({kind}), every thickness and media; " + ("one oblique wave" if num else f"every polar angle and wavelength, azimuth {phi}, {psi} polarization")))


for k in "pe":
    _film(f"film_{k}_p", k, "p")
    _film(f"film_{k}_s", k, "s", 90)
    _film(f"film_{k}_mix", k, "mix", "345", num=True)


def _outer(ctx, nn, kind):
    """outer layers of finite thickness"""
    d = wavenum(ctx, nn)
    q, t = kindq(ctx, "q", kind), ctx.real("t", lo=0)
    t0, t2 = ctx.real("t0", lo=0), ctx.real("t2", lo=0)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer
    return nn.Simulation([L("a", epsilon=d["n"] ** 2, thickness=t0), L("f", thickness=t, epsilon=eps(d, q)), L("b", epsilon=eps(d, 3), thickness=t2)], d["pw"], nh=1)


@harness(HARNESSES, bounds="outer layers given a thickness (every value), propagating film")
def outer_thickness(ctx, nn):
    continuous(ctx, _outer(ctx, nn, "p"))


@harness(HARNESSES, bounds="outer layers given a thickness (every value), evanescent film")
def outer_thickness_e(ctx, nn):
    continuous(ctx, _outer(ctx, nn, "e"))


@harness(HARNESSES, bounds="four layers of given media (one evanescent), every thickness, one oblique wave")
def four_layers(ctx, nn):
    d = wavenum(ctx, nn)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer
    ls = [L("a", epsilon=d["n"] ** 2)]
    for i, q in enumerate((4, 2 * J(ctx))):
        ls.append(L(f"f{i}", thickness=ctx.real(f"t{i}", lo=0), epsilon=eps(d, q)))
    ls.append(L("b", epsilon=eps(d, 3)))
    continuous(ctx, nn.Simulation(ls, d["pw"], nh=1))


def _harmonics(name, e, one_d=False, ext="given", tier="quick"):
    def f(ctx, nn):
        hs = [[0, 1, -1], [0, 0, 0]] if one_d else ctx.choice("list", [[[0, 1], [0, 0]], [[0, 0], [-1, 0]], [[1, 0, 0], [0, 0, 1]]])
        lat = ratlat(ctx, nn, hs, one_d)
        L = lat.Layer
        q = 289
        layers = [L("a", epsilon=1)]
        for i, x in enumerate(e):
            layers.append(L(f"f{i}", epsilon=lift_(ctx, x) / q, thickness=ctx.real(f"t{i}", lo=0, sample=0.1)))
        layers.append(L("b", epsilon=lift_(ctx, 625) / q))
        sim = nn.Simulation(layers, ratwave(ctx, nn), nh=len(hs[0]))
        sim.a0 = amplitudes(ctx, 2 * len(hs[0]))
        continuous(ctx, sim)

    HARNESSES.append(Harness(name, f, tier=tier, bounds="two or three harmonics with every incident amplitude; film(s) of every thickness and given media" + ("; 1D lattice" if one_d else "; oblique lattice")))


_harmonics("harmonics", (81,))
_harmonics("harmonics_metal", (-64,))
_harmonics("harmonics_two", (-64, -400))
_harmonics("harmonics_1d", (144,), True)
_harmonics("harmonics_1d_metal", (-400,), True)

# ------------------------------------------------------------ patterned layers


def pattern(ctx, nn, k=0):
    from fractions import Fraction as F

    v = [[2 + ((3 * i + 5 * j + k * i * j) % 7) / (2 if not ctx.symbolic else F(2)) for j in range(3)] for i in range(4)]
    return arr(ctx, v) if ctx.symbolic else nn.backend.array(v)


def _pat(name, kinds, full, given, n=1, tier="quick"):
    def f(ctx, nn):
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
        d = wavenum(ctx, nn)
        modes(ctx, kinds, full=full, given=given)
        L = lat.Layer
        ls = [L("a", epsilon=d["n"] ** 2)]
        for i in range(n):
            ls.append(L(f"g{i}", thickness=ctx.real(f"t{i}", lo=0), epsilon=pattern(ctx, nn, i + 1)))
        ls.append(L("b", epsilon=eps(d, 5)))
        continuous(ctx, nn.Simulation(ls, d["pw"], nh=1))

    HARNESSES.append(Harness(name, f, tier=tier, validate=False, bounds=f"{n} patterned layer(s) with {'given' if given else 'arbitrary'} {'full' if full else 'diagonal'} 2x2 modes ({kinds}), every thickness; one oblique wave"))


_pat("patterned_e", "e", True, True)
_pat("patterned_pe", "pe", True, True)
_pat("patterned_any_p", "p", False, False)
_pat("patterned_any_e", "e", False, False)
_pat("two_patterned", "e", False, True, n=2)
_pat("two_patterned_full", "e", True, True, n=2, tier="thorough")
