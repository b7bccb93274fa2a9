"""Complex amplitudes against efficiencies."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq
from .common import J, amplitudes, conj, lift_, ratlat, ratwave

ABOUT = "diffraction_efficiencies(complex=True) and (complex=False) of the same simulation."
HARNESSES = []


def abs2(x):
    return x * conj(x)


def compare(ctx, sim, prop_in, prop_out):
    """prop_in / prop_out: which orders propagate in the outer media"""
    R, T = sim.diffraction_efficiencies(orders=True)
    r, t = sim.diffraction_efficiencies(orders=True, complex=True)
    ctx.observe("r", r)
    ctx.observe("t", t)
    nh = sim.nh
    for h in range(nh):
        for nm, x, X, ok in (("r", r, R, prop_in[h]), ("t", t, T, prop_out[h])):
            ctx.prove_eq(f"|{nm}|^2 order {h}", abs2(x[0, h]) + abs2(x[1, h]) + abs2(x[2, h]), X[h] if ok else 0)
            if not ok:
                ctx.prove_eq(f"{nm}: no power in an evanescent order", X[h], 0)
    rs, ts = sim.diffraction_efficiencies(complex=True)
    for c in range(3):
        x, y = 0, 0
        for h in range(nh):
            x, y = x + r[c, h], y + t[c, h]
        ctx.prove_eq("sum r", rs[c], x)
        ctx.prove_eq("sum t", ts[c], y)


NAMES = [("Superstrate", "Substrate"), ("sup", "sub"), ("a", "Superstrate"), ("Substrate", "Superstrate")]


@harness(HARNESSES, bounds="one interface: every wave, index and real normal wavenumber of the substrate; 4 pairs of names")
def interface(ctx, nn):
    q = ctx.real("q", lo=0)
    a, b = ctx.choice("names", NAMES)
    sim, d = setup(ctx, nn, q, [], sup_name=a)
    sim.layers[-1].name = b
    sim.layer_names[-1] = b
    root(ctx, d, q)
    compare(ctx, sim, [True], [True])


def root(ctx, d, q):
    if ctx.symbolic:
        q1 = d["n"] * d["w"] * d["c"]
        x = ctx.real("ratio", lo=0, sample=float((q / q1).v) ** 0.5)
        ctx.assume(x * x * q1 == q, "ratio: square root of q / q1 (auxiliary)")
        ctx.inputs.pop("ratio")


@harness(HARNESSES, bounds="total reflection: every wave and imaginary normal wavenumber of the substrate")
def evanescent(ctx, nn):
    sim, d = setup(ctx, nn, J(ctx) * ctx.real("kappa", lo=0), [])
    compare(ctx, sim, [True], [False])


def _film(name, kind, psi, phi=0):
    def f(ctx, nn):
        q = kindq(ctx, "q", kind)
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        x = ctx.real("x", lo=0)
        # w n cos(theta) = 45/17
        q2 = x * x * 45 / 17
        sim, d = setup(ctx, nn, q2, [(q, ctx.real("t", lo=0))], psi=ps, phi=ph, num=True, th=ctx.pyth(15, 8, 17))
        if ctx.symbolic:
            ctx.hint_sqrt(x, x * lift_(ctx, 1.5))
        compare(ctx, sim, [True], [True])

    HARNESSES.append(Harness(name, f, bounds=f"one film ({kind}) of every thickness, every film and substrate; one oblique wave"))


for k in "pe":
    _film(f"film_{k}_p", k, "p")
    _film(f"film_{k}_s", k, "s")
    _film(f"film_{k}_mix", k, "mix", "345")


def _outer(name, kind, names=NAMES):
    def f(ctx, nn):
        """outer layers of given names and thicknesses"""
        L = ratlat(ctx, nn, [[0], [0]]).Layer
        a, b = ctx.choice("names", names)
        t0, t2 = [ctx.real(x, lo=0) if ctx.choice(x + " given", [1, 0]) else None for x in ("t0", "t2")]
        film = lift_(ctx, 81) / 289 if kind == "p" else lift_(ctx, -64) / 289
        ls = [L(a, epsilon=1, thickness=t0), L("film", epsilon=film, thickness=ctx.real("t", lo=0)), L(b, epsilon=lift_(ctx, 625) / 289, thickness=t2)]
        sim = nn.Simulation(ls, ratwave(ctx, nn, psi=ctx.pyth()), nh=1)
        compare(ctx, sim, [True], [True])

    HARNESSES.append(Harness(name, f, bounds="outer layers of any thickness (or none), 4 pairs of names; film of every thickness; normal incidence"))


_outer("outer_e", "e")
_outer("outer_p", "p", NAMES[:2])


def _harmonics(name, e, sub, prop_out, one_d=False):
    def f(ctx, nn):
        hs = [[0, 1, -1], [0, 0, 0]] if one_d else [[1, 0, 0], [0, 0, 1]]
        hs = [[int(x) for x in r] for r in hs]
        L = ratlat(ctx, nn, hs, one_d).Layer
        ls = [L("a", epsilon=1)] + ([L("f", epsilon=lift_(ctx, e) / 289, thickness=ctx.real("t", lo=0, sample=0.1))] if e else []) + [L("b", epsilon=lift_(ctx, sub) / 289)]
        sim = nn.Simulation(ls, ratwave(ctx, nn, psi=0), nh=3)
        a = amplitudes(ctx, 6)
        below = ctx.choice("from", ["below", "above"]) == "below"
        if below:
            # waves from below: every reflected order, no incident wave to take out
            sim.bN = a
        else:
            sim.a0 = a
        R, T = sim.diffraction_efficiencies(orders=True)
        r, t = sim.diffraction_efficiencies(orders=True, complex=True)
        ctx.observe("r", r)
        z = [int(sim.harmonics[0, h]) == 0 and int(sim.harmonics[1, h]) == 0 for h in range(3)]
        for h in range(3):
            if below and not z[h]:
                ctx.prove_eq(f"|r|^2 order {h}", abs2(r[0, h]) + abs2(r[1, h]) + abs2(r[2, h]), R[h])
            elif not below:
                ctx.prove_eq(f"|t|^2 order {h}", abs2(t[0, h]) + abs2(t[1, h]) + abs2(t[2, h]), T[h] if z[h] or prop_out else 0)
        rs, ts = sim.diffraction_efficiencies(complex=True)
        for c in range(3):
            ctx.prove_eq("sum r", rs[c], r[c, 0] + r[c, 1] + r[c, 2])
            ctx.prove_eq("sum t", ts[c], t[c, 0] + t[c, 1] + t[c, 2])

    HARNESSES.append(Harness(name, f, bounds="three orders reflected with every amplitude (waves coming from below), film of given medium and every thickness"))


_harmonics("orders", None, 625, True)
_harmonics("orders_evanescent", None, 81, False)
_harmonics("orders_film", -64, 625, True)
_harmonics("orders_film_ev", -400, 144, False)
_harmonics("orders_1d", -400, 625, True, True)
