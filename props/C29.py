"""Scale and rotation invariance."""
from symnn.run import Harness, harness

from .C06 import PSI
from .C08 import kindq
from .common import J, PI, amplitudes, lift_, modes, ratlat

ABOUT = "Two simulations related by a change of unit or a rotation about z."
HARNESSES = []


def equal(ctx, s1, s2, what, rot=None):
    for nm, x, y in zip("RT", s1.diffraction_efficiencies(orders=True), s2.diffraction_efficiencies(orders=True)):
        ctx.prove_eq(f"{what}: {nm}", y, x)
    ctx.observe("R", x)
    for nm, x, y in zip("rt", s1.diffraction_efficiencies(orders=True, complex=True), s2.diffraction_efficiencies(orders=True, complex=True)):
        if rot is not None:
            c, s = rot
            x = [c * x[0] - s * x[1], s * x[0] + c * x[1], x[2]]
        for k in range(3):
            ctx.prove_eq(f"{what}: complex {nm}", y[k], x[k])


def _scale_uniform(name, kind, psi, phi=0, num=True, tier="quick"):
    def f(ctx, nn):
        k = ctx.real("k", lo=0, sample=1.7)
        q, q2, t = kindq(ctx, "q", kind), kindq(ctx, "q2", "p"), ctx.real("t", lo=0)
        w, n = 2, 1.5
        th = ctx.pyth(15, 8, 17)
        c, s = ctx.cs(th)
        kt2 = (n * w * s) ** 2
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        if ctx.symbolic:
            ctx.hint_sqrt(w * c / k, n * w * c / k, q / k, q2 / k, w * c, n * w * c, q, q2)
        sims = []
        for u in (1, k):
            lat = nn.Lattice(((u, 0), (0, u)), discretization=9)
            L = lat.Layer
            pw = nn.PlaneWave(wavelength=2 * PI / w * u, angles=(th, ph, ps))
            sims.append(nn.Simulation([L("a", epsilon=n * n), L("f", thickness=t * u, epsilon=(q * q + kt2) / w**2), L("b", epsilon=(q2 * q2 + kt2) / w**2)], pw, nh=1))
        equal(ctx, *sims, "scale")

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"every factor; film ({kind}) of every thickness and media, one oblique wave, {psi} polarization"))


for k in "pe":
    _scale_uniform(f"scale_film_{k}_p", k, "p")
    _scale_uniform(f"scale_film_{k}_s", k, "s")
    _scale_uniform(f"scale_film_{k}_mix", k, "mix", "345")


def _scale_orders(name, e, one_d=False):
    def f(ctx, nn):
        k = ctx.real("k", lo=0, sample=1.7)
        hs = [[0, 1], [0, 0]] if one_d else [[1, 0, 0], [0, 0, 1]]
        n = len(hs[0])
        if ctx.symbolic:
            for x in (17, 8, 9, 12 * J(ctx), 8 * J(ctx), 17 * J(ctx), 25, 20):
                ctx.hint_sqrt(x / k)
        t = ctx.real("t", lo=0, sample=0.1)
        a = amplitudes(ctx, 2 * n)
        sims = []
        for u in (1, k):
            base = ratlat(ctx, nn, hs, one_d)
            v = base.basis_vectors
            v = lift_(ctx, PI) * 2 / 15 * u if one_d else tuple(tuple(x * u for x in y) for y in v)
            L = nn.Lattice(v, discretization=9 if one_d else (9, 9), harmonics_array=nn.backend.array(hs)).Layer
            pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 17 * u, angles=(0, 0, 0))
            sim = nn.Simulation([L("a", epsilon=1), L("f", thickness=t * u, epsilon=lift_(ctx, e) / 289), L("b", epsilon=lift_(ctx, 625) / 289)], pw, nh=n)
            sim.a0 = a
            sims.append(sim)
        equal(ctx, *sims, "scale")

    HARNESSES.append(Harness(name, f, bounds="every factor; diffraction orders with every amplitude; film of every thickness"))


_scale_orders("scale_orders", -64)
_scale_orders("scale_orders_p", 81)
_scale_orders("scale_orders_1d", -64, True)


def _rot_uniform(name, kind, psi, tier="quick"):
    def f(ctx, nn):
        """any rotation angle"""
        q, q2, t = kindq(ctx, "q", kind), kindq(ctx, "q2", "p"), ctx.real("t", lo=0)
        w, n = 2, 1.5
        th = ctx.pyth(15, 8, 17)
        c, s = ctx.cs(th)
        kt2 = (n * w * s) ** 2
        ps = PSI[psi]
        al = ctx.angle("alpha")
        ca, sa = ctx.cs(al)
        if ctx.symbolic:
            ctx.hint_sqrt(w * c, n * w * c, q, q2)
        sims = []
        for a in (0, al):
            x, y = (1, 0) if a is 0 else (ca, sa)
            lat = nn.Lattice(((x, y), (-y, x)), discretization=9)
            L = lat.Layer
            pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, a, ps))
            ls = [L("a", epsilon=n * n)]
            if kind != "-":
                ls.append(L("f", thickness=t, epsilon=(q * q + kt2) / w**2))
            sims.append(nn.Simulation(ls + [L("b", epsilon=(q2 * q2 + kt2) / w**2)], pw, nh=1))
        equal(ctx, *sims, "rotation", (ca, sa))

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"every rotation angle; {'interface' if kind == '-' else f'film ({kind}) of every thickness'} and media, one oblique wave, {psi} polarization"))


_rot_uniform("rotate_interface_p", "-", "p")
_rot_uniform("rotate_interface_s", "-", "s")
_rot_uniform("rotate_film_e_s", "e", "s", tier="thorough")


def _rot_orders(name, e, rot):
    def f(ctx, nn):
        hs = [[1, 0, 0], [0, 0, 1]]
        t = ctx.real("t", lo=0, sample=0.1)
        a = amplitudes(ctx, 6)
        p, q, r = rot
        ca, sa = lift_(ctx, p) / r, lift_(ctx, q) / r
        al = ctx.pyth(p, q, r)
        ps = ctx.pyth(5, 12, 13)
        sims = []
        for rt in (False, True):
            base = ratlat(ctx, nn, hs)
            v = base.basis_vectors
            if rt:
                v = tuple((ca * x - sa * y, sa * x + ca * y) for x, y in v)
            L = nn.Lattice(v, discretization=(9, 9), harmonics_array=nn.backend.array(hs)).Layer
            pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 17, angles=(0, al if rt else 0, ps))
            sim = nn.Simulation([L("a", epsilon=1), L("f", thickness=t, epsilon=lift_(ctx, e) / 289), L("b", epsilon=lift_(ctx, 625) / 289)], pw, nh=3)
            # amplitudes of (-Hx? ...) transverse magnetic fields: rotate as vectors
            if rt:
                sim.a0 = nn_stack(ctx, [ca * a[i] - sa * a[i + 3] for i in range(3)] + [sa * a[i] + ca * a[i + 3] for i in range(3)])
            else:
                sim.a0 = a
            sims.append(sim)
        for nm, x, y in zip("RT", *[s.diffraction_efficiencies(orders=True) for s in sims]):
            ctx.prove_eq(f"rotation: {nm}", y, x)
        ctx.observe("R", x)
        for i, z in ((1, 0), (1, t), (2, 0)):
            F, G = [s.get_field_fourier(i, z)[0] for s in sims]
            for g in range(2):
                ctx.prove_eq("field x", G[g, 0], ca * F[g, 0] - sa * F[g, 1])
                ctx.prove_eq("field y", G[g, 1], sa * F[g, 0] + ca * F[g, 1])
                ctx.prove_eq("field z", G[g, 2], F[g, 2])

    HARNESSES.append(Harness(name, f, bounds=f"rotation by the angle of ({rot[0]}, {rot[1]}); three orders with every amplitude; film of every thickness"))


def nn_stack(ctx, x):
    from .common import arr

    return arr(ctx, x)


_rot_orders("rotate_orders", -64, (3, 4, 5))
_rot_orders("rotate_orders_90", 81, (0, 1, 1))
_rot_orders("rotate_orders_flip", -400, (-5, 12, 13))
