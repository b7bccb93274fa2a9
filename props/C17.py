"""Decaying exponentials."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq, wavenum
from .C09 import pattern
from .common import J, Modes, amplitudes, lift_, modes, ratlat, ratwave

ABOUT = "z wavenumbers of the layers and arguments of every exponential evaluated while querying a simulation."
HARNESSES = []


def branch(ctx, q, what, w2=None):
    ctx.prove(f"{what}: Im q >= 0", q.imag >= 0)
    if not ctx.symbolic:
        ctx.prove(f"{what}: Re q >= 0 when real", abs(q.imag) > 1e-9 * abs(q) or q.real >= -1e-9 * abs(q))
    else:
        from symnn.core import lift

        q = lift(q)
        ctx.prove(f"{what}: Re q >= 0 when real", (q.imag > 0) | (q.real >= 0))
    if w2 is not None:
        ctx.prove_eq(f"{what}: q^2", q * q, w2)


@harness(HARNESSES, bounds="every passive permittivity (Im >= 0, either sign of the real part) of film and substrate; one oblique wave")
def uniform(ctx, nn):
    d = wavenum(ctx, nn)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer
    e, e2 = ctx.cplx("e", im_lo=0, sample=-2 + 0.3j), ctx.cplx("e2", im_lo=0, sample=1.2 + 0.1j)
    sim = nn.Simulation([L("a", epsilon=d["n"] ** 2), L("f", thickness=1, epsilon=e), L("b", epsilon=e2)], d["pw"], nh=1)
    sim.solve()
    for l, x in zip(sim.layers, (d["n"] ** 2, e, e2)):
        for q in l.eigenvalues:
            branch(ctx, q, l.name, x * d["w"] ** 2 - d["kt2"])


@harness(HARNESSES, bounds="every passive permittivity, three orders of an oblique lattice, normal incidence")
def uniform_orders(ctx, nn):
    L = ratlat(ctx, nn, [[1, 0, 0], [0, 0, 1]]).Layer
    e = ctx.cplx("e", im_lo=0, sample=-2 + 0.3j)
    sim = nn.Simulation([L("a", epsilon=1), L("b", epsilon=e)], ratwave(ctx, nn), nh=3)
    sim.solve()
    for i, q in enumerate(sim.layers[1].eigenvalues):
        k2 = sim.kx[i % 3] ** 2 + sim.ky[i % 3] ** 2
        branch(ctx, q, "b", e * 289 - k2)


class Free(Modes):
    """eigenvalues anywhere in the complex plane"""

    def __call__(self, A):
        import numpy as np

        from symnn import shim
        from symnn.core import IMAG, ONE, ZERO

        n = A.shape[0]
        w = np.empty(n, dtype=object)
        V = np.empty((n, n), dtype=object)
        for i in range(n):
            w[i] = self.ctx.fresh(f"#w{i}", (-1) ** i * 2.0) + IMAG * self.ctx.fresh(f"#wi{i}", 0.7 - 0.9 * i)
            for j in range(n):
                V[i, j] = ONE if i == j else ZERO
        self.w = list(w)
        return shim.wrap(w), shim.wrap(V)


@harness(HARNESSES, bounds="patterned layer, every complex pair of eigenvalues of its matrix", validate=False)
def patterned(ctx, nn):
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
    d = wavenum(ctx, nn)
    L = lat.Layer
    if ctx.symbolic:
        ctx.eig_stub = st = Free(ctx)
    sim = nn.Simulation([L("a", epsilon=d["n"] ** 2), L("g", thickness=1, epsilon=pattern(ctx, nn, 1)), L("b", epsilon=2)], d["pw"], nh=1)
    sim.solve()
    for i, q in enumerate(sim.layers[1].eigenvalues):
        branch(ctx, q, "g", st.w[i] if ctx.symbolic else None)


def decays(ctx, log):
    for a in log:
        a = lift_(ctx, a)
        # (rounding on replay)
        ctx.prove("|exp| <= 1", a.real <= (0 if ctx.symbolic else 1e-9 * abs(a)))
    if ctx.symbolic:
        ctx.prove("exponentials seen", len(log) > 0)
        for a in list(ctx.div_log):
            # (an exponential of argument -800 is 0 in double precision)
            ctx.prove("finite", a >= -800)


def finite(ctx, x):
    import numpy as np

    if isinstance(x, (list, tuple)):
        for y in x:
            finite(ctx, y)
    elif not ctx.symbolic:
        ctx.prove("finite", bool(np.isfinite(np.asarray(x)).all()))


def query(ctx, sim, i, z):
    log = ctx.log_exp()
    finite(ctx, sim.get_S_matrix())
    finite(ctx, sim.diffraction_efficiencies())
    finite(ctx, sim.get_field_fourier(i, z))
    finite(ctx, sim.get_field_fourier(0))
    finite(ctx, sim.get_field_fourier(len(sim.layers) - 1))
    finite(ctx, sim.get_z_stress_tensor_integral(i, z))
    decays(ctx, log)


def depth(ctx):
    z, r = ctx.real("z", lo=0, strict=False, sample=0.2), ctx.real("rest", lo=0, strict=False, sample=0.3)
    ctx.assume(z + r > 0)
    return z, z + r


def _film(name, kind, psi, phi=0, num=False, sub="p"):
    def f(ctx, nn):
        q = ctx.real("a", lo=0) + J(ctx) * ctx.real("b", lo=0) if kind == "a" else kindq(ctx, "q", kind)
        z, t = depth(ctx)
        sim, d = setup(ctx, nn, kindq(ctx, "q2", sub), [(q, t)], psi=PSI[psi], phi=phi, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        query(ctx, sim, 1, z)

    HARNESSES.append(Harness(name, f, bounds=f"film ({kind}) of every thickness, every depth in it; " + ("one oblique wave" if num else f"every polar angle and wavelength, {psi} polarization")))


_film("film_p", "p", "p")
_film("film_e", "e", "s")
_film("film_e_tir", "e", "p", sub="e")
_film("film_a", "a", "s", num=True)


def _pat(name, kinds):
    def f(ctx, nn):
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
        d = wavenum(ctx, nn)
        modes(ctx, kinds, full=False, given=True)
        z, t = depth(ctx)
        L = lat.Layer
        t2 = ctx.real("t2", lo=0)
        sim = nn.Simulation([L("a", epsilon=d["n"] ** 2), L("g", thickness=t, epsilon=pattern(ctx, nn, 1)), L("m", thickness=t2, epsilon=eps(d, 2 * J(ctx))), L("b", epsilon=eps(d, 5))], d["pw"], nh=1)
        query(ctx, sim, 1, z)
        sim.get_field_fourier(2, 0)
        sim.get_S_matrix((1, 3))

    HARNESSES.append(Harness(name, f, validate=False, bounds=f"patterned layer with given modes ({kinds}) and a metallic film, every thickness and depth"))


_pat("patterned_e", "e")
_pat("patterned_pe", "pe")


@harness(HARNESSES, bounds="three orders, metallic film and evanescent orders outside; outer layers of any thickness, every depth")
def orders(ctx, nn):
    L = ratlat(ctx, nn, [[1, 0, 0], [0, 0, 1]]).Layer
    z, t = depth(ctx)
    t0 = ctx.real("t0", lo=0)
    sim = nn.Simulation([L("a", epsilon=1, thickness=t0), L("f", epsilon=lift_(ctx, -64) / 289, thickness=t), L("b", epsilon=lift_(ctx, 81) / 289, thickness=ctx.real("t2", lo=0))], ratwave(ctx, nn), nh=3)
    query(ctx, sim, 1, z)
