"""Maxwell stress."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq, wavenum
from .C09 import pattern
from .C10 import coefs
from .C13 import make, orders
from .C14 import field
from .C15 import stack as tensor_stack
from .C16 import littrow
from .common import PI, J, amplitudes, arr, conj, lift_, modes, ratlat, ratwave

ABOUT = "get_z_stress_tensor_integral against the fields of the same layer, at every depth."
HARNESSES = []


def re(x):
    return (x + conj(x)) / 2


def stress(ctx, sim, i, z, what=""):
    """from the fields; returns the tensor of the code"""
    T = sim.get_z_stress_tensor_integral(i, z)
    F = sim.get_field_fourier(i, z)[0]
    e = sim.layers[i].epsilon
    want = [0, 0, 0]
    for h in range(sim.nh):
        (ex, ey, ez), (hx, hy, hz) = [[F[f, c, h] for c in range(3)] for f in range(2)]
        ce = conj(e)
        want[0] = want[0] + re(ex * conj(ez) * ce + hx * conj(hz))
        want[1] = want[1] + re(ey * conj(ez) * ce + hy * conj(hz))
        want[2] = want[2] + re(ez * conj(ez) * ce + hz * conj(hz) - (ex * conj(ex) + ey * conj(ey)) * ce - hx * conj(hx) - hy * conj(hy)) / 2
    for c in range(3):
        ctx.prove_eq(f"{what} T{'xyz'[c]}z", T[c], want[c])
    ctx.observe("T", T)
    return T


def _film(name, kind, psi, phi=0, num=True):
    def f(ctx, nn):
        q = ctx.real("a", lo=0) + J(ctx) * ctx.real("b", lo=0) if kind == "a" else kindq(ctx, "q", kind)
        q2, t, z = kindq(ctx, "q2", "p"), ctx.real("t", lo=0, sample=0.9), ctx.real("z", lo=0, sample=0.35)
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        sim, d = setup(ctx, nn, q2, [(q, t)], psi=ps, phi=ph, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        T = stress(ctx, sim, 1, z)
        if kind == "a":
            return
        for c, (x, y) in enumerate(zip(T, sim.get_z_stress_tensor_integral(1, 0))):
            ctx.prove_eq(f"constant T{'xyz'[c]}z", x, y)
        A, B = stress(ctx, sim, 0, z, "incidence"), sim.get_z_stress_tensor_integral(0)
        C, D = stress(ctx, sim, 2, z, "substrate"), sim.get_z_stress_tensor_integral(2)
        for c in range(3):
            ctx.prove_eq("constant, incidence", A[c], B[c])
            ctx.prove_eq("constant, substrate", C[c], D[c])
        # the tangential stress is continuous
        for c in range(2):
            ctx.prove_eq("continuous", T[c], D[c])
            ctx.prove_eq("continuous", B[c], D[c])

    HARNESSES.append(Harness(name, f, bounds=f"one film ({kind}) of every thickness and media, every depth; one oblique wave, azimuth {phi}, {psi} polarization"))


for k in "pe":
    _film(f"film_{k}_p", k, "p")
    _film(f"film_{k}_s", k, "s", 90)
    _film(f"film_{k}_mix", k, "mix", "345")
_film("film_a_s", "a", "s")


def _normal(name, kind):
    def f(ctx, nn):
        """normal incidence: no tangential force"""
        q, t, z = kindq(ctx, "q", kind), ctx.real("t", lo=0, sample=0.9), ctx.real("z", lo=0, sample=0.35)
        sim, d = setup(ctx, nn, kindq(ctx, "q2", "p"), [(q, t)], psi=ctx.pyth(5, 12, 13), phi=ctx.pyth(), num=True, th=0)
        for i in range(3):
            T = sim.get_z_stress_tensor_integral(i, z)
            ctx.prove_eq("Txz", T[0], 0)
            ctx.prove_eq("Tyz", T[1], 0)

    HARNESSES.append(Harness(name, f, bounds=f"normal incidence: film ({kind}) of every thickness and media, every depth"))


_normal("normal_p", "p")
_normal("normal_e", "e")


def _harmonics(name, e, one_d=False):
    def f(ctx, nn):
        hs = [[0, 1, -1], [0, 0, 0]] if one_d else [[1, 0, 0], [0, 0, 1]]
        L = ratlat(ctx, nn, hs, one_d).Layer
        sim = nn.Simulation([L("a", epsilon=1), L("f", epsilon=lift_(ctx, e) / 289, thickness=ctx.real("t", lo=0, sample=0.1)), L("b", epsilon=lift_(ctx, 625) / 289)], ratwave(ctx, nn), nh=3)
        sim.a0 = amplitudes(ctx, 6)
        z = ctx.real("z", lo=0, sample=0.05)
        T = stress(ctx, sim, 1, z)
        for c, (x, y) in enumerate(zip(T, sim.get_z_stress_tensor_integral(1, 0))):
            ctx.prove_eq(f"constant T{'xyz'[c]}z", x, y)
        D = sim.get_z_stress_tensor_integral(2)
        for c in range(2):
            ctx.prove_eq("continuous", T[c], D[c])

    HARNESSES.append(Harness(name, f, bounds="three orders with every incident amplitude, film of given medium and every thickness and depth"))


_harmonics("harmonics", 81)
_harmonics("harmonics_metal", -64)
_harmonics("harmonics_1d", 144, True)


@harness(HARNESSES, bounds="patterned layer of two harmonics with given modes: every amplitude of the modes", validate=False)
def patterned(ctx, nn):
    L = ratlat(ctx, nn, [[0, 1], [0, 0]], discretization=(4, 3)).Layer
    modes(ctx, "pe", given=True)
    e = pattern(ctx, nn, 1)
    sim = nn.Simulation([L("a", epsilon=1), L("g", thickness=0, epsilon=e), L("b", epsilon=2)], ratwave(ctx, nn), nh=2)
    am, bm = amplitudes(ctx, 4), amplitudes(ctx, 4, "b")
    sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
    T = sim.get_z_stress_tensor_integral(1, 0)
    F = sim.get_field_fourier(1, 0)[0]
    H = [(int(sim.harmonics[0, i]), int(sim.harmonics[1, i])) for i in range(2)]
    C = coefs(ctx, e, H)
    want = [0, 0, 0]
    for h in range(2):
        (ex, ey, ez), (hx, hy, hz) = [[F[f, c, h] for c in range(3)] for f in range(2)]
        dx, dy, dz = [sum(C[h][j] * F[0, c, j] for j in range(2)) for c in range(3)]
        want[0] = want[0] + re(ex * conj(dz) + hx * conj(hz))
        want[1] = want[1] + re(ey * conj(dz) + hy * conj(hz))
        want[2] = want[2] + re(ez * conj(dz) + hz * conj(hz) - ex * conj(dx) - ey * conj(dy) - hx * conj(hx) - hy * conj(hy)) / 2
    for c in range(3):
        ctx.prove_eq(f"T{'xyz'[c]}z", T[c], want[c])


def _displaced(name, formulation, one_d=False, direction=None):
    """anisotropic layers and improved formulations: the displacement of the layer"""

    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        hs = [(0, 0), (1, 0)]
        shape = (4, 1) if one_d else (4, 3)
        I = J(ctx)

        def pat(v0, v1):
            v = [[v1 if (2 * x + y * x + y) % 3 else v0 for y in range(shape[1])] for x in range(shape[0])]
            return arr(ctx, v) if ctx.symbolic else nn.backend.array(v)

        def num(a, b, c=0):
            return lift_(ctx, a) / b + I * c

        kw = {}
        if formulation == "original":
            a, b, z = pat(2, num(7, 2)), pat(num(5, 2), 3), pat(2, 4)
            c = pat(num(1, 2, num(1, 4)), num(-1, 4, num(1, 2)))
            o = z * 0
            e = tensor_stack(ctx, nn, [[a, c, o], [c.conj(), b, o], [o, o, z]])
        else:
            z = pat(num(3, 2), 4)
            e = z
            if not one_d:
                tx, ty = [num(v, direction[2]) for v in direction[:2]]
                kw["tangent_field"] = field(ctx, nn, shape, tx, ty)
            else:
                tx, ty = 0, 1
        modes(ctx, "pe", given=True)
        sim, g = make(ctx, nn, e, hs, formulation, one_d=one_d, pw=nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 3, angles=(0, 0, 0)), **kw)
        am, bm = amplitudes(ctx, 4), amplitudes(ctx, 4, "b")
        sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
        T = sim.get_z_stress_tensor_integral(1, 0)
        F = sim.get_field_fourier(1, 0)[0]
        H = orders(sim)
        Z = coefs(ctx, z, H)
        n = range(2)
        if formulation == "original":
            A, B, C, D = [coefs(ctx, x, H) for x in (a, b, c, c.conj())]
            dx = [sum(A[h][j] * F[0, 0, j] + C[h][j] * F[0, 1, j] for j in n) for h in n]
            dy = [sum(D[h][j] * F[0, 0, j] + B[h][j] * F[0, 1, j] for j in n) for h in n]
        else:
            V = coefs(ctx, 1 / z, H)
            det = V[0][0] * V[1][1] - V[0][1] * V[1][0]
            W = [[V[1][1] / det, -V[0][1] / det], [-V[1][0] / det, V[0][0] / det]]
            et = [tx * F[0, 0, j] + ty * F[0, 1, j] for j in n]
            en = [tx * F[0, 1, j] - ty * F[0, 0, j] for j in n]
            dt = [sum(Z[h][j] * et[j] for j in n) for h in n]
            dn = [sum(W[h][j] * en[j] for j in n) for h in n]
            dx = [tx * dt[h] - ty * dn[h] for h in n]
            dy = [ty * dt[h] + tx * dn[h] for h in n]
        dz = [sum(Z[h][j] * F[0, 2, j] for j in n) for h in n]
        want = [0, 0, 0]
        for h in n:
            (ex, ey, ez), (hx, hy, hz) = [[F[f, c, h] for c in range(3)] for f in range(2)]
            want[0] = want[0] + re(ex * conj(dz[h]) + hx * conj(hz))
            want[1] = want[1] + re(ey * conj(dz[h]) + hy * conj(hz))
            want[2] = want[2] + re(ez * conj(dz[h]) + hz * conj(hz) - ex * conj(dx[h]) - ey * conj(dy[h]) - hx * conj(hx) - hy * conj(hy)) / 2
        for c in range(3):
            ctx.prove_eq(f"T{'xyz'[c]}z", T[c], want[c])

    HARNESSES.append(Harness(name, f, validate=False, bounds=f"patterned layer ({'Hermitian tensor' if formulation == 'original' else 'formulation ' + formulation}) of two harmonics with given modes: every amplitude of the modes"))


_displaced("patterned_tensor", "original")
_displaced("patterned_tensor_1d", "original", True)
_displaced("patterned_tangent", "tangent", direction=(3, 4, 5))
_displaced("patterned_tangent_1d", "tangent", True)
_displaced("patterned_pol", "pol", direction=(1, 0, 1))


def _littrow(name, triple, ep, em, roots, sub, formulation="original", psi=0):
    def f(ctx, nn):
        a, b = [lift_(ctx, x[0]) / x[1] for x in (ep, em)]
        t, z = ctx.real("t", lo=0, sample=0.1), ctx.real("z", lo=0, sample=0.03)
        r = [lift_(ctx, x[0]) / x[1] * (J(ctx) if len(x) > 2 else 1) for x in roots]
        if ctx.symbolic:
            ctx.hint_sqrt(2)
            ctx.hint_sqrt(abs(sub) ** 0.5 if sub > 0 else J(ctx) * abs(sub) ** 0.5)
        sim = littrow(ctx, nn, a, b, [t], psi, lift_(ctx, sub + triple[1] ** 2) / triple[2] ** 2, formulation, roots=r, triple=triple)
        X, Y = sim.get_z_stress_tensor_integral(1, 0), sim.get_z_stress_tensor_integral(1, z)
        ctx.prove_eq("Tzz at every depth of the grating", X[2], Y[2])
        ctx.prove_eq("Tyz at every depth of the grating", X[1], Y[1])
        # tangential stresses are continuous
        A = sim.get_z_stress_tensor_integral(0, 0)
        for c in range(2):
            ctx.prove_eq("tangential stress at the interface", A[c], X[c])
        ctx.observe("T", X)

    HARNESSES.append(Harness(name, f, bounds=f"lossless grating of two orders in Littrow mounting, {'p' if psi == 0 else 's' if psi == 90 else 'mixed'} polarization, formulation {formulation}: a given profile, every thickness and depth"))


_littrow("grating_p", (3, 4, 5), (20, 1), (16, 5), [(20, 1), (44, 5)], 9)
_littrow("grating_p_evanescent", (4, 3, 5), (9, 5), (1, 5), [(6, 1, 1), (2, 1)], 16)
_littrow("grating_p_tangent", (4, 3, 5), (18, 25), (-6, 25), [(5, 1), (3, 1)], 16, "tangent")
_littrow("grating_p_tangent_e", (3, 4, 5), (4, 9), (1, 4), [(65, 16, 1), (55, 36, 1)], 9, "tangent")
_littrow("grating_mix", (3, 4, 5), (20, 1), (16, 5), [(20, 1), (44, 5)], 9, psi=45)
