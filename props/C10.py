"""Maxwell's equations."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .C08 import eps, kindq, wavenum
from .C09 import pattern
from .common import PI, J, amplitudes, arr, expi, lift_, modes, ratlat, ratwave, root

ABOUT = "get_field_fourier at several depths of a layer."
HARNESSES = []


def equations(ctx, sim, i, z, what=""):
    """curl and divergence in a uniform layer at the depth z (depths 0 .. 2z)"""
    I = J(ctx)
    L = sim.layers[i]
    w, e = sim.omega, L.epsilon
    F = sim.get_field_fourier(i, [0, z, 2 * z])
    G = sim.get_field_fourier(i, z)
    ctx.prove_eq(f"{what} list of depths", G[0], F[1])
    for h in range(sim.nh):
        kx, ky = sim.kx[h], sim.ky[h]
        q2 = e * w**2 - kx**2 - ky**2
        q = L.eigenvalues[h]
        ctx.prove_eq(f"{what} dispersion", q * q, q2)
        (ex, ey, ez), (hx, hy, hz) = [[F[1, f, c, h] for c in range(3)] for f in range(2)]
        ctx.prove_eq(f"{what} curl E z", kx * ey - ky * ex, w * hz)
        ctx.prove_eq(f"{what} curl H z", kx * hy - ky * hx, -w * e * ez)
        d = {
            (0, 0): I * kx * ez + I * w * hy,
            (0, 1): I * ky * ez - I * w * hx,
            (1, 0): I * kx * hz - I * w * e * ey,
            (1, 1): I * ky * hz + I * w * e * ex,
            # divergence
            (0, 2): -I * (kx * ex + ky * ey),
            (1, 2): -I * (kx * hx + ky * hy),
        }
        P = expi(ctx, q * z)
        for (f, c), dz in d.items():
            # f(2z) - f(0) = 2 sin(qz) / q * f'(z)
            ctx.prove_eq(f"{what} d/dz {'EH'[f]}{'xyz'[c]}", I * q * P * (F[2, f, c, h] - F[0, f, c, h]), (P * P - 1) * dz)
            ctx.prove_eq(f"{what} wave {'EH'[f]}{'xyz'[c]}", P * (F[2, f, c, h] + F[0, f, c, h]), (P * P + 1) * F[1, f, c, h])
    ctx.observe("F", F)


def _film(name, kind, psi, phi=0, num=False, where=1):
    def f(ctx, nn):
        q, q2, t, z = kindq(ctx, "q", kind), kindq(ctx, "q2", "p"), ctx.real("t", lo=0, sample=0.9), ctx.real("z", lo=0, sample=0.35)
        ph = ctx.pyth() if phi == "345" else phi
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        if where == 1:
            sim, d = setup(ctx, nn, q2, [(q, t)], psi=ps, phi=ph, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        else:
            sim, d = setup(ctx, nn, q, [], psi=ps, phi=ph)
        equations(ctx, sim, 1, z)
        if where == 2:
            equations(ctx, sim, 0, z, "incidence")

    wv = "one oblique wave" if num else f"every polar angle and wavelength, azimuth {phi}, {psi} polarization"
    HARNESSES.append(Harness(name, f, bounds=f"{'film' if where == 1 else 'both half-spaces of an interface'} ({kind}), every thickness, depth and media; {wv}"))


for k in "pe":
    _film(f"film_{k}_p", k, "p", num=True)
    _film(f"film_{k}_s", k, "s", num=True)
    _film(f"film_{k}_mix", k, "mix", "345", num=True)
    _film(f"outer_{k}_p", k, "p", where=2)
    _film(f"outer_{k}_s", k, "s", 90, where=2)


def _harmonics(name, e, i, one_d=False):
    def f(ctx, nn):
        hs = [[0, 1, -1], [0, 0, 0]] if one_d else [[1, 0, 0], [0, 0, 1]]
        L = (lat := ratlat(ctx, nn, hs, one_d)).Layer
        x = lift_(ctx, e)
        sim = nn.Simulation([L("a", epsilon=1), L("f", epsilon=x / 289, thickness=ctx.real("t", lo=0, sample=0.1)), L("b", epsilon=lift_(ctx, 625) / 289)], ratwave(ctx, nn), nh=3)
        sim.a0 = amplitudes(ctx, 6)
        equations(ctx, sim, i, ctx.real("z", lo=0, sample=0.06))

    HARNESSES.append(Harness(name, f, bounds="three harmonics with every incident amplitude, film of given medium, every thickness and depth; " + ("1D lattice" if one_d else "oblique lattice")))


_harmonics("harmonics", 81, 1)
_harmonics("harmonics_metal", -64, 1)
_harmonics("harmonics_in", -64, 0)
_harmonics("harmonics_out", 81, 2)
_harmonics("harmonics_1d", 144, 1, True)
_harmonics("harmonics_1d_metal", -400, 1, True)


def coefs(ctx, e, hs):
    """Toeplitz matrix of the Fourier coefficients of e"""
    I = J(ctx)
    N, M = e.shape
    out = []
    for a in hs:
        row = []
        for b in hs:
            m, n = a[0] - b[0], a[1] - b[1]
            s = 0
            for i in range(N):
                for j in range(M):
                    s = s + e[i, j] * root(ctx, -m * i, N) * root(ctx, -n * j, M)
            row.append(s / (N * M))
        out.append(row)
    return out


def _longitudinal(name, e_of, aniso=False):
    def f(ctx, nn):
        hs = [(0, 0), (1, 0), (0, -1)] if not aniso else [(0, 0), (1, 0)]
        lat = nn.Lattice(((4, 0), (3, 4)), discretization=(4, 3), harmonics_array=nn.backend.array([list(x) for x in zip(*hs)]))
        modes(ctx, "e", full=False, given=True)
        w = 3
        pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / w, angles=(ctx.pyth(15, 8, 17), ctx.pyth(), ctx.pyth(5, 12, 13)))
        e = pattern(ctx, nn, 1)
        ez = e
        if aniso:
            z = e * 0
            ez = pattern(ctx, nn, 2)
            e = [[e, z, z], [z, e + 1, z], [z, z, ez]]
            e = arr(ctx, e) if ctx.symbolic else nn.backend.array(e)
        L = lat.Layer
        g = L("g", epsilon=e, thickness=ctx.real("t", lo=0, sample=0.1))
        sim = nn.Simulation([L("a", epsilon=1), g, L("b", epsilon=2.25)], pw, nh=len(hs))
        nh = len(hs)
        # any amplitudes in the layer
        am = arr(ctx, [ctx.real(f"a{i}", sample=0.3 + 0.2 * i) for i in range(2 * nh)])
        bm = arr(ctx, [ctx.real(f"b{i}", sample=0.7 - 0.3 * i) for i in range(2 * nh)])
        sim._get_amplitudes = lambda i, z=0, translate=True: (am, bm)
        F = sim.get_field_fourier(1, 0)[0]
        H = [(int(sim.harmonics[0, i]), int(sim.harmonics[1, i])) for i in range(nh)]
        C = coefs(ctx, ez, H)
        for i in range(nh):
            s = 0
            for j in range(nh):
                s = s + C[i][j] * F[0, 2, j]
            ctx.prove_eq("Dz", w * s, sim.ky[i] * F[1, 0, i] - sim.kx[i] * F[1, 1, i])
            ctx.prove_eq("Hz", w * F[1, 2, i], sim.kx[i] * F[0, 1, i] - sim.ky[i] * F[0, 0, i])

    HARNESSES.append(Harness(name, f, validate=False, bounds="patterned layer (given pattern and modes), every amplitude of the modes: longitudinal components"))


_longitudinal("longitudinal", None)
_longitudinal("longitudinal_aniso", None, True)
