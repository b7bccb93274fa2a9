"""Plane wave."""
from fractions import Fraction

from symnn.run import harness

from .common import PI, J, arr, sqr

ABOUT = "PlaneWave and the incident amplitudes of a Simulation."
HARNESSES = []


def cs3(ctx, ang):
    return [ctx.cs(a) for a in ang]


@harness(HARNESSES, bounds="every wavelength > 0, every |theta| < 90, phi, psi")
def vectors(ctx, nn):
    lam = ctx.real("lam", lo=0)
    th, ph, psi = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi"), ctx.angle("psi")
    pw = nn.PlaneWave(wavelength=lam, angles=(th, ph, psi))
    k, A = pw.wavevector, pw.amplitude
    w = 2 * PI / lam
    (c, s), (cp, sp), (cq, sq) = cs3(ctx, (th, ph, psi))
    ctx.observe("k", k)
    ctx.observe("A", A)
    ctx.prove_eq("|k|^2", k[0] ** 2 + k[1] ** 2 + k[2] ** 2, w * w)
    ctx.prove_eq("k", k, arr(ctx, [w * s * cp, w * s * sp, w * c]))
    ctx.prove_eq("k.A", k[0] * A[0] + k[1] * A[1] + k[2] * A[2], 0)
    ctx.prove_eq("|A|^2", A[0] ** 2 + A[1] ** 2 + A[2] ** 2, 1)
    # psi: angle from the p direction (d k / d theta) to the s direction (z x k)
    ctx.prove_eq("A.p", A[0] * c * cp + A[1] * c * sp - A[2] * s, cq)
    ctx.prove_eq("A.s", -A[0] * sp + A[1] * cp, sq)
    ctx.prove_eq("wavenumber", pw.wavenumber, w)
    ctx.prove_eq("frequency", pw.frequency_scaled * lam, 1)
    ctx.prove_eq("wavelength", pw.wavelength, lam)


@harness(HARNESSES, bounds="every wave, every real index > 0 of the incidence medium, 3 harmonics")
def incident_field(ctx, nn):
    w = ctx.real("w", lo=0)
    n = ctx.real("n", lo=0)
    th, ph, psi = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi"), ctx.angle("psi")
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ph, psi))
    (c, s), (cp, sp), (cq, sq) = cs3(ctx, (th, ph, psi))
    if ctx.symbolic:
        ctx.hint_sqrt(w * c, n * w * c)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(9, 9), harmonics_array=nn.backend.array([[1, 0, -1], [0, 0, 0]]))
    sup, sub = lat.Layer("Superstrate", epsilon=n * n), lat.Layer("Substrate", epsilon=n * n)
    sim = nn.Simulation([sup, sub], pw, nh=3)
    G = sim.harmonics
    i0 = [i for i in range(3) if int(G[0, i]) == 0][0]
    ctx.prove("zeroth", sim.index_zeroth_order == i0)
    f = sim.get_field_fourier(0)[0]
    A, k = pw.amplitude, pw.wavevector
    # same medium on both sides: the field is the incident one
    ctx.observe("field", f)
    for j in range(3):
        ctx.prove_eq(f"E{j}", f[0, j, i0] * n, A[j])
    H = [(k[(j + 1) % 3] * A[(j + 2) % 3] - k[(j + 2) % 3] * A[(j + 1) % 3]) / w for j in range(3)]
    for j in range(3):
        ctx.prove_eq(f"H{j}", f[1, j, i0], H[j])
    for i in range(3):
        if i != i0:
            ctx.prove_eq(f"other {i}", f[:, :, i], 0)
    R, T = sim.diffraction_efficiencies()
    ctx.prove_eq("R", R, 0)
    ctx.prove_eq("T", T, 1)
