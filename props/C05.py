"""Grating equation."""
from symnn.run import harness

from .common import PI, arr, sqr

ABOUT = "In-plane wavevectors of the harmonics."
HARNESSES = []


def K12(a, b, c, d):
    det = a * d - b * c
    f = 2 * PI / det
    return (d * f, -c * f), (-b * f, a * f)


@harness(HARNESSES, bounds="every lattice, every wave, every real index > 0; 3 symbolic harmonics with orders in [-3,3]")
def two_dim(ctx, nn):
    a, b, c, d = (ctx.real(k) for k in ("ux", "uy", "vx", "vy"))
    ctx.assume(a * d - b * c != 0, "the two lattice vectors are not parallel")
    k1, k2 = K12(a, b, c, d)
    w, n = ctx.real("w", lo=0), ctx.real("n", lo=0)
    th, ph, psi = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi"), ctx.angle("psi")
    if ctx.symbolic:
        ctx.hint_sqrt(w * ctx.cs(th)[0])
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ph, psi))
    lists = [[[0, 1, -1], [0, 2, -2]], [[-3, 0, 2], [1, 0, 3]], [[1, -1, 0], [3, 0, 0]]]
    hs = ctx.choice("list", lists)
    lat = nn.Lattice(((a, b), (c, d)), discretization=(9, 9), harmonics_array=nn.backend.array(hs))
    sup, sub = lat.Layer("in", epsilon=n * n), lat.Layer("out", epsilon=1)
    sim = nn.Simulation([sup, sub], pw)
    k = pw.wavevector
    (ct, st), (cp, sp) = ctx.cs(th), ctx.cs(ph)
    G = sim.harmonics
    ctx.prove("nh", sim.nh == 3)
    got = sorted((int(G[0, i]), int(G[1, i])) for i in range(3))
    ctx.prove("harmonics", got == sorted(zip(*hs)))
    ctx.observe("kx", sim.kx)
    for i in range(3):
        p, q = int(G[0, i]), int(G[1, i])
        ctx.prove_eq(f"kx{i}", sim.kx[i], n * w * st * cp + p * k1[0] + q * k2[0])
        ctx.prove_eq(f"ky{i}", sim.ky[i], n * w * st * sp + p * k1[1] + q * k2[1])
        z = i == sim.index_zeroth_order
        ctx.prove("zeroth", z == (p == 0 and q == 0))
        if not z:
            ctx.prove_eq("a0 elsewhere", arr(ctx, [sim.a0[i], sim.a0[i + 3]]), 0)
        else:
            # h = (k x A)/omega: transverse components of the incident magnetic field
            A = pw.amplitude
            ctx.prove_eq("a0 zeroth", arr(ctx, [sim.a0[i] * w, sim.a0[i + 3] * w]), arr(ctx, [k[1] * A[2] - k[2] * A[1], k[2] * A[0] - k[0] * A[2]]))
    ctx.prove_eq("omega", sim.omega, w)


@harness(HARNESSES, bounds="every period and wave; orders -2..2; every index")
def one_dim(ctx, nn):
    a = ctx.real("a", lo=0)
    w, n = ctx.real("w", lo=0), ctx.real("n", lo=0)
    th, ph = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi")
    if ctx.symbolic:
        ctx.hint_sqrt(w * ctx.cs(th)[0])
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ph, 0))
    lat = nn.Lattice(a, discretization=9)
    eps = arr(ctx, [[ctx.real(f"e{i}", lo=1, hi=4)] for i in range(9)])
    sup, ms, sub = lat.Layer("in", epsilon=n * n), lat.Layer("g", thickness=1, epsilon=eps), lat.Layer("out", epsilon=1)
    sim = nn.Simulation([sup, ms, sub], pw, nh=5)
    (ct, st), (cp, sp) = ctx.cs(th), ctx.cs(ph)
    G = sim.harmonics
    ctx.prove("orders", sorted(int(x) for x in G[0]) == [-2, -1, 0, 1, 2])
    for i in range(5):
        ctx.prove_eq(f"kx{i}", sim.kx[i] * a, n * w * st * cp * a + int(G[0, i]) * 2 * PI)
        ctx.prove_eq(f"ky{i}", sim.ky[i], n * w * st * sp)


@harness(HARNESSES, bounds="every complex permittivity of the incidence medium (Im >= 0)")
def absorbing_medium(ctx, nn):
    w = ctx.real("w", lo=0)
    e = ctx.cplx("e", re_lo=0, im_lo=0)
    th, ph = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi")
    if ctx.symbolic:
        ctx.hint_sqrt(w * ctx.cs(th)[0])
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ph, 0))
    lat = nn.Lattice(((1, 0), (0.5, 2)), discretization=(9, 9), harmonics_array=nn.backend.array([[0, 1], [0, -1]]))
    sim = nn.Simulation([lat.Layer("in", epsilon=e), lat.Layer("out", epsilon=1)], pw)
    (ct, st), (cp, sp) = ctx.cs(th), ctx.cs(ph)
    k1, k2 = K12(1, 0, 0.5, 2)
    G = sim.harmonics
    for i in range(2):
        p, q = int(G[0, i]), int(G[1, i])
        dx, dy = sim.kx[i] - (p * k1[0] + q * k2[0]), sim.ky[i] - (p * k1[1] + q * k2[1])
        ctx.prove_eq(f"kx{i}^2", dx * dx, e * (w * st * cp) ** 2)
        ctx.prove_eq(f"ky{i}^2", dy * dy, e * (w * st * sp) ** 2)
        ctx.prove_eq("ratio", dx * sp, dy * cp)
        ctx.prove("branch", dx.real * st * cp >= 0)
