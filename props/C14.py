"""Factorization rules of the formulations."""
from symnn.run import Harness, harness

from .C13 import OBLIQUE, coef, make, orders
from .common import PI, arr, grid, lift_, npy

ABOUT = "build_matrix of a patterned layer with each formulation; the layer is given its tangent field."
ASSUMPTIONS = ["machine epsilon (added by the package to lengths before dividing) is taken as 0"]
HARNESSES = []

MASK = {
    "blob": [[0, 1, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "x": [[0, 0, 0], [1, 1, 1], [1, 1, 1], [0, 0, 0]],
    "y": [[0, 1, 0], [0, 1, 0], [0, 1, 0], [0, 1, 0]],
}
H2 = [(0, 0), (1, -1)]
H3 = [(0, 0), (1, 0), (0, 1)]


def two(ctx, nn, mask, im=True):
    """two materials with any permittivities"""
    if ctx.symbolic:
        ctx.zero_eps = True
    vals = []
    for i in range(2):
        a = ctx.real(f"e{i}", lo=0, sample=2.2 + i)
        vals.append(a + 1j * ctx.real(f"k{i}", lo=0, sample=0.2 + 0.3 * i) if im and not ctx.symbolic else (a + _j() * ctx.real(f"k{i}", lo=0, sample=0.2 + 0.3 * i) if im else a))
    m = MASK[mask]
    e = [[vals[x] for x in r] for r in m]
    return arr(ctx, e) if ctx.symbolic else nn.backend.array(e)


def _j():
    from symnn.core import IMAG

    return IMAG


def field(ctx, nn, shape, x, y):
    """constant tangent field"""
    o = [[lift_(ctx, 1)] * shape[1] for _ in range(shape[0])]
    o = arr(ctx, o) if ctx.symbolic else nn.backend.array(o) * 1.0
    return [o * x, o * y]


def toep(ctx, e, hs):
    return arr(ctx, [[coef(ctx, e, a[0] - b[0], a[1] - b[1]) for b in hs] for a in hs])


def rules(ctx, sim, g, tx, ty, what=""):
    """direct rule along t, inverse rule across"""
    n, hs = sim.nh, orders(sim)
    P = npy(g.Peps)
    e = npy(g.epsilon)
    E = toep(ctx, e, hs)
    V = toep(ctx, 1 / e, hs)
    B = [[P[:n, :n], P[:n, n:]], [P[n:, :n], P[n:, n:]]]
    for i in range(n):
        for j in range(n):
            d = 1 if i == j else 0
            # e along t: (-ey, ex) = (-ty, tx)
            for k, (c, want) in enumerate(((0, -ty), (1, tx))):
                got = B[c][0][i, j] * -ty + B[c][1][i, j] * tx
                ctx.prove_eq(f"{what} direct rule along the lines ({'yx'[k]})", got, E[i, j] * want)
    # e across t: (ex, ey) = (-ty, tx), (-ey, ex) = (-tx, -ty)
    for k, (c, want) in enumerate(((0, -tx), (1, -ty))):
        M = B[c][0] * -tx + B[c][1] * -ty
        for i in range(n):
            for j in range(n):
                s = 0
                for l in range(n):
                    s = s + V[i, l] * M[l, j]
                ctx.prove_eq(f"{what} inverse rule across the lines ({'yx'[k]})", s, want if i == j else 0)


def _rules(name, formulation, hs, mask, direction, im=True, tier="quick"):
    def f(ctx, nn):
        e = two(ctx, nn, mask, im)
        if direction == "any":
            tx, ty = ctx.cs(ctx.angle("alpha", sample=25.0))
        else:
            tx, ty = [lift_(ctx, v) / direction[2] for v in direction[:2]]
        sim, g = make(ctx, nn, e, hs, formulation, tangent_field=field(ctx, nn, (4, 3), tx, ty))
        sim.build_matrix("g")
        rules(ctx, sim, g, tx, ty)
        ctx.observe("Peps", g.Peps)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"formulation {formulation}: every pair of {'absorbing' if im else 'lossless'} materials in a given layout ({mask}), {len(hs)} harmonics, tangent direction: {direction}"))


for fm in ("tangent", "pol", "jones"):
    _rules(f"rules_{fm}", fm, H2, "blob", "any")
    _rules(f"rules_{fm}_x", fm, H2, "blob", (1, 0, 1))
    _rules(f"rules_{fm}_y", fm, H2, "blob", (0, -1, 1))
    _rules(f"rules_{fm}_345", fm, H3, "blob", (-3, 4, 5), im=False)


def _original(name, hs):
    def f(ctx, nn):
        e = two(ctx, nn, "blob")
        sim, g = make(ctx, nn, e, hs)
        sim.build_matrix("g")
        n = sim.nh
        E = toep(ctx, g.epsilon, orders(sim))
        for i in range(n):
            for j in range(n):
                ctx.prove_eq("xx", g.Peps[n + i, n + j], E[i, j])
                ctx.prove_eq("yy", g.Peps[i, j], E[i, j])
                ctx.prove_eq("xy", g.Peps[i, n + j], 0)
                ctx.prove_eq("yx", g.Peps[n + i, j], 0)

    HARNESSES.append(Harness(name, f, bounds="original formulation: every pair of materials, direct rule everywhere"))


_original("original", H3)


def _one_d(name, swap, form2, sgn=1, tier="quick"):
    """the same lines on a 1D lattice and on a 2D lattice"""

    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        n = 4
        nu = [ctx.cplx(f"nu{i}", sample=0.3 + 0.1 * i - 0.02j * i) for i in range(n)]
        for v in nu:
            ctx.assume((v * v.conjugate()).real > 0)
        vals = [1 / v for v in nu]
        e1 = [[v] for v in vals]
        e2 = [[v] * 3 for v in vals] if not swap else [vals] * 3
        e1, e2 = [arr(ctx, x) if ctx.symbolic else nn.backend.array(x) for x in (e1, e2)]
        hs = [(0, 0), (1, 0)]
        pw = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 3, angles=(ctx.pyth(15, 8, 17), ctx.pyth(), 0))
        pr = nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 3, angles=(ctx.pyth(15, 8, 17), ctx.pyth(4, 3, 5), 0))
        s1, g1 = make(ctx, nn, e1, hs, "tangent", one_d=True, pw=pw)
        t = field(ctx, nn, e2.shape, *((0, sgn) if not swap else (sgn, 0)))
        h2 = [x[::-1] for x in hs] if swap else hs
        s2, g2 = make(ctx, nn, e2, h2, form2, lattice=((3, 0), (0, 3)), tangent_field=t, pw=pr if swap else pw)
        s1.build_matrix("g")
        s2.build_matrix("g")
        if not swap:
            ctx.prove_eq("Peps", g2.Peps, g1.Peps)
            ctx.prove_eq("matrix", g2.matrix, g1.matrix)
        else:
            # x and y exchanged: (-ey, ex) -> (-ex, ey)
            ix = [2, 3, 0, 1]
            for i in range(4):
                for j in range(4):
                    ctx.prove_eq("Peps", g2.Peps[ix[i], ix[j]], g1.Peps[i, j])
                    ctx.prove_eq("matrix", g2.matrix[ix[i], ix[j]], g1.matrix[i, j])
        ctx.observe("matrix", g1.matrix)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"every complex profile on 4 samples, 2 harmonics; lines along {'x' if swap else 'y'} on a 2D lattice ({form2}) against the 1D lattice"))


_one_d("one_d_y_tangent", False, "tangent")
_one_d("one_d_y_pol", False, "pol", -1)
_one_d("one_d_x_tangent", True, "tangent", -1)
_one_d("one_d_x_jones", True, "jones")


def _profile(name, n, hs):
    def f(ctx, nn):
        nu = [ctx.real(f"nu{i}", lo=0, sample=0.3 + 0.1 * i) for i in range(n)]
        e = [[1 / v] for v in nu]
        e = arr(ctx, e) if ctx.symbolic else nn.backend.array(e)
        sim, g = make(ctx, nn, e, hs, "tangent", one_d=True)
        sim.build_matrix("g")
        rules(ctx, sim, g, 0, 1)
        ctx.observe("Peps", g.Peps)

    HARNESSES.append(Harness(name, f, bounds=f"1D lattice, every lossless profile on {n} samples, {len(hs)} harmonics"))


_profile("profile", 4, [(0, 0), (1, 0), (-1, 0)])
_profile("profile_6", 6, [(0, 0), (2, 0)])


def _constant(name, formulation, im, direction):
    def f(ctx, nn):
        c = ctx.cplx("c", sample=2.2 + 0.3j)
        ctx.assume((c * c.conjugate()).real > 0)
        o = [[lift_(ctx, 1)] * 3 for _ in range(4)]
        e = (arr(ctx, o) if ctx.symbolic else nn.backend.array(o)) * c
        kw = {}
        if direction == "any":
            # any tangent field in two samples
            t = [[ctx.cplx(f"t{k}{i}", sample=0.3 + 0.4 * k - 0.2j * i) for i in range(2)] for k in range(2)]
            for i in range(2):
                ctx.assume((t[0][i] * t[0][i].conjugate() + t[1][i] * t[1][i].conjugate()).real > 0)
            if ctx.symbolic:
                ctx.zero_eps = True
            T = []
            for k in range(2):
                q = [[t[k][(3 * i + j) % 2] for j in range(3)] for i in range(4)]
                T.append(arr(ctx, q) if ctx.symbolic else nn.backend.array(q))
            kw["tangent_field"] = T
        elif direction == "fft":
            kw["tangent_field_type"] = "fft"
        sim, g = make(ctx, nn, e, H3, formulation, **kw)
        sim.build_matrix("g")
        n = 2 * sim.nh
        for i in range(n):
            for j in range(n):
                ctx.prove_eq("constant", g.Peps[i, j], c if i == j else 0)

    HARNESSES.append(Harness(name, f, bounds=f"formulation {formulation}: every constant permittivity, 3 harmonics"))


_constant("constant_tangent", "tangent", True, "any")
_constant("constant_pol", "pol", True, "any")
_constant("constant_original", "original", True, "-")


def _exchange(name, formulation):
    """t and t rotated by 90 degrees; scaled tangent fields"""

    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        e = [[lift_(ctx, 2 + 3 * ((2 * i + 5 * j * i + j) % 4)) / 2 for j in range(3)] for i in range(4)]
        e = arr(ctx, e) if ctx.symbolic else nn.backend.array(e)
        x, y = ctx.real("tx", sample=0.3), ctx.real("ty", sample=-0.7)
        u, v = ctx.real("ux", sample=0.9), ctx.real("uy", sample=0.2)
        ctx.assume(x * x + y * y > 0)
        ctx.assume(u * u + v * v > 0)
        s = ctx.real("s", lo=0, sample=1.7)

        def fld(a, b):
            m = [[(a if (i + j) % 2 else b) for j in range(3)] for i in range(4)]
            return arr(ctx, m) if ctx.symbolic else nn.backend.array(m) * 1.0

        n = 4
        P = []
        for t in ([fld(x, u), fld(y, v)], [fld(-y, -v), fld(x, u)], [fld(-s * x, s * u), fld(-s * y, s * v)]):
            sim, g = make(ctx, nn, e, H2, formulation, tangent_field=t)
            sim.build_matrix("g")
            P.append(g.Peps)
        E = toep(ctx, e, orders(sim))
        V = toep(ctx, 1 / e, orders(sim))
        if ctx.symbolic:
            from symnn import shim

            N = shim.inv(V)
        else:
            N = nn.backend.linalg.inv(nn.backend.array(V))
        for i in range(n):
            for j in range(n):
                want = E[i % 2, j % 2] + N[i % 2, j % 2] if i // 2 == j // 2 else 0
                ctx.prove_eq("rotated by 90 degrees", P[0][i, j] + P[1][i, j], want)
                ctx.prove_eq("scaled", P[2][i, j], P[0][i, j])

    HARNESSES.append(Harness(name, f, bounds=f"formulation {formulation}: a given pattern, every tangent field with two different vectors, rotated and scaled"))


_exchange("exchange_tangent", "tangent")
_exchange("exchange_pol", "pol")
