"""Lattice geometry: duality, area, sampling grid."""
from symnn.run import harness

from .common import PI, arr

ABOUT = "Lattice: direct and reciprocal bases, area, real-space grid, layer constructors."
HARNESSES = []


def basis(ctx):
    a, b, c, d = (ctx.real(n) for n in ("ux", "uy", "vx", "vy"))
    det = a * d - b * c
    ctx.assume(det != 0, "the two lattice vectors are not parallel")
    return a, b, c, d, det


@harness(HARNESSES, bounds="every pair of non-parallel real lattice vectors")
def dual_2d(ctx, nn):
    a, b, c, d, det = basis(ctx)
    lat = nn.Lattice(((a, b), (c, d)), discretization=(3, 2))
    K = lat.reciprocal
    M = lat.matrix
    ctx.observe("K", K)
    L = [(a, b), (c, d)]
    for i in range(2):
        ctx.prove_eq(f"matrix column {i}", M[:, i], arr(ctx, L[i]))
        for j in range(2):
            dot = K[0, i] * L[j][0] + K[1, i] * L[j][1]
            ctx.prove_eq(f"K{i}.L{j}", dot, 2 * PI if i == j else 0)
    area = lat.area
    ctx.prove_eq("area^2", area * area, det * det)
    ctx.prove("area>0", area > 0)


@harness(HARNESSES, bounds="every period > 0")
def dual_1d(ctx, nn):
    a = ctx.real("a", lo=0)
    lat = nn.Lattice(a, discretization=3)
    ctx.prove_eq("area", lat.area, a)
    K = lat.reciprocal
    ctx.prove_eq("K", K[0, 0] * a, 2 * PI)
    ctx.prove_eq("K10", K[1, 0], 0)
    ctx.prove_eq("disc", arr(ctx, list(lat.discretization)), arr(ctx, [3, 1]))
    g = lat.grid
    ctx.prove_eq("grid x", g[0][:, 0], arr(ctx, [0 * a, a / 2, a]))
    # stripe(center, width): exactly the points within width/2 of the center
    c, w = ctx.real("c"), ctx.real("w", lo=0)
    m = lat.stripe(c, w)
    for i in range(3):
        x = [0, a / 2, a][i]
        inside = ((x - c <= w / 2) & (c - x <= w / 2))
        ctx.prove(f"stripe{i}", m[i, 0] == inside)


@harness(HARNESSES, bounds="every lattice; discretization from {1..3}x{1..3}, scalar or pair")
def grids(ctx, nn):
    a, b, c, d, det = basis(ctx)
    nx, ny = ctx.integer("nx", 1, 3, sample=2), ctx.integer("ny", 1, 3, sample=3)
    nx, ny = int(nx), int(ny)
    scal = nx == ny and bool(ctx.boolean("scalar"))
    lat = nn.Lattice(((a, b), (c, d)), discretization=nx if scal else (nx, ny))
    g = lat.grid
    u = lat.unit_grid
    for i in range(nx):
        for j in range(ny):
            s = i / (nx - 1) if nx > 1 else 0.0
            t = j / (ny - 1) if ny > 1 else 0.0
            ctx.prove_eq("unit", arr(ctx, [u[0][i, j], u[1][i, j]]), arr(ctx, [s, t]))
            ctx.prove_eq("point", arr(ctx, [g[0][i, j], g[1][i, j]]), arr(ctx, [s * a + t * c, s * b + t * d]))
    v = ctx.cplx("v")
    for nm, x, want in (("ones", lat.ones(), 1), ("zeros", lat.zeros(), 0), ("constant", lat.constant(v), v)):
        ctx.prove(nm + " shape", tuple(x.shape) == (nx, ny))
        ctx.prove_eq(nm, x, want)
    p, q = ctx.real("p"), ctx.real("q")
    t = lat.transform(arr(ctx, [[[p]], [[q]]]))
    ctx.prove_eq("transform", arr(ctx, [t[0][0][0], t[1][0][0]]), arr(ctx, [p * a + q * c, p * b + q * d]))
    lay = lat.Layer("n", thickness=1.5, epsilon=v)
    ctx.prove("layer lattice", lay.lattice is lat)
    ctx.prove_eq("layer eps", lay.epsilon, v)
    ctx.prove_eq("layer thickness", lay.thickness, 1.5)
