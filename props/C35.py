"""Filtering is a centred periodic average."""
from symnn.run import Harness, harness

from .common import asum, grid, lift_

ABOUT = "apply_filter on arbitrary real patterns with arbitrary positive radii; the weights are read off unit impulses."
ASSUMPTIONS = ["exp is positive, increasing and multiplicative; nothing else of it is used"]
HARNESSES = []


def filt(ctx, nn, x, r, v=None):
    return nn.utils.apply_filter(x, r) if v is None else nn.utils.apply_filter(x, r, v)


def impulse(ctx, nn, shape, p=(0, 0)):
    if ctx.symbolic:
        from .common import arr

        return arr(ctx, [[lift_(ctx, int((i, j) == p)) for j in range(shape[1])] for i in range(shape[0])])
    return nn.backend.array([[float((i, j) == p) for j in range(shape[1])] for i in range(shape[0])])


def radii(ctx, iso):
    ctx.exp_monotone = True
    a = ctx.real("r0", lo=0, sample=1.3)
    return a if iso else (a, ctx.real("r1", lo=0, sample=0.9))


def gt(ctx, a, b):
    """a > b, up to rounding in runs of the real code"""
    return a > b if ctx.symbolic else bool(a > b - 1e-9)


def cells(shape):
    return [(i, j) for i in range(shape[0]) for j in range(shape[1])]


def _average(shape, iso, tier="quick"):
    N, M = shape

    def f(ctx, nn):
        r = radii(ctx, iso)
        k = filt(ctx, nn, impulse(ctx, nn, shape), r)
        x = grid(ctx, "x", shape, nn=nn)
        y = filt(ctx, nn, x, r)
        ctx.prove("shape", tuple(y.shape) == shape)
        for i, j in cells(shape):
            ctx.prove_eq(f"average at {i},{j}", y[i, j], asum(x[p, q] * k[(i - p) % N, (j - q) % M] for p, q in cells(shape)))

    HARNESSES.append(Harness(f"average_{N}x{M}" + ("_iso" if iso else ""), f, tier=tier, bounds=f"every real pattern on {N} x {M} samples, every positive radius" + ("" if iso else " along each axis")))


def _weights(shape, iso, tier="quick"):
    N, M = shape

    def f(ctx, nn):
        r = radii(ctx, iso)
        k = filt(ctx, nn, impulse(ctx, nn, shape), r)
        ctx.prove_eq("sum of the weights", asum(k[i, j] for i, j in cells(shape)), 1)
        c = [0 if n % 2 else -1 for n in shape]
        for i, j in cells(shape):
            ctx.prove(f"weight {i},{j} is positive", gt(ctx, k[i, j], 0))
            ctx.prove_eq(f"mirror symmetry along x of {i},{j}", k[i, j], k[(c[0] - i) % N, j])
            ctx.prove_eq(f"mirror symmetry along y of {i},{j}", k[i, j], k[i, (c[1] - j) % M])
            ctx.prove_eq(f"product of two kernels {i},{j}", k[i, j] * k[0, 0], k[i, 0] * k[0, j])
        for n in range(N // 2 if c[0] == 0 else N // 2 - 1):
            ctx.prove(f"decreasing along x {n}", gt(ctx, k[n, 0], k[n + 1, 0]))
        for n in range(M // 2 if c[1] == 0 else M // 2 - 1):
            ctx.prove(f"decreasing along y {n}", gt(ctx, k[0, n], k[0, n + 1]))

    HARNESSES.append(Harness(f"weights_{N}x{M}" + ("_iso" if iso else ""), f, tier=tier, bounds=f"{N} x {M} samples, every positive radius" + ("" if iso else " along each axis")))


def _lengths(shape, tier="quick"):
    N, M = shape

    def f(ctx, nn):
        r = radii(ctx, False)
        a, b = ctx.real("Lx", lo=0, sample=1.7), ctx.real("Ly", lo=0, sample=0.8)
        # with the lattice vectors given, radii are in units of length
        s = impulse(ctx, nn, shape)
        u = filt(ctx, nn, s, r)
        w = filt(ctx, nn, s, (r[0] * a / N, r[1] * b / M), ((a, 0), (0, b)))
        for i, j in cells(shape):
            ctx.prove_eq(f"weight {i},{j}", w[i, j], u[i, j])

    HARNESSES.append(Harness(f"lengths_{N}x{M}", f, tier=tier, bounds=f"{N} x {M} samples, every positive radius and period"))


def _zero(shape):
    def f(ctx, nn):
        x = grid(ctx, "x", shape, nn=nn)
        for r in (0, (0, 0), 0.0):
            y = filt(ctx, nn, x, r)
            for i, j in cells(shape):
                ctx.prove_eq(f"unchanged {i},{j}", y[i, j], x[i, j])

    HARNESSES.append(Harness(f"zero_{shape[0]}x{shape[1]}", f, bounds=f"every real pattern on {shape[0]} x {shape[1]} samples"))


BIG = [(6, 4), (4, 6), (8, 6), (8, 8), (12, 8)]
for s in [(3, 2), (2, 3), (4, 1), (1, 3), (1, 1), (4, 3), (3, 4)] + BIG:
    _average(s, False, tier="thorough" if s in BIG[2:] else "quick")
for s in [(3, 2), (1, 3), (3, 4)]:
    _average(s, True)
for s in [(3, 2), (2, 3), (4, 3), (3, 4), (6, 1), (1, 6), (3, 1), (6, 3)] + BIG:
    _weights(s, False, tier="thorough" if s in BIG[2:] else "quick")
_weights((3, 4), True)
_lengths((3, 2))
_lengths((4, 3))
_lengths((6, 1))
_zero((3, 2))
_zero((4, 1))
