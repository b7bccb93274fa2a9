"""Harmonic truncation."""
import itertools

from symnn.run import harness

from .common import PI, arr

ABOUT = "Lattice.get_harmonics: circular, parallelogrammic and 1D truncation, user lists."
HARNESSES = []


def pairs(ctx, G):
    return [(int(G[0, i]), int(G[1, i])) for i in range(G.shape[1])]


def basics(ctx, hs, n, m):
    ctx.prove("count", len(hs) == int(m))
    ctx.prove("at most n", len(hs) <= n)
    ctx.prove("distinct", len(set(hs)) == len(hs))
    ctx.prove("contains (0,0)", (0, 0) in hs)
    ctx.prove("closed under negation", all((-a, -b) in hs for a, b in hs))


def circular(ctx, nn, vecs, n, box, shear=0):
    lat = nn.Lattice(vecs, discretization=(31, 31))
    (a, b), (c, d) = vecs
    det = a * d - b * c
    # K1 = (d, -c) / det, K2 = (-b, a) / det
    g11 = (d * d + c * c) / det**2
    g22 = (b * b + a * a) / det**2
    g12 = -(d * b + c * a) / det**2
    G, m = lat.get_harmonics(n)
    hs = pairs(ctx, G)
    basics(ctx, hs, n, m)
    ctx.observe("harmonics", arr(ctx, [list(h) for h in sorted(hs)]))
    Gs, ms = lat.get_harmonics(n, sort=True)
    hs2 = pairs(ctx, Gs)
    ctx.prove("sorted: same set", sorted(hs2) == sorted(hs) and int(ms) == int(m))
    ctx.prove("sorted by first order", [h[0] for h in hs2] == sorted(h[0] for h in hs))

    def q(h):
        return h[0] * h[0] * g11 + h[1] * h[1] * g22 + 2 * h[0] * h[1] * g12

    kmax = q(hs[-1])
    for h in hs:
        ctx.prove(f"nearest first {h}", q(h) <= kmax * (1 + 1e-9))
    out = [(i, j + shear * i) for i, j in itertools.product(range(-box, box + 1), repeat=2) if (i, j) > (0, 0)]
    out = [h for h in out if h not in hs]
    for h in out:
        ctx.prove(f"dropped is farther {h}", q(h) > kmax)
    # not smaller than needed: the next shell does not fit in n - 1
    need = n - len(hs)
    if len(hs) > 1 or n > 1:
        tol = 1e-9 * (g11 + g22)
        for e in out:
            if abs(e[0]) + abs(e[1] - shear * e[0]) > 3:
                continue
            cnt = 0
            for h in out:
                if h == e:
                    cnt = cnt + 2
                elif ctx.symbolic:
                    from symnn.core import ite

                    cnt = cnt + 2 * ite(q(h) <= q(e) + tol, 1, 0)
                else:
                    cnt = cnt + 2 * (q(h) <= q(e) + tol)
            ctx.prove(f"next shell does not fit {e}", cnt >= need)


def _rect(lo, hi, n, box=4, tier="quick"):
    def f(ctx, nn):
        a = ctx.real("a", lo=lo, hi=hi, sample=(lo + hi) / 2 + 0.01)
        circular(ctx, nn, ((1, 0), (0, a)), n, box)

    HARNESSES.append(_h(f"rect_{lo}_{hi}_n{n}", f, f"cells 1 x a, every a in ({lo}, {hi}), n = {n}", tier))


def _obl(lo, hi, n, box=4, tier="quick"):
    def f(ctx, nn):
        t = ctx.real("t", lo=lo, hi=hi, sample=(lo + hi) / 2 + 0.01)
        circular(ctx, nn, ((1, 0), (t, 1)), n, box)

    HARNESSES.append(_h(f"oblique_{lo}_{hi}_n{n}", f, f"cells (1,0),(t,1), every t in ({lo}, {hi}), n = {n}", tier))


def _skew(num, den, ns, box=3, tier="quick"):
    def f(ctx, nn):
        a = ctx.real("a", lo=0)
        n = int(ctx.integer("n", *ns, sample=ns[1]))
        t = a * num / den
        circular(ctx, nn, ((a, 0), (t, a)), n, box, round(num / den))

    HARNESSES.append(_h(f"skewed_{num}_{den}".replace("-", "m"), f, f"cells (a,0),(a*{num}/{den},a), every a, n in {ns}", tier))


def _cell(name, v, ns, box=4, tier="quick"):
    """v: integer vectors"""

    def f(ctx, nn):
        a = ctx.real("a", lo=0)
        n = int(ctx.integer("n", *ns, sample=ns[1]))
        circular(ctx, nn, ((a * v[0], a * v[1]), (a * v[2], a * v[3])), n, box)

    HARNESSES.append(_h(f"cell_{name}", f, f"cells a*{v[:2]}, a*{v[2:]}, every a, n in {ns}", tier))


def _rot(lo, hi, n, box=4, tier="quick"):
    """a rectangular cell rotated by the 3-4-5 angle"""

    def f(ctx, nn):
        a = ctx.real("a", lo=lo, hi=hi, sample=(lo + hi) / 2 + 0.01)
        circular(ctx, nn, ((4, 3), (-3 * a, 4 * a)), n, box)

    HARNESSES.append(_h(f"rotated_{lo}_{hi}_n{n}", f, f"cells (4,3),(-3a,4a), every a in ({lo}, {hi}), n = {n}", tier))


def _h(name, f, bounds, tier):
    from symnn.run import Harness

    return Harness(name, f, bounds=bounds, tier=tier, max_paths=200)


_rect(1.05, 1.15, 6)
_rect(2.05, 2.15, 7)
_rect(0.45, 0.48, 7)
_obl(0.2, 0.3, 7)
_obl(-0.7, -0.6, 5)
_rot(1.45, 1.55, 8)
_cell("near_hexagonal", (8, 0, 4, 7), (1, 14))
_cell("left_handed", (3, 4, 5, 0), (1, 12))
_cell("flat", (12, 5, -4, -3), (1, 9), 6)
_skew(51, 10, (14, 15))
_skew(-13, 4, (5, 9))


@harness(HARNESSES, bounds="square lattice of every period, n in 1..13")
def square(ctx, nn):
    a = ctx.real("a", lo=0)
    n = int(ctx.integer("n", 1, 13, sample=10))
    circular(ctx, nn, ((a, 0), (0, a)), n, 4)


@harness(HARNESSES, bounds="every lattice, every n in 1..60")
def parallelogrammic(ctx, nn):
    a, b, c, d = (ctx.real(k) for k in ("ux", "uy", "vx", "vy"))
    ctx.assume(a * d - b * c != 0, "the two lattice vectors are not parallel")
    n = int(ctx.integer("n", 1, 60, sample=10))
    lat = nn.Lattice(((a, b), (c, d)), truncation="parallelogrammic")
    lat = nn.Lattice(((1, 0), (0.5, 2)), truncation="parallelogrammic") if n > 1 else lat
    G, m = lat.get_harmonics(n)
    hs = pairs(ctx, G)
    basics(ctx, hs, n, m)
    r = max(h[0] for h in hs)
    ctx.prove("full block", sorted(hs) == sorted(itertools.product(range(-r, r + 1), repeat=2)))
    ctx.prove("largest block", (2 * r + 3) ** 2 > n)
    hs2 = pairs(ctx, lat.get_harmonics(n, sort=True)[0])
    ctx.prove("sorted", [h[0] for h in hs2] == sorted(h[0] for h in hs) and sorted(hs2) == sorted(hs))


@harness(HARNESSES, bounds="every period, every n in 1..60")
def one_dim(ctx, nn):
    a = ctx.real("a", lo=0)
    n = int(ctx.integer("n", 1, 60, sample=7))
    lat = nn.Lattice(a)
    G, m = lat.get_harmonics(n)
    hs = pairs(ctx, G)
    basics(ctx, hs, n, m)
    r = (n - 1) // 2
    ctx.prove("orders", sorted(hs) == [(k, 0) for k in range(-r, r + 1)])
    ctx.prove("nearest first", all(abs(hs[i][0]) <= abs(hs[i + 1][0]) for i in range(len(hs) - 1)))
    hs2 = pairs(ctx, lat.get_harmonics(n, sort=True)[0])
    ctx.prove("sorted", hs2 == [(k, 0) for k in range(-r, r + 1)])


@harness(HARNESSES, bounds="every list of 3 harmonics with orders in [-2,2]; every requested n in 1..9")
def user_list(ctx, nn):
    from .common import grid  # noqa

    h = [[ctx.integer(f"m{i}", -2, 2, sample=s) for i, s in enumerate((1, 0, -1))], [ctx.integer(f"n{i}", -2, 2, sample=s) for i, s in enumerate((2, 0, 1))]]
    A = arr(ctx, h)
    n = ctx.integer("n", 1, 9, sample=5)
    kind = ctx.boolean("circ")
    lat = nn.Lattice(((1, 0), (0, 1)), truncation="circular" if bool(kind) else "parallelogrammic", harmonics_array=A)
    G, m = lat.get_harmonics(n)
    ctx.prove("count", m == 3)
    ctx.prove_eq("list", G, A)
    G, m = lat.get_harmonics(n, sort=True)
    ctx.prove("count", m == 3)
    for i in range(2):
        ctx.prove("sorted", G[0, i] <= G[0, i + 1])
    # a permutation of the columns
    for i in range(3):
        hit, tih = False, False
        for j in range(3):
            e = (G[0, i] == h[0][j]) & (G[1, i] == h[1][j])
            hit = e if j == 0 else hit | e
            e = (G[0, j] == h[0][i]) & (G[1, j] == h[1][i])
            tih = e if j == 0 else tih | e
        ctx.prove("from the list", hit)
        ctx.prove("kept", tih)


for _lo, _hi, _n in ((1.15, 1.3, 9), (1.6, 1.8, 11), (3, 3.2, 9), (0.3, 0.33, 13)):
    _rect(_lo, _hi, _n, 5, "thorough")
_obl(0.3, 0.4, 9, 5, "thorough")
_obl(0.4, 0.48, 11, 5, "thorough")
_rot(2.5, 2.7, 13, 6, "thorough")
_skew(41, 5, (16, 20), 4, "thorough")
_skew(-71, 10, (14, 24), 4, "thorough")
