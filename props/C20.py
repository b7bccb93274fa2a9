"""Masks of geometric shapes."""
import types

from symnn.run import Harness, harness

from .common import arr, lift_

ABOUT = "shape_mask on an arbitrary shape (the containment of every grid point is free, the answers on rectangles are any consistent ones); Lattice.circle/ellipse/square/rectangle/polygon with exact shapes in the place of shapely's."
ASSUMPTIONS = ["shapely's operations are replaced by their exact definition (a buffered point is the exact disc); on replay shapely itself is used, points within 3 percent of the boundary are left out"]
HARNESSES = []


# ------------------------------------------------------------ abstract shapes


class AnyShape:
    """a shape of which only the answers are known"""

    def __init__(self, ctx, nx, ny, leaf=False):
        self.ctx, self.n, self.leaf = ctx, (nx, ny), leaf
        self.ins = [[ctx.boolean(f"in{i}_{j}") for j in range(ny)] for i in range(nx)]
        self.k = 0

    def _box(self, g):
        x0, y0, x1, y1 = g.bounds
        r = []
        for a, b, n in ((x0, x1, self.n[0]), (y0, y1, self.n[1])):
            r.append(range(round(a * (n - 1)), round(b * (n - 1)) + 1))
        return [self.ins[i][j] for i in r[0] for j in r[1]]

    def _free(self):
        self.k += 1
        return self.ctx.boolean(f"free{self.k}")

    def contains(self, g):
        p = self._box(g)
        if g.geom_type == "Point":
            assert len(p) == 1
            return p[0]
        if len(p) == 1 and not self.leaf:
            return False
        # containing the rectangle implies containing its points
        out = self._free()
        for q in p:
            out = out & q
        return out

    def intersects(self, g):
        p = self._box(g)
        if len(p) == 1 and not self.leaf:
            return True
        out = self._free()
        for q in p:
            out = out | q
        return out


def same(ctx, name, m, x):
    """two booleans are equal"""
    if ctx.symbolic:
        from symnn.core import lift

        ctx.prove_eq(name, lift(m), lift(x))
    else:
        ctx.prove(name, bool(m) == bool(x))


def _any(nx, ny, leaf=False, tier="quick"):
    def f(ctx, nn):
        import nannos.geometry as geo

        s = AnyShape(ctx, nx, ny, leaf)
        bk = nn.backend
        m = geo.shape_mask(s, bk.linspace(0, 1.0, nx), bk.linspace(0, 1.0, ny))
        ctx.prove("shape", tuple(m.shape) == (ny, nx))
        for i in range(nx):
            for j in range(ny):
                same(ctx, f"mask of grid point {i},{j}", m[j, i], s.ins[i][j])

    HARNESSES.append(Harness(f"any_{nx}x{ny}" + ("_leaf" if leaf else ""), f, tier=tier, max_paths=6000, bounds=f"every shape on a {nx} x {ny} grid, every consistent answer on rectangles"))


_any(1, 1, True)
_any(1, 2, True)
_any(2, 1, True)
_any(2, 2, True)
for _n in ((1, 5), (4, 1), (2, 3), (3, 2), (3, 3)):
    _any(*_n)
for _n in ((4, 3), (2, 5), (5, 3), (3, 5), (4, 4), (1, 9), (8, 1), (6, 2)):
    _any(*_n, tier="thorough")


# ------------------------------------------------------------ exact shapes


class Shape:
    def __init__(self, f):
        self.f = f

    def intersects(self, g):
        return True

    def contains(self, g):
        return self.f(*g) if isinstance(g, Pt) else False

    def map(self, inv):
        return Shape(lambda x, y: self.f(*inv(x, y)))


class Pt(tuple):
    def __new__(cls, x, y):
        return tuple.__new__(cls, (x, y))

    def buffer(self, r):
        return Shape(lambda x, y: (x - self[0]) ** 2 + (y - self[1]) ** 2 < r * r)


def poly(vertices):
    """convex polygon, any orientation"""
    v = [tuple(p) for p in vertices]

    def f(x, y):
        pos = neg = None
        for (a, b), (c, d) in zip(v, v[1:] + v[:1]):
            k = (c - a) * (y - b) - (d - b) * (x - a)
            pos = (k > 0) if pos is None else pos & (k > 0)
            neg = (k < 0) if neg is None else neg & (k < 0)
        return pos | neg

    return Shape(f)


def exact(ctx, nn):
    """shapely's modules replaced in nannos.geometry"""
    import nannos.geometry as geo

    if not ctx.symbolic:
        return

    def affine(g, m):
        a, b, d, e, x0, y0 = [lift_(ctx, z) for z in m]
        det = a * e - b * d
        return g.map(lambda x, y: ((e * (x - x0) - b * (y - y0)) / det, (a * (y - y0) - d * (x - x0)) / det))

    def scale(g, xfact=1.0, yfact=1.0, zfact=1.0, origin="center"):
        ox, oy = origin
        return g.map(lambda x, y: (ox + (x - ox) / xfact, oy + (y - oy) / yfact))

    def rotate(g, angle, origin="center", use_radians=False):
        assert not use_radians
        c, s = ctx.cs(angle)
        ox, oy = origin
        return g.map(lambda x, y: (ox + c * (x - ox) + s * (y - oy), oy - s * (x - ox) + c * (y - oy)))

    geo.sg = types.SimpleNamespace(Point=Pt, Polygon=poly)
    geo.sa = types.SimpleNamespace(affine_transform=affine, scale=scale, rotate=rotate)


OBL = ((1, 0), (0.25, 0.75))
TILT = ((0.75, 0.25), (-0.5, 1))


def check(ctx, nn, lat, mask, g):
    """g(x, y) -> (inside, distance from the boundary is large enough)"""
    nx, ny = lat.discretization
    (a, b), (c, d) = lat.basis_vectors
    ctx.prove("shape of the mask", tuple(mask.shape) == (nx, ny))
    ctx.observe("mask", mask * 1)
    for i in range(nx):
        for j in range(ny):
            s, t = lift_(ctx, i) / (nx - 1), lift_(ctx, j) / (ny - 1)
            x, y = s * a + t * c, s * b + t * d
            want, clear = g(x, y)
            if ctx.symbolic or clear:
                same(ctx, f"grid point {i},{j}", mask[i, j], want)


def away(v):
    """not within 3 percent of the boundary (replay only)"""
    try:
        return abs(float(v) - 1) > 0.03
    except Exception:
        return True


def exactly(name, bounds, lattice=OBL, shape=(2, 3), **kw):
    def deco(fn):
        def f(ctx, nn):
            exact(ctx, nn)
            lat = nn.Lattice(lattice, discretization=shape)
            fn(ctx, nn, lat)

        HARNESSES.append(Harness(name, f, bounds=bounds + f", lattice {lattice}, {shape} grid", max_paths=2000, **kw))
        return fn

    return deco


def _center(ctx):
    return ctx.real("cx", sample=0.4), ctx.real("cy", sample=0.3)


def _circle(name, lattice, shape=(2, 3)):
    @exactly(name, "every circle", lattice, shape)
    def f(ctx, nn, lat):
        c, r = _center(ctx), ctx.real("r", lo=0, sample=0.45)

        def g(x, y):
            d = (x - c[0]) ** 2 + (y - c[1]) ** 2
            return d < r * r, ctx.symbolic or away(d / r**2)

        check(ctx, nn, lat, lat.circle(c, r), g)


_circle("circle", OBL)
_circle("circle_tilted", TILT, (3, 3))


@harness(HARNESSES, bounds="every circle on every lattice, 2 x 2 grid", max_paths=2000)
def circle_lattice(ctx, nn):
    exact(ctx, nn)
    a, b, c, d = [ctx.real(k, sample=s) for k, s in (("ux", 1.0), ("uy", 0.2), ("vx", -0.3), ("vy", 0.9))]
    ctx.assume(a * d - b * c != 0, "the two lattice vectors are not parallel")
    lat = nn.Lattice(((a, b), (c, d)), discretization=(2, 2))
    o, r = _center(ctx), ctx.real("r", lo=0, sample=0.8)

    def g(x, y):
        e = (x - o[0]) ** 2 + (y - o[1]) ** 2
        return e < r * r, ctx.symbolic or away(e / r**2)

    check(ctx, nn, lat, lat.circle(o, r), g)


def angle(ctx):
    an = ctx.angle("rot", lo=-90, hi=90, sample=25.0)
    ctx.assume(an != 0, "rotation angle different from 0 (the default)")
    return an


def turned(ctx, c, rot, x, y):
    """coordinates along the axes of a shape turned by rot"""
    if rot is None:
        return x - c[0], y - c[1]
    co, si = ctx.cs(rot)
    return co * (x - c[0]) + si * (y - c[1]), -si * (x - c[0]) + co * (y - c[1])


def _ellipse(name, lattice, rot, shape=(2, 3)):
    @exactly(name, "every ellipse" + (" and rotation" if rot else ""), lattice, shape)
    def f(ctx, nn, lat):
        c = _center(ctx)
        r = ctx.real("rx", lo=0, sample=0.6), ctx.real("ry", lo=0, sample=0.35)
        an = angle(ctx) if rot else None

        def g(x, y):
            u, v = turned(ctx, c, an, x, y)
            d = (u / r[0]) ** 2 + (v / r[1]) ** 2
            return d < 1, ctx.symbolic or away(d)

        m = lat.ellipse(c, r, rotate=an) if rot else lat.ellipse(c, r)
        check(ctx, nn, lat, m, g)


_ellipse("ellipse", OBL, False, (2, 2))
_ellipse("ellipse_rotated", TILT, True, (2, 2))


def _rect(name, lattice, rot, square=False, shape=(2, 3)):
    @exactly(name, f"every {'square' if square else 'rectangle'}" + (" and rotation" if rot else ""), lattice, shape)
    def f(ctx, nn, lat):
        c = _center(ctx)
        w = ctx.real("wx", lo=0, sample=0.7), ctx.real("wy", lo=0, sample=0.5)
        if square:
            w = w[0], w[0]
        an = angle(ctx) if rot else None

        def g(x, y):
            u, v = turned(ctx, c, an, x, y)
            want = (2 * u < w[0]) & (-2 * u < w[0]) & (2 * v < w[1]) & (-2 * v < w[1])
            return want, ctx.symbolic or (away(2 * abs(u) / w[0]) and away(2 * abs(v) / w[1]))

        k = dict(rotate=an) if rot else {}
        m = lat.square(c, w[0], **k) if square else lat.rectangle(c, w, **k)
        check(ctx, nn, lat, m, g)


_rect("rectangle", OBL, False)
_rect("rectangle_rotated", TILT, True)
_rect("square", TILT, False, True)
_rect("square_rotated", OBL, True, True)


@exactly("polygon", "every triangle", TILT, (3, 2))
def _polygon(ctx, nn, lat):
    v = [(ctx.real(f"x{i}", sample=x), ctx.real(f"y{i}", sample=y)) for i, (x, y) in enumerate(((-0.1, -0.2), (0.9, 0.1), (0.2, 1.1)))]
    det = (v[1][0] - v[0][0]) * (v[2][1] - v[0][1]) - (v[1][1] - v[0][1]) * (v[2][0] - v[0][0])
    ctx.assume(det > 0, "vertices in the order given or the reverse one")
    w = v[::-1] if ctx.choice("reverse", [0, 1]) else v

    def g(x, y):
        # areas
        b = [(v[k][0] - x) * (v[l][1] - y) - (v[k][1] - y) * (v[l][0] - x) for k, l in ((1, 2), (2, 0), (0, 1))]
        return (b[0] > 0) & (b[1] > 0) & (b[2] > 0), ctx.symbolic or all(abs(z / det) > 0.02 for z in b)

    check(ctx, nn, lat, lat.polygon(w), g)


@exactly("geometry", "a shape given by the user (disc)", TILT, (3, 2))
def _geometry(ctx, nn, lat):
    c, r = _center(ctx), ctx.real("r", lo=0, sample=0.5)
    if ctx.symbolic:
        s = Pt(*c).buffer(r)
    else:
        import shapely.geometry as sg

        s = sg.Point(*c).buffer(r)

    def g(x, y):
        d = (x - c[0]) ** 2 + (y - c[1]) ** 2
        return d < r * r, ctx.symbolic or away(d / r**2)

    check(ctx, nn, lat, lat.geometry_mask(s), g)
