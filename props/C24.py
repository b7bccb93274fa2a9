"""Adaptive sampling."""
import math
from fractions import Fraction

from symnn.run import Harness, harness

from .C25 import Pool
from .common import arr, lift_

ABOUT = "adaptive_sampler with a function of arbitrary values, on initial points in any order."
ASSUMPTIONS = ["the relative minimum interval is chosen so large that few refinements are possible (the number of rounds is not limited otherwise)"]
HARNESSES = []


class Fun:
    """a function of arbitrary values"""

    def __init__(self, ctx, out=1, samples=(0.0, 1.0, 0.2, 0.7, 0.4), limit=12, given=None):
        self.ctx, self.out, self.samples, self.limit, self.given = ctx, out, samples, limit, given
        self.points, self.values = [], []

    def __call__(self, x):
        ctx, k = self.ctx, len(self.points)
        if k >= self.limit:
            raise RuntimeError("too many evaluations")
        for p in self.points:
            ctx.prove("no point is evaluated twice", ~(x == p) if ctx.symbolic and not isinstance(x == p, bool) else x != p)
        self.points.append(x)
        s = self.samples[k % len(self.samples)]
        if self.given is not None:
            v = [self.given(x)]
        else:
            v = [ctx.real(f"y{k}", lo=-3, hi=3, sample=s)]
        v += [ctx.real(f"y{k}_{j}", lo=-3, hi=3) for j in range(1, self.out)]
        self.values.append(v)
        return v[0] if self.out == 1 else list(v)

    def value(self, x):
        for p, v in zip(self.points, self.values):
            e = x == p
            if bool(e):
                return v
        return None


def le(ctx, a, b):
    """a <= b up to rounding"""
    return a <= b if ctx.symbolic else a <= b + 1e-9 * (abs(a) + abs(b) + 1e-9)


def checks(ctx, f, x0, x, y, rel, bend=10, df=0.05, done=True):
    n = len(x)
    ctx.prove("as many values as points", len(y) == n)
    ctx.prove("every evaluation is returned", n == len(f.points))
    for i in range(n - 1):
        ctx.prove("sorted and distinct", x[i] < x[i + 1])
    lo, hi = x0[0], x0[0]
    for p in x0:
        lo, hi = (p if p < lo else lo), (p if p > hi else hi)
    for p in x:
        ctx.prove("within the range", (p >= lo) & (p <= hi))
    for p in x0:
        ctx.prove("the initial points are kept", any(bool(p == q) for q in x))
    main = []
    for i in range(n):
        v = f.value(x[i])
        ctx.prove("the point was evaluated", v is not None)
        w = [y[i]] if f.out == 1 else list(y[i])
        ctx.prove("all outputs", len(w) == len(v))
        for a, b in zip(w, v):
            ctx.prove_eq("value at the point", a, b)
        main.append(v[0])
    # new points halve an interval that is not too short
    have = []
    for p in f.points:
        if any(bool(p == q) for q in x0):
            have = insert(have, p)
    for p in f.points:
        if any(bool(p == q) for q in x0):
            continue
        ok = False
        for a, b in zip(have, have[1:]):
            if bool(p > a) and bool(p < b):
                ctx.prove_eq("a new point halves an interval", p * 2, a + b)
                ctx.prove("the interval was not below the minimum", le(ctx, rel * (hi - lo), b - a))
                ok = True
        ctx.prove("a new point lies between old ones", ok)
        have = insert(have, p)
    if not done:
        return
    # nothing is left to refine
    ymin, ymax = main[0], main[0]
    for v in main:
        ymin, ymax = (v if v < ymin else ymin), (v if v > ymax else ymax)
    dx, dy = rel * (hi - lo), df * (ymax - ymin)
    for i in range(n - 2):
        (a, b, c), (u, v, w) = x[i : i + 3], main[i : i + 3]
        if not ctx.symbolic:
            continue
        if (b - a < dx) & (c - b < dx):
            continue
        if (abs(v - u) < dy) & (abs(w - v) < dy):
            continue
        l, h = (u if u < v else v), (v if v > u else u)
        l, h = (w if w < l else l), (w if w > h else h)
        if bool(h == l):
            continue
        d0, d1, e0, e1 = (b - a) / (c - a), (c - b) / (c - a), (v - u) / (h - l), (w - v) / (h - l)
        ctx.prove("no interval three times its neighbour is left", (d1 <= 3 * d0) & (d0 <= 3 * d1))
        cos = (d0 * d1 + e0 * e1) / ((d0 * d0 + e0 * e0) * (d1 * d1 + e1 * e1)).sqrt()
        ctx.prove("no bend is left", cos >= math.cos(math.radians(bend)))


def insert(xs, p):
    k = 0
    while k < len(xs) and bool(xs[k] < p):
        k += 1
    return xs[:k] + [p] + xs[k:]


def _any(name, pts, rel, out=1, limit=12, tier="quick", jobs=1, paths=20000, order=None, lazy=False, nodf=False, **kw):
    def f(ctx, nn):
        import warnings

        warnings.simplefilter("ignore")
        if ctx.symbolic:
            ctx.nan_ok, ctx.lazy = True, lazy
        g = Fun(ctx, out, limit=limit)
        if pts == "any":
            P = [ctx.real("x0", sample=0.1)]
            P.append(P[0] + ctx.real("d1", lo=0, sample=0.4))
            P.append(P[1] + ctx.real("d2", lo=0, sample=0.6))
            P = [P[k] for k in order]
        else:
            P = [lift_(ctx, Fraction(p) if ctx.symbolic else float(Fraction(p))) for p in pts]
        r = Fraction(rel) if ctx.symbolic else float(Fraction(rel))
        k2 = dict(kw, **({"df": 0} if nodf else {}))
        with Pool(ctx, nn):
            x, y = nn.adaptive_sampler(g, arr(ctx, P), max_x_rel=r, n_jobs=jobs, **{("max_bend" if k == "bend" else "max_df"): v for k, v in k2.items()})
        checks(ctx, g, sorted(set(P)) if pts != "any" else P, x, y, r, done=not lazy, **kw)
        ctx.observe("x", x)

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=paths, merge_where=lazy, bounds=f"every values of the function, initial points {pts}, relative minimum interval {rel}"))


_any("three", ["0", "1/2", "1"], "3/5")
_any("three_uneven", ["0", "1/4", "1"], "4/5")
_any("three_unsorted", ["1", "0", "1/2"], "3/5")
_any("three_repeated", ["1", "0", "1/2", "1"], "3/5", tier="thorough")
_any("more", ["0", "1/2", "1"], "2/5", nodf=True, lazy=True)
_any("more_outputs", ["1/2", "1", "0"], "2/5", out=2, nodf=True, lazy=True)
_any("more_bend", ["0", "1/2", "1"], "2/5", bend=30, nodf=True, lazy=True)
_any("four", ["0", "1/4", "1/2", "1"], "2/5", nodf=True, lazy=True)
_any("four_unsorted", ["1", "1/8", "1/2", "0"], "2/5", nodf=True, lazy=True)
_any("more_df", ["0", "1/2", "1"], "2/5", lazy=True, tier="thorough")
_any("four_df", ["0", "1/4", "1/2", "1"], "2/5", lazy=True, tier="thorough")
_any("parallel", ["1", "0", "1/2"], "3/5", jobs=2, nodf=True, lazy=True)
_any("parallel_outputs", ["1", "0", "1/2"], "3/5", jobs=2, nodf=True, out=2, lazy=True)


VALUES = [0, 1, 0.25, -0.5, 0.75, 0.125]


def _same(name, pts, rel, where, tier="quick"):
    """the points do not depend on how many values come with the first"""

    def f(ctx, nn):
        import warnings

        warnings.simplefilter("ignore")
        if ctx.symbolic:
            ctx.nan_ok = True
        P = [Fraction(p) for p in pts]
        seen = {}

        def g(x):
            k = Fraction(float(x)).limit_denominator(4096)
            if k not in seen:
                ctx.prove("not too many evaluations", len(seen) < 12)
                free = len(seen) == where
                seen[k] = ctx.real(f"y{k}", lo=-3, hi=3, sample=0.8) if free else lift_(ctx, VALUES[len(seen) % len(VALUES)])
            return seen[k]

        r = Fraction(rel) if ctx.symbolic else float(Fraction(rel))
        kw = dict(max_x_rel=r, max_df=0)
        A = arr(ctx, [lift_(ctx, p if ctx.symbolic else float(p)) for p in P])
        x, y = nn.adaptive_sampler(g, A, **kw)
        n = len(seen)
        u, v = nn.adaptive_sampler(lambda t: [g(t), t], A, **kw)
        ctx.prove("the same points", len(x) == len(u) and len(seen) == n)
        for i in range(len(x)):
            ctx.prove_eq(f"point {i}", u[i], x[i])
            ctx.prove_eq(f"value {i}", v[i][0], y[i])
            ctx.prove_eq(f"second value {i}", v[i][1], x[i])

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=20000, bounds=f"every value at one point, given ones at the others, initial points {pts}, relative minimum interval {rel}"))


for k in range(4):
    _same(f"outputs_same_points_{k}", ["0", "1/2", "1"], "2/5", k)
for k in range(5):
    _same(f"outputs_same_points_{k}_four", ["0", "1/4", "1/2", "1"], "2/5", k)


def _linear(name, n, out=1, flat=False, perm=None):
    def f(ctx, nn):
        import warnings

        warnings.simplefilter("ignore")
        if ctx.symbolic:
            ctx.nan_ok = True
        a = 0 if flat else ctx.real("a", lo=0, sample=0.7)
        if flat == "down":
            a = -ctx.real("a", lo=0, sample=0.7)
        b = ctx.real("b")
        g = Fun(ctx, out, given=lambda x: a * x + b)
        P = [lift_(ctx, Fraction(k, n - 1) if ctx.symbolic else k / (n - 1)) for k in (perm or range(n))]
        x, y = nn.adaptive_sampler(g, arr(ctx, P))
        ctx.prove("no point is added", len(x) == n and len(g.points) == n)
        checks(ctx, g, sorted(P), x, y, 1e-3, done=False)
        ctx.observe("x", x)

    HARNESSES.append(Harness(name, f, bounds=f"every {'constant' if flat is True else 'linear'} function on {n} regular points, default options"))


_linear("linear_3", 3)
_linear("linear_4", 4, perm=(2, 0, 1, 3))
_linear("linear_6", 6)
_linear("linear_down", 5, flat="down")
_linear("linear_outputs", 4, out=2)
_linear("constant", 4, flat=True)
_linear("constant_outputs", 3, out=2, flat=True)
