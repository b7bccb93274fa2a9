"""Material interpolation and projection maps."""
from fractions import Fraction

from symnn.run import Harness, harness

from .common import arr, conj, lift_

ABOUT = "simp, multi_simp, project and multi_project of the optimization module."
ASSUMPTIONS = ["tanh is any odd, strictly increasing function between -1 and 1 and below the identity; real powers by their sign, monotonicity and end-point laws"]
HARNESSES = []


def below(ctx, name, a, b, strict=True):
    """a < b, with an allowance for rounding in concrete runs"""
    if ctx.symbolic:
        ctx.prove(name, a < b if strict else a <= b)
    else:
        ctx.prove(name, bool(a <= b + 1e-9))


def density(ctx, name="x", sample=None):
    return ctx.real(name, lo=0, hi=1, strict=False, sample=sample)


def powers(ctx, p):
    return ctx.real("p", lo=0, sample=2.3) if p == "any" else p


def value(x):
    """the number in a scalar or an array of size one"""
    return x.item() if hasattr(x, "item") else x


# --------------------------------------------------------------- two materials


def _simp(name, p):
    def f(ctx, nn):
        simp = nn.optimize.simp
        a, d = ctx.real("a", sample=1.5), ctx.real("d", lo=0, sample=2.0)
        b = a + d
        q = powers(ctx, p)
        x, y = density(ctx, "x", 0.3), density(ctx, "y", 0.8)
        ctx.assume(x < y)
        ex, ey = simp(x, a, b, q), simp(y, a, b, q)
        below(ctx, "increasing", ex, ey)
        below(ctx, "above the lower permittivity", a, ex, False)
        below(ctx, "below the upper permittivity", ey, b, False)
        below(ctx, "decreasing", simp(y, b, a, q), simp(x, b, a, q))
        ctx.prove_eq("density 0", simp(lift_(ctx, 0), a, b, q), a)
        ctx.prove_eq("density 1", simp(lift_(ctx, 1), a, b, q), b)
        ctx.prove_eq("equal permittivities", simp(x, a, a, q), a)
        ctx.observe("e", ex)

    HARNESSES.append(Harness(name, f, bounds=f"every pair of densities, every real permittivities, exponent {p}"))


for q in (1, 2, 3, 5):
    _simp(f"simp_{q}", q)
_simp("simp_any", "any")


@harness(HARNESSES, bounds="every complex permittivities and every densities, exponents 1 and 3 and any: end points, linearity and arrays")
def simp_complex(ctx, nn):
    simp = nn.optimize.simp
    a, b = ctx.cplx("a"), ctx.cplx("b")
    xs = [density(ctx, f"x{i}") for i in range(3)]
    for q in (1, 3):
        ctx.prove_eq("density 0", simp(lift_(ctx, 0), a, b, q), a)
        ctx.prove_eq("density 1", simp(lift_(ctx, 1), a, b, q), b)
        out = simp(arr(ctx, xs), a, b, q)
        for i, x in enumerate(xs):
            w = x
            for _ in range(q - 1):
                w = w * x
            ctx.prove_eq("the interpolation", out[i], a + (b - a) * w)
            ctx.prove_eq("reversed", simp(x, a, b, q) + simp(x, b, a, q), a + b)
    ctx.prove_eq("default exponent", simp(xs[0], a, b), simp(xs[0], a, b, 1))
    ctx.observe("e", out)


# ----------------------------------------------------------- several materials


def _multi(name, n, p, real=False):
    def f(ctx, nn):
        e = [ctx.real(f"e{i}", lo=0) if real else ctx.cplx(f"e{i}") for i in range(n)]
        ms = nn.optimize.multi_simp
        for k in range(n):
            ctx.prove_eq(f"density {k}/{n - 1}", value(ms(lift_(ctx, Fraction(k, n - 1) if ctx.symbolic else k / (n - 1)), e, p)), e[k])
        xs = [density(ctx, f"x{i}") for i in range(2)]
        out = ms(arr(ctx, xs), e, p)
        for i, x in enumerate(xs):
            # the polynomial of lowest degree in x^p through the materials
            one = Fraction(1) if ctx.symbolic else 1.0
            t = [(one * j / (n - 1)) ** p for j in range(n)]
            want = 0
            for j in range(n):
                w = e[j]
                for k in range(n):
                    if k != j:
                        w = w * (x**p - t[k]) / (t[j] - t[k])
                want = want + w
            ctx.prove_eq("array", out[i], want)
            ctx.prove_eq("one density", value(ms(x, e, p)), want)
        same = ms(xs[0], [e[0]] * n, p)
        ctx.prove_eq("equal materials", value(same), e[0])
        ctx.observe("e", out)

    HARNESSES.append(Harness(name, f, bounds=f"{n} materials of every {'real' if real else 'complex'} permittivity, exponent {p}, every density"))


for n in (2, 3, 4, 5):
    for q in (1, 2, 3):
        _multi(f"materials_{n}_{q}", n, q)
_multi("materials_real", 3, 1, True)


# ------------------------------------------------------------------ projection


def _project(name, thres, lo=0, hi=None):
    def f(ctx, nn):
        P = nn.optimize.project
        b = ctx.real("beta", lo=lo, hi=hi, sample=None if hi else 4.0)
        t = ctx.real("eta", lo=0, hi=1, sample=0.4) if thres == "any" else lift_(ctx, thres)
        x, y = density(ctx, "x", 0.3), density(ctx, "y", 0.8)
        ctx.assume(x < y)
        px, py = value(P(x, b, t)), value(P(y, b, t))
        below(ctx, "increasing", px, py)
        below(ctx, "at least 0", 0 * b, px, False)
        below(ctx, "at most 1", py, 1 + 0 * b, False)
        ctx.prove_eq("density 0", value(P(lift_(ctx, 0), b, t)), 0)
        ctx.prove_eq("density 1", value(P(lift_(ctx, 1), b, t)), 1)
        ctx.prove_eq("reversed", value(P(1 - x, b, 1 - t)), 1 - px)
        ctx.observe("p", px)

    HARNESSES.append(Harness(name, f, bounds=f"every pair of densities, steepness and threshold {thres}"))


_project("project_half", 0.5)
_project("project_quarter", 0.25)
_project("project_any", "any")


@harness(HARNESSES, bounds="every three densities, steepness and threshold: arrays, lists, default arguments")
def project_array(ctx, nn):
    P = nn.optimize.project
    b, t = ctx.real("beta", lo=0, sample=4.0), ctx.real("eta", lo=0, hi=1, sample=0.3)
    xs = [density(ctx, f"x{i}") for i in range(3)]
    for v in (arr(ctx, xs), xs):
        out = P(v, b, t)
        ctx.prove("shape", tuple(out.shape) == (3,))
        for i, x in enumerate(xs):
            ctx.prove_eq("elementwise", out[i], value(P(x, b, t)))
    ctx.prove_eq("threshold by name", value(P(xs[0], beta=b, thres=t)), out[0])
    ctx.prove_eq("default threshold", value(P(xs[0], b)), value(P(xs[0], b, 0.5)))
    ctx.prove_eq("default steepness", value(P(xs[0])), value(P(xs[0], 1, 0.5)))
    ctx.observe("p", out)


def _levels(name, n):
    def f(ctx, nn):
        P, M = nn.optimize.project, nn.optimize.multi_project
        b = ctx.real("beta", lo=0, sample=4.0)
        x, y = density(ctx, "x", 0.3), density(ctx, "y", 0.8)
        ctx.assume(x < y)
        mx, my = value(M(x, b, n)), value(M(y, b, n))
        ts = [Fraction(k, n) if ctx.symbolic else k / n for k in range(1, n)]
        for v, m in ((x, mx), (y, my)):
            s = 0
            for t in ts:
                s = s + value(P(v, b, lift_(ctx, t)))
            ctx.prove_eq("mean of the single projections", m, s / len(ts))
        below(ctx, "increasing", mx, my)
        ctx.prove_eq("density 0", value(M(lift_(ctx, 0), b, n)), 0)
        ctx.prove_eq("density 1", value(M(lift_(ctx, 1), b, n)), 1)
        if n == 2:
            ctx.prove_eq("default", value(M(x, b)), mx)
        out = M(arr(ctx, [x, y]), b, n)
        ctx.prove_eq("elementwise", out[0], mx)
        ctx.prove_eq("elementwise", out[1], my)
        ctx.observe("p", out)

    HARNESSES.append(Harness(name, f, bounds=f"{n} levels: every pair of densities and steepness"))


for n in (2, 3, 4):
    _levels(f"levels_{n}", n)
