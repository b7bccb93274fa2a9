"""Invalid input is rejected, valid input is accepted."""
from symnn.run import Harness, harness

from .C26 import Name
from .common import PI, arr, lift_

ABOUT = "Constructors and queries with symbolic thicknesses, permeabilities, discretizations, names and options; an error must be raised exactly where the input is invalid."
HARNESSES = []
ERRORS = (ValueError, AssertionError, NotImplementedError, TypeError, KeyError, IndexError, AttributeError)


def name(ctx, k, options):
    return Name(ctx, k, options) if ctx.symbolic else ctx.choice(k, options)


def refused(f, *a, **k):
    """whether the call raises an error"""
    try:
        f(*a, **k)
    except ERRORS:
        return True
    return False


def agree(ctx, what, got, bad):
    """got: error or not (a machine boolean, on this path); bad: must it be one"""
    ctx.prove(f"{what}: {'refused' if got else 'accepted'}", bad if got else _not(bad))


def _not(b):
    return (not b) if isinstance(b, bool) else ~b


def square_lattice(ctx, nn, n=9, **k):
    return nn.Lattice(((1, 0), (0, 1)), discretization=n, **k)


def pw(ctx, nn, th=0):
    return nn.PlaneWave(wavelength=2 * lift_(ctx, PI), angles=(th, 0, 0))


def films(ctx, nn, lat=None, mid=4, names=("a", "f", "b")):
    L = (lat or square_lattice(ctx, nn)).Layer
    if ctx.symbolic:
        ctx.hint_sqrt(1, 2, 3)
    return [L(names[0], epsilon=1), L(names[1], thickness=lift_(ctx, 1) / 8, epsilon=mid), L(names[2], epsilon=9)]


@harness(HARNESSES, bounds="every real thickness, on both lattices")
def thickness(ctx, nn):
    t = ctx.real("t", sample=0.2)
    one = ctx.choice("one", [0, 1])
    lat = nn.Lattice(1, discretization=9) if one else square_lattice(ctx, nn)
    r = refused(lat.Layer, "l", thickness=t, epsilon=2)
    agree(ctx, "thickness", r, t < 0)
    if not r:
        ctx.prove_eq("thickness", lat.Layer("l", thickness=t).thickness, t)
    ctx.prove("no thickness", not refused(lat.Layer, "l", thickness=None))


@harness(HARNESSES, bounds="every complex permeability")
def magnetic(ctx, nn):
    m = ctx.cplx("mu", sample=1.5)
    lat = square_lattice(ctx, nn)
    ctx.assume(m.real * m.real + m.imag * m.imag > 0)
    r = refused(lat.Layer, "l", mu=m)
    d = (m.real - 1) ** 2 + m.imag**2
    agree(ctx, "permeability", r, d > 0)
    ctx.prove("unit", not refused(lat.Layer, "l", mu=1))


def _duplicates(n):
    def f(ctx, nn):
        o = ["a", "b", "A", ""][: n + 1]
        ns = [name(ctx, f"n{i}", o) for i in range(n)]
        lat = square_lattice(ctx, nn)
        ls = [lat.Layer(x, epsilon=i + 1, thickness=0) for i, x in enumerate(ns)]
        r = refused(nn.Simulation, ls, pw(ctx, nn), nh=1)
        ns = [str(x) for x in ns]
        agree(ctx, "names", r, len(set(ns)) < len(ns))

    HARNESSES.append(Harness(f"names_{n}", f, max_paths=400, bounds=f"stacks of {n} layers, names from {n + 1} strings"))


_duplicates(2)
_duplicates(3)


@harness(HARNESSES, bounds="stacks of 3 layers on either of two lattices")
def lattices(ctx, nn):
    ls = [square_lattice(ctx, nn), nn.Lattice(((2, 0), (0, 1)), discretization=9)]
    k = [ctx.choice(f"l{i}", [0, 1]) for i in range(3)]
    st = [ls[j].Layer(f"x{i}", epsilon=1 + i) for i, j in enumerate(k)]
    agree(ctx, "lattices", refused(nn.Simulation, st, pw(ctx, nn), nh=1), len(set(k)) > 1)


FORMS = ["original", "tangent", "jones", "pol", "Original", "normal", "", "fft"]


def _formulation(one_d):
    def f(ctx, nn):
        lat = nn.Lattice(1, discretization=9) if one_d else square_lattice(ctx, nn)
        fo = name(ctx, "formulation", FORMS)
        st = films(ctx, nn, lat)
        r = refused(nn.Simulation, st, pw(ctx, nn), nh=1, formulation=fo)
        fo = str(fo)
        agree(ctx, "formulation", r, fo not in (("original", "tangent") if one_d else ("original", "tangent", "jones", "pol")))

    HARNESSES.append(Harness("formulation_1d" if one_d else "formulation", f, bounds="any of 8 names, " + ("1D" if one_d else "2D")))


_formulation(False)
_formulation(True)


@harness(HARNESSES, bounds="any of 6 names, 1D and 2D")
def truncation(ctx, nn):
    t = name(ctx, "truncation", ["circular", "parallelogrammic", "Circular", "1D", "", "none"])
    b = ctx.choice("basis", [1, ((1, 0), (0, 1))])
    r = refused(nn.Lattice, b, discretization=9, truncation=t)
    agree(ctx, "truncation", r, str(t) not in ("circular", "parallelogrammic"))


@harness(HARNESSES, bounds="numbers of harmonics k / 4 up to 12, three truncations", max_paths=400)
def count(ctx, nn):
    k = ctx.choice("k", list(range(4, 49)))
    t = ctx.choice("t", ["circular", "parallelogrammic", "1D"])
    lat = nn.Lattice(1, discretization=9) if t == "1D" else square_lattice(ctx, nn, truncation=t)
    agree(ctx, "count", refused(lat.get_harmonics, k // 4 if k % 4 == 0 else k / 4), k % 4 != 0)


ORDERS = [(0, 0), (1, 0), (-1, 0), (0, 2), (0, -2), (3, -1), (-3, 1), (2, -4), (-2, 4)]


def _nyquist(one_d):
    def f(ctx, nn):
        o = [x for x in ORDERS if not one_d or x[1] == 0] + ([(3, 0), (-4, 0)] if one_d else [])
        a, b = ctx.choice("h1", o), ctx.choice("h2", o[1:])
        ctx.assume(bool(a != b) if not ctx.symbolic else True)
        if a == b:
            return
        n = [ctx.integer("N0", 1, 20, sample=9), ctx.integer("N1", 1, 20, sample=11)]
        if not ctx.symbolic:
            n = [int(x) for x in n]
        hz = nn.backend.array([[a[0], b[0]], [a[1], b[1]]])
        lat = nn.Lattice(1, discretization=(n[0], 1), harmonics_array=hz) if one_d else nn.Lattice(((1, 0), (0, 1)), discretization=n, harmonics_array=hz)
        L = lat.Layer
        st = [L("a", epsilon=1), L("b", epsilon=4)]
        m = 2 * max(abs(x) for x in a + b)
        r = refused(nn.Simulation, st, pw(ctx, nn), nh=2)
        bad = n[0] <= m
        if not one_d:
            bad = bad | (n[1] <= m)
        agree(ctx, "discretization", r, bad)

    HARNESSES.append(Harness("nyquist_1d" if one_d else "nyquist", f, max_paths=2000, bounds="every discretization from 1 to 20 per axis (symbolic), pairs of orders of either sign up to 4"))


_nyquist(False)
_nyquist(True)


@harness(HARNESSES, bounds="every discretization from 1 to 30 per axis (symbolic), 1 to 13 harmonics of the package's truncation")
def nyquist_generated(ctx, nn):
    nh = ctx.choice("nh", [1, 3, 5, 9, 13])
    n = [ctx.integer("N0", 1, 30, sample=9), ctx.integer("N1", 1, 30, sample=11)]
    if not ctx.symbolic:
        n = [int(x) for x in n]
    lat = square_lattice(ctx, nn, 64)
    hs, _ = lat.get_harmonics(2 if nh == 1 else nh, sort=True)
    m = 2 * max(abs(int(x)) for r in hs for x in r)
    L = lat.Layer
    e = arr(ctx, [[1, 2, 1, 1], [1, 1, 3, 1], [1, 1, 1, 2], [1, 3, 1, 1]])
    if not ctx.symbolic:
        e = nn.backend.array(e * 1.0)
    st = [L("a", epsilon=1), L("g", thickness=1, epsilon=e), L("b", epsilon=4)]
    for l in st:
        l.lattice = lat
    lat.discretization = tuple(n)
    agree(ctx, "discretization", refused(nn.Simulation, st, pw(ctx, nn), nh=nh), (n[0] <= m) | (n[1] <= m))


FIELDS = ["all", "E", "H", "x", "e", "", "D"]
COMPS = ["all", "x", "y", "z", "E", "X", "", "xy"]


@harness(HARNESSES, bounds="any of 7 fields and 8 components, any layer", max_paths=400)
def fields(ctx, nn):
    fi, co = name(ctx, "field", FIELDS), name(ctx, "comp", COMPS)
    sim = nn.Simulation(films(ctx, nn), pw(ctx, nn), nh=1)
    r = refused(sim.get_field_grid, 1, 0, (2, 2), fi, co)
    agree(ctx, "selection", r, str(fi) not in ("all", "E", "H") or str(co) not in ("all", "x", "y", "z"))


@harness(HARNESSES, bounds="any of 6 names, any index from -5 to 5, layers of the stack and of another")
def layer_names(ctx, nn):
    st = films(ctx, nn)
    sim = nn.Simulation(st, pw(ctx, nn), nh=1)
    kind = ctx.choice("kind", ["name", "index", "layer", "stranger", "none"])
    if kind == "name":
        o = ["a", "f", "b", "c", "", "F"]
        n = name(ctx, "n", o)
        r = refused(sim.get_layer, n)
        agree(ctx, "name", r, str(n) not in ("a", "f", "b"))
        if not r:
            l, i = sim.get_layer(n)
            ctx.prove("named layer", l is st[i] and l.name == str(n))
            ctx.prove("by name", sim.get_layer_by_name(n) is l)
    elif kind == "index":
        k = ctx.choice("k", list(range(-5, 6)))
        r = refused(sim.get_layer, k)
        agree(ctx, "index", r, not -3 <= k < 3)
        if not r:
            l, i = sim.get_layer(k)
            ctx.prove("indexed layer", l is st[k] and i == k % 3)
    elif kind == "layer":
        k = ctx.choice("k", [0, 1, 2])
        l, i = sim.get_layer(st[k])
        ctx.prove("layer", l is st[k] and i == k)
    elif kind == "stranger":
        ctx.prove("layer of no such name", refused(sim.get_layer, sim.lattice.Layer("z")))
    else:
        ctx.prove("not a layer", refused(sim.get_layer, None) and refused(sim.get_layer, 1.5))


@harness(HARNESSES, bounds="any of 5 types as the layer's and as the argument")
def tangent_types(ctx, nn):
    o = ["fft", "FFT", "", "min", "tangent"]
    ctx.nan_ok = "any"
    own, arg = name(ctx, "own", o), ctx.choice("arg", [None] + o)
    e = [[1, 1], [4, 4]]
    e = arr(ctx, [[lift_(ctx, x) for x in r] for r in e]) if ctx.symbolic else nn.backend.array(e) * 1.0
    lat = square_lattice(ctx, nn, 2)
    g = lat.Layer("g", thickness=1, epsilon=e, tangent_field_type=own)
    hs, _ = lat.get_harmonics(2)
    r = refused(g.get_tangent_field, hs, type=arg)
    want = arg or str(own)
    agree(ctx, "type", r, want != "fft")


METHODS = {
    "polygon": lambda l: l.polygon([(0, 0), (1, 0), (0, 1)]),
    "circle": lambda l: l.circle((0.5, 0.5), 0.2),
    "ellipse": lambda l: l.ellipse((0.5, 0.5), (0.2, 0.3)),
    "square": lambda l: l.square((0.5, 0.5), 0.2),
    "rectangle": lambda l: l.rectangle((0.5, 0.5), (0.2, 0.3)),
    "stripe": lambda l: l.stripe(0.5, 0.2),
}


@harness(HARNESSES, bounds="all shape methods, 1D and 2D")
def shapes(ctx, nn):
    m = ctx.choice("method", list(METHODS))
    one = ctx.choice("one", [False, True])
    lat = nn.Lattice(1, discretization=4) if one else square_lattice(ctx, nn, 4)
    agree(ctx, "shape", refused(METHODS[m], lat), one and m != "stripe")


@harness(HARNESSES, bounds="orders from -2 to 2, single numbers and pairs, 1D and 2D")
def orders(ctx, nn):
    one = ctx.choice("one", [False, True])
    lat = nn.Lattice(1, discretization=9, harmonics_array=nn.backend.array([[0, 1, -2], [0, 0, 0]])) if one else square_lattice(ctx, nn, harmonics_array=nn.backend.array([[0, 1, -2], [0, 0, 0]]))
    sim = nn.Simulation(films(ctx, nn, lat), pw(ctx, nn), nh=3)
    i = ctx.choice("i", [-2, -1, 0, 1, 2])
    j = ctx.choice("j", [None, -1, 0, 1])
    have = i in (0, 1, -2) and j in (0, None)
    r = refused(sim.get_order_index, i if j is None else (i, j))
    agree(ctx, "order", r, not have or (j is None and not one))
    if not r:
        k = sim.get_order_index(i if j is None else (i, j))
        ctx.prove("index of the order", int(sim.harmonics[0, k]) == i and int(sim.harmonics[1, k]) == 0)


@harness(HARNESSES, bounds="permittivity tensors of a uniform layer, every diagonal")
def uniform_tensor(ctx, nn):
    e = [ctx.real(f"e{i}", lo=1, sample=2 + i) for i in range(3)]
    o = [[e[i] if i == j else lift_(ctx, 1) / (2 + i + j) for j in range(3)] for i in range(3)]
    o = arr(ctx, o) if ctx.symbolic else nn.backend.array(o)
    sim = nn.Simulation(films(ctx, nn, mid=o), pw(ctx, nn), nh=1)
    ctx.prove("uniform tensors are refused", refused(sim.solve))
