"""Cached scattering matrices."""
from symnn.run import Harness, harness

from .C16 import littrow
from .common import J, PI, lift_, ratlat, ratwave

ABOUT = "Sequences of queries and changes on one simulation against fresh simulations; composition of partial scattering matrices."
HARNESSES = []


def q289(ctx, q2):
    """permittivity of normal wavenumber squared q2 for the oblique wave below"""
    return lift_(ctx, q2 + 64) / 289


def wave17(ctx, nn, psi=None):
    return nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / 17, angles=(ctx.pyth(15, 8, 17), ctx.pyth(), ctx.pyth(5, 12, 13) if psi is None else psi))


class State:
    """parameters that operations may change"""

    def __init__(self, ctx):
        self.t = [ctx.real("t1", lo=0, sample=0.1), ctx.real("t2", lo=0, sample=0.05)]
        self.z = ctx.real("z", lo=0, sample=0.03)
        self.alt = [ctx.real("s1", lo=0, sample=0.07), ctx.real("s2", lo=0, sample=0.12)]
        self.eps = [36, -81]
        self.changed = ()

    def key(self):
        return self.changed


def build(ctx, nn, st):
    if ctx.symbolic:
        ctx.hint_sqrt(1, 2, 3 * J(ctx), 4, 5)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer
    t = [st.alt[i] if f"t{i}" in st.changed else st.t[i] for i in range(2)]
    e = [16 if "e0" in st.changed else 4, -9]
    w = nn.PlaneWave(wavelength=2 * lift_(ctx, PI), angles=(0, 0, 0))
    return nn.Simulation([L("a", epsilon=1), L("f", thickness=t[0], epsilon=lift_(ctx, e[0])), L("g", thickness=t[1], epsilon=lift_(ctx, e[1])), L("b", epsilon=25)], w, nh=1)


QUERIES = {
    "S": lambda s, st: s.get_S_matrix(),
    "S01": lambda s, st: s.get_S_matrix((0, 1)),
    "S02": lambda s, st: s.get_S_matrix(indices=(0, 2)),
    "S12": lambda s, st: s.get_S_matrix((1, 2)),
    "S13": lambda s, st: s.get_S_matrix(indices=(1, 3)),
    "S23": lambda s, st: s.get_S_matrix((2, 3)),
    "S22": lambda s, st: s.get_S_matrix((2, 2)),
    "eff": lambda s, st: s.diffraction_efficiencies(orders=True),
    "amp": lambda s, st: s.diffraction_efficiencies(orders=True, complex=True),
    "f1": lambda s, st: s.get_field_fourier(1, st.z),
    "f2": lambda s, st: s.get_field_fourier("g", [0, st.z]),
    "f0": lambda s, st: s.get_field_fourier(0),
    "f3": lambda s, st: s.get_field_fourier(3),
}


def change(s, st, ctx, nn, what, reset):
    i = int(what[1])
    layer = s.layers[1 + i]
    if what[0] == "t":
        layer.thickness = st.alt[i]
    else:
        layer.epsilon = nn.backend.array(lift_(ctx, 16)) + 0j
    s.reset(reset)
    if what not in st.changed:
        st.changed = tuple(sorted(st.changed + (what,)))


ACTIONS = {
    "reset": lambda s, st, ctx, nn: s.reset(),
    "resetS": lambda s, st, ctx, nn: s.reset("S"),
    "resetsolve": lambda s, st, ctx, nn: s.reset("solve"),
    "solve": lambda s, st, ctx, nn: s.solve(),
    "t0": lambda s, st, ctx, nn: change(s, st, ctx, nn, "t0", "S"),
    "t1": lambda s, st, ctx, nn: change(s, st, ctx, nn, "t1", "all"),
    "e0": lambda s, st, ctx, nn: change(s, st, ctx, nn, "e0", "all"),
}


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


def _history(name, first, tier="quick", length=2):
    def f(ctx, nn):
        st = State(ctx)
        fresh = {}

        def check(sim, q, what):
            k = (st.key(), q)
            if k not in fresh:
                fresh[k] = flat(QUERIES[q](build(ctx, nn, st), st))
            got = flat(QUERIES[q](sim, st))
            for x, y in zip(got, fresh[k]):
                ctx.prove_eq(what, x, y)

        sim = build(ctx, nn, st)
        names = list(QUERIES) + list(ACTIONS)
        hist = []
        for i in range(ctx_len(ctx, length)):
            op = first if i == 0 else ctx.choice(f"op{i}", names)
            hist.append(op)
            if op in QUERIES:
                check(sim, op, f"query {op}")
            else:
                ACTIONS[op](sim, st, ctx, nn)
        if length == 2:
            ctx.observe("S", sim.get_S_matrix()[0][0])
        for q in QUERIES:
            check(sim, q, f"{q} after {'-'.join(hist)}" if not ctx.symbolic else f"{q} after")

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=3000, bounds=f"{first}, then every sequence of {length - 1} operations out of 20, then every query; two films of every thickness, every depth"))


def ctx_len(ctx, n):
    return n


for q in list(QUERIES) + list(ACTIONS):
    _history(f"history_{q}", q)
    if q in ("S", "S13", "eff", "f1", "t0", "e0", "resetS"):
        _history(f"history3_{q}", q, "thorough", 3)


def star(ctx, nn, A, B):
    """Redheffer star product"""
    bk = nn.backend
    n = A[0][0].shape[0]
    I = bk.array(bk.eye(n)) + 0 * A[0][0]
    U = bk.linalg.solve(I - A[0][1] @ B[1][0], I)
    V = bk.linalg.solve(I - B[1][0] @ A[0][1], I)
    return [
        [B[0][0] @ U @ A[0][0], B[0][1] + B[0][0] @ U @ A[0][1] @ B[1][1]],
        [A[1][0] + A[1][1] @ V @ B[1][0] @ A[0][0], A[1][1] @ V @ B[1][1]],
    ]


def composed(ctx, nn, sim, cuts):
    n = len(sim.layers) - 1
    T = sim.get_S_matrix()
    m = T[0][0].shape[0]
    for k in cuts:
        C = star(ctx, nn, sim.get_S_matrix((0, k)), sim.get_S_matrix((k, n)))
        for i in range(2):
            for j in range(2):
                ctx.prove_eq(f"star product at {k}: S{i + 1}{j + 1}", C[i][j], T[i][j])
    E = sim.get_S_matrix((1, 1))
    for i in range(2):
        for j in range(2):
            for a in range(m):
                for b in range(m):
                    ctx.prove_eq("empty range", E[i][j][a, b], 1 if i == j and a == b else 0)
    ctx.observe("S", T[0][0])


@harness(HARNESSES, bounds="two films of every thickness, one oblique wave: star product at every layer")
def star_films(ctx, nn):
    st = State(ctx)
    composed(ctx, nn, build(ctx, nn, st), (0, 1, 2, 3))


def _star_mat(name, kind, flip):
    def f(ctx, nn):
        q = ctx.real("q", lo=0, sample=7.0) * (1 if kind == "p" else J(ctx))
        if ctx.symbolic:
            ctx.hint_sqrt(1, 2, 5, q)
        L = nn.Lattice(((1, 0), (0, 1)), discretization=9).Layer
        ls = [L("f", thickness=ctx.real("t0", lo=0, sample=0.05), epsilon=q * q), L("g", thickness=ctx.real("t1", lo=0, sample=0.08), epsilon=lift_(ctx, 4))]
        w = nn.PlaneWave(wavelength=2 * lift_(ctx, PI), angles=(0, 0, 0))
        sim = nn.Simulation([L("a", epsilon=1)] + (ls[::-1] if flip else ls) + [L("b", epsilon=25)], w, nh=1)
        composed(ctx, nn, sim, range(1, 3))

    HARNESSES.append(Harness(name, f, bounds=f"film of every medium ({kind}) and every thickness with a film of every thickness: star product"))


_star_mat("star_media_p", "p", False)
_star_mat("star_media_e", "e", True)


def grating(ctx, nn, t, t2, psi=0):
    """exact grating of two orders (C16) and a film"""
    L = lambda x: lift_(ctx, x)
    if ctx.symbolic:
        ctx.hint_sqrt(2, 3)
    return littrow(ctx, nn, L(20), L(16) / 5, [t, (L(4 + 16) / 25, t2)], psi, L(9 + 16) / 25, roots=[L(20), L(44) / 5], triple=(3, 4, 5))


@harness(HARNESSES, bounds="grating of two orders with a film, every thickness of both: star product")
def star_grating(ctx, nn):
    composed(ctx, nn, grating(ctx, nn, ctx.real("t", lo=0, sample=0.1), ctx.real("t2", lo=0, sample=0.15)), (1, 2))


def _history_grating(name, ops, tier="quick"):
    Q = {
        "eff": lambda s, z: s.diffraction_efficiencies(orders=True),
        "S": lambda s, z: s.get_S_matrix(),
        "S01": lambda s, z: s.get_S_matrix(indices=(0, 1)),
        "S12": lambda s, z: s.get_S_matrix(indices=(1, 2)),
        "f1": lambda s, z: s.get_field_fourier(1, z),
        "amp": lambda s, z: s.diffraction_efficiencies(orders=True, complex=True),
    }

    def f(ctx, nn):
        t, t2, u, z = [ctx.real(n, lo=0, sample=0.1 + 0.03 * i) for i, n in enumerate(("t", "t2", "u", "z"))]
        sim = grating(ctx, nn, t, t2)
        for op in ops:
            if op == "t":
                sim.layers[1].thickness = u
                sim.reset("S")
                t = u
            elif op == "reset":
                sim.reset()
            else:
                for x, y in zip(flat(Q[op](sim, z)), flat(Q[op](grating(ctx, nn, t, t2), z))):
                    ctx.prove_eq(f"{op} in {'-'.join(ops)}", x, y)
        ctx.observe("S", sim.get_S_matrix()[0][0])

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"grating and film of every thickness: {', '.join(ops)}"))


_history_grating("history_grating_1", ("eff", "f1", "S12", "eff", "t", "f1", "eff"))
_history_grating("history_grating_2", ("S01", "S", "f1", "t", "S", "S12"))
_history_grating("history_grating_3", ("S", "reset", "f1", "S01", "eff", "t", "S01", "S"))


@harness(HARNESSES, bounds="three orders of an oblique lattice, film of every thickness: star product")
def star_orders(ctx, nn):
    L = ratlat(ctx, nn, [[1, 0, 0], [0, 0, 1]]).Layer
    sim = nn.Simulation([L("a", epsilon=1), L("f", thickness=ctx.real("t", lo=0, sample=0.1), epsilon=lift_(ctx, -64) / 289), L("b", epsilon=lift_(ctx, 81) / 289)], ratwave(ctx, nn), nh=3)
    composed(ctx, nn, sim, (1,))
