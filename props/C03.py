"""Order lookup and dictionaries."""
from symnn.run import harness

from .common import PI, amps, arr

ABOUT = "Simulation.get_order_index, get_order, harmidx_dict, diffraction_efficiencies(return_dict)."
HARNESSES = []

LISTS = [
    [[0, 1, -1, 0], [0, 0, 0, 1]],
    [[-1, 0, 1, 1], [1, 0, -1, 1]],
    [[0, -2, 2, 1], [0, 1, -1, 2]],
    [[1, 1, 0, 0], [1, 0, 1, 0]],
    [[0, 0, 0, 0], [2, 1, 0, -1]],
]


def sim_multi(ctx, nn, one_d=False, hs=None):
    """uniform stack, four orders all excited"""
    if one_d:
        hs = [[0, 1, -1, 2], [0, 0, 0, 0]]
        lat = nn.Lattice(20, discretization=9, harmonics_array=nn.backend.array(hs))
    else:
        hs = ctx.choice("list", LISTS) if hs is None else hs
        lat = nn.Lattice(((20, 0), (3, 22)), discretization=(9, 9), harmonics_array=nn.backend.array(hs))
    n = ctx.real("n", lo=2, hi=3)
    pw = nn.PlaneWave(wavelength=1, angles=(0, 0, 0))
    sup, sub = lat.Layer("Superstrate", epsilon=1), lat.Layer("Substrate", epsilon=n * n)
    sim = nn.Simulation([sup, sub], pw, nh=4)
    # every order carries its own amplitude, so that no two results agree
    a0 = [ctx.real(f"a{i}") for i in range(8)]
    sim.a0 = amps(ctx, a0)
    return sim, list(zip(*[[int(x) for x in row] for row in hs]))


@harness(HARNESSES, bounds="5 lists of 4 orders, every amplitude of each order, every substrate index")
def dictionaries(ctx, nn):
    sim, _ = sim_multi(ctx, nn)
    G = sim.harmonics
    hs = [(int(G[0, i]), int(G[1, i])) for i in range(4)]
    R, T = sim.diffraction_efficiencies(orders=True)
    before = ctx.boolean("dict first")
    if bool(before):
        sim.diffraction_efficiencies(orders=True, return_dict=True)
    Rd, Td = sim.diffraction_efficiencies(orders=True, return_dict=True)
    ctx.prove("keys R", sorted((a, b) for a in Rd for b in Rd[a]) == sorted(hs))
    ctx.prove("keys T", sorted((a, b) for a in Td for b in Td[a]) == sorted(hs))
    for i, (a, b) in enumerate(hs):
        ctx.prove_eq(f"R order {i}", Rd[a][b], R[i])
        ctx.prove_eq(f"T order {i}", Td[a][b], T[i])
        ctx.prove(f"index {i}", sim.get_order_index((a, b)) == i)
        ctx.prove_eq(f"get_order {i}", sim.get_order(R, (a, b)), R[i])
    ctx.observe("R", R)
    ctx.observe("T", T)
    R2, T2 = sim.diffraction_efficiencies(orders=True)
    ctx.prove_eq("R again", R2, R)
    ctx.prove_eq("T again", T2, T)
    Rs, Ts = sim.diffraction_efficiencies()
    ctx.prove_eq("sum R", Rs, R[0] + R[1] + R[2] + R[3])
    ctx.prove_eq("sum T", Ts, T[0] + T[1] + T[2] + T[3])


@harness(HARNESSES, bounds="5 lists of 4 orders, every amplitude, every substrate index")
def complex_dictionaries(ctx, nn):
    sim, _ = sim_multi(ctx, nn)
    G = sim.harmonics
    hs = [(int(G[0, i]), int(G[1, i])) for i in range(4)]
    r, t = sim.diffraction_efficiencies(orders=True, complex=True)
    rd, td = sim.diffraction_efficiencies(orders=True, complex=True, return_dict=True)
    ctx.observe("r", r)
    ctx.observe("t", t)
    ctx.prove("keys r", sorted((a, b) for a in rd for b in rd[a]) == sorted(hs))
    ctx.prove("keys t", sorted((a, b) for a in td for b in td[a]) == sorted(hs))
    for i, (a, b) in enumerate(hs):
        ctx.prove_eq(f"r order {i}", rd[a][b], r[:, i])
        ctx.prove_eq(f"t order {i}", td[a][b], t[:, i])
        ctx.prove_eq(f"get_order {i}", sim.get_order(r[0], (a, b)), r[0, i])
    rs, ts = sim.diffraction_efficiencies(complex=True)
    for c in range(3):
        ctx.prove_eq(f"sum r {c}", rs[c], r[c, 0] + r[c, 1] + r[c, 2] + r[c, 3])
        ctx.prove_eq(f"sum t {c}", ts[c], t[c, 0] + t[c, 1] + t[c, 2] + t[c, 3])
    # no dictionaries unless per-order results are asked for
    x = sim.diffraction_efficiencies(return_dict=True)
    ctx.prove("not a dict", not isinstance(x[0], dict))


@harness(HARNESSES, bounds="1D: orders 0,1,-1,2 by integer or pair; 2D: integers refused")
def one_dim(ctx, nn):
    sim, hs = sim_multi(ctx, nn, one_d=True)
    G = sim.harmonics
    k = int(ctx.integer("k", -1, 2, sample=1))
    i = [int(G[0, j]) for j in range(4)].index(k)
    ctx.prove("int", sim.get_order_index(k) == i)
    ctx.prove("pair", sim.get_order_index((k, 0)) == i)
    R, T = sim.diffraction_efficiencies(orders=True)
    ctx.prove_eq("get_order", sim.get_order(R, k), R[i])
    Rd, Td = sim.diffraction_efficiencies(orders=True, return_dict=True)
    ctx.prove_eq("dict R", Rd[k][0], R[i])
    ctx.prove_eq("dict T", Td[k][0], T[i])
    for bad in (3, (1, 1)):
        try:
            sim.get_order_index(bad)
            ctx.fail(f"order {bad} is not in the truncation")
        except KeyError:
            pass


@harness(HARNESSES, bounds="every integer order in [-3,3] on a 2D lattice; every pair in [-2,2]")
def two_dim_orders(ctx, nn):
    sim, hs = sim_multi(ctx, nn, hs=LISTS[2])
    k = int(ctx.integer("k", -3, 3, sample=1))
    try:
        sim.get_order_index(k)
        ctx.fail("an integer order needs a 1D lattice")
    except ValueError:
        pass
    G = sim.harmonics
    hs = [(int(G[0, i]), int(G[1, i])) for i in range(4)]
    a, b = int(ctx.integer("a", -2, 2, sample=0)), int(ctx.integer("b", -2, 2, sample=0))
    try:
        i = sim.get_order_index((a, b))
        ctx.prove("index", (a, b) in hs and hs[i] == (a, b))
    except KeyError:
        ctx.prove("missing", (a, b) not in hs)
