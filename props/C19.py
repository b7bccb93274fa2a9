"""Simulations that share layer objects."""
from symnn.run import Harness, harness

from .C18 import flat
from .common import J, PI, amplitudes, arr, lift_, modes

ABOUT = "Interleaved queries on simulations that share layer objects, against simulations with layers of their own."
HARNESSES = []


class Case:
    """layers that two simulations share"""

    def __init__(self, ctx, nn):
        self.ctx, self.nn = ctx, nn
        if ctx.symbolic:
            ctx.hint_sqrt(1, 2, 3 * J(ctx), 4, 5, 10, 6 * J(ctx))
        self.t = [ctx.real("t1", lo=0, sample=0.1), ctx.real("t2", lo=0, sample=0.05)]
        self.z = ctx.real("z", lo=0, sample=0.03)
        self.lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)

    def layers(self):
        L = self.lat.Layer
        f = L("f", thickness=self.t[0], epsilon=4)
        return [L("a", epsilon=1), f, L("g", thickness=self.t[1], epsilon=-9), L("b", epsilon=25)]

    def wave(self, k, psi=0):
        return self.nn.PlaneWave(wavelength=2 * lift_(self.ctx, PI) / k, angles=(0, 0, psi))

    def sim(self, which, ls):
        a, f, g, b = ls
        if which == "A":
            return self.nn.Simulation([a, f, g, b], self.wave(1), nh=1)
        if which == "B":
            return self.nn.Simulation([a, g, f, b], self.wave(2, 90), nh=1)
        # the other way round
        return self.nn.Simulation([b, f, a], self.wave(1, 90), nh=1)


QUERIES = {
    "S": lambda s, c: s.get_S_matrix(),
    "S02": lambda s, c: s.get_S_matrix(indices=(0, 2)),
    "eff": lambda s, c: s.diffraction_efficiencies(orders=True),
    "amp": lambda s, c: s.diffraction_efficiencies(orders=True, complex=True),
    "f1": lambda s, c: s.get_field_fourier(1, c.z),
    "f0": lambda s, c: s.get_field_fourier(0),
    "flux": lambda s, c: s.get_z_poynting_flux(s.layers[1], *s._get_amplitudes(1, c.z)),
    "stress": lambda s, c: s.get_z_stress_tensor_integral(1, c.z),
    "solve": lambda s, c: s.solve() or (),
}


OPS = ("S02", "eff", "f1", "flux", "stress", "solve")
FINAL = ("S", "f1", "amp", "flux", "eff", "f0", "S02")


def _inter(name, first, pair, tier="quick", length=2):
    ops = [(w, q) for w in pair for q in OPS]

    def f(ctx, nn):
        c = Case(ctx, nn)
        shared = c.layers()
        names = [l.name for l in shared]
        sims = {w: c.sim(w, shared) for w in pair}
        fresh = {}

        def check(op):
            w, q = op
            if op not in fresh:
                fresh[op] = flat(QUERIES[q](c.sim(w, c.layers()), c))
            for x, y in zip(flat(QUERIES[q](sims[w], c)), fresh[op]):
                ctx.prove_eq(f"{w}.{q}", x, y)

        check(first)
        for i in range(1, length):
            check(ctx.choice(f"op{i}", ops))
        ctx.observe("S", sims[pair[0]].get_S_matrix()[0][0])
        for op in ([(w, q) for w in pair for q in FINAL] if length == 2 else [o for o in ops if o[1] in ("S02", "eff", "f1")]):
            check(op)
        ctx.prove("layers kept", [l.name for l in shared] == names and len(shared) == 4)
        for l, e in zip(shared, (1, 4, -9, 25)):
            ctx.prove_eq("permittivity kept", l.epsilon, e)

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=2000, bounds=f"{first}, then every {length - 1} queries out of {len(ops)}, then all of them; two simulations {pair} sharing two films of every thickness"))


for w in "AB":
    for q in OPS:
        _inter(f"share_{w}_{q}", (w, q), "AB", "quick")
        if w == "A" and q in ("eff", "f1", "solve"):
            _inter(f"share_C_{q}", (w, q), "AC", "quick")
            _inter(f"share3_{q}", (w, q), "AB", "thorough", 3)


@harness(HARNESSES, bounds="patterned layer (every pattern, given modes) and its copy shared by simulations at two waves, every thickness and depth")
def patterned(ctx, nn):
    from .C09 import pattern

    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
    modes(ctx, "p", full=False, given=True)
    if ctx.symbolic:
        ctx.hint_sqrt(1, 2)
    L = lat.Layer
    e = pattern(ctx, nn, 1)
    t, z = ctx.real("t", lo=0, sample=0.1), ctx.real("z", lo=0, sample=0.04)

    def layers():
        g = L("g", thickness=t, epsilon=e)
        return [L("a", epsilon=1), g, g.copy("h"), L("b", epsilon=4)]

    def sims(ls):
        w = [nn.PlaneWave(wavelength=2 * lift_(ctx, PI) / k, angles=(0, 0, 0)) for k in (1, 2)]
        a, g, h, b = ls
        return [nn.Simulation([a, g, b], w[0], nh=1), nn.Simulation([b, h, a], w[1], nh=1)]

    Q = [
        lambda s: s.diffraction_efficiencies(orders=True),
        lambda s: s.get_field_fourier(1, z),
        lambda s: s.get_S_matrix((0, 1)),
        lambda s: s.build_matrix(1).matrix,
    ]
    ref = [[flat(q(s)) for q in Q] for s in (sims(layers())[0], sims(layers())[1])]
    A = sims(layers())
    for k, i in ((0, 0), (1, 0), (0, 1), (1, 1), (1, 3), (0, 2), (1, 2), (0, 3), (0, 0), (1, 0)):
        for x, y in zip(flat(Q[i](A[k])), ref[k][i]):
            ctx.prove_eq(f"simulation {k}, query {i}", x, y)


@harness(HARNESSES, bounds="building and querying a simulation changes none of the user's inputs: every pattern, list of harmonics, wave")
def inputs_kept(ctx, nn):
    from .common import grid

    bk = nn.backend
    h = [[0, 1], [0, 0]]
    hs = bk.array(h)
    e = grid(ctx, "e", (4, 3), lo=0, nn=nn)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=hs)
    modes(ctx, "p", full=False, given=True)
    L = lat.Layer
    th, ph = ctx.angle("theta", lo=-90, hi=90), ctx.angle("phi")
    t = ctx.real("t", lo=0)
    angles = [th, ph, 0]
    pw = nn.PlaneWave(wavelength=2 * PI, angles=angles)
    k0, a0 = pw.wavevector + 0, pw.amplitude + 0
    ls = [L("a", epsilon=1), L("g", thickness=t, epsilon=e), L("b", epsilon=4)]
    mine = list(ls)
    e0 = ls[1].epsilon + 0
    sim = nn.Simulation(ls, pw, nh=5)
    for i in range(3):
        sim.build_matrix(i)
    ctx.prove("list of layers", len(ls) == 3 and all(x is y for x, y in zip(ls, mine)))
    ctx.prove_eq("harmonics", hs, bk.array(h))
    ctx.prove_eq("wavevector", pw.wavevector, k0)
    ctx.prove_eq("amplitude", pw.amplitude, a0)
    ctx.prove_eq("permittivity", ls[1].epsilon, e0)
    ctx.prove_eq("pattern", e + 0j, e0)
    ctx.prove("angles", angles[0] is th and angles[1] is ph and len(angles) == 3)
    ctx.prove_eq("thickness", ls[1].thickness, t)
    ctx.observe("kx", sim.kx)


def _nh(name, orders, one_d=False):
    def f(ctx, nn):
        e = [[2 + (3 * i + i * j) % 5 for j in range(1 if one_d else 3)] for i in range(5 if one_d else 4)]
        w = ctx.real("w", lo=0, sample=2.0)
        trunc = "parallelogrammic" if ctx.choice("trunc", [0, 1]) else "circular"

        def layers():
            lat = nn.Lattice(1, discretization=5) if one_d else nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), truncation=trunc)
            return [lat.Layer("a", epsilon=1), lat.Layer("g", thickness=1, epsilon=e), lat.Layer("b", epsilon=4)]

        def sim(ls, nh):
            return nn.Simulation(ls, nn.PlaneWave(wavelength=2 * PI / w, angles=(0, 0, 0)), nh=nh)

        def query(s):
            for i in range(3):
                s.build_matrix(i)
            g = s.layers[1]
            return [s.nh, s.harmonics, s.kx, s.ky, s.a0, g.eps_hat, g.matrix, g.Qeps, s.layers[2].Qeps]

        shared = layers()
        sims = [sim(shared, n) for n in orders]
        for i in list(range(len(orders))) + [0]:
            for x, y in zip(query(sims[i]), query(sim(layers(), orders[i]))):
                ctx.prove_eq(f"simulation {i} of {orders} harmonics", x, y)
        ctx.observe("kx", sims[0].kx)

    HARNESSES.append(Harness(name, f, bounds=f"one pattern, every wavelength, simulations of {orders} harmonics on one lattice, both truncations: operators"))


_nh("harmonics", (3, 7, 5, 9))
_nh("harmonics_1d", (3, 5, 2, 1), True)
