"""Equivalent descriptions of a structure, and its mirror images."""
import itertools
from fractions import Fraction

from symnn.run import Harness

from .common import J, PI, Modes, amplitudes, arr, asum, lift_, root

ABOUT = "Pairs of simulations of the same structure, shifted, mirrored, or described with another lattice; the harmonics of one are those of the other."
ASSUMPTIONS = ["machine epsilon (added by the package to lengths before dividing) is taken as 0"]
HARNESSES = []


class Covariant(Modes):
    """arbitrary modes of the first structure; those of its image are the images
    of these modes, which is checked on the matrix itself"""

    sym = None

    def __call__(self, A):
        import numpy as np

        from symnn import shim
        from symnn.core import lift

        A = np.asarray(A, dtype=object)
        if self.sym is None or not self.seen:
            return super().__call__(A)
        B, (w, V) = self.seen[0]
        sym = self.sym
        sym.operator(self.ctx, "matrix", B, A)
        n2 = A.shape[0]
        U = np.empty((n2, n2), dtype=object)
        for c, i in itertools.product(range(2), range(sym.n)):
            for k in range(n2):
                U[sym.row(c, i), k] = lift_(self.ctx, sym.ph[i]) * asum([lift(sym.G[c][d]) * V[d * sym.n + i, k] for d in range(2)])
        return w.copy(), shim.wrap(U)


class Sym:
    """image of the harmonics: index map, phases, matrix of the transverse vectors"""

    def __init__(self, n, to, ph, G):
        self.n, self.to, self.ph, self.G = n, to, ph, G

    def row(self, c, i):
        return c * self.n + self.to[i]

    def scalar(self, ctx, what, X, Y):
        n = self.n
        for i, j in itertools.product(range(n), repeat=2):
            ctx.prove_eq(what, Y[self.to[i], self.to[j]], self.ph[i] * X[i, j] * self.cj(self.ph[j]))

    def operator(self, ctx, what, X, Y):
        n, G = self.n, self.G
        for a, b, i, j in itertools.product(range(2), range(2), range(n), range(n)):
            want = 0
            for c, d in itertools.product(range(2), range(2)):
                # the inverse of G is its transpose
                if G[a][c] != 0 and G[b][d] != 0:
                    want = want + G[a][c] * G[b][d] * X[c * n + i, d * n + j]
            ctx.prove_eq(what, Y[self.row(a, i), self.row(b, j)], self.ph[i] * want * self.cj(self.ph[j]))

    @staticmethod
    def cj(x):
        return x.conjugate() if hasattr(x, "conjugate") else x


# ------------------------------------------------------------ the structures

VALS = {
    "blob": [[0, 1, 2], [3, 0, 1], [2, 2, 0], [1, 3, 1]],
    "two": [[0, 1, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "sq": [[0, 1, 2, 3], [1, 0, 0, 2], [3, 3, 0, 1], [2, 0, 1, 0]],
    "sq2": [[0, 1, 1, 0], [1, 0, 0, 1], [1, 1, 0, 1], [0, 0, 1, 0]],
    "line": [[0], [1], [2], [3]],
    "line2": [[0], [1], [1], [0]],
}
DIRS = [(3, 4, 5), (1, 0, 1), (-5, 12, 13), (0, 1, 1)]


def materials(ctx, n, im=True):
    out = []
    for i in range(n):
        x = ctx.real(f"e{i}", lo=0, sample=1.7 + 0.9 * i)
        out.append(x + J(ctx) * ctx.real(f"k{i}", lo=0, sample=0.1 + 0.3 * ((2 * i) % 3)) if im else x)
    return out


def cells(ctx, nn, idx, vals):
    v = [[vals[k] for k in r] for r in idx]
    return arr(ctx, v) if ctx.symbolic else nn.backend.array(v)


def grid_of(idx, f, shape):
    """pattern whose value at (i, j) is that of the first one at f(i, j)"""
    N, M = len(idx), len(idx[0])
    out = []
    for i in range(shape[0]):
        out.append([])
        for j in range(shape[1]):
            a, b = f(i, j)
            out[-1].append(idx[a % N][b % M])
    return out


def tangents(ctx, nn, idx, G):
    """a tangent direction per material, given to the layer"""
    t = []
    for k in (0, 1):
        rows = []
        for r in idx:
            rows.append([])
            for v in r:
                d = DIRS[v]
                x, y = lift_(ctx, d[0]) / d[2], lift_(ctx, d[1]) / d[2]
                rows[-1].append(G[k][0] * x + G[k][1] * y)
        t.append(arr(ctx, rows) if ctx.symbolic else nn.backend.array([[float(x) for x in r] for r in rows]))
    return t


I2 = ((1, 0), (0, 1))


class Case:
    """second description of a structure.

    lat: lattice vectors of both; shape, f: grid of the second pattern and the
    point of the first one it shows; h: harmonics of the second description;
    G: matrix of (x, y) for polar vectors; A: that of the transverse magnetic
    field (axial)"""

    def __init__(self, name, pattern, hs, lat1, lat2, shape, f, h, shift=None, G=I2, A=None, wave="++", one_d=(False, False)):
        self.__dict__.update(locals())
        self.A = A or G


RECT = lambda p: ((2 * p / 8, 0), (0, 2 * p / 15))
RECT_T = lambda p: ((0, 2 * p / 8), (2 * p / 15, 0))
SWAPXY = lambda p: ((2 * p / 15, 0), (0, 2 * p / 8))
OBL = lambda p: ((2 * p / 9, 0), (-8 * p / 45, 2 * p / 15))
OBL_MIX = lambda p: ((2 * p / 9, 0), (2 * p / 9 - 8 * p / 45, 2 * p / 15))
OBL_SWAP = lambda p: OBL(p)[::-1]
OBL_NEG = lambda p: ((-2 * p / 9, 0), (-8 * p / 45, 2 * p / 15))
OBL_2 = lambda p: ((4 * p / 9, 0), (-8 * p / 45, 2 * p / 15))
OBL_22 = lambda p: ((4 * p / 9, 0), (-16 * p / 45, 4 * p / 15))
OBL_MIRX = lambda p: ((2 * p / 9, 0), (8 * p / 45, 2 * p / 15))
LINE = lambda p: 2 * p / 15
LINE2 = lambda p: ((2 * p / 15, 0), (0, 2 * p / 7))
LINEOBL = lambda p: ((2 * p / 15, 0), (2 * p / 15, 2 * p / 7))
H3 = [(0, 0), (1, 0), (0, 1)]
HR = [(0, 0), (1, 0), (0, -1)]
HL = [(0, 0), (1, 0)]
H2 = [(0, 0), (1, -1)]

CASES = {
    "shift": lambda s: Case("shift", "blob", H3, OBL, OBL, (4, 3), lambda i, j: (i - s[0], j - s[1]), lambda m, n: (m, n), shift=s),
    "inverted": lambda s: Case("inverted", "blob", H3, OBL, OBL, (4, 3), lambda i, j: (-i, -j), lambda m, n: (-m, -n), G=((-1, 0), (0, -1)), wave="-+"),
    "mirror_x": lambda s: Case("mirror_x", "blob", HR, RECT, RECT, (4, 3), lambda i, j: (-i, j), lambda m, n: (-m, n), G=((-1, 0), (0, 1)), A=((1, 0), (0, -1)), wave="--"),
    "mirror_y": lambda s: Case("mirror_y", "blob", HR, RECT, RECT, (4, 3), lambda i, j: (i, -j), lambda m, n: (m, -n), G=((1, 0), (0, -1)), A=((-1, 0), (0, 1)), wave="+-"),
    "mirror_oblique": lambda s: Case("mirror_oblique", "blob", H3, OBL, OBL_MIRX, (4, 3), lambda i, j: (-i, j), lambda m, n: (-m, n), G=((-1, 0), (0, 1)), A=((1, 0), (0, -1)), wave="--"),
    "exchange": lambda s: Case("exchange", "blob", HR, RECT, SWAPXY, (3, 4), lambda i, j: (j, i), lambda m, n: (n, m), G=((0, 1), (1, 0)), A=((0, -1), (-1, 0)), wave="x"),
    "swapped_vectors": lambda s: Case("swapped_vectors", "blob", H3, OBL, OBL_SWAP, (3, 4), lambda i, j: (j, i), lambda m, n: (n, m)),
    "negated_vector": lambda s: Case("negated_vector", "blob", H3, OBL, OBL_NEG, (4, 3), lambda i, j: (-i, j), lambda m, n: (-m, n)),
    "other_basis": lambda s: Case("other_basis", "sq", H3, OBL, OBL_MIX, (4, 4), lambda i, j: (i + j, j), lambda m, n: (m, m + n)),
    "supercell": lambda s: Case("supercell", "blob", H3, OBL, OBL_2, (8, 3), lambda i, j: (i, j), lambda m, n: (2 * m, n)),
    "supercell_2": lambda s: Case("supercell_2", "blob", H3, OBL, OBL_22, (8, 6), lambda i, j: (i, j), lambda m, n: (2 * m, 2 * n)),
    "grating": lambda s: Case("grating", "line", HL, LINE, LINE2, (4, 3), lambda i, j: (i, 0), lambda m, n: (m, n), one_d=(True, False)),
    "grating_oblique": lambda s: Case("grating_oblique", "line", HL, LINE, LINEOBL, (4, 4), lambda i, j: (i + j, 0), lambda m, n: (m, m), one_d=(True, False)),
    "grating_shift": lambda s: Case("grating_shift", "line", HL, LINE, LINE, (4, 1), lambda i, j: (i - s[0], 0), lambda m, n: (m, n), shift=s, one_d=(True, True)),
    "grating_mirror": lambda s: Case("grating_mirror", "line", HL, LINE, LINE, (4, 1), lambda i, j: (-i, 0), lambda m, n: (-m, n), G=((-1, 0), (0, 1)), A=((1, 0), (0, -1)), wave="--", one_d=(True, True)),
}


def sims(ctx, nn, case, vals, formulation, waves, layers, pattern=None, tangent=True, hs=None):
    """both descriptions; (simulations, layers with the pattern, Sym)"""
    idx = VALS[pattern or case.pattern]
    p = lift_(ctx, PI)
    pats = [idx, grid_of(idx, case.f, case.shape)]
    h1 = hs or case.hs
    h2 = [case.h(m, n) for m, n in h1]
    out, gs = [], []
    for k in range(2):
        hz = nn.backend.array([list(x) for x in zip(*(h1, h2)[k])])
        shape = (len(pats[k]), len(pats[k][0]))
        v = (case.lat1, case.lat2)[k](p)
        one_d = case.one_d[k]
        lat = nn.Lattice(v, discretization=shape[0] if one_d else tuple(3 * x if x < 9 else x for x in shape), harmonics_array=hz)
        kw = {}
        if formulation != "original" and tangent and not one_d:
            G = case.G if k else I2
            kw["tangent_field"] = tangents(ctx, nn, pats[k], G) if not case.one_d[0] else lines(ctx, nn, pats[k])
        g = lat.Layer("g", epsilon=cells(ctx, nn, pats[k], vals), thickness=1, **kw)
        sim = nn.Simulation(layers(lat, g), waves[k], nh=len(h1), formulation=formulation)
        out.append(sim)
        gs.append(g)
    H = [[(int(s.harmonics[0, i]), int(s.harmonics[1, i])) for i in range(s.nh)] for s in out]
    ctx.prove("harmonics as given", sorted(H[0]) == sorted(h1) and sorted(H[1]) == sorted(h2))
    to = [H[1].index(case.h(*h)) for h in H[0]]
    ph = [1] * len(to)
    if case.shift:
        N, M = len(idx), len(idx[0])
        ph = [root(ctx, -m * case.shift[0], N) * root(ctx, -n * case.shift[1], M) for m, n in H[0]]
    return out, gs, Sym(len(to), to, ph, case.A)


def lines(ctx, nn, idx):
    """along y"""
    o = [[lift_(ctx, 1) for _ in r] for r in idx]
    o = arr(ctx, o) if ctx.symbolic else nn.backend.array(o) * 1.0
    return [o * 0, o]


# ---------------------------------------------------------------- operators


def _ops(name, case, formulation="original", pattern=None, shift=(1, 0), im=True, deg=True, tier="quick"):
    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        c = CASES[case](shift)
        w = ctx.real("w", lo=0, sample=2.0)
        th = ctx.angle("theta", lo=-90, hi=90)
        if c.wave == "x":
            an = [(th, ctx.pyth(3, 4, 5), 0), (th, ctx.pyth(4, 3, 5), 0)]
        else:
            phi = ctx.angle("phi")
            an = [(th, phi, 0), (th if c.wave[0] == "+" else -th, phi if c.wave[1] == "+" else -phi, 0)]
        waves = [nn.PlaneWave(wavelength=2 * PI / w, angles=a) for a in an]
        vals = materials(ctx, 1 + max(max(r) for r in VALS[pattern or c.pattern]), im)
        (s1, s2), (g1, g2), sym = sims(ctx, nn, c, vals, formulation, waves, lambda lat, g: [lat.Layer("a", epsilon=1), g, lat.Layer("b", epsilon=2.25)], pattern, hs=HL if c.one_d[0] else H2)
        for s in (s1, s2):
            s.build_matrix("g")
        G = c.G
        for i in range(sym.n):
            k = (s1.kx[i], s1.ky[i])
            for a in range(2):
                ctx.prove_eq("wavevectors", (s2.kx, s2.ky)[a][sym.to[i]], G[a][0] * k[0] + G[a][1] * k[1])
        sym.scalar(ctx, "permittivity", g1.eps_hat, g2.eps_hat)
        sym.scalar(ctx, "inverse permittivity", g1.eps_hat_inv, g2.eps_hat_inv)
        sym.operator(ctx, "transverse permittivity", g1.Peps, g2.Peps)
        sym.operator(ctx, "magnetic operator", g1.Qeps, g2.Qeps)
        sym.operator(ctx, "eigenvalue matrix", g1.matrix, g2.matrix)
        ctx.observe("matrix", g2.matrix)

    HARNESSES.append(Harness(name, f, tier=tier, bounds=f"operators, {case}, formulation {formulation}: every set of materials of a given layout, every wave"))


for k in CASES:
    _ops(f"operators_{k}", k)
for fm in ("tangent", "pol", "jones"):
    for k in CASES:
        if k.startswith("grating") and (fm != "tangent" or k == "grating_oblique"):
            continue
        _ops(f"operators_{k}_{fm}", k, fm, {"blob": "two", "sq": "sq2", "line": "line2"}[CASES[k]((0, 0)).pattern], im=False)
_ops("operators_shift_2", "shift", shift=(2, 1))
_ops("operators_shift_3", "shift", shift=(0, 2))
_ops("operators_grating_shift_3", "grating_shift", shift=(3, 0))


# ---------------------------------------------------------------- response


def _response(name, case, kinds="e", shift=(1, 0), formulation="original", full=True, given=True, tier="quick", film=False, below=289, amps_free=False):
    def f(ctx, nn):
        if ctx.symbolic:
            ctx.zero_eps = True
        c = CASES[case](shift)
        w = 2 * lift_(ctx, PI) / 17
        pol = [(5, 12), tuple(r[0] * 5 + r[1] * 12 for r in c.G)]
        waves = [nn.PlaneWave(wavelength=w, angles=(0, 0, ctx.pyth(*v, 13))) for v in pol]
        pattern = {"blob": "two", "sq": "sq2", "line": "line2"}[c.pattern]
        vals = [lift_(ctx, 3) / 2, lift_(ctx, 4) + lift_(ctx, 1) / 3 * J(ctx)]
        t = ctx.real("t", lo=0, sample=0.05)
        d = ctx.real("d", lo=0, sample=0.04)
        if ctx.symbolic:
            ctx.eig_stub = Covariant(ctx, kinds, full, given)
            ctx.notes.append("eigendecomposition replaced by arbitrary modes; those of the image are the images of these (the matrices are proved to be related)")
            for x in (17, 15, 8, 8 * J(ctx), 17 * J(ctx)):
                ctx.hint_sqrt(x)

        def layers(lat, g):
            g.thickness = t
            ls = [lat.Layer("a", epsilon=1), g]
            if film:
                ls.append(lat.Layer("f", epsilon=lift_(ctx, -64) / 289, thickness=d))
            return ls + [lat.Layer("b", epsilon=lift_(ctx, below) / 289)]

        (s1, s2), _, sym = sims(ctx, nn, c, vals, formulation, waves, layers, pattern, hs=[(0, 0), (0, 1)] if case == "mirror_y" else HL)
        n = sym.n
        A = sym.G
        i0, j0 = s1.index_zeroth_order, s2.index_zeroth_order
        ctx.prove("zeroth order", sym.to[i0] == j0)
        for a in range(2):
            ctx.prove_eq("incident wave", s2.a0[a * n + j0], A[a][0] * s1.a0[i0] + A[a][1] * s1.a0[n + i0])
        if amps_free:
            a1 = amplitudes(ctx, 2 * n)
            a2 = [None] * (2 * n)
            for a, i in itertools.product(range(2), range(n)):
                a2[sym.row(a, i)] = sym.ph[i] * (A[a][0] * a1[i] + A[a][1] * a1[n + i])
            s1.a0, s2.a0 = a1, arr(ctx, a2)
        r1 = s1.diffraction_efficiencies(orders=True)
        if ctx.symbolic:
            ctx.eig_stub.sym = sym
        r2 = s2.diffraction_efficiencies(orders=True)
        for nm, x, y in zip("RT", r1, r2):
            for i in range(n):
                ctx.prove_eq(nm, y[sym.to[i]], x[i])
            ctx.observe(nm, y)
        G = c.G
        for L, z in ((0, 0), ("g", 0), ("g", t), (len(s1.layers) - 1, 0)):
            F1, F2 = s1.get_field_fourier(L, z)[0], s2.get_field_fourier(L, z)[0]
            det = G[0][0] * G[1][1] - G[0][1] * G[1][0]
            for i in range(n):
                k = sym.to[i]
                for a in range(2):
                    ctx.prove_eq(f"electric field of layer {L}", F2[0, a, k], sym.ph[i] * (G[a][0] * F1[0, 0, i] + G[a][1] * F1[0, 1, i]))
                    ctx.prove_eq(f"magnetic field of layer {L}", F2[1, a, k], sym.ph[i] * (A[a][0] * F1[1, 0, i] + A[a][1] * F1[1, 1, i]))
                ctx.prove_eq(f"electric field of layer {L}", F2[0, 2, k], sym.ph[i] * F1[0, 2, i])
                ctx.prove_eq(f"magnetic field of layer {L}", F2[1, 2, k], sym.ph[i] * det * F1[1, 2, i])

    HARNESSES.append(Harness(name, f, tier=tier, validate=False, bounds=f"response and fields, {case}, formulation {formulation}: patterned layer of every thickness with arbitrary modes ({kinds}), {'film of every thickness below, ' if film else ''}{'every amplitude of the orders' if amps_free else 'one wave'}"))


for k in CASES:
    _response(f"response_{k}", k)
for k in ("shift", "exchange", "grating", "other_basis", "supercell"):
    _response(f"response_{k}_tangent", k, formulation="tangent", shift=(3, 2), tier="thorough")
_response("response_shift_2", "shift", shift=(2, 1), tier="thorough")
_response("response_grating_shift_3", "grating_shift", shift=(3, 0), tier="thorough")


def _choice(name, kinds, perm, one_d=False, tier="quick"):
    def f(ctx, nn):
        """another order and normalization of the modes"""
        from .common import modes

        if ctx.symbolic:
            ctx.zero_eps = True
            for x in (17, 15, 8, 9):
                ctx.hint_sqrt(x)
        modes(ctx, kinds, given=True)
        hs = HL
        t, d = ctx.real("t", lo=0, sample=0.05), ctx.real("d", lo=0, sample=0.04)
        sc = [ctx.real(f"c{i}", sample=0.4 + 0.7 * i) + J(ctx) * (i % 2) for i in range(2 * len(hs))]
        for i, c in enumerate(sc):
            if i % 2 == 0:
                ctx.assume(c != 0)
        p = lift_(ctx, PI)
        out = []
        for k in range(2):
            hz = nn.backend.array([list(x) for x in zip(*hs)])
            lat = nn.Lattice(LINE(p) if one_d else OBL(p), discretization=4 if one_d else (4, 3), harmonics_array=hz)
            vals = [lift_(ctx, 3) / 2, lift_(ctx, 4) + lift_(ctx, 1) / 3 * J(ctx)]
            g = lat.Layer("g", epsilon=cells(ctx, nn, VALS["line2" if one_d else "two"], vals), thickness=t)
            sim = nn.Simulation([lat.Layer("a", epsilon=1), g, lat.Layer("b", epsilon=1)], nn.PlaneWave(wavelength=2 * p / 17, angles=(0, 0, ctx.pyth(5, 12, 13))), nh=len(hs))
            if k:
                sim.solve()
                q, V = g.eigenvalues, g.eigenvectors
                g.eigenvalues = arr(ctx, [q[i] for i in perm])
                g.eigenvectors = arr(ctx, [[V[r, i] * sc[i] for i in perm] for r in range(2 * len(hs))])
            out.append(sim)
        s1, s2 = out
        for nm, x, y in zip("RT", s1.diffraction_efficiencies(orders=True), s2.diffraction_efficiencies(orders=True)):
            ctx.prove_eq(nm, y, x)
        for nm, x, y in zip("rt", s1.diffraction_efficiencies(orders=True, complex=True), s2.diffraction_efficiencies(orders=True, complex=True)):
            ctx.prove_eq(nm, y, x)
        for L, z in (("g", 0), ("g", t / 2), ("g", t)):
            ctx.prove_eq("field in the patterned layer", s2.get_field_fourier(L, z), s1.get_field_fourier(L, z))
        for a, b in zip(s1.get_z_stress_tensor_integral("g", 0), s2.get_z_stress_tensor_integral("g", 0)):
            ctx.prove_eq("stress in the patterned layer", b, a)
        ctx.observe("R", y)

    HARNESSES.append(Harness(name, f, tier=tier, validate=False, bounds=f"every normalization of the modes of a patterned layer of every thickness, order {perm}"))


_choice("modes_order", "e", (2, 0, 3, 1))
_choice("modes_order_2", "e", (1, 0, 3, 2), True)
