"""Slicing, empty layers, copies."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .common import PI, J, arr, grid, modes

ABOUT = "Pairs of stacks that describe the same structure: same efficiencies, amplitudes and fields."
HARNESSES = []


def same(ctx, s1, s2, what, fields=()):
    for nm, x, y in zip("RT", s1.diffraction_efficiencies(orders=True), s2.diffraction_efficiencies(orders=True)):
        ctx.prove_eq(f"{what}: {nm}", y, x)
    for nm, x, y in zip("rt", s1.diffraction_efficiencies(orders=True, complex=True), s2.diffraction_efficiencies(orders=True, complex=True)):
        ctx.prove_eq(f"{what}: complex {nm}", y, x)
    for (i, z), (j, z2) in fields:
        ctx.prove_eq(f"{what}: field", s2.get_field_fourier(j, z2), s1.get_field_fourier(i, z))


def wavenum(ctx, nn):
    """a given oblique wave, n = 1.5"""
    w, n = 2, 1.5
    th = ctx.pyth(15, 8, 17)
    pw = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, 0, 0))
    pws = nn.PlaneWave(wavelength=2 * PI / w, angles=(th, ctx.pyth(), ctx.pyth(5, 12, 13)))
    c, s = ctx.cs(th)
    return dict(w=w, n=n, c=c, s=s, kt2=(n * w * s) ** 2, pw=pw, pws=pws, th=th)


def eps(d, q):
    return (q * q + d["kt2"]) / d["w"] ** 2


def kindq(ctx, name, kind):
    x = ctx.real(name, lo=0)
    q = x if kind == "p" else J(ctx) * x
    if ctx.symbolic:
        ctx.hint_sqrt(q)
    return q


def _split(name, kind, mix, tier="quick"):
    def f(ctx, nn):
        d = wavenum(ctx, nn)
        q, q2 = kindq(ctx, "q", kind), kindq(ctx, "q2", "p")
        cut = ctx.choice("cut", ["inside", "top", "bottom"])
        t1 = 0 if cut == "top" else ctx.real("t1", lo=0, sample=0.4)
        t2 = 0 if cut == "bottom" else ctx.real("t2", lo=0, sample=0.3)
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
        L = lat.Layer
        sup, sub = L("sup", epsilon=d["n"] ** 2), L("sub", epsilon=eps(d, q2))
        pw = d["pws"] if mix else d["pw"]
        one = nn.Simulation([sup, L("f", thickness=t1 + t2, epsilon=eps(d, q)), sub], pw, nh=1)
        two = nn.Simulation([L("sup", epsilon=d["n"] ** 2), L("f1", thickness=t1, epsilon=eps(d, q)), L("f2", thickness=t2, epsilon=eps(d, q)), L("sub", epsilon=eps(d, q2))], pw, nh=1)
        ctx.observe("R", one.diffraction_efficiencies()[0])
        same(ctx, one, two, "split", [((1, 0), (1, 0)), ((1, t1), (1, t1)), ((1, t1), (2, 0)), ((1, t1 + t2), (2, t2))])

    HARNESSES.append(Harness(name, f, bounds=f"a film ({kind}) of every normal wavenumber cut at every depth t1 + t2, every substrate; one oblique wave, {'mixed' if mix else 'p'} polarization", tier=tier))


_split("split_p", "p", False)
_split("split_e", "e", False)
_split("split_mix", "p", True, tier="thorough")


@harness(HARNESSES, bounds="an empty layer of every medium at every place of a stack with one film; every thickness and medium of the film")
def empty_layer(ctx, nn):
    d = wavenum(ctx, nn)
    q, q2, q3 = kindq(ctx, "q", "p"), kindq(ctx, "q2", "p"), kindq(ctx, "q3", ctx.choice("kind", ["p", "e"]))
    t = ctx.real("t", lo=0)
    k = ctx.choice("place", [1, 2])
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer

    def base():
        return [L("sup", epsilon=d["n"] ** 2), L("f", thickness=t, epsilon=eps(d, q)), L("sub", epsilon=eps(d, q2))]

    one = nn.Simulation(base(), d["pw"], nh=1)
    z = ctx.choice("zero", [0, None])
    ls = base()
    ls.insert(k, L("empty", thickness=z, epsilon=eps(d, q3)))
    two = nn.Simulation(ls, d["pw"], nh=1)
    i = 2 if k == 1 else 1
    same(ctx, one, two, f"empty at {k}", [((1, 0), (i, 0)), ((0, 0), (0, 0)), ((2, 0), (3, 0))])


@harness(HARNESSES, bounds="a film of the medium of the substrate, every thickness and medium")
def same_medium(ctx, nn):
    d = wavenum(ctx, nn)
    q2 = kindq(ctx, "q2", "p")
    t = ctx.real("t", lo=0)
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=9)
    L = lat.Layer
    one = nn.Simulation([L("sup", epsilon=d["n"] ** 2), L("sub", epsilon=eps(d, q2))], d["pws"], nh=1)
    two = nn.Simulation([L("sup", epsilon=d["n"] ** 2), L("f", thickness=t, epsilon=eps(d, q2)), L("sub", epsilon=eps(d, q2))], d["pws"], nh=1)
    for nm, x, y in zip("RT", one.diffraction_efficiencies(), two.diffraction_efficiencies()):
        ctx.prove_eq(nm, y, x)
    r1, t1 = one.diffraction_efficiencies(complex=True)
    r2, t2 = two.diffraction_efficiencies(complex=True)
    ctx.prove_eq("r", r2, r1)
    for i in range(3):
        ctx.prove_eq("|t|", t1[i] * t1[i].conjugate(), t2[i] * t2[i].conjugate())


# ------------------------------------------------------------ patterned layers


def pattern(ctx, nn):
    from fractions import Fraction as F

    v = [[2 + ((3 * i + 5 * j) % 7) / (2 if not ctx.symbolic else F(2)) for j in range(3)] for i in range(4)]
    return arr(ctx, v) if ctx.symbolic else nn.backend.array(v)


def pat_setup(ctx, nn, one_d=False):
    lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
    return lat, wavenum(ctx, nn)


def _pat(name, kinds, full=True, given=True, tier="quick"):
    def f(ctx, nn):
        lat, d = pat_setup(ctx, nn)
        modes(ctx, kinds, full=full, given=given)
        e = pattern(ctx, nn)
        cut = ctx.choice("cut", ["inside", "top", "bottom"])
        t1 = 0 if cut == "top" else ctx.real("t1", lo=0, sample=0.4)
        t2 = 0 if cut == "bottom" else ctx.real("t2", lo=0, sample=0.3)
        L = lat.Layer

        def ends():
            return L("sup", epsilon=d["n"] ** 2), L("sub", epsilon=eps(d, 5))

        a, b = ends()
        one = nn.Simulation([a, L("g", thickness=t1 + t2, epsilon=e), b], d["pw"], nh=1)
        a, b = ends()
        two = nn.Simulation([a, L("g1", thickness=t1, epsilon=e), L("g2", thickness=t2, epsilon=e), b], d["pw"], nh=1)
        same(ctx, one, two, "split", [((1, t1), (1, t1)), ((1, t1), (2, 0))])

    HARNESSES.append(Harness(name, f, bounds=f"patterned layer with arbitrary 2x2 modes ({kinds}) cut at every depth; one oblique wave", tier=tier, validate=False))


_pat("split_patterned_e", "e")
_pat("split_patterned_pe", "pe")
_pat("split_patterned_any_p", "p", full=False, given=False)
_pat("split_patterned_any_e", "e", full=False, given=False)


def _copies(name, uniform):
    def f(ctx, nn):
        lat = nn.Lattice(((1, 0), (0, 1)), discretization=(4, 3), harmonics_array=nn.backend.array([[0], [0]]))
        d = wavenum(ctx, nn)
        modes(ctx, "e", full=False, given=True)
        e, e2 = (pattern(ctx, nn), eps(d, 3 * J(ctx))) if not uniform else (eps(d, 4 * J(ctx)), eps(d, 3 * J(ctx)))
        t = ctx.real("t", lo=0)
        u = ctx.real("u", lo=0)
        L = lat.Layer
        k = ctx.choice("order", ["after", "before", "alone", "twice", "copy of copy", "separated", "thickness", "solved before"])

        def ends():
            return L("sup", epsilon=d["n"] ** 2), L("sub", epsilon=eps(d, 5))

        def own(n, th):
            return L(f"own{n}", thickness=th, epsilon=e)

        A = L("A", thickness=t, epsilon=e)
        C = A.copy("C")
        ctx.prove("copy", C.name == "C" and C.iscopy and not A.iscopy and C is not A)
        ctx.prove("default name", A.copy().name == "A (copy)" and A.name == "A")
        ctx.prove_eq("copy thickness", C.thickness, A.thickness)
        m = L("m", thickness=u, epsilon=e2)
        if k == "after":
            ls, ref = [A, m, C], [own(0, t), m, own(1, t)]
        elif k == "before":
            ls, ref = [C, m, A], [own(0, t), m, own(1, t)]
        elif k == "alone":
            ls, ref = [C], [own(0, t)]
        elif k == "twice":
            ls, ref = [A, m, C, m.copy("m2"), A.copy("D")], [own(0, t), m, own(1, t), L("m3", thickness=u, epsilon=e2), own(2, t)]
        elif k == "copy of copy":
            ls, ref = [C, m, C.copy("D")], [own(0, t), m, own(1, t)]
        elif k == "separated":
            ls, ref = [m.copy("m0"), C, m, A], [L("m3", thickness=u, epsilon=e2), own(0, t), m, own(1, t)]
        elif k == "thickness":
            C.thickness = u
            ls, ref = [A, m, C], [own(0, t), m, own(1, u)]
            ctx.prove_eq("original thickness", A.thickness, t)
        else:
            # the original was solved at another wavelength before
            pw2 = nn.PlaneWave(wavelength=2 * PI / 3, angles=(0, 0, 0))
            a, b = ends()
            s0 = nn.Simulation([a, A, b], pw2, nh=1)
            s0.diffraction_efficiencies()
            ls, ref = [C, m, A], [own(0, t), m, own(1, t)]
        a, b = ends()
        # the reference stack is solved first, with layers of its own
        ref = [L("m" + str(i), thickness=x.thickness, epsilon=x.epsilon) if x is m else x for i, x in enumerate(ref)]
        one = nn.Simulation([a] + ref + [b], d["pw"], nh=1)
        x1 = one.diffraction_efficiencies(), one.get_field_fourier(1, 0)
        a, b = ends()
        two = nn.Simulation([a] + ls + [b], d["pw"], nh=1)
        x2 = two.diffraction_efficiencies(), two.get_field_fourier(1, 0)
        ctx.prove_eq(f"{k}: R", x2[0][0], x1[0][0])
        ctx.prove_eq(f"{k}: T", x2[0][1], x1[0][1])
        ctx.prove_eq(f"{k}: field", x2[1], x1[1])
        for i in range(0 if k == "twice" else len(ls)):
            S1, S2 = one.get_S_matrix((i, i + 1)), two.get_S_matrix((i, i + 1))
            for x, y in zip(S1, S2):
                for p, q in zip(x, y):
                    ctx.prove_eq(f"{k}: S", q, p)

    HARNESSES.append(Harness(name, f, bounds="8 arrangements of copies; every thickness; one oblique wave" + ("" if uniform else "; patterned layers with arbitrary diagonal modes"), validate=uniform))


_copies("copies_uniform", True)
_copies("copies_patterned", False)
