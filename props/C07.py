"""Fresnel and Airy formulas."""
from symnn.run import Harness, harness

from .C06 import PSI, setup
from .common import PI, J, arr, expi, sqr

ABOUT = "Complex amplitudes and fields of uniform stacks against closed forms written here."
HARNESSES = []


def frame(ctx, d, ph, psi):
    """closed-form reflected / transmitted electric fields (incident one: unit
    amplitude), from the interface coefficients r_s, t_s (E) and r_p, t_p (H)"""
    cp, sp = ctx.cs(ph)
    cq, sq = ctx.cs(psi)
    n, w, c, s = d["n"], d["w"], d["c"], d["s"]
    q1, kt = n * w * c, n * w * s

    def refl(rs, rp):
        a = -cq * rp * c
        return [a * cp - sq * rs * sp, a * sp + sq * rs * cp, -cq * rp * s]

    def trans(ts, tp, q2, e2):
        a = cq * n * tp * q2 / (w * e2)
        return [a * cp - sq * ts * sp, a * sp + sq * ts * cp, -cq * n * tp * kt / (w * e2)]

    return q1, refl, trans


def coeffs(q1, e1, q2, e2):
    return (q1 - q2) / (q1 + q2), 2 * q1 / (q1 + q2), (e2 * q1 - e1 * q2) / (e2 * q1 + e1 * q2), 2 * e2 * q1 / (e2 * q1 + e1 * q2)


def eps_of(q, d):
    return (q * q + d["kt2"]) / d["w"] ** 2


def compare(ctx, nn, sim, d, r, t, q1, q2, real_q2):
    n = d["n"]
    R, T = sim.diffraction_efficiencies(orders=True, complex=True)
    ctx.observe("r", R)
    f = sim.get_field_fourier(len(sim.layers) - 1)[0]
    A = d["pw"].amplitude
    f0 = sim.get_field_fourier(0)[0]
    for i in range(3):
        ctx.prove_eq(f"r {'xyz'[i]}", R[i, 0], r[i])
        ctx.prove_eq(f"E in {'xyz'[i]}", f0[0, i, 0] * n, A[i] + r[i])
        ctx.prove_eq(f"E out {'xyz'[i]}", f[0, i, 0] * n, t[i])
        if real_q2 is True:
            ctx.prove_eq(f"t {'xyz'[i]}", T[i, 0], t[i] * sqr(ctx, q2 / q1))
        elif real_q2 is False:
            ctx.prove_eq(f"t {'xyz'[i]}", T[i, 0], 0)


def _interface(name, kind, th="all", bounds=""):
    def f(ctx, nn):
        if kind == "real":
            q = ctx.real("q", lo=0)
        elif kind == "ev":
            q = J(ctx) * ctx.real("kappa", lo=0)
        else:
            q = ctx.real("a", lo=0) + J(ctx) * ctx.real("b", lo=0)
        ph, psi = ctx.angle("phi"), ctx.angle("psi")
        sim, d = setup(ctx, nn, q, [], phi=ph, psi=psi)
        q1, refl, trans = frame(ctx, d, ph, psi)
        if ctx.symbolic and kind == "real":
            x = ctx.real("ratio", lo=0, sample=float((q / q1).v) ** 0.5)
            ctx.assume(x * x * q1 == q, "ratio: square root of q / q1 (auxiliary)")
            ctx.inputs.pop("ratio")
        e2 = eps_of(q, d)
        rs, ts, rp, tp = coeffs(q1, d["n"] ** 2, q, e2)
        compare(ctx, nn, sim, d, refl(rs, rp), trans(ts, tp, q, e2), q1, q, {"real": True, "ev": False}.get(kind))

    HARNESSES.append(Harness(name, f, bounds=bounds))


_interface("interface", "real", bounds="every wave (all angles, polarization), index, and real normal wavenumber of the substrate")
_interface("evanescent_substrate", "ev", bounds="every wave; every imaginary normal wavenumber of the substrate (total reflection, metals)")
_interface("absorbing_substrate", "abs", bounds="every wave; every complex normal wavenumber of the substrate in the first quadrant")


def _film(name, kind, psi, num=False, tier="quick", ph=0):
    def f(ctx, nn):
        q2 = ctx.real("q2", lo=0)
        t = ctx.real("t", lo=0)
        if kind == "real":
            q = ctx.real("q", lo=0)
        elif kind == "ev":
            q = J(ctx) * ctx.real("kappa", lo=0)
        else:
            q = ctx.real("a", lo=0) + J(ctx) * ctx.real("b", lo=0)
        phi = ctx.pyth() if ph == "345" else ph
        ps = ctx.pyth(5, 12, 13) if psi == "mix" else PSI[psi]
        sim, d = setup(ctx, nn, q2, [(q, t)], phi=phi, psi=ps, num=num, th=ctx.pyth(15, 8, 17) if num else None)
        q1, refl, trans = frame(ctx, d, phi, ps)
        e1, e, e2 = d["n"] ** 2, eps_of(q, d), eps_of(q2, d)
        P = expi(ctx, q * t)
        a, b = coeffs(q1, e1, q, e), coeffs(q, e, q2, e2)
        out = []
        for k in (0, 2):
            D = 1 + a[k] * b[k] * P * P
            out += [(a[k] + b[k] * P * P) / D, a[k + 1] * b[k + 1] * P / D]
        rs, ts, rp, tp = out
        compare(ctx, nn, sim, d, refl(rs, rp), trans(ts, tp, q2, e2), q1, q2, None)

    HARNESSES.append(Harness(name, f, bounds=f"one {kind} film of every normal wavenumber and thickness, every substrate, " + ("one oblique wave" if num else f"every index, wavelength and polar angle, azimuth {ph}, polarization {psi}"), tier=tier))


for k in ("real", "ev"):
    _film(f"film_{k}_p", k, "p")
    _film(f"film_{k}_s", k, "s")
    _film(f"film_{k}_oblique", k, "mix", num=True, ph="345")
_film("film_abs_p", "abs", "p", num=True)
_film("film_abs_s", "abs", "s", num=True)
