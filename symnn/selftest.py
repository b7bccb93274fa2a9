"""Setup: nothing is built; check that the pieces are there and agree."""
import sys


def main():
    from .load import ensure_z3, load_symbolic

    ensure_z3()
    import z3

    from . import core

    ctx = core.SymCtx(core.Stats())
    core.set_ctx(ctx)
    x, y = ctx.real("x"), ctx.real("y")
    ctx.prove_eq("binomial", (x + y) ** 2 - (x - y) ** 2, 4 * x * y)
    try:
        ctx.prove("false", x < y)
    except core.Violation:
        pass
    else:
        raise SystemExit("self-test failed")
    nn = load_symbolic()
    print("z3", z3.get_version_string(), "nannos", nn.__version__)
    return 0


if __name__ == "__main__":
    sys.exit(main())
