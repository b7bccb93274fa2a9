"""Parallel loops."""
import itertools

from symnn.run import Harness, harness

from .common import arr, lift_

ABOUT = "parloop with a worker pool that runs the calls in an arbitrary order."
ASSUMPTIONS = ["joblib by its documentation: Parallel runs the submitted calls in any order and returns the results in the order of submission (or of completion, when return_as='generator_unordered' is asked for)"]
HARNESSES = []


class Pool:
    """stands for the joblib library while the package is in use"""

    def __init__(self, ctx, nn, key="order"):
        self.ctx, self.key = ctx, key
        self.asked = []
        self.order = None
        import joblib

        self.mods = [m for m in (nn.parallel, joblib, joblib.parallel, nn.sample) if m is not None]
        self.real = joblib.Parallel

    def __enter__(self):
        pool = self

        class Parallel:
            def __init__(self, n_jobs=None, backend=None, return_as="list", verbose=0, timeout=None, pre_dispatch="2 * n_jobs", batch_size="auto", prefer=None, require=None, **kw):
                pool.asked.append((n_jobs, prefer))
                self.n_jobs, self.return_as = n_jobs, return_as

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __call__(self, calls):
                calls = list(calls)
                out = [None] * len(calls)
                perm = pool.permutation(len(calls))
                for k in perm:
                    f, a, kw = calls[k]
                    out[k] = f(*a, **kw)
                if self.return_as == "generator_unordered":
                    return iter([out[k] for k in perm])
                return out if self.return_as == "list" else iter(out)

        self.saved = []
        for m in self.mods:
            for k, v in list(vars(m).items()):
                if v is self.real:
                    self.saved.append((m, k, v))
                    setattr(m, k, Parallel)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        return False

    def permutation(self, n):
        perms = list(itertools.permutations(range(n)))
        if self.order is None or len(self.order) != n:
            self.order = self.ctx.choice(f"{self.key}{n}", perms) if n < 5 else tuple(range(n))[::-1]
        return self.order


def _loop(name, n, kind="list", extra=(), kw=None, jobs=1, prefer=None, tier="quick"):
    def f(ctx, nn):
        xs = [ctx.real(f"x{i}") for i in range(n)]
        more = [ctx.real(f"p{i}") for i in range(len(extra))]
        named = {k: ctx.real(k) for k in (kw or {})}
        calls = []

        def work(x, *args, **kwargs):
            """Documentation of the work."""
            calls.append((x, args, kwargs))
            s = x * x + 1
            for k, a in enumerate(args):
                s = s + (k + 2) * a * x
            for k in sorted(kwargs):
                s = s + kwargs[k] * x * x
            return s

        with Pool(ctx, nn) as pool:
            a, b = ctx.choice("jobs", [(jobs, prefer), (4, "threads")])
            deco = nn.parloop(n_jobs=a, prefer=b) if (a, b) != (1, None) else nn.parloop()
            loop = deco(work)
            X = {"list": lambda: list(xs), "tuple": lambda: tuple(xs), "array": lambda: arr(ctx, xs), "generator": lambda: (x for x in xs)}[kind]()
            out = loop(X, *more, **named)
            asked = list(pool.asked)
        ctx.prove("one pool", len(asked) == 1)
        ctx.prove("the number of workers asked for", asked[0] == (a, b))
        ctx.prove("a list", isinstance(out, list))
        ctx.prove("as many results as inputs", len(out) == n)
        ctx.prove("one call per input", len(calls) == n)
        for i in range(n):
            x = xs[i]
            want = x * x + 1
            for k, p in enumerate(more):
                want = want + (k + 2) * p * x
            for k in sorted(named):
                want = want + named[k] * x * x
            ctx.prove_eq("result in the order of the inputs", out[i], want)
        for i, k in enumerate(pool.order or ()):
            x, args, kwargs = calls[i]
            ctx.prove_eq("the input", x, xs[k])
            ctx.prove("positional arguments", len(args) == len(more))
            for p, q in zip(args, more):
                ctx.prove_eq("positional argument", p, q)
            ctx.prove("keyword arguments", set(kwargs) == set(named))
            for k2 in named:
                ctx.prove_eq("keyword argument", kwargs[k2], named[k2])
        ctx.prove("the name is kept", loop.__name__ == "work")
        ctx.prove("the documentation is kept", loop.__doc__ == "Documentation of the work.")
        if n:
            ctx.observe("out", arr(ctx, out))

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=2000, bounds=f"{n} arbitrary inputs in a {kind}, {len(extra)} positional and {len(kw or {})} keyword arguments, every order of execution"))


_loop("empty", 0)
_loop("one", 1, extra=(1,))
_loop("two", 2, "tuple", kw={"a": 1})
_loop("three", 3, "list", extra=(1, 1), kw={"a": 1, "b": 1}, jobs=3)
_loop("three_array", 3, "array", extra=(1,), prefer="processes", jobs=2)
_loop("three_generator", 3, "generator", extra=(1,), kw={"w": 1}, jobs=-1)
_loop("four", 4, "list", extra=(1,), jobs=2)
_loop("four_array", 4, "array", kw={"a": 1}, jobs=8)
_loop("six", 6, "list", extra=(1, 1, 1), jobs=2)


@harness(HARNESSES, bounds="three calls of one loop, a failing call, structured results: every input and order")
def repeated(ctx, nn):
    xs = [ctx.real(f"x{i}") for i in range(2)]
    p = ctx.real("p")

    def work(x, y=None, *rest):
        if y is None:
            return x, [x + p]
        return {"s": x + y, "r": rest}

    with Pool(ctx, nn) as pool:
        loop = nn.parloop(n_jobs=2)(work)
        a = loop(xs)
        b = loop(xs, p)
        c = loop(xs[::-1], p, xs, None)
        d = loop(xs)
    for i in range(2):
        for r in (a, d):
            ctx.prove("structure", isinstance(r[i], tuple) and len(r[i]) == 2)
            ctx.prove_eq("result", r[i][0], xs[i])
            ctx.prove_eq("result", r[i][1][0], xs[i] + p)
        ctx.prove_eq("result", b[i]["s"], xs[i] + p)
        ctx.prove("no further arguments", b[i]["r"] == ())
        ctx.prove_eq("result", c[i]["s"], xs[1 - i] + p)
        ctx.prove("the further arguments are the objects given", c[i]["r"][0] is xs and c[i]["r"][1] is None)


@harness(HARNESSES, bounds="every failing input among three, every order: the error is not swallowed")
def errors(ctx, nn):
    xs = [ctx.real(f"x{i}") for i in range(3)]
    bad = ctx.choice("bad", [0, 1, 2])

    def work(x):
        if x is xs[bad]:
            raise KeyError("work")
        return x

    got = None
    with Pool(ctx, nn):
        try:
            got = nn.parloop(n_jobs=2)(work)(xs)
        except KeyError:
            pass
    ctx.prove("the error reaches the caller", got is None)
