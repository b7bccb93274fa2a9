"""Topology optimizer."""
from symnn.run import Harness, harness

from .common import arr, lift_

ABOUT = "TopologyOptimizer.minimize and StopFun: the numerical minimizer evaluates arbitrary points of the box and returns one of them with its value; the objective takes arbitrary values."
ASSUMPTIONS = ["scipy.optimize.minimize by its contract: it evaluates the function at x0, then at points within the bounds, and returns one of the evaluated points with its value", "the optional nlopt library is not installed: that branch is not covered"]
HARNESSES = []

NVAR = 2


class World:
    """objective, minimizer and callback that record what happens"""

    def __init__(self, ctx, nn, nev, stop=None):
        import scipy.optimize as so

        self.ctx, self.nn, self.nev, self.stop = ctx, nn, nev, stop
        self.evals, self.seen, self.levels = [], [], []
        self.grads = []
        self.mod, self.so, self.real = nn.optimize, so, so.minimize
        self.saved = {}

    def __enter__(self):
        for k in ("minimize", "grad"):
            if hasattr(self.mod, k):
                self.saved[k] = getattr(self.mod, k)
        if self.saved.get("minimize") is self.real or "minimize" in self.saved:
            self.mod.minimize = self.minimize
        self.so.minimize = self.minimize
        self.mod.grad = self.grad
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.mod, k, v)
        self.so.minimize = self.real
        return False

    # what the user gives
    def objective(self, x, *args):
        k = len(self.evals)
        y = self.ctx.real(f"f{k}", sample=3.0 - 0.7 * k)
        self.evals.append((x, y, args))
        return y

    def callback(self, x, y, *args):
        self.seen.append((x, y, args))

    def grad(self, f):
        assert f == self.objective

        def df(x, *args):
            self.grads.append((x, args))
            return x

        return df

    # what scipy does
    def minimize(self, fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
        from scipy.optimize import OptimizeResult

        ctx, lv = self.ctx, len(self.levels)
        L = dict(x0=x0, args=args, bounds=bounds, options=dict(options or {}), first=len(self.evals), method=method)
        self.levels.append(L)
        n = ctx.choice(f"evaluations{lv}", list(range(1, self.nev + 1)))
        pts = []
        for k in range(n):
            x = x0 if k == 0 else arr(ctx, [ctx.real(f"x{lv}_{k}_{i}", lo=0, hi=1, strict=False) for i in range(NVAR)])
            y = fun(x, *args)
            pts.append((x, y))
            if jac is not None:
                g = jac(x, *args)
                ctx.prove_eq("the gradient is taken at the point evaluated", g, x)
        best = ctx.choice(f"best{lv}", list(range(n)))
        L["result"] = pts[best]
        return OptimizeResult(x=pts[best][0], fun=pts[best][1], success=True, status=0, message="", nit=n, nfev=n, njev=n, jac=None)


def same_point(ctx, name, a, b):
    ctx.prove(name, len(a) == len(b))
    for i in range(len(a)):
        ctx.prove_eq(name, a[i], b[i])


def same_args(ctx, name, a, b):
    ctx.prove(name, len(a) == len(b))
    for x, y in zip(a, b):
        if isinstance(y, str) or y is None:
            ctx.prove(name, x == y)
        else:
            ctx.prove_eq(name, x, y)


def _run(name, threshold, nev, stop, callback=True, options=None, tier="quick", rest=True, verbose=False):
    def f(ctx, nn):
        sv = ctx.real("stop", sample=1.9) if stop else None
        extra = (ctx.real("weight", lo=0), "tag") if rest else ()
        with World(ctx, nn, nev, sv) as w:
            x0 = arr(ctx, [ctx.real(f"x{i}", lo=0, hi=1, strict=False) for i in range(NVAR)])
            given = [lift_(ctx, -5)] + list(extra)
            opt = nn.optimize.TopologyOptimizer(w.objective, x0, threshold=threshold, maxiter=7, stopval=sv, args=given, callback=w.callback if callback else None, options=options, verbose=verbose)
            xopt, fopt = opt.minimize()
        levels = list(range(*threshold))
        ctx.prove("one minimization per level", len(w.levels) == len(levels))
        # every evaluation is reported, once, in order
        ctx.prove("number of iterations", opt.current_iteration == len(w.evals))
        if callback:
            ctx.prove("every evaluation is reported once", len(w.seen) == len(w.evals))
            for a, b in zip(w.seen, w.evals):
                same_point(ctx, "the callback gets the point evaluated", a[0], b[0])
                ctx.prove_eq("the callback gets the value", a[1], b[1])
                same_args(ctx, "the callback gets the arguments", a[2], b[2])
        before = x0
        for k, (i, L) in enumerate(zip(levels, w.levels)):
            end = w.levels[k + 1]["first"] if k + 1 < len(levels) else len(w.evals)
            ev = w.evals[L["first"] : end]
            same_point(ctx, "the level starts from the previous result", L["x0"], before)
            same_point(ctx, "the level starts from the previous result", ev[0][0], before)
            ctx.prove("bounds", [tuple(b) for b in L["bounds"]] == [(0, 1)] * NVAR)
            for key, v in dict({"maxiter": 7}, **(options or {})).items():
                ctx.prove(f"option {key}", L["options"].get(key) == v)
            for x, y, args in ev:
                same_args(ctx, "projection level and the remaining arguments", args, (2**i,) + extra)
            hit = "result" not in L
            if hit:
                ctx.prove("stopped only with a stop value", sv is not None)
                ctx.prove("the last evaluation reached the stop value", ev[-1][1] < sv)
                rest_, res = ev[:-1], ev[-1][:2]
            else:
                rest_, res = ev, L["result"]
            if sv is not None:
                for x, y, args in rest_:
                    ctx.prove("no evaluation after the stop value was reached", y >= sv)
            before = res[0]
        same_point(ctx, "the returned point", xopt, res[0])
        ctx.prove_eq("the returned value", fopt, res[1])
        # the value is the objective at the returned point, at the last level
        last = [(x, y) for x, y, a in w.evals[w.levels[-1]["first"] :] if x is res[0] or not ctx.symbolic or all((x[i] - res[0][i]).is_zero() for i in range(NVAR))]
        ctx.prove("the returned point was evaluated at the last level", bool(last))
        same_args(ctx, "the user's arguments are left alone", tuple(given), (-5,) + extra)
        for i in range(NVAR):
            ctx.prove("within the bounds", (xopt[i] >= 0) & (xopt[i] <= 1))
        ctx.observe("f", fopt)

    HARNESSES.append(Harness(name, f, backend="autograd", tier=tier, max_paths=4000, bounds=f"levels {threshold}, up to {nev} evaluations each, every point and value" + (", every stop value" if stop else "")))


_run("free", (0, 2), 3, False)
_run("free_one", (3, 4), 3, False)
_run("free_nocallback", (0, 2), 2, False, callback=False)
_run("free_options", (1, 3), 2, False, options={"maxiter": 3, "ftol": 1e-4})
_run("free_options_add", (1, 3), 2, False, options={"ftol": 1e-4}, verbose=True)
_run("free_three", (0, 3), 2, False)
_run("stop", (0, 2), 2, True)
_run("stop_one", (2, 3), 3, True)
_run("stop_three", (0, 3), 1, True)
_run("stop_nocallback", (0, 2), 2, True, callback=False, rest=False)
_run("stop_deep", (0, 2), 3, True, tier="thorough")
_run("free_deep", (0, 3), 3, False, tier="thorough")


@harness(HARNESSES, bounds="every value and stop value: the wrapped objective", backend="autograd")
def stop_function(ctx, nn):
    opt = nn.optimize
    sv, calls = ctx.real("stop", sample=0.5), []
    ys = [ctx.real(f"y{i}", sample=2.0 - 0.4 * i) for i in range(3)]

    def fun(x, *args):
        calls.append((x, args))
        return ys[len(calls) - 1]

    s = opt.StopFun(fun, sv)
    for i in range(3):
        x = arr(ctx, [ctx.real(f"x{i}")])
        try:
            r = s.fun(x, 4, "b")
        except opt.StopFunError:
            ctx.prove("raises only below the stop value", ys[i] < sv)
            ctx.prove_eq("value", s.f, ys[i])
            ctx.prove_eq("point", s.x[0], x[0])
            return
        ctx.prove("goes on only above the stop value", ys[i] >= sv)
        ctx.prove_eq("value", r, ys[i])
        ctx.prove("one evaluation per call", len(calls) == i + 1)
        ctx.prove_eq("the point is passed", calls[i][0][0], x[0])
        ctx.prove("the arguments are passed", calls[i][1] == (4, "b"))
