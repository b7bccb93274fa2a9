"""Concrete execution context: the harness runs on the real code with floats.

Used to replay solver counterexamples and to validate the encoding."""
import json
import math
import sys
import traceback

import numpy as np


class Skip(BaseException):
    """the inputs do not satisfy an assumption of the harness"""


def _np(x):
    """anything (torch/jax tensors, lists of scalars, numbers) -> ndarray"""
    if hasattr(x, "detach"):
        x = x.detach().resolve_conj().cpu().numpy()
    if isinstance(x, (list, tuple)):
        return np.array([_np(y) for y in x])
    return np.asarray(x)


EXP = np.exp


class ConcreteCtx:
    symbolic = False
    merge_where = False
    eig_stub = None

    def __init__(self, inputs, tier="quick", rtol=1e-6):
        self.inputs = inputs
        self.tier = tier
        self.rtol = rtol
        self.failures = []
        self.checked = 0
        self.observed = {}
        self.used = {}
        self.nan = False

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=True, sample=None):
        d = sample if sample is not None else (0.0 if lo is None else lo) * 0.5 + (1.0 if hi is None else hi) * 0.5
        v = float(self._get(name, d))
        if (lo is not None and (v <= lo if strict else v < lo)) or (hi is not None and (v >= hi if strict else v > hi)):
            raise Skip(name)
        return v

    def cplx(self, name, sample=None, re_lo=None, im_lo=None, strict=False):
        sr = None if sample is None else complex(sample).real
        si = None if sample is None else complex(sample).imag
        return self.real(name + ".re", lo=re_lo, sample=sr, strict=strict) + 1j * self.real(name + ".im", lo=im_lo, sample=si, strict=strict)

    def integer(self, name, lo, hi, sample=None):
        v = int(self._get(name, lo if sample is None else sample))
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def boolean(self, name, sample=False):
        return bool(self._get(name, sample))

    def choice(self, name, options):
        k = int(self._get(name, 0))
        if not 0 <= k < len(options):
            raise Skip(name)
        return options[k]

    def angle(self, name, lo=None, hi=None, sample=None):
        return float(self._get(name, 10.0 if sample is None else sample))

    def pyth(self, p=3, q=4, r=5):
        return math.degrees(math.atan2(q, p))

    def cs(self, a):
        return math.cos(math.radians(a)), math.sin(math.radians(a))

    def assume(self, cond, note=None):
        if not bool(cond):
            raise Skip(note or "assumption")

    def hint_sqrt(self, *a):
        pass

    def implied(self, c, timeout=None):
        return bool(c)

    def log_exp(self):
        log = []

        def exp(x, *a, **k):
            log.extend(np.ravel(_np(x)))
            return EXP(x, *a, **k)

        np.exp = exp
        return log

    def same(self, a, b):
        return bool(np.isclose(a, b))

    def prove(self, name, cond, **k):
        self.checked += 1
        c = _np(cond)
        if not bool(np.all(c)):
            self.failures.append({"obligation": name, "got": str(cond)})

    def prove_eq(self, name, a, b, tol=None, **k):
        self.checked += 1
        A, B = _np(a), _np(b)
        if A.shape != B.shape and A.shape != () and B.shape != ():
            self.failures.append({"obligation": name, "got": f"shape {A.shape}", "want": f"shape {B.shape}"})
            return
        if A.dtype == object or B.dtype == object or A.dtype.kind in "US" or B.dtype.kind in "US":
            if not np.all(A == B):
                self.failures.append({"obligation": name, "got": str(a), "want": str(b)})
            return
        A, B = A + 0j, B + 0j
        sc = max(np.max(np.abs(A), initial=0.0), np.max(np.abs(B), initial=0.0))
        d = np.max(np.abs(A - B), initial=0.0)
        if not math.isfinite(sc):
            self.nan = True
            self.failures.append({"obligation": name, "nonfinite": True, "got": str(a), "want": str(b)})
            return
        if d > (tol or self.rtol) * max(sc, 1e-300) and d > 1e-9 * max(1.0, sc):
            self.failures.append({"obligation": name, "got": str(a)[:400], "want": str(b)[:400], "diff": float(d)})

    def fail(self, name, detail=""):
        self.checked += 1
        self.failures.append({"obligation": name, "got": detail})

    def observe(self, name, x):
        self.observed[name] = x


def run_concrete(harness, nn, inputs, tier="quick"):
    """-> dict(status ok|fail|skip|exception, failures, ...)"""
    ctx = ConcreteCtx(inputs, tier, rtol=harness.rtol)
    out = {"status": "ok"}
    try:
        harness.fn(ctx, nn)
    except Skip as e:
        out["status"] = "skip"
        out["why"] = str(e)
    except Exception as e:
        out["status"] = "exception"
        out["exception"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-1500:]
    np.exp = EXP
    if ctx.failures:
        out["status"] = "fail"
    out["failures"] = ctx.failures[:5]
    out["checked"] = ctx.checked
    obs = {}
    for k, x in ctx.observed.items():
        x = _np(x) + 0j
        obs[k] = [[float(y.real), float(y.imag)] for y in x.ravel()]
    out["observed"] = obs
    out["used"] = {k: v for k, v in ctx.used.items()}
    return out


def serve(prop, hname, tier):
    """read JSON inputs on stdin lines, answer JSON lines"""
    from .load import load_real
    from .run import load_prop

    mod = load_prop(prop)
    h = next(h for h in mod.HARNESSES if h.name == hname)
    real_out = sys.stdout
    sys.stdout = sys.stderr
    nn = load_real(h.backend)
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        r = run_concrete(h, nn, json.loads(line), tier)
        real_out.write("\n@@" + json.dumps(r) + "\n")
        real_out.flush()


if __name__ == "__main__":
    serve(*sys.argv[1:4])
