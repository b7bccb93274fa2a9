"""Import the nannos sources of /repo's working tree, symbolically or for real."""
import builtins
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get("NANNOS_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def ensure_z3():
    if VT not in sys.path:
        sys.path.append(VT)


def _block(mods):
    for m in mods:
        if m not in sys.modules:
            sys.modules[m] = None


def _purge():
    for k in [k for k in sys.modules if k == "nannos" or k.startswith("nannos.")]:
        del sys.modules[k]


def derivative(what):
    """automatic differentiation is not modelled: derivatives may be made, not called"""
    from .core import Inconclusive

    def make(f, *a, **k):
        def d(*a, **k):
            raise Inconclusive(what)

        d.of, d.what = f, what
        return d

    return make


def load_symbolic(backend="numpy", plot_stub=True):
    """nannos with the symbolic backend in the place of `backend`.

    Only what `import` returns to the modules of the package is changed; their
    source text is executed as it stands in the working tree."""
    from . import shim as sh

    warnings.simplefilter("ignore")
    os.environ.pop("NANNOS_BACKEND", None)
    os.environ.pop("NANNOS_GPU", None)
    os.environ.setdefault("MPLBACKEND", "agg")
    sh.IMMUTABLE = False
    np_shim = sh.Shim("numpy")
    fakes = {"numpy": np_shim}
    ag = types.ModuleType("autograd")
    ag.numpy = sh.Shim("autograd.numpy")
    ag.grad = derivative("grad")
    ag.hessian_vector_product = derivative("hessian_vector_product")
    ag.elementwise_grad = ag.value_and_grad = ag.jacobian = ag.grad
    fakes["autograd"] = ag
    fakes["autograd.numpy"] = ag.numpy
    if backend == "torch":
        fakes.update(fake_torch())
    if backend == "jax":
        fakes.update(fake_jax())
    sp = types.ModuleType("scipy.fftpack")
    sp.fft2, sp.ifft2, sp.fft, sp.ifft = sh.fft.fft2, sh.fft.ifft2, sh.fft.fft, sh.fft.ifft
    sp.fftn, sp.ifftn = sh.fft.fftn, sh.fft.ifftn
    fakes["scipy.fftpack"] = sp
    for k in ("torch", "jax"):
        if k not in fakes:
            fakes[k] = None
    if plot_stub:
        fakes.update(plot_fakes())
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        g = globals or {}
        if level == 0 and str(g.get("__name__", "")).split(".")[0] == "nannos":
            if name in fakes or name.split(".")[0] in fakes:
                m = fakes.get(name, fakes.get(name.split(".")[0]))
                if m is None:
                    raise ModuleNotFoundError(f"No module named {name!r}", name=name)
                if fromlist or "." not in name:
                    return fakes.get(name, m) if fromlist else fakes[name.split(".")[0]]
                return fakes[name.split(".")[0]] if name.split(".")[0] in fakes else m
        return real_import(name, globals, locals, fromlist, level)

    _purge()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    builtins.__import__ = imp
    # importlib.reload (used by set_backend) goes through the same hook
    try:
        nn = importlib.import_module("nannos")
        if backend != "numpy":
            nn.set_backend(backend)
            nn = sys.modules["nannos"]
    except BaseException:
        builtins.__import__ = real_import
        raise
    nn.__symnn_restore__ = lambda: setattr(builtins, "__import__", real_import)
    nn.set_log_level("ERROR")
    return nn


# names of numpy that torch also has
TORCH_NAMES = set(
    """
abs absolute acos acosh add all allclose amax amin angle any arange arccos arccosh arcsin arcsinh arctan
arctan2 arctanh argmax argmin argsort argwhere asarray asin asinh atan atan2 atanh atleast_1d atleast_2d
atleast_3d bincount bitwise_and bitwise_not bitwise_or bitwise_xor bool broadcast_shapes broadcast_to can_cast
cdouble ceil clip column_stack complex128 complex64 concat concatenate conj copysign corrcoef cos cosh
count_nonzero cov cross cumprod cumsum deg2rad diag diagflat diagonal diff divide dot double dsplit dstack
dtype e einsum empty empty_like equal exp exp2 expm1 eye fft finfo fix flip fliplr flipud float16 float32
float64 float_power floor floor_divide fmax fmin fmod frexp frombuffer full full_like gcd gradient greater
greater_equal half heaviside histogram histogramdd hsplit hstack hypot i0 iinfo imag inf inner int16 int32
int64 int8 isclose isfinite isin isinf isnan isneginf isposinf isreal kron lcm ldexp less less_equal linalg
linspace load log log10 log1p log2 logaddexp logaddexp2 logical_and logical_not logical_or logical_xor
logspace long matmul max maximum mean median meshgrid min minimum moveaxis multiply nan nan_to_num nanmean
nanmedian nanquantile nansum negative nextafter nonzero not_equal ones ones_like outer pi positive pow prod
promote_types put quantile rad2deg random ravel real reciprocal remainder reshape result_type roll rot90 round
row_stack save searchsorted select sign signbit sin sinc sinh sort split sqrt square squeeze stack std
subtract sum swapaxes take tan tanh tensordot tile trace transpose trapezoid trapz tril tril_indices triu
triu_indices true_divide trunc uint8 unique unravel_index vander var vdot vsplit vstack where zeros zeros_like newaxis
""".split()
)
TORCH_OWN = {"Tensor", "tensor", "device", "cuda", "autograd", "flatten"}


NO_LISTS = "abs sqrt exp cos sin tan arctan2 atan2 conj real imag sum max min cross matmul dot where diag gradient flip roll prod mean isnan".split()


def strict(m):
    """torch and jax functions refuse tuples and lists in the place of arrays"""
    import functools

    for k in NO_LISTS:
        try:
            f = getattr(m, k)
        except AttributeError:
            continue

        def g(*a, _f=f, _k=k, **kw):
            if a and isinstance(a[0], (list, tuple)):
                raise TypeError(f"{_k}() requires an array, got {type(a[0])}")
            return _f(*a, **kw)

        m.__dict__[k] = functools.wraps(f)(g) if hasattr(f, "__name__") else g


def fake_torch():
    from . import shim as sh
    import numpy as np

    class Tensor:  # isinstance checks in _array: everything symbolic is a tensor
        pass

    class _Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, sh.SymArray)

    Tensor = _Meta("Tensor", (), {})
    t = sh.Shim("torch")

    def amax(a, dim=None, **k):
        return sh.amax(a, axis=dim)

    t.__dict__.update(
        Tensor=Tensor,
        tensor=sh.array,
        device=lambda d: d,
        atan2=t.arctan2,
        cuda=types.SimpleNamespace(is_available=lambda: False),
        autograd=types.SimpleNamespace(grad=None),
        flatten=lambda a: sh.wrap(sh.base(a).ravel()),
    )
    for k in list(t.__dict__):
        if not k.startswith("__") and k not in TORCH_NAMES and k not in TORCH_OWN:
            del t.__dict__[k]

    class Torch(sh.Shim):
        def __getattr__(self, k):
            if k not in TORCH_NAMES:
                raise AttributeError(f"module 'torch' has no attribute {k!r}")
            return super().__getattr__(k)

    t.__class__ = Torch
    strict(t)
    ft = types.ModuleType("torch.fft")
    ft.fft2, ft.ifft2 = sh.fft.fft2, sh.fft.ifft2
    return {"torch": t, "torch.fft": ft}


def fake_jax():
    from . import shim as sh

    sh.IMMUTABLE = True
    j = types.ModuleType("jax")
    j.__version__ = "0.4.30"
    j.numpy = sh.Shim("jax.numpy")
    strict(j.numpy)
    j.scipy = types.SimpleNamespace(integrate=types.SimpleNamespace(trapezoid=sh.trapezoid))
    j.config = types.SimpleNamespace(update=lambda *a: None)
    j.jit = lambda f, **k: f
    return {"jax": j, "jax.numpy": j.numpy}


class _Any:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __setattr__(self, k, v):
        pass


def plot_fakes():
    """plotting and notebook libraries: empty bodies (no property is about them)"""
    pv = types.ModuleType("pyvista")
    pv.__getattr__ = lambda k: _Any()
    mpl = types.ModuleType("matplotlib")
    plt = types.ModuleType("matplotlib.pyplot")
    plt.__getattr__ = lambda k: _Any()
    tr = types.ModuleType("matplotlib.transforms")
    tr.__getattr__ = lambda k: _Any()
    mpl.pyplot, mpl.transforms = plt, tr
    return {"pyvista": pv, "matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.transforms": tr}


def load_real(backend="numpy"):
    """the real package with the real backend"""
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "agg")
    os.environ.pop("NANNOS_GPU", None)
    if backend not in ("torch",):
        _block(["torch"])
    if backend not in ("jax",):
        _block(["jax"])
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    os.environ.pop("NANNOS_BACKEND", None)
    import nannos

    if backend != "numpy":
        nannos.set_backend(backend)
    import sys as _s

    nannos = _s.modules["nannos"]
    nannos.set_log_level("ERROR")
    return nannos
