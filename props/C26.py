"""Backend selection."""
import builtins
import os
import sys
import types

from symnn.run import Harness, harness

from .common import arr

ABOUT = "the whole text of nannos/__init__.py executed (and executed again at every reload) with stand-ins for the libraries and the submodules: names asked for, libraries present, cuda and environment variables are symbolic."
ASSUMPTIONS = ["the name asked for is a known backend or one of a few unknown strings", "submodules and array libraries are stand-ins (in the modules_* harnesses the real submodules are reloaded)"]
HARNESSES = []

KNOWN = ["numpy", "scipy", "autograd", "jax", "torch"]
BAD = ["tensorflow", "NumPy", ""]
LIB = {"scipy": "numpy"}


class Name(str):
    """a string that is one of a few, decided only as far as the code looks"""

    def __new__(cls, ctx, name, options):
        s = str.__new__(cls, "")
        s.ctx, s.options = ctx, options
        s.k = ctx.integer(name, 0, len(options) - 1, sample=0)
        s.name = name
        return s

    def eq(self, o):
        if o not in self.options:
            return False
        return self.k == self.options.index(o)

    def __eq__(self, o):
        if isinstance(o, Name):
            o = o.pin()
        if not isinstance(o, str):
            return False
        return bool(self.eq(str(o)))

    def __ne__(self, o):
        return not self == o

    def pin(self):
        """the string, by cases"""
        for o in self.options[:-1]:
            if bool(self.eq(o)):
                return o
        return self.options[-1]

    def __hash__(self):
        return hash(self.pin())

    def __str__(self):
        return self.pin()

    __repr__ = __str__

    def __format__(self, spec):
        return "<name>"

    def __len__(self):
        return len(self.pin())

    def __iter__(self):
        return iter(self.pin())

    def __contains__(self, x):
        return x in self.pin()

    def __getitem__(self, k):
        return self.pin()[k]

    def __add__(self, o):
        return self.pin() + o

    def __radd__(self, o):
        return o + self.pin()

    def __bool__(self):
        return bool(self.pin())


for _m in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "capitalize", "casefold", "replace", "title", "find", "count"):

    def _method(self, *a, _m=_m):
        return getattr(self.pin(), _m)(*a)

    setattr(Name, _m, _method)


class Anything:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __setattr__(self, k, v):
        pass


class Loose(types.ModuleType):
    def __getattr__(self, k):
        if k == "__all__":
            return []
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()


class Package:
    """one process that imports the package"""

    SUBS = ("optimize", "constants", "excitation", "lattice", "parallel", "sample", "simulation", "utils", "geometry", "layers", "plot")

    def __init__(self, ctx, torch, jax, cuda, env=None, gpu_env=None):
        from symnn.load import REPO

        self.ctx, self.has = ctx, {"torch": torch, "jax": jax}
        self.path = os.path.join(REPO, "nannos")
        self.loads = 0
        self.libs = {n: self.library(n) for n in ("numpy", "autograd", "jax", "torch")}
        self.libs["torch"].cuda = types.SimpleNamespace(is_available=lambda: cuda)
        self.jax_config = {}
        self.environ = {} if env is None else {"NANNOS_BACKEND": env}
        if gpu_env is not None:
            self.environ["NANNOS_GPU"] = gpu_env
        self.subs = {}
        log = types.ModuleType("nannos.log")
        log.logger, log.set_log_level, log.__all__ = Anything(), lambda *a: None, ["logger", "set_log_level"]
        self.subs["log"] = log
        about = Loose("nannos.__about__")
        about.data = {"License": ""}
        about.__version__ = about.__author__ = about.__description__ = ""
        self.subs["__about__"] = about
        self.mod = types.ModuleType("nannos")
        self.mod.__path__ = [self.path]
        self.ns = vars(self.mod)
        self.mods = {"nannos": self.mod}
        self.seen = {}
        self.fakesys = types.SimpleNamespace(modules=self.mods)
        self.fakeos = types.SimpleNamespace(environ=self.environ, getenv=lambda k, d=None: self.environ.get(k, d), path=os.path)
        self.fakeimp = types.SimpleNamespace(reload=self.reload, import_module=lambda n, p=None: self.mods.get(n) or __import__(n))
        self.b = dict(vars(builtins))
        self.b["__import__"] = self.imp
        self.ns["__builtins__"] = self.b
        self.load(self.mod)

    def library(self, n):
        m = Loose(n + ".numpy" if n in ("jax", "autograd") else n)
        for t in ("float32", "float64", "complex64", "complex128"):
            setattr(m, t, f"{n}.{t}")

        class Tensor:
            pass

        m.Tensor = Tensor
        m.tensor = lambda a, **k: ("tensor", a)
        m.array = lambda a, **k: (n, a)
        return m

    def present(self, n):
        return bool(self.has[n])

    # -- import system
    def source(self, name):
        p = os.path.join(self.path, name + ".py") if name else os.path.join(self.path, "__init__.py")
        with open(p) as f:
            return compile(f.read(), p, "exec")

    def load(self, m):
        self.loads += 1
        if self.loads > 200:
            raise RecursionError("reloads for ever")
        ns = vars(m)
        ns["__name__"], ns["__package__"] = m.__name__, "nannos"
        exec(self.source("" if m is self.mod else m.__name__.split(".", 1)[1]), ns)

    def bind(self, m):
        """what a submodule keeps of the package when it is (re)loaded"""
        self.seen[m.__name__] = tuple(self.ns.get(k) for k in ("backend", "BACKEND", "DEVICE", "FLOAT", "COMPLEX"))

    def reload(self, m):
        if m is self.mod:
            self.load(m)
        elif m.__name__.split(".")[-1] in self.SUBS:
            self.bind(m)
        elif not isinstance(m, Loose) and m.__name__ not in ("nannos.log",):
            self.load(m)
        return m

    def sub(self, name):
        if name in self.subs:
            m = self.subs[name]
            self.mods.setdefault("nannos." + name, m)
            return m
        top = name.split(".")[0]
        if top in self.SUBS or os.path.isdir(os.path.join(self.path, top)):
            m = Loose("nannos." + name)
            m.__all__ = []
            self.subs[name] = m
            self.bind(m)
        else:
            m = types.ModuleType("nannos." + name)
            vars(m)["__builtins__"] = self.b
            self.subs[name] = m
            self.load(m)
        self.mods["nannos." + name] = m
        setattr(self.mod, name, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if not name:
                for k in fromlist:
                    if k not in self.ns:
                        self.sub(k)
                return self.mod
            m = self.sub(name)
            return m
        top = name.split(".")[0]
        if top == "nannos":
            return self.mod if "." not in name else self.sub(name.split(".", 1)[1])
        if top in ("torch", "jax"):
            if not self.present(top):
                raise ModuleNotFoundError(f"No module named {top!r}", name=top)
            if top == "torch":
                return self.libs["torch"]
            j = Loose("jax")
            j.__version__ = "0.4.30"
            j.numpy = self.libs["jax"]
            j.config = types.SimpleNamespace(update=self.jax_config.__setitem__)
            return j
        if top == "numpy":
            return self.libs["numpy"]
        if top == "autograd":
            a = Loose("autograd")
            a.numpy, a.grad = self.libs["autograd"], Anything()
            return a
        if top == "os":
            return self.fakeos
        if top == "sys":
            return self.fakesys
        if top == "importlib":
            return self.fakeimp
        if top in ("pyvista", "matplotlib"):
            return Loose(top)
        if top == "packaging":
            from packaging import version

            return __import__("packaging.version").version if fromlist else __import__("packaging")
        return __import__(name, None, None, fromlist, 0)


class Real:
    """the same with the real package (replay)"""

    def __init__(self, ctx, torch, jax, cuda, env=None, gpu_env=None):
        import importlib

        from symnn.load import REPO

        for k in [k for k in sys.modules if k == "nannos" or k.startswith("nannos.")]:
            del sys.modules[k]
        keep = Real.__dict__.get("_keep") or {}
        Real._keep = keep
        for n, there in (("torch", torch), ("jax", jax)):
            if there:
                if sys.modules.get(n, 0) is None:
                    del sys.modules[n]
                    if n in keep:
                        sys.modules[n] = keep[n]
            else:
                if sys.modules.get(n) is not None:
                    keep[n] = sys.modules[n]
                sys.modules[n] = None
        if torch:
            import torch as t

            t.cuda.is_available = lambda: cuda
        for k, v in (("NANNOS_BACKEND", env), ("NANNOS_GPU", gpu_env)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = str(v)
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.mod = importlib.import_module("nannos")
        self.mod = sys.modules["nannos"]
        self.mod.set_log_level("ERROR")
        self.mark()
        for k in ("NANNOS_BACKEND", "NANNOS_GPU"):
            os.environ.pop(k, None)

    def mark(self):
        self._m = self.mod.set_backend

    @property
    def ns(self):
        return vars(self.mod)

    @property
    def loads(self):
        # a reload makes new functions
        if self.mod.set_backend is not self._m:
            self.n = getattr(self, "n", 0) + 1
            self.mark()
        return getattr(self, "n", 0)

    @property
    def seen(self):
        out = {}
        for k, m in list(sys.modules.items()):
            if k.startswith("nannos.") and hasattr(m, "bk"):
                out[k] = (m.bk, getattr(m, "BACKEND", self.mod.BACKEND), getattr(m, "DEVICE", self.mod.DEVICE), getattr(m, "FLOAT", self.mod.FLOAT), getattr(m, "COMPLEX", self.mod.COMPLEX))
        return out

    @property
    def libs(self):
        import autograd.numpy
        import numpy

        out = {"numpy": numpy, "autograd": autograd.numpy}
        for n in ("torch", "jax"):
            m = sys.modules.get(n)
            if m is not None:
                out[n] = m if n == "torch" else __import__("jax.numpy").numpy
        return out


def consistent(ctx, P, want, bits, gpu, what):
    """the package shows the state (want, bits, gpu) everywhere"""
    ns, lib = P.ns, P.libs[LIB.get(want, want)]
    ctx.prove(f"{what}: the backend reported", ns["get_backend"]() == want)
    ctx.prove(f"{what}: BACKEND", ns["BACKEND"] == want)
    ctx.prove(f"{what}: the library in use", ns["backend"] is lib)
    types_ = ("float32", "complex64") if bits else ("float64", "complex128")
    t = tuple(getattr(lib, k) for k in types_)
    ctx.prove(f"{what}: precision", tuple(ns["get_types"]()) == t)
    ctx.prove(f"{what}: precision of the package", (ns["FLOAT"], ns["COMPLEX"]) == t)
    dev = "cuda" if gpu else "cpu"
    ctx.prove(f"{what}: device", ns["get_device"]() == dev and ns["DEVICE"] == dev)
    for k, v in P.seen.items():
        ctx.prove(f"{what}: {k} uses the state", v[0] is lib and v[1] == want and v[2] == dev and v[3:] == t)


class Model:
    """what the documentation says"""

    def __init__(self, torch, jax, cuda):
        self.there = {"torch": torch, "jax": jax}
        self.cuda, self.b, self.bits, self.gpu = cuda, "numpy", False, False

    def has(self, b):
        return bool(self.there.get(b, True))

    def select(self, b):
        """False: unknown"""
        if b not in KNOWN:
            return False
        self.b = b if self.has(b) else "numpy"
        return True

    def device(self, on):
        self.gpu = on and (self.b == "torch" and bool(self.cuda) or self.b == "jax")


def _step(ctx, P, M, k, ops):
    op = ctx.choice(f"op{k}", ops) if len(ops) > 1 else ops[0]
    what = f"after {op}"
    ns = P.ns
    if op == "backend":
        n = Name(ctx, f"name{k}", KNOWN + BAD) if ctx.symbolic else ctx.choice(f"name{k}", KNOWN + BAD)
        n0, was = P.loads, M.b
        try:
            ns["set_backend"](n)
            ok = True
        except ValueError:
            ok = False
        b = n.pin() if ctx.symbolic else n
        good = M.select(b)
        ctx.prove("an unknown name is rejected, a known one accepted", ok == good)
        if ok and b == was:
            ctx.prove("selecting the current backend does nothing", P.loads == n0)
    elif op == "precision":
        yes = ctx.boolean(f"bits{k}")
        ns["use_32_bit"](bool(yes))
        M.bits = bool(yes)
    else:
        yes = ctx.boolean(f"gpu{k}")
        ns["use_gpu"](bool(yes))
        M.device(bool(yes))
    consistent(ctx, P, M.b, M.bits, M.gpu, what)


def _history(name, n, ops, libs=True, env=False, gpu_env=False, tier="quick", first=None, cuda=True):
    def f(ctx, nn):
        t = ctx.boolean("torch", sample=True) if libs else True
        j = ctx.boolean("jax", sample=True) if libs else True
        c = ctx.boolean("cuda", sample=False) if cuda else False
        e = None
        if env:
            o = KNOWN + BAD[:2]
            e = Name(ctx, "env", o) if ctx.symbolic else ctx.choice("env", o)
        World = Package if ctx.symbolic else Real
        if not ctx.symbolic:
            t, j, c = bool(t), bool(j), bool(c)
        M = Model(t, j, c)
        P = World(ctx, t, j, c, e, "1" if gpu_env else None)
        if env:
            b = e.pin() if ctx.symbolic else e
            if b in KNOWN and M.has(b):
                M.b = b
        if gpu_env:
            M.device(True)
        consistent(ctx, P, M.b, False, M.gpu, "at import")
        have = [b for b in KNOWN if M.has(b)] if n == 0 or env else None
        if have:
            ctx.prove("the available backends", sorted(P.ns["available_backends"]) == sorted(have))
        if first:
            P.ns["set_backend"](first)
            M.select(first)
            consistent(ctx, P, M.b, M.bits, M.gpu, f"after {first}")
        for k in range(n):
            _step(ctx, P, M, k, ops if isinstance(ops[0], str) else ops[k])
        ctx.observe("state", arr(ctx, [KNOWN.index(P.ns["get_backend"]()), 1 if "32" in str(P.ns["FLOAT"]) else 0]))

    HARNESSES.append(Harness(name, f, tier=tier, max_paths=60000, validate=True, bounds=f"all histories of {n} operations ({ops})" + (f" after selecting {first}" if first else "") + (", each library present or missing" if libs else "") + (", every value of the environment variable" if env else "")))


B, P32, G = "backend", "precision", "device"
_history("names", 2, [B])
_history("mixed", 2, [B, P32, G])
_history("environment", 1, [B, P32, G], env=True)
_history("environment_gpu", 1, [B, P32, G], env=True, gpu_env=True)
_history("environment_two", 2, [B], env=True, libs=False, cuda=False)
_history("names_three", 3, [B], libs=False, cuda=False)
for _b in KNOWN:
    _history(f"from_{_b}", 2, [B, P32, G], first=_b, libs=_b in ("numpy", "torch"))
_history("mixed_three", 3, [B, P32, G], tier="thorough")
_history("names_four", 4, [B], libs=False, cuda=False, tier="thorough")
_history("environment_mixed", 2, [B, P32, G], env=True, gpu_env=True, tier="thorough")


def _modules(name, backend, options, n=2):
    def f(ctx, nn):
        """all modules of the package, reloaded for real"""
        from symnn import shim

        keep = dict(sys.modules)

        def state(want, bits, what):
            m = sys.modules["nannos"]
            ctx.prove(f"{what}: the backend reported", m.get_backend() == want and m.BACKEND == want)
            k = 0
            for key, x in list(sys.modules.items()):
                if key.startswith("nannos.") and x is not None:
                    for a in ("bk", "backend"):
                        if hasattr(x, a):
                            ctx.prove(f"{what}: {key} uses the library", getattr(x, a) is m.backend)
                            k += 1
                    for a in ("BACKEND", "DEVICE", "FLOAT", "COMPLEX"):
                        if hasattr(x, a):
                            ctx.prove(f"{what}: {key}.{a}", getattr(x, a) == getattr(m, a))
                    ctx.prove(f"{what}: {key} sees the backend", not hasattr(x, "get_backend") or x.get_backend() == want)
            ctx.prove("modules looked at", k > 5)
            ctx.prove(f"{what}: precision", str(m.FLOAT).count("32") == (1 if bits else 0))

        now, bits = sys.modules["nannos"].get_backend(), False
        state(now, bits, "at first")
        for k in range(n):
            b = ctx.choice(f"name{k}", options)
            m = sys.modules["nannos"]
            if b in ("32", "64"):
                bits = b == "32"
                m.use_32_bit(bits)
            else:
                now = b
                m.set_backend(b)
            state(now, bits, f"after {b}")
        m = sys.modules["nannos"]
        m.use_32_bit(False)
        m.set_backend(backend)
        m.set_log_level("ERROR")

    HARNESSES.append(Harness(name, f, backend=backend, max_paths=200, validate=False, bounds=f"every module of the package, all histories of {n} switches among {options} starting from {backend}"))


_modules("modules_torch", "torch", ["numpy", "scipy", "autograd", "torch", "32"])
_modules("modules_jax", "jax", ["numpy", "jax", "autograd", "32", "64"])
