"""Makes the real b_asic modules executable on symbolic values.

Nothing in /repo is edited and no function is rewritten: the modules are imported
as they are, and a handful of *builtins* (isinstance, int, float, complex, abs,
min, max, sum, round, math.*) are shadowed in each module's globals by versions
that behave identically on ordinary values and know the symbolic classes.
"""
import builtins
import importlib
import math
import os
import sys
import types

from . import sym
from .sym import SBool, SComplex, SInt, SNum, SReal, Unsupported, is_sym

REPO = os.environ.get("PV_REPO", "/repo")


def stub_generated():
    """Stand-ins for the two files Meson generates (and only if they are missing)."""
    lib = os.path.join(REPO, "lib", "b_asic")
    if lib not in sys.path:
        pass
    if not os.path.exists(os.path.join(lib, "_version.py")):
        m = types.ModuleType("b_asic._version")
        m.__version__ = "0"
        m.version = "0"
        m.__getattr__ = lambda n: "0"
        sys.modules["b_asic._version"] = m
    m = types.ModuleType("b_asic._b_asic")

    class FastSimulation:
        def __init__(self, *a, **k):
            raise RuntimeError("not built")
    m.FastSimulation = FastSimulation
    m.__all__ = ["FastSimulation"]
    sys.modules["b_asic._b_asic"] = m


def import_real():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    sys.dont_write_bytecode = True
    p = os.path.join(REPO, "lib")
    if p not in sys.path:
        sys.path.insert(0, p)
    stub_generated()
    import b_asic  # noqa: F401
    for n in ("architecture", "core_operations", "data_type", "fft_operations", "list_schedulers", "operation", "port",
              "process", "quantization", "resource_assigner", "resources", "save_load_structure", "schedule",
              "scheduler", "sfg", "signal", "signal_generator", "simulation", "special_operations", "state_space",
              "transfer_function", "utility_operations", "utils", "wdf_operations", "graph_component",
              "sfg_generators.digital_filters", "sfg_generators.fft", "sfg_generators.matrix_operations",
              "sfg_generators.wave_digital_filters", "sfg_generators.matrix_inversion", "wdf.lattice",
              "research.interleaver", "types"):
        try:
            importlib.import_module("b_asic." + n)
        except ModuleNotFoundError:
            pass
    assert os.path.realpath(b_asic.__file__).startswith(os.path.realpath(REPO)), b_asic.__file__


_TYPEMAP = [(SBool, (bool, int)), (SInt, (int,)), (SReal, (float,)), (SComplex, (complex,))]


def v_isinstance(obj, cls):
    if is_sym(obj):
        if isinstance(cls, types.UnionType):
            cls = cls.__args__
        if isinstance(cls, tuple):
            return any(v_isinstance(obj, c) for c in cls)
        if isinstance(cls, types.UnionType):
            return any(v_isinstance(obj, c) for c in cls.__args__)
        if cls in (VInt, VFloat, VComplex):
            cls = {VInt: int, VFloat: float, VComplex: complex}[cls]
        for k, ts in _TYPEMAP:
            if type(obj) is k and cls in ts:
                return True
        return builtins.isinstance(obj, cls)
    if cls in (VInt, VFloat, VComplex):
        cls = {VInt: int, VFloat: float, VComplex: complex}[cls]
    elif isinstance(cls, tuple):
        cls = tuple({VInt: int, VFloat: float, VComplex: complex}.get(c, c) if isinstance(c, type) else c for c in cls)
    return builtins.isinstance(obj, cls)


class _Meta(type):
    def __instancecheck__(cls, obj):
        return v_isinstance(obj, cls.py)

    def __subclasscheck__(cls, sub):
        return builtins.issubclass(sub, cls.py)

    def __call__(cls, *a, **k):
        if a and is_sym(a[0]) or len(a) > 1 and is_sym(a[1]):
            return cls.conv(*a, **k)
        return cls.py(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.py, n)

    def __eq__(cls, o):
        return o is cls or o is cls.py

    def __hash__(cls):
        return hash(cls.py)

    def __or__(cls, o):
        return cls.py | o

    def __ror__(cls, o):
        return o | cls.py


class VInt(metaclass=_Meta):
    py = int

    @staticmethod
    def conv(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._n()
        if isinstance(x, SReal):
            return sym.s_trunc(x)
        raise TypeError("int() argument must be a real number, not 'complex'")


class VFloat(metaclass=_Meta):
    py = float

    @staticmethod
    def conv(x):
        if isinstance(x, SComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return SReal.of(x)


class VComplex(metaclass=_Meta):
    py = complex

    @staticmethod
    def conv(re, im=0):
        return sym.as_complex(re) + sym.as_complex(im) * 1j


def v_minmax(which):
    real = getattr(builtins, which)

    def f(*a, **k):
        vals = a
        if len(a) == 1:
            vals = list(a[0])
            if not vals:
                return real((), **k)
        if "key" not in k and any(is_sym(v) for v in vals) and all(sym.kind(v) in (0, 1) for v in vals):
            return sym.s_minmax(which, vals)
        k.pop("default", None)
        return real(vals, **k)
    f.__name__ = which
    return f


def v_sum(it, start=0):
    for v in it:
        start = start + v
    return start


def v_abs(x):
    return abs(x)


def v_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


class VMath:
    """math with symbolic floor/ceil/trunc/sqrt/gcd."""

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if any(is_sym(x) for x in a):
                return self.sym(n, *a)
            return real(*a)
        return f

    def sym(self, n, *a):
        x = a[0]
        if n == "floor":
            return sym.s_floor(x)
        if n == "ceil":
            return sym.s_ceil(x)
        if n == "trunc":
            return sym.s_trunc(x)
        if n == "sqrt":
            return sym.s_sqrt(x)
        if n == "fabs":
            return abs(x)
        if n == "isfinite":
            return True
        if n in ("isnan", "isinf"):
            return False
        if n == "gcd":
            r = 0
            vs = []
            for v in a:
                vs.append(sym.ctx().concretize(v.e) if is_sym(v) else v)
            return math.gcd(*vs)
        if n == "prod":
            r = 1
            for v in a[0]:
                r = r * v
            return r
        raise Unsupported(f"math.{n} of a symbolic value")


_vmath = VMath()
_np_sqrt_names = {"sqrt", "conjugate"}

SHADOW = {
    "isinstance": v_isinstance, "int": VInt, "float": VFloat, "complex": VComplex,
    "min": v_minmax("min"), "max": v_minmax("max"), "sum": v_sum, "round": v_round,
}
_MATHFN = {n: getattr(_vmath, n) for n in ("floor", "ceil", "trunc", "sqrt", "fabs", "isfinite", "isnan", "isinf", "gcd")}
_installed = False


def install():
    """Shadow the builtins in every loaded b_asic module (in this process only)."""
    global _installed
    if _installed:
        return
    _installed = True
    for name, mod in list(sys.modules.items()):
        if not (name == "b_asic" or name.startswith("b_asic.")) or mod is None:
            continue
        d = mod.__dict__
        for k, v in SHADOW.items():
            if k not in d:
                d[k] = v
        for k, v in list(d.items()):
            if v is math:
                d[k] = _vmath
            elif isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", None) == "math" and v.__name__ in _MATHFN:
                d[k] = _MATHFN[v.__name__]
