"""Interpreted stand-ins for numba.

COSIPY's kernels are numba-compiled (about 40 s per process).  The checks
execute the *same source* interpreted: decorators become no-ops and the
jitclass decorator keeps the one behaviour that matters to the model, that
declared float/int fields are stored as scalars.  The thorough tier repeats a
share of the traces with the real compiler (see drv.py, JIT=1).
"""
import os, sys, types as _t


def _nodeco(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw and not isinstance(args[0], _Type):
        return args[0]
    def deco(f):
        return f
    return deco


class _Type:
    def __init__(self, name="T", kind=None):
        self.name, self.kind = name, kind
    def __getitem__(self, k):
        return _Type(self.name + "[]", "array")
    def __call__(self, *a, **k):
        return _Type(self.name + "()", None)
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Type(k)


class _TypedList(list):
    @classmethod
    def empty_list(cls, *a, **k):
        return cls()


def _tofloat(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return float(v.item())
    return float(v)


def _jitclass(spec=None, **kw):
    def wrap(cls, spec=spec):
        spec = dict(spec or {})
        floats = {k for k, v in spec.items() if getattr(v, "kind", None) == "float"}
        ints = {k for k, v in spec.items() if getattr(v, "kind", None) == "int"}
        orig = cls.__setattr__
        def __setattr__(self, k, v):
            if k in floats:
                v = _tofloat(v)
            elif k in ints:
                v = int(v)
            orig(self, k, v)
        cls.__setattr__ = __setattr__
        ct = _t.SimpleNamespace(instance_type=_Type(cls.__name__))
        cls.class_type = ct
        return cls
    if isinstance(spec, type):
        c, spec = spec, None
        return wrap(c, {})
    return wrap


class _Mod(_t.ModuleType):
    """Module in which every unknown attribute is a dummy type / no-op decorator."""
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Type(k)


def install():
    names = ["numba", "numba.experimental", "numba.typed", "numba.types", "numba.core",
             "numba.core.extending", "numba.np", "numba.np.numpy_support", "numba.extending",
             "numba.core.types"]
    mods = {n: _Mod(n) for n in names}
    nb = mods["numba"]
    nb.__path__ = []
    for n in names[1:]:
        par, _, leaf = n.rpartition(".")
        setattr(mods[par], leaf, mods[n])
        mods[n].__path__ = []
    for d in ("njit", "jit", "vectorize", "guvectorize", "generated_jit", "stencil", "cfunc"):
        setattr(nb, d, _nodeco)
    nb.prange = range
    nb.__version__ = "0.0.0-shim"
    nb.objmode = None
    for t, kind in (("float64", "float"), ("float32", "float"), ("double", "float"), ("f8", "float"),
                    ("int64", "int"), ("int32", "int"), ("intp", "int"), ("uint64", "int"), ("uint32", "int"),
                    ("boolean", None), ("optional", None), ("void", None)):
        ty = _Type(t, kind)
        setattr(nb, t, ty); setattr(mods["numba.types"], t, ty); setattr(mods["numba.core.types"], t, ty)
    mods["numba.experimental"].jitclass = _jitclass
    nb.jitclass = _jitclass
    mods["numba.typed"].List = _TypedList
    mods["numba.typed"].Dict = dict
    for m in ("numba.core.extending", "numba.extending"):
        mods[m].overload = lambda *a, **k: (lambda f: f)
        mods[m].overload_method = lambda *a, **k: (lambda f: f)
        mods[m].register_jitable = _nodeco
    mods["numba.np.numpy_support"].type_can_asarray = lambda *a: True
    sys.modules.update(mods)
