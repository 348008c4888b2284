"""
Import harmonica from /repo's working tree and make it symbolically executable:
``np``/``math`` globals become proxies, numba's JIT is off (its Python
semantics is what is encoded), choclo kernels and scipy special functions can
be replaced with uninterpreted functions while an engine asks for it.
"""
import os
import sys
import types
import warnings

os.environ["NUMBA_DISABLE_JIT"] = "1"
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

from . import core, snp  # noqa: E402

if not os.path.exists(os.path.join(SRC, "harmonica", "_version.py")):
    _v = types.ModuleType("harmonica._version")
    _v.__version__ = "0+unknown"
    _v.__version_tuple__ = (0,)
    _v.version = _v.__version__
    sys.modules["harmonica._version"] = _v

KERNELS = {}


class Kernel:
    """Real function, or an uninterpreted one while the engine asks for it."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.__name__ = getattr(fn, "__name__", name)
        self.__doc__ = getattr(fn, "__doc__", None)

    def __call__(self, *args, **kwargs):
        eng = core.ENGINE
        if eng is not None:
            mode = getattr(eng, "kernel_mode", None)
            if mode is not None and (mode == "all" or self.name in mode or self.name.split(".")[0] in mode):
                if kwargs:
                    raise core.Unsupported("keyword arguments of a kernel")
                return self.symbolic(*args)
        return self.fn(*args, **kwargs)

    def symbolic(self, *args):
        n = 3 if self.name.endswith("magnetic_field") else 1
        flat = []
        for a in args:
            flat.append(a)
        if n == 3:
            return tuple(core.uf(f"{self.name}.{c}", *flat) for c in "enu")
        return core.uf(self.name, *flat)


class ElementwiseKernel(Kernel):
    def symbolic(self, *args):
        if any(isinstance(a, np.ndarray) for a in args):
            return snp._fin(
                snp._each(lambda *v: core.uf(self.name, *v), [snp._to_obj(a) for a in args]),
                False,
            )
        return core.uf(self.name, *args)


def _patch_choclo():
    import choclo
    import choclo.dipole
    import choclo.point
    import choclo.prism

    for sub in ("point", "prism", "dipole"):
        mod = getattr(choclo, sub)
        for attr in dir(mod):
            fn = getattr(mod, attr)
            if attr.startswith(("gravity_", "magnetic_", "kernel_")) and callable(fn):
                k = Kernel(f"{sub}.{attr}", fn)
                KERNELS[k.name] = k
                setattr(mod, attr, k)
    import scipy.special

    for attr in ("ellipkinc", "ellipeinc"):
        k = ElementwiseKernel(f"scipy.{attr}", getattr(scipy.special, attr))
        KERNELS[k.name] = k
        setattr(scipy.special, attr, k)


PRANGE_HOOK = None


def _prange(*args):
    if PRANGE_HOOK is not None:
        return PRANGE_HOOK(*args)
    return range(*[int(a) if isinstance(a, core.Sym) else a for a in args])


FLOAT = snp.float_shim_factory()


def _patch_xarray():
    """Arrays that come out of xarray stay symbolic arrays."""
    import xarray as xr

    old = xr.DataArray.values

    def get(self):
        r = old.fget(self)
        if core.ENGINE is not None and isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(snp.SymArray)
        return r

    xr.DataArray.values = property(get, old.fset, doc=old.__doc__)
    xr.DataArray.to_numpy = lambda self: self.values
    from xarray.core import duck_array_ops

    grad = duck_array_ops.gradient

    def gradient(f, *args, **kwargs):
        if getattr(f, "dtype", None) == object or any(getattr(a, "dtype", None) == object for a in args):
            return snp.gradient(f, *args, **kwargs)
        return grad(f, *args, **kwargs)

    duck_array_ops.gradient = gradient


def _round_array(a):
    def one(x):
        if isinstance(x, core.CSym):
            return core.CSym(core.rounded(x.re), core.rounded(x.im))
        return core.rounded(x)

    if not isinstance(a, np.ndarray):
        return one(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = one(a[i])
    return out


class _FFT:
    """numpy.fft for symbolic arrays: the discrete Fourier sums themselves."""

    def __getattr__(self, name):
        return getattr(np.fft, name)

    def _transform(self, a, axes, sign, scale):
        data = snp.wrap_arr(np.asarray(a))
        for ax in axes:
            n = data.shape[ax]
            moved = np.moveaxis(data.view(np.ndarray), ax, 0)
            out = np.empty(moved.shape, dtype=object)
            for k in range(n):
                acc = 0
                for m in range(n):
                    w = np.exp(sign * 2j * np.pi * ((k * m) % n) / n)
                    w = complex(round(w.real, 15), round(w.imag, 15))
                    acc = moved[m] * core.CSym.wrap(w) + acc
                acc = acc / n if scale else acc
                if core.numeric():
                    acc = _round_array(acc)
                out[k] = acc
            data = np.moveaxis(out, 0, ax)
        return data.view(snp.SymArray)

    def fftn(self, a, axes=None, **k):
        if getattr(a, "dtype", None) != object:
            return np.fft.fftn(a, axes=axes, **k)
        return self._transform(a, range(np.ndim(a)) if axes is None else axes, -1, False)

    def ifftn(self, a, axes=None, **k):
        if getattr(a, "dtype", None) != object:
            return np.fft.ifftn(a, axes=axes, **k)
        return self._transform(a, range(np.ndim(a)) if axes is None else axes, 1, True)


class _XrftNumpy:
    fft = _FFT()

    def __getattr__(self, name):
        return getattr(np, name)


def _patch_xrft():
    import xrft.xrft

    xrft.xrft.np = _XrftNumpy()


class _Rotation:
    """scipy's Rotation for symbolic angles: the product of the elementary
    rotation matrices."""

    def __init__(self, matrix):
        self.matrix = matrix

    def as_matrix(self):
        return self.matrix.copy()

    def inv(self):
        return _Rotation(self.matrix.T.copy())

    def __mul__(self, other):
        return _Rotation(self.matrix @ other.as_matrix())

    def apply(self, v, inverse=False):
        m = self.matrix.T if inverse else self.matrix
        return (m @ snp.wrap_arr(v).T).T

    @staticmethod
    def elementary(axis, angle):
        c, s = core.trig(core._wrap(angle))
        i = "xyz".index(axis)
        j, k = (i + 1) % 3, (i + 2) % 3
        m = [[0] * 3 for _ in range(3)]
        m[i][i] = 1
        m[j][j] = m[k][k] = c
        m[j][k], m[k][j] = -s, s
        return snp.wrap_arr(m)


class _RotationMaker:
    def __getattr__(self, name):
        from scipy.spatial.transform import Rotation

        return getattr(Rotation, name)

    def __call__(self, *args, **kwargs):
        from scipy.spatial.transform import Rotation

        return Rotation(*args, **kwargs)

    def from_euler(self, seq, angles, degrees=False):
        from scipy.spatial.transform import Rotation

        flat = [a for a in (angles.ravel() if isinstance(angles, np.ndarray) else angles if isinstance(angles, (list, tuple)) else [angles])]
        if not any(isinstance(a, core.Sym) for a in flat):
            return Rotation.from_euler(seq, angles, degrees=degrees)
        if len(flat) != len(seq):
            raise core.Unsupported("several rotations at once")
        if degrees:
            flat = [core._wrap(a) * core.pi() / 180 for a in flat]
        m = snp.wrap_arr(np.eye(3))
        for axis, a in zip(seq, flat):
            e = _Rotation.elementary(axis.lower(), a)
            m = m @ e if seq.isupper() else e @ m
        return _Rotation(m)


def _patch_modules():
    import array
    import math
    import struct

    from scipy.spatial.transform import Rotation

    import scipy
    import scipy.linalg
    import scipy.sparse

    for name, mod in list(sys.modules.items()):
        if mod is None:
            continue
        if not (name == "harmonica" or name.startswith(("harmonica.", "choclo.")) or name == "verde.base.utils"):
            continue
        d = vars(mod)
        for k, v in list(d.items()):
            if v is np:
                d[k] = snp.NP
            elif v is math:
                d[k] = snp.MATH
            elif v is scipy:
                d[k] = snp.SCIPY
            elif v is scipy.linalg:
                d[k] = snp.SCIPY.linalg
            elif v is scipy.sparse:
                d[k] = snp.SCIPY.sparse
            elif v is array:
                d[k] = snp.ReaderShim(array, ("array",))
            elif v is struct:
                d[k] = snp.ReaderShim(struct, ("unpack", "unpack_from"))
            elif v is Rotation:
                d[k] = _RotationMaker()
            elif v is math.prod:
                d[k] = snp.prod_shim
            elif callable(v) and getattr(v, "__module__", None) == "math" and hasattr(math, getattr(v, "__name__", "?")):
                d[k] = _math_fn(v.__name__)
            elif isinstance(v, np.ufunc) and v in snp.UFUNC:
                d[k] = _np_fn(v.__name__)
        if name.startswith("harmonica."):
            d["float"] = FLOAT


def _math_fn(name):
    return lambda *a, **k: getattr(snp.MATH, name)(*a, **k)


def _np_fn(name):
    return lambda *a, **k: getattr(snp.NP, name)(*a, **k)


def load():
    import numba

    numba.prange = _prange
    warnings.simplefilter("ignore")
    _patch_choclo()
    _patch_xarray()
    _patch_xrft()
    import harmonica

    for sub in ("harmonica._forward", "harmonica._equivalent_sources", "harmonica._io"):
        pass
    _patch_modules()
    here = os.path.realpath(harmonica.__file__)
    if not here.startswith(os.path.realpath(SRC)):
        raise SystemExit(f"harmonica imported from {here}")
    return harmonica
