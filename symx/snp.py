"""
numpy stand-in used by the code under test while the engine is active.

Arrays are object ndarrays (``SymArray``) holding symbolic reals; everything
not overridden here falls through to numpy.  While no engine is active the
proxies are transparent.
"""
import itertools
import math
import operator
from fractions import Fraction

import numpy as real

from . import core
from .core import (
    CSym, NAN, ONE, Sym, SymBool, Undefined, Unsupported, ZERO, b_and, b_not,
    b_or, to_bool,
)


def active():
    return core.ENGINE is not None


def is_sym(x):
    return isinstance(x, (Sym, CSym, SymBool))


RACE = None  # race.Tracker that looks at the parallel loops


def _spot(key):
    """Index of one element as slices."""
    key = conv_key(key)
    key = key if isinstance(key, tuple) else (key,)
    return tuple(slice(k, k + 1 or None) for k in key)


class SymArray(real.ndarray):
    # integer dtype: assigned values are truncated (views and copies keep it,
    # results of operations are taken as floating point)
    integers = False

    def __array_finalize__(self, obj):
        if isinstance(obj, SymArray):
            self.integers = obj.integers
        if RACE is not None:
            if isinstance(obj, SymArray) and self.base is not None:
                self._born = getattr(obj, "_born", 0)
            else:
                self._born = RACE.serial

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __getitem__(self, key):
        if RACE is not None and RACE.shared(self):
            if RACE.symbolic_key(key):
                return RACE.get(self, key)
            r = real.ndarray.__getitem__(self, conv_key(key))
            if not isinstance(r, real.ndarray):
                RACE.record("r", RACE.whole(self[_spot(key)]))
            elif r.base is None:
                RACE.read_all(self)
            return r
        key = conv_key(key)
        r = real.ndarray.__getitem__(self, key)
        return r

    def __iter__(self):
        if RACE is not None and RACE.shared(self):
            return (self[k] for k in range(len(self)))
        return real.ndarray.__iter__(self)

    def __setitem__(self, key, value):
        if RACE is not None and RACE.shared(self):
            if RACE.symbolic_key(key):
                return RACE.set(self, key, value)
            v = real.ndarray.__getitem__(self, conv_key(key))
            if not isinstance(v, real.ndarray):
                RACE.record("w", RACE.whole(self[_spot(key)]))
            elif v.base is not None:
                RACE.record("w", RACE.whole(v))
            else:
                RACE.write_all(self)
        if RACE is not None and isinstance(value, SymArray):
            RACE.read_all(value)
        key = conv_key(key)
        if isinstance(value, real.ndarray) and value.dtype != object:
            value = wrap_arr(value)
        if self.integers:
            value = truncated(value)
        real.ndarray.__setitem__(self, key, value)

    def any(self, axis=None, **k):
        return _any(self, axis)

    def all(self, axis=None, **k):
        return _all(self, axis)

    def max(self, axis=None, **k):
        return _reduce(maximum, self, axis)

    def min(self, axis=None, **k):
        return _reduce(minimum, self, axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def argmin(self, axis=None, **k):
        return _argext(self, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _argext(self, lambda a, b: a > b)

    def astype(self, dtype, *a, **k):
        dt = real.dtype(dtype) if dtype is not None else real.dtype(float)
        if dt.kind in "fcO":
            if k.get("copy", True) is False and not self.integers:
                return self
            out = self.copy()
            out.integers = False
            return out
        if dt.kind == "b":
            out = real.empty(self.shape, dtype=bool)
            for i, v in enumerate(self.ravel()):
                out.flat[i] = bool(v)
            return out
        if dt.kind in "iu":
            out = real.empty(self.shape, dtype=object).view(SymArray)
            for i, v in enumerate(self.ravel()):
                out.flat[i] = v.trunc() if isinstance(v, Sym) else int(v)
            if all(not is_sym(v) or v.is_const() for v in out.ravel()):
                return real.array([int(v) for v in out.ravel()], dtype=dt).reshape(self.shape)
            return out
        return real.ndarray.astype(self, dtype, *a, **k)

    def item(self, *a):
        return real.ndarray.item(self, *a)

    @property
    def real(self):
        return _map1(lambda x: x.real if hasattr(x, "real") else x, self)

    @property
    def imag(self):
        return _map1(lambda x: x.imag if hasattr(x, "imag") else 0, self)

    def round(self, *a, **k):
        raise Unsupported("round")

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)


def truncated(value):
    """What an array of integers stores."""

    def one(v):
        if v is NAN:
            raise ValueError("cannot convert float NaN to integer")
        if isinstance(v, Sym):
            return v.trunc()
        return v

    if isinstance(value, real.ndarray):
        return _map1(one, value)
    return one(_scalar(value))


def int_array(x):
    """Symbolic array of integer dtype."""
    a = wrap_arr(x).copy()
    a.integers = True
    return a


def _is_int(x):
    if isinstance(x, SymArray):
        return x.integers
    if isinstance(x, (real.ndarray, real.generic)):
        return x.dtype.kind in "iub"
    return isinstance(x, int)


def _obj_to_bool(arr):
    out = real.empty(arr.shape, dtype=bool)
    flat = arr.ravel()
    for i in range(arr.size):
        out.flat[i] = bool(real.ndarray.__getitem__(flat, i))
    return out


def conv_key(key):
    if isinstance(key, tuple):
        return tuple(conv_key(k) for k in key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, Sym):
        return int(key)
    if isinstance(key, real.ndarray) and key.dtype == object:
        flat = list(key.ravel())
        if flat and all(isinstance(v, (SymBool, bool, real.bool_)) for v in flat):
            return _obj_to_bool(key)
        if not flat:
            return key.astype(bool) if False else real.zeros(key.shape, dtype=bool)
        return real.array([int(v) for v in flat]).reshape(key.shape)
    return key


def wrap_arr(x):
    """Any array-like -> SymArray (object)."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, real.ndarray):
        if x.dtype == object:
            return x.view(SymArray)
        out = real.empty(x.shape, dtype=object)
        for i, v in enumerate(x.ravel()):
            out.flat[i] = _scalar(v)
        return out.view(SymArray)
    if hasattr(x, "__array__") and not is_sym(x):
        return wrap_arr(real.asarray(x))
    if is_sym(x):
        out = real.empty((), dtype=object)
        out[()] = x
        return out.view(SymArray)
    arr = real.array(x, dtype=object)
    out = real.empty(arr.shape, dtype=object)
    for i, v in enumerate(arr.ravel()):
        out.flat[i] = _scalar(v)
    return out.view(SymArray)


def _scalar(v):
    if is_sym(v):
        return v
    if isinstance(v, real.ndarray) and v.ndim == 0:
        v = v.item()
        if is_sym(v):
            return v
    if isinstance(v, (bool, real.bool_)):
        return bool(v)
    if isinstance(v, (complex, real.complexfloating)):
        return CSym.wrap(complex(v))
    w = core._wrap(v)
    return v if w is None else w


def _num(v):
    v = _scalar(v)
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, SymBool):
        return v.as_number()
    return v


def _m(name):
    def f(x):
        x = _num(x)
        return getattr(x, name)()

    return f


def maximum(a, b):
    a, b = _num(a), _num(b)
    if a is NAN or b is NAN:
        return NAN
    return a if bool(a >= b) else b


def minimum(a, b):
    a, b = _num(a), _num(b)
    if a is NAN or b is NAN:
        return NAN
    return a if bool(a <= b) else b


def _isnan(x):
    if x is NAN:
        return True
    if isinstance(x, float):
        return x != x
    if isinstance(x, CSym):
        return x.re is NAN or x.im is NAN
    return False


def _ne(a, b):
    r = a == b
    return b_not(r) if isinstance(r, SymBool) else not r


def _cmp(op):
    def f(a, b):
        a, b = _scalar(a), _scalar(b)
        if isinstance(a, bool):
            a = _num(a)
        if isinstance(b, bool):
            b = _num(b)
        return op(a, b)

    return f


def _lg(f):
    def g(a, b):
        if isinstance(a, (bool, real.bool_)) and isinstance(b, (bool, real.bool_)):
            return bool(f(to_bool(a), to_bool(b)).args[0])
        r = f(to_bool(a), to_bool(b))
        return r

    return g


def _lnot(a):
    if isinstance(a, (bool, real.bool_)):
        return not a
    return core.simplify_const(b_not(to_bool(a)))


def _arctan2(y, x):
    return core.sym_arctan2(_num(y), _num(x))


def _power(a, b):
    return _num(a) ** b if not isinstance(a, (int, float)) or is_sym(b) else _num(a) ** b


def _arith(op):
    def f(a, b):
        a = _num(a)
        b = _num(b)
        return op(a, b)

    return f


UFUNC = {
    real.add: _arith(operator.add),
    real.subtract: _arith(operator.sub),
    real.multiply: _arith(operator.mul),
    real.divide: _arith(operator.truediv),
    real.true_divide: _arith(operator.truediv),
    real.floor_divide: _arith(operator.floordiv),
    real.remainder: _arith(operator.mod),
    real.mod: _arith(operator.mod),
    real.power: _power,
    real.float_power: _power,
    real.negative: lambda x: -_num(x),
    real.positive: lambda x: _num(x),
    real.absolute: lambda x: abs(_num(x)),
    real.fabs: lambda x: abs(_num(x)),
    real.sqrt: _m("sqrt"),
    real.square: lambda x: _num(x) * _num(x),
    real.reciprocal: lambda x: 1 / _num(x),
    real.exp: _m("exp"),
    real.log: _m("log"),
    real.sin: _m("sin"),
    real.cos: _m("cos"),
    real.tan: _m("tan"),
    real.arctan: _m("arctan"),
    real.arcsin: _m("arcsin"),
    real.arccos: _m("arccos"),
    real.arctan2: _arctan2,
    real.hypot: lambda a, b: core.sym_sqrt(_num(a) * _num(a) + _num(b) * _num(b)),
    real.radians: _m("radians"),
    real.deg2rad: _m("radians"),
    real.degrees: _m("degrees"),
    real.rad2deg: _m("degrees"),
    real.sign: _m("sign"),
    real.floor: _m("floor"),
    real.ceil: _m("ceil"),
    real.trunc: _m("trunc"),
    real.less: _cmp(operator.lt),
    real.less_equal: _cmp(operator.le),
    real.greater: _cmp(operator.gt),
    real.greater_equal: _cmp(operator.ge),
    real.equal: _cmp(operator.eq),
    real.not_equal: _cmp(_ne),
    real.logical_and: _lg(lambda a, b: b_and(a, b)),
    real.logical_or: _lg(lambda a, b: b_or(a, b)),
    real.logical_xor: _lg(lambda a, b: b_or(b_and(a, b_not(b)), b_and(b_not(a), b))),
    real.bitwise_and: _lg(lambda a, b: b_and(a, b)),
    real.bitwise_or: _lg(lambda a, b: b_or(a, b)),
    real.logical_not: _lnot,
    real.invert: _lnot,
    real.bitwise_not: _lnot,
    real.maximum: maximum,
    real.minimum: minimum,
    real.fmax: maximum,
    real.fmin: minimum,
    real.isnan: _isnan,
    real.isfinite: lambda x: not _isnan(x),
    real.isinf: lambda x: False,
    real.conjugate: lambda x: x.conjugate() if hasattr(x, "conjugate") else x,
}
BOOL_OUT = {real.isnan, real.isfinite, real.isinf}

OK_TYPES = (real.ndarray, real.generic, int, float, complex, bool, list, tuple,
            Sym, CSym, SymBool, Fraction)


def _fin(out, was_scalar):
    if was_scalar:
        v = out[()] if isinstance(out, real.ndarray) else out
        return v
    flat = out.ravel()
    if out.size and all(isinstance(v, (bool, real.bool_)) for v in flat):
        return real.array([bool(v) for v in flat], dtype=bool).reshape(out.shape)
    return out.view(SymArray)


def _each(f, arrays, nan_shape=None):
    bc = real.broadcast_arrays(*[a.view(real.ndarray) for a in arrays]) if len(arrays) > 1 else [arrays[0].view(real.ndarray)]
    out = real.empty(bc[0].shape, dtype=object)
    flats = [b.ravel() for b in bc]
    of = out.reshape(-1) if out.ndim != 1 else out
    for i in range(out.size):
        v = f(*[fl[i] for fl in flats])
        if isinstance(v, SymBool) and v.op == "const":
            v = v.args[0]
        of[i] = v
    if out.ndim == 0:
        out = real.empty((), dtype=object)
        out[()] = of[0]
        return out
    return of.reshape(out.shape)


def _to_obj(x):
    if isinstance(x, real.ndarray):
        return wrap_arr(x)
    if isinstance(x, (list, tuple)):
        return wrap_arr(list(x))
    out = real.empty((), dtype=object)
    out[()] = _scalar(x)
    return out


def array_ufunc(ufunc, method, *inputs, **kwargs):
    for x in inputs:
        if not isinstance(x, OK_TYPES):
            if not hasattr(x, "__array__") or hasattr(x, "_binary_op") or hasattr(x, "__array_ufunc__"):
                return NotImplemented
    out = kwargs.pop("out", None)
    if RACE is not None:
        outs = (out if isinstance(out, tuple) else (out,)) if out is not None else ()
        for x in inputs:
            if isinstance(x, SymArray) and not any(x is o for o in outs):
                RACE.read_all(x)
        for o in outs:
            # whole-array updates of a shared array are reductions in numba
            if isinstance(o, SymArray) and not any(x is o for x in inputs):
                RACE.write_all(o)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if ufunc is real.matmul:
        a, b = (wrap_arr(x).view(real.ndarray) for x in inputs)
        return _round(_post(real.matmul(a, b)))
    f = UFUNC.get(ufunc)
    if f is None:
        raise Unsupported(f"ufunc {ufunc.__name__}")
    if method == "__call__":
        scal = all(
            not isinstance(x, (list, tuple)) and not (isinstance(x, real.ndarray) and x.ndim >= 0 and not (x.ndim == 0))
            for x in inputs
        )
        arrs = [_to_obj(x) for x in inputs]
        if where is not True:
            w = wrap_arr(where)
            if out is None:
                raise Unsupported("ufunc where without out")
            base = wrap_arr(out[0] if isinstance(out, tuple) else out)
            nin = len(arrs)
            res = _each(
                lambda *v: f(*v[:nin]) if bool(v[nin]) else v[nin + 1],
                arrs + [w, base],
            )
        else:
            res = _each(f, arrs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not isinstance(o, real.ndarray):
                raise Unsupported("out")
            if o.dtype != object:
                _store(o, res)
            else:
                if res.shape != o.shape:
                    if real.broadcast_shapes(res.shape, o.shape) != o.shape:
                        raise ValueError(
                            f"non-broadcastable output operand with shape {o.shape} "
                            f"doesn't match the broadcast shape {res.shape}"
                        )
                if getattr(o, "integers", False) and (
                    ufunc is real.divide or not all(_is_int(x) for x in inputs)
                ):
                    raise real._core._exceptions._UFuncOutputCastingError(
                        ufunc, "same_kind", real.dtype(float), real.dtype(int), 0
                    )
                real.ndarray.__setitem__(o, Ellipsis, res)
            return o
        return _fin(res, scal)
    if method == "reduce":
        a = wrap_arr(inputs[0])
        axis = kwargs.get("axis", 0)
        init = kwargs.get("initial", None)
        keep = kwargs.get("keepdims", False)
        if ufunc is real.logical_or:
            return _any(a, axis)
        if ufunc is real.logical_and:
            return _all(a, axis)
        ident = {real.add: ZERO, real.multiply: ONE}.get(ufunc)
        if init is not None and init is not real._NoValue:
            ident = _num(init)
        r = _reduce(f, a, axis, ident, keep)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                real.ndarray.__setitem__(o, Ellipsis, r)
                return o
        return r
    if method == "outer":
        a, b = (wrap_arr(x) for x in inputs)
        sa = a.reshape(a.shape + (1,) * b.ndim)
        return _fin(_each(f, [sa, b]), False)
    if method == "at":
        a, idx, b = inputs
        bb = real.broadcast_to(wrap_arr(b).view(real.ndarray), real.shape(idx))
        for i, v in zip(real.ravel(idx), real.ravel(bb)):
            a[i] = f(a[i], v)
        return None
    if method == "accumulate":
        a = wrap_arr(inputs[0])
        if a.ndim != 1:
            raise Unsupported("accumulate")
        out_ = []
        for v in a:
            out_.append(v if not out_ else f(out_[-1], v))
        return wrap_arr(out_)
    raise Unsupported(f"ufunc method {method}")


def _store(o, res):
    """Assign object results to a numeric array (only constants fit)."""
    for idx in itertools.product(*[range(n) for n in o.shape]):
        v = real.broadcast_to(res, o.shape)[idx]
        if isinstance(v, Sym) and v.is_const():
            v = float(v.c) if o.dtype.kind != "i" else int(v.c)
        elif is_sym(v):
            if isinstance(v, SymBool):
                v = bool(v)
            elif v is NAN:
                v = math.nan
            else:
                raise Unsupported("symbolic value stored in a numeric array")
        o[idx] = v


def _norm_axis(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(ax % a.ndim for ax in axis)


def _reduce(f, a, axis=None, ident=None, keepdims=False):
    a = wrap_arr(a)
    axes = _norm_axis(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = a.view(real.ndarray).transpose(keep + list(axes)) if a.ndim else a.view(real.ndarray)
    shape = tuple(a.shape[i] for i in keep)
    n = 1
    for ax in axes:
        n *= a.shape[ax]
    t = t.reshape(shape + (n,))
    out = real.empty(shape, dtype=object)
    for idx in itertools.product(*[range(s) for s in shape]):
        row = list(t[idx])
        if ident is None and not row:
            raise ValueError("zero-size array to reduction operation")
        acc = ident if ident is not None else row.pop(0)
        for v in row:
            acc = f(acc, v)
        out[idx] = acc
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else s for i, s in enumerate(a.shape)))
        return out.view(SymArray)
    if shape == ():
        return out[()]
    return out.view(SymArray)


def _any(a, axis=None, **k):
    r = _reduce(lambda x, y: b_or(x, y), wrap_arr(a), axis, core.FALSE)
    return _boolfin(r)


def _all(a, axis=None, **k):
    r = _reduce(lambda x, y: b_and(x, y), wrap_arr(a), axis, core.TRUE)
    return _boolfin(r)


def _boolfin(r):
    if isinstance(r, SymBool):
        return core.simplify_const(r)
    if isinstance(r, real.ndarray):
        return _fin(_map1(core.simplify_const, r).view(real.ndarray), False)
    return r


def _argext(a, better):
    flat = list(wrap_arr(a).ravel())
    best = 0
    for i in range(1, len(flat)):
        if bool(better(flat[i], flat[best])):
            best = i
    return best


def _map1(f, a):
    a = wrap_arr(a)
    out = real.empty(a.shape, dtype=object)
    for i, v in enumerate(a.ravel()):
        out.flat[i] = f(v)
    return out.view(SymArray)


def _post(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, real.ndarray) and r.dtype == object:
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(_post(x) for x in r)
    if isinstance(r, list):
        return [_post(x) for x in r]
    return r


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if isinstance(x, real.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(has_sym(v, depth - 1) for v in x.values())
    return False


def array_function(func, types, args, kwargs):
    name = func.__name__
    if RACE is not None:
        for x in args:
            if isinstance(x, SymArray):
                RACE.read_all(x)
    h = FUNCS.get(name) if func is getattr(real, name, None) else None
    if h is None and func is getattr(real.linalg, name, None):
        h = LINALG.get(name)
    if h is not None:
        return h(*args, **kwargs)

    def strip(x):
        if isinstance(x, SymArray):
            return x.view(real.ndarray)
        if isinstance(x, (Sym, CSym, SymBool)):
            return _to_obj(x).view(real.ndarray)
        if isinstance(x, list):
            return [strip(v) for v in x]
        if isinstance(x, tuple) and type(x) is tuple:
            return tuple(strip(v) for v in x)
        return x

    args = [strip(a) for a in args]
    kwargs = {k: strip(v) for k, v in kwargs.items()}
    return _post(func(*args, **kwargs))


# ------------------------------------------------------------ np functions


def _kind(dtype):
    if dtype is None:
        return "f"
    if dtype is object:
        return "O"
    return real.dtype(dtype).kind


def _filled(shape, value):
    out = real.empty(shape, dtype=object)
    out[...] = value if is_sym(value) else _scalar(value)
    return out.view(SymArray)


def _creation(fn, value):
    def g(shape, dtype=None, *a, **k):
        if active() and _kind(dtype) in "fcO":
            if isinstance(shape, Sym):
                shape = int(shape)
            return _filled(shape, value)
        return fn(shape, dtype or float, *a, **k)

    return g


def _creation_like(fn, value):
    def g(a, dtype=None, *r, **k):
        shape = k.pop("shape", None)
        if not active():
            return fn(a, dtype, *r, **k)
        a = real.asarray(a) if not isinstance(a, real.ndarray) else a
        kind = _kind(dtype) if dtype is not None else a.dtype.kind
        if kind in "fcO":
            out = _filled(shape if shape is not None else a.shape, ZERO if value is NAN and getattr(a, "integers", False) and dtype is None else value)
            out.integers = dtype is None and getattr(a, "integers", False)
            return out
        return fn(real.empty(shape if shape is not None else a.shape, dtype=a.dtype if dtype is None else dtype))

    return g


def full(shape, fill_value, dtype=None, **k):
    if active() and (has_sym(fill_value) or _kind(dtype) in "f"):
        if dtype is None and isinstance(fill_value, (bool, real.bool_)):
            return real.full(shape, fill_value, dtype, **k)
        if dtype is None and isinstance(fill_value, int):
            return real.full(shape, fill_value, dtype, **k)
        return _filled(shape, fill_value)
    return real.full(shape, fill_value, dtype, **k)


def full_like(a, fill_value, dtype=None, **k):
    if active() and (has_sym(fill_value) or has_sym(a)):
        ints = dtype is None and getattr(a, "integers", False)
        out = _filled(real.shape(a), truncated(fill_value) if ints else fill_value)
        out.integers = ints
        return out
    return real.full_like(a, fill_value, dtype, **k)


def array(x, dtype=None, *a, **k):
    if active():
        if isinstance(x, real.ndarray) and not k.get("copy", True):
            return x if dtype is None else x.astype(dtype)
        if has_sym(x) or (hasattr(x, "dtype") and getattr(x, "dtype", None) == object):
            if dtype is not None and _kind(dtype) not in "fcO":
                return wrap_arr(x).astype(dtype)
            r = wrap_arr(x).copy()
            if dtype is not None:
                r.integers = False
            return r
        r = real.array(x, dtype, *a, **k)
        if r.dtype.kind in "fc":
            return wrap_arr(r)
        if dtype is None and r.dtype == object and r.size and isinstance(r.flat[0], real.ndarray):
            pass
        return r
    return real.array(x, dtype, *a, **k)


PLACE = None  # number written to a file -> symbolic number it stands for


def placed(x):
    """Numbers read from a file: the symbolic ones they stand for."""
    if not PLACE:
        return x
    if isinstance(x, real.ndarray):
        if x.dtype.kind not in "iuf":
            return x
        out = real.empty(x.shape, dtype=object)
        for k in real.ndindex(x.shape):
            out[k] = PLACE.get(float(x[k]), x[k].item())
        return out.view(SymArray)
    if isinstance(x, (tuple, list)):
        return type(x)(placed(v) for v in x)
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return PLACE.get(float(x), x)
    return x


def _reader(name):
    fn = getattr(real, name)

    def read(*a, **k):
        r = fn(*a, **k)
        return placed(r) if active() and PLACE else r

    return read


class ReaderShim:
    """Module (array, struct) whose functions read numbers from bytes."""

    def __init__(self, mod, names):
        self._mod, self._names = mod, names

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if name not in self._names or not active() or not PLACE:
            return v

        def read(*a, **k):
            r = v(*a, **k)
            return placed(list(r) if not isinstance(r, (tuple, list)) else r)

        return read


def asarray(x, dtype=None, *a, **k):
    if active():
        if isinstance(x, SymArray):
            if dtype is None or (_kind(dtype) in "fcO" and not x.integers):
                return x
            return x.astype(dtype)
        if isinstance(x, real.ndarray) and x.dtype != object:
            if dtype is None and x.dtype.kind in "fc":
                return x
            return real.asarray(x, dtype, *a, **k)
        return array(x, dtype)
    return real.asarray(x, dtype, *a, **k)


def atleast(n):
    fn = {1: real.atleast_1d, 2: real.atleast_2d, 3: real.atleast_3d}[n]

    def g(*arys):
        if not active():
            return fn(*arys)
        out = []
        for x in arys:
            if hasattr(x, "_binary_op"):
                out.append(fn(x))
                continue
            x = asarray(x)
            while x.ndim < n:
                x = x[None] if x.ndim else x.reshape(1)
            out.append(x)
        return out[0] if len(out) == 1 else (tuple(out) if n > 0 else out)

    return g


def arange(*args, **k):
    if active() and has_sym(list(args)):
        args = [int(a) if isinstance(a, Sym) and False else a for a in args]
        start, stop, step = 0, None, 1
        if len(args) == 1:
            stop = args[0]
        elif len(args) == 2:
            start, stop = args
        else:
            start, stop, step = args[:3]
        out = []
        v = _num(start)
        while bool(v < stop):
            out.append(v)
            v = v + step
            if len(out) > 64:
                raise Unsupported("symbolic arange")
        return wrap_arr(out)
    return real.arange(*args, **k)


def linspace(start, stop, num=50, endpoint=True, **k):
    if active() and not k:
        num = int(num)
        if has_sym([start, stop]) or True:
            div = num - 1 if endpoint else num
            start, stop = _num(start), _num(stop)
            if div == 0:
                return wrap_arr([start][:num])
            out = [start + (stop - start) * i / div for i in range(num)]
            return wrap_arr(out)
    return real.linspace(start, stop, num, endpoint, **k)


def where(cond, *xy):
    if not xy:
        if has_sym(cond):
            return real.where(_obj_to_bool(wrap_arr(cond)))
        return real.where(cond)
    x, y = xy
    if has_sym(cond) or has_sym(x) or has_sym(y):
        return _fin(
            _each(lambda c, a, b: a if bool(c) else b, [_to_obj(cond), _to_obj(x), _to_obj(y)]),
            False,
        )
    return real.where(cond, x, y)


def clip(a, lo=None, hi=None, out=None, **k):
    if has_sym([a, lo, hi]):
        r = a
        if lo is not None:
            r = array_ufunc(real.maximum, "__call__", r, lo)
        if hi is not None:
            r = array_ufunc(real.minimum, "__call__", r, hi)
        if out is not None:
            out[...] = r
            return out
        return r
    return real.clip(a, lo, hi, out, **k)


def _close(a, b, rtol, atol):
    a, b = _num(a), _num(b)
    if a is NAN or b is NAN:
        return core.FALSE
    d = a - b
    rb = b * core.Sym(core.rationalize(rtol))
    at = core.Sym(core.rationalize(atol))
    up1, up2 = at + rb, at - rb  # one of them is atol + rtol*|b|
    return b_or(
        b_and(to_bool(rb >= 0), to_bool(d <= up1), to_bool(-d <= up1)),
        b_and(to_bool(rb < 0), to_bool(d <= up2), to_bool(-d <= up2)),
    )


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_sym([a, b]):
        scal = not isinstance(a, real.ndarray) and not isinstance(b, real.ndarray)
        return _fin(
            _each(lambda x, y: _close(x, y, rtol, atol), [_to_obj(a), _to_obj(b)]), scal
        )
    return real.isclose(a, b, rtol, atol, equal_nan)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if has_sym([a, b]):
        return bool(_all(_each(lambda x, y: _close(x, y, rtol, atol), [_to_obj(a), _to_obj(b)])))
    return real.allclose(a, b, rtol, atol, equal_nan)


def _red(name, f, ident):
    fn = getattr(real, name)

    def g(a, axis=None, **k):
        if has_sym(a):
            return _reduce(f, wrap_arr(a), axis, ident, k.get("keepdims", False) is True)
        return fn(a, axis=axis, **k)

    return g


def np_any(a, axis=None, **k):
    return _any(a, axis) if has_sym(a) else real.any(a, axis, **k)


def np_all(a, axis=None, **k):
    return _all(a, axis) if has_sym(a) else real.all(a, axis, **k)


def mean(a, axis=None, **k):
    if has_sym(a):
        return wrap_arr(a).mean(axis=axis)
    return real.mean(a, axis=axis, **k)


def sort(a, axis=-1, **k):
    if has_sym(a):
        a = wrap_arr(a)
        if a.ndim != 1:
            raise Unsupported("sort")
        out = []
        for v in a:
            i = len(out)
            while i > 0 and bool(v < out[i - 1]):
                i -= 1
            out.insert(i, v)
        return wrap_arr(out)
    return real.sort(a, axis, **k)


def argsort(a, axis=-1, **k):
    if has_sym(a):
        a = wrap_arr(a)
        if a.ndim != 1:
            raise Unsupported("argsort")
        out = []
        for j, v in enumerate(a):
            i = len(out)
            while i > 0 and bool(v < a[out[i - 1]]):
                i -= 1
            out.insert(i, j)
        return real.array(out, dtype=int)
    return real.argsort(a, axis, **k)


def diff(a, n=1, axis=-1, **k):
    if has_sym(a):
        a = wrap_arr(a)
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        return a[tuple(s1)] - a[tuple(s2)]
    return real.diff(a, n, axis, **k)


def isscalar(x):
    return is_sym(x) or real.isscalar(x)


def _short(x):
    """With constants as floating point numbers, products and inverses of
    matrices of constants are rounded too."""
    if core.numeric() and isinstance(x, Sym) and x.is_const() and not isinstance(x.c, int):
        return core._flt(float(x.c))
    return x


def _round(a):
    if not core.numeric():
        return a
    if not isinstance(a, real.ndarray):
        return _short(a)
    for i in real.ndindex(*a.shape):
        a[i] = _short(a[i])
    return a


def dot(a, b, **k):
    if has_sym([a, b]):
        a, b = wrap_arr(a), wrap_arr(b)
        return _round(_post(real.dot(a.view(real.ndarray), b.view(real.ndarray))))
    return real.dot(a, b, **k)


NORM_HOOK = None


def norm(x, ord=None, axis=None, **k):
    if has_sym(x):
        if NORM_HOOK is not None and axis is None and ord in (None, 2):
            return NORM_HOOK(x)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        x = wrap_arr(x)
        return (x * x).sum(axis=axis).__class__ and _sqrt_any((x * x).sum(axis=axis))
    return real.linalg.norm(x, ord, axis, **k)


def _sqrt_any(v):
    if isinstance(v, real.ndarray):
        return array_ufunc(real.sqrt, "__call__", v)
    return core._wrap(v).sqrt()


def det(m):
    m = wrap_arr(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    out = ZERO
    for j in range(n):
        minor = real.delete(real.delete(m.view(real.ndarray), 0, 0), j, 1)
        out = out + (1 if j % 2 == 0 else -1) * _num(m[0, j]) * det(minor)
    return out


INV_HOOK = None


def inv(m, *args, **k):
    if not has_sym(m):
        return real.linalg.inv(m)
    m = wrap_arr(m)
    n = m.shape[0]
    if m.ndim != 2 or m.shape[1] != n:
        raise Unsupported("inverse of a stack of matrices")
    if INV_HOOK is not None:
        return INV_HOOK(m)
    if core.numeric() and all(isinstance(v, Sym) and v.is_const() for v in m.view(real.ndarray).ravel()):
        return wrap_arr(real.linalg.inv(real.array(m.view(real.ndarray), dtype=float)))
    d = _num(det(m))
    out = real.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = ONE
            else:
                minor = real.delete(real.delete(m.view(real.ndarray), j, 0), i, 1)
                c = _num(det(minor))
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out.view(SymArray)


def solve(a, b, *args, **k):
    if has_sym([a, b]):
        return dot(inv(wrap_arr(a)), wrap_arr(b))
    return real.linalg.solve(a, b)


def nan_to_num(a, copy=True, nan=0.0, **k):
    if has_sym(a):
        return _map1(lambda v: _scalar(nan) if v is NAN else v, a)
    return real.nan_to_num(a, copy=copy, nan=nan, **k)


def iscomplexobj(x):
    if has_sym(x):
        return any(isinstance(v, CSym) for v in wrap_arr(x).ravel())
    return real.iscomplexobj(x)


def real_part(x):
    if isinstance(x, (Sym, CSym)):
        return x.real
    if has_sym(x):
        return wrap_arr(x).real
    return real.real(x)


def imag_part(x):
    if isinstance(x, (Sym, CSym)):
        return x.imag
    if has_sym(x):
        return wrap_arr(x).imag
    return real.imag(x)


def array_equal(a, b, **k):
    if has_sym([a, b]):
        a, b = wrap_arr(a), wrap_arr(b)
        if a.shape != b.shape:
            return False
        return bool(_all(_each(lambda x, y: to_bool(x == y), [a, b]))) if a.size else True
    return real.array_equal(a, b, **k)


def identity(n, dtype=None, **k):
    r = real.identity(n, dtype or float)
    return wrap_arr(r) if active() and _kind(dtype) in "fO" else r


def eye(n, m=None, k=0, dtype=float, **kw):
    r = real.eye(n, m, k, dtype)
    return wrap_arr(r) if active() and _kind(dtype) in "fO" else r


def fromiter(it, dtype=None, count=-1, **k):
    if active() and _kind(dtype) in "fO":
        return wrap_arr(list(it))
    return real.fromiter(it, dtype, count, **k)


def median(a, **k):
    if has_sym(a):
        s = sort(wrap_arr(a).ravel())
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    return real.median(a, **k)


class _Float64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (real.float64, Sym))


class float64(metaclass=_Float64Meta):
    """np.float64: conversion of a scalar and dtype."""

    dtype = real.dtype("float64")

    def __new__(cls, x=0.0):
        if active():
            if is_sym(x):
                return x
            if has_sym(x):
                return x
        return real.float64(x)


def gradient(f, *varargs, axis=None, edge_order=1):
    """numpy.gradient along one axis (second order, first order at the edges)."""
    if edge_order not in (1, 2) or axis is None or isinstance(axis, (tuple, list)) or len(varargs) != 1:
        raise Unsupported("this form of gradient")
    a = real.moveaxis(wrap_arr(f).view(real.ndarray), axis, 0)
    n = a.shape[0]
    x = wrap_arr(varargs[0]).ravel()
    if x.size == 1:
        x = [_num(x[0]) * k for k in range(n)]
    x = [_num(v) for v in x]
    out = real.empty(a.shape, dtype=object)
    for k in range(1, n - 1):
        h1, h2 = x[k] - x[k - 1], x[k + 1] - x[k]
        out[k] = (
            a[k - 1] * (-h2 / (h1 * (h1 + h2))) + a[k] * ((h2 - h1) / (h1 * h2)) + a[k + 1] * (h1 / (h2 * (h1 + h2)))
        )
    if edge_order == 1:
        out[0] = (a[1] - a[0]) / (x[1] - x[0])
        out[-1] = (a[-1] - a[-2]) / (x[-1] - x[-2])
    else:
        h1, h2 = x[1] - x[0], x[2] - x[1]
        out[0] = a[0] * (-(2 * h1 + h2) / (h1 * (h1 + h2))) + a[1] * ((h1 + h2) / (h1 * h2)) + a[2] * (-h1 / (h2 * (h1 + h2)))
        h1, h2 = x[-2] - x[-3], x[-1] - x[-2]
        out[-1] = a[-3] * (h2 / (h1 * (h1 + h2))) + a[-2] * (-(h2 + h1) / (h1 * h2)) + a[-1] * ((2 * h2 + h1) / (h2 * (h1 + h2)))
    return real.moveaxis(out, 0, axis).view(SymArray)


FUNCS = {
    "gradient": gradient,
    "where": where, "clip": clip, "isclose": isclose, "allclose": allclose,
    "any": np_any, "all": np_all, "mean": mean, "sort": sort, "argsort": argsort,
    "diff": diff, "dot": dot, "isscalar": isscalar,
    "sum": _red("sum", UFUNC[real.add], ZERO),
    "prod": _red("prod", UFUNC[real.multiply], ONE),
    "max": _red("max", maximum, None), "min": _red("min", minimum, None),
    "amax": _red("amax", maximum, None), "amin": _red("amin", minimum, None),
    "nanmax": _red("nanmax", lambda a, b: b if a is NAN else (a if b is NAN else maximum(a, b)), None),
    "nanmin": _red("nanmin", lambda a, b: b if a is NAN else (a if b is NAN else minimum(a, b)), None),
    "argmin": lambda a, axis=None, **k: _argext(a, lambda x, y: x < y),
    "argmax": lambda a, axis=None, **k: _argext(a, lambda x, y: x > y),
    "nan_to_num": nan_to_num, "iscomplexobj": iscomplexobj, "real": real_part,
    "imag": imag_part, "array_equal": array_equal, "median": median,
    "full_like": full_like,
    "zeros_like": lambda a, dtype=None, **k: _creation_like(real.zeros_like, ZERO)(a, dtype, **k),
    "ones_like": lambda a, dtype=None, **k: _creation_like(real.ones_like, ONE)(a, dtype, **k),
    "empty_like": lambda a, dtype=None, **k: _creation_like(real.empty_like, UNINIT)(a, dtype, **k),
}
LINALG = {"norm": norm, "solve": solve, "inv": inv, "det": det}


class _Uninit(core._NaN):
    """Contents of np.empty: reading them is like reading a NaN."""

    __slots__ = ()

    def __repr__(self):
        return "UNINIT"


UNINIT = NAN


class _LinalgProxy:
    def __getattr__(self, name):
        fn = getattr(real.linalg, name)
        h = LINALG.get(name)
        if h is None:
            return fn
        return lambda *a, **k: h(*a, **k) if active() and has_sym(list(a)) else fn(*a, **k)


class _ScipyLinalg:
    def __getattr__(self, name):
        import scipy.linalg

        fn = getattr(scipy.linalg, name)
        h = LINALG.get(name)
        if h is None:
            return fn
        return lambda *a, **k: h(*a, **k) if active() and has_sym(list(a)) else fn(*a, **k)


def _dense(x):
    return wrap_arr(x)


class _ScipySparse:
    """Sparse matrices of symbols are dense arrays (only @, .T, + and * by
    numbers are the same for both)."""

    def __getattr__(self, name):
        import scipy.sparse

        fn = getattr(scipy.sparse, name)
        over = {"diags": self._diags, "diags_array": self._diags, "hstack": self._hstack, "vstack": self._vstack,
                "csr_matrix": self._matrix, "csc_matrix": self._matrix, "csr_array": self._matrix, "csc_array": self._matrix}
        h = over.get(name)
        if h is None:
            return fn
        return lambda a, *r, **k: h(a, *r, **k) if active() else fn(a, *r, **k)

    @staticmethod
    def _diags(d, offsets=0, *a, **k):
        d = wrap_arr(d)
        if d.ndim == 2 and d.shape[0] == 1:
            d = d[0]
        if d.ndim != 1 or offsets not in (0, [0], (0,)):
            raise Unsupported("sparse diagonals")
        n = d.size
        out = real.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = _num(real.ndarray.__getitem__(d, i)) if i == j else ZERO
        return out.view(SymArray)

    @staticmethod
    def _hstack(blocks, *a, **k):
        return real.hstack([wrap_arr(b).view(real.ndarray) for b in blocks]).view(SymArray)

    @staticmethod
    def _vstack(blocks, *a, **k):
        return real.vstack([wrap_arr(b).view(real.ndarray) for b in blocks]).view(SymArray)

    @staticmethod
    def _matrix(m, *a, **k):
        return wrap_arr(m)


class ScipyProxy:
    """Replaces the module global ``scipy`` of the code under test."""

    linalg = _ScipyLinalg()
    sparse = _ScipySparse()

    def __getattr__(self, name):
        import scipy

        return getattr(scipy, name)


SCIPY = ScipyProxy()


class NPProxy:
    """Replaces the module global ``np`` of the code under test."""

    _over = {
        "zeros": _creation(real.zeros, ZERO),
        "ones": _creation(real.ones, ONE),
        "empty": _creation(real.empty, UNINIT),
        "zeros_like": _creation_like(real.zeros_like, ZERO),
        "ones_like": _creation_like(real.ones_like, ONE),
        "empty_like": _creation_like(real.empty_like, UNINIT),
        "full": full, "full_like": full_like, "array": array, "asarray": asarray,
        "asanyarray": asarray, "ascontiguousarray": asarray,
        "atleast_1d": atleast(1), "atleast_2d": atleast(2),
        "arange": arange, "linspace": linspace, "where": where, "clip": clip,
        "isclose": isclose, "allclose": allclose, "any": np_any, "all": np_all,
        "mean": mean, "sort": sort, "argsort": argsort, "isscalar": isscalar,
        "identity": identity, "eye": eye, "fromiter": fromiter,
        "iscomplexobj": iscomplexobj, "float64": float64, "nan_to_num": nan_to_num,
        "array_equal": array_equal, "median": median, "dot": dot,
        "min": FUNCS["min"], "max": FUNCS["max"], "sum": FUNCS["sum"],
        "argmin": lambda a, **k: FUNCS["argmin"](a, **k) if has_sym(a) else real.argmin(a, **k),
        "linalg": _LinalgProxy(),
        "loadtxt": _reader("loadtxt"), "genfromtxt": _reader("genfromtxt"), "frombuffer": _reader("frombuffer"),
        "fromfile": _reader("fromfile"),
    }

    def __getattr__(self, name):
        if core.ENGINE is None:
            if RACE is not None:
                from . import race

                if name in race.CREATES:
                    return race.creation(getattr(real, name))
            return getattr(real, name)
        if name == "pi":
            return core.pi()
        if name == "nan":
            return NAN
        o = self._over.get(name)
        if o is not None:
            return o
        u = getattr(real, name)
        if isinstance(u, real.ufunc) and u in UFUNC:
            return _ufunc_wrapper(u)
        return u

    def __dir__(self):
        return dir(real)


_WRAPPERS = {}


def _has_plain_obj(x):
    return isinstance(x, real.ndarray) and x.dtype == object and not isinstance(x, SymArray)


class _UfuncWrapper:
    """Ufunc that also treats plain object arrays and exact constants."""

    def __init__(self, u):
        self.u = u

    def __call__(self, *args, **kwargs):
        if any(_has_plain_obj(a) for a in args) and all(isinstance(a, OK_TYPES) for a in args):
            return array_ufunc(self.u, "__call__", *args, **kwargs)
        for a in args:
            if hasattr(a, "_binary_op") and getattr(a, "dtype", None) == object:
                # xarray container of symbolic values
                import xarray as xr

                return xr.apply_ufunc(
                    lambda *v: array_ufunc(self.u, "__call__", *v), *args
                )
        if (
            self.u in EXACT
            and len(args) == 1
            and not is_sym(args[0])
            and isinstance(args[0], (int, float, real.generic))
            and not isinstance(args[0], (complex, real.complexfloating))
        ):
            return array_ufunc(self.u, "__call__", core._wrap(args[0]))
        if (
            self.u in EXACT
            and isinstance(args[0], real.ndarray)
            and args[0].dtype.kind in "fiu"
        ):
            return array_ufunc(self.u, "__call__", wrap_arr(args[0]))
        return self.u(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self.u, name)


EXACT = {real.sqrt, real.sin, real.cos, real.tan, real.radians, real.deg2rad,
         real.arctan, real.arcsin, real.arccos, real.exp, real.log, real.degrees}


def _ufunc_wrapper(u):
    w = _WRAPPERS.get(u)
    if w is None:
        w = _WRAPPERS[u] = _UfuncWrapper(u)
    return w


class MathProxy:
    def __getattr__(self, name):
        f = getattr(math, name)
        if core.ENGINE is None:
            return f
        if name == "pi":
            return core.pi()
        table = {
            "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp",
            "log": "log", "radians": "radians", "degrees": "degrees", "atan": "arctan",
            "asin": "arcsin", "acos": "arccos", "fabs": "fabs", "floor": "floor",
            "ceil": "ceil",
        }
        if name in table:
            def g(*a):
                if any(is_sym(x) for x in a):
                    return getattr(core._wrap(a[0]), table[name])()
                return f(*a)
            return g
        if name == "atan2":
            return lambda y, x: core.sym_arctan2(core._wrap(y), core._wrap(x)) if is_sym(y) or is_sym(x) else f(y, x)
        if name in ("isnan", "isfinite", "isinf"):
            return lambda x: ({"isnan": _isnan(x), "isfinite": not _isnan(x), "isinf": False}[name]) if is_sym(x) else f(x)
        if name == "prod":
            def p(it, start=1):
                for v in it:
                    start = start * v
                return start
            return p
        return f


def prod_shim(it, *, start=1):
    for v in it:
        start = start * v
    return start


def float_shim_factory():
    class _FloatMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, float)

        def __call__(cls, x=0.0):
            if is_sym(x):
                return x if not isinstance(x, SymBool) else x.as_number()
            if isinstance(x, real.ndarray) and x.dtype == object and x.size == 1:
                float(real.zeros(x.shape))  # an error where numpy has one
                return x.ravel()[0]
            if isinstance(x, str) and PLACE and active():
                return placed(float(x))
            return float(x)

    class float_(metaclass=_FloatMeta):
        pass

    return float_


NP = NPProxy()
MATH = MathProxy()
