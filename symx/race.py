"""
Footprints of the iterations of parallel loops.

While a ``Tracker`` is active, numba's ``prange(n)`` runs the body of the loop
twice, for two symbolic iterations i and j with 0 <= i, j < n and i != j. Every
access to an array that exists outside of the loop is recorded as a symbolic
address (position in memory of the array plus the index times the strides).
Reading an element at a symbolic index gives any number (the same one when the
iteration reads it again, or what the iteration itself wrote there). Arrays
created inside of the loop are private, as in numba.

With numbers (replays) all the iterations run one by one on plain arrays that
record their footprints.
"""
import numpy as real

from . import core, snp, target
from .core import Sym


class Tracker:
    active = None

    def __init__(self, H):
        self.H = H
        self.inside = False
        self.loop = 0
        self.serial = 1
        self.log = []       # accesses of the running loop: one list per iteration
        self.loops = 0
        self.accesses = 0

    # ----------------------------------------------------------- the context
    def __enter__(self):
        self.old = target.PRANGE_HOOK, Tracker.active, snp.RACE
        target.PRANGE_HOOK = self.prange
        Tracker.active = self
        snp.RACE = self
        return self

    def __exit__(self, *a):
        target.PRANGE_HOOK, Tracker.active, snp.RACE = self.old

    # --------------------------------------------------------------- the loop
    def prange(self, *args):
        if self.inside:
            yield from range(*[int(a) for a in args])
            return
        H = self.H
        n = args if len(args) > 1 else (0, args[0])
        if len(n) > 2 and n[2] != 1:
            raise core.Unsupported("step of a parallel loop")
        lo, hi = int(n[0]), int(n[1])
        self.loops += 1
        k = self.loops
        self.log = []
        if H.symbolic:
            i, j = H.integer(f"loop{k}_i", lo, hi - 1), H.integer(f"loop{k}_j", lo, hi - 1)
            H.assume(H.no(i == j))
            its = [i, j]
        else:
            H.integer(f"loop{k}_i", lo, hi - 1)
            its = list(range(lo, hi))
        self.its = its
        for it in its:
            self.log.append([])
            self.local = {}
            self.serial += 1
            self.inside = True
            yield it
            self.inside = False
            self.serial += 1
        self.verdict(f"loop {k}")

    def verdict(self, label):
        H = self.H
        log = self.log
        if not H.symbolic:
            w = [{a for kind, a in x if kind == "w"} for x in log]
            al = [{a for kind, a in x} for x in log]
            for p in range(len(log)):
                for q in range(len(log)):
                    if p != q:
                        both = w[p] & al[q]
                        H.prove(not both, f"{label}: iterations {self.its[p]} and {self.its[q]} share elements and one writes them")
            return
        if len(log) != 2:
            raise core.Unsupported("parallel loop left before its end")
        self.accesses += sum(len(x) for x in log)
        seen = set()
        for p, q in ((0, 1), (1, 0)):
            wp = {a for kind, a in log[p] if kind == "w"}
            for a in wp:
                for b in {b for _, b in log[q]}:
                    d = core._wrap(a) - core._wrap(b)
                    if d.key() in seen:
                        continue
                    seen.add(d.key())
                    H.prove(H.no(d == 0), f"{label}: two iterations share elements and one writes them")

    # ----------------------------------------------------------- the accesses
    def record(self, kind, addresses):
        got = self.log[-1]
        for a in addresses:
            got.append((kind, a))

    def shared(self, arr):
        return self.inside and getattr(arr, "_born", 0) < self.serial

    def whole(self, arr):
        base = arr.__array_interface__["data"][0] // arr.itemsize
        out = [base]
        for n, s in zip(arr.shape, arr.strides):
            out = [a + k * (s // arr.itemsize) for a in out for k in range(n)]
        return out

    def read_all(self, arr):
        if self.shared(arr):
            self.record("r", self.whole(arr))

    def write_all(self, arr):
        if self.shared(arr):
            self.record("w", self.whole(arr))

    def symbolic_key(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return any(isinstance(k, Sym) and not k.is_const() for k in key)

    def place(self, arr, key):
        """Addresses of arr[key] (some index symbolic) and shape of arr[key]."""
        key = list(key) if isinstance(key, tuple) else [key]
        if Ellipsis in [k for k in key if not isinstance(k, (Sym, real.ndarray))]:
            p = [k is Ellipsis for k in key].index(True)
            key[p:p + 1] = [slice(None)] * (arr.ndim - len(key) + 1)
        key += [slice(None)] * (arr.ndim - len(key))
        out = [core._wrap(arr.__array_interface__["data"][0] // arr.itemsize)]
        shape = []
        for k, n, s in zip(key, arr.shape, arr.strides):
            s //= arr.itemsize
            if isinstance(k, slice):
                idx = range(*k.indices(n))
                shape.append(len(idx))
            elif isinstance(k, (int, real.integer, Sym)):
                idx = [k]
                if isinstance(k, (int, real.integer)) and k < 0:
                    idx = [k + n]
            else:
                raise core.Unsupported("index of a parallel loop")
            out = [a + i * s for a in out for i in idx]
        return out, tuple(shape)

    def get(self, arr, key):
        at, shape = self.place(arr, key)
        self.record("r", at)
        vals = []
        for a in at:
            if a not in self.local:
                self.local[a] = self.H.real(f"any{len(self.log)}_{len(self.local)}_{self.loops}")
            vals.append(self.local[a])
        if not shape:
            return vals[0]
        return self.H.array(vals).reshape(shape)

    def set(self, arr, key, value):
        at, shape = self.place(arr, key)
        self.record("w", at)
        v = real.broadcast_to(snp.wrap_arr(value).view(real.ndarray), shape)
        for a, x in zip(at, v.ravel()):
            self.local[a] = x


class RaceArray(real.ndarray):
    """Plain array that records its footprints."""

    def __array_finalize__(self, obj):
        t = Tracker.active
        if isinstance(obj, RaceArray) and self.base is not None:
            self._born = getattr(obj, "_born", 0)
        else:
            self._born = t.serial if t is not None else 0

    def __getitem__(self, key):
        t = Tracker.active
        r = real.ndarray.__getitem__(self, key)
        if t is not None and t.shared(self):
            if isinstance(r, real.ndarray):
                if r.base is None:
                    t.read_all(self)
                else:
                    return r  # a view: recorded when it is used
            else:
                t.record("r", t.whole(self._spot(key)))
        return r

    def _spot(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return real.ndarray.__getitem__(self, tuple(slice(k, k + 1 or None) for k in key))

    def __setitem__(self, key, value):
        t = Tracker.active
        if t is not None and t.shared(self):
            v = real.ndarray.__getitem__(self, key)
            if not isinstance(v, real.ndarray):
                t.record("w", t.whole(self._spot(key)))
            elif v.base is not None:
                t.record("w", t.whole(v))
            else:
                t.write_all(self)
        if isinstance(value, RaceArray):
            if t is not None:
                t.read_all(value)
            value = value.view(real.ndarray)
        real.ndarray.__setitem__(self, key, value)

    def __iter__(self):
        return (self[k] for k in range(len(self)))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        t = Tracker.active
        out = kwargs.get("out", ())
        if t is not None:
            for x in inputs:
                if isinstance(x, RaceArray) and not any(x is o for o in out):
                    t.read_all(x)
            for o in out:
                # whole-array updates of a shared array are reductions in numba
                if isinstance(o, RaceArray) and not any(x is o for x in inputs):
                    t.write_all(o)
        if out:
            kwargs["out"] = tuple(o.view(real.ndarray) if isinstance(o, RaceArray) else o for o in out)
        r = getattr(ufunc, method)(*[x.view(real.ndarray) if isinstance(x, RaceArray) else x for x in inputs], **kwargs)
        if out:
            return out[0]
        return r.view(RaceArray) if isinstance(r, real.ndarray) else r


def creation(fn):
    """numpy function that gives an array, for runs with numbers."""

    def f(*a, **k):
        r = fn(*a, **k)
        return r.view(RaceArray) if type(r) is real.ndarray and r.dtype != object else r

    return f


CREATES = {"zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "full", "full_like", "array", "asarray", "arange"}
