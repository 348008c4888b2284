"""
Obligations: one harness function, run in two modes.

* symbolic: inputs are SMT variables, ``prove`` is decided by the solver on
  every path of the real code;
* concrete: the same function with numbers on the untouched numpy code; used
  to replay counterexamples (only those that reproduce are reported) and to
  run one model of each explored path (vacuity and encoding check).
"""
import contextlib
import json
import math
import multiprocessing
import os
import random
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, snp
from .core import (
    Infeasible, Sym, SymBool, Undefined, Unsupported, b_and, b_iff, b_implies,
    b_not, b_or, to_bool,
)
from .engine import STOP, Engine


PATCHES = []  # replacements in force: (module, attribute, original, stand-in)


@contextlib.contextmanager
def unpatched():
    """The modules as they are without the stand-ins of the running harness."""
    here = list(PATCHES)
    for mod, attr, old, _ in reversed(here):
        setattr(mod, attr, old)
    PATCHES.clear()
    try:
        yield
    finally:
        PATCHES[:] = here
        for mod, attr, _, value in here:
            setattr(mod, attr, value)


class SkipReplay(Exception):
    """Concrete values fall outside the assumptions."""


class CheckFailed(Exception):
    pass


class Obligation:
    def __init__(self, prop, name, fn, functions, bounds, tier, opts, kwargs):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions, self.bounds, self.tier = functions, bounds, tier
        self.opts, self.kwargs = opts, kwargs

    def run(self, H):
        return self.fn(H, **self.kwargs)


REGISTRY = {}


def obligation(prop, functions, bounds, name=None, tier="quick", params=None, **opts):
    """Decorator. ``params``: list of dicts, one obligation per entry."""

    def deco(fn):
        base = name or fn.__name__
        for kw in params or [{}]:
            kw = dict(kw)
            t = kw.pop("_tier", tier)
            o = dict(opts)
            for k in list(kw):
                if k.startswith("_") and k != "_tier":
                    o[k[1:]] = kw.pop(k)
            suffix = ",".join(f"{k}={_short(v)}" for k, v in kw.items())
            nm = f"{base}[{suffix}]" if suffix else base
            REGISTRY.setdefault(prop, []).append(
                Obligation(prop, nm, fn, functions, bounds, t, o, kw)
            )
        return fn

    return deco


def _homes(module, attr):
    """The module, or (code that moved) the ones of the package that have the
    name."""
    import importlib
    import sys

    try:
        mod = importlib.import_module(module)
        getattr(mod, attr)
        return [mod]
    except (ImportError, AttributeError) as e:
        if not module.startswith("harmonica"):
            raise Unsupported(f"name not found: {module}.{attr}") from e
        got = [m for n, m in sorted(sys.modules.items())
               if n.startswith("harmonica.") and m is not None and attr in vars(m)]
        if not got or len({id(vars(m)[attr]) for m in got}) != 1:
            raise Unsupported(f"internal name not found: {module}.{attr}") from e
        return got


def _short(v):
    s = str(v)
    return s if len(s) <= 40 else s[:37] + "..."


# ------------------------------------------------------------------ contexts


class Ctx:
    def uid(self, name):
        return name

    # helpers shared by both modes (work on Sym and on floats)
    def sqrt(self, x):
        return x.sqrt() if isinstance(x, Sym) else (core._wrap(x).sqrt() if self.symbolic else math.sqrt(x))

    def sin(self, x):
        return core.trig(core._wrap(x))[1] if self.symbolic else math.sin(x)

    def cos(self, x):
        return core.trig(core._wrap(x))[0] if self.symbolic else math.cos(x)

    def exp(self, x):
        return core.sym_exp(core._wrap(x)) if self.symbolic else math.exp(x)

    def log(self, x):
        return core.sym_log(core._wrap(x)) if self.symbolic else math.log(x)

    def arctan2(self, y, x):
        return core.sym_arctan2(core._wrap(y), core._wrap(x)) if self.symbolic else math.atan2(y, x)

    def abs(self, x):
        return abs(x)

    @property
    def pi(self):
        return core.pi() if self.symbolic else math.pi

    def rad(self, x):
        return x * self.pi / 180

    def deg(self, x):
        return x * 180 / self.pi

    def rounded(self, x):
        return core.rounded(x) if self.symbolic else x

    def frac(self, a, b=1):
        return Sym(core._q(Fraction(a, b))) if self.symbolic else a / b

    def const(self, x):
        """Exact number from a decimal float."""
        return core._wrap(x) if self.symbolic else x

    def reals(self, prefix, n, lo=None, hi=None):
        return [self.real(f"{prefix}{i}", lo, hi) for i in range(n)]

    def raises(self, fn, exc=ValueError):
        """(raised?, value)."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc as e:
            return True, e
        return False, r

    def warns(self, fn):
        """(value, list of warning categories)."""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
        skip = (np.exceptions.ComplexWarning, RuntimeWarning, DeprecationWarning, FutureWarning)
        return r, [x.category for x in w if not issubclass(x.category, skip)]

    def internal(self, module, attr):
        """Function or constant that is not part of the public API."""
        return getattr(_homes(module, attr)[0], attr)

    def derivative(self, f, x, step=1e-4):
        """Derivative of f(x) with respect to x: exact from the expression of
        f in symbolic runs, by differences with numbers."""
        if self.symbolic:
            y = f(x)
            if isinstance(y, (tuple, list)):
                return [core.diff(core._wrap(v), x) for v in y]
            if isinstance(y, np.ndarray):
                out = np.empty(y.shape, dtype=object)
                for k in np.ndindex(y.shape):
                    out[k] = core.diff(core._wrap(np.ndarray.__getitem__(y, k)), x)
                return out.view(snp.SymArray)
            return core.diff(core._wrap(y), x)
        h = step * max(1.0, abs(x))

        def g(v):
            y = f(v)
            return np.array(y) if isinstance(y, (tuple, list)) else y

        return (8 * (g(x + h) - g(x - h)) - (g(x + 2 * h) - g(x - 2 * h))) / (12 * h)

    @contextlib.contextmanager
    def patched(self, *items):
        """Temporarily replace internals: (module, attribute, value)."""
        done = []
        try:
            for module, attr, value in items:
                for mod in _homes(module, attr):
                    old = getattr(mod, attr)
                    done.append((mod, attr, old))
                    PATCHES.append((mod, attr, old, value))
                    setattr(mod, attr, value)
            yield
        finally:
            for mod, attr, old in reversed(done):
                setattr(mod, attr, old)
                PATCHES.pop()

    def lay(self, kind, v):
        """Four values in an array of a given shape and memory order."""
        if kind == "2d":
            return self.array([[v[0], v[1]], [v[2], v[3]]])
        if kind == "transposed":
            return self.array([[v[0], v[2]], [v[1], v[3]]]).T
        if kind == "strided":
            return self.array([v[0], 7, v[1], 8, v[2], 9, v[3], 7])[::2]
        if kind == "reversed":
            return self.array([v[3], v[2], v[1], v[0]])[::-1]
        if kind == "column":
            return self.array([[v[0]], [v[1]], [v[2]], [v[3]]])
        if kind == "list":
            return list(v)
        return self.array(v)

    @contextlib.contextmanager
    def file_numbers(self):
        """Gives put(value, kind): the number to write to a file (as the type
        of that code of the struct module) for a symbolic value."""
        if not self.symbolic:
            yield lambda v, kind="d": int(round(v)) if kind in "bBhHiIqQ" else v
            return
        first = dict(b=-21, B=130, h=-1000, H=40000, i=-100000, I=3000000000, f=1000.5, d=2000.5)
        place = {}

        def put(v, kind="d"):
            v = core._wrap(v)
            if v.is_const():
                return float(v) if kind in "fd" else int(v)
            n = first[kind] + (-1 if first[kind] < 0 else 1) * len(place)
            place[float(n)] = v
            return n

        old, snp.PLACE = snp.PLACE, place
        try:
            yield put
        finally:
            snp.PLACE = old

    @contextlib.contextmanager
    def inverses(self):
        """Inverses of matrices: any matrix X such that M X = I. Gives the
        list of (M, X), filled as the code asks for them."""
        done = []
        if not self.symbolic:
            import scipy.linalg

            old = scipy.linalg.inv, np.linalg.inv

            def wrap(fn):
                def f(m, *a, **k):
                    x = fn(m, *a, **k)
                    done.append((np.array(m), np.array(x)))
                    return x
                return f

            scipy.linalg.inv, np.linalg.inv = wrap(old[0]), wrap(old[1])
            try:
                yield done
            finally:
                scipy.linalg.inv, np.linalg.inv = old
            return

        def hook(m):
            k = len(done)
            n = m.shape[0]
            x = self.array([[self.real(f"inverse{k}_{i}{j}") for j in range(n)] for i in range(n)])
            done.append((m.copy(), x))
            return x.copy()

        old = snp.INV_HOOK
        snp.INV_HOOK = hook
        try:
            yield done
        finally:
            snp.INV_HOOK = old

    @contextlib.contextmanager
    def any_norms(self):
        """Norms of vectors: any numbers that are not negative."""
        done = []

        def hook(x):
            done.append(x)
            return self.real(f"norm{len(done)}", 0)

        old = snp.NORM_HOOK
        snp.NORM_HOOK = hook if self.symbolic else None
        try:
            yield done
        finally:
            snp.NORM_HOOK = old

    def races(self):
        """Context that looks for races in the parallel loops."""
        from . import race

        return race.Tracker(self)

    @contextlib.contextmanager
    def order(self, pick):
        """The iterations of parallel loops run in another order."""
        from . import target

        old = target.PRANGE_HOOK
        target.PRANGE_HOOK = lambda *a: pick(list(range(*[int(v) for v in a])))
        try:
            yield
        finally:
            target.PRANGE_HOOK = old

    def kernel(self, name):
        from . import target

        return target.KERNELS[name]


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng, ob, runner):
        self.eng = eng
        self.ob = ob
        self.runner = runner
        self.n_proved = 0
        self.labels = set()

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        s = core.new_var(name, None if lo is None else core.rationalize(lo), None if hi is None else core.rationalize(hi))
        self.eng.inputs[name] = ("real", s)
        if lo_strict and lo is not None:
            self.eng.add_fact(to_bool(s > core._wrap(lo)))
        if hi_strict and hi is not None:
            self.eng.add_fact(to_bool(s < core._wrap(hi)))
        return s

    def integer(self, name, lo, hi):
        s = core.new_var(name, lo, hi, integer=True)
        self.eng.inputs[name] = ("int", s)
        return s

    def boolean(self, name):
        b = SymBool("var", (name,))
        self.eng.inputs[name] = ("bool", b)
        return b

    def decide(self, name):
        """Symbolic boolean, forked right away."""
        return bool(self.boolean(name))

    def choice(self, name, n):
        """Integer in range(n), forked right away."""
        i = self.integer(name, 0, n - 1)
        return self.eng.concretize_int(i)

    def array(self, x):
        return snp.wrap_arr(x).copy()

    def int_array(self, x):
        return snp.int_array(x)

    nan = core.NAN

    def assume(self, cond):
        self.eng.assume(to_bool(cond))

    def both(self, *c):
        return b_and(*c)

    def either(self, *c):
        return b_or(*c)

    def no(self, c):
        return b_not(to_bool(c))

    def implies(self, a, b):
        return b_implies(to_bool(a), to_bool(b))

    def iff(self, a, b):
        return b_iff(to_bool(a), to_bool(b))

    def prove(self, cond, label):
        cond = to_bool(cond)
        eng = self.eng
        self.labels.add(label)
        self.n_proved += 1
        if cond.op == "const" and cond.args[0]:
            eng.stats.normalised += 1
            return
        if cond.op == "and":
            self.n_proved -= 1
            for a in cond.args:
                self.prove(a, label)
            return
        if eng._lookup(cond) is True:
            eng.stats.normalised += 1
            return
        neg = b_not(cond)
        if eng.light and eng.light_unsat(neg, 3.0):
            eng.stats.proved += 1
            return
        r, model = eng.check(neg, self.runner.prove_timeout, everything=False)
        if r is False:
            eng.stats.proved += 1
            if len(core.ATOMS) < 40 and self.runner.ob.opts.get("lemmas", True):
                eng.add_fact(cond)
            return
        if r is None:
            self.runner.unknown(self, label, neg)
            return
        self.runner.candidate(self, label, neg)

    def equal(self, a, b, label, rtol=None, scale=None):
        for x, y, lab in self.runner.pairs(a, b, label):
            if x is None:
                self.prove(core.FALSE, lab)
                continue
            c = _eq_cond(x, y)
            if c.op == "const" and c.args[0]:
                self.labels.add(lab)
                self.n_proved += 1
                if self.confirm(x, y):
                    self.eng.stats.proved += 1
                else:
                    self.eng.stats.normalised += 1
                continue
            self.prove(c, lab)

    def confirm(self, x, y):
        x, y = snp._scalar(x), snp._scalar(y)
        if isinstance(x, core.CSym) and isinstance(y, core.CSym):
            return self.confirm(x.re, y.re) and self.confirm(x.im, y.im)
        if isinstance(x, Sym) and isinstance(y, Sym) and x is not core.NAN:
            if x.is_const() and y.is_const():
                return False
            if len(self.runner.ob.opts.get("noconfirm", "")):
                return False
            return self.eng.confirm_equal(x, y)
        return False

    def nonneg(self, a, label, tol=None):
        self.prove(to_bool(a >= 0), label)

    def snp(self):
        return snp.NP

    @contextlib.contextmanager
    def kernels(self, mode):
        old = getattr(self.eng, "kernel_mode", None)
        self.eng.kernel_mode = mode
        try:
            yield
        finally:
            self.eng.kernel_mode = old


def _eq_cond(x, y):
    x, y = snp._scalar(x), snp._scalar(y)
    if isinstance(x, core.CSym) or isinstance(y, core.CSym):
        x, y = core.CSym.wrap(x), core.CSym.wrap(y)
        return b_and(_eq_cond(x.re, y.re), _eq_cond(x.im, y.im))
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return b_iff(x, y)
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return to_bool(x == y)
    if x is core.NAN or y is core.NAN:
        return to_bool(x is y)
    x, y = snp._num(x), snp._num(y)
    if isinstance(x, Sym) and isinstance(y, Sym):
        return to_bool(x == y)
    return to_bool(x == y)


class ConcCtx(Ctx):
    symbolic = False
    nan = math.nan

    def __init__(self, values):
        self.values = values
        self.failures = []
        self.checked = 0

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 1)
        v = float(v)
        if lo is not None and (v < lo or (lo_strict and v == lo)):
            if v < lo - 1e-12 * max(1, abs(lo)) or lo_strict:
                raise SkipReplay(name)
            v = float(lo)
        if hi is not None and (v > hi or (hi_strict and v == hi)):
            if v > hi + 1e-12 * max(1, abs(hi)) or hi_strict:
                raise SkipReplay(name)
            v = float(hi)
        return v

    def integer(self, name, lo, hi):
        v = self.values.get(name)
        return int(lo if v is None else v)

    def boolean(self, name):
        return bool(self.values.get(name, False))

    decide = boolean

    def choice(self, name, n):
        return self.integer(name, 0, n - 1)

    def array(self, x):
        r = np.array(x, dtype=float) if not _has_obj(x) else np.array(x)
        if snp.RACE is not None:
            from . import race

            return r.view(race.RaceArray)
        return r

    def int_array(self, x):
        return np.array(x, dtype=int)

    def assume(self, cond):
        if not _truth(cond):
            raise SkipReplay("assumption")

    def both(self, *c):
        return all(_truth(x) for x in c)

    def either(self, *c):
        return any(_truth(x) for x in c)

    def no(self, c):
        return not _truth(c)

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def iff(self, a, b):
        return _truth(a) == _truth(b)

    def prove(self, cond, label):
        self.checked += 1
        if not _truth(cond):
            self.failures.append(label)

    def nonneg(self, a, label, tol=1e-9):
        self.checked += 1
        if not a >= -abs(tol if tol is not None else 1e-9):
            self.failures.append(label)

    def equal(self, a, b, label, rtol=None, scale=None):
        rtol = 1e-6 if rtol is None else rtol
        for x, y, lab in _pairs(a, b, label):
            self.checked += 1
            if x is None:
                self.failures.append(lab)
                continue
            if isinstance(x, np.generic):
                x = x.item()
            if isinstance(y, np.generic):
                y = y.item()
            if isinstance(x, (str, bool)) or x is None or isinstance(y, (str, bool)) or y is None:
                if x != y:
                    self.failures.append(lab)
                continue
            nx, ny = x != x, y != y
            if nx or ny:
                if nx != ny:
                    self.failures.append(lab)
                continue
            if x == y:
                continue
            s = max(abs(x), abs(y), float(scale) if scale is not None else 0.0)
            if not abs(x - y) <= rtol * s + 1e-300:
                if scale is None and abs(x - y) < 1e-13:
                    continue
                self.failures.append(f"{lab}: {x!r} != {y!r}")

    def snp(self):
        return np

    @contextlib.contextmanager
    def kernels(self, mode):
        yield


def _has_obj(x):
    return any(isinstance(v, complex) for v in np.ravel(np.array(x, dtype=object)))


def _truth(c):
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)


# ------------------------------------------------------------------- runner


class Runner:
    def __init__(self, ob, tier, seed, deadline):
        self.ob = ob
        self.tier = tier
        self.seed = seed
        o = ob.opts
        k = 1 if tier == "quick" else 4
        self.query_timeout = o.get("query_timeout", 4.0) * k
        self.prove_timeout = o.get("prove_timeout", 20.0) * k
        self.max_paths = o.get("max_paths", 200) * (1 if tier == "quick" else 5)
        self.witness_paths = o.get("witness_paths", 4)
        self.domain = o.get("domain", "check")
        self.deadline = deadline
        self.violation = None
        self.unreproduced = []
        self.unknowns = []
        self.unsupported = []
        self.undefined = []
        self.witness_ok = 0
        self.witness_skip = 0
        self.reached = 0
        self.rng = random.Random(seed)
        self.samples = []

    @staticmethod
    def pairs(_self, a, b=None, label=None):
        if label is None:  # called through an instance: (a, b, label)
            raise TypeError
        return _pairs(a, b, label)

    # -- events
    def unknown(self, H, label, neg):
        """Solver gave no answer: look for a failing input anyway."""
        self.unknowns.append(label)
        if len(self.unknowns) <= 2:
            self.try_values(H, label, core.TRUE, count=2, why="after unknown")

    def candidate(self, H, label, neg):
        ok = self.try_values(H, label, neg, count=4, why="counterexample")
        if not ok and self.violation is None:
            self.unreproduced.append(label)
            if len(self.unreproduced) > 5:
                raise _StopPath

    def try_values(self, H, label, goal, count, why):
        eng = H.eng
        for vals in eng.witnesses(goal, count=count, timeout=min(4.0, self.query_timeout), rng=self.rng):
            for v in angle_variants(eng, vals):
                got = self.concrete(v)
                if got[0] == "fail":
                    self.violation = {
                        "label": label, "values": enc(v), "detail": got[1], "why": why,
                    }
                    raise _StopAll
        return False

    def concrete(self, values):
        """Run the harness on numbers: ('ok'|'fail'|'skip', detail)."""
        saved = core.ENGINE
        core.ENGINE = None
        try:
            with unpatched():
                return run_concrete(self.ob, values)
        finally:
            core.ENGINE = saved

    # -- one path
    def path(self, eng):
        H = SymCtx(eng, self.ob, self)
        eng.kernel_mode = None
        try:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.ob.run(H)
            self.reached += 1
            if self.witness_ok + self.witness_skip < self.witness_paths:
                self.witness(H)
            return "ok"
        except Infeasible:
            raise
        except _StopAll:
            return STOP
        except _StopPath:
            return "stopped"
        except Undefined as e:
            return self.undefined_path(H, e)
        except Unsupported as e:
            return self.unsupported_path(H, f"{e} at {where(e)}")
        except RecursionError as e:
            return self.unsupported_path(H, "recursion limit")
        except Exception as e:  # noqa: BLE001
            return self.exception_path(H, e)

    def witness(self, H):
        got_one = False
        for vals in H.eng.witnesses(core.TRUE, count=1, timeout=1.0, rng=self.rng):
            for v in angle_variants(H.eng, vals):
                r = self.concrete(v)
                if r[0] == "ok":
                    self.witness_ok += 1
                    got_one = True
                    if len(self.samples) < 3:
                        self.samples.append(enc(v))
                    break
                if r[0] == "fail":
                    self.violation = {
                        "label": "model of an explored path", "values": enc(v),
                        "detail": r[1], "why": "path model run on the real code",
                    }
                    raise _StopAll
        if not got_one:
            self.witness_skip += 2

    def _soft(self, H, label, msg, sink):
        try:
            self.try_values(H, label, core.TRUE, count=3, why=msg)
        except _StopAll:
            return STOP
        if msg not in sink:
            sink.append(msg)
        return "soft"

    def undefined_path(self, H, e):
        return self._soft(H, "operation is defined", f"undefined operation: {e.what}", self.undefined)

    def unsupported_path(self, H, msg):
        return self._soft(H, "encoding", "unsupported: " + msg, self.unsupported)

    def exception_path(self, H, e):
        tb = traceback.extract_tb(e.__traceback__)
        loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        return self._soft(
            H, "no unexpected exception", f"exception on a symbolic path: {type(e).__name__}: {e} ({loc})",
            self.unreproduced,
        )

    def run(self):
        eng = Engine(
            query_timeout=self.query_timeout, prove_timeout=self.prove_timeout,
            max_paths=self.max_paths, domain=self.domain, seed=self.seed,
            deadline=self.deadline, light=self.ob.opts.get("light", False),
        )
        self.eng = eng
        eng.fork_mod = self.ob.opts.get("fork_mod", False)
        eng.numeric = self.ob.opts.get("numeric", False)
        eng.fine = self.ob.opts.get("fine", False)
        t0 = time.time()
        try:
            eng.explore(self.path)
        except _StopAll:
            pass
        finally:
            core.ENGINE = None
        return {
            "obligation": self.ob.name,
            "functions": self.ob.functions,
            "bounds": self.ob.bounds,
            "stats": eng.stats.as_dict(),
            "assumed_domains": eng.assumed_domains,
            "truncated": eng.truncated,
            "violation": self.violation,
            "unreproduced": self.unreproduced,
            "unknown": self.unknowns,
            "unsupported": self.unsupported,
            "undefined": self.undefined,
            "reached": self.reached,
            "witness_ok": self.witness_ok,
            "witness_skip": self.witness_skip,
            "samples": self.samples,
            "wall": round(time.time() - t0, 2),
        }


class _StopAll(core.Control):
    pass


class _StopPath(core.Control):
    pass


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/symx/core" not in fr.filename and "/symx/snp" not in fr.filename and "/symx/engine" not in fr.filename:
            return f"{os.path.basename(fr.filename)}:{fr.lineno}"
    return "?"


def run_concrete(ob, values):
    H = ConcCtx({k: (v if isinstance(v, bool) else float(v)) for k, v in values.items()})
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ob.run(H)
    except SkipReplay as e:
        return "skip", str(e)
    except core.Control as e:
        return "skip", f"control {e!r}"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        if "/symx/" in tb[-1].filename and isinstance(e, (TypeError, AttributeError)) and not tb[-1].line.startswith("return float("):
            return "skip", f"harness does not fit the code: {type(e).__name__}: {e} at {loc}"
        return "fail", [f"{type(e).__name__}: {e} at {loc}"]
    if H.failures:
        return "fail", H.failures[:6]
    if H.checked == 0:
        return "skip", "nothing checked"
    return "ok", None


def enc(v):
    return {
        k: (x if isinstance(x, bool) else (str(x) if isinstance(x, Fraction) else x))
        for k, x in v.items()
    }


def dec(v):
    return {k: (x if isinstance(x, bool) else Fraction(x)) for k, x in v.items()}


def angle_variants(eng, vals):
    """The model itself, and (if sines/cosines of inputs occur) the model with
    angle inputs recomputed from the sine and cosine values."""
    yield vals


def _pairs(a, b, label):
    """Yield (x, y, label) elementwise; (None, None, label) on shape mismatch."""
    a, b = _plain(a), _plain(b)
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            a = list(a) if isinstance(a, np.ndarray) else a
            b = list(b) if isinstance(b, np.ndarray) else b
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
                yield None, None, f"{label} (structure)"
                return
        if len(a) != len(b):
            yield None, None, f"{label} (length {len(a)} != {len(b)})"
            return
        for i, (x, y) in enumerate(zip(a, b)):
            yield from _pairs(x, y, f"{label}[{i}]")
        return
    sa = a.shape if isinstance(a, np.ndarray) else ()
    sb = b.shape if isinstance(b, np.ndarray) else ()
    if sa != sb:
        yield None, None, f"{label} (shape {sa} != {sb})"
        return
    if sa == ():
        yield (a[()] if isinstance(a, np.ndarray) else a), (b[()] if isinstance(b, np.ndarray) else b), label
        return
    fa, fb = np.ndarray.ravel(a.view(np.ndarray)), np.ndarray.ravel(b.view(np.ndarray))
    for i in range(fa.size):
        yield fa[i], fb[i], f"{label}[{i}]"


def _plain(x):
    if hasattr(x, "_binary_op") and hasattr(x, "values"):
        return x.values
    return x


Runner.pairs = staticmethod(_pairs)


# --------------------------------------------------------------- process pool


def _child(ob, tier, seed, budget, conn):
    try:
        r = Runner(ob, tier, seed, time.time() + budget).run()
    except BaseException as e:  # noqa: BLE001
        r = {"obligation": ob.name, "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(obs, tier, seed, jobs, budget, total):
    """Run the obligations, each in its own process."""
    ctx = multiprocessing.get_context("fork")
    todo = list(obs)
    running = {}
    results = {}
    t_end = time.time() + total
    while todo or running:
        now = time.time()
        while todo and len(running) < jobs and now < t_end:
            ob = todo.pop(0)
            b = min(ob.opts.get("budget", budget) * (1 if tier == "quick" else 4), max(5, t_end - now))
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(ob, tier, seed, b, c), daemon=True)
            p.start()
            c.close()
            running[p] = (ob, a, now + b * 1.5 + 20)
        if todo and now >= t_end and not running:
            for ob in todo:
                results[ob.name] = {"obligation": ob.name, "error": "not run: total time limit"}
            todo = []
            break
        done = []
        for p, (ob, conn, limit) in running.items():
            if conn.poll(0):
                try:
                    results[ob.name] = conn.recv()
                except EOFError:
                    results[ob.name] = {"obligation": ob.name, "error": "worker died"}
                done.append(p)
            elif not p.is_alive():
                results[ob.name] = {"obligation": ob.name, "error": f"worker exit {p.exitcode}"}
                done.append(p)
            elif now > limit:
                p.kill()
                results[ob.name] = {"obligation": ob.name, "error": "time limit"}
                done.append(p)
        for p in done:
            p.join(5)
            running.pop(p)
        if not done:
            time.sleep(0.02)
    return [results[ob.name] for ob in obs if ob.name in results]
