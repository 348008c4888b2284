"""P29 gradient-boosted equivalent sources."""
import harmonica as hm
import numpy as np

from .. import core
from ..harness import obligation
from .p28 import Solver, check_model, draw, separate

FUNCS = ["harmonica.EquivalentSourcesGB.fit/_gradient_boosting/_create_windows/estimate_required_memory", "_get_region_data_sources",
         "EquivalentSources.predict/jacobian", "verde.least_squares and bordado.rolling_window are replaced by recorders with any result"]

# windows as (sources, data) of 3 sources and 3 data points
SYSTEMS = {
    "overlap": [((0, 1), (0, 1)), ((1, 2), (1, 2))],
    "all and one": [((0, 1, 2), (0, 1, 2)), ((1,), (2,))],
    "empty": [((0,), (0, 1)), ((), (1,)), ((1, 2), ()), ((2, 1), (1, 2))],
    "three": [((0,), (0,)), ((1, 2), (0, 2)), ((2,), (1, 0))],
    "disjoint": [((2,), (2,)), ((0, 1), (0,)), ((0,), (0, 1))],
}


class Windows:
    """bordado.rolling_window with a given answer for sources and for data."""

    def __init__(self, H, system, points, data):
        self.H, self.system, self.points, self.data = H, system, points, data
        self.calls = []

    def __call__(self, coordinates, window_size, overlap, region=None, adjust="overlap", **k):
        is_points = len(coordinates[0]) == len(self.points[0]) and same(self.H, coordinates, self.points)
        self.calls.append((coordinates, window_size, overlap, region, adjust))
        which = 0 if is_points else 1
        out = np.empty((1, len(self.system)), dtype=object)
        for i, w in enumerate(self.system):
            out[0, i] = (np.array(w[which], dtype=int),)
        return None, out


def same(H, a, b):
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            u, v = (core._wrap(u), core._wrap(v)) if H.symbolic else (u, v)
            if H.symbolic:
                c = core.to_bool(u == v)
                if c.op != "const" or not c.args[0]:
                    return False
            elif not abs(u - v) < 1e-9:
                return False
    return True


DATA, SRC = (130, 260, 455), (-13, -65, -130)


def places(which=3):
    """Data and sources on a line: all distances are different integers."""
    cols = [[x * k // 13 for x in DATA] for k in (3, 4, 12)]
    src = [[x * k // 13 for x in SRC[:which]] for k in (3, 4, 12)]
    return cols, src


def jacobian(H, which=3):
    return [[H.frac(1, a - b) for b in SRC[:which]] for a in DATA]


@obligation("P29", FUNCS, "3 data points and 3 sources (all distances different), any data, weights and solution of each window; the windows given; seeds 0 and 1",
            params=[dict(windows=w, weighted=k, seed=s) for w, k, s in (
                ("overlap", False, 0), ("overlap", True, 1), ("all and one", False, 1), ("empty", True, 0), ("three", False, 0),
                ("three", True, 1), ("disjoint", False, 0))])
def accounting(H, windows, weighted, seed):
    system = SYSTEMS[windows]
    cols, src = places()
    data = H.reals("d", 3, -100, 100)
    weights = H.reals("w", 3, 1, 10) if weighted else None
    solver = Solver(H)
    size = 20
    win = Windows(H, system, src, cols)
    eqs = hm.EquivalentSourcesGB(points=tuple(H.array(c) for c in src), window_size=size, random_state=seed, damping=0.5 if weighted else None)
    xyz, d = tuple(H.array(c) for c in cols), H.array(data)
    w = None if weights is None else H.array(weights)
    with solver.on(), H.patched(("bordado", "rolling_window", win)):
        eqs.fit(xyz, d, w)
    jac = jacobian(H)
    residue = list(data)
    total = [0, 0, 0]
    left = [k for k in system if k[0] and k[1]]
    H.prove(len(solver.calls) == len(left), "one system per window that has sources and data")
    sq = [sum(r * r for r in residue)]
    for (a, rhs, ww, damp), coef in zip(solver.calls, solver.out):
        found = None
        for k in left:
            if a.shape == (len(k[1]), len(k[0])) and all(same(H, [a[i]], [[jac[p][q] for q in k[0]]]) for i, p in enumerate(k[1])):
                found = k
                break
        H.prove(found is not None, "each system is the one of a window, each window once")
        if found is None:
            return
        left.remove(found)
        H.equal(rhs, H.array([residue[p] for p in found[1]]), "residue of the window", scale=0 if H.symbolic else 1e4)
        H.prove((ww is None) == (weights is None), "weights")
        if weights is not None:
            H.equal(ww, H.array([weights[p] for p in found[1]]), "weights of the window")
        H.prove(damp == (0.5 if weighted else None), "damping")
        for i, q in enumerate(found[0]):
            total[q] = total[q] + coef[i]
        for p in range(3):
            residue[p] = residue[p] - sum(jac[p][q] * coef[i] for i, q in enumerate(found[0]))
        sq.append(sum(r * r for r in residue))
    big = 0 if H.symbolic else max([1e-3] + [abs(x) for c in solver.out for x in c]) * 10
    H.equal(eqs.coefs_, H.array(total), "coefficients add up", scale=big)
    H.prove(len(eqs.rmse_per_iteration_) == len(sq), "one error per step")
    for got, s in zip(eqs.rmse_per_iteration_, sq):
        H.prove(got >= 0, "error is not negative")
        H.equal(got * got * 3, s, "root mean square of the residue", rtol=1e-5, scale=None if H.symbolic else max(sq) + 1e-6)
    want = [sum(total[j] * jac[i][j] for j in range(3)) for i in range(3)]
    H.equal(eqs.predict(tuple(H.array(c) for c in cols)), H.array(want), "prediction of all the coefficients", scale=big)
    H.equal(d, H.array(data), "data not modified")
    for a, b in zip(xyz, cols):
        H.equal(a, H.array(b), "coordinates not modified")


@obligation("P29", FUNCS, "3 data points, 2 or 3 sources, coordinates increasing, any window size", max_paths=400,
            params=[dict(run=r, sources=n) for r in ("fit", "memory") for n in (2, 3)])
def same_windows(H, run, sources):
    """Sources and data are divided by the same windows, over a region that
    holds both."""
    cols, src = draw(H), [H.reals(c + "s", sources, -100, 100) for c in "enu"]
    for c in cols:
        H.assume(H.both(c[0] < c[1], c[1] < c[2]))
    for c in src:
        H.assume(H.both(*[c[i] < c[i + 1] for i in range(sources - 1)]))
    separate(H, cols, src)
    size = H.real("size", 1, 50)
    win = Windows(H, [((0,), (0, 1)), ((0, 1), (2,))], src, cols)
    single = run == "memory" and bool(H.decide("single precision"))
    eqs = hm.EquivalentSourcesGB(points=tuple(H.array(c) for c in src), window_size=size, random_state=0, dtype="float32" if single else "float64")
    solver = Solver(H, coefs=0)
    with solver.on(region=False), H.patched(("bordado", "rolling_window", win)):
        if run == "fit":
            eqs.fit(tuple(H.array(c) for c in cols), H.array([1, 2, 3]))
        else:
            mem = eqs.estimate_required_memory(tuple(H.array(c) for c in cols))
            H.prove(mem == (4 if single else 8) * 2, "memory of the largest system")
            H.prove(not hasattr(eqs, "points_"), "not fitted by asking for the memory")
    H.prove(len(win.calls) == 2, "windows for sources and for data")
    first, second = win.calls
    H.equal(first[1], size, "size of the windows")
    H.equal(second[1], size, "size of the windows")
    H.prove(first[2] == second[2] and 0 < first[2] < 1 and first[4] == second[4], "same overlap")
    for k in range(4):
        H.equal(first[3][k], second[3][k], "same region")
    lens = sorted(len(c[0][0]) for c in win.calls)
    H.prove(lens == [sources, 3], "once for the sources, once for the data")
    H.prove(sorted(same(H, c[0], src) if len(c[0][0]) == sources else False for c in win.calls) == [False, True], "once for the sources, once for the data")
    r = first[3]
    for ax in range(2):
        low, high = [cols[ax][0], src[ax][0]], [cols[ax][2], src[ax][-1]]
        for a, b in zip(low, high):
            H.prove(H.both(r[2 * ax] <= a, r[2 * ax + 1] >= b), "region holds data and sources")
        H.prove(H.either(*[r[2 * ax] == a for a in low]), "region is tight")
        H.prove(H.either(*[r[2 * ax + 1] == a for a in high]), "region is tight")


@obligation("P29", FUNCS, "3 data points anywhere, default window size", params=[dict(sources=n) for n in (2, 3)])
def few_data(H, sources):
    """Up to 5000 data points are fitted at once, with a warning."""
    cols, src = places(sources)
    data = H.reals("d", 3, -100, 100)
    eqs = hm.EquivalentSourcesGB(points=tuple(H.array(c) for c in src))
    solver = Solver(H)
    stub = [("bordado", "get_region", lambda *a, **k: (0, 10, 0, 10))] if H.symbolic else []
    with solver.on(), H.patched(*stub):
        _, w = H.warns(lambda: eqs.fit(tuple(H.array(c) for c in cols), H.array(data)))
    H.prove(UserWarning in w, "warning")
    check_model(H, eqs, solver, cols, src, data, None, None)
    H.prove(eqs.window_size_ is None, "no window")


@obligation("P29", FUNCS, "6000 data points in a region of any dimensions, 2 sources", max_paths=400)
def default_window(H):
    """About 5000 points of the region fall in a window."""
    r = [H.real("west", -100, 100), H.real("east", 101, 300), H.real("south", -100, 100), H.real("north", 101, 300)]
    n = 6000
    c = np.linspace(0, 1, n)
    coords = (c, c[::-1], c * 0)
    src = (np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.array([-1.0, -1.0]))
    seen = []

    def windows(coordinates, window_size, **k):
        seen.append((window_size, k["region"]))
        out = np.empty((1, 1), dtype=object)
        out[0, 0] = (np.arange(len(coordinates[0])),)
        return None, out

    eqs = hm.EquivalentSourcesGB(points=src)
    with H.patched(("bordado", "rolling_window", windows), ("bordado", "get_region", lambda *a, **k: tuple(r))):
        mem = eqs.estimate_required_memory(coords)
    H.prove(mem == n * 2 * 8, "memory")
    area = (r[1] - r[0]) * (r[3] - r[2])
    for size, _ in seen:
        H.prove(size > 0, "positive size")
        H.equal(size * size * n, 5000 * area, "5000 data points per window")
    H.prove(len(seen) == 2, "windows for sources and for data")


@obligation("P29", FUNCS, "3 data points, 2 windows, 2 seeds", params=[dict(seed=s) for s in (0, 1, 7)])
def reproducible(H, seed):
    """The seed fixes the order; a second fit forgets the first."""
    cols, src = places()
    data, other = H.reals("d", 3, -100, 100), H.reals("f", 3, -100, 100)
    runs, bank = [], {}
    for history in ((data,), (other, data)):
        eqs = hm.EquivalentSourcesGB(points=tuple(H.array(c) for c in src), window_size=5, random_state=seed)
        win = Windows(H, SYSTEMS["three"], src, cols)
        for d in history:
            # the same system has the same solution
            solver = Solver(H, bank=bank if d is data else None)
            with solver.on(), H.patched(("bordado", "rolling_window", win)):
                eqs.fit(tuple(H.array(c) for c in cols), H.array(d))
        runs.append((solver.calls, eqs.coefs_, eqs.rmse_per_iteration_))
    a, b = runs
    H.prove(len(a[0]) == len(b[0]), "same number of steps")
    for x, y in zip(a[0], b[0]):
        H.equal(x[0], y[0], "same windows in the same order")
        H.equal(x[1], y[1], "same residues")
    H.equal(a[1], b[1], "same coefficients")
    H.prove(len(a[2]) == len(b[2]), "same number of errors")
