"""P28 equivalent sources."""
import contextlib

import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica.EquivalentSources.fit/predict/jacobian/estimate_required_memory/_build_points/grid",
         "harmonica.EquivalentSourcesSph.fit/predict/jacobian/estimate_required_memory", "jacobian", "predict", "greens_func_*",
         "cast_fit_input"]


class Solver:
    """Stand-in for verde's least squares: keeps what it was given and gives
    any coefficients. With numbers the real one runs and is recorded too."""

    def __init__(self, H, coefs=None, bank=None):
        import verde.base

        self.bank = {} if bank is None else bank
        self.H, self.coefs, self.calls, self.real = H, coefs, [], verde.base.least_squares
        self.out = []

    def __call__(self, jacobian, data, weights, damping=None, copy_jacobian=False):
        keep = jacobian.copy()
        self.calls.append((keep, np.array(data).copy() if not self.H.symbolic else data.copy(),
                           None if weights is None else weights.copy(), damping))
        n = jacobian.shape[1]
        if self.H.symbolic:
            k = len(self.out)
            c = self.H.array([self.value(k, j) for j in range(n)])
        else:
            c = self.real(jacobian, data, weights, damping, copy_jacobian)
        self.out.append(np.array(c).copy() if not self.H.symbolic else c.copy())
        return c

    def value(self, k, j):
        if self.coefs is not None:
            return self.coefs
        if (k, j) not in self.bank:
            self.bank[k, j] = self.H.real(f"coef{k}_{j}", -1000, 1000)
        return self.bank[k, j]

    @contextlib.contextmanager
    def on(self, region=True):
        items = [("verde.base", "least_squares", self)]
        if region and self.H.symbolic:
            # the region of the data does not take part in what is checked
            # here (see refit): any numbers
            k = [self.H.real(f"region{i}", -1000, 1000) for i in range(4)]
            items.append(("bordado", "get_region", lambda *a, **b: tuple(k)))
        with self.H.patched(*items):
            yield self


def neighbours(H, coordinates, statistic=None, k=1):
    """Contract of bordado.neighbor_distance_statistics for one neighbour."""
    e, n = (c.ravel() for c in coordinates)
    out = []
    for i in range(e.size):
        best = None
        for j in range(e.size):
            if i != j:
                d2 = (e[i] - e[j]) ** 2 + (n[i] - n[j]) ** 2
                best = d2 if best is None else (d2 if bool(d2 < best) else best)
        out.append(H.sqrt(best))
    return H.array(out)


def dist(H, p, q):
    r2 = (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2
    H.assume(r2 > H.frac(1, 100))
    return H.sqrt(r2)


def draw(H, n=3, tag="", spread=100):
    return [H.reals(c + tag, n, -spread, spread) for c in "enu"]


def put(H, kind, cols):
    if kind == "2d":
        return tuple(H.array([[c[0], c[1], c[2]]]) for c in cols)
    if kind == "column":
        return tuple(H.array([[c[0]], [c[1]], [c[2]]]) for c in cols)
    if kind == "strided":
        return tuple(H.array([x for v in c for x in (v, 5)])[::2] for c in cols)
    if kind == "lists":
        return tuple(list(c) for c in cols)
    return tuple(H.array(c) for c in cols)


def separate(H, cols, sources):
    for i in range(len(cols[0])):
        for j in range(len(sources[0])):
            dist(H, [c[i] for c in cols], [c[j] for c in sources])


def check_model(H, gridder, solver, cols, sources, data, weights, damping):
    """The system solved is the one of the sources, and predictions are the
    sum of the solution over the same sources."""
    H.prove(len(solver.calls) == 1, "one system is solved")
    jac, d, w, damp = solver.calls[-1]
    n, m = len(cols[0]), len(sources[0])
    H.prove(jac.shape == (n, m), "shape of the system")
    for i in range(n):
        for j in range(m):
            r = dist(H, [c[i] for c in cols], [c[j] for c in sources])
            H.equal(jac[i, j], 1 / r, "one over distance")
    H.equal(d.ravel(), H.array(data), "data of the system")
    H.prove((w is None) == (weights is None), "weights of the system")
    if weights is not None:
        H.equal(w.ravel(), H.array(weights), "weights of the system")
    H.prove(damp == damping, "damping")
    for k in range(3):
        H.equal(gridder.points_[k], H.array(sources[k]), "position of the sources")
    c = solver.out[-1]
    at = [H.real("at_" + x, -100, 100) for x in "enu"]
    want = 0
    for j in range(m):
        want = want + c[j] / dist(H, at, [s[j] for s in sources])
    got = gridder.predict(tuple(H.array([x]) for x in at))
    size = 0 if H.symbolic else max(abs(x) for x in c) * 100
    H.equal(got, H.array([want]), "prediction", scale=size)
    back = gridder.predict(tuple(H.array(x) for x in cols))
    for i in range(n):
        H.equal(back[i], sum(jac[i, j] * c[j] for j in range(m)), "prediction at the data is the system times the coefficients", scale=size)


def unchanged(H, eqs, before):
    """The options given to the constructor are as they were."""
    after = eqs.get_params()
    H.prove(set(after) == set(before) and all(after[k] is before[k] for k in before), "options not modified by the fit")


@obligation("P28", FUNCS, "3 data points anywhere, sources below them at any depth, with and without weights and damping",
            params=[dict(kind=k, weighted=w) for k, w in (("1d", False), ("1d", True), ("2d", True), ("column", False), ("strided", True))])
def fixed_depth(H, kind, weighted):
    cols = draw(H)
    depth = H.real("depth", -50, 50)
    H.assume(H.either(depth > 1, depth < -1))
    data = H.reals("d", 3, -100, 100)
    weights = H.reals("w", 3, 1, 10) if weighted else None
    damping = 0.5 if weighted else None
    eqs = hm.EquivalentSources(depth=depth, damping=damping, parallel=not weighted)
    xyz = put(H, kind, cols)
    d = put(H, kind, [data])[0]
    w = None if weights is None else put(H, kind, [weights])[0]
    solver = Solver(H)
    sources = [cols[0], cols[1], [u - depth for u in cols[2]]]
    separate(H, cols, sources)
    before = eqs.get_params()
    with solver.on():
        H.prove(eqs.fit(xyz, d, w) is eqs, "fit returns the gridder")
    unchanged(H, eqs, before)
    check_model(H, eqs, solver, cols, sources, data, weights, damping)
    for a, b in zip(xyz, put(H, kind, cols)):
        H.equal(a, b, "coordinates not modified")
    H.equal(d, put(H, kind, [data])[0], "data not modified")
    H.equal(eqs.depth_, depth, "depth kept")
    H.prove(eqs.estimate_required_memory(xyz) == 9 * 8, "memory")


@obligation("P28", FUNCS, "3 data points anywhere, default depth", max_paths=400)
def default_depth(H):
    cols = draw(H)
    data = H.reals("d", 3, -100, 100)
    for i in range(3):
        for j in range(i):
            H.assume(H.either(cols[0][i] - cols[0][j] > 1, cols[0][j] - cols[0][i] > 1))
    eqs = hm.EquivalentSources()
    solver = Solver(H)
    stub = [("bordado", "neighbor_distance_statistics", lambda *a, **k: neighbours(H, *a, **k))] if H.symbolic else []
    with solver.on(), H.patched(*stub):
        eqs.fit(tuple(H.array(c) for c in cols), H.array(data))
    near = neighbours(H, [H.array(c) for c in cols[:2]])
    depth = H.frac(9, 2) * (near[0] + near[1] + near[2]) / 3
    H.equal(eqs.depth_, depth, "4.5 times the mean distance to the nearest neighbour")
    for k in range(2):
        H.equal(eqs.points_[k], H.array(cols[k]), "sources under the data")
    H.equal(eqs.points_[2], H.array([u - depth for u in cols[2]]), "depth relative to each data point")


@obligation("P28", FUNCS, "3 data points, 2 sources where the user says, any type of array",
            params=[dict(kind=k, cls=c) for k in ("1d", "2d", "integers", "lists") for c in ("EquivalentSources", "EquivalentSourcesSph")
                    if not (c.endswith("Sph") and k == "2d")])
def given_points(H, kind, cls):
    cols = draw(H)
    data = H.reals("d", 3, -100, 100)
    if kind == "integers":
        src = [[H.integer(f"{c}s{j}", -50, 50) for j in range(2)] for c in "enu"]
        points = tuple(H.int_array(c) for c in src)
    else:
        src = [H.reals(c + "s", 2, -100, 100) for c in "enu"]
        points = tuple(list(c) if kind == "lists" else H.array([c] if kind == "2d" else c) for c in src)
    if cls == "EquivalentSources":
        eqs = hm.EquivalentSources(points=points, depth=7)
        separate(H, cols, src)
        solver = Solver(H)
        before = eqs.get_params()
        with solver.on():
            eqs.fit(tuple(H.array(c) for c in cols), H.array(data))
        H.prove(eqs.depth_ is None, "no depth when the sources are given")
        check_model(H, eqs, solver, cols, src, data, None, None)
    else:
        eqs = hm.EquivalentSourcesSph(points=points, relative_depth=3)
        before = eqs.get_params()
        cols = sphere(H, cols, 1000)
        solver = Solver(H)
        with solver.on():
            eqs.fit(tuple(H.array(c) for c in cols), H.array(data))
        for k in range(3):
            H.equal(eqs.points_[k], H.array(src[k]), "position of the sources")
        H.prove(solver.calls[0][0].shape == (3, 2), "shape of the system")
    unchanged(H, eqs, before)
    H.prove(eqs.estimate_required_memory(tuple(H.array(c) for c in cols)) == 3 * 2 * 8, "memory is the one of the system of the fit")
    for k in range(3):
        H.equal(eqs.points_[k], H.array(src[k]), "asking for the memory does not move the sources")


def sphere(H, cols, r):
    return [cols[0], [x * H.frac(9, 10) for x in cols[1]], [r + u for u in cols[2]]]


@obligation("P28", FUNCS, "2 data points anywhere in the sphere, any relative depth", domain="assume", params=[dict(parallel=p) for p in (True, False)])
def spherical(H, parallel):
    lon = H.reals("lon", 2, -180, 360)
    lat = H.reals("lat", 2, -90, 90)
    rad = H.reals("r", 2, 100, 200)
    depth = H.real("depth", 1, 50)
    data = H.reals("d", 2, -100, 100)
    eqs = hm.EquivalentSourcesSph(relative_depth=depth, damping=0.25, parallel=parallel)
    solver = Solver(H)
    xyz = (H.array([lon]), H.array([lat]), H.array([rad]))
    before = eqs.get_params()
    with solver.on():
        eqs.fit(xyz, H.array([data]))
    unchanged(H, eqs, before)
    jac, d, w, damp = solver.calls[-1]

    def dist2(a, b):
        ca = H.sin(H.rad(a[1])) * H.sin(H.rad(b[1])) + H.cos(H.rad(a[1])) * H.cos(H.rad(b[1])) * (
            H.cos(H.rad(a[0])) * H.cos(H.rad(b[0])) + H.sin(H.rad(a[0])) * H.sin(H.rad(b[0])))
        r2 = a[2] * a[2] + b[2] * b[2] - 2 * a[2] * b[2] * ca
        H.assume(r2 > 0)
        return r2

    n = [(lon[i], lat[i], rad[i]) for i in range(2)]
    s = [(lon[i], lat[i], rad[i] - depth) for i in range(2)]
    for i in range(2):
        for j in range(2):
            r2 = dist2(n[i], s[j])
            H.equal(jac[i, j] * jac[i, j] * r2, H.frac(1), "one over distance", rtol=1e-5)
            H.prove(jac[i, j] > 0, "positive")
    H.equal(d.ravel(), H.array(data), "data of the system")
    H.prove(damp == 0.25 and w is None, "damping")
    H.equal(eqs.points_[2], H.array([r - depth for r in rad]), "radius of the sources")
    c = solver.out[-1]
    back = eqs.predict(xyz)
    H.prove(back.shape == (1, 2), "shape")
    for i in range(2):
        H.equal(back[0, i], jac[i, 0] * c[0] + jac[i, 1] * c[1], "prediction at the data is the system times the coefficients", rtol=1e-5,
                scale=None if H.symbolic else max(abs(x) for x in c))
    H.prove(eqs.estimate_required_memory(xyz) == 4 * 8, "memory")


@obligation("P28", FUNCS, "two data sets of 2 points in a row, any values (order of the points given, the second in both orders); depth given, default "
            "or sources given", params=[dict(sources=p) for p in ("depth", "default", "points", "blocks")])
def refit(H, sources):
    """A gridder fitted again knows nothing of the first data set."""
    points = sources == "points"
    one, two = draw(H, 2, "a"), draw(H, 2, "b")
    d1, d2 = H.reals("d", 2, -100, 100), H.reals("f", 2, -100, 100)
    for c in one[:2] + two[1:2]:
        H.assume(c[0] < c[1])
    src = draw(H, 2, "s") if points else None
    kw = dict(points=tuple(H.array(c) for c in src)) if points else {} if sources == "default" else dict(depth=5)
    if sources == "blocks":
        kw["block_size"] = 1000
    eqs = hm.EquivalentSources(**kw)
    solver = Solver(H)
    half = H.frac(1, 2)

    def below(c):
        if points:
            return src
        depth = 5
        if sources == "default":
            H.assume(c[0][0] - c[0][1] < -1)
            depth = H.frac(9, 2) * neighbours(H, [H.array(x) for x in c[:2]])[0]
        if sources == "blocks":
            return [[(x[0] + x[1]) * half] for x in c[:2]] + [[(c[2][0] + c[2][1]) * half - depth]]
        return [c[0], c[1], [u - depth for u in c[2]]]

    class Blocks:
        def __init__(self, *a, **k):
            pass

        def filter(self, coordinates, data, weights=None):
            return tuple(H.array([(c[0] + c[1]) * half]) for c in coordinates), None

    stubs = []
    if H.symbolic:
        stubs = [("bordado", "neighbor_distance_statistics", lambda *a, **k: neighbours(H, *a, **k)), ("verde", "BlockReduce", Blocks)]
    sources = below(two)
    separate(H, one, below(one))
    separate(H, two, sources)
    with solver.on(region=False), H.patched(*stubs):
        eqs.fit(tuple(H.array(c) for c in one), H.array(d1))
        eqs.predict(tuple(H.array(c) for c in one))
        eqs.fit(tuple(H.array(c) for c in two), H.array(d2))
    solver.calls = solver.calls[1:]
    check_model(H, eqs, solver, two, sources, d2, None, None)
    H.equal(eqs.region_[0], two[0][0] if bool(two[0][0] < two[0][1]) else two[0][1], "region of the last data set")
    if points:
        for k in range(3):
            H.equal(kw["points"][k], H.array(src[k]), "sources of the user not modified")


@obligation("P28", FUNCS, "2 by 3 nodes anywhere, 2 sources with any coefficients", params=[{}])
def grids(H):
    """Each node of a grid holds the prediction at its own coordinates."""
    east, north, up = H.reals("ge", 3, -100, 100), H.reals("gn", 2, -100, 100), [H.reals(f"gu{k}", 3, 50, 100) for k in range(2)]
    src = [H.reals(c + "s", 2, -100, 10) for c in "enu"]
    eqs = hm.EquivalentSources(points=tuple(H.array(c) for c in src))
    solver = Solver(H)
    with solver.on():
        eqs.fit((H.array([1, 2]), H.array([0, 5]), H.array([20, 20])), H.array([1, 3]))
    names = ("lat", "lon")
    grid = eqs.grid((H.array(east), H.array(north), H.array(up)), dims=names, data_names="mag")
    dims = names or ("northing", "easting")
    H.prove(tuple(grid.mag.dims) == dims, "dimensions")
    for k in range(2):
        H.equal(grid[dims[0]].values[k], north[k], "northing")
        for j in range(3):
            H.equal(grid[dims[1]].values[j], east[j], "easting")
            H.equal(grid.upward.values[k, j], up[k][j], "upward")
            one = eqs.predict((H.array([east[j]]), H.array([north[k]]), H.array([up[k][j]])))
            H.equal(grid.mag.values[k, j], one[0], "node")


@obligation("P28", FUNCS, "1 to 4 data points, sources below them or 1 to 3 given ones, single and double precision", params=[
    dict(cls=c) for c in ("EquivalentSources", "EquivalentSourcesSph")])
def memory(H, cls):
    """Bytes of the system: in the precision asked for, or in double precision
    (spherical), whatever the one of the coordinates."""
    n, m = 1 + H.choice("data", 4), H.choice("sources", 4)
    given = "float32" if H.decide("coordinates in single precision") else "float64"
    dtype = "float32" if not cls.endswith("Sph") and H.decide("single precision") else "float64"
    coordinates = tuple(np.arange(n, dtype=given) for _ in range(3))
    kw = dict(points=tuple(np.arange(m, dtype=float) for _ in range(3))) if m else {}
    if not cls.endswith("Sph"):
        kw["dtype"] = dtype
        kw["depth"] = 10
    got = getattr(hm, cls)(**kw).estimate_required_memory(coordinates)
    H.prove(got == n * (m or n) * (4 if dtype == "float32" else 8), "bytes of the system")


@obligation("P28", FUNCS + ["EquivalentSources.profile"], "two ends anywhere, any height, 3 points, 2 sources with any coefficients; each place of the table", params=[
    dict(cls=c) for c in ("EquivalentSources", "EquivalentSourcesGB")])
def profile(H, cls):
    """Places evenly spaced from one end to the other at the height given, the
    distance to the first one, and the prediction at each."""
    one, two, up = H.reals("p", 2, -100, 100), H.reals("q", 2, -100, 100), H.real("up", 50, 100)
    src = [H.reals(c + "s", 2, -100, 10) for c in "enu"]
    points = tuple(H.array(c) for c in src)
    eqs = hm.EquivalentSources(points=points) if cls == "EquivalentSources" else hm.EquivalentSourcesGB(points=points, window_size=1000)
    if cls == "EquivalentSources":
        with Solver(H).on():
            eqs.fit((H.array([1, 2]), H.array([0, 5]), H.array([20, 20])), H.array([1, 3]))
    else:
        eqs.points_, eqs.coefs_ = points, H.array(H.reals("coef", 2, -10, 10))
    kw = [{}, dict(dims=("lat", "lon"), data_names="mag"), dict(extra_coords=up + 1)][H.choice("options", 3)]
    table, warned = H.warns(lambda: eqs.profile(tuple(one), tuple(two), up, 3, **kw))
    dims, name = kw.get("dims", ("northing", "easting")), kw.get("data_names", "scalars")
    H.prove(list(table.columns) == [*dims, "distance", "upward" if "upward" in table else "extra_coord", name], "columns")
    length = H.sqrt((two[0] - one[0]) ** 2 + (two[1] - one[1]) ** 2)
    for k in range(3):
        t = H.frac(k, 2)
        at = [one[i] + t * (two[i] - one[i]) for i in range(2)]
        row = [table[c].values[k] for c in table.columns]
        H.equal(row[0], at[1], "northing", scale=100)
        H.equal(row[1], at[0], "easting", scale=100)
        H.equal(row[2], t * length, "distance", scale=100)
        H.equal(row[3], up, "height")
        want = eqs.predict((H.array([row[1]]), H.array([row[0]]), H.array([up])))
        H.equal(row[4], want[0], "prediction", scale=None if H.symbolic else 1000)


@obligation("P28", FUNCS, "two blocks of 3 and 1 data points, anywhere inside them")
def block_averages(H):
    """Sources below the medians of the blocks."""
    e, n, u = H.real("e1", 0.125, 0.875), H.real("n1", 0.125, 0.875), H.reals("u", 4, 0, 100)
    H.assume(H.both(u[2] < u[0], u[0] < u[1]))
    cols = [[0, e, 1, 10], [n, 0, 1, 1], u]
    data = H.reals("d", 4, -100, 100)
    med = [[e, 10], [n, 1], [u[0], u[3]]]
    seen = []

    class Blocks:
        def __init__(self, reduction, spacing=None, drop_coords=True, **k):
            seen.append((spacing, drop_coords, float(reduction(np.array([0.0, 5.0, 1.0])))))

        def filter(self, coordinates, data, weights=None):
            for a, b in zip(coordinates, cols):
                H.equal(a, H.array(b), "data in the blocks")
            return tuple(H.array(c) for c in med), None

    sources = [med[0], med[1], [u - 3 for u in med[2]]]
    separate(H, cols, sources)
    eqs = hm.EquivalentSources(depth=3, block_size=5)
    solver = Solver(H)
    with solver.on(), H.patched(*([("verde", "BlockReduce", Blocks)] if H.symbolic else [])):
        eqs.fit(tuple(H.array(c) for c in cols), H.array(data))
        memory = eqs.estimate_required_memory(tuple(H.array(c) for c in cols))
    if H.symbolic:
        H.prove(all(s == (5, False, 1.0) for s in seen) and seen, "medians of blocks of the given size, heights included")
    check_model(H, eqs, solver, cols, sources, data, None, None)
    H.prove(memory == 4 * 2 * 8, "memory")


@obligation("P28", FUNCS, "every option out of range", params=[{}])
def rejected(H):
    H.prove(H.raises(lambda: hm.EquivalentSources(depth=0))[0], "zero depth")
    H.prove(H.raises(lambda: hm.EquivalentSources(depth="deep"))[0], "unknown depth")
    H.prove(H.raises(lambda: hm.EquivalentSourcesGB(window_size="wide"))[0], "unknown window")
    d = H.real("depth", -10, 10)
    bad = H.raises(lambda: hm.EquivalentSources(depth=d))[0]
    H.prove(H.iff(bad, d == 0), "rejected exactly at zero")
    from sklearn.exceptions import NotFittedError

    c = tuple(H.array([H.real(x, 0, 1)]) for x in "enu")
    for cls in ("EquivalentSources", "EquivalentSourcesSph", "EquivalentSourcesGB"):
        H.prove(H.raises(lambda: getattr(hm, cls)().predict(c), NotFittedError)[0], "not fitted yet")
    e = hm.EquivalentSources(depth=d * d + 1)
    H.prove(H.raises(lambda: e.fit(c, H.array([1, 2])))[0], "data and coordinates of different sizes")
