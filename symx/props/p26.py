"""P26 transformations in the frequency domain."""
import numpy as np
import xarray as xr

from ..harness import obligation

FU = "harmonica.filters._utils"
FUNCS = ["harmonica.filters._utils.apply_filter", "grid_sanity_checks", "harmonica.filters._fft.fft", "ifft", "xrft.fft/ifft/pad/unpad"]
TOL = 1e-7


def axes(shape, flip=(False, False)):
    y = [10.0 + 2 * k for k in range(shape[0])]
    x = [-4.0 + 3 * k for k in range(shape[1])]
    return (y[::-1] if flip[0] else y), (x[::-1] if flip[1] else x)


def make(H, v, y, x, extra=False):
    coords = {"northing": np.array(y), "easting": np.array(x)}
    g = xr.DataArray(H.array(v), coords=coords, dims=("northing", "easting"), name="field")
    if extra:
        g = g.assign_coords(height=(("northing", "easting"), np.arange(float(len(y) * len(x))).reshape(len(y), len(x))),
                            epoch=2020.0)
    return g


def close(H, a, b, label, tol=TOL):
    if H.symbolic:
        d = H.rounded(a - b)
        H.prove(H.both(d <= H.const(tol), d >= -H.const(tol)), label)
    else:
        H.nonneg(tol * 10 - abs(a - b), label)


def dft(values, y, x, fy, fx):
    """Sum over nodes of value exp(-2 pi i (fx x + fy y))."""
    re = im = 0
    for a, yy in enumerate(y):
        for b, xx in enumerate(x):
            ph = -2 * np.pi * (fx * xx + fy * yy)
            re = re + values[a][b] * round(np.cos(ph), 14)
            im = im + values[a][b] * round(np.sin(ph), 14)
    return re, im


def response(fy, fx):
    """Some response with the symmetry of a real filter."""
    return complex(1 + fx * fx + 2 * fy * fy, 3 * fx - fy if abs(fx) < 0.16 and abs(fy) < 0.24 else 0.0)


def fixed_filter(fft_grid, **kwargs):
    fy, fx = fft_grid.coords["freq_northing"], fft_grid.coords["freq_easting"]
    out = np.array([[response(float(a), float(b)) for b in fx] for a in fy])
    return xr.DataArray(out, coords={"freq_northing": fy, "freq_easting": fx}, dims=("freq_northing", "freq_easting"))


FLIPS = [(False, False), (True, False), (False, True), (True, True)]


@obligation("P26", FUNCS, "grids of 3 by 4, 4 by 2 and 4 by 4 nodes, any values in [-1, 1], coordinates increasing or decreasing",
            numeric=True, params=[dict(shape=s, flip=f, _tier="quick" if s != (4, 4) or f == (False, True) else "thorough")
                                  for s in ((3, 4), (4, 2), (4, 4)) for f in FLIPS])
def coefficients_are_multiplied(H, shape, flip):
    """Each Fourier coefficient of the result is that of the grid times the
    response at its own wavenumber; coordinates are kept."""
    y, x = axes(shape, flip)
    v = [[H.real(f"v{a}_{b}", -1, 1) for b in range(shape[1])] for a in range(shape[0])]
    grid = make(H, v, y, x)
    apply_filter = H.internal(FU, "apply_filter")
    out = apply_filter(grid, fixed_filter, pad=False)
    H.prove(out.dims == ("northing", "easting"), "dimensions")
    H.prove(list(out.northing.values) == y and list(out.easting.values) == x, "coordinates")
    o = out.values
    o = [[o[a, b] for b in range(shape[1])] for a in range(shape[0])]
    for p in np.fft.fftfreq(shape[0], 2.0):
        for q in np.fft.fftfreq(shape[1], 3.0):
            if min(abs(p) * 2, abs(q) * 3) > 0.49 or abs(p) * 2 > 0.49 or abs(q) * 3 > 0.49:
                continue  # the Nyquist coefficient of a real grid has no phase
            gr, gi = dft(v, y, x, p, q)
            fr, fi = dft(o, y, x, p, q)
            r = response(p, q)
            close(H, fr, gr * H.const(r.real) - gi * H.const(r.imag), f"({p}, {q}) real", 1e-6)
            close(H, fi, gr * H.const(r.imag) + gi * H.const(r.real), f"({p}, {q}) imaginary", 1e-6)
    for a in range(shape[0]):
        for b in range(shape[1]):
            H.equal(grid.values[a, b], v[a][b], "grid not modified")
    H.prove(list(grid.coords) == ["northing", "easting"], "coordinates of the grid not modified")


@obligation("P26", FUNCS, "a fixed grid of 4 by 4 nodes, any real response", numeric=True, params=[dict(flip=f) for f in FLIPS])
def any_response(H, flip):
    y, x = axes((4, 4), flip)
    v = [[((3 * a + 5 * b * b + a * b) % 7) / 8 - 0.375 for b in range(4)] for a in range(4)]
    grid = make(H, v, y, x)
    r = {}

    def name(p, q):
        """Response with the symmetry that real grids need."""
        i, j = round(p * 8) % 4, round(q * 12) % 4
        key = min((i, j), ((-i) % 4, (-j) % 4))
        if key not in r:
            r[key] = H.real(f"r{key[0]}{key[1]}", -1, 1)
        return r[key]

    def filt(fft_grid, scale):
        fy, fx = fft_grid.coords["freq_northing"], fft_grid.coords["freq_easting"]
        out = H.array([[name(float(p), float(q)) * scale for q in fx.values] for p in fy.values])
        return xr.DataArray(out, coords={"freq_northing": fy, "freq_easting": fx}, dims=("freq_northing", "freq_easting"))

    kw = {"scale": 2}
    out = H.internal(FU, "apply_filter")(grid, filt, filter_kwargs=kw, pad=False)
    H.prove(kw == {"scale": 2}, "options of the filter not modified")
    o = [[out.values[a, b] for b in range(4)] for a in range(4)]
    for p in np.fft.fftfreq(4, 2.0):
        for q in np.fft.fftfreq(4, 3.0):
            gr, gi = dft(v, y, x, p, q)
            fr, fi = dft(o, y, x, p, q)
            close(H, fr, gr * name(p, q) * 2, f"({p}, {q}) real", 1e-6)
            close(H, fi, gi * name(p, q) * 2, f"({p}, {q}) imaginary", 1e-6)


def identity(fft_grid):
    return xr.ones_like(fft_grid.real, dtype=float)


@obligation("P26", FUNCS, "grids of 4 by 5, 8 by 2 and 3 by 4 nodes, any values; default padding and others", numeric=True,
            params=[dict(shape=s, flip=f, pad=p) for s, f, p in
                    [((4, 5), (False, False), None), ((4, 5), (True, True), None), ((8, 2), (False, True), None), ((3, 4), (True, False), None),
                     ((3, 4), (False, False), {"pad_width": {"easting": 2}}),
                     ((3, 3), (True, True), {"pad_width": {"easting": (2, 1), "northing": (1, 3)}, "mode": "constant", "constant_values": 0}),
                     ((3, 3), (False, True), {"pad_width": {"easting": (1, 2), "northing": 1}, "mode": "edge"}),
                     ((3, 3), (True, False), False)]])
def padding_is_undone(H, shape, flip, pad):
    """With a response of one the grid comes back: values, coordinates."""
    y, x = axes(shape, flip)
    v = [[H.real(f"v{a}_{b}", -1, 1) for b in range(shape[1])] for a in range(shape[0])]
    grid = make(H, v, y, x, extra=True)
    kw = {}
    if pad is False:
        kw["pad"] = False
    elif pad is not None:
        kw["pad_kwargs"] = {k: dict(d) if isinstance(d, dict) else d for k, d in pad.items()}
    before = repr(kw)
    apply_filter = H.internal(FU, "apply_filter")
    out = apply_filter(grid, identity, **kw)
    H.prove(repr(kw) == before, "options not modified")
    H.prove(out.shape == shape and out.dims == ("northing", "easting"), "shape")
    H.prove(list(out.northing.values) == y and list(out.easting.values) == x, "coordinates")
    H.prove(set(out.coords) == {"northing", "easting", "height", "epoch"}, "other coordinates are kept")
    H.prove(bool((out.height.values == grid.height.values).all()), "values of other coordinates")
    H.prove(set(apply_filter(grid, identity, drop_coords=True, **kw).coords) == {"northing", "easting"}, "or dropped")
    for a in range(shape[0]):
        for b in range(shape[1]):
            close(H, out.values[a, b], v[a][b], f"({a}, {b})", 1e-6)
            H.equal(grid.values[a, b], v[a][b], "grid not modified")


@obligation("P26", FUNCS, "a grid of 4 by 4 nodes, any values: what the filter sees with padding", numeric=True,
            params=[dict(flip=f) for f in FLIPS[:3]])
def padded_with_edges(H, flip):
    """The default padding is a quarter of the nodes with the values of the edge."""
    y, x = axes((4, 4), flip)
    v = [[H.real(f"v{a}_{b}", -1, 1) for b in range(4)] for a in range(4)]
    seen = []

    def spy(fft_grid):
        seen.append(fft_grid)
        return identity(fft_grid)

    H.internal(FU, "apply_filter")(make(H, v, y, x), spy)
    f = seen[0]
    H.prove(f.shape == (6, 6), "padded size")
    dy, dx = y[1] - y[0], x[1] - x[0]
    py, px = [y[0] - dy] + y + [y[-1] + dy], [x[0] - dx] + x + [x[-1] + dx]
    idx = [0, 0, 1, 2, 3, 3]
    pv = [[v[a][b] for b in idx] for a in idx]
    fy, fx = f.coords["freq_northing"].values, f.coords["freq_easting"].values
    for k in range(6):
        for m in range(6):
            gr, gi = dft(pv, py, px, float(fy[k]), float(fx[m]))
            c = f.values[k, m]
            close(H, c.real, gr * 6, "real", 1e-5)
            close(H, c.imag, gi * 6, "imaginary", 1e-5)


@obligation("P26", FUNCS, "1 missing value anywhere in 2 by 3 nodes; 1 and 3 dimensions",
            params=[dict(name=n) for n in ("derivative_upward", "upward_continuation", "gaussian_lowpass", "gaussian_highpass",
                                           "reduction_to_pole", "tilt_angle", "total_gradient_amplitude", "derivative_easting", "derivative_northing")])
def rejected(H, name):
    import harmonica as hm

    args = {"upward_continuation": (10,), "gaussian_lowpass": (10,), "gaussian_highpass": (10,), "reduction_to_pole": (30, 20)}.get(name, ())
    kw = {"method": "fft"} if name in ("derivative_easting", "derivative_northing") else {}
    fun = getattr(hm, name)
    a, b = H.choice("row", 2), H.choice("column", 3)
    v = [[H.real(f"v{k}{j}", -1, 1) for j in range(3)] for k in range(2)]
    v[a][b] = H.nan
    grid = make(H, v, [0.0, 2.0], [0.0, 1.0, 2.0])
    H.prove(H.raises(lambda: fun(grid, *args, **kw))[0], "missing values")
    ok = [[1.0] * 3] * 2
    three = xr.DataArray(np.array([ok]), coords={"t": [0.0], "northing": [0.0, 2.0], "easting": [0.0, 1.0, 2.0]},
                         dims=("t", "northing", "easting"))
    H.prove(H.raises(lambda: fun(three, *args, **kw))[0], "three dimensions")
    one = xr.DataArray(np.array([1.0, 2, 3]), coords={"easting": [0.0, 1.0, 2.0]}, dims=("easting",))
    H.prove(H.raises(lambda: fun(one, *args, **kw))[0], "one dimension")
    bad = xr.DataArray(np.array([[1.0, 2, 3]] * 3), coords={"northing": [0.0, 2.0, 4.0], "easting": [0.0, 1.0, 5.0]}, dims=("northing", "easting"))
    if name not in ("tilt_angle", "total_gradient_amplitude"):
        H.prove(H.raises(lambda: fun(bad, *args, **kw))[0], "irregular")
