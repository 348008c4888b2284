"""P27 derivatives, tilt and total gradient end to end."""
import harmonica as hm
import numpy as np
import xarray as xr

from ..harness import obligation
from .p26 import FLIPS, axes, close, make

FUNCS = ["harmonica.derivative_easting", "harmonica.derivative_northing", "harmonica.derivative_upward", "harmonica.upward_continuation",
         "harmonica.gaussian_lowpass", "harmonica.gaussian_highpass", "harmonica.reduction_to_pole",
         "harmonica.total_gradient_amplitude", "harmonica.tilt_angle"]


def coords(H, n, name):
    """Increasing or decreasing, not necessarily regular."""
    steps = [H.real(f"{name}step{k}", 0.1, 10) for k in range(n - 1)]
    down = H.decide(name + " decreasing")
    x = [H.real(name, -100, 100)]
    for s in steps:
        x.append(x[-1] - s if down else x[-1] + s)
    return x


@obligation("P27", FUNCS, "4 by 3 and 3 by 4 nodes at any (also irregular) coordinates, quadratic fields",
            params=[dict(direction=d) for d in ("easting", "northing")])
def finite_differences(H, direction):
    ny, nx = (3, 4) if direction == "easting" else (4, 3)
    x, y = coords(H, nx, "x"), coords(H, ny, "y")
    a, b, c, d, q = (H.real(k, -10, 10) for k in "abcdq")

    def u(i, j):  # coordinate of the derivative, and the other one
        return (x[j], y[i]) if direction == "easting" else (y[i], x[j])

    def val(i, j, quad):
        s, t = u(i, j)
        return a + b * s + c * t + d * s * t + (q * s * s if quad else 0)

    fun = getattr(hm, "derivative_" + direction)
    for quad in (False, True):
        v = [[val(i, j, quad) for j in range(nx)] for i in range(ny)]
        grid = xr.DataArray(H.array(v), coords={"northing": H.array(y), "easting": H.array(x)}, dims=("northing", "easting"))
        out = fun(grid)
        if not quad:
            two = fun(grid, order=2)
        for i in range(ny):
            for j in range(nx):
                k, n = (j, nx) if direction == "easting" else (i, ny)
                s, t = u(i, j)
                want = b + d * t
                if quad:
                    if 0 < k < n - 1:
                        want = want + 2 * q * s
                    else:
                        near = 1 if k == 0 else n - 2
                        s2 = u(i, near)[0] if direction == "easting" else u(near, j)[0]
                        if direction == "easting":
                            s2 = x[near]
                        want = want + q * (s + s2)
                sc = None if H.symbolic else 1e4
                H.equal(out.values[i, j], want, f"{'quadratic' if quad else 'linear'} ({i}, {j})", rtol=1e-9, scale=sc)
                if not quad:
                    H.equal(two.values[i, j], 0, "second order", rtol=1e-9, scale=sc)
                H.equal(grid.values[i, j], v[i][j], "grid not modified")


@obligation("P27", FUNCS, "4 by 4 nodes at irregular coordinates (increasing or decreasing), any values, orders up to 5",
            params=[dict(direction=d, order=k) for d in ("easting", "northing") for k in (2, 3, 5)])
def finite_orders(H, direction, order):
    """A derivative of higher order is the first derivative taken that many
    times; coordinates of points and names are kept."""
    sign = -1 if H.decide("decreasing") else 1
    x, y = [sign * v for v in (0, 1, 3, 4)], [sign * v for v in (-2, 0, 1, 5)]
    grid = xr.DataArray(H.array([H.reals(f"v{i}", 4, -1, 1) for i in range(4)]), coords={"northing": H.array(y), "easting": H.array(x)},
                        dims=("northing", "easting"))
    fun = getattr(hm, "derivative_" + direction)
    out = fun(grid, order=order)
    want = grid
    for _ in range(order):
        want = fun(want)
    H.prove(out.dims == grid.dims, "dimensions")
    for i in range(4):
        for j in range(4):
            H.equal(out.values[i, j], want.values[i, j], "derivative of the derivative", scale=None if H.symbolic else 1)


def operator(y, x, resp, pad=(0, 0, 0, 0)):
    """Matrix of the filter by its definition: real part of the inverse
    transform of response times transform of the grid padded with its edges."""
    b0, b1, a0, a1 = pad
    dy, dx = y[1] - y[0], x[1] - x[0]
    py = [y[0] - dy * k for k in range(b0, 0, -1)] + list(y) + [y[-1] + dy * k for k in range(1, b1 + 1)]
    px = [x[0] - dx * k for k in range(a0, 0, -1)] + list(x) + [x[-1] + dx * k for k in range(1, a1 + 1)]
    fy = np.fft.fftfreq(len(py), abs(dy))
    fx = np.fft.fftfreq(len(px), abs(dx))
    ny, nx = len(y), len(x)
    m = np.zeros((ny * nx, ny * nx))
    r = np.array([[resp(2 * np.pi * q, 2 * np.pi * p) for q in fx] for p in fy])
    py_, px_ = np.array(py), np.array(px)
    ey, ex = np.exp(-2j * np.pi * np.outer(fy, py_)), np.exp(-2j * np.pi * np.outer(fx, px_))
    iy = np.clip(np.arange(len(py)) - b0, 0, ny - 1)
    ix = np.clip(np.arange(len(px)) - a0, 0, nx - 1)
    for a in range(ny):
        for b in range(nx):
            z = np.zeros((ny, nx))
            z[a, b] = 1
            padded = z[np.ix_(iy, ix)]
            coef = ey @ padded @ ex.T
            out = (np.conj(ey).T @ (coef * r) @ np.conj(ex)).real / (len(py) * len(px))
            m[:, a * nx + b] = out[b0 : b0 + ny, a0 : a0 + nx].ravel()
    return m


def rad(i, d):
    i, d = np.radians(i), np.radians(d)
    return np.cos(i) * np.sin(d), np.cos(i) * np.cos(d), np.sin(i)


def rtp(inc, dec, mi, md):
    f, m = rad(inc, dec), rad(mi, md)

    def r(kx, ky):
        k = np.hypot(kx, ky)
        if k == 0:
            return 0
        return k * k / ((f[2] * k + 1j * (f[0] * kx + f[1] * ky)) * (m[2] * k + 1j * (m[0] * kx + m[1] * ky)))

    return r


def gauss(w):
    return lambda kx, ky: np.exp(-(kx * kx + ky * ky) / 2 / (2 * np.pi / w) ** 2)


CASES = {
    "up": (lambda g, **k: hm.derivative_upward(g, **k), lambda kx, ky: -np.hypot(kx, ky)),
    "up2": (lambda g, **k: hm.derivative_upward(g, order=2, **k), lambda kx, ky: kx * kx + ky * ky),
    "east": (lambda g, **k: hm.derivative_easting(g, method="fft", **k), lambda kx, ky: 1j * kx),
    "east2": (lambda g, **k: hm.derivative_easting(g, method="fft", order=2, **k), lambda kx, ky: -kx * kx),
    "north": (lambda g, **k: hm.derivative_northing(g, method="fft", **k), lambda kx, ky: 1j * ky),
    "north3": (lambda g, **k: hm.derivative_northing(g, method="fft", order=3, **k), lambda kx, ky: -1j * ky**3),
    "continuation": (lambda g, **k: hm.upward_continuation(g, 1.5, **k), lambda kx, ky: np.exp(-np.hypot(kx, ky) * 1.5)),
    "continuation0": (lambda g, **k: hm.upward_continuation(g, 0, **k), lambda kx, ky: 1),
    "lowpass": (lambda g, **k: hm.gaussian_lowpass(g, 7.0, **k), gauss(7.0)),
    "highpass": (lambda g, **k: hm.gaussian_highpass(g, 7.0, **k), lambda kx, ky: 1 - gauss(7.0)(kx, ky)),
    "rtp": (lambda g, **k: hm.reduction_to_pole(g, 50.0, -20.0, 30.0, 80.0, **k), rtp(50, -20, 30, 80)),
    "rtp induced": (lambda g, **k: hm.reduction_to_pole(g, -35.0, 12.0, **k), rtp(-35, 12, -35, 12)),
    "rtp mixed": (lambda g, **k: hm.reduction_to_pole(g, -35.0, 12.0, magnetization_inclination=20.0, **k), rtp(-35, 12, 20, 12)),
    "rtp same inclination": (lambda g, **k: hm.reduction_to_pole(g, 50.0, -20.0, 50.0, 80.0, **k), rtp(50, -20, 50, 80)),
    "rtp same declination": (lambda g, **k: hm.reduction_to_pole(g, 50.0, -20.0, 30.0, -20.0, **k), rtp(50, -20, 30, -20)),
    "up3": (lambda g, **k: hm.derivative_upward(g, order=3, **k), lambda kx, ky: -np.hypot(kx, ky) ** 3),
    "east5": (lambda g, **k: hm.derivative_easting(g, method="fft", order=5, **k), lambda kx, ky: 1j * kx**5),
    "north4": (lambda g, **k: hm.derivative_northing(g, method="fft", order=4, **k), lambda kx, ky: ky**4),
    "rtp mixed2": (lambda g, **k: hm.reduction_to_pole(g, 35.0, 12.0, magnetization_declination=0, **k), rtp(35, 12, 35, 0)),
}


def nyquist_free(shape):
    return all(n % 2 for n in shape)


@obligation("P27", FUNCS, "grids of 3 by 5 and 4 by 3 nodes, any values in [-1, 1], increasing or decreasing, without padding, with the default one "
            "and others; parameters fixed (P25 decides every parameter)", numeric=True,
            params=[dict(case=c, shape=s, flip=f, pad=p) for c in CASES
                    for s, f, p in (((3, 5), (False, False), False), ((5, 3), (True, True), False), ((4, 4), (False, False), None),
                                    ((3, 3), (False, True), "given"))])
def operators(H, case, shape, flip, pad):
    """Each public transformation is the filter it is named after."""
    fun, resp = CASES[case]
    y, x = axes(shape, flip)
    v = [[H.real(f"v{a}_{b}", -1, 1) for b in range(shape[1])] for a in range(shape[0])]
    grid = make(H, v, y, x, extra=True)
    if pad is False:
        kw, width = {"pad": False}, (0, 0, 0, 0)
    elif pad is None:
        kw, width = {}, tuple(int(n / 4) for n in shape for _ in range(2))
    else:
        kw, width = {"pad_kwargs": {"pad_width": {"easting": (2, 1), "northing": (1, 1)}}}, (1, 1, 2, 1)
    before = repr(kw)
    out = fun(grid, **kw)
    H.prove(repr(kw) == before, "options not modified")
    H.prove(out.dims == grid.dims and list(out.northing.values) == y and list(out.easting.values) == x, "coordinates")
    kept = set() if case.startswith("continuation") else {"height", "epoch"}
    H.prove(set(out.coords) == {"northing", "easting"} | kept, "other coordinates kept, unless the heights of the field change")
    H.prove(all(bool((out[c].values == grid[c].values).all()) for c in kept), "other coordinates as they were")
    m = operator(y, x, resp, width)
    flat = [v[a][b] for a in range(shape[0]) for b in range(shape[1])]
    for k in range(len(flat)):
        want = 0
        for c, f in zip(m[k], flat):
            want = want + H.const(round(float(c), 12)) * f
        close(H, out.values[k // shape[1], k % shape[1]], want, f"node {k}", 1e-6)


def expected(H, v, y, x, width):
    """Finite difference along each horizontal direction, filter upwards."""
    m = operator(y, x, CASES["up"][1], width)
    dy, dx = int(y[1] - y[0]), int(x[1] - x[0])
    out = []
    for a in range(3):
        for b in range(3):
            j0, j1, i0, i1 = max(b - 1, 0), min(b + 1, 2), max(a - 1, 0), min(a + 1, 2)
            u = 0
            for k, c in enumerate(m[3 * a + b]):
                u = u + H.const(round(float(c), 12)) * v[k // 3][k % 3]
            out.append(((v[a][j1] - v[a][j0]) / ((j1 - j0) * dx), (v[i1][b] - v[i0][b]) / ((i1 - i0) * dy), u))
    return out


def options(pad):
    if pad is False:
        return {"pad": False}, (0, 0, 0, 0)
    if pad is None:
        return {}, (0, 0, 0, 0)
    return {"pad_kwargs": {"pad_width": {"easting": (2, 1), "northing": (1, 1)}}}, (1, 1, 2, 1)


@obligation("P27", FUNCS, "grid of 3 by 3 nodes, any values, with and without padding", numeric=True,
            params=[dict(flip=f, pad=p) for f in FLIPS[::3] for p in (False, None, "given")])
def total_gradient(H, flip, pad):
    """Norm of the three derivatives."""
    y, x = axes((3, 3), flip)
    v = [[H.real(f"v{a}_{b}", -1, 1) for b in range(3)] for a in range(3)]
    grid = make(H, v, y, x)
    kw, width = options(pad)
    out = hm.total_gradient_amplitude(grid, **kw)
    H.prove(out.dims == grid.dims and list(out.northing.values) == y and list(out.easting.values) == x, "coordinates")
    de = hm.derivative_easting(grid).values
    dn = hm.derivative_northing(grid).values
    du = hm.derivative_upward(grid, **kw).values
    for k, (e, n, u) in enumerate(expected(H, v, y, x, width)):
        a, b = divmod(k, 3)
        H.equal(de[a, b], e, "easting", rtol=1e-9, scale=1)
        H.equal(dn[a, b], n, "northing", rtol=1e-9, scale=1)
        close(H, du[a, b], u, "upward", 1e-6)
        r = out.values[a, b]
        H.equal(r * r, de[a, b] ** 2 + dn[a, b] ** 2 + du[a, b] ** 2, "square", rtol=1e-9, scale=None if H.symbolic else 1)
        H.nonneg(r, "positive")


@obligation("P27", FUNCS, "grid of 3 by 3 nodes, one symbolic value in [-1, 1] on a fixed field, with and without padding", numeric=True,
            params=[dict(flip=f, pad=p, where=w) for f in FLIPS[::3] for p in (False, None, "given") for w in ((0, 0), (1, 1), (2, 1))])
def tilt(H, flip, pad, where):
    """Angle of the upward derivative with the horizontal gradient."""
    y, x = axes((3, 3), flip)
    base = [[0.25, -0.5, 1.0], [0.125, 0.75, -0.25], [-1.0, 0.5, 0.375]]
    v = [[H.real("v", -1, 1) if (a, b) == where else base[a][b] for b in range(3)] for a in range(3)]
    grid = make(H, v, y, x)
    kw, width = options(pad)
    want = expected(H, v, y, x, width)
    for e, n, _ in want:
        H.assume(e * e + n * n >= H.frac(1, 10**6))
    out = hm.tilt_angle(grid, **kw)
    H.prove(out.dims == grid.dims and list(out.northing.values) == y and list(out.easting.values) == x, "coordinates")
    du = hm.derivative_upward(grid, **kw).values
    for k, (e, n, u) in enumerate(want):
        a, b = divmod(k, 3)
        close(H, du[a, b], u, "upward", 1e-6)
        r, h2 = out.values[a, b], e * e + n * n
        s, c = H.sin(r), H.cos(r)
        # (c, s) is the direction of (h, u)
        close(H, s * s * (h2 + du[a, b] ** 2), du[a, b] ** 2, "sine", 1e-9)
        H.prove(H.both(s * du[a, b] >= -1e-12, c >= -1e-12), "between -90 and 90 degrees, sign of the upward derivative")
