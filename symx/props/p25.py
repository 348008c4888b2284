"""P25 responses of the frequency domain filters."""
import harmonica as hm
import harmonica.filters as hf
import numpy as np
import xarray as xr

from ..harness import obligation

FUNCS = ["harmonica.filters.derivative_upward_kernel", "derivative_easting_kernel", "derivative_northing_kernel",
         "upward_continuation_kernel", "gaussian_lowpass_kernel", "gaussian_highpass_kernel", "reduction_to_pole_kernel"]
B = "3 by 3 frequencies with zero and any others"


def spectrum(H):
    """Grid in the frequency domain and its angular wavenumbers."""
    fe = [H.real("fe0", -2, 2), 0, H.real("fe1", -2, 2)]
    fn = [H.real("fn0", -2, 2), 0, H.real("fn1", -2, 2)]
    H.assume(H.both(fe[0] < 0, fe[2] > 0, fn[0] < 0, fn[2] > 0))
    grid = xr.DataArray(H.array([[1] * 3] * 3), coords={"freq_northing": H.array(fn), "freq_easting": H.array(fe)},
                        dims=("freq_northing", "freq_easting"))
    return grid, [2 * H.pi * f for f in fe], [2 * H.pi * f for f in fn]


def at(res, a, b):
    """Value of the response, whatever dimensions it has."""
    sel = {}
    if "freq_northing" in res.dims:
        sel["freq_northing"] = a
    if "freq_easting" in res.dims:
        sel["freq_easting"] = b
    return res.isel(sel).values[()] if hasattr(res.isel(sel).values, "dtype") else res.isel(sel).values


def parts(x):
    return (x.real, x.imag)


def compare(H, res, want, label):
    a, b = parts(res), want
    H.equal(a[0], b[0], label + " (real)", rtol=1e-7, scale=None if H.symbolic else 1e-3 + abs(complex(*map(float, b))))
    H.equal(a[1], b[1], label + " (imaginary)", rtol=1e-7, scale=None if H.symbolic else 1e-3 + abs(complex(*map(float, b))))


@obligation("P25", FUNCS, B + ", orders 1 to 4",
            params=[dict(direction=d, order=o) for d in ("easting", "northing", "upward") for o in (1, 2, 3, 4)])
def derivatives(H, direction, order):
    grid, ke, kn = spectrum(H)
    fun = getattr(hf, f"derivative_{direction}_kernel")
    res = fun(grid, order=order) if order > 1 else fun(grid)
    for a in range(3):
        for b in range(3):
            if direction == "upward":
                k2 = ke[b] * ke[b] + kn[a] * kn[a]
                base = -H.sqrt(k2)
                want = 1
                for _ in range(order):
                    want = want * base
                want = (want, 0)
            else:
                k = ke[b] if direction == "easting" else kn[a]
                p = 1
                for _ in range(order):
                    p = p * k
                want = [(0, p), (-p, 0), (0, -p), (p, 0)][order - 1]
            compare(H, at(res, a, b), want, f"({a}, {b})")


@obligation("P25", FUNCS, B + ", any height")
def continuation(H):
    grid, ke, kn = spectrum(H)
    h = H.real("h", -1, 1)
    res = hf.upward_continuation_kernel(grid, h)
    for a in range(3):
        for b in range(3):
            k = H.sqrt(ke[b] * ke[b] + kn[a] * kn[a])
            compare(H, at(res, a, b), (H.exp(-k * h), 0), f"({a}, {b})")


@obligation("P25", FUNCS, B + ", any heights")
def continuation_composes(H):
    grid, ke, kn = spectrum(H)
    h, g = H.real("h", -1, 1), H.real("g", -1, 1)
    r1, r2, r3 = (hf.upward_continuation_kernel(grid, x) for x in (h, g, h + g))
    for a in range(3):
        for b in range(3):
            H.equal(at(r1, a, b) * at(r2, a, b), at(r3, a, b), "exp(-k h) exp(-k g)", rtol=1e-7)


@obligation("P25", FUNCS, B + ", any wavelength")
def gaussian(H):
    grid, ke, kn = spectrum(H)
    w = H.real("wavelength", 1, 100)
    low, high = hf.gaussian_lowpass_kernel(grid, w), hf.gaussian_highpass_kernel(grid, w)
    for a in range(3):
        for b in range(3):
            fe2 = ke[b] * ke[b] + kn[a] * kn[a]
            kc = 2 * H.pi / w
            want = H.exp(-fe2 / (2 * kc * kc))
            compare(H, at(low, a, b), (want, 0), f"low ({a}, {b})")
            compare(H, at(low, a, b) + at(high, a, b), (1, 0), "low + high = 1")


@obligation("P25", FUNCS, B + ", any directions that are not horizontal", params=[dict(same=s) for s in (True, False)])
def reduction(H, same):
    grid, ke, kn = spectrum(H)
    inc, dec = H.real("inc", -90, 90), H.real("dec", -180, 180)
    mi, md = (inc, dec) if same else (H.real("minc", -90, 90), H.real("mdec", -180, 180))
    for x in (inc, mi):
        H.assume(H.either(H.sin(H.rad(x)) >= H.frac(1, 10), H.sin(H.rad(x)) <= -H.frac(1, 10)))
    res = hf.reduction_to_pole_kernel(grid, inc, dec, mi, md)

    def theta(i, d, a, b, k):
        i, d = H.rad(i), H.rad(d)
        return k * H.sin(i), H.cos(i) * H.sin(d) * ke[b] + H.cos(i) * H.cos(d) * kn[a]

    for a in range(3):
        for b in range(3):
            got = at(res, a, b)
            if a == 1 and b == 1:
                compare(H, got, (0, 0), "zero wavenumber")
                continue
            k2 = ke[b] * ke[b] + kn[a] * kn[a]
            k = H.sqrt(k2)
            f, m = theta(inc, dec, a, b, k), theta(mi, md, a, b, k)
            den = (f[0] * m[0] - f[1] * m[1], f[0] * m[1] + f[1] * m[0])
            # response times both projections is |k|^2
            gr, gi = parts(got)
            H.equal(gr * den[0] - gi * den[1], k2, "real", rtol=1e-7)
            H.equal(gr * den[1] + gi * den[0], 0, "imaginary", rtol=1e-7, scale=None if H.symbolic else k2)


@obligation("P25", FUNCS, B, params=[dict(up=u) for u in (90, -90)])
def pole_is_pole(H, up):
    """Field and magnetization vertical: nothing to reduce."""
    grid, ke, kn = spectrum(H)
    res = hf.reduction_to_pole_kernel(grid, up, H.real("dec", -180, 180), up, H.real("mdec", -180, 180))
    for a in range(3):
        for b in range(3):
            if (a, b) != (1, 1):
                compare(H, at(res, a, b), (1, 0), "identity")
