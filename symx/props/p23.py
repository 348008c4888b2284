"""P23 Bouguer correction."""
import harmonica as hm
import numpy as np
import xarray as xr

from ..harness import obligation

FUNCS = ["harmonica.bouguer_correction"]
G = 6.6743e-11


def want(H, t, rc, rw):
    k = 2 * H.pi * H.const(G) * 10**5
    return k * (rc * t if bool(t >= 0) else (rc - rw) * t)


@obligation("P23", FUNCS, "4 heights of any sign (zero included), any densities, arrays and labelled grids", max_paths=100,
            params=[dict(kind=k, default=d) for k in ("1d", "2d", "grid", "labelled 1d") for d in (True, False)])
def plate(H, kind, default):
    t = H.reals("h", 4, -10000, 10000)
    kw = {}
    rc, rw = 2670, 1040
    if not default:
        rc, rw = H.real("crust", 0, 4000), H.real("water", 0, 4000)
        kw = dict(density_crust=rc, density_water=rw)
    if kind in ("1d", "labelled 1d"):
        arr = H.array(t)
        keep = H.array(t)
        topo = xr.DataArray(arr, coords={"x": [3, 1, 2, 0]}, dims="x") if kind != "1d" else arr
    else:
        arr = H.array([t[:2], t[2:]])
        keep = H.array([t[:2], t[2:]])
        topo = xr.DataArray(arr, coords={"y": [3, 1], "x": [0, 5]}, dims=("y", "x")) if kind == "grid" else arr
    res = hm.bouguer_correction(topo, **kw)
    H.prove(np.shape(res) == np.shape(arr), "shape")
    if isinstance(topo, xr.DataArray):
        H.prove(isinstance(res, xr.DataArray) and res.dims == topo.dims, "labelled")
        for d in topo.dims:
            H.prove(list(res[d].values) == list(topo[d].values), "coordinates kept")
        res = res.values
        H.equal(topo.values, keep, "topography not modified")
    else:
        H.equal(arr, keep, "topography not modified")
    res = res.ravel()
    for k in range(4):
        H.equal(res[k], want(H, t[k], rc, rw), "plate", rtol=1e-9)


@obligation("P23", FUNCS, "4 heights held as integers, any real densities; plain, transposed, strided and labelled", max_paths=100,
            params=[dict(kind=k) for k in ("1d", "2d", "transposed", "strided", "grid")])
def integer_heights(H, kind):
    t = [H.integer(f"h{i}", -5000, 5000) for i in range(4)]
    rc, rw = H.real("crust", 0, 4000), H.real("water", 0, 4000)
    if kind == "1d":
        arr = H.int_array(t)
    elif kind == "transposed":
        arr = H.int_array([[t[0], t[2]], [t[1], t[3]]]).T
    elif kind == "strided":
        arr = H.int_array([t[0], 7, t[1], 7, t[2], -7, t[3], 7])[::2]
    else:
        arr = H.int_array([t[:2], t[2:]])
        if kind == "grid":
            arr = xr.DataArray(arr, coords={"y": [3, 1], "x": [0, 5]}, dims=("y", "x"))
    res = hm.bouguer_correction(arr, density_crust=rc, density_water=rw)
    res = getattr(res, "values", res).ravel()
    for k in range(4):
        H.equal(res[k], want(H, t[k], rc, rw), "plate", rtol=1e-9)
    dens = hm.bouguer_correction(H.array([t[0] + H.frac(1, 2)]), rc, rw)
    H.equal(dens[0], want(H, t[0] + H.frac(1, 2), rc, rw), "plate (positional densities)", rtol=1e-9)


@obligation("P23", FUNCS, "3 heights, any of them missing (NaN)", max_paths=200, params=[dict(kind=k) for k in ("1d", "labelled")])
def missing_heights(H, kind):
    t = H.reals("h", 3, -10000, 10000)
    gone = [H.decide(f"gone{i}") for i in range(3)]
    vals = H.array([H.nan if g else x for g, x in zip(gone, t)])
    arr = xr.DataArray(vals, coords={"x": [3, 1, 2]}, dims="x") if kind == "labelled" else vals
    res = hm.bouguer_correction(arr)
    res = getattr(res, "values", res)
    for k in range(3):
        if not gone[k]:
            H.equal(res[k], want(H, t[k], 2670, 1040), "a missing height does not change the others", rtol=1e-9)
