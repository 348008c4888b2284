"""P34 synthesis of the IGRF field."""
import datetime

import harmonica as hm
import numpy as np

from ..harness import obligation
from .p33 import closed

IG = "harmonica._spherical_harmonics.igrf"
FUNCS = ["harmonica.IGRF14.predict", "harmonica.IGRF14.grid", f"{IG}.spherical_harmonics_magnetic_field", f"{IG}.spherical_harmonics_magnetic_field_grid",
         f"{IG}.vector_spherical_to_geodetic", "harmonica._spherical_harmonics.legendre.*"]
R = 6371200


class Figure:
    """Stand-in for a reference ellipsoid: spherical latitude and radius of
    each geodetic latitude and height are any numbers."""

    name = "figure"

    def __init__(self, fn):
        self.fn = fn

    def geodetic_to_spherical(self, coordinates):
        lon, lat, height = coordinates
        out = np.empty(np.shape(lat), dtype=object), np.empty(np.shape(lat), dtype=object)
        for k in np.ndindex(np.shape(lat)):
            out[0][k], out[1][k] = self.fn(k, lat[k], height[k])
        return lon, self.cast(out[0]), self.cast(out[1])

    def cast(self, x):
        return self.array(x.tolist())


def model(H, fn, lo, hi):
    e = Figure(fn)
    e.array = H.array
    m = hm.IGRF14(datetime.datetime(2020, 1, 1), min_degree=lo, max_degree=hi, ellipsoid=e)
    g = [[H.real(f"g{n}_{k}", -1000, 1000) if 0 < n and k <= n else 0 for k in range(hi + 1)] for n in range(hi + 1)]
    h = [[H.real(f"h{n}_{k}", -1000, 1000) if 0 < n and 0 < k <= n else 0 for k in range(hi + 1)] for n in range(hi + 1)]
    m._coefficients = (H.array(g), H.array(h))
    H.equal(m.coefficients[0], H.array(g), "coefficients in use")
    return m, g, h


def near(H, lat, r):
    """With facts about the cosine of that range of angles (close to a pole
    it is the distance to it: sin x between 0.9999 x and x)."""
    c = H.cos(H.rad(lat))
    for d in (90 - lat, 90 + lat):
        H.assume(H.either(d >= 1, H.both(c <= d * H.frac(17453293, 10**9), c >= d * H.frac(1745, 10**5))))
    H.assume(H.cos(H.rad(lat)) > H.frac(1, 100000))
    return lat, r


def truth(H, g, h, lo, hi, lon, lat, r, geodetic):
    """Minus the gradient of R sum (R/r)^(n+1) (g cos mL + h sin mL) P(cos t):
    (east times the cosine of the latitude, north, up)."""
    lon, lat = H.rad(lon), H.rad(lat)
    c, s = H.sin(lat), H.cos(lat)
    east = north = up = H.const(0)
    for n in range(lo, hi + 1):
        f = (H.const(R) / r) ** (n + 2)
        for m in range(n + 1):
            p, dp = closed(H, n, m, c, s, "schmidt", 0), closed(H, n, m, c, s, "schmidt", 1)
            a = g[n][m] * H.cos(m * lon) + h[n][m] * H.sin(m * lon)
            b = -g[n][m] * H.sin(m * lon) + h[n][m] * H.cos(m * lon)
            up = up + (n + 1) * f * a * p
            north = north + f * a * dp
            east = east - f * m * b * p
    d = lat - H.rad(geodetic)
    cd, sd = H.cos(d), H.sin(d)
    return east, cd * north + sd * up, cd * up - sd * north, s


@obligation("P34", FUNCS, "any longitude, latitude, spherical latitude (not within 0.0006 degrees of a pole) and radius, any coefficients; degrees lo to hi", budget=300,
            witness_paths=4,
            params=[dict(lo=1, hi=1), dict(lo=1, hi=3), dict(lo=2, hi=3), dict(lo=3, hi=3), dict(lo=1, hi=4), dict(lo=1, hi=6, _tier="thorough", _budget=800)])
def gradient(H, lo, hi):
    """Each component at each of two points."""
    n = 2 if hi < 3 else 1
    sph = [near(H, H.real(f"sph{i}", -89.9994, 89.9994), H.real(f"r{i}", 6000000, 8000000)) for i in range(n)]
    m, g, h = model(H, lambda k, lat, height: sph[k[0]], lo, hi)
    lon, lat = H.reals("lon", n, -180, 360), H.reals("lat", n, -90, 90)
    got = m.predict((H.array(lon), H.array(lat), H.array(H.reals("height", n, -1000, 1000))))
    for i in range(n):
        east, north, up, s = truth(H, g, h, lo, hi, lon[i], *sph[i], lat[i])
        get = [got[k] if n == 1 else got[k][i] for k in range(3)]
        if n == 1:
            get = [v[0] if isinstance(v, np.ndarray) else v for v in get]
        big = None if H.symbolic else 1000
        if H.symbolic:
            H.equal(get[0] * s, east, "east")
        else:
            H.equal(get[0], east / s, "east", rtol=1e-4, scale=big)
        H.equal(get[1], north, "north", rtol=1e-6, scale=big)
        H.equal(get[2], up, "up", rtol=1e-6, scale=big)


@obligation("P34", FUNCS, "both poles of the sphere, any geodetic latitude, longitude, radius and coefficients, degrees 1 to 3", budget=200,
            params=[dict(pole=90), dict(pole=-90)])
def poles(H, pole):
    """North (along the meridian of the longitude given) and up are right at
    the poles too; the east component is finite (the code sets it to zero)."""
    r = H.real("r", 6000000, 8000000)
    m, g, h = model(H, lambda k, lat, height: (H.const(pole), r), 1, 3)
    lon, lat = H.real("lon", -180, 360), H.real("lat", -90, 90)
    got = m.predict((H.array([lon, lon]), H.array([lat, lat]), H.array([0, 0])))
    east, north, up, s = truth(H, g, h, 1, 3, lon, H.const(pole), r, lat)
    for i in range(2):
        H.equal(got[1][i], north, "north", rtol=1e-6, scale=None if H.symbolic else 1000)
        H.equal(got[2][i], up, "up", rtol=1e-6, scale=None if H.symbolic else 1000)
        H.prove(H.both(got[0][i] < 10 ** 9, got[0][i] > -10 ** 9), "east is finite")


@obligation("P34", FUNCS, "spherical latitudes of 1e-2, 1e-3 and 7e-4 degrees from a pole; any longitude, geodetic latitude, radius and coefficients; degrees 1 and 2",
            params=[dict(pole=p, d=d) for p in (90, -90) for d in (0.01, 0.001, 0.0007)])
def close_to_poles(H, pole, d):
    """Nothing is special about points that are not on the pole."""
    ends = sorted((pole - d * pole / 90, pole - 0.9 * d * pole / 90))
    sph = near(H, H.real("sph", *ends), H.real("r", 6000000, 8000000))
    m, g, h = model(H, lambda k, lat, height: sph, 1, 2)
    lon, lat = H.real("lon", -180, 360), H.real("lat", -90, 90)
    H.assume(g[1][1] >= 100)
    got = m.predict((H.array([lon, lon]), H.array([lat, lat]), H.array([0, 0])))
    east, north, up, s = truth(H, g, h, 1, 2, lon, *sph, lat)
    for i in range(2):
        for k, w in enumerate((east, north, up)):
            if k == 0 and H.symbolic:
                H.equal(got[0][i] * s, east, "east")
            else:
                H.equal(got[k][i], w if k else w / s, "enu"[k], rtol=1e-4, scale=None if H.symbolic else 1000)
    ds = m.grid((-20, 40, -30, 30), 250.0, shape=(2, 2))
    other = m.predict((H.array([-20, 40]), H.array([30, 30]), H.array([250, 250])))
    for k, name in enumerate(("b_east", "b_north", "b_up")):
        H.equal(ds[name].values[1], other[k], f"grid {name}", rtol=1e-4, scale=None if H.symbolic else 1000)


@obligation("P34", FUNCS, "a grid of 3 by 2 (by shape or spacing), coefficients of degrees lo to hi, spherical latitude and radius any numbers "
            "for each parallel", budget=300, params=[dict(lo=1, hi=2, by="shape"), dict(lo=2, hi=3, by="spacing")])
def grid(H, lo, hi, by):
    """Predicting on a grid is predicting on its points, and the values are
    labelled with their coordinates."""
    table = {}

    def figure(k, lat, height):
        key = float(lat)
        if key not in table:
            table[key] = near(H, H.real(f"sph{len(table)}", -89.9994, 89.9994), H.real(f"r{len(table)}", 6000000, 8000000))
        return table[key]

    m, g, h = model(H, figure, lo, hi)
    height = 250.0
    region = (-20, 40, -30, 30)
    ds = m.grid(region, height, **(dict(shape=(3, 2)) if by == "shape" else dict(spacing=(30, 60))))
    H.prove(ds.b_east.dims == ("latitude", "longitude") and ds.b_east.shape == (3, 2), "dimensions")
    H.equal(list(ds.latitude.values), [-30, 0, 30], "latitudes")
    H.equal(list(ds.longitude.values), [-20, 40], "longitudes")
    lon, lat = np.meshgrid(ds.longitude.values, ds.latitude.values)
    want = m.predict((H.array(lon.tolist()), H.array(lat.tolist()), H.array([[height] * 2] * 3)))
    for name, w in zip(("b_east", "b_north", "b_up"), want):
        H.equal(ds[name].values, w, name, rtol=1e-6 if name != "b_east" else 1e-4, scale=None if H.symbolic else 1000)
    H.equal(ds.height.values, H.array([[height] * 2] * 3), "height")
    H.prove(ds.attrs["units"] == "nT" and ds.attrs["crs"] == "figure" and ds.attrs["date"] == "2020-01-01T00:00:00", "attributes")
