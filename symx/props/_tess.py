"""Shared pieces of the tesseroid checks."""
import contextlib

from .. import core

UT = "harmonica._forward._tesseroid_utils"
TG = "harmonica._forward.tesseroid_gravity"
VD = "harmonica._forward._tesseroid_variable_density"
PT = "harmonica._forward.point"


@contextlib.contextmanager
def setup(H, never_divide=True, kernels=True):
    """The field of one point mass in spherical coordinates (P02) becomes an
    uninterpreted function; arrays kept small."""
    patches = [(TG, "MAX_DISCRETIZATIONS", 60)]
    if never_divide:
        patches += [(TG, "DISTANCE_SIZE_RATII", {"potential": 0, "g_z": 0})]
        if H.symbolic:
            patches += [(UT, "_tesseroid_dimensions", lambda t: (1, 1, 1)),
                        (UT, "_distance_tesseroid_point", lambda p, t: 1)]
    if H.symbolic and kernels:
        for mod in (TG, PT):
            for name in ("potential_spherical", "gravity_u_spherical"):
                patches.append((mod, name, lambda *a, name=name: core.uf(name, *a)))
    with H.patched(*patches):
        yield


def minimizer(H, results=None):
    """scipy's bounded minimiser returns any point of the interval."""
    if not H.symbolic:
        return []
    n = [0]

    class Res:
        pass

    def fake(fun, bounds, method):
        n[0] += 1
        r = Res()
        r.x = core.new_var(f"xmin{n[0]}")
        core.engine().add_fact(core.to_bool(r.x > bounds[0]))
        core.engine().add_fact(core.to_bool(r.x < bounds[1]))
        r.fun = fun(r.x)
        if results is not None:
            results.append((bounds[0], bounds[1], r.x, r.fun))
        return r

    return [(VD, "minimize_scalar", fake)]


def nodes(H, tess, rho):
    """Gauss-Legendre point masses of a tesseroid."""
    import numpy as np

    deg = H.internal(TG, "GLQ_DEGREES")
    w, e, s, n, b, t = tess
    lon, lat, rad, mass = [], [], [], []
    (xl, wl), (xp, wp), (xr, wr) = [np.polynomial.legendre.leggauss(d) for d in deg]
    for x, wx in zip(xl, wl):
        for y, wy in zip(xp, wp):
            for z, wz in zip(xr, wr):
                lo = (e + w) / 2 + (e - w) / 2 * H.const(float(x))
                la = (n + s) / 2 + (n - s) / 2 * H.const(float(y))
                r = (t + b) / 2 + (t - b) / 2 * H.const(float(z))
                vol = H.rad(e - w) * H.rad(n - s) * (t - b) / 8 * r * r * H.cos(H.rad(la))
                lon.append(lo)
                lat.append(la)
                rad.append(r)
                d = rho(r) if callable(rho) else rho
                mass.append(d * vol * H.const(float(wx)) * H.const(float(wy)) * H.const(float(wz)))
    return lon, lat, rad, mass


def oracle(H, obs, pieces, field):
    """Sum of the point masses of all the pieces [(tess, density), ...]."""
    import harmonica as hm

    lon, lat, rad, mass = [], [], [], []
    for t, rho in pieces:
        if H.either(t[0] == t[1], t[2] == t[3], t[4] == t[5], False if callable(rho) else rho == 0):
            continue
        a, b, c, m = nodes(H, t, rho)
        lon += a
        lat += b
        rad += c
        mass += m
    if not lon:
        return H.array([0] * len(obs[0]))
    return hm.point_gravity(obs, (H.array(lon), H.array(lat), H.array(rad)), H.array(mass), field=field,
                            coordinate_system="spherical")


def draw(H, j=0):
    """Valid tesseroid (may have no volume)."""
    t = [H.real(f"w{j}", -180, 180), H.real(f"e{j}", -180, 180), H.real(f"s{j}", -90, 90), H.real(f"n{j}", -90, 90),
         H.real(f"b{j}", 1, 100), H.real(f"t{j}", 1, 100)]
    H.assume(H.both(t[0] <= t[1], t[2] <= t[3], t[4] <= t[5]))
    return t


def point(H, i=0):
    return [H.real(f"lon{i}", -180, 360), H.real(f"lat{i}", -90, 90), H.real(f"r{i}", 150, 400)]
