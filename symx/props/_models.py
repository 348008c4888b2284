"""Every forward model of the package behind one interface."""
import contextlib
import datetime

import harmonica as hm

from .. import core
from ._tess import setup as tess_setup

IG = "harmonica._spherical_harmonics.igrf"


class Ball:
    """Stand-in for a reference ellipsoid (boule's job): a sphere whose
    spherical latitude is a fraction of the geodetic one."""

    name = "ball"

    def __init__(self, H):
        self.H = H

    def geodetic_to_spherical(self, coordinates):
        lon, lat, height = coordinates
        k = self.H.const(0.5)
        return lon, lat * k, height + 6371200


def igrf(H, degree=1):
    m = hm.IGRF14(datetime.datetime(2020, 1, 1), max_degree=degree, ellipsoid=Ball(H))
    n = degree + 1
    g = H.array([[(i * 3 + j + 1) * 10 if i else 0 for j in range(n)] for i in range(n)])
    h = H.array([[(i + 5 * j) * 7 if i and j else 0 for j in range(n)] for i in range(n)])
    m._coefficients = (g, h)
    H.equal(m.coefficients[0], g, "coefficients in use")
    return m


def box(H, vals):
    return H.array([vals, [v + k for v, k in zip(vals, (2, 3, 1, 5, 2, 1))]])


CART = [(-100, 100), (-100, 100), (200, 300)]
SPH = [(30, 60), (-80, 80), (150, 300)]
GEO = [(-180, 180), (-80, 80), (0, 1000)]


def sources(H):
    return tuple(H.array(c) for c in ([10, 20], [-30, 5], [1, 2]))


def sph_sources(H):
    return tuple(H.array(c) for c in ([0, 20], [-30, 5], [60, 62]))


def equivalent(H, cls, **kw):
    e = cls(points=sources(H) if cls is not hm.EquivalentSourcesSph else sph_sources(H), **kw)
    e.coefs_ = H.array([2, -3])
    e.points_ = e.points
    return e


def layer(H):
    return hm.prism_layer((H.array([0, 2]), H.array([0, 3])), H.array([[4, 5], [6, 7]]), 0,
                          properties={"density": H.array([[1, 2], [3, 4]])})


def tess_layer(H):
    return hm.tesseroid_layer((H.array([0, 2]), H.array([0, 3])), H.array([[64, 65], [66, 67]]), 60,
                              properties={"density": H.array([[1, 2], [3, 4]])})


PRISMS = (-4, 4, -6, 6, -3, 2)
TESS = (0, 5, -20, 10, 60, 62)


def models():
    m = {}

    def add(name, domain, n_out, fn, context=None, **opts):
        m[name] = dict(domain=domain, n_out=n_out, fn=fn, context=context or (lambda H: H.kernels("all")), opts=opts)

    for f in ("potential", "g_z"):
        add(f"point {f}", CART, 1, lambda H, c, f=f, **k: hm.point_gravity(c, sources(H), H.array([3, -5]), field=f, **k))
    add("spherical potential", SPH, 1, lambda H, c, **k: hm.point_gravity(c, sph_sources(H), H.array([3, -5]), field="potential",
                                                                          coordinate_system="spherical", **k), sph_kernels)
    add("spherical g_z", SPH, 1, lambda H, c, **k: hm.point_gravity(c, sph_sources(H), H.array([3, -5]), field="g_z",
                                                                    coordinate_system="spherical", **k), sph_kernels)
    for f in ("b", "b_n"):
        add(f"dipole {f}", CART, 3 if f == "b" else 1, lambda H, c, f=f, **k: hm.dipole_magnetic(
            c, sources(H), tuple(H.array(x) for x in ([1, 2], [3, 4], [5, -6])), field=f, **k))
    add("prism g_z", CART, 1, lambda H, c, **k: hm.prism_gravity(c, box(H, PRISMS), H.array([3, -5]), field="g_z", **k))
    for f in ("b", "b_u"):
        add(f"prism {f}", CART, 3 if f == "b" else 1, lambda H, c, f=f, **k: hm.prism_magnetic(
            c, box(H, PRISMS), tuple(H.array(x) for x in ([1, 2], [3, 4], [5, -6])), field=f, **k))
    add("prism layer", CART, 1, lambda H, c, **k: layer(H).prism_layer.gravity(c, field="g_z", **k))
    add("tesseroid", SPH, 1, lambda H, c, **k: hm.tesseroid_gravity(c, box(H, TESS), H.array([3, -5]), field="g_z", disable_checks=True, **k), tess)
    add("tesseroid function", SPH, 1, lambda H, c, **k: hm.tesseroid_gravity(c, H.array([[0, 1, -1, 1, 60, 61]]), constant, field="potential", disable_checks=True, **k), tess)
    add("tesseroid layer", SPH, 1, lambda H, c, **k: tess_layer(H).tesseroid_layer.gravity(c, field="potential", disable_checks=True, **k), tess)
    add("sources", CART, 1, lambda H, c, parallel=True: equivalent(H, hm.EquivalentSources, parallel=parallel).predict(c), far)
    add("boosted sources", CART, 1, lambda H, c, parallel=True: equivalent(H, hm.EquivalentSourcesGB, parallel=parallel).predict(c), far)
    add("spherical sources", SPH, 1, lambda H, c, parallel=True: equivalent(H, hm.EquivalentSourcesSph, parallel=parallel).predict(c), sph_far)
    add("igrf", GEO, 3, lambda H, c, parallel=True: igrf(H).predict(c))
    return m


def constant(radius):
    return 7


@contextlib.contextmanager
def sph_kernels(H):
    names = ("potential_spherical", "gravity_u_spherical")
    items = [("harmonica._forward.point", n, lambda *a, n=n: core.uf(n, *a)) for n in names] if H.symbolic else []
    with H.patched(*items):
        yield


@contextlib.contextmanager
def tess(H):
    with tess_setup(H):
        yield


@contextlib.contextmanager
def far(H):
    items = [("harmonica._equivalent_sources.cartesian", "greens_func_cartesian", lambda *a: core.uf("greens", *a))] if H.symbolic else []
    with H.patched(*items):
        yield


@contextlib.contextmanager
def sph_far(H):
    items = [("harmonica._equivalent_sources.spherical", "greens_func_spherical", lambda *a: core.uf("greens", *a))] if H.symbolic else []
    with H.patched(*items):
        yield


MODELS = models()


def fields(n_out, r):
    return [r] if n_out == 1 else list(r)
