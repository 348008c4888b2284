"""P37 distances between points."""

from ..harness import obligation

MOD = "harmonica._forward.utils"
FUNCS = ["harmonica._forward.utils.distance", "distance_cartesian", "distance_spherical", "distance_geodetic",
         "geodetic_distance_core"]
BOUNDS = "any two points (longitudes -360..720, latitudes -90..90), any oblate ellipsoid"


def cart(H, p, system, ell):
    if system == "cartesian":
        return p
    lo, la = H.rad(p[0]), H.rad(p[1])
    cl, sl, cp, sp = H.cos(lo), H.sin(lo), H.cos(la), H.sin(la)
    if system == "spherical":
        return [p[2] * cp * cl, p[2] * cp * sl, p[2] * sp]
    n = ell.prime_vertical_radius(sp)
    e2 = ell.first_eccentricity * ell.first_eccentricity
    return [(n + p[2]) * cp * cl, (n + p[2]) * cp * sl, (n * (1 - e2) + p[2]) * sp]


class Ell:
    def __init__(self, H):
        self.H = H
        self.a = H.real("a", 1, 1000)
        self.first_eccentricity = H.real("ecc", 0, 0.99)

    def prime_vertical_radius(self, sinphi):
        e2 = self.first_eccentricity * self.first_eccentricity
        return self.a / self.H.sqrt(1 - e2 * sinphi * sinphi)


def draw(H, tag, system):
    if system == "cartesian":
        return H.reals(tag, 3, -100, 100)
    return [H.real(tag + "lon", -360, 720), H.real(tag + "lat", -90, 90),
            H.real(tag + "r", 1, 1000) if system == "spherical" else H.real(tag + "h", -10, 1000)]


@obligation("P37", FUNCS, BOUNDS,
            params=[dict(system=s) for s in ("cartesian", "spherical", "geodetic")])
def euclidean(H, system):
    distance = H.internal(MOD, "distance")
    ell = Ell(H) if system == "geodetic" else None
    p, q = draw(H, "p", system), draw(H, "q", system)
    P, Q = cart(H, p, system, ell), cart(H, q, system, ell)
    d2 = sum((x - y) * (x - y) for x, y in zip(P, Q))
    H.assume(d2 > (0 if H.symbolic else 1e-3))
    d = distance(tuple(p), tuple(q), system, ell)
    H.equal(d * d, d2, "straight-line distance squared", rtol=1e-4)
    H.prove(d >= 0, "not negative")
    H.equal(distance(tuple(q), tuple(p), system, ell), d, "symmetric", rtol=1e-4)


@obligation("P37", FUNCS, BOUNDS,
            params=[dict(system=s) for s in ("cartesian", "spherical")])
def coincident(H, system):
    distance = H.internal(MOD, "distance")
    p = draw(H, "p", system)
    d = distance(tuple(p), tuple(p), system, None)
    H.equal(d * d, 0 * d, "distance from a point to itself", rtol=1e-4, scale=None if H.symbolic else 1.0)


@obligation("P37", FUNCS, BOUNDS, params=[dict(system=s) for s in ("spherical", "geodetic")])
def turns(H, system):
    distance = H.internal(MOD, "distance")
    ell = Ell(H) if system == "geodetic" else None
    p, q = draw(H, "p", system), draw(H, "q", system)
    P, Q = cart(H, p, system, ell), cart(H, q, system, ell)
    H.assume(sum((x - y) * (x - y) for x, y in zip(P, Q)) > (0 if H.symbolic else 1e-3))
    d = distance(tuple(p), tuple(q), system, ell)
    H.equal(distance((p[0] + 360, p[1], p[2]), tuple(q), system, ell), d, "full turn", rtol=1e-4)
