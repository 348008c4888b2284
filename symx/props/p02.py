"""P02 point masses in geocentric spherical coordinates."""
import harmonica as hm
from choclo.constants import GRAVITATIONAL_CONST as G

from ..harness import obligation

FUNCS = ["harmonica._forward.point.point_gravity", "point_mass_spherical_*", "potential_spherical",
         "gravity_u_spherical", "harmonica._forward.utils.distance_spherical_core"]
BOUNDS = ("longitudes -360..720, latitudes -90..90, radii > 0, masses any reals; {} observation points, {} masses, "
          "no coincident points")


def unit(H, lon, lat):
    lo, la = H.rad(lon), H.rad(lat)
    return [H.cos(la) * H.cos(lo), H.cos(la) * H.sin(lo), H.sin(la)]


def draw(H, tag, n):
    return [
        [H.real(f"lon{tag}{i}", -360, 720) for i in range(n)],
        [H.real(f"lat{tag}{i}", -90, 90) for i in range(n)],
        [H.real(f"r{tag}{i}", 1, 1000) for i in range(n)],
    ]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def law(H, field, obs, src, m):
    u, v = unit(H, obs[0], obs[1]), unit(H, src[0], src[1])
    d = [src[2] * v[k] - obs[2] * u[k] for k in range(3)]
    r2 = dot(d, d)
    H.assume(r2 > 0)
    r = H.sqrt(r2)
    g = H.const(G)
    if field == "potential":
        return g * m / r
    # downward component of the attraction
    return -g * m * dot(d, u) / (r2 * r) * 100000


@obligation("P02", FUNCS, BOUNDS.format("2 (or 1)", "2 (or 1)"),
            params=[dict(field=f, parallel=p, n=n) for f in ("potential", "g_z") for p, n in ((True, 2), (False, 2), (True, 1))])
def newton_spherical(H, field, parallel, n):
    obs, src = draw(H, "o", n), draw(H, "p", n)
    m = H.reals("m", n, -1000, 1000)
    want = []
    for i in range(n):
        w = 0
        for j in range(n):
            w = w + law(H, field, [c[i] for c in obs], [c[j] for c in src], m[j])
        want.append(w)
    res = hm.point_gravity(tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src), H.array(m), field=field,
                           coordinate_system="spherical", parallel=parallel)
    H.equal(res, H.array(want), field, rtol=1e-5)


@obligation("P02", FUNCS, BOUNDS.format(1, 1), params=[dict(field=f) for f in ("potential", "g_z")])
def longitude_wrap(H, field):
    """Adding whole turns to any longitude or rotating everything about the
    axis changes nothing."""
    obs, src = draw(H, "o", 1), draw(H, "p", 1)
    m = H.reals("m", 1, -1000, 1000)
    law(H, field, [c[0] for c in obs], [c[0] for c in src], m[0])
    shift = H.real("shift", -180, 180)

    def run(a, b):
        return hm.point_gravity(
            (H.array([obs[0][0] + a]), H.array(obs[1]), H.array(obs[2])),
            (H.array([src[0][0] + b]), H.array(src[1]), H.array(src[2])),
            H.array(m), field=field, coordinate_system="spherical")

    base = run(0, 0)
    H.equal(run(360, 0), base, "turn of the observation point", rtol=1e-5)
    H.equal(run(0, -360), base, "turn of the source", rtol=1e-5)
    H.equal(run(shift, shift), base, "rotation", rtol=1e-5)


@obligation("P02", FUNCS, "4 masses and 1 point or 1 mass and 4 points, in arrays of any shape and memory order",
            params=[dict(field=f, kind=k) for f in ("potential", "g_z") for k in ("sources", "points")])
def memory_order(H, field, kind):
    n, k = (1, 4) if kind == "sources" else (4, 1)
    obs, src = draw(H, "o", n), draw(H, "p", k)
    m = H.reals("m", k, -1000, 1000)
    for i in range(n):
        for j in range(k):
            H.assume(obs[2][i] > src[2][j] + 1)

    def lay(how, v):
        return H.lay(how, v) if len(v) == 4 else H.array(v)

    def run(a, b, c):
        return hm.point_gravity(tuple(lay(a, x) for x in obs), tuple(lay(b, x) for x in src), lay(c, m), field=field,
                                coordinate_system="spherical")

    res = run("transposed", "transposed", "2d")
    H.prove(res.shape == lay("transposed", obs[0]).shape, "shape of the points")
    H.equal(res.ravel(), run("1d", "1d", "1d"), field, rtol=1e-5)
