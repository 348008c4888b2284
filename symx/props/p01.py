"""P01 point masses, Cartesian."""
import harmonica as hm
from choclo.constants import GRAVITATIONAL_CONST as G

from ..harness import obligation

FUNCS = ["harmonica._forward.point.point_gravity", "point_mass_cartesian_*", "get_kernel", "dispatcher",
         "choclo.point.gravity_*"]
ALIASES = {"g_ne": "g_en", "g_ze": "g_ez", "g_zn": "g_nz"}
FIELDS = ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz", "g_ne", "g_ze", "g_zn"]


def law(H, field, d, m):
    """Newton's law for one mass; d = observation - source."""
    g = H.const(G)
    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    r = H.sqrt(r2)
    if field == "potential":
        return g * m / r
    ax = {"e": 0, "n": 1, "z": 2}
    sgn = {"e": 1, "n": 1, "z": -1}
    f = ALIASES.get(field, field)[2:]
    if len(f) == 1:
        return -sgn[f] * g * m * d[ax[f]] / (r2 * r) * 100000
    i, j = ax[f[0]], ax[f[1]]
    delta = r2 if i == j else 0
    return sgn[f[0]] * sgn[f[1]] * g * m * (3 * d[i] * d[j] - delta) / (r2 * r2 * r) * 10**9


@obligation("P01", FUNCS, "2 observation points, 2 masses, coordinates and masses any reals, no coincident points",
            params=[dict(field=f, parallel=p) for f in FIELDS for p in (True, False)], domain="check")
def newton(H, field, parallel):
    obs = [H.reals(c, 2, -100, 100) for c in ("e", "n", "u")]
    src = [H.reals(c, 2, -100, 100) for c in ("pe", "pn", "pu")]
    m = H.reals("m", 2, -1000, 1000)
    d = {}
    for i in range(2):
        for j in range(2):
            d[i, j] = [obs[k][i] - src[k][j] for k in range(3)]
            v = d[i, j]
            H.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] > 0)
    res = hm.point_gravity(tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src), H.array(m),
                           field=field, parallel=parallel)
    want = [law(H, field, d[i, 0], m[0]) + law(H, field, d[i, 1], m[1]) for i in range(2)]
    H.equal(res, H.array(want), field)


@obligation("P01", FUNCS, "4 masses and 4 points in arrays of any shape and memory order; the kernel of one mass (choclo) is uninterpreted",
            params=[dict(field=f, kind=k) for f in ("potential", "g_z", "g_en") for k in ("2d", "transposed", "strided", "reversed", "mixed", "observations")])
def memory_order(H, field, kind):
    obs = [H.reals(c, 4, -100, 100) for c in ("e", "n", "u")]
    src = [H.reals(c, 4, -100, 100) for c in ("pe", "pn", "pu")]
    m = H.reals("m", 4, -1000, 1000)
    for i in range(4):
        for j in range(4):
            H.assume(obs[2][i] > src[2][j])
    so, ss, sm = {"mixed": ("column", "transposed", "2d"), "observations": ("transposed", "1d", "strided")}.get(kind, ("1d", kind, kind))
    with H.kernels("all"):
        base = hm.point_gravity(tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src), H.array(m), field=field)
        res = hm.point_gravity(tuple(H.lay(so, c) for c in obs), tuple(H.lay(ss, c) for c in src), H.lay(sm, m), field=field)
    H.prove(res.shape == H.lay(so, [0] * 4).shape, "shape of the points")
    H.equal(res.ravel(), base, field)
