"""P15 gravity of layers of prisms."""
import harmonica as hm

from ..harness import obligation
from .p04 import FIELDS
from .p14 import field2, grid, turned

FUNCS = ["harmonica.prism_layer", "DatasetAccessorPrismLayer.gravity", "_forward_gravity_prism_layer"]
B = "; the closed form of one prism (choclo) is uninterpreted"


def expected(H, field, obs, x, y, hx, hy, low, high, rho, threshold, missing=()):
    name, sign, unit = FIELDS[field]
    kern = H.kernel("prism." + name)
    want = []
    for o in obs:
        t = 0
        for k in range(len(y)):
            for j in range(len(x)):
                if (k, j) in missing:
                    continue
                if H.either(rho[k][j] == 0, high[k][j] == low[k][j]):
                    continue
                if threshold is not None and H.either(high[k][j] - low[k][j] < threshold):
                    continue
                t = t + kern(*o, x[j] - hx / 2, x[j] + hx / 2, y[k] - hy / 2, y[k] + hy / 2, low[k][j], high[k][j], rho[k][j])
        want.append(sign * unit * t)
    return want


def points(H, n):
    return [[H.real(f"{c}{i}", -200, 200) for c in ("east", "north")] + [H.real(f"up{i}", 150, 200)] for i in range(n)]


@obligation("P15", FUNCS, "2 by 2 nodes, increasing or decreasing, any bottom, top and density, 2 points" + B, max_paths=700, witness_paths=2,
            params=[dict(field=f, parallel=p, _tier=t) for f, p, t in
                    [(f, True, "quick") for f in FIELDS] + [("g_z", False, "quick"), ("potential", False, "quick"), ("g_en", False, "quick")]])
def sum_of_prisms(H, field, parallel):
    x, dx = grid(H, 2, "x", -20, 20)
    hy = H.real("dy", 1, 10)
    y = [0, hy] if len(field) != 3 else [0, -hy]
    hx = dx if bool(dx > 0) else -dx
    low = field2(H, "b", 2, 2)
    d = field2(H, "d", 2, 2, 0, 100)
    high = [[low[k][j] + d[k][j] for j in range(2)] for k in range(2)]
    rho = [[H.real("rho", -3000, 3000), 1000], [2000, -50]]
    H.assume(H.both(d[0][0] > 0, d[1][1] > 0))
    obs = points(H, 2)
    if len(field) == 4:
        for o in obs:
            H.assume(H.both(o[0] > 150, o[1] > 100))
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(high), H.array(low), properties={"density": H.array(rho)})
        res = layer.prism_layer.gravity(tuple(H.array([o[c] for o in obs]) for c in range(3)), field=field, parallel=parallel)
        want = expected(H, field, obs, x, y, hx, hy, low, high, rho, None)
    H.equal(res, H.array(want), field)


@obligation("P15", FUNCS, "2 by 2 nodes, northing decreasing, any thickness, any threshold, 1 point" + B, max_paths=700, witness_paths=3,
            params=[dict(field=f) for f in ("g_z", "potential")])
def threshold(H, field):
    x, y, hx, hy = [0, 3], [4, 0], 3, 4
    low = field2(H, "b", 2, 2)
    d = field2(H, "d", 2, 2, 0, 100)
    high = [[low[k][j] + d[k][j] for j in range(2)] for k in range(2)]
    rho = [[10, 20], [30, H.real("rho", -3000, 3000)]]
    thr = H.real("threshold", 0, 50)
    obs = points(H, 1)
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(high), H.array(low), properties={"density": H.array(rho)})
        res = layer.prism_layer.gravity(tuple(H.array([o[c] for o in obs]) for c in range(3)), field=field, thickness_threshold=thr)
        want = expected(H, field, obs, x, y, hx, hy, low, high, rho, thr)
    H.equal(res, H.array(want), field)


@obligation("P15", FUNCS, "2 by 2 nodes, one with a missing density, surface or reference, second property, 1 point" + B, witness_paths=8,
            max_paths=100, params=[dict(field=f, which=w) for f in ("g_z", "g_e") for w in ("density", "surface", "reference", "none")])
def missing(H, field, which):
    x, y, hx, hy = [0, 3], [0, 4], 3, 4
    low = field2(H, "b", 2, 2, -100, 0)
    high = field2(H, "t", 2, 2, 1, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    k0, j0 = H.choice("row", 2), H.choice("column", 2)
    obs = points(H, 1)
    lo, hi, de = [[list(r) for r in a] for a in (low, high, rho)]
    if which != "none":
        {"density": de, "surface": hi, "reference": lo}[which][k0][j0] = H.nan
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(hi), H.array(lo),
                               properties={"other": H.array(rho), "my_density": H.array(de)})
        res, warned = H.warns(lambda: layer.prism_layer.gravity(
            tuple(H.array([o[c] for o in obs]) for c in range(3)), field=field, density_name="my_density"))
        want = expected(H, field, obs, x, y, hx, hy, low, high, rho, None, missing=[(k0, j0)] if which != "none" else [])
    H.equal(res, H.array(want), field)
    H.prove(bool(warned) == (which == "density"), "warning exactly when a density is missing")


HOLES = [((a, b), (c, e), None) for a, b, c, e in ((0, 0, 1, 1), (0, 1, 0, 0), (1, 0, 0, 0))] + [((0, 1), (1, 0), (1, 1)), ((1, 1), (0, 1), (0, 0))]


@obligation("P15", FUNCS, "2 by 2 nodes with a missing density, surface and reference in different nodes, any threshold, 1 point" + B, witness_paths=8,
            max_paths=100, params=[dict(field="g_z", thr=t) for t in (False, True)])
def several_missing(H, field, thr):
    """Each node with something missing is left out, and no other."""
    x, y, hx, hy = [0, 3], [0, 4], 3, 4
    low = field2(H, "b", 2, 2, -100, 0)
    high = field2(H, "t", 2, 2, 1, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    t = H.real("threshold", 0, 50) if thr else None
    obs = points(H, 1)
    lo, hi, de = [[list(r) for r in a] for a in (low, high, rho)]
    holes = HOLES[H.choice("holes", len(HOLES))]
    for place, a in zip(holes, (de, hi, lo)):
        if place:
            a[place[0]][place[1]] = H.nan
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(hi), H.array(lo), properties={"density": H.array(de)})
        res, warned = H.warns(lambda: layer.prism_layer.gravity(
            tuple(H.array([o[c] for o in obs]) for c in range(3)), field=field, thickness_threshold=t))
        want = expected(H, field, obs, x, y, hx, hy, low, high, rho, t, missing=[h for h in holes if h])
    H.equal(res, H.array(want), field)
    H.prove(bool(warned), "warning of a missing density")


@obligation("P15", FUNCS, "2 by 2 nodes, surface given below and above the reference, 1 point" + B, params=[dict(field=f) for f in FIELDS],
            max_paths=100, witness_paths=2)
def same_as_prism_gravity(H, field):
    """The layer gives what the function for prisms gives for its list."""
    x, y = [0, H.real("dx", 1, 9)], [0, H.real("dy", 1, 9) * (-1 if field in ("potential", "g_ee", "g_ez") else 1)]
    surf = [[H.real("s0", -100, 100), 20], [-30, H.real("s1", -100, 100)]]
    ref = H.real("ref", -20, 19)
    rho = [[10, 20], [30, H.real("rho", -3000, 3000)]]
    obs = points(H, 1)
    if len(field) == 4:
        H.assume(H.both(obs[0][0] > 150, obs[0][1] > 100))
    coords = tuple(H.array([o[c] for o in obs]) for c in range(3))
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(surf), ref, properties={"density": H.array(rho)})
        res = layer.prism_layer.gravity(coords, field=field)
        prisms, dens = [], []
        for k in range(2):
            for j in range(2):
                prisms.append(list(layer.prism_layer.get_prism((k, j))))
                dens.append(rho[k][j])
        want = hm.prism_gravity(coords, H.array(prisms), H.array(dens), field=field)
    H.equal(res, want, field)


@obligation("P15", FUNCS, "2 by 2 nodes, any bottom, top and density, variables with their dimensions in any order, 1 point" + B, max_paths=100, witness_paths=2,
            params=[dict(field=f, how=h, parallel=p) for f, h, p in (("g_z", "all", True), ("potential", "properties", False), ("g_e", "top", True), ("g_nn", "bottom", True))])
def dimensions(H, field, how, parallel):
    """Every prism with its own density and heights, whatever the order of the
    dimensions of each variable."""
    x, y, hx, hy = [0, 3], [0, 4], 3, 4
    low = field2(H, "b", 2, 2, -100, 0)
    high = field2(H, "t", 2, 2, 1, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    obs = points(H, 1)
    with H.kernels("all"):
        layer = hm.prism_layer((H.array(x), H.array(y)), H.array(high), H.array(low), properties={"density": H.array(rho)})
        res = turned(H, layer, how).prism_layer.gravity(tuple(H.array([o[c] for o in obs]) for c in range(3)), field=field, parallel=parallel)
        want = expected(H, field, obs, x, y, hx, hy, low, high, rho, None)
    H.equal(res, H.array(want), field)
