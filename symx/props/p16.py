"""P16 layers of tesseroids and their gravity."""
import harmonica as hm

from ..harness import obligation
from ._tess import oracle, setup
from .p14 import field2, turned
from .p15 import HOLES

FUNCS = ["harmonica.tesseroid_layer", "update_top_bottom", "get_tesseroid", "_to_tesseroids", "_get_nonans_mask",
         "_discard_thin_tesseroids", "DatasetAccessorTesseroidLayer.gravity", "_check_overlap", "_check_regular_grid"]
B = "; field of a point mass (decided by P02) uninterpreted"


def axis(H, n, name, lo, hi, smax):
    x0, d = H.real(name + "0", lo, hi), H.real("d" + name, -smax, smax)
    H.assume(H.either(d >= H.frac(1, 10), d <= H.frac(-1, 10)))
    return [x0 + d * k for k in range(n)], d


def radii(H, name, ny, nx):
    return field2(H, name, ny, nx, 50, 100)


@obligation("P16", FUNCS, "2 by 2 and 2 by 3 nodes, increasing or decreasing, any spacing, surface and reference", max_paths=400,
            params=[dict(shape=(2, 2), ref="array"), dict(shape=(2, 3), ref="number")])
def geometry(H, shape, ref):
    ny, nx = shape
    x, dx = axis(H, nx, "lon", -180, 180, 60)
    y, dy = axis(H, ny, "lat", -45, 45, 30)
    surf = radii(H, "s", ny, nx) if ref == "array" else [[H.real(f"s{k}", 50, 100)] * nx for k in range(ny)]
    r = radii(H, "r", ny, nx) if ref == "array" else H.real("r", 50, 100)
    layer = hm.tesseroid_layer((H.array(x), H.array(y)), H.array(surf), H.array(r) if ref == "array" else r)
    acc = layer.tesseroid_layer
    H.prove(tuple(acc.shape) == shape, "shape")
    H.prove(acc.size == ny * nx, "size")
    hx, hy = (dx if bool(dx > 0) else -dx), (dy if bool(dy > 0) else -dy)
    H.equal(acc.spacing[0], hy, "spacing latitude")
    H.equal(acc.spacing[1], hx, "spacing longitude")
    for k in range(ny):
        for j in range(nx):
            p = acc.get_tesseroid((k, j))
            a, b = surf[k][j], (r[k][j] if ref == "array" else r)
            low, high = (a, b) if bool(a < b) else (b, a)
            want = [x[j] - hx / 2, x[j] + hx / 2, y[k] - hy / 2, y[k] + hy / 2, low, high]
            for name, got, w in zip(("west", "east", "south", "north", "bottom", "top"), p, want):
                H.equal(got, w, name)
    edges = acc.boundaries
    H.equal(edges[0], (x[0] if bool(dx > 0) else x[-1]) - hx / 2, "west of the layer")
    H.equal(edges[1], (x[-1] if bool(dx > 0) else x[0]) + hx / 2, "east of the layer")
    H.equal(edges[2], (y[0] if bool(dy > 0) else y[-1]) - hy / 2, "south of the layer")
    H.equal(edges[3], (y[-1] if bool(dy > 0) else y[0]) + hy / 2, "north of the layer")


@obligation("P16", FUNCS, "3 longitudes and 3 latitudes, evenly spaced or off by more than 1 %, any span but within 1e-6 of one turn",
            max_paths=200, params=[dict(axis=a) for a in ("longitude", "latitude")])
def rejected_iff(H, axis):
    x0, d1, d2 = H.real("x0", -90, 90), H.real("d1", 1, 179), H.real("d2", 1, 179)
    even = H.decide("even")
    if even:
        H.assume(d1 == d2)
    else:
        H.assume(H.either(d1 - d2 > d2 / 100, d2 - d1 > d1 / 100))
    H.assume(H.either(3 * d1 <= 360, 3 * d1 >= 360 + H.frac(1, 1000)))
    flip = H.decide("decreasing")
    c = [x0, x0 + d1, x0 + d1 + d2]
    c = H.array(c[::-1] if flip else c)
    other = H.array([0, 1, 2])
    coords = (c, other) if axis == "longitude" else (other, c)
    if axis == "latitude":
        H.assume(d1 + d2 <= 80)
    bad = H.raises(lambda: hm.tesseroid_layer(coords, H.array([[60] * 3] * 3), 50))[0]
    over = axis == "longitude" and bool(3 * d1 > 360)
    if even or axis == "latitude":
        H.prove(bool(bad) == (not even or over), "rejected iff irregular or overlapping")
    else:
        H.prove(bool(bad), "irregular rejected")


@obligation("P16", FUNCS, "2 by 2 nodes, every sequence of 2 updates, the second maybe invalid", max_paths=400,
            params=[dict(second=s) for s in ("array", "number", "bad surface", "bad reference")])
def updates(H, second):
    s1, s2 = H.real("s1", 50, 100), radii(H, "s2", 2, 2)
    r1 = H.real("r1", 50, 100)
    layer = hm.tesseroid_layer((H.array([0, 10]), H.array([0, 5])), H.array([[s1] * 2] * 2), r1)
    acc = layer.tesseroid_layer
    if second == "array":
        ref = radii(H, "r2", 2, 2)
        acc.update_top_bottom(H.array(s2), H.array(ref))
        surf = s2
    elif second == "number":
        r = H.real("r2", 50, 100)
        acc.update_top_bottom(H.array(s2), r)
        surf, ref = s2, [[r, r], [r, r]]
    else:
        bad = H.array([s2[0] + [60], s2[1] + [70]])
        args = (bad, 50) if second == "bad surface" else (H.array(s2), bad)
        H.prove(H.raises(lambda: acc.update_top_bottom(*args))[0], "rejected")
        surf, ref = [[s1] * 2] * 2, [[r1] * 2] * 2
    for k in range(2):
        for j in range(2):
            p = acc.get_tesseroid((k, j))
            a, b = surf[k][j], ref[k][j]
            low, high = (a, b) if bool(a < b) else (b, a)
            H.equal(p[4], low, "bottom")
            H.equal(p[5], high, "top")


def build(H, n=1):
    x, y = [10, 14], [20, 26]
    obs = [[H.real(f"lon{i}", 30, 60), H.real(f"lat{i}", -80, 80), H.real(f"r{i}", 150, 300)] for i in range(n)]
    return x, y, obs


def pieces(x, y, low, high, rho, skip=()):
    return [([x[j] - 2, x[j] + 2, y[k] - 3, y[k] + 3, low[k][j], high[k][j]], rho[k][j])
            for k in range(2) for j in range(2) if (k, j) not in skip]


@obligation("P16", FUNCS, "2 by 2 nodes, any bottom, top, density and threshold, 2 points, no division" + B,
            max_paths=300, witness_paths=2,
            params=[dict(field=f, thr=t, checks=c, parallel=p) for f in ("potential", "g_z")
                    for t, c, p in ((False, True, True), (True, True, True), (True, False, False))])
def sum_of_tesseroids(H, field, thr, checks, parallel):
    x, y, obs = build(H, 2)
    low = [[H.real("b0", 50, 100), 60], [60, H.real("b1", 50, 100)]]
    d = [[H.real("d0", 0, 50), 5], [10, H.real("d1", 0, 50)]]
    high = [[low[k][j] + d[k][j] for j in range(2)] for k in range(2)]
    rho = [[10, 20], [30, H.real("rho", -3000, 3000)]]
    t = H.real("threshold", 0, 50) if thr else None
    keep = pieces(x, y, low, high, rho)
    if thr:
        keep = [p for p in keep if not bool(p[0][5] - p[0][4] < t)]
    coords = tuple(H.array([o[c] for o in obs]) for c in range(3))
    layer = hm.tesseroid_layer((H.array(x), H.array(y)), H.array(high), H.array(low), properties={"density": H.array(rho)})
    with setup(H):
        res = layer.tesseroid_layer.gravity(coords, field=field, thickness_threshold=t, disable_checks=not checks, parallel=parallel)
        want = oracle(H, coords, keep, field)
    H.equal(res, want, field, rtol=1e-5, scale=None if H.symbolic else max([abs(v) for v in want] + [1e-12]))


@obligation("P16", FUNCS, "2 by 2 nodes, one with a missing density, surface or reference, second property, 1 point, no division" + B,
            witness_paths=8, max_paths=100,
            params=[dict(field=f, which=w) for f in ("g_z", "potential") for w in ("density", "surface", "reference", "both", "none")])
def missing(H, field, which):
    x, y, obs = build(H)
    low = field2(H, "b", 2, 2, 50, 60)
    high = field2(H, "t", 2, 2, 61, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    k0, j0 = H.choice("row", 2), H.choice("column", 2)
    lo, hi, de = [[list(r) for r in a] for a in (low, high, rho)]
    if which == "both":
        hi[k0][j0] = de[k0][j0] = H.nan
    elif which != "none":
        {"density": de, "surface": hi, "reference": lo}[which][k0][j0] = H.nan
    coords = tuple(H.array([o[c] for o in obs]) for c in range(3))
    layer = hm.tesseroid_layer((H.array(x), H.array(y)), H.array(hi), H.array(lo),
                               properties={"other": H.array(rho), "my_density": H.array(de)})
    with setup(H):
        res, warned = H.warns(lambda: layer.tesseroid_layer.gravity(coords, field=field, density_name="my_density"))
        want = oracle(H, coords, pieces(x, y, low, high, rho, [(k0, j0)] if which != "none" else []), field)
    H.equal(res, want, field, rtol=1e-5)
    H.prove(bool(warned) == (which == "density"), "warning exactly when only a density is missing")


@obligation("P16", FUNCS, "2 by 2 nodes with a missing density, surface and reference in different nodes, any threshold, 1 point, no division" + B,
            witness_paths=8, max_paths=100, params=[dict(field="g_z", thr=t) for t in (False, True)])
def several_missing(H, field, thr):
    """Each node with something missing is left out, and no other."""
    x, y, obs = build(H)
    low = field2(H, "b", 2, 2, 50, 60)
    high = field2(H, "t", 2, 2, 61, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    t = H.real("threshold", 0, 50) if thr else None
    lo, hi, de = [[list(r) for r in a] for a in (low, high, rho)]
    holes = HOLES[H.choice("holes", len(HOLES))]
    for place, a in zip(holes, (de, hi, lo)):
        if place:
            a[place[0]][place[1]] = H.nan
    coords = tuple(H.array([o[c] for o in obs]) for c in range(3))
    layer = hm.tesseroid_layer((H.array(x), H.array(y)), H.array(hi), H.array(lo), properties={"density": H.array(de)})
    keep = pieces(x, y, low, high, rho, [h for h in holes if h])
    if thr:
        keep = [p for p in keep if not bool(p[0][5] - p[0][4] < t)]
    with setup(H):
        res, warned = H.warns(lambda: layer.tesseroid_layer.gravity(coords, field=field, thickness_threshold=t))
        want = oracle(H, coords, keep, field)
    H.equal(res, want, field, rtol=1e-5, scale=None if H.symbolic else max([abs(v) for v in want] + [1e-12]))
    H.prove(bool(warned), "warning of a missing density")


@obligation("P16", FUNCS, "2 by 2 nodes, any bottom, top and density, one of them maybe missing, variables with their dimensions in any order, 1 point, no division" + B,
            max_paths=100, witness_paths=4,
            params=[dict(field=f, how=h, hole=m) for f, h, m in (("g_z", "all", False), ("potential", "properties", True), ("g_z", "top", True), ("g_z", "bottom", False))])
def dimensions(H, field, how, hole):
    """Every tesseroid with its own density and heights, whatever the order of
    the dimensions of each variable."""
    x, y, obs = build(H)
    low = field2(H, "b", 2, 2, 50, 60)
    high = field2(H, "t", 2, 2, 61, 100)
    rho = field2(H, "rho", 2, 2, 1, 3000)
    k0, j0 = (H.choice("row", 2), H.choice("column", 2)) if hole else (None, None)
    de = [[H.nan if (k, j) == (k0, j0) else rho[k][j] for j in range(2)] for k in range(2)]
    coords = tuple(H.array([o[c] for o in obs]) for c in range(3))
    layer = turned(H, hm.tesseroid_layer((H.array(x), H.array(y)), H.array(high), H.array(low), properties={"density": H.array(de)}), how)
    for k in range(2):
        for j in range(2):
            p = layer.tesseroid_layer.get_tesseroid((k, j))
            H.equal(p[4], low[k][j], "bottom")
            H.equal(p[5], high[k][j], "top")
    with setup(H):
        res = H.warns(lambda: layer.tesseroid_layer.gravity(coords, field=field))[0]
        want = oracle(H, coords, pieces(x, y, low, high, rho, [(k0, j0)]), field)
    H.equal(res, want, field, rtol=1e-5)
