"""P14 geometry of layers of prisms."""
import harmonica as hm

from ..harness import obligation

FUNCS = ["harmonica.prism_layer", "update_top_bottom", "get_prism", "_to_prisms", "spacing", "boundaries",
         "_get_prism_horizontal_boundaries", "_check_regular_grid"]


def grid(H, n, name, lo=-100, hi=100):
    """n coordinates with any spacing of any sign."""
    x0, d = H.real(name + "0", lo, hi), H.real("d" + name, -50, 50)
    H.assume(H.either(d >= H.frac(1, 10), d <= H.frac(-1, 10)))
    return [x0 + d * k for k in range(n)], d


def mag(H, d):
    return d if bool(d > 0) else -d


def field2(H, name, ny, nx, lo=-100, hi=100):
    return [[H.real(f"{name}{k}{j}", lo, hi) for j in range(nx)] for k in range(ny)]


@obligation("P14", FUNCS, "grids of {2 by 2, 2 by 3, 3 by 2} nodes, increasing or decreasing, any spacing, surface and reference anywhere",
            max_paths=400, params=[dict(shape=(2, 2), ref="array"), dict(shape=(2, 3), ref="number"), dict(shape=(3, 2), ref="number")])
def geometry(H, shape, ref):
    ny, nx = shape
    x, dx = grid(H, nx, "x")
    y, dy = grid(H, ny, "y")
    surf = field2(H, "s", ny, nx) if ref == "array" else [[H.real(f"s{k}", -100, 100)] * nx for k in range(ny)]
    r = field2(H, "r", ny, nx) if ref == "array" else H.real("r", -100, 100)
    surf_in = H.array(surf)
    ref_in = H.array(r) if ref == "array" else r
    layer = hm.prism_layer((H.array(x), H.array(y)), surf_in, ref_in)
    H.prove(tuple(layer.prism_layer.shape) == shape, "shape")
    H.prove(layer.prism_layer.size == ny * nx, "size")
    hx, hy = mag(H, dx), mag(H, dy)
    sp = layer.prism_layer.spacing
    H.equal(sp[0], hy, "spacing northing")
    H.equal(sp[1], hx, "spacing easting")
    for k in range(ny):
        for j in range(nx):
            p = layer.prism_layer.get_prism((k, j))
            rr = r[k][j] if ref == "array" else r
            a, b = surf[k][j], rr
            low, high = (a, b) if bool(a < b) else (b, a)
            want = [x[j] - hx / 2, x[j] + hx / 2, y[k] - hy / 2, y[k] + hy / 2, low, high]
            for name, got, w in zip(("west", "east", "south", "north", "bottom", "top"), p, want):
                H.equal(got, w, name)
            H.prove(p[0] < p[1], "west < east")
            H.prove(p[2] < p[3], "south < north")
            H.prove(p[4] <= p[5], "bottom <= top")
    edges = layer.prism_layer.boundaries
    H.equal(edges[0], (x[0] if bool(dx > 0) else x[-1]) - hx / 2, "west of the layer")
    H.equal(edges[1], (x[-1] if bool(dx > 0) else x[0]) + hx / 2, "east of the layer")
    H.equal(edges[2], (y[0] if bool(dy > 0) else y[-1]) - hy / 2, "south of the layer")
    H.equal(edges[3], (y[-1] if bool(dy > 0) else y[0]) + hy / 2, "north of the layer")
    H.equal(surf_in, H.array(surf), "surface not modified")


@obligation("P14", FUNCS, "2 by 2 nodes, every sequence of 2 updates, the second maybe invalid", max_paths=400,
            params=[dict(second=s) for s in ("array", "number", "bad surface", "bad reference")])
def updates(H, second):
    """Only the last accepted surface and reference count."""
    x, dx = grid(H, 2, "x")
    y, dy = grid(H, 2, "y")
    s1, s2 = H.real("s1", -100, 100), field2(H, "s2", 2, 2)
    r1 = H.real("r1", -100, 100)
    layer = hm.prism_layer((H.array(x), H.array(y)), H.array([[s1] * 2] * 2), r1)
    acc = layer.prism_layer
    if second == "array":
        r2 = field2(H, "r2", 2, 2)
        acc.update_top_bottom(H.array(s2), H.array(r2))
        surf, ref = s2, r2
    elif second == "number":
        r = H.real("r2", -100, 100)
        acc.update_top_bottom(H.array(s2), r)
        surf, ref = s2, [[r, r], [r, r]]
    else:
        bad = H.array([s2[0] + [1], s2[1] + [2]])
        ok = H.array(s2)
        args = (bad, 0) if second == "bad surface" else (ok, bad)
        H.prove(H.raises(lambda: acc.update_top_bottom(*args))[0], "rejected")
        surf, ref = [[s1] * 2] * 2, [[r1] * 2] * 2
    for k in range(2):
        for j in range(2):
            p = acc.get_prism((k, j))
            a, b = surf[k][j], ref[k][j]
            low, high = (a, b) if bool(a < b) else (b, a)
            H.equal(p[4], low, "bottom")
            H.equal(p[5], high, "top")


@obligation("P14", FUNCS, "3 coordinates in each direction, evenly spaced or off by more than 1 %", max_paths=200,
            params=[dict(axis=a) for a in ("easting", "northing")])
def irregular_rejected(H, axis):
    x0, d1, d2 = H.real("x0", -100, 100), H.real("d1", 1, 50), H.real("d2", 1, 50)
    even = H.decide("even")
    if even:
        H.assume(d1 == d2)
    else:
        H.assume(H.either(d1 - d2 > d2 / 100, d2 - d1 > d1 / 100))
    c = H.array([x0, x0 + d1, x0 + d1 + d2])
    other = H.array([0, 1, 2])
    coords = (c, other) if axis == "easting" else (other, c)
    bad = H.raises(lambda: hm.prism_layer(coords, H.array([[0] * 3] * 3), -1))[0]
    H.prove(bool(bad) == (not even), "rejected iff irregular")


@obligation("P14", FUNCS, "2 by 3 nodes, 2 properties, any values")
def properties_keep_their_node(H):
    x, dx = grid(H, 3, "x")
    y, dy = grid(H, 2, "y")
    a, b = field2(H, "a", 2, 3), field2(H, "b", 2, 3)
    layer = hm.prism_layer((H.array(x), H.array(y)), H.array([[1] * 3] * 2), 0,
                           properties={"density": H.array(a), "susceptibility": H.array(b)})
    H.prove(tuple(layer.density.dims) == ("northing", "easting"), "dimensions")
    for k in range(2):
        H.equal(layer.northing.values[k], y[k], "northing")
        for j in range(3):
            H.equal(layer.easting.values[j], x[j], "easting")
            H.equal(layer.density.values[k, j], a[k][j], "density")
            H.equal(layer.susceptibility.values[k, j], b[k][j], "susceptibility")
            sel = layer.isel(northing=k, easting=j)
            H.equal(sel.top.values, 1, "top")


@obligation("P14", FUNCS, "2 by 2 nodes, any node of a surface or reference missing (NaN), then a full surface, then one with a missing node", max_paths=600,
            params=[dict(where=w) for w in ("first", "second", "reference")])
def missing_nodes(H, where):
    """A missing node stays missing, whatever the layer was before."""
    x, dx = grid(H, 2, "x")
    y, dy = grid(H, 2, "y")
    s = [None, None]
    r = [H.real(f"r{k}", -100, 100) for k in range(2)]
    hole = H.choice("hole", 4)
    hk, hj = divmod(hole, 2)

    def holed(a):
        return [[H.nan if (k, j) == (hk, hj) else a[k][j] for j in range(2)] for k in range(2)]

    s[0] = [[H.real("a", -100, 100)] * 2] * 2
    s[1] = [[H.real(f"b{k}", -100, 100)] * 2 for k in range(2)]
    first = holed(s[0]) if where == "first" else s[0]
    second = holed(s[1]) if where == "second" else s[1]
    ref2 = H.array(holed([[r[1]] * 2] * 2)) if where == "reference" else r[1]
    layer = hm.prism_layer((H.array(x), H.array(y)), H.array(first), r[0])
    layer.prism_layer.update_top_bottom(H.array(second), ref2)
    for k in range(2):
        for j in range(2):
            p = layer.prism_layer.get_prism((k, j))
            if (k, j) == (hk, hj) and where != "first":
                top, bottom = layer.top.values[k, j], layer.bottom.values[k, j]
                H.prove(is_nan(H, top) or is_nan(H, bottom), "missing node")
                continue
            a, b = s[1][k][j], r[1]
            low, high = (a, b) if bool(a < b) else (b, a)
            H.equal(p[4], low, "bottom")
            H.equal(p[5], high, "top")


def is_nan(H, v):
    from .. import snp

    return (snp._scalar(v) is H.nan) if H.symbolic else bool(v != v)


@obligation("P14", FUNCS, "2 by 3 nodes, heights held as integers, references as integers or reals, arrays in any memory order", max_paths=400,
            params=[dict(kind=k) for k in ("integers", "integer reference", "transposed", "lists", "labelled")])
def inputs(H, kind):
    import xarray as xr

    x, dx = grid(H, 3, "x")
    y, dy = grid(H, 2, "y")
    if kind in ("integers", "integer reference"):
        one = [[H.integer(f"s{k}", -50, 50)] * 3 for k in range(2)]
    else:
        one = [[H.real(f"s{k}", -50, 50)] * 3 for k in range(2)]
    ref = H.real("r", -50, 50)
    rr = [[ref] * 3] * 2
    cx, cy = H.array(x), H.array(y)
    if kind == "integers":
        surf, r = H.int_array(one), ref
    elif kind == "integer reference":
        rr, one = one, [[H.real(f"t{k}", -50, 50)] * 3 for k in range(2)]
        surf, r = H.array(one), H.int_array(rr)
    elif kind == "transposed":
        surf = H.array([[one[k][j] for k in range(2)] for j in range(3)]).T
        r = H.array([[ref, ref]] * 3).T
    elif kind == "lists":
        surf, r, cx, cy = H.array(one), ref, list(x), list(y)
    else:
        surf = xr.DataArray(H.array(one), coords={"northing": cy, "easting": cx}, dims=("northing", "easting"))
        r = ref
    layer = hm.prism_layer((cx, cy), surf, r)
    for k in range(2):
        a, b = one[k][0], rr[k][0]
        low, high = (a, b) if bool(a < b) else (b, a)
        for j in range(3):
            p = layer.prism_layer.get_prism((k, j))
            H.equal(p[4], low, "bottom")
            H.equal(p[5], high, "top")
            H.equal(p[0], x[j] - mag(H, dx) / 2, "west")
            H.equal(p[3], y[k] + mag(H, dy) / 2, "north")


def turned(H, layer, how):
    """The same layer with its variables in another order of dimensions."""
    if how == "all":
        return layer.transpose()
    names = list(layer.data_vars)
    if how == "properties":
        return layer.assign({n: layer[n].transpose() for n in names})
    return layer.assign_coords({how: layer[how].transpose()})


@obligation("P14", FUNCS, "2 by 3 and 2 by 2 nodes, any surface, variables with their dimensions in any order", max_paths=100,
            params=[dict(nx=n, how=h) for n, h in ((3, "all"), (2, "all"), (2, "top"), (2, "bottom"), (3, "top"))])
def dimensions(H, nx, how):
    """Labels say which prism a value belongs to, not the memory order."""
    x, dx = grid(H, nx, "x")
    y, dy = grid(H, 2, "y")
    low = field2(H, "b", 2, nx, -100, 0)
    high = field2(H, "t", 2, nx, 1, 100)
    layer = turned(H, hm.prism_layer((H.array(x), H.array(y)), H.array(high), H.array(low)), how)
    H.prove(tuple(layer.prism_layer.shape) == (2, nx), "shape")
    for k in range(2):
        for j in range(nx):
            p = layer.prism_layer.get_prism((k, j))
            H.equal(p[4], low[k][j], "bottom")
            H.equal(p[5], high[k][j], "top")
            H.equal(p[0], x[j] - mag(H, dx) / 2, "west")
            H.equal(p[3], y[k] + mag(H, dy) / 2, "north")
