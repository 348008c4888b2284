"""P11 adaptive discretization of tesseroids."""
import math

from .. import core
from ..harness import obligation

UT = "harmonica._forward._tesseroid_utils"
FUNCS = [UT + "._adaptive_discretization", "_split_tesseroid", "_tesseroid_dimensions", "_distance_tesseroid_point"]


MARK = -987654


def room(H, rows):
    return H.array([[MARK] * 6] * rows) if rows else H.snp().empty((0, 6))


def run(H, point, tess, ratio, rows, radial, stack_rows=None):
    """Pieces of a tesseroid, or None if there was no room for them; and the
    stack afterwards."""
    f = H.internal(UT, "_adaptive_discretization")
    stack, small = room(H, rows if stack_rows is None else stack_rows), room(H, rows)
    try:
        n = int(f(tuple(point), H.array(tess), ratio, stack, small, radial))
    except OverflowError:
        return None, stack
    return [[small[k, c] for c in range(6)] for k in range(n)], stack


def first_division(H, point, tess, ratio, radial):
    """Into how many parts each dimension is divided to begin with (found from
    the stack, with room for those parts only and for no result)."""
    whole = run(H, point, tess, ratio, 1, radial)[0]
    if whole is not None:
        return 1, 1, 1
    for parts in (2, 4, 8):
        _, stack = run(H, point, tess, ratio, 0, radial, parts)
        last = core._wrap(stack[parts - 1, 0]) if H.symbolic else stack[parts - 1, 0]
        if not (last.is_const() if H.symbolic else True) or last != MARK:
            size = [(stack[0, k + 1] - stack[0, k], tess[k + 1] - tess[k]) for k in (0, 2, 4)]
            each = tuple(2 if bool(4 * a < 3 * b) else 1 for a, b in size)
            H.prove(each[0] * each[1] * each[2] == parts, "halves")
            return each
    H.prove(False, "two, four or eight parts")


def any_geometry(H, radial, splits):
    """Sizes are arbitrary positive numbers, different for every piece, but at
    most so many pieces (any of them) are too large and so divided."""
    seen, left = {}, [splits]

    def dims(tess):
        key = str([core._wrap(tess[k]) if H.symbolic else float(tess[k]) for k in range(6)])
        if key not in seen:
            n = len(seen) + 1
            names = [c for c in "xyz" if radial or c != "z"]
            if left[0] and H.choice(f"divided{n}", 2):
                left[0] -= 1
                sizes = {c: H.real(f"size{n}{c}", 0.001, 100) for c in names}
                H.assume(H.either(*[v > 1 for v in sizes.values()]))
            else:
                sizes = {c: H.real(f"size{n}{c}", 0.001, 1) for c in names}
            seen[key] = tuple(sizes.get(c, 1) for c in "xyz")
        return seen[key]

    return dims, lambda p, tess: 1


def abstract(H, radial, splits):
    dims, dist = any_geometry(H, radial, splits)
    return H.patched((UT, "_tesseroid_dimensions", dims), (UT, "_distance_tesseroid_point", dist))


def bounded(H, leaves):
    if leaves is None:  # beyond the bound
        raise core.Infeasible if H.symbolic else core.Unsupported("bound")
    return leaves


@obligation("P11", FUNCS, "any tesseroid, any sizes and distances (an arbitrary number per piece), at most 3 divisions",
            params=[dict(radial=False, splits=3), dict(radial=True, splits=2), dict(radial=True, splits=3, _tier="thorough"),
                    dict(radial=False, splits=4, _tier="thorough")],
            max_paths=4000, witness_paths=4, lemmas=False)
def tiles(H, radial, splits):
    """The pieces cover the tesseroid, without gaps or overlaps."""
    t = [H.real(c, -100, 100) for c in "wesnbt"]
    H.assume(H.both(t[0] < t[1], t[2] < t[3], t[4] < t[5]))
    x = [H.real(c, -100, 100) for c in "xyz"]
    H.assume(H.both(*[H.both(x[k] >= t[2 * k], x[k] < t[2 * k + 1]) for k in range(3)]))
    with abstract(H, radial, splits):
        leaves = bounded(H, run(H, (0, 0, 200), t, 1, 40, radial)[0])
    n = len(leaves)
    tol = 0 if H.symbolic else 1e-7  # rounding

    def holds(lf, tol):
        return H.both(*[H.both(x[k] >= lf[2 * k] - tol, x[k] < lf[2 * k + 1] + tol) for k in range(3)])

    H.prove(H.either(*[holds(lf, tol) for lf in leaves]), "covered")
    hits = [holds(lf, -tol) for lf in leaves]
    for i in range(n):
        for j in range(i):
            H.prove(H.no(H.both(hits[i], hits[j])), "no overlap")
    for lf in leaves:
        H.prove(H.both(*[H.both(lf[2 * k] >= t[2 * k] - tol, lf[2 * k] < lf[2 * k + 1] + tol, lf[2 * k + 1] <= t[2 * k + 1] + tol)
                         for k in range(3)]), "inside the tesseroid")
        if not radial:
            H.equal(lf[4], t[4], "bottom kept")
            H.equal(lf[5], t[5], "top kept")


def geometry(H, p, t):
    """Distance to the centre and sizes (great-circle arcs at the top)."""
    lo, la = H.rad(p[0]), H.rad(p[1])
    lc, pc, rc = H.rad((t[0] + t[1]) / 2), H.rad((t[2] + t[3]) / 2), (t[4] + t[5]) / 2
    u = [H.cos(la) * H.cos(lo), H.cos(la) * H.sin(lo), H.sin(la)]
    v = [H.cos(pc) * H.cos(lc), H.cos(pc) * H.sin(lc), H.sin(pc)]
    d2 = sum((p[2] * a - rc * b) * (p[2] * a - rc * b) for a, b in zip(u, v))
    dlon, dlat = H.rad(t[1] - t[0]), H.rad(t[3] - t[2])
    cosw = H.sin(pc) * H.sin(pc) + H.cos(pc) * H.cos(pc) * H.cos(dlon)
    return d2, cosw, dlat


@obligation("P11", FUNCS, "any tesseroid up to 180 degrees wide that is not divided, any point, any ratio", domain="assume",
            params=[dict(radial=False), dict(radial=True)], max_paths=40, light=True, witness_paths=1)
def accepted_satisfy_ratio(H, radial):
    t = [H.real("w", -180, 180), H.real("e", -180, 360), H.real("s", -90, 90), H.real("n", -90, 90),
         H.real("b", 1, 100), H.real("t", 1, 100)]
    H.assume(H.both(t[0] < t[1], t[1] - t[0] <= 180, t[2] < t[3], t[4] < t[5]))
    p = [H.real("lon", -180, 360), H.real("lat", -90, 90), H.real("r", 101, 1000)]
    ratio = H.real("ratio", 0.1, 5)

    bounded(H, run(H, p, t, ratio, 1, radial)[0])
    d2, cosw, dlat = geometry(H, p, t)
    d = H.sqrt(d2)
    np_ = H.snp()
    lon_size = t[5] * np_.arccos(cosw)
    # arc between two latitudes on one meridian
    lat_size = t[5] * np_.arccos(H.cos(dlat))
    tol = 0 if H.symbolic else 1e-7 * t[5]
    H.prove(d >= ratio * lon_size - tol, "far enough for its width")
    H.prove(d >= ratio * lat_size - tol, "far enough for its height")
    if radial:
        H.prove(d >= ratio * (t[5] - t[4]) - tol, "far enough for its thickness")


@obligation("P11", FUNCS, "any tesseroid up to 180 degrees wide that is divided at once, any point", domain="assume",
            params=[dict(radial=False), dict(radial=True)], max_paths=80, light=True, witness_paths=1)
def divided_only_if_needed(H, radial):
    """A dimension is halved only if it is too large for the distance."""
    t = [H.real("w", -180, 180), H.real("e", -180, 360), H.real("s", -90, 90), H.real("n", -90, 90),
         H.real("b", 1, 100), H.real("t", 1, 100)]
    H.assume(H.both(t[0] < t[1], t[1] - t[0] <= 180, t[2] < t[3], t[4] < t[5]))
    p = [H.real("lon", -180, 360), H.real("lat", -90, 90), H.real("r", 101, 1000)]
    ratio = H.real("ratio", 0.1, 5)
    got = first_division(H, p, t, ratio, radial)
    if got == (1, 1, 1):
        H.prove(True, "not divided")
        return
    d2, cosw, dlat = geometry(H, p, t)
    d = H.sqrt(d2)
    np_ = H.snp()
    sizes = [t[5] * np_.arccos(cosw), t[5] * np_.arccos(H.cos(dlat)), t[5] - t[4]]
    if not radial:
        H.prove(got[2] == 1, "never along the radius")
    tol = 0 if H.symbolic else 1e-7 * t[5]
    for k in range(3):
        if got[k] == 2:
            H.prove(d < ratio * sizes[k] + tol, "halved because it is too large")


PLACES = [((10, 11, 20, 22, 90, 91), (40, 5)), ((-170, -130, -30, 20, 50, 100), (120, -80)), ((350, 360, 60, 90, 2, 99), (0, 89)),
          ((0, 1, 0, 1, 1, 100), (0.5, 0.5)), ((-100, 50, 10, 30, 60, 100), (100, -20))]


@obligation("P11", FUNCS, "tesseroids and directions of points in 5 given places, any distance and any ratio", numeric=True, witness_paths=4, max_paths=40,
            params=[dict(place=k, radial=r) for k in range(5) for r in (False, True)])
def along_radius(H, place, radial):
    """Divided exactly along the dimensions that are too large for the
    distance between the point and the centre."""
    (w, e, s, n, *_), (lon, lat) = PLACES[place]
    t = [H.const(v) for v in PLACES[place][0]]
    p = [H.const(lon), H.const(lat), H.real("r", 101, 1000)]
    ratio = H.real("ratio", 0.1, 5)
    parts = first_division(H, p, t, ratio, radial)
    lo, la, lc, pc, rc = *(math.radians(v) for v in (lon, lat, (w + e) / 2, (s + n) / 2)), (t[4] + t[5]) / 2
    cosine = math.sin(la) * math.sin(pc) + math.cos(la) * math.cos(pc) * math.cos(lo - lc)
    width = math.acos(math.sin(pc) ** 2 + math.cos(pc) ** 2 * math.cos(math.radians(e - w)))
    d2 = p[2] * p[2] + rc * rc - 2 * p[2] * rc * H.const(cosine)
    for k, size in enumerate((t[5] * H.const(width), t[5] * H.const(math.radians(n - s)), t[5] - t[4])):
        limit = ratio * ratio * size * size
        if k == 2 and not radial:
            H.prove(parts[k] == 1, "never along the radius")
        elif parts[k] == 2:
            H.prove(d2 <= limit * H.const(1.001) + H.const(0.001), "halved because it is too large")
        else:
            H.prove(d2 >= limit * H.const(0.999) - H.const(0.001), "not halved because it is small")


@obligation("P11", FUNCS, "any tesseroid, any sizes and distances, at most 3 divisions; stack or output of every size up to what is needed",
            witness_paths=4, max_paths=4000, budget=240, lemmas=False, params=[dict(splits=1), dict(splits=3)])
def overflow_is_reported(H, splits):
    """Running out of room is an error, never a truncated result, and room for
    the pieces is enough."""
    t = [H.real(c, -100, 100) for c in "wesnbt"]
    H.assume(H.both(t[0] < t[1], t[2] < t[3], t[4] < t[5]))
    with abstract(H, False, splits):
        leaves = bounded(H, run(H, (0, 0, 200), t, 1, 40, False)[0])
        n = len(leaves)
        again = run(H, (0, 0, 200), t, 1, n, False)[0]
        H.prove(again is not None and len(again) == n, "room for the pieces is enough")
        for rows in range(n):
            H.prove(run(H, (0, 0, 200), t, 1, rows, False, 40)[0] is None, "no room for the last piece")
        for rows in range(1, n):
            few = run(H, (0, 0, 200), t, 1, n, False, rows)[0]
            H.prove(few is None or len(few) == n, "all the pieces or an error")
