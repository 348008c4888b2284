"""P09 tesseroids: which are accepted, and longitude normalisation."""
import harmonica as hm
import numpy as np

from ..harness import obligation
from ._tess import setup

FUNCS = ["harmonica.tesseroid_gravity", "_check_tesseroids", "_longitude_continuity"]
BOX = ("w", "e", "s", "n", "b", "t")


def draw(H, j=0):
    return [H.real(f"w{j}", -800, 800), H.real(f"e{j}", -800, 800), H.real(f"s{j}", -200, 200),
            H.real(f"n{j}", -200, 200), H.real(f"b{j}", -10, 1000), H.real(f"t{j}", -10, 1000)]


def wrap180(H, x):
    return (x + 180) % 360 - 180


def acceptable(H, t):
    w, e, s, n, b, top = t
    basic = H.both(-90 <= s, s <= n, n <= 90, 0 <= b, b <= top, -180 <= w, w <= 360, -180 <= e, e <= 360)
    ordered = H.both(w <= e, e - w <= 360)
    # given across the seam: eastward from west to east, both taken to [-180, 180)
    crossing = H.both(w > e, wrap180(H, w) <= wrap180(H, e))
    return H.both(basic, H.either(ordered, crossing))


OTHERS = ([10, 20, 10, 20, 5, 6], [350, 10, 10, 20, 5, 6], [170, 190, 10, 20, 5, 6], [-180, 180, 10, 20, 5, 6], [0, 360, 10, 20, 5, 6])


@obligation("P09", FUNCS, "2 tesseroids, one with any six numbers and one of: ordinary, across the seam, about 180 degrees, a full turn (both conventions)",
            max_paths=900, params=[dict(kind=k, other=n) for n in range(5) for k in ("number", "callable") if k == "number" or n == 0])
def accepted_iff(H, kind, other):
    ts = [draw(H, 0), list(OTHERS[other])]
    if H.choice("order", 2):
        ts.reverse()
    empty = np.array([], dtype=float)
    rho = H.array([0, 0]) if kind == "number" else (lambda r: 1.0)
    if kind == "callable":
        # nothing to divide: constant density needs no optimisation
        ts = [t[:5] + [t[4]] for t in ts] if H.symbolic else ts
    ok = H.both(*[acceptable(H, t) for t in ts])
    raised, _ = H.raises(lambda: hm.tesseroid_gravity((empty, empty, empty), H.array(ts), rho, field="g_z"))
    H.prove(H.iff(raised, H.no(ok)), "accepted exactly when the region is one on the globe")


@obligation("P09", FUNCS, "any accepted tesseroid, alone or before or after another one",
            params=[dict(other=None)] + [dict(other=n, after=a) for n in (1, 2, 4) for a in (False, True)])
def same_region(H, other, after=False):
    """The boundaries kept cover the same directions (mod 360) and no more."""
    check = H.internal("harmonica._forward._tesseroid_utils", "_check_tesseroids")
    t = draw(H)
    H.assume(acceptable(H, t))
    rows = [t] if other is None else [t, list(OTHERS[other])] if after else [list(OTHERS[other]), t]
    given = H.array(rows)
    out = check(given)
    H.prove(tuple(out.shape) == (len(rows), 6), "all of them")
    place = 0 if other is None or after else 1
    w, e, s, n, b, top = [out[place, k] for k in range(6)]
    H.equal(H.array([s, n, b, top]), H.array(t[2:]), "latitudes and radii untouched")
    H.equal(given, H.array(rows), "input not modified")
    if other is not None:
        o, r = OTHERS[other], [out[1 - place, k] for k in range(6)]
        H.equal(H.array(r[2:]), H.array(o[2:]), "latitudes and radii of the other untouched")
        H.equal(r[1] - r[0], (o[1] - o[0]) % 360 or 360, "width of the other")
        H.equal((r[0] - o[0]) % 360, 0, "west edge of the other")
    H.prove(H.both(w <= e, e - w <= 360), "west before east, at most one turn")
    k = H.integer("turns", -4, 4)
    lon = H.real("lon", -180, 360)
    # eastward sector from t[0] to t[1]
    width = H.real("width", 0, 360)
    H.assume(H.either(H.both(t[0] <= t[1], width == t[1] - t[0]),
                      H.both(t[0] > t[1], width == (t[1] - t[0]) % 360)))
    H.equal(e - w, width, "width of the sector")
    x = (w - t[0]) % 360
    H.prove(H.either(x == 0), "west edge at the same meridian") if H.symbolic else H.prove(
        min(x, 360 - x) < 1e-6, "west edge at the same meridian")


@obligation("P09", FUNCS, "1 observation point, 1 tesseroid given with west > east, quadrature without subdivision",
            fork_mod=True, params=[dict(field=f) for f in ("potential", "g_z")])
def crossing_equals_shifted(H, field):
    """west > east means the sector running eastward through the seam."""
    w, e = H.real("w", 181, 359), H.real("e", 1, 179)
    s, n = H.real("s", -80, 0), H.real("n", 1, 80)
    b, t = H.real("b", 100, 110), H.real("t", 111, 120)
    rho = H.real("rho", 1, 10)
    obs = (H.array([H.real("lon", -180, 180)]), H.array([H.real("lat", -90, 90)]), H.array([H.real("r", 200, 400)]))
    with setup(H):
        a = hm.tesseroid_gravity(obs, H.array([w, e, s, n, b, t]), H.array([rho]), field=field)
        c = hm.tesseroid_gravity(obs, H.array([w - 360, e, s, n, b, t]), H.array([rho]), field=field, disable_checks=True)
    H.equal(a, c, field, rtol=1e-6)
