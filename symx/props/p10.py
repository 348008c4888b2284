"""P10 computation points inside tesseroids."""
import harmonica as hm

from ..harness import obligation

FUNCS = ["harmonica.tesseroid_gravity", "check_points_outside_tesseroids", "_check_points_outside_tesseroids",
         "_check_tesseroids"]


def inside(H, p, t, turns):
    w, e, s, n, b, top = t
    return H.both(p[1] > s, p[1] < n, p[2] > b, p[2] < top,
                  H.either(*[H.both(p[0] + 360 * k > w, p[0] + 360 * k < e) for k in turns]))


@obligation("P10", FUNCS, "1 point with longitude -720..720, 1 tesseroid with boundaries in -180..360 in order", max_paths=600)
def rejected_iff_inside(H):
    lon, lat, r = H.real("lon", -720, 720), H.real("lat", -90, 90), H.real("r", 0, 1000)
    w, e = H.real("w", -180, 360), H.real("e", -180, 360)
    s, n = H.real("s", -90, 90), H.real("n", -90, 90)
    b, t = H.real("b", 0, 1000), H.real("t", 0, 1000)
    H.assume(H.both(w <= e, e - w <= 360, s <= n, b <= t))
    raised, _ = H.raises(lambda: hm.tesseroid_gravity(
        (H.array([lon]), H.array([lat]), H.array([r])), H.array([[w, e, s, n, b, t]]), H.array([0]), field="g_z"))
    H.prove(H.iff(raised, inside(H, (lon, lat, r), (w, e, s, n, b, t), range(-3, 4))), "rejected exactly when inside")


@obligation("P10", FUNCS, "1 point with longitude -180..540, 1 tesseroid given across the seam (west > east)", max_paths=600)
def seam(H):
    lon = H.real("lon", -180, 540)
    w, e = H.real("w", 180, 360), H.real("e", -180, 180)
    H.assume(H.both(w < 360, e < 180, w - 360 <= e))
    b, t = H.real("b", 0, 1000), H.real("t", 0, 1000)
    r = H.real("r", 0, 1000)
    H.assume(b < t)
    raised, _ = H.raises(lambda: hm.tesseroid_gravity(
        (H.array([lon]), H.array([5]), H.array([r])), H.array([[w, e, -10, 10, b, t]]), H.array([0]), field="potential"))
    H.prove(H.iff(raised, inside(H, (lon, 5, r), (w - 360, e, -10, 10, b, t), range(-2, 3))), "rejected exactly when inside")


@obligation("P10", FUNCS, "2 points, 2 tesseroids, one pair in conflict, others far")
def every_pair(H):
    i, j = H.choice("point", 2), H.choice("tesseroid", 2)
    lon, lat, r = H.real("lon", -180, 360), H.real("lat", -90, 90), H.real("r", 0, 1000)
    t = [H.real("w", -180, 180), H.real("e", -180, 180), H.real("s", -90, 90), H.real("n", -90, 90),
         H.real("b", 0, 1000), H.real("t", 0, 1000)]
    H.assume(H.both(t[0] < t[1], t[2] < t[3], t[4] < t[5]))
    H.assume(inside(H, (lon, lat, r), t, (-1, 0, 1)))
    pts = [[0, 0, 5000], [0, 0, 5000]]
    pts[i] = [lon, lat, r]
    ts = [[0, 1, 0, 1, 2000, 2001], [0, 1, 0, 1, 2000, 2001]]
    ts[j] = t
    raised, _ = H.raises(lambda: hm.tesseroid_gravity(
        tuple(H.array([p[k] for p in pts]) for k in range(3)), H.array(ts), H.array([0, 0]), field="g_z"))
    H.prove(raised, "a conflict is reported wherever it is")
