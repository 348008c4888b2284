"""P22 magnetic angles, vectors and total field anomaly."""
import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica.magnetic_angles_to_vec", "harmonica.magnetic_vec_to_angles", "harmonica.total_field_anomaly"]


def shaped(H, kind, *v):
    if kind == "number":
        return v
    return tuple(H.array([x, x + 1] if kind == "array" else [[x], [x + 1]]) for x in v)


@obligation("P22", FUNCS, "any intensity and angles (-720..720 degrees), numbers and arrays",
            params=[dict(kind=k) for k in ("number", "array", "2d")])
def convention(H, kind):
    """Inclination positive down, declination clockwise from north."""
    f, i, d = H.real("F", -100, 100), H.real("inc", -720, 720), H.real("dec", -720, 720)
    e, n, u = hm.magnetic_angles_to_vec(*shaped(H, kind, f, i, d))
    for k in range(1 if kind == "number" else 2):
        a, b, c = (f + k), H.rad(i + k), H.rad(d + k)
        get = (lambda x: x) if kind == "number" else (lambda x: x.ravel()[k])
        if kind == "2d":
            H.prove(np.shape(e) == (2, 1), "shape")
        H.equal(get(e), a * H.cos(b) * H.sin(c), "easting", rtol=1e-9, scale=abs(a) if not H.symbolic else None)
        H.equal(get(n), a * H.cos(b) * H.cos(c), "northing", rtol=1e-9, scale=abs(a) if not H.symbolic else None)
        H.equal(get(u), -a * H.sin(b), "upward", rtol=1e-9, scale=abs(a) if not H.symbolic else None)


@obligation("P22", FUNCS, "any vector", params=[dict(kind=k, degrees=d, vector=v) for v in ("any", "vertical", "null") for k in ("number", "array") for d in (True, False)],
            max_paths=100)
def vector_recovered(H, kind, degrees, vector):
    """Angles of any vector (null, vertical and horizontal ones included) give it back."""
    v = [H.real(c, -100, 100) for c in "enu"]
    if vector != "any":
        H.assume(H.both(v[0] == 0, v[1] == 0))
    if vector == "null":
        H.assume(v[2] == 0)
    f, i, d = hm.magnetic_vec_to_angles(*[x if kind == "number" else H.array([x]) for x in v], degrees=degrees)
    if kind != "number":
        f, i, d = f[0], i[0], d[0]
    H.equal(f * f, v[0] * v[0] + v[1] * v[1] + v[2] * v[2], "intensity", rtol=1e-9)
    H.prove(f >= 0, "intensity is positive")
    half = 180 if degrees else H.pi
    eps = 0 if H.symbolic else 1e-9
    H.prove(H.both(i >= -half / 2 - eps, i <= half / 2 + eps), "inclination range")
    H.prove(H.both(d >= -half - eps, d <= half + eps), "declination range")
    if not degrees:
        i, d = H.deg(i), H.deg(d)
    back = hm.magnetic_angles_to_vec(f, i, d)
    sc = None if H.symbolic else f
    for name, a, b in zip(("easting", "northing", "upward"), back, v):
        H.equal(a, b, name, rtol=1e-7, scale=sc)


@obligation("P22", FUNCS, "any intensity > 0, inclination in (-90, 90), declination in -360..360", max_paths=100)
def angles_recovered(H):
    f, i, d = H.real("F", 0.01, 100), H.real("inc", -89, 89), H.real("dec", -360, 360)
    H.assume(H.cos(H.rad(i)) > 0)
    ff, ii, dd = hm.magnetic_vec_to_angles(*hm.magnetic_angles_to_vec(f, i, d))
    H.equal(ff * ff, f * f, "intensity", rtol=1e-9)
    H.equal(H.sin(H.rad(ii)), H.sin(H.rad(i)), "inclination", rtol=1e-7, scale=1)
    H.equal(H.cos(H.rad(dd)), H.cos(H.rad(d)), "declination", rtol=1e-7, scale=1)
    H.equal(H.sin(H.rad(dd)), H.sin(H.rad(d)), "declination", rtol=1e-7, scale=1)


@obligation("P22", FUNCS, "2 field vectors, any direction given as numbers or one per point",
            params=[dict(kind=k) for k in ("numbers", "arrays", "2d", "one vector")])
def tfa(H, kind):
    b = [[H.real(f"{c}{k}", -1000, 1000) for k in range(2)] for c in "enu"]
    n = 2 if kind == "arrays" else 1
    inc = [H.real(f"inc{k}", -90, 90) for k in range(n)] * (2 // n)
    dec = [H.real(f"dec{k}", -360, 360) for k in range(n)] * (2 // n)
    if kind == "arrays":
        res = hm.total_field_anomaly(tuple(H.array(c) for c in b), H.array(inc), H.array(dec))
    elif kind == "numbers":
        res = hm.total_field_anomaly(tuple(H.array(c) for c in b), inc[0], dec[0])
    elif kind == "2d":
        res = hm.total_field_anomaly(tuple(H.array([c]) for c in b), inc[0], dec[0])
        H.prove(np.shape(res) == (1, 2), "shape")
        res = res[0]
    else:
        res = [hm.total_field_anomaly(tuple(c[k] for c in b), inc[0], dec[0]) for k in range(2)]
    for k in range(2):
        i, d = H.rad(inc[k]), H.rad(dec[k])
        want = b[0][k] * H.cos(i) * H.sin(d) + b[1][k] * H.cos(i) * H.cos(d) - b[2][k] * H.sin(i)
        H.equal(res[k], want, "projection on the main field", rtol=1e-9, scale=None if H.symbolic else max(abs(c[k]) for c in b))
