"""P21 states of ellipsoid objects."""
import harmonica as hm
import numpy as np

from ..harness import obligation
from .p20 import flip, matrix, mul, turn

FUNCS = ["harmonica.Ellipsoid"]


def values(H, attr, k):
    """(name of the kind, value, accepted?) of an assignment number k."""
    if attr in "abc":
        if H.choice(f"kind{k}", 2):
            return float("nan"), False
        v = H.real(f"{attr}_{k}", -100, 100)
        return v, bool(v > 0)
    if attr == "density":
        kinds = [lambda: (H.real(f"density{k}", -3000, 3000), True), lambda: (None, True), lambda: ("2000", False), lambda: ([2000], False),
                 lambda: (H.array([2000, 1]), False), lambda: (2000, True)]
    elif attr == "susceptibility":
        kinds = [lambda: (H.real(f"chi{k}", 0, 10), True), lambda: (None, True), lambda: (H.array([H.reals(f"chi{k}{i}", 3, -1, 1) for i in range(3)]), True),
                 lambda: (H.array(H.reals(f"chi{k}", 3, -1, 1)), False), lambda: (H.array([[[1, 2, 3]] * 3]), False), lambda: ("1", False), lambda: ([1, 2, 3], False)]
    else:
        kinds = [lambda: (H.array(H.reals(f"m{k}", 3, -10, 10)), True), lambda: (None, True), lambda: (list(H.reals(f"m{k}", 3, -10, 10)), True),
                 lambda: (tuple(H.reals(f"m{k}", 3, -10, 10)), True), lambda: (H.real(f"m{k}", -10, 10), False), lambda: (H.array([[1, 2, 3]]), False),
                 lambda: (H.array([1, 2]), False), lambda: ([1, 2, 3, 4], False), lambda: ("abc", False)]
    return kinds[H.choice(f"kind{k}", len(kinds))]()


def check(H, e, state):
    for attr in "abc":
        H.prove(getattr(e, attr) > 0, "semiaxes are positive")
        H.equal(getattr(e, attr), state[attr], f"semiaxis {attr}")
    for attr in ("density", "susceptibility", "remanent_mag"):
        got, want = getattr(e, attr), state[attr]
        H.prove((got is None) == (want is None), f"{attr} set or not")
        if want is None:
            continue
        if attr == "remanent_mag":
            H.prove(isinstance(got, np.ndarray) and got.shape == (3,), "remanence is an array of three")
        if attr == "susceptibility" and isinstance(want, np.ndarray):
            H.prove(isinstance(got, np.ndarray) and got.shape == (3, 3), "tensor is 3 by 3")
        H.equal(list(np.ravel(got)) if isinstance(got, np.ndarray) else got, list(np.ravel(want)) if isinstance(want, (np.ndarray, list, tuple)) else want, attr)


ATTRS = ("a", "b", "c", "density", "susceptibility", "remanent_mag")


@obligation("P21", FUNCS, "construction with any values of any kind (accepted or not) of one attribute, any number in the others", max_paths=100,
            params=[dict(attr=a) for a in ATTRS])
def construction(H, attr):
    """The constructor accepts exactly what the setters accept."""
    state = dict(a=H.real("a", 1, 10), b=H.real("b", 1, 10), c=H.real("c", 1, 10), density=None, susceptibility=None, remanent_mag=None)
    state[attr], good = values(H, attr, 0)
    bad, e = H.raises(lambda: hm.Ellipsoid(**state), (ValueError, TypeError))
    H.prove(bool(bad) == (not good), "rejected exactly when invalid")
    if good:
        check(H, e, state)


@obligation("P21", FUNCS, "any sequence of n assignments of any kind of value to any attribute", max_paths=3000, budget=200, witness_paths=10,
            params=[dict(n=2), dict(n=3, _tier="thorough", _max_paths=20000, _budget=800)])
def history(H, n):
    """Rejected assignments raise and leave everything as it was, accepted
    ones change that attribute alone."""
    state = dict(a=H.real("a", 1, 10), b=H.real("b", 1, 10), c=H.real("c", 1, 10), density=None, susceptibility=None, remanent_mag=None)
    e = hm.Ellipsoid(**state, yaw=1, pitch=2, roll=3, center=(4, 5, 6))
    for k in range(n):
        attr = ATTRS[H.choice(f"attr{k}", 6)]
        v, good = values(H, attr, k)
        bad = H.raises(lambda: setattr(e, attr, v), (ValueError, TypeError))[0]
        H.prove(bool(bad) == (not good), "rejected exactly when invalid")
        if good:
            state[attr] = v
        check(H, e, state)
    H.prove((e.yaw, e.pitch, e.roll) == (1, 2, 3), "angles are as given")
    H.prove(tuple(e.center) == (4, 5, 6), "center is as given")


@obligation("P21", FUNCS, "any angles, set in the constructor or later, before or after a first use")
def rotation(H):
    """The matrix takes local axes to global ones: yaw about up, pitch that
    lifts the easting axis, roll about easting; a proper rotation."""
    angles = [H.real(n, -360, 360) for n in ("yaw", "pitch", "roll")]
    e = hm.Ellipsoid(1, 2, 3, *angles) if H.decide("constructor") else hm.Ellipsoid(1, 2, 3)
    if H.decide("used before"):
        e.rotation_matrix
        e.get_surface(lon_size=2, lat_size=2)
    e.yaw, e.pitch, e.roll = angles
    r = e.rotation_matrix
    H.prove(r.shape == (3, 3), "3 by 3")
    want = matrix(H, *angles)
    eye = mul(flip(want), want)
    for i in range(3):
        for j in range(3):
            H.equal(r[i, j], want[i][j], "documented rotation", scale=None if H.symbolic else 1)
            H.equal(sum(r[k, i] * r[k, j] for k in range(3)), H.const(1 if i == j else 0), "orthonormal", scale=None if H.symbolic else 1)
    det = sum(r[0, i] * (r[1, (i + 1) % 3] * r[2, (i + 2) % 3] - r[1, (i + 2) % 3] * r[2, (i + 1) % 3]) for i in range(3))
    H.equal(det, H.const(1), "proper rotation")


@obligation("P21", FUNCS + ["Ellipsoid.get_surface"], "any semiaxes, pose and centre, given or set after a first use; grids of 2 to 5 by 2 to 3 points",
            params=[dict(size=s) for s in ((5, 3), (2, 2), (4, 5))])
def surface(H, size):
    """The points given for plotting are on the surface, from south to north
    pole of the body and once around."""
    s = [H.real(n, 1, 100) for n in "abc"]
    angles = [H.real(n, -180, 180) for n in ("yaw", "pitch", "roll")]
    center = H.reals("center", 3, -100, 100)
    if H.decide("changed later"):
        e = hm.Ellipsoid(3, 2, 1, 10, 20, 30, (1, 2, 3))
        e.get_surface(lon_size=size[0], lat_size=size[1])
        e.a, e.b, e.c = s
        e.yaw, e.pitch, e.roll = angles
        e.center = center
    else:
        e = hm.Ellipsoid(*s, *angles, center)
    got = e.get_surface(lon_size=size[0], lat_size=size[1])
    m = flip(matrix(H, *angles))
    for k in range(3):
        H.prove(got[k].shape == (size[1], size[0]), "one row per latitude")
    pts = {}
    for i in range(size[1]):
        for j in range(size[0]):
            v = turn(m, [got[k][i, j] - center[k] for k in range(3)])
            u = pts[i, j] = [v[k] / s[k] for k in range(3)]
            lon, lat = 2 * H.pi * j / (size[0] - 1), H.pi * i / (size[1] - 1) - H.pi / 2
            want = [H.cos(lon) * H.cos(lat), H.sin(lon) * H.cos(lat), H.sin(lat)]
            H.equal(u, want, "place on the surface", scale=None if H.symbolic else 1)
            H.equal(sum(x * x for x in u), H.const(1), "on the surface")
