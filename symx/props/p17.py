"""P17 ellipsoidal coordinate."""
import numpy as np

from ..harness import obligation

U = "harmonica._forward.ellipsoids.utils"
FUNCS = ["harmonica._forward.ellipsoids.utils.calculate_lambda", "is_internal"]


def axes(H, shape):
    if shape == "triaxial":
        a, b, c = H.real("a", 1, 100), H.real("b", 1, 100), H.real("c", 1, 100)
        H.assume(H.both(a > b, b > c))
    elif shape == "prolate":
        a, b = H.real("a", 1, 100), H.real("b", 1, 100)
        H.assume(a > b)
        c = b
    elif shape == "oblate":
        b, c = H.real("b", 1, 100), H.real("c", 1, 100)
        H.assume(b > c)
        a = b
    else:
        a = b = c = H.real("a", 1, 100)
    return a, b, c


def cubic(x, y, z, a, b, c, t):
    A, B, C = a * a + t, b * b + t, c * c + t
    return A * B * C - x * x * B * C - y * y * A * C - z * z * A * B


@obligation("P17", FUNCS, "any point (in an array, and as numbers), any semiaxes of the shape between 1 and 100", witness_paths=3,
            params=[dict(shape=s, kind=k) for s in ("prolate", "oblate", "sphere") for k in ("array", "number")])
def spheroid(H, shape, kind):
    """lambda solves x2/(a2+l) + y2/(b2+l) + z2/(c2+l) = 1, and no root is
    larger."""
    a, b, c = axes(H, shape)
    x, y, z = (H.real(n, -1000, 1000) for n in "xyz")
    lam = call(H, kind, x, y, z, a, b, c)
    if shape == "sphere":
        H.equal(lam + a * a, x * x + y * y + z * z, "root of the confocal equation", scale=None if H.symbolic else 1e6)
        return
    if shape == "prolate":
        r2, A, B, u2 = x * x, a * a + lam, b * b + lam, y * y + z * z
    else:
        r2, A, B, u2 = z * z, c * c + lam, b * b + lam, x * x + y * y
    got = A * B - r2 * B - u2 * A
    H.equal(got, 0 * got, "root of the confocal equation", scale=None if H.symbolic else (x * x + y * y + z * z + a * a + b * b) ** 2)
    # a quadratic that grows: the largest root is the one right of its vertex
    slope = A + B - r2 - u2
    H.nonneg(slope, "largest root", tol=1e-6 * (a * a + b * b + x * x + y * y + z * z) if not H.symbolic else None)


def call(H, kind, x, y, z, a, b, c):
    fn = H.internal(U, "calculate_lambda")
    if kind == "array":
        return fn(H.array([x]), H.array([y]), H.array([z]), a, b, c)[0]
    return fn(x, y, z, a, b, c)


@obligation("P17", FUNCS, "any point, given by its confocal coordinates (the three roots m + 2 u cos(v + 2 k pi / 3), t = cos v), in the octant of each "
            "sign; semiaxes of fixed values", witness_paths=2,
            params=[dict(axes=x, kind=k) for x, k in (((3, 2, 1), "array"), ((3, 2, 1), "number"), ((50, 1.5, 1), "array"),
                                                      ((2, 1.75, 0.125), "number"), ((10, 9, 8), "array"))])
def triaxial(H, axes, kind):
    """lambda is the largest of the three roots."""
    a, b, c = axes
    u, t, m = H.real("u", 0.01, 10000), H.real("t", 0.5, 1), H.real("m", -10000, 10000)

    def power(s2, d):
        A = H.const(s2) ** 2 + m
        v = (A ** 3 - 3 * u ** 2 * A + 2 * u ** 3 * (4 * t ** 3 - 3 * t)) / H.const(d)
        H.assume(v >= 0)
        return H.sqrt(v)

    x = power(a, (a * a - b * b) * (a * a - c * c))
    y = power(b, (b * b - a * a) * (b * b - c * c))
    z = power(c, (c * c - a * a) * (c * c - b * b))
    if H.decide("negative"):
        x, y, z = -x, -y, -z
    lam = call(H, kind, x, y, z, *(H.const(v) for v in axes))
    H.equal(lam, m + 2 * u * t, "largest root", rtol=1e-4, scale=None if H.symbolic else x * x + y * y + z * z + a * a)
