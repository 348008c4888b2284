"""P18 integrals of ellipsoids."""
from ..harness import obligation
from .p17 import axes

U = "harmonica._forward.ellipsoids.utils"
FUNCS = ["get_elliptical_integrals", "_get_elliptical_integrals_prolate/_oblate/_triaxial", "get_derivatives_of_elliptical_integrals"]
SHAPES = ("triaxial", "prolate", "oblate")


def fixed(shape):
    return {"triaxial": (3, 2, 1), "prolate": (3, 1, 1), "oblate": (2, 2, 1)}[shape]


def apart(H, a, b, c, shape):
    """Away from the shapes that the code takes for spheroids."""
    gap = H.frac(1, 1000)
    if shape != "oblate":
        H.assume(a - b > gap * a)
    if shape != "prolate":
        H.assume(b - c > gap * b)


def setting(H, shape, dims=None):
    if dims is None:
        a, b, c = axes(H, shape)
        apart(H, a, b, c, shape)
    else:
        a, b, c = (H.const(v) for v in dims)
    return a, b, c


def delta(H, a, b, c, lam):
    return H.sqrt((a * a + lam) * (b * b + lam) * (c * c + lam))


def integrals(H, a, b, c, lam, kind="number"):
    fn = H.internal(U, "get_elliptical_integrals")
    with H.kernels("scipy"):
        if kind == "number":
            return list(fn(a, b, c, lam))
        return [g[0] for g in fn(a, b, c, H.array([lam]))]


@obligation("P18", FUNCS, "any semiaxes of the shape between 1 and 100 (at least 0.1 % apart), or of a few very long or flat shapes; any lambda >= 0", budget=300, witness_paths=3,
            params=[dict(shape=s, kind=k) for s in SHAPES for k in ("number", "array")] + [dict(shape="triaxial", kind="number", dims=d) for d in (
                (300000, 2, 1), (10**6, 5, 3), (20000, 10000, 1), (10**7, 20, 19), (5, 4, 0.0001), (5, 0.0002, 0.0001))])
def addition(H, shape, kind, dims=None):
    """A + B + C = 2 / sqrt((a2 + l) (b2 + l) (c2 + l))."""
    a, b, c = setting(H, shape, dims)
    lam = H.real("lambda", 0, 10000)
    g = integrals(H, a, b, c, lam, kind)
    H.equal(g[0] + g[1] + g[2], 2 / delta(H, a, b, c, lam), "sum of the integrals", rtol=1e-5)


@obligation("P18", FUNCS, "semiaxes of the shape of fixed values or any (spheroids), any lambda > 0", budget=300, witness_paths=3,
            params=[dict(shape=s, dims=d) for s, d in (("triaxial", (3, 2, 1)), ("triaxial", (50, 1.5, 1)), ("triaxial", (1.25, 1, 0.125)),
                                                       ("prolate", None), ("oblate", None), ("triaxial", None))])
def derivative(H, shape, dims):
    """Each integral is minus the antiderivative of 1 / ((s2 + l) D(l)), and
    the function for the derivatives agrees."""
    a, b, c = setting(H, shape, dims)
    lam = H.real("lambda", 0.125, 10000)
    d = H.derivative(lambda t: integrals(H, a, b, c, t), lam)
    h = H.internal(U, "get_derivatives_of_elliptical_integrals")(a, b, c, lam)
    for k, s in enumerate((a, b, c)):
        want = -1 / ((s * s + lam) * delta(H, a, b, c, lam))
        H.equal(d[k], want, f"derivative of integral {k}", rtol=1e-3)
        H.equal(h[k], want, f"derivative function {k}", rtol=1e-6)


@obligation("P18", FUNCS, "any semiaxes a >= b >= c between 1 and 100, lambda of fixed values", budget=200, witness_paths=6, query_timeout=8.0,
            params=[dict(lam=v) for v in (0, 2)])
def every_shape(H, lam):
    """One of the closed forms applies to any semiaxes but those of a sphere,
    and it is the right one up to the tolerance."""
    a, b, c = H.real("a", 1, 100), H.real("b", 1, 100), H.real("c", 1, 100)
    H.assume(H.both(a >= b, b >= c))
    sphere = bool(H.internal(U, "is_almost_a_sphere")(a, b, c))
    tol = H.frac(1, 50000)
    near = H.frac(1, 10 ** 7)
    bad, g = H.raises(lambda: integrals(H, a, b, c, lam))
    H.prove(bool(bad) == sphere, "rejected exactly for spheres")
    if sphere:
        H.prove(a - c <= tol * a, "spheres have almost equal semiaxes")
        return
    H.prove(a > c, "not a sphere")
    if bool(b - c > tol * b) and bool(a - b > tol * a):
        H.equal(g[0] + g[1] + g[2], 2 / delta(H, a, b, c, lam), "sum of the integrals", rtol=1e-3)
    elif bool(b - c <= near * b):
        H.equal(g[1], g[2], "symmetric about the first axis", rtol=1e-3)
    elif bool(a - b <= near * a):
        H.equal(g[0], g[1], "symmetric about the last axis", rtol=1e-3)
