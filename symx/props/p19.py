"""P19 demagnetization of ellipsoids."""
from ..harness import obligation
from .p17 import axes
from .p18 import SHAPES, delta, integrals, setting

M = "harmonica._forward.ellipsoids.magnetic"
FUNCS = ["get_demagnetization_tensor_internal", "get_demagnetization_tensor_external", "_demag_tensor_*", "_spatial_deriv_lambda", "get_magnetisation",
         "get_elliptical_integrals"]


def internal(H, a, b, c):
    with H.kernels("scipy"):
        return H.internal(M, "get_demagnetization_tensor_internal")(a, b, c)


@obligation("P19", FUNCS, "any semiaxes of the shape between 1 and 100 (at least 0.1 % apart)", witness_paths=3, budget=200,
            params=[dict(shape=s) for s in SHAPES + ("sphere",)])
def inside(H, shape):
    """Diagonal, trace one, equal to a b c / 2 times the integrals at the
    surface (those of the gravity), so it joins the outer tensor."""
    a, b, c = axes(H, shape) if shape == "sphere" else setting(H, shape)
    n = internal(H, a, b, c)
    H.prove(n.shape == (3, 3), "3 by 3")
    H.equal(n[0, 0] + n[1, 1] + n[2, 2], H.const(1), "trace is one")
    for i in range(3):
        for j in range(3):
            if i != j:
                H.equal(n[i, j], H.const(0), "diagonal")
    if shape == "sphere":
        for i in range(3):
            H.equal(n[i, i], H.frac(1, 3), "a third in each direction")
        return
    g = integrals(H, a, b, c, H.const(0))
    for i in range(3):
        H.equal(n[i, i], a * b * c / 2 * g[i], "joins the outer tensor", rtol=1e-4, scale=None if H.symbolic else 0.1)


@obligation("P19", FUNCS, "any point (lambda any number > 0, related to the point by the confocal equation: P17), semiaxes of the shape any (spheroids) or of "
            "fixed values", witness_paths=3, budget=300,
            params=[dict(shape="triaxial", dims=(3, 2, 1)), dict(shape="triaxial", dims=(50, 1.5, 1)), dict(shape="prolate", dims=None),
                    dict(shape="oblate", dims=None), dict(shape="sphere", dims=None), dict(shape="prolate", dims=(3, 1, 1)), dict(shape="oblate", dims=(2, 2, 1))])
def outside(H, shape, dims):
    """Symmetric, without trace, and the gradient of the internal field's
    potential coefficients: N_ij = d(x_j a b c g_j / 2) / dx_i."""
    a, b, c = axes(H, shape) if shape == "sphere" else setting(H, shape, dims)
    if H.symbolic and shape != "sphere":
        lam = H.real("lambda", 0.125, 1000)
        # a point of the confocal ellipsoid of lambda
        y, z = H.real("y", -100, 100), H.real("z", -100, 100)
        s = 1 - y * y / (b * b + lam) - z * z / (c * c + lam)
        H.assume(s >= 0)
        x = H.sqrt((a * a + lam) * s)
        items = [(M, "calculate_lambda", lambda *args: H.array([lam]))]
    else:
        lam = H.real("lambda", 0.125, 1000)
        y, z = H.real("y", -100, 100), H.real("z", -100, 100)
        s = 1 - y * y / (b * b + lam) - z * z / (c * c + lam)
        H.assume(s > H.const(0.001))
        x = H.sqrt((a * a + lam) * s)
        items = []
    with H.patched(*items), H.kernels("scipy"):
        n = H.internal(M, "get_demagnetization_tensor_external")(H.array([x]), H.array([y]), H.array([z]), a, b, c)
    H.prove(n.shape == (1, 3, 3), "one tensor per point")
    n = n[0]
    big = None if H.symbolic else a * b * c / delta(H, a, b, c, lam)
    tr = n[0, 0] + n[1, 1] + n[2, 2]
    H.equal(tr, 0 * tr, "trace is zero", rtol=1e-4, scale=big)
    for i in range(3):
        for j in range(i):
            H.equal(n[i, j], n[j, i], "symmetric", rtol=1e-4, scale=big)
    p = (x, y, z)
    if shape == "sphere":
        r = H.sqrt(x * x + y * y + z * z)
        for i in range(3):
            for j in range(3):
                want = -a ** 3 / 3 * (3 * p[i] * p[j] / r ** 5 - (1 / r ** 3 if i == j else 0))
                H.equal(n[i, j], want, "dipole of the sphere", rtol=1e-5, scale=big)
        return
    g = integrals(H, a, b, c, lam)
    ax = [s * s + lam for s in (a, b, c)]
    den = sum((p[i] / ax[i]) ** 2 for i in range(3))
    for i in range(3):
        dl = 2 * p[i] / ax[i] / den
        for j in range(3):
            dg = -1 / (ax[j] * delta(H, a, b, c, lam))
            want = a * b * c / 2 * (p[j] * dg * dl + (g[j] if i == j else 0))
            H.equal(n[i, j], want, "gradient", rtol=1e-4, scale=big)


@obligation("P19", FUNCS, "any demagnetization factors, inducing field, remanent magnetization; susceptibility isotropic or any diagonal, or with "
            "one coupled pair of axes", witness_paths=3,
            params=[dict(kind=k) for k in ("isotropic", "diagonal", "coupled")])
def self_consistent(H, kind):
    """M = Mr + chi (H0 - N M)."""
    n = [H.real(f"n{i}", 0.01, 0.98) for i in range(3)]
    h = H.reals("h", 3, -100, 100)
    mr = H.reals("m", 3, -100, 100)
    if kind == "isotropic":
        k = H.real("chi", 0, 10)
        chi = [[k if i == j else 0 for j in range(3)] for i in range(3)]
    else:
        chi = [[H.real(f"chi{i}", 0, 10) if i == j else 0 for j in range(3)] for i in range(3)]
        if kind == "coupled":
            chi[0][1], chi[1][0] = H.real("chi01", -1, 1), H.real("chi10", -1, 1)
            H.assume((1 + n[0] * chi[0][0]) * (1 + n[1] * chi[1][1]) - n[0] * n[1] * chi[0][1] * chi[1][0] > H.frac(1, 10))
    N = H.array([[n[i] if i == j else 0 for j in range(3)] for i in range(3)])
    m = H.internal(M, "get_magnetisation")(H.const(3), H.const(2), H.const(1), H.array(chi), H.array(h), H.array(mr), n_tensor=N)
    for i in range(3):
        want = mr[i] + sum(chi[i][j] * (h[j] - n[j] * m[j]) for j in range(3))
        H.equal(m[i], want, "self-consistent", rtol=1e-5, scale=None if H.symbolic else 1e3)
