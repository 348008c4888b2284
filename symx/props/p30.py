"""P30 Euler deconvolution."""
import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica.EulerDeconvolution.fit"]

# derivatives (easting, northing, upward) of a few sets of points: fixed
# numbers, so that the system of the fit is inverted exactly
DERIVS = {
    5: [(1, 2, -3), (4, -1, 0), (0, 5, 2), (-2, 2, 7), (1, 1, 1)],
    6: [(7, 1, 2), (-3, 2, 2), (1, -4, 5), (0, 1, -1), (2, 2, -6), (-5, 3, 1)],
}


def lay(H, kind, v):
    if kind == "column":
        return H.array([[x] for x in v])
    if kind == "2d" and len(v) % 2 == 0:
        k = len(v) // 2
        return H.array([v[:k], v[k:]])
    if kind == "transposed" and len(v) % 2 == 0:
        return H.array([v[::2], v[1::2]]).T
    if kind == "strided":
        return H.array([x for a in v for x in (a, 3)])[::2]
    return H.array(v)


@obligation("P30", FUNCS, "5 and 6 points anywhere, source and base level anywhere, any structural index but 0; derivatives of fixed values",
            params=[dict(n=n, si=s, kind=k) for n, s, k in ((5, 1, "1d"), (6, 2, "2d"), (6, 3, "transposed"), (5, "any", "1d"), (5, 2, "column"),
                                                          (6, 3, "2d"), (6, 1, "strided"), (6, "any", "1d"))])
def exact_data(H, n, si, kind):
    """Data that obey Euler's equation give back the source and base level."""
    x = [H.reals(c, n, -1000, 1000) for c in "enu"]
    x0 = H.reals("x0", 3, -1000, 1000)
    base = H.real("base", -100, 100)
    if si == "any":
        si = H.real("si", -3, 3)
        H.assume(H.either(si > H.frac(1, 10), si < H.frac(-1, 10)))
    d = DERIVS[n]
    field = []
    for i in range(n):
        s = sum((x[k][i] - x0[k]) * d[i][k] for k in range(3))
        field.append(base - s / si)
    coords = tuple(lay(H, kind, c) for c in x)
    data = (lay(H, kind, field),) + tuple(lay(H, kind, [H.const(v[k]) for v in d]) for k in range(3))
    keep = [c.copy() for c in coords + data]
    euler = hm.EulerDeconvolution(structural_index=si)
    got = euler.fit(coords, data)
    H.prove(got is euler, "fit returns the object")
    scale = 0 if H.symbolic else 1e3
    for k in range(3):
        H.equal(euler.location_[k], x0[k], "location", scale=scale)
    H.equal(euler.base_level_, base, "base level", scale=scale)
    if n > 4:
        H.equal(euler.covariance_, H.array([[0] * 4] * 4), "no misfit, no covariance", scale=1e3 if not H.symbolic else 0)
    for a, b in zip(coords + data, keep):
        H.equal(a, b, "inputs not modified")


@obligation("P30", FUNCS, "5 points, any derivatives, field and coordinates: the inverse of the normal matrix is any matrix X with M X = I",
            params=[dict(n=n, si=s) for n, s in ((5, 1), (5, 3), (6, 2))])
def least_squares(H, n, si):
    """The estimate solves the normal equations of Euler's equation."""
    x = [H.reals(c, n, -100, 100) for c in "enu"]
    f = H.reals("f", n, -100, 100)
    d = [H.reals("d" + c, n, -10, 10) for c in "enu"]
    euler = hm.EulerDeconvolution(structural_index=si)
    with H.inverses() as inv:
        euler.fit(tuple(H.array(c) for c in x), (H.array(f),) + tuple(H.array(c) for c in d))
    p = [euler.location_[0], euler.location_[1], euler.location_[2], euler.base_level_]
    J = [[d[0][i], d[1][i], d[2][i], si] for i in range(n)]
    y = [sum(x[k][i] * d[k][i] for k in range(3)) + si * f[i] for i in range(n)]
    normal(H, J, y, p, inv, "normal equations")
    chi = sum((y[i] - sum(J[i][k] * p[k] for k in range(4))) ** 2 for i in range(n)) / (n - 4)
    if H.symbolic and inv:
        X = inv[-1][1]
        for i in range(4):
            H.equal(euler.covariance_[i, i], chi * X[i, i], "covariance")


@obligation("P30", FUNCS, "5 and 6 points anywhere, any field (not obeying Euler's equation), derivatives of fixed values",
            params=[dict(n=n, si=s) for n in (5, 6) for s in (1, 2, 3)])
def covariance(H, n, si):
    """Least squares: the residuals are orthogonal to the columns of the
    Jacobian, and the covariance is their variance (n - 4 degrees of freedom)
    times the inverse of the normal matrix."""
    x = [H.reals(c, n, -100, 100) for c in "enu"]
    f = H.reals("f", n, -100, 100)
    d = DERIVS[n]
    euler = hm.EulerDeconvolution(structural_index=si)
    euler.fit(tuple(H.array(c) for c in x), (H.array(f),) + tuple(H.array([H.const(v[k]) for v in d]) for k in range(3)))
    p = [euler.location_[0], euler.location_[1], euler.location_[2], euler.base_level_]
    J = [[*d[i], si] for i in range(n)]
    y = [sum(x[k][i] * d[i][k] for k in range(3)) + si * f[i] for i in range(n)]
    r = [y[i] - sum(J[i][k] * p[k] for k in range(4)) for i in range(n)]
    scale = None if H.symbolic else 1e3
    for k in range(4):
        H.equal(sum(J[i][k] * r[i] for i in range(n)), 0, "residuals are orthogonal to the Jacobian", scale=scale)
    chi = sum(v**2 for v in r) / (n - 4)
    M = [[sum(J[i][a] * J[i][b] for i in range(n)) for b in range(4)] for a in range(4)]
    C = euler.covariance_
    for a in range(4):
        for b in range(4):
            H.equal(sum(M[a][k] * C[k, b] for k in range(4)), chi if a == b else 0, "covariance", scale=None if H.symbolic else chi + 1, rtol=1e-5)


def normal(H, J, y, p, inv, label):
    """J^T (J p - y) = 0, given M X = I for the matrix M the code inverted:
    shown as J^T (J p - y) = (M X - I) J^T y with M = J^T J."""
    n = len(J)
    z = [sum(J[i][k] * y[i] for i in range(n)) for k in range(4)]
    M = [[sum(J[i][a] * J[i][b] for i in range(n)) for b in range(4)] for a in range(4)]
    if H.symbolic and inv:
        m, X = inv[-1]
        H.equal(m, H.array(M), "normal matrix")
        for a in range(4):
            left = sum(M[a][k] * p[k] for k in range(4)) - z[a]
            right = 0
            for c in range(4):
                e = sum(M[a][k] * X[k, c] for k in range(4)) - (1 if a == c else 0)
                right = right + e * z[c]
            H.equal(left, right, label)
    else:
        for a in range(4):
            big = sum(abs(M[a][k] * p[k]) for k in range(4)) + abs(z[a]) if not H.symbolic else None
            H.equal(sum(M[a][k] * p[k] for k in range(4)), z[a], label, scale=big, rtol=1e-4)


@obligation("P30", FUNCS, "6 points with coordinates and data held as integers, source and base level anywhere", params=[dict(si=s) for s in (1, 2, 3)])
def integers(H, si):
    """Integer arrays are as good as floats."""
    n = 6
    x = [[H.integer(f"{c}{i}", -100, 100) for i in range(n)] for c in "enu"]
    f = [H.integer(f"f{i}", -100, 100) for i in range(n)]
    d = [[v[k] for v in DERIVS[n]] for k in range(3)]
    a = hm.EulerDeconvolution(structural_index=si)
    a.fit(tuple(H.int_array(c) for c in x), (H.int_array(f),) + tuple(H.int_array(c) for c in d))
    b = hm.EulerDeconvolution(structural_index=si)
    b.fit(tuple(H.array(c) for c in x), (H.array(f),) + tuple(H.array([H.const(v) for v in c]) for c in d))
    scale = None if H.symbolic else 1e3
    H.equal(a.location_, b.location_, "location", scale=scale)
    H.equal(a.base_level_, b.base_level_, "base level", scale=scale)
    H.equal(a.covariance_, b.covariance_, "covariance", scale=None if H.symbolic else 1e5)


@obligation("P30", FUNCS, "5 points anywhere, the whole problem moved by any offset", params=[dict(si=s) for s in (1, 2)])
def offsets(H, si):
    """Moving the origin moves the source with it; adding a constant to the
    field changes the base level only."""
    n = 5
    x = [H.reals(c, n, -100, 100) for c in "enu"]
    f = H.reals("f", n, -100, 100)
    t = H.reals("t", 3, -1000, 1000)
    c = H.real("c", -100, 100)
    d = [H.array([H.const(v[k]) for v in DERIVS[n]]) for k in range(3)]

    def run(x, f):
        e = hm.EulerDeconvolution(structural_index=si)
        return e.fit(tuple(H.array(v) for v in x), (H.array(f), *d))

    a = run(x, f)
    b = run([[v + t[k] for v in x[k]] for k in range(3)], [v + c for v in f])
    scale = None if H.symbolic else 1e4
    for k in range(3):
        H.equal(b.location_[k], a.location_[k] + t[k], "location", scale=scale)
    H.equal(b.base_level_, a.base_level_ + c, "base level", scale=scale)
    H.equal(b.covariance_, a.covariance_, "covariance", scale=None if H.symbolic else 1e6)


@obligation("P30", FUNCS, "any structural index; sizes of the inputs up to 3", params=[{}])
def rejected(H):
    si = H.real("si", -3, 3)
    H.prove(H.iff(H.raises(lambda: hm.EulerDeconvolution(si))[0], si == 0), "index 0 is rejected, no other is")
    one, two = H.array([1, 2, 3, 4, 5]), H.array([1, 2, 3, 4])
    e = hm.EulerDeconvolution(structural_index=2)
    bad = H.choice("bad", 7)
    args = [one] * 7
    args[bad] = two
    H.prove(H.raises(lambda: e.fit(tuple(args[:3]), tuple(args[3:])))[0], "arrays of different sizes are rejected")
