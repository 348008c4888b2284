"""P31 Euler inversion."""
import itertools

import harmonica as hm
import numpy as np

from ..harness import obligation
from .p30 import DERIVS, lay

FUNCS = ["harmonica.EulerInversion.fit/_fit/_newton_step/_parameter_jacobian/_data_jacobian_diagonals/_eulers_equation",
         "harmonica.EulerDeconvolution.fit"]
MOD = "harmonica._euler_methods"
X = [(0, 10, 20, 35, 50), (5, -10, 0, 30, 10), (2, 0, 1, 3, 5)]


class Start:
    """Stand-in for Euler deconvolution: any starting estimate."""

    def __init__(self, p):
        self.p = p

    def __call__(self, structural_index):
        start = self

        class Fitted:
            def fit(self, coordinates, data):
                self.location_ = start.p[:3].copy()
                self.base_level_ = start.p[3]
                return self

        return Fitted()


def build(H, x, d, p, si):
    """Euler's equation and its linearisation at data d and parameters p."""
    n = len(x[0])
    e = [sum((x[k][i] - p[k]) * d[k + 1][i] for k in range(3)) + si * (d[0][i] - p[3]) for i in range(n)]
    A = [[-d[1][i], -d[2][i], -d[3][i], -si] for i in range(n)]
    B = [[si] + [x[k][i] - p[k] for k in range(3)] for i in range(n)]
    return e, A, B


@obligation("P31", FUNCS, "5 points at fixed places, any field and one derivative, starting estimate and weights of fixed values, 1 iteration; the inverse of the normal "
            "matrix is any matrix X with M X = I; the misfits are any numbers", budget=300, domain="assume",
            params=[dict(si=s, weights=w, start=t, free=f) for s, w, t, f in ((1, (1, 0.1, 0.1, 0.025), 0, 1), (2, (1, 0.5, 0.25, 0.125), 1, 2),
                                                                               (3, (2, 1, 4, 1), 0, 3))])
def one_step(H, si, weights, start, free):
    """One iteration is the total least squares step for Euler's equation:
    the location minimises the weighted misfit subject to the linear equations."""
    n = 5
    x = [list(c) for c in X]
    obs = [H.reals(c, n, -10, 10) if k in (0, free) else [H.const(v[k - 1]) for v in DERIVS[n]]
           for k, c in enumerate(("f", "de", "dn", "du"))]
    p0 = [(7, 3, -20, 1), (100, -50, -9, 0)][start]
    inv_w = [1 / H.const(w) for w in weights]
    e = hm.EulerInversion(structural_index=si, max_iterations=1, tol=0.1, euler_misfit_balance=0.5)
    coords, data = tuple(H.array(c) for c in x), tuple(H.array(c) for c in obs)
    with H.inverses() as inv, H.any_norms(), H.patched((MOD, "EulerDeconvolution", Start(H.array(p0)))):
        H.warns(lambda: e.fit(coords, data, weights=weights))
    d0 = [[H.frac(9, 10) * v for v in c] for c in obs]
    eq, A, B = build(H, x, d0, p0, si)
    q = [1 / sum(B[i][c] * B[i][c] * inv_w[c] for c in range(4)) for i in range(n)]
    rhs = [eq[i] + sum(B[i][c] * (obs[c][i] - d0[c][i]) for c in range(4)) for i in range(n)]
    p1 = [e.location_[0], e.location_[1], e.location_[2], e.base_level_]
    dp = [p1[k] - p0[k] for k in range(4)]
    z = [sum(A[i][a] * q[i] * rhs[i] for i in range(n)) for a in range(4)]
    M = [[sum(A[i][a] * q[i] * A[i][b] for i in range(n)) for b in range(4)] for a in range(4)]
    if H.symbolic and inv:
        m, Xi = inv[-1]
        H.equal(m, H.array(M), "normal matrix")
        for a in range(4):
            left = sum(M[a][k] * dp[k] for k in range(4)) + z[a]
            right = 0
            for c in range(4):
                right = right - (sum(M[a][k] * Xi[k, c] for k in range(4)) - (1 if a == c else 0)) * z[c]
            H.equal(left, right, "stationary step")
    else:
        for a in range(4):
            big = sum(abs(M[a][k] * dp[k]) for k in range(4)) + abs(z[a]) if not H.symbolic else None
            H.equal(sum(M[a][k] * dp[k] for k in range(4)), -z[a], "stationary step", scale=big, rtol=1e-4)
    for a, b in zip(coords + data, x + obs):
        H.equal(a, H.array(b), "inputs not modified")


@obligation("P31", FUNCS, "5 points at fixed places, any field and starting estimate of fixed values; derivatives of fixed values; 1 iteration", budget=300,
            params=[dict(si=s) for s in (1, 2)])
def misfit_and_stop(H, si):
    """The data predicted by the step obey the linear equations exactly, and
    the misfit and the warning follow from them."""
    n = 5
    x = [list(c) for c in X]
    d = DERIVS[5]
    t = H.real("t", -5, 5)
    obs = [[t * (i + 1) for i in range(n)]] + [[H.const(v[k]) for v in d] for k in range(3)]
    weights = (1, 0.5, 0.25, 0.125)
    w = [H.const(v) for v in weights]
    p0 = (7, 3, -20, 1)
    tol, nu = 0.1, H.frac(1, 2)
    e = hm.EulerInversion(structural_index=si, max_iterations=1, tol=tol, euler_misfit_balance=0.5)
    with H.patched((MOD, "EulerDeconvolution", Start(H.array(p0)))):
        _, warned = H.warns(lambda: e.fit(tuple(H.array(c) for c in x), tuple(H.array(c) for c in obs), weights=weights))
    d0 = [[H.frac(9, 10) * v for v in c] for c in obs]
    eq, A, B = build(H, x, d0, p0, si)
    q = [1 / sum(B[i][c] * B[i][c] / w[c] for c in range(4)) for i in range(n)]
    p1 = [e.location_[0], e.location_[1], e.location_[2], e.base_level_]
    dp = [p1[k] - p0[k] for k in range(4)]
    rest = [eq[i] + sum(B[i][c] * (obs[c][i] - d0[c][i]) for c in range(4)) + sum(A[i][k] * dp[k] for k in range(4)) for i in range(n)]
    d1 = [[obs[c][i] - B[i][c] / w[c] * q[i] * rest[i] for i in range(n)] for c in range(4)]
    for i in range(n):
        lin = eq[i] + sum(A[i][k] * dp[k] for k in range(4)) + sum(B[i][c] * (d1[c][i] - d0[c][i]) for c in range(4))
        H.equal(lin, 0 * lin, "linear equations hold after the step", scale=None if H.symbolic else 1e4)
    e0 = eq
    e1 = build(H, x, d1, p1, si)[0]

    def merit(dd, ee):
        m2 = sum((w[c] * (obs[c][i] - dd[c][i])) ** 2 for c in range(4) for i in range(n))
        return H.sqrt(m2), H.sqrt(sum(v * v for v in ee))

    (m0, s0), (m1, s1) = merit(d0, e0), merit(d1, e1)
    H.equal(e.data_misfit_, m1, "misfit of the predicted data")
    a, b = m0 + nu * s0, m1 + nu * s1
    H.assume(a > H.frac(1, 1000))
    change = (a - b) / a
    change = change if bool(change >= 0) else -change
    if H.symbolic:
        H.prove(H.iff(UserWarning in warned, H.no(change < H.const(tol))), "warned exactly when it did not converge")
    elif abs(change - tol) > 1e-6:
        H.prove((UserWarning in warned) == (not change < tol), "warned exactly when it did not converge")


NOISE = [([[-60, -2, 31, 16, -9, -5], [-26, 4, -36, -20, 22, 0], [-7, -2, 55, 21, -16, 33]],
          [[-1, 7, -6, -9, 8, -8], [-8, 9, -12, -14, 5, -20], [-8, -4, -13, -11, 7, 3], [-9, 5, 15, -13, 1, 20]]),
         ([[0, 10, 20, 35, 50, 7], [5, -10, 0, 30, 10, -20], [2, 0, 1, 3, 5, 4]],
          [[9, 3, 4, 1, 0, 7], [1, 4, 0, -2, 1, 3], [2, -1, 5, 2, 1, -1], [-3, 0, 2, 7, 1, 5]])]


def newton(x, obs, si, w, nu, n):
    """The estimates of n iterations: parameters, misfit and merit."""
    x, obs, w = (np.array(v, dtype=float) for v in (x, obs, w))
    d = 0.9 * obs
    size = obs.shape[1]
    p = np.linalg.lstsq(np.column_stack([*obs[1:], np.full(size, float(si))]), (x * obs[1:]).sum(0) + si * obs[0], rcond=None)[0]
    out = []
    for _ in range(n + 1):
        e = ((x - p[:3, None]) * d[1:]).sum(0) + si * (d[0] - p[3])
        misfit = np.sqrt(((w[:, None] * (obs - d)) ** 2).sum())
        out.append((p, misfit, misfit + nu * np.sqrt((e ** 2).sum())))
        a = -np.column_stack([*d[1:], np.full(size, float(si))])
        b = np.vstack([np.full(size, float(si)), x - p[:3, None]])
        q = 1 / (b ** 2 / w[:, None]).sum(0)
        rhs = e + (b * (obs - d)).sum(0)
        dp = np.linalg.solve(a.T @ (a * q[:, None]), -a.T @ (q * rhs))
        d, p = obs - b / w[:, None] * (q * (rhs + a @ dp)), p + dp
    return out


@obligation("P31", FUNCS, "2 sets of 6 points of fixed values (where the merit goes down and up), any tolerance, 1 to 5 iterations at most", numeric=True, max_paths=100, witness_paths=6,
            params=[dict(noise=k, si=s, nu=v) for k, s, v in ((0, 3, 0.5), (0, 1, 0.1), (1, 1, 0.1), (1, 2, 3))])
def stops(H, noise, si, nu):
    """It stops at the first iteration that changes the merit by less than
    the tolerance, and warns when none does."""
    x, obs = NOISE[noise]
    w = (1, 0.5, 0.25, 0.125)
    most = 1 + H.choice("iterations", 5)
    tol = H.real("tol", 0, 2)
    ref = newton(x, obs, si, w, nu, most)
    change = [abs(ref[k][2] - ref[k + 1][2]) / ref[k][2] for k in range(most)]
    for v in change:  # not as close as the rounding of numbers
        H.assume(H.either(tol < H.const(v - 1e-6), tol > H.const(v + 1e-6)))
    e = hm.EulerInversion(structural_index=si, max_iterations=most, tol=tol, euler_misfit_balance=nu)
    coords, data = tuple(np.array(c, dtype=float) for c in x), tuple(np.array(c, dtype=float) for c in obs)
    _, warned = H.warns(lambda: e.fit(coords, data, weights=w))
    k, done = 0, False
    while not done and k < most:
        done = bool(H.const(change[k]) < tol)
        k += 1
    H.prove((UserWarning in warned) == (not done), "warned exactly when it did not converge")
    p, misfit, _ = ref[k]
    scale = float(np.abs(p).max())
    for a, b in zip([*e.location_, e.base_level_], p):
        H.prove(abs(float(a) - b) < 1e-6 * scale, "estimate of the last iteration")
    H.prove(abs(float(e.data_misfit_) - misfit) < 1e-6 * misfit, "misfit of the last iteration")
    for a, b in zip(coords + data, x + obs):
        H.prove(np.array_equal(a, b), "inputs not modified")


@obligation("P31", FUNCS, "every list of 1 to 3 structural indices, any misfit and estimate of each", max_paths=600,
            params=[dict(order=o) for o in ((1, 2, 3), (3, 1, 2), (2, 3), (3, 2, 1), (1,))])
def best_index(H, order):
    """The index with the smallest misfit is kept with its own estimate."""
    x = [H.array([1, 2, 3, 4, 5])] * 3
    data = [H.array([1, 2, 3, 4, 7])] * 4
    got = {s: ([H.real(f"x{s}{k}", -10, 10) for k in range(3)], H.real(f"b{s}", -10, 10), H.real(f"c{s}", 0, 10), H.real(f"m{s}", 0, 10)) for s in order}
    seen = []

    def fit(self, coordinates, data, weights):
        s = self.structural_index
        seen.append((s, weights, self.max_iterations, self.tol, self.euler_misfit_balance))
        loc, base, cov, mis = got[s]
        self.location_, self.base_level_ = H.array(loc), base
        self.covariance_, self.data_misfit_ = H.array([[cov] * 4] * 4), mis
        return self

    H.internal(MOD, "EulerInversion")._fit
    old = hm.EulerInversion._fit
    hm.EulerInversion._fit = fit
    try:
        e = hm.EulerInversion(structural_index=order, max_iterations=7, tol=0.25, euler_misfit_balance=3)
        w = (1, 2, 3, 4)
        H.prove(e.fit(tuple(x), tuple(data), weights=w) is e, "fit returns the object")
    finally:
        hm.EulerInversion._fit = old
    H.prove(sorted(s[0] for s in seen) == sorted(order), "each index is tried")
    H.prove(all(s[1:] == (w, 7, 0.25, 3) for s in seen), "with the options given")
    best = e.structural_index_
    H.prove(best in order, "one of the indices")
    loc, base, cov, mis = got[best]
    for s in order:
        H.prove(mis <= got[s][3], "smallest misfit")
    H.equal(e.location_, H.array(loc), "location of the same index")
    H.equal(e.base_level_, base, "base level of the same index")
    H.equal(e.covariance_[0, 0], cov, "covariance of the same index")
    H.prove(e.structural_index == order, "indices given are kept")


@obligation("P31", FUNCS, "5 points at fixed places; exact data of a source: any base level and strength, fixed location",
            params=[dict(si=s, kind=k) for s, k in ((1, "1d"), (2, "column"), (3, "strided"))])
def start_is_deconvolution(H, si, kind):
    """Zero iterations of change: with the tolerance met at once the estimate
    comes from the deconvolution of the same data."""
    n = 5
    x = [list(c) for c in X]
    x0 = [13, 4, -17]
    base, k0 = H.real("base", -10, 10), H.real("scale", 1, 10)
    d = [[k0 * v for v in row] for row in DERIVS[n]]
    f = [base - sum((x[k][i] - x0[k]) * d[i][k] for k in range(3)) / H.frac(si) for i in range(n)]
    seen = []
    real = hm.EulerDeconvolution

    class Spy(real):
        def fit(self, coordinates, data):
            seen.append((self.structural_index, coordinates, data))
            return super().fit(coordinates, data)

    calls = []

    def step(self, *a, **k):
        calls.append(a)
        raise Stop

    H.internal(MOD, "EulerInversion")._newton_step
    old = hm.EulerInversion._newton_step
    hm.EulerInversion._newton_step = step
    e = hm.EulerInversion(structural_index=si)
    coords = tuple(lay(H, kind, c) for c in x)
    data = (lay(H, kind, f),) + tuple(lay(H, kind, [v[k] for v in d]) for k in range(3))
    try:
        with H.patched((MOD, "EulerDeconvolution", Spy)):
            stopped = H.raises(lambda: e.fit(coords, data), Stop)[0]
    finally:
        hm.EulerInversion._newton_step = old
    H.prove(stopped and len(seen) == 1 and seen[0][0] == si, "starts from the deconvolution with the same index")
    H.equal(seen[0][2][0].ravel(), H.array(f), "of the same field", scale=None if H.symbolic else 100)
    p = calls[0][3]
    for k in range(3):
        H.equal(p[k], H.const(x0[k]), "location")
    H.equal(p[3], base, "base level", scale=None if H.symbolic else 1e3)
    H.equal(calls[0][1], H.array(f + [v[k] for k in range(3) for v in d]), "observed data", scale=None if H.symbolic else 100)


class Stop(Exception):
    pass


@obligation("P31", FUNCS, "structural index any number", params=[{}])
def rejected(H):
    si = H.real("si", -3, 3)
    H.prove(H.iff(H.raises(lambda: hm.EulerInversion(structural_index=si))[0], si == 0), "index 0 is rejected, no other is")
    one, two = H.array([1, 2, 3, 4, 5]), H.array([1, 2, 3, 4])
    bad = H.choice("bad", 7)
    args = [one] * 7
    args[bad] = two
    e = hm.EulerInversion(structural_index=1)
    H.prove(H.raises(lambda: e.fit(tuple(args[:3]), tuple(args[3:])))[0], "arrays of different sizes are rejected")
