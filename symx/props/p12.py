"""P12 gravity of tesseroids."""
import harmonica as hm

from ..harness import obligation
from ._tess import TG, UT, draw, minimizer, oracle, point, setup

FUNCS = ["harmonica.tesseroid_gravity", "gauss_legendre_quadrature", "gauss_legendre_quadrature_variable_density",
         "_discard_null_tesseroids", "_check_tesseroids", "dispatcher"]
B = "; field of a point mass (decided by P02) uninterpreted"


def arrays(H, pts):
    return tuple(H.array([p[k] for p in pts]) for k in range(3))


@obligation("P12", FUNCS, "2 points, 2 tesseroids (1 and 1 with the checks on; may lack volume), any densities, no division" + B,
            params=[dict(field=f, parallel=p, checks=c) for f in ("potential", "g_z")
                    for p, c in ((True, True), (False, True), (True, False))], witness_paths=1)
def quadrature(H, field, parallel, checks):
    """Sum over tesseroids of density times the quadrature of point masses."""
    n = 1 if checks else 2
    ts = [draw(H, j) for j in range(n)]
    rho = H.reals("rho", n, -10, 10)
    obs = arrays(H, [point(H, j) for j in range(n)])
    if checks:  # P09 and P10 decide the checks for every longitude
        H.assume(H.both(obs[0][0] >= 0, obs[0][0] < ts[0][0]))
    tess_in, rho_in = H.array(ts), H.array(rho)
    with setup(H):
        res = hm.tesseroid_gravity(obs, tess_in, rho_in, field=field, parallel=parallel, disable_checks=not checks)
        want = oracle(H, obs, list(zip(ts, rho)), field)
    H.equal(res, want, field, rtol=1e-5, scale=None if H.symbolic else max(abs(want)))
    H.equal(tess_in, H.array(ts), "tesseroids not modified")
    H.equal(rho_in, H.array(rho), "densities not modified")


@obligation("P12", FUNCS, "1 point, 1 tesseroid divided in {} parts" + B, witness_paths=1,
            params=[dict(field="potential", parts=(2, 1, 1), radial=False), dict(field="g_z", parts=(2, 2, 1), radial=False),
                    dict(field="g_z", parts=(1, 2, 1), radial=True), dict(field="potential", parts=(1, 1, 2), radial=True)])
def divided(H, field, parts, radial):
    """The field of a divided tesseroid is the sum over its parts."""
    t = draw(H, 0)
    H.assume(H.both(t[0] < t[1], t[2] < t[3], t[4] < t[5]))
    rho = H.real("rho", 1, 10)
    obs = arrays(H, [point(H, 0)])

    def dims(x):
        # too large while a dimension is the original one and should be halved
        rel = [(x[2 * k + 1] - x[2 * k]) / (t[2 * k + 1] - t[2 * k]) for k in range(3)]
        return tuple(r if p == 2 else r / 4 for r, p in zip(rel, parts))

    with setup(H, never_divide=False), H.patched(
            (UT, "_tesseroid_dimensions", dims), (UT, "_distance_tesseroid_point", lambda p, x: H.frac(3, 4)),
            (TG, "DISTANCE_SIZE_RATII", {"potential": 1, "g_z": 1})):
        res = hm.tesseroid_gravity(obs, H.array(t), H.array([rho]), field=field, radial_adaptive_discretization=radial)
        pieces = []
        for i in range(parts[0]):
            for j in range(parts[1]):
                for k in range(parts[2]):
                    q = []
                    for c, (idx, m) in enumerate(zip((i, j, k), parts)):
                        lo, hi = t[2 * c], t[2 * c + 1]
                        q += [lo + (hi - lo) * idx / m, lo + (hi - lo) * (idx + 1) / m]
                    pieces.append((q, rho))
        want = oracle(H, obs, pieces, field)
    H.equal(res, want, field, rtol=1e-5)


@obligation("P12", FUNCS, "1 point, 2 tesseroids (one fixed and without volume), density linear in the radius, no division; scipy's "
            "minimiser may return any point" + B, witness_paths=1, max_paths=400,
            params=[dict(field=f, kind=k) for f in ("potential", "g_z") for k in ("constant", "linear")])
def density_function(H, field, kind):
    """A function as density: constant = number; linear = density at nodes."""
    ts = [draw(H, 0), [10, 10, 20, 30, 4, 5]]
    a = H.real("a", 1, 10)
    b = H.real("slope", 1, 2) if kind == "linear" else 0
    rho = (lambda r: a + b * r) if kind == "linear" else (lambda r: a)
    obs = arrays(H, [point(H, 0)])
    H.assume(H.both(obs[0][0] >= 0, obs[0][0] < ts[0][0], obs[0][0] < 10))
    with setup(H), H.patched(*minimizer(H)):
        res = hm.tesseroid_gravity(obs, H.array(ts), rho, field=field)
        want = oracle(H, obs, [(t, rho) for t in ts], field)
        H.equal(res, want, field, rtol=1e-4)
        if kind == "constant":
            num = hm.tesseroid_gravity(obs, H.array(ts), H.array([a, a]), field=field)
            H.equal(res, num, "same as a number")


@obligation("P12", FUNCS, "1 point at any distance from 2 tesseroids, the first one as large as its unit of size and the second one small; densities as numbers or "
            "functions" + B, witness_paths=2,
            params=[dict(field=f, radial=r, kind=k) for f in ("potential", "g_z") for r, k in ((False, "number"), (True, "number"), (True, "callable"))])
def ratios(H, field, radial, kind):
    """Defaults that the accuracy claim (0.1 %) of the documentation needs:
    tesseroids are divided when closer than 1 or 2.5 times their size."""
    ts = [draw(H, 0), draw(H, 1)]
    for t in ts:
        H.assume(H.both(t[0] < t[1], t[2] < t[3], t[4] < t[5]))
    H.assume(ts[1][1] - ts[1][0] != ts[0][1] - ts[0][0])
    obs = arrays(H, [point(H, 0)])
    ratio = {"potential": 1, "g_z": H.frac(5, 2)}[field]
    far = H.real("distance", 0.01, 10)
    H.assume(far != ratio)

    def dims(x):
        whole = x[1] - x[0] == ts[0][1] - ts[0][0]
        return (1, 1, 1) if bool(whole) else (H.frac(1, 10000),) * 3

    rho = [2, 2] if kind == "callable" else H.reals("rho", 2, 1, 10)
    given = (lambda r: 2) if kind == "callable" else H.array(rho)
    with setup(H, never_divide=False), H.patched(
            (UT, "_tesseroid_dimensions", dims), (UT, "_distance_tesseroid_point", lambda p, x: far), *minimizer(H)):
        res = hm.tesseroid_gravity(obs, H.array(ts), given, field=field, radial_adaptive_discretization=radial, disable_checks=True)
        near = bool(far < ratio)
        t, pieces = ts[0], [(ts[1], rho[1])]
        m = (2, 2, 2 if radial else 1) if near else (1, 1, 1)
        for i in range(m[0]):
            for j in range(m[1]):
                for k in range(m[2]):
                    q = []
                    for c, idx in enumerate((i, j, k)):
                        lo, hi = t[2 * c], t[2 * c + 1]
                        q += [lo + (hi - lo) * idx / m[c], lo + (hi - lo) * (idx + 1) / m[c]]
                    pieces.append((q, rho[0]))
        want = oracle(H, obs, pieces, field)
    H.equal(res, want, "divided below the ratio only", rtol=1e-5)
