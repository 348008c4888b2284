"""P13 discretization of tesseroids with variable density."""


from .. import core
from ..harness import obligation
from ._tess import VD

FUNCS = [VD + ".density_based_discretization", "_density_based_discretization", "density_minmax", "maximum_absolute_diff",
         "straight_line"]


class Bound(Exception):
    pass


def stub(H, calls, vertex, limit, free=None):
    """scipy's bounded minimiser: any point for the difference from the
    straight line, any point or the extreme itself for the density."""

    class Res:
        pass

    def fake(fun, bounds=None, method=None, **kw):
        if len(calls) >= limit:
            raise core.Infeasible if H.symbolic else Bound
        b, t = bounds
        if free is None or len(calls) < free:
            x = H.real(f"xmin{len(calls)}", 0, 1)
            H.assume(H.both(x > 0, x < 1))
        else:
            k = H.choice(f"at{len(calls)}", 2) if len(calls) < free + 2 else 2
            x = (H.frac(1, 3), H.frac(3, 4), H.frac(1, 2))[k]
        x = b + (t - b) * x
        ends = fun(b)
        flat = (ends == 0) if H.symbolic else abs(ends) < 1e-12
        diff = bool(flat)
        if not diff and vertex is not None:
            x = vertex
        r = Res()
        r.x, r.fun = x, fun(x)
        calls.append((diff, b, t, x))
        return r

    return fake


def density(H, kind, b, t, c=None):
    """Quadratic density; returns function, lowest and highest value, curvature, vertex."""
    c = H.real("curvature", 0.01, 10) if c is None else c
    if kind in ("up", "down"):
        slope, base = H.real("slope", 0, 10), H.real("base", 1, 10)
        if kind == "up":
            def rho(r):
                return base + slope * (r - b) + c * (r - b) * (r - b)
            return rho, rho(b), rho(t), c, None

        def rho(r):
            return base + slope * (t - r) + c * (t - r) * (t - r)
        return rho, rho(t), rho(b), c, None
    m = H.real("vertex", 0, 1)
    H.assume(H.both(m > 0, 2 * m <= 1))
    m = b + (t - b) * m
    top = (t - m) * (t - m) * c
    if kind == "valley":
        base = H.real("base", 1, 10)
        return (lambda r: base + c * (r - m) * (r - m)), base, base + top, c, m
    low = H.real("base", 1, 10)
    return (lambda r: low + top - c * (r - m) * (r - m)), low, low + top, c, m


B = ("1 tesseroid (thickness 0.01..100), quadratic density (increasing, decreasing, valley or hill), at most {} divisions, "
     "the minimiser may return any interior point for the difference and any (or the extreme) for the density")


@obligation("P13", FUNCS, B.format(1), params=[dict(kind=k, splits=1) for k in ("up", "down", "valley", "hill")]
            + [dict(kind=k, splits=2, _tier="thorough") for k in ("up", "hill")],
            max_paths=300, witness_paths=1, lemmas=False)
def pieces(H, kind, splits):
    pieces_of(H, kind, splits)


@obligation("P13", FUNCS, "1 tesseroid of thickness 10, density with a valley or hill anywhere in its lower half, at most 4 divisions: the first one anywhere, the "
            "next two at one third or three quarters of the piece, then halves", max_paths=600, witness_paths=8, lemmas=False,
            params=[dict(kind=k, splits=n, _tier=t) for k, n, t in (("valley", 3, "quick"), ("hill", 3, "quick"), ("hill", 4, "thorough"))])
def deeper(H, kind, splits):
    pieces_of(H, kind, splits, True)


def pieces_of(H, kind, splits, fixed=False):
    t = [H.real("w", -180, 180), H.real("e", -180, 180), H.real("s", -90, 90), H.real("n", -90, 90)]
    b, thick = (50, 10) if fixed else (H.real("b", 1, 100), H.real("thickness", 0.01, 100))
    H.assume(H.both(t[0] < t[1], t[2] < t[3]))
    t += [b, b + thick]
    rho, low, high, c, vertex = density(H, kind, t[4], t[5], 2 if fixed else None)
    H.assume(high - low > (high + low) / 1000)
    f = H.internal(VD, "density_based_discretization")
    calls = []
    fake = stub(H, calls, vertex, 3 + 2 * splits, 3 if fixed else None)
    with H.patched((VD, "minimize_scalar", fake)):
        try:
            out = f(H.array([t]), rho)
        except Bound:
            H.assume(False)
    n = out.shape[0]
    leaves = [[out[k, i] for i in range(6)] for k in range(n)]
    for lf in leaves:
        H.equal(H.array(lf[:4]), H.array(t[:4]), "horizontal boundaries", rtol=1e-9)
        H.prove(lf[4] < lf[5], "has volume")
    r = H.real("r", 0, 1)
    H.assume(r < 1)
    r = t[4] + thick * r
    hits = [H.both(lf[4] <= r, r < lf[5]) for lf in leaves]
    H.prove(H.either(*hits), "covered")
    for i in range(n):
        for j in range(i):
            H.prove(H.no(H.both(hits[i], hits[j])), "no overlap")
        H.prove(H.both(leaves[i][4] >= t[4], leaves[i][5] <= t[5]), "inside")
    kept = divided = 0
    for diff, lo, hi, x in calls:
        if not diff:
            continue
        crit = c * (x - lo) * (hi - x) * (hi - lo) * 10
        bound = (high - low) * thick
        is_leaf = [H.both(lf[4] == lo, lf[5] == hi) for lf in leaves]
        leaf = any(bool(v) for v in is_leaf)
        if leaf:
            kept += 1
            H.prove(crit <= bound, "kept only below the threshold") if H.symbolic else H.nonneg(bound - crit, "kept", 1e-6)
        else:
            divided += 1
            H.prove(crit > bound, "divided only above the threshold") if H.symbolic else H.nonneg(crit - bound, "divided", 1e-6)
            at = [H.either(lf[4] == x, lf[5] == x) for lf in leaves]
            H.prove(H.either(*at), "divided where the difference is largest")
    H.prove(kept == n, "every piece was examined")
    H.prove(divided == n - 1, "one more piece per division")


@obligation("P13", FUNCS, "2 tesseroids, quadratic density, at most 1 division each", params=[{}], max_paths=100, witness_paths=1)
def each_tesseroid(H):
    """Pieces of all the tesseroids are returned and used, also when only some are divided."""
    t = [[10, 20, 30, 40, 50, 51], [H.real("w", -180, 0), 10, -20, 20, 50, 60]]
    rho = lambda r: 1 + (r - 50) * (r - 50)  # noqa: E731
    f = H.internal(VD, "density_based_discretization")
    calls = []
    with H.patched((VD, "minimize_scalar", stub(H, calls, None, 9))):
        try:
            out = f(H.array(t), rho)
        except Bound:
            H.assume(False)
    n = out.shape[0]
    leaves = [[out[k, i] for i in range(6)] for k in range(n)]
    vol = [0, 0]
    for lf in leaves:
        mine = H.both(lf[0] == t[0][0], lf[2] == 30)
        other = H.both(lf[0] == t[1][0], lf[2] == -20)
        H.prove(H.either(mine, other), "belongs to one of them")
        vol[0 if bool(mine) else 1] += lf[5] - lf[4]
    H.equal(vol[0], 1, "first")
    H.equal(vol[1], 10, "second")


@obligation("P13", FUNCS, "1 tesseroid, densities that are constant", params=[{}], witness_paths=1)
def constant_not_divided(H):
    t = [10, 20, 30, 40, H.real("b", 1, 10), H.real("t", 11, 20)]
    rho = H.real("rho", 1, 3000)
    f = H.internal(VD, "density_based_discretization")
    with H.patched((VD, "minimize_scalar", stub(H, [], None, 2))):
        out = f(H.array([t]), lambda r: rho)
    H.prove(out.shape == (1, 6), "one piece")
    H.equal(H.array([out[0, i] for i in range(6)]), H.array(t), "unchanged")
