"""P03 magnetic field of dipoles."""
import math

import harmonica as hm
from choclo.constants import VACUUM_MAGNETIC_PERMEABILITY as MU0

from ..harness import obligation

FUNCS = ["harmonica._forward.dipole.dipole_magnetic", "_jit_dipole_magnetic_*", "choclo.dipole.magnetic_*"]
BOUNDS = "2 observation points, 2 dipoles, coordinates and moments any reals, no coincident points"


def setup(H, n=2, k=2):
    obs = [H.reals(c, n, -100, 100) for c in ("e", "n", "u")]
    src = [H.reals(c, k, -100, 100) for c in ("pe", "pn", "pu")]
    mom = [H.reals(c, k, -100, 100) for c in ("me", "mn", "mu")]
    b = []
    for i in range(n):
        t = [0, 0, 0]
        for j in range(k):
            d = [obs[c][i] - src[c][j] for c in range(3)]
            m = [mom[c][j] for c in range(3)]
            r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
            H.assume(r2 > 0)
            r = H.sqrt(r2)
            md = m[0] * d[0] + m[1] * d[1] + m[2] * d[2]
            for c in range(3):
                t[c] = t[c] + H.const(MU0) / (4 * H.pi) * (3 * md * d[c] / r2 - m[c]) / (r2 * r) * 10**9
        b.append(t)
    return obs, src, mom, b


@obligation("P03", FUNCS, BOUNDS,
            params=[dict(field=f, parallel=p) for f in ("b", "b_e", "b_n", "b_u") for p in (True, False)])
def dipole_law(H, field, parallel):
    obs, src, mom, b = setup(H)
    res = hm.dipole_magnetic(tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src),
                             tuple(H.array(c) for c in mom), field=field, parallel=parallel)
    if field == "b":
        want = tuple(H.array([b[i][c] for i in range(2)]) for c in range(3))
    else:
        want = H.array([b[i]["enu".index(field[2])] for i in range(2)])
    H.equal(res, want, field, rtol=1e-5)


class Bar:
    """Stand-in for the optional progress bar."""

    def __init__(self):
        self.n = 0

    def update(self, k):
        self.n += k

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@obligation("P03", FUNCS, BOUNDS, params=[dict(field=f) for f in ("b", "b_e")])
def progressbar(H, field):
    """A progress bar does not change the field and is advanced once per point."""
    import sys
    import types

    obs, src, mom, b = setup(H, 2, 1)
    bars = []
    mod = types.ModuleType("numba_progress")
    mod.ProgressBar = lambda total: bars.append((total, Bar())) or bars[-1][1]
    old = sys.modules.get("numba_progress")
    sys.modules["numba_progress"] = mod
    jit = not H.symbolic
    args = (tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src), tuple(H.array(c) for c in mom))
    try:
        res = hm.dipole_magnetic(*args, field=field, progressbar=True)
    finally:
        if old is None:
            del sys.modules["numba_progress"]
        else:
            sys.modules["numba_progress"] = old
    H.equal(res, hm.dipole_magnetic(*args, field=field), field)
    H.prove(len(bars) == 1 and bars[0][0] == 2 and bars[0][1].n == 2, "progress counts every point once")


@obligation("P03", FUNCS, "1 point, 1 dipole, any reals", params=[{}])
def divergence_free_symmetry(H):
    """Reciprocity: the field of m1 at P along m2 equals that of m2 at Q along m1."""
    p, q = H.reals("p", 3, -100, 100), H.reals("q", 3, -100, 100)
    m1, m2 = H.reals("a", 3, -10, 10), H.reals("b", 3, -10, 10)
    d = [p[i] - q[i] for i in range(3)]
    H.assume(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 0)

    def run(at, src, m):
        r = hm.dipole_magnetic(tuple(H.array([c]) for c in at), tuple(H.array([c]) for c in src),
                               tuple(H.array([c]) for c in m), field="b")
        return [c[0] for c in r]

    b1, b2 = run(p, q, m1), run(q, p, m2)
    H.equal(sum(x * y for x, y in zip(b1, m2)), sum(x * y for x, y in zip(b2, m1)), "reciprocity", rtol=1e-5,
            scale=None if H.symbolic else max(abs(x * y) for x, y in zip(b1, m2)))


LAYOUTS = ("2d", "transposed", "strided", "reversed", "mixed", "observations")


@obligation("P03", FUNCS, "4 dipoles and 4 observation points in arrays of any shape and memory order; the kernel of one dipole (choclo) is uninterpreted",
            params=[dict(field=f, kind=k) for f in ("b", "b_n") for k in LAYOUTS])
def memory_order(H, field, kind):
    """Sources, moments and points pair up by position, not by memory order."""
    obs = [H.reals(c, 4, -100, 100) for c in ("e", "n", "u")]
    src = [H.reals(c, 4, -100, 100) for c in ("pe", "pn", "pu")]
    mom = [H.reals(c, 4, -100, 100) for c in ("me", "mn", "mu")]
    apart(H, obs, src)
    so, ss, sm = {"mixed": ("column", "transposed", "2d"), "observations": ("transposed", "1d", "strided")}.get(kind, ("1d", kind, kind))
    with H.kernels("all"):
        base = hm.dipole_magnetic(tuple(H.array(c) for c in obs), tuple(H.array(c) for c in src),
                                  tuple(H.array(c) for c in mom), field=field)
        res = hm.dipole_magnetic(tuple(H.lay(so, c) for c in obs), tuple(H.lay(ss, c) for c in src),
                                 tuple(H.lay(sm, c) for c in mom), field=field)
    for r, b in zip(res, base) if field == "b" else [(res, base)]:
        H.prove(r.shape == H.lay(so, [0, 0, 0, 0]).shape, "shape of the points")
        H.equal(r.ravel(), b, field)


def apart(H, obs, src):
    for i in range(len(obs[0])):
        for j in range(len(src[0])):
            H.assume(obs[2][i] > src[2][j])
