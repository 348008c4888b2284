"""P05 magnetic field of prisms: superposition, units, null prisms."""
import harmonica as hm
import numpy as np

from ..harness import obligation
from .p04 import draw

FUNCS = ["harmonica._forward.prisms.magnetic.prism_magnetic", "_discard_null_prisms", "_run_sanity_checks",
         "_jit_prism_magnetic_*"]
BOUNDS = ("2 observation points, 2 prisms, any boundaries in order, any magnetization (zero included); "
          "the closed form of one prism (choclo) is uninterpreted")


@obligation("P05", FUNCS, BOUNDS,
            params=[dict(field=f, parallel=p, checks=c) for f in ("b", "b_e", "b_n", "b_u")
                    for p, c in ((True, True), (False, True), (True, False))])
def superposition(H, field, parallel, checks):
    prisms = draw(H, 2)
    mag = [H.reals(c, 2, -10, 10) for c in ("me", "mn", "mu")]
    obs = [[H.real(f"{c}{i}", -200, 200) for i in range(2)] for c in ("east", "north", "up")]
    kern = H.kernel("prism.magnetic_" + ("field" if field == "b" else field[2]))
    with H.kernels("all"):
        want = []
        for i in range(2):
            t = [0, 0, 0]
            for j, p in enumerate(prisms):
                m = [c[j] for c in mag]
                if H.either(p[0] == p[1], p[2] == p[3], p[4] == p[5], H.both(m[0] == 0, m[1] == 0, m[2] == 0)):
                    continue
                v = kern(obs[0][i], obs[1][i], obs[2][i], *p, *m)
                v = v if field == "b" else (v, 0, 0)
                t = [a + b * 10**9 for a, b in zip(t, v)]
            want.append(t)
        prism_arr, mag_arr = H.array(prisms), tuple(H.array(m) for m in mag)
        res = hm.prism_magnetic(tuple(H.array(c) for c in obs), prism_arr, mag_arr, field=field,
                                parallel=parallel, disable_checks=not checks)
    if field == "b":
        H.prove(isinstance(res, tuple) and len(res) == 3, "three components")
        for c in range(3):
            H.equal(res[c], H.array([w[c] for w in want]), "b_" + "enu"[c])
    else:
        H.equal(res, H.array([w[0] for w in want]), field)
    H.equal(prism_arr, H.array(prisms), "prisms not modified")
    for a, m in zip(mag_arr, mag):
        H.equal(a, H.array(m), "magnetization not modified")


@obligation("P05", FUNCS, "1 observation point, 1 prism, real choclo closed form replaced by uninterpreted functions",
            params=[dict(field=f) for f in ("b_e", "b_n", "b_u")])
def forms(H, field):
    """Single prism given flat with numbers as magnetization; shape kept."""
    p = draw(H, 1)[0]
    m = H.reals("m", 3, -10, 10)
    obs = [H.real(c, -200, 200) for c in ("east", "north", "up")]
    with H.kernels("all"):
        a = hm.prism_magnetic(tuple(H.array([[c]]) for c in obs), H.array([p]), tuple(H.array([c]) for c in m), field=field)
        b = hm.prism_magnetic(tuple(H.array([c]) for c in obs), H.array(p), tuple(H.array(c) for c in m), field=field)
    H.prove(np.shape(a) == (1, 1) and np.shape(b) == (1,), "shape of the coordinates")
    H.equal(a[0, 0], b[0], field)


@obligation("P05", FUNCS, "4 points and 4 prisms, arrays of any shape and memory order", params=[dict(field=f, kind=k) for f in ("b", "b_u") for k in ("2d", "transposed", "strided", "mixed", "integers")])
def memory_order(H, field, kind):
    if kind == "integers":
        prisms = [[H.integer(f"{c}i{j}", -50, 50) for c in "wesnbt"] for j in range(4)]
    else:
        prisms = draw(H, 4)
    for p in prisms:
        H.assume(H.both(p[0] < p[1], p[2] < p[3], p[4] < p[5]))
    mag = [H.reals(c, 4, 1, 10) for c in ("me", "mn", "mu")]
    obs = [H.reals(c, 4, -200, 200) for c in ("east", "north", "up")]
    so, sd = {"mixed": ("column", "transposed"), "integers": ("1d", "1d")}.get(kind, (kind, kind))
    if kind in ("transposed", "mixed"):
        arr = H.array([[p[k] for p in prisms] for k in range(6)]).T
    elif kind == "strided":
        arr = H.array([[x for v in p for x in (v, 0)] for p in prisms])[:, ::2]
    elif kind == "integers":
        arr = H.int_array(prisms)
    else:
        arr = H.array(prisms)
    with H.kernels("all"):
        base = hm.prism_magnetic(tuple(H.array(c) for c in obs), H.array(prisms), tuple(H.array(c) for c in mag), field=field)
        res = hm.prism_magnetic(tuple(H.lay(so, c) for c in obs), arr, tuple(H.lay(sd, c) for c in mag), field=field)
    for r, b in zip(res, base) if field == "b" else [(res, base)]:
        H.prove(r.shape == H.lay(so, [0] * 4).shape, "shape of the points")
        H.equal(r.ravel(), b, field)
