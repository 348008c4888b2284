"""P04 gravity of prisms: superposition, signs, units, null prisms."""
import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica._forward.prisms.gravity.prism_gravity", "check_prisms", "_discard_null_prisms",
         "_check_singular_points", "jit_prism_gravity"]
BOUNDS = ("{} observation points, {} prisms, any boundaries with west<=east, south<=north, bottom<=top, any density "
          "(zero included); the closed form of one prism (choclo) is uninterpreted")
# field: (kernel, sign of the vertical axis, SI -> mGal or Eotvos)
FIELDS = {
    "potential": ("gravity_pot", 1, 1), "g_e": ("gravity_e", 1, 10**5), "g_n": ("gravity_n", 1, 10**5),
    "g_z": ("gravity_u", -1, 10**5), "g_ee": ("gravity_ee", 1, 10**9), "g_nn": ("gravity_nn", 1, 10**9),
    "g_zz": ("gravity_uu", 1, 10**9), "g_en": ("gravity_en", 1, 10**9), "g_ez": ("gravity_eu", -1, 10**9),
    "g_nz": ("gravity_nu", -1, 10**9),
}


def draw(H, k, tag=""):
    out = []
    for j in range(k):
        p = [H.real(f"{c}{tag}{j}", -100, 100) for c in ("w", "e", "s", "n", "b", "t")]
        H.assume(H.both(p[0] <= p[1], p[2] <= p[3], p[4] <= p[5]))
        out.append(p)
    return out


def null(H, p, rho):
    return H.either(p[0] == p[1], p[2] == p[3], p[4] == p[5], rho == 0)


@obligation("P04", FUNCS, BOUNDS.format("2 (1 for tensors)", 2) + "; observation points up, north and east of every prism for tensor components (P06 covers the rest)",
            params=[dict(field=f, parallel=p, checks=c) for f in FIELDS for p, c in ((True, True), (False, True), (True, False))])
def superposition(H, field, parallel, checks):
    tensor = len(field) == 4
    n = 1 if tensor else 2
    prisms = draw(H, 2)
    rho = H.reals("rho", 2, -3000, 3000)
    obs = [[H.real(f"{c}{i}", -200, 200) for i in range(n)] for c in ("east", "north", "up")]
    if tensor:
        for i in range(n):
            for p in prisms:
                H.assume(H.both(obs[0][i] > p[1], obs[1][i] > p[3], obs[2][i] > p[5]))
    name, sign, unit = FIELDS[field]
    kern = H.kernel("prism." + name)
    with H.kernels("all"):
        want = []
        for i in range(n):
            t = 0
            for p, r in zip(prisms, rho):
                if not null(H, p, r):
                    t = t + kern(obs[0][i], obs[1][i], obs[2][i], *p, r)
            want.append(sign * unit * t)
        res = hm.prism_gravity(tuple(H.array(c) for c in obs), H.array(prisms), H.array(rho), field=field,
                               parallel=parallel, disable_checks=not checks)
    H.equal(res, H.array(want), field)


@obligation("P04", FUNCS, BOUNDS.format(1, 1), params=[dict(field=f) for f in FIELDS])
def one_prism_forms(H, field):
    """A single prism may be a flat list with a number as density; the output
    keeps the shape of the coordinates, and input arrays are not modified."""
    p = draw(H, 1)[0]
    rho = H.real("rho", -3000, 3000)
    obs = [H.real(c, -200, 200) for c in ("east", "north", "up")]
    H.assume(H.both(obs[0] > p[1], obs[1] > p[3], obs[2] > p[5]))
    with H.kernels("all"):
        prisms, dens = H.array([p]), H.array([rho])
        c2 = tuple(H.array([[c]]) for c in obs)
        base = hm.prism_gravity(c2, prisms, dens, field=field)
        one = hm.prism_gravity(tuple(H.array([c]) for c in obs), H.array(p), H.array(rho), field=field)
    H.prove(np.shape(base) == (1, 1), "shape of the coordinates")
    H.prove(np.shape(one) == (1,), "shape of the coordinates")
    H.equal(one[0], base[0, 0], field)
    H.equal(prisms, H.array([p]), "prisms not modified")
    H.equal(dens, H.array([rho]), "density not modified")
    for c, v in zip(c2, obs):
        H.equal(c, H.array([[v]]), "coordinates not modified")


@obligation("P04", FUNCS, "4 points and 4 prisms, arrays of any shape and memory order", params=[dict(field=f, kind=k) for f in ("g_z", "potential") for k in ("2d", "transposed", "strided", "mixed", "integers")])
def memory_order(H, field, kind):
    prisms = draw(H, 4)
    if kind == "integers":
        prisms = [[H.integer(f"{c}i{j}", -50, 50) for c in "wesnbt"] for j in range(4)]
        for p in prisms:
            H.assume(H.both(p[0] < p[1], p[2] < p[3], p[4] < p[5]))
    else:
        for p in prisms:
            H.assume(H.both(p[0] < p[1], p[2] < p[3], p[4] < p[5]))
    rho = H.reals("rho", 4, 1, 3000)
    obs = [H.reals(c, 4, -200, 200) for c in ("east", "north", "up")]
    so, sd = {"mixed": ("column", "strided"), "integers": ("1d", "1d")}.get(kind, (kind, kind))
    if kind in ("transposed", "mixed"):
        arr = H.array([[p[k] for p in prisms] for k in range(6)]).T
    elif kind == "strided":
        arr = H.array([[x for v in p for x in (v, 0)] for p in prisms])[:, ::2]
    elif kind == "integers":
        arr = H.int_array(prisms)
    else:
        arr = H.array(prisms)
    with H.kernels("all"):
        base = hm.prism_gravity(tuple(H.array(c) for c in obs), H.array(prisms), H.array(rho), field=field)
        res = hm.prism_gravity(tuple(H.lay(so, c) for c in obs), arr, H.lay(sd, rho), field=field)
    H.prove(res.shape == H.lay(so, [0] * 4).shape, "shape of the points")
    H.equal(res.ravel(), base, field)
