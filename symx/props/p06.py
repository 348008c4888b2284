"""P06 prisms: validation and warnings."""
import contextlib

import choclo.prism._gravity as cg
import harmonica as hm

from .. import core
from ..harness import obligation

FUNCS = ["harmonica._forward.prisms.utils.check_prisms", "prism_gravity", "prism_magnetic", "_check_singular_points",
         "_any_singular_point_*"]


@obligation("P06", FUNCS, "2 prisms with any six numbers each", params=[dict(kind=k) for k in ("gravity", "magnetic")])
def rejected_iff_bad(H, kind):
    prisms = [[H.real(f"{c}{j}", -100, 100) for c in ("w", "e", "s", "n", "b", "t")] for j in range(2)]
    obs = [H.array([H.real(c, -200, 200)]) for c in ("east", "north", "up")]
    vals = H.reals("v", 2, -10, 10)
    bad = H.either(*[H.either(p[0] > p[1], p[2] > p[3], p[4] > p[5]) for p in prisms])
    with H.kernels("all"):
        if kind == "gravity":
            raised, _ = H.raises(lambda: hm.prism_gravity(tuple(obs), H.array(prisms), H.array(vals), field="g_z"))
        else:
            raised, _ = H.raises(lambda: hm.prism_magnetic(tuple(obs), H.array(prisms), (H.array(vals),) * 3, field="b_u"))
    H.prove(H.iff(raised, bad), "rejected exactly when a boundary is out of order")


@obligation("P06", FUNCS, "0..3 sources, 0..3 densities or components (every size, dimensions up to 3)",
            params=[dict(kind=k) for k in ("gravity", "b", "b_e", "dipole_b", "dipole_b_u", "point_cart")]
            + [dict(kind="point_sph")]
            + [dict(kind=k) for k in ("moments_b", "moments_b_u", "masses_cart", "masses_sph", "tesseroid")],
            max_paths=700)
def sizes(H, kind):
    """Sizes that do not match are rejected, whichever the component."""
    a = H.choice("n", 3) + 1
    comp = [H.choice(f"m{i}", 3) + 1 for i in range(1 if kind in ("gravity", "tesseroid") or kind.startswith("masses") else 3)]
    one = H.real("x", 1, 2)

    def arr(n):
        return H.array([one] * n)

    obs = tuple(H.array([0.5]) for _ in range(2)) + (H.array([30.0]),)
    prisms = H.array([[one * 0, one, one * 0, one, one * 0, one] for _ in range(a)])
    with H.kernels("all"):
        if kind == "gravity":
            run = lambda: hm.prism_gravity(obs, prisms, arr(comp[0]), field="g_z")
            ok = comp[0] == a
        elif kind in ("b", "b_e"):
            run = lambda: hm.prism_magnetic(obs, prisms, tuple(arr(c) for c in comp), field=kind)
            ok = all(c == a for c in comp)
        elif kind.startswith("dipole"):
            src = tuple(arr(c) for c in comp)
            wrong = H.choice("wrong", 3)
            mom = [arr(a)] * 3
            run = lambda: hm.dipole_magnetic(obs, src, tuple(mom[:wrong] + [arr(a)] + mom[wrong + 1:]), field=kind[7:])
            ok = all(c == a for c in comp)
        elif kind.startswith("moments"):
            ncomp = 2 + H.choice("components", 3)
            mom = tuple(arr(c) for c in (comp + [a])[:ncomp])
            run = lambda: hm.dipole_magnetic(obs, (arr(a),) * 3, mom, field=kind[8:])
            ok = ncomp == 3 and all(c == a for c in comp)
        elif kind.startswith("masses"):
            system = "cartesian" if kind == "masses_cart" else "spherical"
            places = tuple(H.array([c] * a) for c in (0.5, 0.5, 10.0))
            run = lambda: hm.point_gravity(obs, places, arr(comp[0]), field="potential", coordinate_system=system)
            ok = comp[0] == a
        elif kind == "tesseroid":
            tess = H.array([[0, 1, 0, 1, 10 * k, 10 * k + 5] for k in range(a)])
            run = lambda: hm.tesseroid_gravity((H.array([0.5]), H.array([0.5]), H.array([300.0])), tess, H.array([2.0] * comp[0]), field="potential")
            ok = comp[0] == a
            if ok:
                return  # accepted everywhere in P09 to P11
        else:
            system = "cartesian" if kind == "point_cart" else "spherical"
            run = lambda: hm.point_gravity(obs, tuple(arr(c) for c in comp), arr(a), field="potential", coordinate_system=system)
            ok = all(c == a for c in comp)
        raised, _ = H.raises(run)
    H.prove(raised != ok, f"rejected exactly when the sizes differ {a} {comp}")


@contextlib.contextmanager
def evaluate_uf(H):
    """choclo's sum of kernels over the corners becomes uninterpreted."""
    old = cg._evaluate_kernel
    if H.symbolic:
        cg._evaluate_kernel = lambda *a: core.uf("corner_sum_" + a[-1].__name__, *a[:-1])
    try:
        yield
    finally:
        cg._evaluate_kernel = old


@obligation("P06", FUNCS, "1 observation point anywhere, 1 prism with volume and density", max_paths=3000,
            params=[dict(field=f) for f in ("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz", "g_z", "g_e", "g_n", "potential")])
def warned_iff_singular(H, field):
    """A warning appears exactly when the component is not defined (NaN) there."""
    p = [H.real(c, -100, 100) for c in ("w", "e", "s", "n", "b", "t")]
    H.assume(H.both(p[0] < p[1], p[2] < p[3], p[4] < p[5]))
    rho = H.real("rho", 1, 3000)
    obs = [H.real(c, -200, 200) for c in ("east", "north", "up")]
    with evaluate_uf(H):
        res, w = H.warns(lambda: hm.prism_gravity(tuple(H.array([c]) for c in obs), H.array([p]), H.array([rho]), field=field))
    v = res[0]
    isnan = (v is core.NAN) if H.symbolic else bool(v != v)
    H.prove((UserWarning in w) == isnan, "warning iff not a number")
    # singular points: on the edges the component is not defined at
    on = [H.both(H.either(obs[k] == p[2 * k], obs[k] == p[2 * k + 1])) for k in range(3)]
    ins = [H.both(obs[k] >= p[2 * k], obs[k] <= p[2 * k + 1]) for k in range(3)]
    edge = {"e": H.both(ins[0], on[1], on[2]), "n": H.both(on[0], ins[1], on[2]), "z": H.both(on[0], on[1], ins[2])}
    edges = {"g_ee": "nz", "g_nn": "ez", "g_zz": "en", "g_en": "z", "g_ez": "n", "g_nz": "e"}.get(field, "")
    sing = H.either(*[edge[c] for c in edges]) if edges else False
    H.prove(H.iff(isnan, sing), "not a number exactly on the singular edges")


@obligation("P06", FUNCS, "3 observation points, 3 prisms; one singular pair, any of the nine", max_paths=3000,
            params=[dict(field=f) for f in ("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz")])
def every_pair_is_checked(H, field):
    edge = {"g_ee": 1, "g_nn": 0, "g_zz": 0, "g_en": 2, "g_ez": 1, "g_nz": 0}[field]
    p = [H.real(c, -100, 100) for c in ("w", "e", "s", "n", "b", "t")]
    H.assume(H.both(p[0] < p[1], p[2] < p[3], p[4] < p[5]))
    far = [300, 400, 300, 400, 300, 400]
    pt = []
    for k in range(3):
        if k == edge:
            x = H.real(f"x{k}", -100, 100)
            H.assume(H.both(x > p[2 * k], x < p[2 * k + 1]))
        else:
            x = p[2 * k + H.choice(f"side{k}", 2)]
        pt.append(x)
    i, j = H.choice("point", 3), H.choice("prism", 3)
    obs = [[-500] * 3 for _ in range(3)]
    for k in range(3):
        obs[k][i] = pt[k]
    prisms = [far] * 3
    prisms[j] = p
    with evaluate_uf(H):
        _, w = H.warns(lambda: hm.prism_gravity(tuple(H.array(c) for c in obs), H.array(prisms), H.array([1, 1, 1]), field=field))
    H.prove(UserWarning in w, "a singular point is reported wherever it is")
