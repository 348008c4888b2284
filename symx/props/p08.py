"""P08 parallel loops."""
import harmonica as hm

from ..harness import obligation
from ._models import CART, MODELS, SPH, equivalent, far, fields, igrf, sources, sph_far, sph_sources

FUNCS = ["point_mass_cartesian", "point_mass_spherical", "_jit_dipole_magnetic_*", "jit_prism_gravity", "_jit_prism_magnetic_*",
         "_forward_gravity_prism_layer", "jit_tesseroid_gravity", "jit_tesseroid_gravity_variable_density", "jacobian", "predict",
         "spherical_harmonics_magnetic_field", "spherical_harmonics_magnetic_field_grid"]
N = 6


def matrix(H, cls, coords):
    src = sources(H) if cls is hm.EquivalentSources else sph_sources(H)
    e = equivalent(H, cls)
    return e.jacobian(coords, src)


def grid(H, coords):
    g = igrf(H).grid((0, 90, 0, 60), 100, shape=(2, 2))
    return tuple(g[c].values for c in ("b_east", "b_north", "b_up"))


LOOPS = {k: (m["domain"], m["fn"], m["context"], m["n_out"]) for k, m in MODELS.items()}
LOOPS["jacobian"] = (CART, lambda H, c: matrix(H, hm.EquivalentSources, c), far, 1)
LOOPS["spherical jacobian"] = (SPH, lambda H, c: matrix(H, hm.EquivalentSourcesSph, c), sph_far, 1)
LOOPS["igrf grid"] = (CART, grid, lambda H: H.kernels("all"), 3)


@obligation("P08", FUNCS, "every pair of iterations of a loop over 6 points (2 by 2 nodes for the grid), 1 to 4 sources, any values of the elements "
            "read; tesseroids not divided", witness_paths=2, params=[dict(model=k) for k in LOOPS])
def footprints(H, model):
    """No element is written by one iteration and used by another one."""
    domain, fn, context, _ = LOOPS[model]
    coords = tuple(H.array([lo + (hi - lo) * k // 8 for k in range(1, N + 1)]) for lo, hi in domain)
    with context(H), H.races() as r:
        fn(H, tuple(H.array(c) for c in coords))
    H.prove(r.loops >= 1, "a parallel loop ran")


@obligation("P08", FUNCS, "3 points (IGRF: 2) with any coordinates (2 by 2 nodes for the grid), 1 to 4 sources, every order of the iterations; tesseroids not divided",
            witness_paths=3, params=[dict(model=k) for k in LOOPS])
def orders(H, model):
    """Any order of the iterations gives the same numbers: none carries values
    over from the one before."""
    domain, fn, context, n_out = LOOPS[model]
    cols = [[H.real(f"x{c}{i}", lo, hi) for i in range(2 if model == "igrf" else 3)] for c, (lo, hi) in enumerate(domain)]
    which = H.choice("order", 1 if model.startswith("igrf") else 5)

    def pick(its):
        import itertools

        p = list(itertools.permutations(its[:3]))
        return list(p[1 + which % (len(p) - 1)]) + its[3:] if len(p) > 1 else its

    with context(H):
        base = fn(H, tuple(H.array(c) for c in cols))
        with H.order(pick):
            other = fn(H, tuple(H.array(c) for c in cols))
    for a, b in zip(fields(n_out, base), fields(n_out, other)):
        H.equal(b, a, "same numbers", scale=None if H.symbolic else 1e-30)
