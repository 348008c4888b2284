"""P07 shapes of the coordinates of the observation points."""
import itertools

import harmonica as hm
import numpy as np

from ..harness import obligation
from ._models import MODELS, fields
from .p20 import abstract

FUNCS = ["point_gravity", "dipole_magnetic", "prism_gravity", "prism_magnetic", "prism_layer.gravity", "tesseroid_gravity", "tesseroid_layer.gravity",
         "EquivalentSources.predict", "EquivalentSourcesGB.predict", "EquivalentSourcesSph.predict", "IGRF14.predict", "ellipsoid_gravity", "ellipsoid_magnetic"]
FORMS = {  # shapes of the three coordinates
    "numbers": ((), (), ()),
    "one": ((1,), (1,), (1,)),
    "flat": ((3,),) * 3,
    "grid": ((2, 2),) * 3,
    "transposed": ((2, 2),) * 3,
    "strided": ((3,),) * 3,
    "reversed": ((2, 2),) * 3,
    "height": ((2, 2), (2, 2), ()),
    "axes": ((3,), (2, 1), ()),
    "axes 2": ((2, 1), (1, 2), (1,)),
    "cube": ((1, 2), (2, 1, 1), (1, 1, 1)),
    "profile": ((), (3,), (1,)),
    "integers": ((2, 2),) * 3,
    "integer axes": ((2,), (2, 1), ()),
    "mixed": ((2,), (2,), (2,)),
}


def inner(kind):
    def run(H, c, parallel=True):
        bodies = [hm.Ellipsoid(2, 2, 2, density=1000, susceptibility=0.5), hm.Ellipsoid(3, 2, 1, density=-700, remanent_mag=H.array([1, -2, 3]))]
        if kind == "gravity":
            return hm.ellipsoid_gravity(c, bodies)
        return hm.ellipsoid_magnetic(c, bodies, H.array([10000, -20000, 30000]))

    return run


ALL = dict(MODELS)
for k in ("gravity", "magnetic"):
    ALL[f"ellipsoids {k}"] = dict(domain="ellipsoids", n_out=3, fn=inner(k), context=abstract)


def limits(domain, axis, k):
    """Limits of value number k of a coordinate; points of ellipsoids
    alternate between outside and inside."""
    if domain == "ellipsoids":
        if axis == 0:
            return ((5, 20), (-0.5, 0.5))[k % 2]
        return -0.5, 0.5
    return domain[axis]


def make(H, domain, form):
    """The three coordinates and, for each, its values in an array of its
    shape."""
    args, values = [], []
    for axis, shape in enumerate(FORMS[form]):
        n = int(np.prod(shape, dtype=int))
        lims = [limits(domain, axis, k) for k in range(n)]
        integer = "integer" in form or (form == "mixed" and axis == 1)
        if integer:
            v = [H.integer(f"x{axis}{k}", *((6, 20), (0, 0))[int(domain == "ellipsoids" and lims[k][0] < 0)]) if domain == "ellipsoids"
                 else H.integer(f"x{axis}{k}", int(lims[k][0]), int(lims[k][1])) for k in range(n)]
        else:
            v = [H.real(f"x{axis}{k}", *lims[k]) for k in range(n)]
        grid = np.empty(shape, dtype=object)
        for i, x in zip(np.ndindex(*shape), v):
            grid[i] = x
        nested = grid.tolist()
        if shape == ():
            arg = v[0]
        elif integer:
            arg = H.int_array(nested)
        elif form == "transposed":
            arg = H.array(grid.T.tolist()).T
        elif form == "reversed":
            arg = H.array(grid[::-1, ::-1].tolist())[::-1, ::-1]
        elif form == "strided":
            arg = H.array([w for x in v for w in (x, lims[0][0])])[::2]
        else:
            arg = H.array(nested)
        args.append(arg)
        values.append(grid)
    return tuple(args), np.broadcast_arrays(*values)


CASES = [(m, f) for m in ALL for f in FORMS]


@obligation("P07", FUNCS, "coordinates of these shapes (up to 6 points) with any values, 1 to 4 sources; tesseroids not divided",
            witness_paths=2, max_paths=200, params=[dict(model=m, form=f, _domain="assume" if m == "ellipsoids magnetic" else "check") for m, f in CASES])
def shapes(H, model, form):
    """The result has the broadcast shape, and each value is the one of its
    single point."""
    m = ALL[model]
    args, values = make(H, m["domain"], form)
    shape = values[0].shape
    if model == "igrf":  # facts about the cosine of those angles
        for v in values[1].ravel():
            H.assume(H.cos(H.rad(v * H.const(0.5))) > H.frac(1, 1000))
    with m["context"](H):
        got = fields(m["n_out"], m["fn"](H, args))
        for r in got:
            H.prove(np.shape(r) == shape, "broadcast shape")
        for i in np.ndindex(*shape):
            single = fields(m["n_out"], m["fn"](H, tuple(H.array([v[i] * H.const(1)]) for v in values)))
            for r, s in zip(got, single):
                H.equal(r[i] if shape else r, s[0], "value of its point", scale=None if H.symbolic else 1e-30)
