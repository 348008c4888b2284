"""P38 meshes of prisms for plotting."""
import sys
import types

import harmonica as hm
import numpy as np
import xarray as xr

from ..harness import obligation
from .p14 import field2, turned

FUNCS = ["harmonica.visualization.prism_to_pyvista", "harmonica.visualization._prism.*"]
CORNERS = ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))  # order of VTK: around the bottom, then the top


class Grid:
    """Stand-in for pyvista.UnstructuredGrid (pyvista's job): keeps what it
    was built from, as a dictionary of cells or as flat cells with types."""

    def __init__(self, *args):
        self.cell_data = {}
        if len(args) == 2:
            (cells, self.points) = args
            self.cells = [(kind, [int(k) for k in row]) for kind, rows in cells.items() for row in np.atleast_2d(np.asarray(rows))]
        else:
            flat, kinds, self.points = args
            flat = [int(k) for k in np.ravel(np.asarray(flat))]
            self.cells = []
            for kind in np.ravel(np.asarray(kinds)):
                n = flat[0]
                self.cells.append((int(kind), flat[1:n + 1]))
                flat = flat[n + 1:]
            assert not flat
        self.n_cells = len(self.cells)

    def __setitem__(self, name, value):
        self.cell_data[name] = value


def modules(H):
    pv, vtk = types.ModuleType("pyvista"), types.ModuleType("vtk")
    pv.UnstructuredGrid = Grid
    pv.CellType = types.SimpleNamespace(HEXAHEDRON=12, VOXEL=11)
    vtk.VTK_HEXAHEDRON, vtk.VTK_VOXEL = 12, 11
    return dict(pyvista=pv, vtk=vtk)


def build(H, prisms, properties=None):
    args = (prisms,) if properties is None else (prisms, properties)
    return plotted(H, lambda: hm.visualization.prism_to_pyvista(*args))


def plotted(H, f):
    if not H.symbolic:  # replays use the real thing
        g = f()
        out = Grid({int(kind): c for kind, c in g.cells_dict.items()}, np.asarray(g.points))
        out.cell_data = {name: np.asarray(g.cell_data[name]) for name in g.cell_data.keys()}
        return out
    new = modules(H)
    old = {k: sys.modules.get(k) for k in new}
    sys.modules.update(new)
    try:
        return f()
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


@obligation("P38", FUNCS, "up to 4 prisms with any boundaries (from zero thickness on), as an array, a list, a transposed array or a single one, "
            "0 to 2 properties as lists, arrays or DataArrays", max_paths=100,
            params=[dict(n=n, form=f, props=p) for n, f, p in ((1, "flat", 0), (1, "nested", 1), (2, "array", 2), (3, "list", 1), (4, "transposed", 2), (3, "array", 0))])
def mesh(H, n, form, props):
    """One hexahedron per prism with its corners in order, each property at
    its own prism."""
    prisms = []
    for k in range(n):
        p = [H.real(f"p{k}{i}") for i in range(6)]
        for i in (0, 2, 4):
            H.assume(p[i] <= p[i + 1])
        prisms.append(p)
    values = {name: [H.real(f"{name}{k}") for k in range(n)] for name in ("density", "susceptibility")[:props]}
    if n == 2:
        values["susceptibility"][0] = H.nan  # missing values stay missing
    given = {k: (v if i else H.array(v)) for i, (k, v) in enumerate(values.items())}
    if n == 4:
        given = {k: xr.DataArray(H.array(v)) for k, v in given.items()}
    if n == 1:
        given = {k: v[0] for k, v in values.items()}
    arg = {"flat": lambda: prisms[0], "nested": lambda: prisms, "list": lambda: prisms, "array": lambda: H.array(prisms),
           "transposed": lambda: H.array([[p[i] for p in prisms] for i in range(6)]).T}[form]()
    same(H, build(H, arg, given if props else None), prisms, values)


def same(H, got, prisms, values):
    n = len(prisms)
    H.prove(got.n_cells == n, "one cell per prism")
    pts = got.points
    for p, (kind, cell) in zip(prisms, got.cells):
        H.prove(kind in (11, 12) and len(cell) == 8, "hexahedron")
        order = CORNERS if kind == 12 else [(a, b, c) for c in (0, 1) for b in (0, 1) for a in (0, 1)]
        for corner, place in zip(order, cell):
            for axis in range(3):
                H.equal(pts[place][axis], p[2 * axis + corner[axis]], "corner")
    H.prove(sorted(got.cell_data) == sorted(values), "properties")
    for name, v in values.items():
        a = np.ravel(np.asarray(got.cell_data[name], dtype=object))
        H.prove(a.shape == (n,), "one value per prism")
        for x, y in zip(a, v):
            H.equal(x, y, "value of its own prism")


@obligation("P38", FUNCS, "4 prisms with a property of every shape among scalars, 1-D, 2-D and 3-D arrays", max_paths=20)
def dimensions(H):
    """Properties of more than one dimension are refused."""
    shape = ((4,), (2, 2), (4, 1), (1, 4), (1, 1, 4))[H.choice("shape", 5)]
    prop = np.array([1.0, 2.0, 3.0, 4.0]).reshape(shape)
    first = H.decide("first")
    props = {"a": prop, "b": np.arange(4.0)} if first else {"b": np.arange(4.0), "a": prop}
    bad, e = H.raises(lambda: build(H, [[0, 1, 2, 3, 4, 5 + k] for k in range(4)], props), ValueError)
    H.prove(bool(bad) == (len(shape) > 1), "refused exactly when of more than one dimension")


@obligation("P38", FUNCS + ["DatasetAccessorPrismLayer.to_pyvista", "DatasetAccessorPrismLayer._to_prisms"],
            "layers of 2 by 2 and 2 by 3 prisms with any heights, empty prisms anywhere, one node or one value maybe missing, 0 to 2 properties, dimensions in any order",
            max_paths=300, witness_paths=4,
            params=[dict(nx=n, hole=h, drop=d, props=p, how=t) for n, h, d, p, t in (
                (2, None, True, 2, None), (2, None, False, 1, None), (2, "top", True, 1, None), (2, "bottom", True, 0, None), (3, None, True, 1, "all"), (2, "density", True, 1, None),
                (2, "top", True, 1, "properties"))])
def layer(H, nx, hole, drop, props, how):
    """Meshes of layers: one cell per prism (those with no volume only when
    asked for), with the properties of its own node."""
    y = [H.real("y0", -100, 100)]
    y.append(y[0] + H.real("dy", 1, 50))
    x = [H.real("x0", -100, 100)]
    x += [x[0] + 2 * k for k in range(1, nx)]
    hy = y[1] - y[0]
    low = field2(H, "b", 2, nx, -100, 0)
    thick = [[H.real(f"d{k}{j}", 0, 100) if k == 0 else H.real("d", 1, 100) for j in range(nx)] for k in range(2)]
    high = [[low[k][j] + thick[k][j] for j in range(nx)] for k in range(2)]
    values = {name: field2(H, name, 2, nx) for name in ("density", "susceptibility")[:props]}
    at = H.choice("node", 2) if hole else None
    lo, hi = [list(r) for r in low], [list(r) for r in high]
    if hole == "density":
        values["density"][1][at] = H.nan
    elif hole:
        (lo if hole == "bottom" else hi)[1][at] = H.nan
    made = hm.prism_layer((H.array(x), H.array(y)), H.array(hi), H.array(lo), properties={k: H.array(v) for k, v in values.items()} or None)
    if how:
        made = turned(H, made, how)
    got = plotted(H, lambda: made.prism_layer.to_pyvista(drop_null_prisms=drop))
    nodes = [(k, j) for k in range(2) for j in range(nx) if not (hole in ("top", "bottom") and (k, j) == (1, at))]
    if drop:
        nodes = [(k, j) for k, j in nodes if not bool(thick[k][j] == 0)]
    prisms = [[x[j] - 1, x[j] + 1, y[k] - hy / 2, y[k] + hy / 2, low[k][j], high[k][j]] for k, j in nodes]
    same(H, got, prisms, {name: [v[k][j] for k, j in nodes] for name, v in values.items()})
