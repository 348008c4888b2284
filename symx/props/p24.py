"""P24 Airy isostasy."""
import harmonica as hm
import numpy as np
import xarray as xr

from ..harness import obligation

FUNCS = ["harmonica.isostatic_moho_airy"]


def make(H, kind, name, lo, hi):
    if kind == "number":
        v = H.real(name, lo, hi)
        return v, [v, v]
    v = H.reals(name, 2, lo, hi)
    a = H.array(v)
    if kind == "grid":
        a = xr.DataArray(a, coords={"x": [0, 1]}, dims="x")
    return a, v


@obligation("P24", FUNCS, "2 columns, {0, 1, 2, 3} layers, numbers, arrays and labelled grids in any mixture",
            params=[dict(basement=b, layers=ls, densities=d)
                    for b, ls, d in [("number", (), False), ("number", ("number", "number"), True), ("array", ("array", "number"), False),
                                     ("array", ("number", "array", "array"), True), ("grid", ("grid",), True),
                                     ("grid", ("grid", "number", "grid"), False), ("array", None, True), ("grid", None, False),
                                     ("number", ("array",), True)]])
def mass_balance(H, basement, layers, densities):
    """Mass above the compensation depth is that of the reference column."""
    base, h = make(H, basement, "h", -10000, 10000)
    kw = {}
    rc, rm, ref = 2800, 3300, 30000
    if densities:
        rc, rm, ref = H.real("crust", 1, 3000), H.real("mantle", 3001, 5000), H.real("reference", 0, 50000)
        kw = dict(density_crust=rc, density_mantle=rm, reference_depth=ref)
    dic, vals = None, []
    if layers is not None:
        dic = {}
        for k, kind in enumerate(layers):
            t, tv = make(H, kind, f"t{k}", 0, 5000)
            d, dv = make(H, "number" if k != 1 or kind == "grid" else kind, f"d{k}", 0, 3000)
            dic[f"layer {k}"] = (t, d)
            vals.append((tv, dv))
    snapshot = None if dic is None else {k: v for k, v in dic.items()}
    moho = hm.isostatic_moho_airy(base, layers=dic, **kw)
    if basement == "grid":
        H.prove(isinstance(moho, xr.DataArray) and moho.dims == ("x",), "labelled as the basement")
        out = moho.values
    else:
        out = np.asarray(moho) if not H.symbolic else moho
    any_array = basement != "number" or any(k != "number" for k in layers or ())
    if not any_array:
        out = [out, out]
    for j in range(2):
        # root (Moho below the reference depth) balances the load
        load = rc * h[j]
        for tv, dv in vals:
            load = load + tv[j] * dv[j]
        H.equal((out[j] - ref) * (rm - rc), load, "mass balance", rtol=1e-7,
                scale=None if H.symbolic else abs(load) + 1e-3 * abs(ref * (rm - rc)))
    if dic is not None:
        H.prove(list(dic) == list(snapshot) and all(dic[k][0] is snapshot[k][0] for k in dic), "layers not modified")
        for k, (t, d) in enumerate(dic.values()):
            if layers[k] != "number":
                H.equal(t.values if layers[k] == "grid" else t, H.array(vals[k][0]), "layer not modified")
    if basement != "number":
        H.equal(base.values if basement == "grid" else base, H.array(h), "basement not modified")


@obligation("P24", FUNCS, "1 layer split in two of any thickness", params=[{}])
def splitting_a_layer(H):
    """Two layers of one density weigh as one of the total thickness."""
    h, t, s, d = H.real("h", -100, 100), H.real("t", 0, 100), H.real("s", 0, 100), H.real("d", 0, 3000)
    one = hm.isostatic_moho_airy(h, layers={"a": (t + s, d)})
    two = hm.isostatic_moho_airy(h, layers={"a": (t, d), "b": (s, d)})
    H.equal(one, two, "same Moho", rtol=1e-9)
    rev = hm.isostatic_moho_airy(h, layers={"b": (s, d), "a": (t, d)})
    H.equal(rev, two, "order of layers", rtol=1e-9)


@obligation("P24", FUNCS, "any depths, thicknesses and densities; labelled basement, labelled layer or both, or neither")
def labels(H):
    """A labelled Moho carries its name and the densities it was computed
    with; labels of the inputs are as they were."""
    which = H.choice("labelled", 4)
    base, _ = make(H, "grid" if which & 1 else "array", "h", -10000, 10000)
    thick, _ = make(H, "grid" if which & 2 else "array", "t", 0, 5000)
    d = H.real("d", 0, 3000)
    grids = [g for g in (base, thick) if isinstance(g, xr.DataArray)]
    for g in grids:
        g.name, g.attrs = "mine", {"units": "m"}
    rc, rm = [(2800, 3300), (2670.5, 3200), (2900, 3100.25)][H.choice("densities", 3)]
    moho = hm.isostatic_moho_airy(base, layers={"water": (thick, d), "ice": (0, 917)}, density_crust=rc, density_mantle=rm)
    H.prove(isinstance(moho, xr.DataArray) == bool(grids), "labelled when an input is")
    if grids:
        H.prove(moho.name == "moho_depth" and moho.attrs["isostasy"] == "Airy", "name")
        H.prove([float(moho.attrs["density_" + k]) for k in ("crust", "mantle")] == [rc, rm], "densities of crust and mantle")
        H.equal(moho.attrs["density_water"], d, "density of the layer")
        H.prove(moho.attrs["density_ice"] == 917, "density of the layer")
    for g in grids:
        H.prove(g.name == "mine" and g.attrs == {"units": "m"}, "labels of the inputs as they were")
