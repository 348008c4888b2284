"""P36 grids of the ICGEM."""
import io
import os
import shutil
import tempfile

import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica.load_icgem_gdf", "harmonica._io.icgem_gdf.*"]
NAMES = ["latitude", "longitude", "field", "error"]
UNITS = ["[deg_n]", "[deg_e]", "[mGal]", "[m]"]
LIMITS = ("latlimit_south", "latlimit_north", "longlimit_west", "longlimit_east")


def text(columns, rows, limits, shape, put, height=None, size=None, leave_out=(), units=True, names=True, end=True):
    head = ["generating_institute     gfz-potsdam", "functional   gravity_disturbance  (centrifugal term included)", f"latitude_parallels   {shape[0]}",
            f"longitude_parallels      {shape[1]}", f"number_of_gridpoints      {shape[0] * shape[1] if size is None else size}"]
    head += [f"   {k}     {put(v)!r} deg" if k == "latlimit_south" else f"   {k}     {put(v)!r}" for k, v in zip(LIMITS, limits)]
    if height is not None:
        head.append(f"height_over_ell   {put(height)!r} m")
    head = [line for line in head if line.split()[0] not in leave_out]
    out = [*head, ""]
    if names:
        out.append("   " + "   ".join(NAMES[k] for k in columns))
    if units:
        out.append("   " + "   ".join(UNITS[k] for k in columns))
    out.append("end_of_head ====================================")
    out += ["  ".join(repr(put(r[k])) for k in columns) for r in rows]
    return "\n".join(out) + "\n"


def load(content, opened, **kwargs):
    if opened:
        return hm.load_icgem_gdf(io.StringIO(content), **kwargs)
    folder = tempfile.mkdtemp(prefix="verif_gdf_")
    try:
        path = os.path.join(folder, "a.gdf")
        with open(path, "w") as f:
            f.write(content)
        return hm.load_icgem_gdf(path, **kwargs)
    finally:
        shutil.rmtree(folder)


def lines(H, nlat, nlon):
    """Lines along parallels: latitude, longitude and two values."""
    lat = [H.real(f"lat{i}", -90, 90) for i in range(nlat)]
    lon = [H.real(f"lon{j}", -180, 360) for j in range(nlon)]
    rows = [[lat[i], lon[j], H.real(f"f{i}{j}", -10 ** 6, 10 ** 6), H.real(f"e{i}{j}", -10 ** 6, 10 ** 6)] for i in range(nlat) for j in range(nlon)]
    return lat, lon, rows


def extremes(lat, lon):
    return [min(lat), max(lat), min(lon), max(lon)]


def check(H, got, lat, lon, rows, columns, height):
    nlat, nlon = len(lat), len(lon)
    H.prove(dict(got.sizes) == dict(latitude=nlat, longitude=nlon), "shape")
    names = [NAMES[k] for k in columns if k > 1]
    H.prove(sorted(got.data_vars) == sorted(names + (["height_over_ell"] if height is not None else [])), "columns")
    glat, glon = got.latitude.values, got.longitude.values
    for j in range(nlon):
        H.equal(glon[j], lon[j], "longitude", rtol=1e-12)
    for i in range(nlat):  # rows come in the opposite order
        H.equal(glat[nlat - 1 - i], lat[i], "latitude", rtol=1e-12)
        for j in range(nlon):
            for k in columns:
                if k > 1:
                    H.prove(got[NAMES[k]].dims == ("latitude", "longitude"), "dimensions")
                    H.equal(got[NAMES[k]].values[nlat - 1 - i, j], rows[i * nlon + j][k], "value at its place", rtol=1e-12)
            if height is not None:
                H.equal(got.height_over_ell.values[i, j], height, "height", rtol=1e-12)
    H.prove(got.attrs["attributes"].split() == [NAMES[k] for k in columns], "names in the header")
    H.prove(got.attrs["attributes_units"].split() == [UNITS[k][1:-1] for k in columns], "units of each column")
    H.prove(got.attrs["generating_institute"] == "gfz-potsdam" and got.attrs["functional"] == "gravity_disturbance (centrifugal term included)", "header")


@obligation("P36", FUNCS, "files of up to 3 by 3 lines, any latitudes, longitudes and values, parallels in any order; columns in any of these orders",
            fine=True, max_paths=400, witness_paths=4,
            params=[dict(nlat=a, nlon=b, columns=c, height=h, opened=o) for a, b, c, h, o in (
                (2, 3, (1, 0, 2), False, False), (3, 2, (0, 1, 2, 3), True, True), (2, 2, (2, 1, 0, 3), False, True), (3, 2, (3, 0, 2, 1), True, False),
                (1, 3, (1, 0, 3), False, True), (3, 1, (1, 0, 2, 3), True, False))] + [dict(nlat=3, nlon=3, columns=(1, 0, 2), height=True, opened=False, _tier="thorough")])
def places(H, nlat, nlon, columns, height, opened):
    """Every value at its latitude and longitude, under the name and with the
    units of its column."""
    lat, lon, rows = lines(H, nlat, nlon)
    up = H.decide("northwards")
    for a, b in zip(lat, lat[1:]):
        H.assume(b - a >= 0.001 if up else a - b >= 0.001)
    for a, b in zip(lon, lon[1:]):
        H.assume(b - a >= 0.001)
    limits = [lat[0], lat[-1], lon[0], lon[-1]] if up else [lat[-1], lat[0], lon[0], lon[-1]]
    h = H.real("height", -1000, 10 ** 6) if height else None
    with H.file_numbers() as put:
        got = load(text(columns, rows, limits, (nlat, nlon), put, h), opened)
    check(H, got, lat, lon, rows, columns, h)
    for n, v in zip(LIMITS, limits):
        H.prove(n in got.attrs, "limits in the header")


@obligation("P36", FUNCS, "files of 2 by 2 lines, any latitudes, longitudes and values; these selections of columns", max_paths=100, witness_paths=4,
            params=[dict(use=u, kind=k) for u, k in (((1, 0, 3), tuple), ((3, 1, 0), list), ((0, 1, 2, 3), tuple), ((2, 3, 1, 0), np.array), ((0, 1), tuple),
                                                     ((-1, 0, 1), tuple))])
def selected(H, use, kind):
    """usecols: the columns asked for, each with its own name and units."""
    lat, lon, rows = lines(H, 2, 2)
    H.assume(lat[0] - lat[1] >= 0.001)
    H.assume(lon[1] - lon[0] >= 0.001)
    with H.file_numbers() as put:
        got = load(text((0, 1, 2, 3), rows, [lat[1], lat[0], lon[0], lon[1]], (2, 2), put), True, usecols=kind(use))
    check(H, got, lat, lon, rows, [k % 4 for k in use], None)


@obligation("P36", FUNCS, "files of 2 by 2 lines, any latitudes and longitudes of each line and any limits in the header", max_paths=3000, witness_paths=4,
            params=[dict(which=k) for k in range(4)])
def area(H, which):
    """Refused when a limit in the header is not the extreme of its column
    (beyond rounding), accepted when all of them are."""
    lat, lon, rows = lines(H, 2, 2)
    ext = extremes(lat, lon)
    limits = list(ext)
    limits[which] = H.real("limit", -400, 400)
    diff, tol = abs(limits[which] - ext[which]), abs(ext[which]) * 1e-5 + 1e-8
    bad, e = H.raises(lambda: load_(H, rows, limits), OSError)
    with_in, out = bool(diff <= tol / 2), bool(diff >= tol * 2)
    if with_in:
        H.prove(not bad, "accepted when the limits agree")
    if out:
        H.prove(bad, "refused when a limit doesn't agree")


def load_(H, rows, limits):
    with H.file_numbers() as put:
        return load(text((0, 1, 2), rows, limits, (2, 2), put), True)


@obligation("P36", FUNCS, "files of 2 by 3 lines with every header entry missing in turn, sizes off by up to 2, names or units missing or too few, "
            "lines missing or in excess", max_paths=200, witness_paths=4)
def malformed(H):
    """Files whose header is incomplete or does not agree with the data are
    refused."""
    lat, lon = [2, 1], [10, 20, 30]
    rows = [[H.const(a), H.const(b), H.const(7), H.const(8)] for a in lat for b in lon]
    opts, shape = {}, (2, 3)
    columns = (0, 1, 2)
    case = ("entry", "size", "shape", "names", "units", "fewer units", "column", "lines", "row", "ok")[H.choice("case", 10)]
    if case == "entry":
        opts["leave_out"] = (("latitude_parallels", "longitude_parallels", "number_of_gridpoints", *LIMITS)[H.choice("entry", 7)],)
    elif case == "size":
        opts["size"] = 6 + (-2, -1, 1, 2, 6)[H.choice("size", 5)]
    elif case == "shape":
        shape = ((2, 4), (3, 3), (1, 3), (2, 2), (1, 5), (7, 1))[H.choice("shape", 6)]
    elif case == "names":
        opts["names"] = opts["units"] = False
    elif case == "units":
        opts["units"] = False
    elif case == "column":
        columns = ((0, 2), (1, 2), (2, 3))[H.choice("without", 3)]
    elif case == "lines":
        rows = rows[:(5, 4, 3)[H.choice("lines", 3)]]
    elif case == "row":
        rows = rows + [rows[-1]]
    with H.file_numbers() as put:
        content = text(columns, rows, [H.const(v) for v in (1, 2, 10, 30)], shape, put, **opts)
        if case == "fewer units":
            content = content.replace("[mGal]", "")
        bad, e = H.raises(lambda: load(content, True), Exception)
    H.prove(bool(bad) == (case != "ok"), "refused exactly when malformed")
    if bad and case not in ("lines", "row", "shape"):
        H.prove(isinstance(e, OSError), "kind of error")
