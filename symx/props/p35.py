"""P35 grids of Oasis montaj."""
import os
import shutil
import struct
import tempfile
import zlib

import harmonica as hm
import numpy as np

from ..harness import obligation

FUNCS = ["harmonica.load_oasis_montaj_grid", "harmonica._io.oasis_montaj_grd.*"]
TYPES = {"b": (1, 1, -128, 127, -127), "B": (1, 0, 0, 254, 255), "h": (2, 1, -32768, 32767, -32767), "H": (2, 0, 0, 65534, 65535),
         "i": (4, 1, -2147483648, 2147483647, -2147483647), "I": (4, 0, 0, 4294967294, 4294967295), "f": (4, 2, None, None, -1e32), "d": (8, 2, None, None, -1e32)}


def compress(raw, vector, per_block):
    """Blocks of vectors, each with its own header of 16 bytes."""
    size = vector * per_block
    blocks = [b"blockheader 16 b" + zlib.compress(raw[k:k + size]) for k in range(0, len(raw), size)]
    n = len(blocks)
    start = 512 + 16 + 12 * n + 8  # blocks need not follow the tables at once
    offsets = []
    for b in blocks:
        offsets.append(start)
        start += len(b)
    head = struct.pack("<iiii", 1, 2, n, per_block) + struct.pack(f"<{n}q", *offsets) + struct.pack(f"<{n}i", *(len(b) for b in blocks))
    return head + b"\0" * 8 + b"".join(blocks)


def write(path, es, sf, ne, nv, kx, doubles, data):
    head = struct.pack("<5i", es, sf, ne, nv, kx) + struct.pack("<7d", *doubles) + b" " * 64
    head += struct.pack("<5i", 1, 2, 3, 4, 5) + struct.pack("<4f", 6, 7, 8, 9) + struct.pack("<d", 10) + struct.pack("<i", 11)
    with open(path, "wb") as f:
        f.write(head + b"\0" * (512 - len(head)) + data)


def header(H, rotated):
    de, dv = H.real("spacing_e", 0.5, 1000), H.real("spacing_v", 0.5, 1000)
    x0, y0 = H.real("x", -100000, 100000), H.real("y", -100000, 100000)
    rot = H.real("rotation", -360, 360) if rotated else H.const(0)
    if rotated:
        H.assume(H.either(rot >= H.frac(1, 1000), rot <= H.frac(-1, 1000)))
    base, factor = H.real("base", -100, 100), H.real("factor", 0.01, 100)
    return de, dv, x0, y0, rot, base, factor


@obligation("P35", FUNCS, "grids of 2 by 3 (and 3 by 2), any spacings, origin, rotation, base, factor and values of the type, a dummy in any place or none; "
            "each type, order and compression", fine=True, max_paths=60, witness_paths=4, budget=200,
            params=[dict(kind=k, kx=o, rotated=r, blocks=b) for k, o, r, b in (
                ("b", 1, False, 0), ("B", -1, False, 0), ("h", 1, True, 2), ("H", -1, True, 0), ("i", -1, False, 1), ("I", 1, False, 0),
                ("f", 1, False, 1), ("f", -1, True, 2), ("d", -1, False, 2), ("d", 1, True, 0), ("d", 1, False, 3), ("f", -1, False, 0))])
def grid(H, kind, kx, rotated, blocks):
    """Every value, stored / factor + base, at its place: rows (or columns)
    along the vectors from the origin, rotated about it."""
    es, sf, lo, hi, dummy = TYPES[kind]
    ne, nv = (3, 2) if H.decide("wide") else (2, 3)
    h = header(H, rotated)
    de, dv, x0, y0, rot, base, factor = h
    missing = H.choice("missing", ne * nv + 1)
    values = []
    for k in range(ne * nv):
        if k == missing:
            values.append(None)
        elif lo is None:
            values.append(H.real(f"v{k}", -10 ** 6, 10 ** 6))
        else:
            values.append(H.integer(f"v{k}", lo, hi))
            H.assume(values[-1] != dummy)
    folder = tempfile.mkdtemp(prefix="verif_grd_")
    try:
        with H.file_numbers() as put:
            raw = struct.pack(f"<{len(values)}{kind}", *(dummy if v is None else put(v, kind) for v in values))
            if not H.symbolic:  # as stored
                values = [None if v is None else x for v, x in zip(values, struct.unpack(f"<{len(values)}{kind}", raw))]
            if blocks:
                raw = compress(raw, ne * es, blocks)
            path = os.path.join(folder, "a.grd")
            write(path, es + (1024 if blocks else 0), sf, ne, nv, kx, [put(v) for v in h], raw)
            got = hm.load_oasis_montaj_grid(path)
    finally:
        shutil.rmtree(folder)
    rows, cols, dn, deast = (nv, ne, dv, de) if kx == 1 else (ne, nv, de, dv)
    H.prove(got.shape == (rows, cols), "shape")
    H.prove(got.dims == (("y", "x") if rotated else ("northing", "easting")), "dimensions")
    east, north = got.easting.values, got.northing.values
    c, s = H.cos(H.rad(rot)), H.sin(H.rad(rot))
    for i in range(rows):
        for j in range(cols):
            v = values[i * ne + j if kx == 1 else j * ne + i]
            H.equal(got.values[i, j], H.nan if v is None else v / factor + base, "value", rtol=1e-6 if kind == "f" else 1e-12, scale=None if H.symbolic else max(1, abs(base), abs(v or 0) / factor))
            x, y = j * deast, i * dn
            H.equal(east[i, j] if rotated else east[j], x0 + x * c - y * s, "easting", scale=None if H.symbolic else 10 ** 5)
            H.equal(north[i, j] if rotated else north[i], y0 + x * s + y * c, "northing", scale=None if H.symbolic else 10 ** 5)
    names = ("spacing_e", "spacing_v", "x_origin", "y_origin", "rotation", "base_value", "data_factor")
    for n, v in zip(names, h):
        H.equal(got.attrs[n], v, f"header: {n}")
    rest = dict(n_bytes_per_element=es + (1024 if blocks else 0), sign_flag=sf, shape_e=ne, shape_v=nv, ordering=kx, map_projection=1, units_x=2, units_y=3,
                units_z=4, n_valid_points=5, grid_min=6, grid_max=7, grid_median=8, grid_mean=9, grid_variance=10, process_flag=11)
    for n, v in rest.items():
        H.prove(got.attrs[n] == v, f"header: {n}")


@obligation("P35", FUNCS, "every element size, sign flag and order among supported and unsupported ones, and data of 1 value less or more", max_paths=600, witness_paths=4)
def rejected(H):
    """What is not supported is refused with NotImplementedError, data of
    another size with ValueError."""
    es = (0, 1, 2, 3, 4, 5, 8, 16, 1025, 1026, 1027, 1028, 1032, 2048, -1)[H.choice("es", 15)]
    sf = (0, 1, 2, 3, 4, -1)[H.choice("sf", 6)]
    kx = (-1, 0, 1, 2)[H.choice("kx", 4)]
    size = es - 1024 if es > 1024 else es
    kinds = {(t[0], t[1]): k for k, t in TYPES.items()}
    kind = "d" if size == 8 else kinds.get((size, sf))
    ok = kind is not None and kx in (-1, 1) and sf != 3 and es in (1, 2, 4, 8, 1025, 1026, 1028, 1032)
    extra = H.choice("extra", 3) - 1 if ok else 0
    kind = kind or "d"
    raw = struct.pack(f"<{4 + extra}{kind}", *[7] * (4 + extra))
    if es > 1024:
        raw = compress(raw, 2 * struct.calcsize(kind), 1)
    folder = tempfile.mkdtemp(prefix="verif_grd_")
    try:
        path = os.path.join(folder, "a.grd")
        write(path, es, sf, 2, 2, kx, [1, 1, 0, 0, 0, 0, 1], raw)
        bad, e = H.raises(lambda: hm.load_oasis_montaj_grid(path), Exception)
    finally:
        shutil.rmtree(folder)
    H.prove(bool(bad) == (not ok or extra != 0), "refused exactly when not supported")
    if bad:
        H.prove(isinstance(e, ValueError if ok else NotImplementedError), "kind of error")
    else:
        H.equal(list(np.ravel(e.values)), [H.const(7)] * 4, "values")
