"""P20 pose of ellipsoids and sums of their fields."""
import itertools

import harmonica as hm
import numpy as np

from .. import core, snp
from ..harness import obligation

G = "harmonica._forward.ellipsoids.gravity"
M = "harmonica._forward.ellipsoids.magnetic"
FUNCS = ["harmonica.ellipsoid_gravity", "harmonica.ellipsoid_magnetic", "get_semiaxes_rotation_matrix", "_compute_gravity_ellipsoid",
         "_single_ellipsoid_magnetic", "get_magnetisation"]


def wrap(H, x):
    return H.array([x])


def same(a, b):
    return a is b or (core._wrap(a) - b).is_const() and bool(core._wrap(a) == b)


def squares(p, axes):
    """Squares of the coordinates, added along axes of equal length (fields of
    spheroids have no other argument)."""
    out = [v * v for v in p]
    for i in range(3):
        for j in range(i):
            if same(axes[i], axes[j]):
                out[j], out[i] = out[j] + out[i], 0
                break
    return out


def lambda_uf(x, y, z, a, b, c):
    """lambda depends on the squares of the coordinates (P17)."""
    if isinstance(x, np.ndarray):
        return array([lambda_uf(*p, a, b, c) for p in zip(x, y, z)])
    return core.uf("lambda", *squares((x, y, z), (a, b, c)), a, b, c)


def array(v):
    return snp.wrap_arr(v).copy()


def integrals_uf(a, b, c, lam):
    """Each integral has its own semiaxis as argument (P18)."""
    if isinstance(lam, np.ndarray):
        v = [integrals_uf(a, b, c, t) for t in lam]
        return tuple(array([t[k] for t in v]) for k in range(3))
    return tuple(core.uf("integral", s, a, b, c, lam) for s in (a, b, c))


def factors_uf(a, b, c):
    v = [core.uf("factor", s, a, b, c) for s in (a, b, c)]
    return array([[v[i] if i == j else 0 for j in range(3)] for i in range(3)])


def outer_uf(x, y, z, a, b, c):
    """Symmetric; odd or even in each coordinate as a second derivative is
    (P19)."""
    s = (a, b, c)
    out = []
    for p in zip(x, y, z):
        sq = squares(p, s)
        n = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(i + 1):
                n[i][j] = n[j][i] = p[i] * p[j] * core.uf("outer", s[j], s[i], *sq, *s)
            n[i][i] = n[i][i] + core.uf("own", s[i], *sq, *s)
        out.append(n)
    return array(out) if out else np.zeros((0, 3, 3))


def abstract(H):
    """Stand-ins for what P17-P19 decide."""
    if not H.symbolic:
        return H.patched()
    return H.patched((G, "calculate_lambda", lambda_uf), (G, "get_elliptical_integrals", integrals_uf),
                     (M, "get_demagnetization_tensor_internal", factors_uf), (M, "get_demagnetization_tensor_external", outer_uf))


def body(H, s, pose=(0, 0, 0), center=(0, 0, 0), what="gravity", n="", tensor=None, rem=None):
    if what == "gravity":
        return hm.Ellipsoid(*s, *pose, center, density=2000)
    return hm.Ellipsoid(*s, *pose, center, susceptibility=tensor, remanent_mag=rem)


def field(H, what, coords, bodies, b0=None):
    """East, north, up components of the field at one point."""
    coords = tuple(wrap(H, c) for c in coords)
    if what == "gravity":
        g = hm.ellipsoid_gravity(coords, bodies)
        return [g[0][0], g[1][0], -g[2][0]]
    return [b[0] for b in hm.ellipsoid_magnetic(coords, bodies, H.array(b0))]


def matrix(H, yaw, pitch, roll):
    """Local to global: roll about easting, then pitch that lifts the easting
    axis, then yaw about up."""
    cy, sy, cp, sp, cr, sr = (f(H.rad(v)) for v in (yaw, pitch, roll) for f in (H.cos, H.sin))
    z = [[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]
    y = [[cp, 0, -sp], [0, 1, 0], [sp, 0, cp]]
    x = [[1, 0, 0], [0, cr, -sr], [0, sr, cr]]
    return mul(mul(z, y), x)


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def turn(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def flip(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


@obligation("P20", FUNCS, "any yaw, pitch and roll, any centre, point (inside or outside), inducing field and remanence; semiaxes of fixed values in some "
            "orders, a sphere or any sphere", witness_paths=3, budget=240,
            params=[dict(what=w, axes=x, _domain="assume" if w == "magnetic" else "check") for w in ("gravity", "magnetic") for x in ((3, 2, 1), (1, 3, 2), (2, 2, 2))])
def pose(H, what, axes):
    """The field of a body in any pose is the one of the body at the origin
    along the axes, at the point seen from the body, turned back."""
    angles = H.real("yaw", -180, 180), H.real("pitch", -90, 90), H.real("roll", -180, 180)
    center = H.reals("center", 3, -10, 10)
    p = H.reals("p", 3, -20, 20)
    r = matrix(H, *angles)
    rel = [p[k] - center[k] for k in range(3)]
    local = turn(flip(r), rel)
    kw, b0, b0_local = {}, None, None
    kw_local = {}
    if what == "magnetic":
        b0 = H.reals("b", 3, -50000, 50000)
        rem = H.reals("m", 3, -10, 10)
        tensor = H.array([[H.const(2), 0, 0], [0, H.const(1), 0], [0, 0, H.const(0.5)]])
        b0_local = turn(flip(r), b0)
        kw = dict(tensor=tensor, rem=H.array(rem))
        kw_local = dict(tensor=tensor, rem=H.array(turn(flip(r), rem)))
    with abstract(H):
        got = field(H, what, p, body(H, axes, angles, center, what, **kw), b0)
        ref = field(H, what, local, body(H, axes, what=what, **kw_local), b0_local)
        H.equal(got, turn(r, ref), "turned field", rtol=1e-6, scale=None if H.symbolic else max(abs(v) for v in ref))


@obligation("P20", FUNCS, "any semiaxes (in each of the 6 orders, and ties), point, susceptibility tensor, remanence, inducing field",
            witness_paths=4, budget=240, params=[dict(what=w, tie=t, _domain="assume" if w == "magnetic" else "check") for w in ("gravity", "magnetic") for t in ("none", "large", "small", "sphere")])
def order(H, what, tie):
    """The order in which the semiaxes are given only names the directions."""
    a, b, c = H.real("a", 1, 100), H.real("b", 1, 100), H.real("c", 1, 100)
    H.assume(H.both(a > b * H.const(1.01), b > c * H.const(1.01)))
    axes = {"none": (a, b, c), "large": (a, a, c), "small": (a, c, c), "sphere": (a, a, a)}[tie]
    perms = list(itertools.permutations(range(3)))
    perm = perms[H.choice("order", 6)]
    p = H.reals("p", 3, -200, 200)
    # direction i of the body in the order given is direction perm[i] sorted
    given = [axes[perm[i]] for i in range(3)]
    back = [perm.index(k) for k in range(3)]
    sorted_p = [p[back[k]] for k in range(3)]
    kw, kws, b0, b0s = {}, {}, None, None
    if what == "magnetic":
        b0 = H.reals("b", 3, -50000, 50000)
        rem = H.reals("m", 3, -10, 10)
        chi = [[H.real(f"chi{i}", 0.5, 2) if i == j else 0 for j in range(3)] for i in range(3)]
        chi[0][2], chi[2][0] = H.real("chi02", -0.1, 0.1), H.real("chi20", -0.1, 0.1)
        kw = dict(tensor=H.array(chi), rem=H.array(rem))
        kws = dict(tensor=H.array([[chi[back[i]][back[j]] for j in range(3)] for i in range(3)]), rem=H.array([rem[k] for k in back]))
        b0s = [b0[k] for k in back]
    with abstract(H):
        got = field(H, what, p, body(H, given, what=what, **kw), b0)
        ref = field(H, what, sorted_p, body(H, axes, what=what, **kws), b0s)
    H.equal(got, [ref[perm[i]] for i in range(3)], "same field", rtol=1e-6, scale=None if H.symbolic else max(abs(v) for v in ref))


def make(H, k, what, kind):
    """Body number k of fixed size: with the property, or without it."""
    kw = {}
    if what == "gravity" and kind:
        kw["density"] = H.real(f"density{k}", -3000, 3000)
    if what == "magnetic" and kind in (1, 3):
        kw["susceptibility"] = H.real(f"chi{k}", 0, 2)
    if what == "magnetic" and kind in (2, 3):
        kw["remanent_mag"] = H.array(H.reals(f"m{k}", 3, -10, 10))
    return hm.Ellipsoid(*((3, 2, 1), (1, 2, 2), (2, 2, 2))[k], *((0, 0, 0), (90, 0, 0), (0, 0, 90))[k], H.reals(f"c{k}", 3, -50, 50), **kw)


@obligation("P20", FUNCS, "three bodies (triaxial, oblate, sphere) with or without the property, any centres, points, densities, susceptibilities, "
            "remanence, inducing field; one body, list, tuple or generator", witness_paths=6, budget=240, max_paths=600,
            params=[dict(what=w, kind=k, _domain="assume" if w == "magnetic" else "check") for w in ("gravity", "magnetic") for k in ("list", "tuple", "generator", "one")])
def superposition(H, what, kind):
    """Sum over the bodies with the property, a warning for each other one; the
    objects are as before."""
    p = H.reals("p", 3, -20, 20)
    b0 = H.reals("b", 3, -50000, 50000) if what == "magnetic" else None
    n = 1 if kind == "one" else 3
    if what == "gravity":
        has = [1 if H.decide(f"has{k}") else 0 for k in range(n)]
    else:
        has = [H.choice(f"has{k}", 4) if k == 0 else (3 if H.decide(f"has{k}") else 0) for k in range(n)]
    bodies = [make(H, k, what, has[k]) for k in range(n)]
    attrs = [dict(vars(b)) for b in bodies]
    with abstract(H):
        arg = {"list": bodies, "tuple": tuple(bodies), "generator": (b for b in bodies), "one": bodies[0]}[kind]
        got, warned = H.warns(lambda: field(H, what, p, arg, b0))
        H.prove([c.__name__ for c in warned] == ["NoPhysicalPropertyWarning"] * has.count(0), "a warning per body without the property")
        parts = [field(H, what, p, b, b0) for b, h in zip(bodies, has) if h]
    total = [sum(q[i] for q in parts) if parts else H.const(0) for i in range(3)]
    big = None if H.symbolic else max([abs(v) for q in parts for v in q] + [1e-9])
    H.equal(got, total, "sum", rtol=1e-6, scale=big)
    for b, old in zip(bodies, attrs):
        H.prove(all(vars(b)[k] is v for k, v in old.items()), "objects are as before")


@obligation("P20", FUNCS, "any point, semiaxes (sorted) of the shape, density", witness_paths=4, budget=120,
            params=[dict(shape=s) for s in ("triaxial", "prolate", "oblate", "sphere")])
def gravity(H, shape):
    """2 pi G rho a b c x_i times the integral of axis i at lambda (0 inside),
    in mGal, pointing in, with the vertical one down; outside a sphere,
    that of its mass in the centre."""
    from choclo.constants import GRAVITATIONAL_CONST

    from .p17 import axes as semiaxes
    from .p18 import setting

    a, b, c = semiaxes(H, shape) if shape == "sphere" else setting(H, shape)
    rho = H.real("density", -3000, 3000)
    p = H.reals("p", 3, -200, 200)
    inside = p[0] ** 2 / a ** 2 + p[1] ** 2 / b ** 2 + p[2] ** 2 / c ** 2
    if not H.symbolic:
        H.assume(abs(inside - 1) > 1e-9)
    inside = bool(inside < 1)
    with abstract(H):
        g = hm.ellipsoid_gravity(tuple(wrap(H, v) for v in p), hm.Ellipsoid(a, b, c, density=rho))
        if shape != "sphere":
            lam = H.const(0) if inside else H.internal(G, "calculate_lambda")(*p, a, b, c)
            w = H.internal(G, "get_elliptical_integrals")(a, b, c, lam)
    if shape == "sphere":
        r = a if inside else H.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2)
        w = [H.frac(2, 3) / r ** 3] * 3
    for i, s in enumerate((1, 1, -1)):
        want = -2 * H.pi * a * b * c * H.const(GRAVITATIONAL_CONST) * rho * p[i] * w[i] * s * 100000
        H.equal(g[i][0], want, "component", rtol=1e-6)


@obligation("P20", FUNCS, "any point, semiaxes (sorted) of the shape, susceptibility (isotropic, diagonal or none), remanence or none, inducing field",
            witness_paths=4, budget=120,
            params=[dict(shape=s, kind=k) for s in ("triaxial", "prolate", "oblate", "sphere") for k in ("isotropic", "diagonal", "none")])
def magnetic(H, shape, kind):
    """mu0 (M - N M) inside and -mu0 N M outside, in nT, with M the
    self-consistent magnetization; outside a sphere, that of a dipole."""
    from scipy.constants import mu_0

    from .p17 import axes as semiaxes
    from .p18 import setting

    a, b, c = semiaxes(H, shape) if shape == "sphere" else setting(H, shape)
    p = H.reals("p", 3, -200, 200)
    b0 = H.reals("b", 3, -50000, 50000)
    mu = H.const(mu_0)
    inside = p[0] ** 2 / a ** 2 + p[1] ** 2 / b ** 2 + p[2] ** 2 / c ** 2
    if not H.symbolic:
        H.assume(abs(inside - 1) > 1e-9)
    inside = bool(inside < 1)
    if kind == "isotropic":
        chi = [H.real("chi", 0, 5)] * 3
        arg = chi[0]
    elif kind == "diagonal":
        chi = [H.real(f"chi{i}", 0, 5) for i in range(3)]
        arg = H.array([[chi[i] if i == j else 0 for j in range(3)] for i in range(3)])
    else:
        chi, arg = [H.const(0)] * 3, None
    rem = None if kind == "isotropic" else H.reals("m", 3, -10, 10)
    with abstract(H):
        nin = H.internal(M, "get_demagnetization_tensor_internal")(a, b, c)
        if H.symbolic:  # a fact of P19
            for i in range(3):
                H.assume(nin[i, i] >= 0)
        body = hm.Ellipsoid(a, b, c, susceptibility=arg, remanent_mag=None if rem is None else H.array(rem))
        got = hm.ellipsoid_magnetic(tuple(wrap(H, v) for v in p), body, H.array(b0))
        nout = H.internal(M, "get_demagnetization_tensor_external")(*(wrap(H, v) for v in p), a, b, c)[0]
    m = [((rem[i] if rem else 0) + chi[i] * b0[i] / 10 ** 9 / mu) / (1 + chi[i] * nin[i, i]) for i in range(3)]
    n = nin if inside else nout
    h = [-sum(n[i, j] * m[j] for j in range(3)) for i in range(3)]
    big = None if H.symbolic else 1e9 * mu_0 * max(abs(v) for v in m)
    for i in range(3):
        H.equal(got[i][0], mu * (h[i] + (m[i] if inside else 0)) * 10 ** 9, "component", rtol=1e-6, scale=big)


@obligation("P20", FUNCS, "any sphere, centre, point outside, magnetization; moment m = 4/3 pi a^3 M", witness_paths=3, budget=120,
            params=[dict(what=w) for w in ("gravity", "magnetic")])
def sphere(H, what):
    """Outside a sphere the field is the one of a point in its centre."""
    a = H.real("a", 1, 100)
    p, q = H.reals("p", 3, -500, 500), H.reals("q", 3, -500, 500)
    d = [p[i] - q[i] for i in range(3)]
    r = H.sqrt(sum(v * v for v in d))
    H.assume(r > a * H.const(1.0001))
    coords = tuple(wrap(H, v) for v in p)
    vol = H.frac(4, 3) * H.pi * a ** 3
    if what == "gravity":
        rho = H.real("density", -3000, 3000)
        got = hm.ellipsoid_gravity(coords, hm.Ellipsoid(a, a, a, center=q, density=rho))
        from choclo.constants import GRAVITATIONAL_CONST as k

        want = [-H.const(k) * vol * rho * d[i] / r ** 3 * 10 ** 5 * (-1 if i == 2 else 1) for i in range(3)]
    else:
        from scipy.constants import mu_0

        m = H.reals("m", 3, -10, 10)
        got = hm.ellipsoid_magnetic(coords, hm.Ellipsoid(a, a, a, center=q, remanent_mag=H.array(m)), H.array([1, 2, 3]))
        dot = sum(m[i] * d[i] for i in range(3))
        want = [H.const(mu_0) / (4 * H.pi) * vol * (3 * dot * d[i] / r ** 5 - m[i] / r ** 3) * 10 ** 9 for i in range(3)]
    for i in range(3):
        H.equal(got[i][0], want[i], "component", rtol=1e-6, scale=None if H.symbolic else max(abs(v) for v in want))


@obligation("P20", FUNCS, "any new pose, centre, density or remanence and susceptibility, point; semiaxes (3, 2, 1) changed to (1, 3, 2)", witness_paths=3,
            budget=120, params=[dict(what=w, _domain="assume" if w == "magnetic" else "check") for w in ("gravity", "magnetic")])
def changed(H, what):
    """A body used and then changed has the field of a new one."""
    angles = H.real("yaw", -180, 180), H.real("pitch", -90, 90), H.real("roll", -180, 180)
    center, p = H.reals("center", 3, -10, 10), H.reals("p", 3, -20, 20)
    b0 = H.reals("b", 3, -50000, 50000) if what == "magnetic" else None
    if what == "gravity":
        old, new = dict(density=1000), dict(density=H.real("density", -3000, 3000))
    else:
        old = dict(susceptibility=0.5, remanent_mag=np.array([1.0, 2.0, 3.0]))
        new = dict(susceptibility=H.real("chi", 0, 2), remanent_mag=H.array(H.reals("m", 3, -10, 10)))
    body = hm.Ellipsoid(3, 2, 1, 10, 20, 30, (1, 2, 3), **old)
    with abstract(H):
        field(H, what, (30, 20, 10), body, [1, 2, 3])
        body.a, body.b, body.c = 1, 3, 2
        body.yaw, body.pitch, body.roll = angles
        body.center = center
        for k, v in new.items():
            setattr(body, k, v)
        got = field(H, what, p, body, b0)
        ref = field(H, what, p, hm.Ellipsoid(1, 3, 2, *angles, center, **new), b0)
    H.equal(got, ref, "field of a new body", rtol=1e-6, scale=None if H.symbolic else max(abs(v) for v in ref) + 1e-9)
