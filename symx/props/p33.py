"""P33 associated Legendre functions."""
from fractions import Fraction
from math import comb, factorial

from ..harness import obligation

L = "harmonica._spherical_harmonics.legendre"
NAMES = {"plain": "associated_legendre", "schmidt": "associated_legendre_schmidt", "full": "associated_legendre_full"}
FUNCS = [f"{L}.{n}{d}" for n in NAMES.values() for d in ("", "_derivative")] + ["_rescale"]
KINDS = tuple(NAMES)


def poly(n, m):
    """Coefficients of the m-th derivative of the Legendre polynomial."""
    c = [Fraction(0)] * (n + 1)
    for k in range(n // 2 + 1):
        c[n - 2 * k] = Fraction((-1) ** k * comb(n, k) * comb(2 * n - 2 * k, n), 2 ** n)
    for _ in range(m):
        c = [k * v for k, v in enumerate(c)][1:]
    return c


def evaluate(H, c, x):
    return sum((H.frac(v.numerator, v.denominator) * x ** k for k, v in enumerate(c) if v), H.const(0))


def norm(H, n, m, kind):
    """sqrt((2 - d) (n - m)! / (n + m)!), times sqrt(2 n + 1)."""
    if kind == "plain":
        return H.const(1)
    q = Fraction((2 if m else 1) * factorial(n - m), factorial(n + m)) * (2 * n + 1 if kind == "full" else 1)
    return H.sqrt(H.const(q.numerator * q.denominator)) / q.denominator


def closed(H, n, m, c, s, kind, order):
    """P_n^m(cos t) = norm sin(t)^m Q(cos t), and its derivatives in t."""
    k = norm(H, n, m, kind)
    q = [evaluate(H, poly(n, m + i), c) if m + i <= n else H.const(0) for i in range(order + 1)]
    power = lambda e: s ** e if e >= 0 else H.const(0)  # noqa: E731
    if order == 0:
        return k * power(m) * q[0]
    if order == 1:
        return k * (m * power(m - 1) * c * q[0] - power(m + 1) * q[1])
    return k * (m * (m - 1) * power(m - 2) * c * c * q[0] - m * power(m) * q[0] - (2 * m + 1) * power(m) * c * q[1] + power(m + 2) * q[2])


@obligation("P33", FUNCS, "any argument in [-1, 1], every degree and order up to the one given, arrays with anything inside before", budget=240,
            witness_paths=3, params=[dict(kind=k, degree=n) for k in KINDS for n in (0, 1, 2, 13)])
def functions(H, kind, degree):
    """Functions and their first and second derivatives in colatitude."""
    c = H.real("x", -1, 1)
    s = H.sqrt((1 - c) * (1 + c))
    fn, dfn = H.internal(L, NAMES[kind]), H.internal(L, NAMES[kind] + "_derivative")
    size = degree + 1
    junk = [[[H.real(f"junk{k}{i}{j}", -9, 9) if i < 3 else H.const(7) for j in range(size)] for i in range(size)] for k in range(3)]
    p, dp, d2p = (H.array(v) for v in junk)
    fn(c, degree, p)
    before = p.copy()
    dfn(degree, p, dp)
    H.equal(p, before, "functions are kept")
    dfn(degree, dp, d2p)
    for n in range(size):
        for m in range(n + 1):
            for order, got in enumerate((p, dp, d2p)):
                if order == 2 and degree > 7:
                    continue
                want = closed(H, n, m, c, s, kind, order)
                H.equal(got[n, m], want, f"{('function', 'derivative', 'second derivative')[order]} {n} {m}", rtol=1e-6,
                        scale=None if H.symbolic else (1 if kind != "plain" else factorial(n + m)) * (n + 1) ** 2)
        for m in range(n + 1, size):
            H.equal(p[n, m], junk[0][n][m], "rest of the array is left")
