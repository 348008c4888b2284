"""P32 IGRF coefficients in time."""
import datetime

from ..harness import obligation

IG = "harmonica._spherical_harmonics.igrf"
FUNCS = [f"{IG}.interpolate_coefficients", f"{IG}.load_igrf", "harmonica.IGRF14.coefficients"]
YEARS = list(range(1900, 2026, 5))


class Span:
    def __init__(self, seconds):
        self.seconds_ = seconds

    def total_seconds(self):
        return self.seconds_

    def __truediv__(self, other):
        return self.seconds_ / (other.total_seconds() if hasattr(other, "total_seconds") else other)


class Moment:
    """A date: year, and any number of seconds since its first of January."""

    def __init__(self, year, seconds):
        self.year, self.seconds = year, seconds

    def __sub__(self, other):
        return Span(self.seconds + int((datetime.datetime(self.year, 1, 1) - other).total_seconds()))

    def __ge__(self, other):
        return (self - other).total_seconds() >= 0

    def __lt__(self, other):
        return (self - other).total_seconds() < 0

    def __le__(self, other):
        return (self - other).total_seconds() <= 0

    def __gt__(self, other):
        return (self - other).total_seconds() > 0

    def isoformat(self):
        return f"{self.year}"


SOME = [(1, 1), (8, 8), (9, 0), (10, 3), (11, 11), (13, 2), (13, 13)]


def days(a, b):
    return (datetime.datetime(b, 1, 1) - datetime.datetime(a, 1, 1)).days


def moment(H, year):
    s = H.real("seconds", 0, days(year, year + 1) * 86400 - 1)
    if H.symbolic:
        return Moment(year, s), s
    date = datetime.datetime(year, 1, 1) + datetime.timedelta(seconds=s)
    return date, (date - datetime.datetime(year, 1, 1)).total_seconds()


def tables(H, n_years, degree, some=None):
    """Any number where the model has one (or at some degrees and orders only)."""
    def table(name):
        return [[H.real(f"{name}{n}{m}", -1000, 1000) if 0 < n and m <= n and not (name[0] == "h" and m == 0) and (not some or (n, m) in some) else 0
                 for m in range(degree + 1)] for n in range(degree + 1)]

    g, h = ([table(f"{k}_{y}_") for y in range(n_years)] for k in "gh")
    return g, h, table("gs_"), table("hs_")


@obligation("P32", FUNCS, "years from two before the first to seven after the last epoch, any second of each, any coefficients; tables of 1, 2 and 26 epochs, "
            "up to degree 2 (13: at seven of the degrees and orders), of which max_degree is used", max_paths=200, budget=240, witness_paths=8,
            params=[dict(years=YEARS, table=1, degree=1), dict(years=[1995, 2000], table=2, degree=2), dict(years=[2000], table=1, degree=1),
                    dict(years=[2000, 2005], table=13, degree=13), dict(years=[2000, 2005], table=13, degree=10)])
def interpolation(H, years, table, degree):
    """Linear between the two epochs around the date, with the secular
    variation after the last; dates out of the validity are rejected."""
    first, last = years[0], years[-1]
    if first == 1900:
        k = (0, 1, 11, 20, 24, 25)[H.choice("epoch", 6)]
        year = first + 5 * k + (-2, 0, 1, 2, 3, 4, 5, 6)[H.choice("year", 8)]
    else:
        year = first - 2 + H.choice("year", last + 7 - first + 2)
    date, s = moment(H, year)
    g, h, gs, hs = tables(H, len(years), table, SOME if table > 2 else None)
    args = [H.array(v) for v in (g, h, gs, hs)]
    keep = [a.copy() for a in args]
    bad, got = H.raises(lambda: H.internal(IG, "interpolate_coefficients")(date, degree, H.int_array(years), *args))
    H.prove(bool(bad) == (year < first or year >= last + 5), "rejected exactly out of the validity")
    if bad:
        return
    k = (year - first) // 5
    t = s + days(years[k], year) * 86400
    length = days(years[k], years[k] + 5) * 86400
    for tab, sv, out, name in ((g, gs, got[0], "g"), (h, hs, got[1], "h")):
        H.prove(out.shape == (degree + 1, degree + 1), "up to the degree")
        for n in range(degree + 1):
            for m in range(degree + 1):
                if k == len(years) - 1:
                    want = tab[k][n][m] + t * sv[n][m] / (H.frac(1461, 4) * 86400)
                else:
                    f = t / H.const(length)
                    want = tab[k][n][m] * (1 - f) + tab[k + 1][n][m] * f
                H.equal(out[n, m], want, f"{name} {n} {m}", rtol=1e-6, scale=None if H.symbolic else 1000)
    for a, b in zip(args, keep):
        H.equal(a, b, "tables are kept")


class Text(str):
    """A line of a file with any numbers in it."""

    def __new__(cls, parts):
        self = super().__new__(cls, " ".join(str(p) for p in parts) + "\n")
        self.parts = parts
        return self

    def split(self, *a, **k):
        return list(self.parts)

    def strip(self, *a):
        return self

    rstrip = strip


class File:
    """An open file (and its path) made of lines."""

    def __init__(self, lines):
        self.lines = list(lines)

    def open(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readline(self):
        return self.lines.pop(0) if self.lines else ""

    def __iter__(self):
        return self

    def __next__(self):
        if not self.lines:
            raise StopIteration
        return self.lines.pop(0)

    def readlines(self):
        out, self.lines = self.lines, []
        return out


@obligation("P32", FUNCS, "any coefficients of any subset of lines of the table, for 1 to 3 epochs, in any order of the lines", max_paths=100, witness_paths=6,
            params=[dict(n=1), dict(n=3)])
def loading(H, n):
    """Each number of the file goes to its epoch, degree and order, the last
    column to the secular variation; what is not in the file is zero."""
    years = [2000 + 5 * k for k in range(n)]
    entries = [("g", 1, 0), ("g", 1, 1), ("h", 1, 1), ("g", 2, 1), ("h", 13, 13), ("g", 13, 2)]
    first = H.choice("first", len(entries))
    rows = [entries[(first + k) % len(entries)] for k in range(5)]
    values = {}
    lines = [Text(["#", "comment"]), Text(["#", "comment"]), Text(["c/s", "deg", "ord"] + ["IGRF"] * (n + 1)),
             Text(["g/h", "n", "m"] + [f"{y}.0" for y in years] + ["2015-20"])]
    for key in rows:
        v = values[key] = H.reals(f"v{key[0]}{key[1]}_{key[2]}_", n + 1, -50000, 50000)
        lines.append(Text([key[0], str(key[1]), str(key[2])] + (v if H.symbolic else [repr(x) for x in v])))
    got = H.internal(IG, "load_igrf")(File(lines))
    H.prove([int(y) for y in got[0]] == years, "epochs")
    for name, tab, sv in (("g", got[1], got[3]), ("h", got[2], got[4])):
        H.prove(tab.shape == (n, 14, 14) and sv.shape == (14, 14), "shapes")
        for d in range(14):
            for m in range(14):
                v = values.get((name, d, m), [H.const(0)] * (n + 1))
                for k in range(n):
                    H.equal(tab[k, d, m], v[k], f"{name} of an epoch")
                H.equal(sv[d, m], v[n], f"{name} secular variation")


@obligation("P32", FUNCS, "any date of the validity of a model of two epochs given as text or as a date, any coefficients, asked for several times", max_paths=30,
            witness_paths=4)
def model(H):
    """The model object interpolates the coefficients of its own date, once;
    each object has its own."""
    import harmonica as hm

    g, h, gs, hs = tables(H, 2, 1)
    args = [H.array(v) for v in (g, h, gs, hs)]
    calls = []

    def load(path):
        calls.append(path)
        return (H.int_array([2015, 2020]), *(a.copy() for a in args))

    texts = ["2016-01-01", "2018-07-02T12:00:00", "2020-01-01", "2023-05-06T07:08:09.123456"]
    i, j = H.choice("first", 4), H.choice("second", 4)
    with H.patched((IG, "load_igrf", load), ("harmonica._spherical_harmonics.igrf", "pooch", Pooch())):
        one = hm.IGRF14(texts[i], max_degree=1)
        two = hm.IGRF14(datetime.datetime.fromisoformat(texts[j]), max_degree=1)
        for m, k in ((one, i), (two, j), (one, i)):
            date = datetime.datetime.fromisoformat(texts[k])
            want = H.internal(IG, "interpolate_coefficients")(date, 1, H.int_array([2015, 2020]), *args)
            for a, b in zip(m.coefficients, want):
                H.equal(a, b, "coefficients of its date")


class Pooch:
    """Nothing is downloaded."""

    def retrieve(self, *a, **k):
        return "/nonexistent/igrf14coeffs.txt"
