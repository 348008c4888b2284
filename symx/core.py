"""
Symbolic reals for executing the real harmonica code, and the SMT back end.

A ``Sym`` is a rational function with exact rational coefficients over *atoms*
(input variables, square roots, sines/cosines, exponentials, applications of
uninterpreted functions).  It is kept as  c * prod(p_i ** e_i)  with p_i
primitive polynomials, so products stay factored and sums are expanded.
Algebraic atoms carry a rewriting rule (r**2 -> radicand, s**2 -> 1 - c**2).

Comparisons give ``SymBool`` formulas; ``bool(SymBool)`` asks the active engine
(``engine.py``) which forks the execution.
"""
import math
import numbers
from fractions import Fraction

# --------------------------------------------------------------------------
# control exceptions (BaseException so that code under test cannot catch them)


class Control(BaseException):
    pass


class Infeasible(Control):
    """Current path contradicts an assumption."""


class Unsupported(Control):
    """The encoding cannot follow the code here."""


class Undefined(Control):
    """Division by zero, square root of a negative number, ..."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


ENGINE = None  # the active engine; set by engine.py


def engine():
    if ENGINE is None:
        raise Unsupported("symbolic operation outside an engine run")
    return ENGINE


# --------------------------------------------------------------------------
# exact reading of floats


def rationalize(x):
    """Exact rational meant by a float literal/intermediate (see DESIGN.md)."""
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, numbers.Integral):
        return int(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f"non finite constant {x}")
    if x == int(x) and abs(x) < 2**53:
        return int(x)
    r = repr(x)
    mant = r.lower().split("e")[0].replace("-", "").replace(".", "").strip("0")
    if len(mant) <= 12:
        f = Fraction(r)
    else:
        f = Fraction(x).limit_denominator(1_000_000)
        if f == 0 or abs(f - Fraction(x)) > abs(Fraction(x)) * Fraction(4, 2**53):
            f = Fraction(r)
    return f.numerator if f.denominator == 1 else f


def _q(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = (
        "aid", "name", "kind", "fn", "args", "power", "rule", "facts", "lo",
        "hi", "integer", "cosine", "sine", "numeric", "pair", "inp",
    )

    def __init__(self, name, kind, fn=None, args=()):
        self.aid = len(ATOMS)
        self.name = name
        self.kind = kind
        self.fn = fn
        self.args = args
        self.power = None  # exponent at which rule applies
        self.rule = None  # Poly replacing atom**power
        self.facts = []  # SymBools always true of the atom
        self.lo = self.hi = None
        self.integer = False
        self.cosine = self.sine = None  # Sym values when the atom is an angle
        self.numeric = None
        self.pair = None
        self.inp = None
        ATOMS.append(self)

    def __repr__(self):
        return self.name


ATOMS = []
_FN_TABLE = {}
POLYS = []  # pid -> Poly (dict)
_POLY_TABLE = {}


def reset():
    ATOMS.clear()
    _FN_TABLE.clear()
    POLYS.clear()
    _POLY_TABLE.clear()
    _PRIME_SQRT.clear()
    _EXPAND_CACHE.clear()
    global _PI
    _PI = None


# --------------------------------------------------------------------------
# polynomials: dict monomial -> coefficient; monomial = ((aid, exp), ...)

ONE_M = ()


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _needs_rule(m):
    for aid, e in m:
        p = ATOMS[aid].power
        if p is not None and e >= p:
            return True
    return False


def _add_mono(out, m, c):
    v = out.get(m)
    if v is None:
        out[m] = c
    else:
        v = v + c
        if v == 0:
            del out[m]
        else:
            out[m] = v


def _reduce_into(out, m, c):
    for k, (aid, e) in enumerate(m):
        a = ATOMS[aid]
        if a.power is not None and e >= a.power:
            q, r = divmod(e, a.power)
            rest = m[:k] + (((aid, r),) if r else ()) + m[k + 1:]
            rep = {rest: c}
            for _ in range(q):
                rep = poly_mul(rep, a.rule)
            for mm, cc in rep.items():
                _add_mono(out, mm, cc)
            return
    _add_mono(out, m, c)


BUDGET = 3_000_000  # monomial products per multiplication


def poly_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > BUDGET:
        raise Unsupported("polynomial too large")
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            c = _q(c1 * c2)
            if _needs_rule(m):
                _reduce_into(out, m, c)
            else:
                v = out.get(m)
                if v is None:
                    out[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del out[m]
                    else:
                        out[m] = v
    return out


def poly_add(p, q):
    out = dict(p)
    for m, c in q.items():
        _add_mono(out, m, c)
    return out


def poly_scale(p, c):
    if c == 1:
        return p
    return {m: _q(v * c) for m, v in p.items()}


def poly_pow(p, n):
    out = {ONE_M: 1}
    for _ in range(n):
        out = poly_mul(out, p)
    return out


def _content(values):
    num, den = 0, 1
    for v in values:
        if isinstance(v, Fraction):
            num = math.gcd(num, v.numerator)
            den = den * v.denominator // math.gcd(den, v.denominator)
        else:
            num = math.gcd(num, v)
    return Fraction(num, den)


def poly_intern(p):
    """Primitive, sign-normalised polynomial -> pid."""
    key = frozenset(p.items())
    pid = _POLY_TABLE.get(key)
    if pid is None:
        pid = len(POLYS)
        POLYS.append(p)
        _POLY_TABLE[key] = pid
    return pid


def atom_pid(atom):
    return poly_intern({((atom.aid, 1),): 1})


def _atom_of_pid(pid):
    p = POLYS[pid]
    if len(p) == 1:
        (m,) = p
        if len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


_EXPAND_CACHE = {}


def _poly_power(pid, e):
    key = (pid, e)
    r = _EXPAND_CACHE.get(key)
    if r is None:
        if e == 1:
            r = POLYS[pid]
        else:
            r = poly_mul(_poly_power(pid, e - 1), POLYS[pid])
        _EXPAND_CACHE[key] = r
    return r


# --------------------------------------------------------------------------
# Sym


def _poly_to_sym(p):
    if not p:
        return ZERO
    if len(p) == 1:
        ((m, c),) = p.items()
        return _normalise(c, [(atom_pid(ATOMS[a]), e) for a, e in m])
    # content, sign, monomial gcd
    items = iter(p)
    g = dict(next(items))
    for m in items:
        if not g:
            break
        d = dict(m)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d}
    cont = _content(p.values())
    lead = max(p)
    if p[lead] < 0:
        cont = -cont
    if g:
        gm = tuple(sorted(g.items()))
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in gm:
                d[a] -= e
            q[tuple((a, e) for a, e in sorted(d.items()) if e)] = _q(c / cont)
    else:
        gm = ()
        q = {m: _q(c / cont) for m, c in p.items()}
    factors = [(atom_pid(ATOMS[a]), e) for a, e in gm]
    factors.append((poly_intern(q), 1))
    return _normalise(_q(cont), factors)


def _normalise(c, factors):
    """Merge factor list, apply monomial rules of algebraic atoms."""
    acc = {}
    for pid, e in factors:
        acc[pid] = acc.get(pid, 0) + e
    extra = None
    for pid in list(acc):
        e = acc[pid]
        if e == 0:
            del acc[pid]
            continue
        a = _atom_of_pid(pid)
        if a is not None and a.power is not None and not 0 <= e < a.power:
            q, r = divmod(e, a.power)
            if r:
                acc[pid] = r
            else:
                del acc[pid]
            base = _poly_to_sym(a.rule)
            t = base ** q
            extra = t if extra is None else extra * t
    s = Sym(_q(c), tuple(sorted(acc.items())))
    if extra is not None:
        s = s * extra
    return s


def _sym_mul(s, t):
    if s.c == 0 or t.c == 0:
        return ZERO
    c = _q(s.c * t.c)
    if not s.f:
        return Sym(c, t.f)
    if not t.f:
        return Sym(c, s.f)
    return _normalise(c, list(s.f) + list(t.f))


def _expand(c, factors):
    out = {ONE_M: c}
    for pid, e in sorted(factors, key=lambda fe: len(POLYS[fe[0]])):
        out = poly_mul(out, _poly_power(pid, e))
    return out


def _sym_add(s, t):
    if s.c == 0:
        return t
    if t.c == 0:
        return s
    if s.f == t.f:
        c = s.c + t.c
        return ZERO if c == 0 else Sym(_q(c), s.f)
    d1, d2 = dict(s.f), dict(t.f)
    common, r1, r2 = [], [], []
    for pid in set(d1) | set(d2):
        e1, e2 = d1.get(pid, 0), d2.get(pid, 0)
        m = min(e1, e2)
        if m:
            common.append((pid, m))
        if e1 - m:
            r1.append((pid, e1 - m))
        if e2 - m:
            r2.append((pid, e2 - m))
    p = poly_add(_expand(s.c, r1), _expand(t.c, r2))
    res = _poly_to_sym(p)
    if not common or res.c == 0:
        return res
    return _normalise(res.c, list(res.f) + common)


def _wrap(x):
    """Python/numpy scalar -> Sym, or None."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.as_number()
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Sym(_q(x), ())
    if isinstance(x, numbers.Real):
        xf = float(x)
        if xf != xf:
            return NAN
        return Sym(rationalize(x), ())
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return _wrap(x.item())
    return None


class Sym:
    __slots__ = ("c", "f", "_h")
    __array_priority__ = 1000

    def __init__(self, c, f=()):
        self.c = c
        self.f = f
        self._h = None

    # --- structure
    def key(self):
        return (self.c, self.f)

    def is_const(self):
        return not self.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.f)) if self.f else hash(self.c)
        return self._h

    def __repr__(self):
        if not self.f:
            return str(self.c)
        return "%s*%s" % (
            self.c,
            "*".join(
                "(%s)%s" % (poly_str(POLYS[p]), "" if e == 1 else "**%d" % e)
                for p, e in self.f
            ),
        )

    def __format__(self, spec):
        return repr(self) if not self.is_const() else str(float(self.c))

    def num_poly(self):
        return _expand(self.c, [(p, e) for p, e in self.f if e > 0])

    def den_factors(self):
        return [(p, -e) for p, e in self.f if e < 0]

    def canonical(self):
        """Key after full expansion (used to intern function arguments)."""
        num = self.num_poly()
        den = tuple(sorted(self.den_factors()))
        return (frozenset(num.items()), den)

    # --- arithmetic
    def __add__(self, o):
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.c, self.f)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_add(self, -o)

    def __rsub__(self, o):
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_add(o, -self)

    def __mul__(self, o):
        if isinstance(o, complex):
            return CSym(self, ZERO) * o
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_mul(self, o)

    __rmul__ = __mul__

    def inverse(self):
        if not self.f:
            if self.c == 0:
                raise Undefined("division by zero")
            return Sym(_q(Fraction(1) / self.c), ())
        engine().require_nonzero(self)
        return _normalise(_q(Fraction(1) / self.c), [(p, -e) for p, e in self.f])

    def __truediv__(self, o):
        if isinstance(o, (complex, CSym)):
            return CSym(self, ZERO) / o
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_mul(self, o.inverse())

    def __rtruediv__(self, o):
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return NAN
        return _sym_mul(o, self.inverse())

    def __pow__(self, n):
        n = _wrap(n)
        if n is None:
            return NotImplemented
        if not n.is_const():
            raise Unsupported("symbolic exponent")
        n = n.c
        if isinstance(n, Fraction):
            if n.denominator != 2:
                raise Unsupported(f"power {n}")
            return self.sqrt() ** n.numerator
        if n == 0:
            return ONE
        base = self
        if n < 0:
            base, n = self.inverse(), -n
        if not base.f:
            return Sym(_q(base.c ** n), ())
        return _normalise(_q(base.c ** n), [(p, e * n) for p, e in base.f])

    def __rpow__(self, o):
        if self.is_const():
            return _wrap(o) ** self
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return Sym(abs(self.c), ())
        if engine().branch(sign_bool("lt", self)):
            return -self
        return self

    def __mod__(self, o):
        o = _wrap(o)
        if self.is_const() and o.is_const():
            return Sym(_q(Fraction(self.c) % Fraction(o.c)), ())
        k = floor_div_atom(self, o)
        return self - o * k

    def __rmod__(self, o):
        return _wrap(o) % self

    def __floordiv__(self, o):
        o = _wrap(o)
        if self.is_const() and o.is_const():
            return Sym(Fraction(self.c) // Fraction(o.c), ())
        return floor_div_atom(self, o)

    def __rfloordiv__(self, o):
        return _wrap(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def floor(self):
        return self // 1

    def ceil(self):
        return -((-self) // 1)

    def trunc(self):
        if self >= 0:
            return self // 1
        return -((-self) // 1)

    def rint(self):
        raise Unsupported("rint")

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    # --- comparisons
    def _cmp(self, o, op, swap=False):
        o = _wrap(o)
        if o is None:
            return NotImplemented
        if o is NAN:
            return op == "ne"
        d = (o - self) if swap else (self - o)
        if d.is_const():
            c = d.c
            return {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
        if op == "ne":
            return ~sign_bool("eq", d)
        return sign_bool(op, d)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "lt", True)

    def __ge__(self, o):
        return self._cmp(o, "le", True)

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    # --- conversions
    def __float__(self):
        if self.is_const():
            return float(self.c)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.c)
        return engine().concretize_int(self.trunc())

    def __index__(self):
        if self.is_const() and isinstance(self.c, int):
            return self.c
        return engine().concretize_int(self)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def item(self):
        return self

    def astype(self, dtype):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def conjugate(self):
        return self

    conj = conjugate

    # --- functions (numpy object loops call these by name)
    def sqrt(self):
        return sym_sqrt(self)

    def square(self):
        return self * self

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sin(self):
        return trig(self)[1]

    def cos(self):
        return trig(self)[0]

    def tan(self):
        c, s = trig(self)
        return s / c

    def radians(self):
        return self * pi() / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / pi()

    rad2deg = degrees

    def arctan2(self, x):
        return sym_arctan2(self, _wrap(x))

    def arctan(self):
        return sym_arctan(self)

    def arcsin(self):
        return sym_arcsin(self)

    def arccos(self):
        return sym_arccos(self)

    def hypot(self, o):
        return sym_sqrt(self * self + o * o)

    def sign(self):
        if self > 0:
            return ONE
        if self < 0:
            return -ONE
        return ZERO

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp

        return snp.array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp

        return snp.array_function(func, types, args, kwargs)


numbers.Real.register(Sym)


class _NaN(Sym):
    """NaN: absorbs arithmetic, every comparison is false (but !=)."""

    __slots__ = ()

    def __init__(self):
        super().__init__(0, ())

    def is_const(self):
        return False

    def __repr__(self):
        return "NaN"

    def key(self):
        return ("nan",)

    def canonical(self):
        return ("nan",)

    def _nan(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _nan
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _nan
    __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __pos__ = _nan
    sqrt = exp = log = sin = cos = tan = radians = degrees = _nan
    arctan2 = arctan = arcsin = arccos = hypot = sign = floor = ceil = _nan
    square = fabs = absolute = deg2rad = rad2deg = inverse = _nan
    trunc = rint = _nan

    def _cmp(self, o, op, swap=False):
        return op == "ne"

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __bool__(self):
        return True

    def __float__(self):
        return math.nan


NAN = _NaN()
ZERO = Sym(0)
ONE = Sym(1)


class CSym:
    """Complex number with Sym parts."""

    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im=ZERO):
        self.re, self.im = re, im

    @staticmethod
    def wrap(x):
        if isinstance(x, CSym):
            return x
        if isinstance(x, complex) or (hasattr(x, "dtype") and getattr(x.dtype, "kind", "") == "c" and getattr(x, "ndim", 1) == 0):
            x = complex(x)
            return CSym(_wrap(x.real), _wrap(x.imag))
        w = _wrap(x)
        if w is None:
            return None
        return CSym(w, ZERO)

    def _bin(self, o, f):
        o = CSym.wrap(o)
        return NotImplemented if o is None else f(o)

    def __add__(self, o):
        return self._bin(o, lambda o: CSym(self.re + o.re, self.im + o.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda o: CSym(self.re - o.re, self.im - o.im))

    def __rsub__(self, o):
        return self._bin(o, lambda o: CSym(o.re - self.re, o.im - self.im))

    def __mul__(self, o):
        return self._bin(
            o,
            lambda o: CSym(
                self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re
            ),
        )

    __rmul__ = __mul__

    def inverse(self):
        n = self.re * self.re + self.im * self.im
        if isinstance(n, Sym) and n.is_const() and n.c == 0:
            return CSym(NAN, NAN)  # numpy warns and goes on
        return CSym(self.re / n, -self.im / n)

    def __truediv__(self, o):
        return self._bin(o, lambda o: self * o.inverse())

    def __rtruediv__(self, o):
        return self._bin(o, lambda o: o * self.inverse())

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pow__(self, n):
        n = _wrap(n)
        if not n.is_const() or isinstance(n.c, Fraction):
            raise Unsupported("complex power")
        n = n.c
        if n < 0:
            return self.inverse() ** (-n)
        r = CSym(ONE, ZERO)
        for _ in range(n):
            r = r * self
        return r

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CSym(self.re, -self.im)

    conj = conjugate

    def __abs__(self):
        return sym_sqrt(self.re * self.re + self.im * self.im)

    def exp(self):
        c, s = trig(self.im)
        e = sym_exp(self.re)
        return CSym(e * c, e * s)

    def __eq__(self, o):
        o = CSym.wrap(o)
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        return ~to_bool(self == o)

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return f"C({self.re!r}, {self.im!r})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp

        return snp.array_ufunc(ufunc, method, *inputs, **kwargs)


def poly_str(p, limit=8):
    out = []
    for m, c in list(p.items())[:limit]:
        t = "*".join(
            ATOMS[a].name + ("" if e == 1 else "^%d" % e) for a, e in m
        )
        out.append(f"{c}*{t}" if t and c != 1 else (t or str(c)))
    if len(p) > limit:
        out.append(f"...[{len(p)}]")
    return "+".join(out)


# --------------------------------------------------------------------------
# booleans


class SymBool:
    __slots__ = ("op", "args")
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        return engine().branch(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        o = to_bool(o)
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return hash(self.key())

    def key(self):
        if self.op in ("lt", "le", "eq"):
            return (self.op, self.args[0].key())
        if self.op == "var":
            return ("var", self.args[0])
        if self.op == "const":
            return ("const", self.args[0])
        return (self.op,) + tuple(a.key() for a in self.args)

    def as_number(self):
        return ONE if bool(self) else ZERO

    def __mul__(self, o):
        return self.as_number() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.as_number() + o

    __radd__ = __add__

    def logical_not(self):
        return b_not(self)

    def item(self):
        return self

    def __repr__(self):
        if self.op in ("lt", "le", "eq"):
            return f"[{self.args[0]!r} {self.op} 0]"
        if self.op in ("var", "const"):
            return f"[{self.args[0]}]"
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp

        return snp.array_ufunc(ufunc, method, *inputs, **kwargs)


TRUE = SymBool("const", (True,))
FALSE = SymBool("const", (False,))


def to_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        r = x != 0
        return r if isinstance(r, SymBool) else (TRUE if r else FALSE)
    return TRUE if bool(x) else FALSE


def simplify_const(b):
    if isinstance(b, SymBool) and b.op == "const":
        return b.args[0]
    return b


def b_not(a):
    a = to_bool(a)
    if a.op == "const":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":  # not d < 0  <=>  -d <= 0
        return SymBool("le", (-a.args[0],))
    if a.op == "le":
        return SymBool("lt", (-a.args[0],))
    return SymBool("not", (a,))


def b_and(*args):
    out = []
    for a in args:
        a = to_bool(a)
        if a.op == "const":
            if not a.args[0]:
                return FALSE
            continue
        out.append(a)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def b_or(*args):
    out = []
    for a in args:
        a = to_bool(a)
        if a.op == "const":
            if a.args[0]:
                return TRUE
            continue
        out.append(a)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    a, b = to_bool(a), to_bool(b)
    return b_and(b_implies(a, b), b_implies(b, a))


def sign_bool(op, d):
    """op in lt/le/eq applied to ``d (op) 0``."""
    return SymBool(op, (d,))


# --------------------------------------------------------------------------
# atom constructors


def new_var(name, lo=None, hi=None, integer=False):
    a = Atom(name, "var")
    a.lo, a.hi = lo, hi
    a.integer = integer
    s = Sym(1, ((atom_pid(a), 1),))
    if lo is not None:
        a.facts.append(SymBool("le", (_wrap(lo) - s,)))
    if hi is not None:
        a.facts.append(SymBool("le", (s - _wrap(hi),)))
    return s


def sym_of(atom):
    return Sym(1, ((atom_pid(atom), 1),))


def rounded(x, bits=44):
    """Polynomial with coefficients rounded to a multiple of 2**-bits of the
    largest one (only used in numeric mode, where goals have tolerances)."""
    if not isinstance(x, Sym) or x.den_factors():
        return x
    poly = x.num_poly()
    top = max((abs(c) for c in poly.values()), default=0)
    if not top:
        return x
    unit = Fraction(2) ** (math.frexp(float(top))[1] - bits)
    out = {}
    for m, c in poly.items():
        q = round(Fraction(c) / unit) * unit
        if q:
            out[m] = _q(q)
    return _poly_to_sym(out)


_PI = None


def numeric():
    """Constants of transcendental functions as floating point numbers?"""
    return ENGINE is not None and getattr(ENGINE, "numeric", False)


def _flt(x):
    return Sym(rationalize(x), ())


def pi():
    if numeric():
        return _flt(math.pi)
    return _pi_symbol()


def _pi_symbol():
    global _PI
    if _PI is None:
        a = Atom("pi", "pi")
        a.numeric = math.pi
        s = sym_of(a)
        a.facts.append(SymBool("lt", (Sym(Fraction(314159265, 10**8)) - s,)))
        a.facts.append(SymBool("lt", (s - Sym(Fraction(314159266, 10**8)),)))
        _PI = s
    return _PI


def pi_atom():
    return ATOMS[POLYS[_pi_symbol().f[0][0]].__iter__().__next__()[0][0]]


def uf(name, *args, numeric=None, facts=None):
    """Uninterpreted application, interned on canonical arguments."""
    args = tuple(_wrap(a) for a in args)
    if any(a is None for a in args):
        raise Unsupported(f"argument of {name}")
    if any(a is NAN for a in args):
        return NAN
    key = (name,) + tuple(a.canonical() for a in args)
    s = _FN_TABLE.get(key)
    if s is None:
        a = Atom(f"{name}#{len(ATOMS)}", "fn", name, args)
        a.numeric = numeric
        s = sym_of(a)
        _FN_TABLE[key] = s
        if facts is not None:
            a.facts.extend(facts(s, args))
    return s


_PRIME_SQRT = {}


def _prime_factors(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def sqrt_int(n):
    r = math.isqrt(n)
    if r * r == n:
        return Sym(r)
    res = ONE
    for p, e in _prime_factors(n).items():
        res = res * Sym(p ** (e // 2))
        if e % 2:
            s = _PRIME_SQRT.get(p)
            if s is None:
                r = math.isqrt(p)
                if r * r == p:
                    s = Sym(r)
                else:
                    a = Atom(f"sqrt{p}", "sqrt", "sqrt", (Sym(p),))
                    a.power, a.rule = 2, {ONE_M: p}
                    s = sym_of(a)
                    a.facts.append(SymBool("lt", (-s,)))
                    # tight rational bounds help the solver
                    lo = Fraction(math.isqrt(p * 10**12), 10**6)
                    a.facts.append(SymBool("lt", (Sym(_q(lo)) - s,)))
                    a.facts.append(SymBool("lt", (s - Sym(_q(lo + Fraction(1, 10**6))),)))
                _PRIME_SQRT[p] = s
            res = res * s
    return res


def _sqrt_poly_atom(poly):
    """sqrt of an expanded polynomial (int-content kept inside)."""
    key = ("sqrt", frozenset(poly.items()))
    s = _FN_TABLE.get(key)
    if s is None:
        arg = _poly_to_sym(poly)
        a = Atom(f"sqrt#{len(ATOMS)}", "sqrt", "sqrt", (arg,))
        a.power, a.rule = 2, dict(poly)
        s = sym_of(a)
        a.facts.append(SymBool("le", (-s,)))
        _FN_TABLE[key] = s
    return s


def sym_sqrt(s):
    if s is NAN:
        return NAN
    if s.is_const():
        if s.c < 0:
            raise Undefined("square root of a negative constant")
        if numeric():
            return _flt(math.sqrt(s.c))
        f = Fraction(s.c)
        return sqrt_int(f.numerator * f.denominator) / Sym(f.denominator)
    eng = engine()
    out = ONE
    rest_c = s.c
    rest = []
    for pid, e in s.f:
        p = Sym(1, ((pid, 1),))
        half, odd = divmod(e, 2)
        if half:
            t = p ** half if half > 0 else (p.inverse() ** (-half))
            if half % 2:  # |p| needed
                sg = eng.known_sign(p)
                if sg is None:
                    sg = -1 if eng.branch(sign_bool("lt", p)) else 1
                if sg < 0:
                    t = -t
            out = out * t
        if odd:
            rest.append(p)
    split = []
    keep = []
    for p in rest:
        sg = eng.known_sign(p)
        if sg is not None and sg > 0:
            split.append(p)
        elif sg is not None and sg < 0:
            split.append(-p)
            rest_c = -rest_c
        else:
            keep.append(p)
    if not keep and rest_c < 0:
        raise Undefined("square root of a negative number")
    for p in split:
        out = out * _sqrt_poly_atom(p.num_poly())
    if keep:
        prod = Sym(1 if rest_c > 0 else -1)
        for p in keep:
            prod = prod * p
        eng.require(~to_bool(prod < 0), "square root of a negative number")
        out = out * _sqrt_poly_atom(prod.num_poly())
    f = abs(Fraction(rest_c))
    out = out * (sqrt_int(f.numerator * f.denominator) / Sym(f.denominator))
    return out


def floor_div_atom(x, y):
    """Integer k with x = y*k + r, 0 <= r < y (y > 0)."""
    if not y.is_const() or y.c <= 0:
        raise Unsupported("floor division by a non constant")
    key = ("floordiv", x.canonical(), y.canonical())
    s = _FN_TABLE.get(key)
    if s is None:
        a = Atom(f"k#{len(ATOMS)}", "fn", "floordiv", (x, y))
        a.integer = True
        a.numeric = lambda xv, yv: math.floor(xv / yv)
        s = sym_of(a)
        r = x - y * s
        a.facts.append(SymBool("le", (-r,)))
        a.facts.append(SymBool("lt", (r - y,)))
        _FN_TABLE[key] = s
    if ENGINE is not None and getattr(ENGINE, "fork_mod", False):
        return Sym(ENGINE.concretize_int(s))
    return s


# --- exponentials and logarithms


def _linear_terms(s):
    """Expanded terms [(coef, monomial)] when the denominator is a constant or
    monomial-free; otherwise None."""
    if s.den_factors():
        return None
    return [(c, m) for m, c in s.num_poly().items()]


def sym_exp(s):
    if s is NAN:
        return NAN
    if s.is_const() and s.c == 0:
        return ONE
    if s.is_const() and numeric():
        return _flt(math.exp(s.c))
    den = s.den_factors()
    num = s.num_poly()
    deninv = Sym(1, tuple(sorted((p, -e) for p, e in den)))
    out = ONE
    for m, c in sorted(num.items()):
        term = _normalise(1, [(atom_pid(ATOMS[a]), e) for a, e in m]) * deninv
        units = engine().exp_units.setdefault(term.key(), [])
        for unit in units:
            k = Fraction(c) / unit
            if k.denominator == 1:
                break
        else:
            unit = abs(Fraction(c))
            units.append(unit)
            k = Fraction(c) / unit
        base = uf(
            "exp",
            term * Sym(_q(unit)),
            numeric=math.exp,
            facts=lambda r, a: [
                SymBool("lt", (-r,)),
                # exp(x) >= 1 + x, exp(x) >= 1 iff x >= 0
                SymBool("le", (ONE + a[0] - r,)),
                b_iff(SymBool("le", (ONE - r,)), SymBool("le", (-a[0],))),
                b_iff(SymBool("le", (r - ONE,)), SymBool("le", (a[0],))),
            ],
        )
        out = out * base ** int(k)
    return out


def sym_log(s):
    if s is NAN:
        return NAN
    if s.is_const():
        if s.c <= 0:
            raise Undefined("log of a non positive number")
        if s.c == 1:
            return ZERO
    engine().require(to_bool(s > 0), "log of a non positive number")
    return uf("log", s, numeric=math.log)


# --- trigonometry


def _cheb(n, c):
    """T_n(c), U_{n-1}(c)."""
    t0, t1 = ONE, c
    u0, u1 = ZERO, ONE  # U_{-1}, U_0
    if n == 0:
        return ONE, ZERO
    for _ in range(n - 1):
        t0, t1 = t1, 2 * c * t1 - t0
        u0, u1 = u1, 2 * c * u1 - u0
    return t1, u1


def _pair(term_unit):
    """(cos, sin) atoms of a base angle."""
    key = ("trigpair", term_unit.canonical())
    pr = _FN_TABLE.get(key)
    if pr is None:
        ca = Atom(f"cos#{len(ATOMS)}", "cos", "cos", (term_unit,))
        sa = Atom(f"sin#{len(ATOMS)}", "sin", "sin", (term_unit,))
        c, s = sym_of(ca), sym_of(sa)
        sa.power, sa.rule = 2, (ONE - c * c).num_poly()
        ca.numeric, sa.numeric = math.cos, math.sin
        ca.pair = sa.pair = (ca, sa)
        ca.facts += [SymBool("le", (c - 1,)), SymBool("le", (-1 - c,))]
        sa.facts += [SymBool("le", (s - 1,)), SymBool("le", (-1 - s,))]
        pr = (c, s)
        _FN_TABLE[key] = pr
    return pr


# exact values at multiples of pi/12 would need more square roots; multiples
# of pi/6 and pi/4 are enough here.
def _const_trig(q):
    """cos, sin of q*pi for rational q."""
    q = Fraction(q) % 2
    table = {
        Fraction(0): (ONE, ZERO),
        Fraction(1, 6): (sqrt_int(3) / 2, Sym(Fraction(1, 2))),
        Fraction(1, 4): (sqrt_int(2) / 2, sqrt_int(2) / 2),
        Fraction(1, 3): (Sym(Fraction(1, 2)), sqrt_int(3) / 2),
        Fraction(1, 2): (ZERO, ONE),
    }
    n, r = divmod(q, Fraction(1, 2))
    if r not in table:
        return None
    c, s = table[r]
    for _ in range(int(n)):
        c, s = -s, c
    return c, s


def trig(x):
    if x is NAN:
        return NAN, NAN
    if x.is_const() and x.c == 0:
        return ONE, ZERO
    if x.is_const() and numeric():
        return _flt(math.cos(x.c)), _flt(math.sin(x.c))
    eng = engine()
    den = x.den_factors()
    deninv = Sym(1, tuple(sorted((p, -e) for p, e in den)))
    num = x.num_poly()
    rc, rs = ONE, ZERO
    pim = ((pi_atom().aid, 1),)
    for m, c in sorted(num.items()):
        if m == pim and not den:
            cs = _const_trig(c)
            if cs is None:
                unit = abs(Fraction(c))
                cc, ss = _pair(pi() * Sym(_q(unit)))
                if c < 0:
                    ss = -ss
            else:
                cc, ss = cs
        else:
            term = _normalise(1, [(atom_pid(ATOMS[a]), e) for a, e in m]) * deninv
            known = eng.angle_values.setdefault(term.key(), [])
            if not known and len(m) == 1 and m[0][1] == 1 and not den:
                a = ATOMS[m[0][0]]
                if a.cosine is not None:
                    known.append((Fraction(1), a.cosine, a.sine))
            for unit, cb, sb in known:
                k = Fraction(c) / unit
                if k.denominator == 1:
                    break
            else:
                got = None
                if known:
                    unit, cb, sb = known[0]
                    got = _sub_angle(term, unit, cb, sb, (Fraction(c) / unit).denominator)
                if got is None:
                    # no common unit: an independent pair (over-approximation)
                    unit = abs(Fraction(c))
                    got = (unit, *_pair(term * Sym(_q(unit))))
                    known.append(got)
                unit, cb, sb = got
                k = Fraction(c) / unit
            n = abs(int(k))
            tn, un = _cheb(n, cb)
            cc, ss = tn, sb * un
            if k < 0:
                ss = -ss
        rc, rs = rc * cc - rs * ss, rs * cc + rc * ss
    return rc, rs


def _sub_angle(term, unit, cb, sb, k):
    """Pair for (unit/k)*term given the pair of unit*term, for an angle atom
    with a declared range (arccos: [0, pi])."""
    a = None
    if len(term.f) == 1:
        a = _atom_of_pid(term.f[0][0])
    if a is None or a.fn != "arccos" or k not in (2, 3):
        return None
    key = ("subangle", a.aid, k)
    got = _FN_TABLE.get(key)
    if got is None:
        ca = Atom(f"cosdiv{k}#{len(ATOMS)}", "fn", f"cosdiv{k}", (cb,))
        sa = Atom(f"sindiv{k}#{len(ATOMS)}", "fn", f"sindiv{k}", (cb,))
        c, s = sym_of(ca), sym_of(sa)
        ca.numeric = lambda v, k=k: math.cos(math.acos(max(-1, min(1, v))) / k)
        sa.numeric = lambda v, k=k: math.sin(math.acos(max(-1, min(1, v))) / k)
        tk, _ = _cheb(k, c)
        ca.facts.append(SymBool("eq", (tk - cb,)))
        ca.facts.append(SymBool("le", (c - 1,)))
        # theta/k in [0, pi/k]
        ca.facts.append(SymBool("le", (Sym(0 if k == 2 else Fraction(1, 2)) - c,)))
        sa.facts.append(SymBool("le", (-s,)))
        if not cb.den_factors():
            # c**3 -> (cb + 3c)/4
            ca.power = k
            rule = (cb + 3 * c) / 4 if k == 3 else (cb + 1) / 2
            ca.rule = rule.num_poly()
        sa.power, sa.rule = 2, (ONE - c * c).num_poly()
        got = (c, s)
        _FN_TABLE[key] = got
    return (Fraction(unit) / k, got[0], got[1])


def _angle_atom(name, args, cosine, sine, numeric, facts):
    key = (name,) + tuple(a.canonical() for a in args)
    # an angle in (-pi, pi] is given by its cosine and sine
    key2 = ("angle", cosine.canonical(), sine.canonical())
    s = _FN_TABLE.get(key)
    if s is None:
        s = _FN_TABLE.get(key2)
    if s is None:
        a = Atom(f"{name}#{len(ATOMS)}", "fn", name, args)
        a.numeric = numeric
        s = _FN_TABLE[key2] = sym_of(a)
        a.cosine, a.sine = cosine, sine
        a.facts.extend(facts(s))
        _FN_TABLE[key] = s
    return s


def sym_arctan2(y, x):
    if y is NAN or x is NAN:
        return NAN
    eng = engine()
    r2 = x * x + y * y
    if bool(r2 == 0):
        return ZERO  # numpy: arctan2(0, 0) = 0 (signed zeros not modelled)
    r = sym_sqrt(r2)
    if r.is_const() or eng.known_sign(r) is None:
        eng.add_fact(to_bool(r > 0))

    def facts(t):
        p = pi()
        return [
            to_bool(t <= p), to_bool(t > -p),
            b_iff(to_bool(t >= 0), to_bool(y >= 0)) if True else TRUE,
            b_iff(to_bool(t == 0), b_and(to_bool(y == 0), to_bool(x > 0))),
            b_iff(b_and(to_bool(2 * t <= p), to_bool(2 * t >= -p)), to_bool(x >= 0)),
            b_iff(b_and(to_bool(2 * t < p), to_bool(2 * t > -p)), to_bool(x > 0)),
        ]

    return _angle_atom("arctan2", (y, x), x / r, y / r, math.atan2, facts)


def sym_arctan(t):
    if t is NAN:
        return NAN
    if t.is_const() and t.c == 0:
        return ZERO
    if t.is_const() and numeric():
        return _flt(math.atan(t.c))
    r = sym_sqrt(1 + t * t)
    return _angle_atom(
        "arctan", (t,), ONE / r, t / r, math.atan,
        lambda a: [
            to_bool(2 * a < pi()), to_bool(2 * a > -pi()),
            b_iff(to_bool(a > 0), to_bool(t > 0)),
            b_iff(to_bool(a < 0), to_bool(t < 0)),
        ],
    )


def sym_arcsin(v):
    if v is NAN:
        return NAN
    engine().require(b_and(to_bool(v <= 1), to_bool(v >= -1)), "arcsin domain")
    c = sym_sqrt(1 - v * v)
    return _angle_atom(
        "arcsin", (v,), c, v, math.asin,
        lambda a: [
            to_bool(2 * a <= pi()), to_bool(2 * a >= -pi()),
            b_iff(to_bool(a > 0), to_bool(v > 0)),
            b_iff(to_bool(a < 0), to_bool(v < 0)),
        ],
    )


def sym_arccos(v):
    if v is NAN:
        return NAN
    if v.is_const():
        if v.c == 1:
            return ZERO
        if v.c == 0:
            return pi() / 2
        if v.c == -1:
            return pi()
        if numeric() and -1 <= v.c <= 1:
            return _flt(math.acos(v.c))
    engine().require(b_and(to_bool(v <= 1), to_bool(v >= -1)), "arccos domain")
    s = sym_sqrt(1 - v * v)
    return _angle_atom(
        "arccos", (v,), v, s, math.acos,
        lambda a: [
            to_bool(a <= pi()), to_bool(a >= 0),
            b_iff(to_bool(a == 0), to_bool(v == 1)),
            b_iff(to_bool(2 * a < pi()), to_bool(v > 0)),
        ],
    )


# ---------------------------------------------------------------- derivatives


def diff(s, var):
    """Exact derivative of an expression with respect to a variable."""
    if not isinstance(s, Sym) or s is NAN:
        raise Unsupported("derivative of something that is not a number")
    want = _atom_of_pid(var.f[0][0]).aid
    memo = {}

    def d_poly(poly):
        out = ZERO
        for m, c in poly.items():
            for k, (aid, e) in enumerate(m):
                da = d_atom(aid)
                if da.is_const() and da.c == 0:
                    continue
                rest = [(atom_pid(ATOMS[b]), f) for i, (b, f) in enumerate(m) if i != k]
                if e > 1:
                    rest.append((atom_pid(ATOMS[aid]), e - 1))
                out = out + Sym(_q(Fraction(c) * e)) * _normalise(1, rest) * da
        return out

    def d_sym(x):
        out = ZERO
        for k, (pid, e) in enumerate(x.f):
            dp = d_poly(POLYS[pid])
            if dp.is_const() and dp.c == 0:
                continue
            rest = [f for i, f in enumerate(x.f) if i != k]
            if e != 1:
                rest.append((pid, e - 1))
            out = out + Sym(_q(Fraction(x.c) * e)) * Sym(1, tuple(sorted(rest))) * dp
        return out

    def d_atom(aid):
        if aid in memo:
            return memo[aid]
        a = ATOMS[aid]
        if aid == want:
            r = ONE
        elif a.kind in ("var", "pi"):
            r = ZERO
        elif a.fn == "sqrt":
            r = d_sym(a.args[0]) / (2 * sym_of(a))
        elif a.fn in ("cos", "sin"):
            c, sn = (sym_of(v) for v in a.pair)
            t = d_sym(a.args[0])
            r = -sn * t if a.fn == "cos" else c * t
        elif a.cosine is not None:
            r = a.cosine * d_sym(a.sine) - a.sine * d_sym(a.cosine)
        elif a.fn == "log":
            r = d_sym(a.args[0]) / a.args[0]
        elif a.fn == "exp":
            r = sym_of(a) * d_sym(a.args[0])
        elif a.fn in ("scipy.ellipkinc", "scipy.ellipeinc"):
            phi, k = a.args
            if not zero(d_sym(k)):
                raise Unsupported("derivative with respect to the modulus")
            w = sym_sqrt(1 - k * trig(phi)[1] ** 2)
            r = d_sym(phi) * (w if a.fn == "scipy.ellipeinc" else 1 / w)
        elif all(zero(d_sym(v)) for v in a.args):
            r = ZERO
        else:
            raise Unsupported(f"derivative of {a.fn}")
        memo[aid] = r
        return r

    def zero(x):
        return x.is_const() and x.c == 0

    return d_sym(s)
