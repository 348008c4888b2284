"""
Path exploration and the SMT back end.

The harness is executed again for every path (deterministic re-execution from
a list of decisions).  ``Engine.branch`` asks the solver which outcomes of a
symbolic condition are possible on the current path and schedules the other
one.  ``Engine.prove`` asks for ``path and not property``.
"""
import itertools
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import core
from .core import (
    ATOMS, NAN, POLYS, Infeasible, Sym, SymBool, Undefined, Unsupported,
    b_not, sign_bool, sym_of, to_bool,
)


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.normalised = 0
        self.proved = 0
        self.infeasible = 0
        self.fallback_used = {}

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            if k == "fallback_used":
                for kk, vv in v.items():
                    self.fallback_used[kk] = self.fallback_used.get(kk, 0) + vv
            else:
                setattr(self, k, getattr(self, k) + v)


class Translator:
    """Sym/SymBool -> z3 over the atoms of the current path."""

    def __init__(self, engine):
        self.engine = engine
        self.vars = {}
        self.polys = {}
        self.bools = {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = ATOMS[aid]
            nm = f"{a.name}!{aid}"
            v = z3.Int(nm) if a.integer else z3.Real(nm)
            self.vars[aid] = v
        return v

    def num(self, c):
        if isinstance(c, Fraction):
            return z3.RealVal(f"{c.numerator}/{c.denominator}")
        return z3.RealVal(c)

    def poly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(self.num(c))
            for aid, e in m:
                v = self.var(aid)
                if v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                fs.extend([v] * e)
            t = fs[0]
            if len(fs) > 1:
                t = z3.Product(fs) if len(fs) > 2 else fs[0] * fs[1]
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def pid(self, pid):
        v = self.polys.get(pid)
        if v is None:
            v = self.poly(POLYS[pid])
            self.polys[pid] = v
        return v

    def compare(self, op, d):
        if d.is_const():
            c = d.c
            return z3.BoolVal({"lt": c < 0, "le": c <= 0, "eq": c == 0}[op])
        odd = [p for p, e in d.f if e % 2]
        even = [p for p, e in d.f if e % 2 == 0]
        pos_even = [p for p in even if dict(d.f)[p] > 0]
        zero_able = [p for p, e in d.f if e > 0]
        if op == "eq":
            if not zero_able:
                return z3.BoolVal(False)
            return z3.Or([self.pid(p) == 0 for p in zero_able])
        neg = d.c < 0
        if len(odd) <= 3:
            # negative iff an odd number of negative factors (xor sign of c)
            if not odd:
                lt = z3.BoolVal(neg)
            else:
                combos = []
                for signs in itertools.product((1, -1), repeat=len(odd)):
                    prod = -1 if neg else 1
                    for s in signs:
                        prod *= s
                    if prod < 0:
                        combos.append(z3.And([
                            (self.pid(p) > 0) if s > 0 else (self.pid(p) < 0)
                            for p, s in zip(odd, signs)
                        ]))
                lt = z3.Or(combos)
        else:
            prod = z3.Product([self.pid(p) for p in odd])
            lt = prod > 0 if neg else prod < 0
        if pos_even:
            lt = z3.And(lt, *[self.pid(p) != 0 for p in pos_even])
        if op == "lt":
            return lt
        if len(odd) == 1 and not pos_even and dict(d.f)[odd[0]] > 0:
            return (self.pid(odd[0]) >= 0) if neg else (self.pid(odd[0]) <= 0)
        return z3.Or(lt, *[self.pid(p) == 0 for p in zero_able])

    def boolean(self, b):
        b = to_bool(b)
        k = b.key()
        v = self.bools.get(k)
        if v is None:
            v = self._boolean(b)
            self.bools[k] = v
        return v

    def _boolean(self, b):
        if b.op in ("lt", "le", "eq"):
            return self.compare(b.op, b.args[0])
        if b.op == "and":
            return z3.And([self.boolean(a) for a in b.args])
        if b.op == "or":
            return z3.Or([self.boolean(a) for a in b.args])
        if b.op == "not":
            return z3.Not(self.boolean(b.args[0]))
        if b.op == "var":
            return z3.Bool(b.args[0])
        if b.op == "const":
            return z3.BoolVal(b.args[0])
        raise Unsupported(b.op)


def bool_atoms(b, out, seen):
    b = to_bool(b)
    if id(b) in seen:
        return
    seen[id(b)] = b
    if b.op in ("lt", "le", "eq"):
        for pid, _ in b.args[0].f:
            for m in POLYS[pid]:
                for aid, _e in m:
                    out.add(aid)
    elif b.op == "var":
        out.add("b:" + str(b.args[0]))
    elif b.op != "const":
        for a in b.args:
            bool_atoms(a, out, seen)


def _sym_atoms(s, out):
    for pid, _ in s.f:
        for m in POLYS[pid]:
            for aid, _e in m:
                out.add(aid)


class Engine:
    def __init__(
        self, query_timeout=5.0, prove_timeout=20.0, max_paths=400,
        domain="check", seed=1, use_cvc5=True, deadline=None, light=False,
    ):
        self.light = light
        self.query_timeout = query_timeout
        self.prove_timeout = prove_timeout
        self.max_paths = max_paths
        self.domain = domain
        self.seed = seed
        self.use_cvc5 = use_cvc5
        self.deadline = deadline
        self.stats = Stats()
        self.assumed_domains = {}
        self.truncated = None
        self.pending = []

    # ---------------------------------------------------------------- paths
    def explore(self, run):
        """``run(engine)`` is executed once per path; yields its results."""
        self.pending = [[]]
        results = []
        while self.pending:
            if self.stats.paths >= self.max_paths:
                self.truncated = f"stopped after {self.stats.paths} paths"
                break
            if self.deadline and time.time() > self.deadline:
                self.truncated = f"time limit after {self.stats.paths} paths"
                break
            prefix = self.pending.pop()
            self.begin(prefix)
            core.ENGINE = self
            try:
                try:
                    res = run(self)
                except Infeasible:
                    self.stats.infeasible += 1
                    continue
                self.stats.paths += 1
                results.append(res)
                if res is STOP:
                    break
            finally:
                core.ENGINE = None
        return results

    def begin(self, prefix):
        core.reset()
        self.prefix = list(prefix)
        self.decisions = []
        self.path = []  # SymBools
        self.known = {}
        self.sign_cache = {}
        self.exp_units = {}
        self.angle_values = {}
        self.inputs = {}
        self.tr = Translator(self)
        self.fresh = 0
        self.atoms_cache = {}

    # ------------------------------------------------------------ conditions
    def add_fact(self, b):
        b = to_bool(b)
        if b.op == "const":
            if not b.args[0]:
                raise Infeasible
            return
        self.path.append(b)
        self.known[b.key()] = True
        self.known[b_not(b).key()] = False
        if b.op == "and":
            for a in b.args:
                self.known[a.key()] = True
                self.known[b_not(a).key()] = False

    def assume(self, b):
        b = to_bool(b)
        if b.op == "const":
            if not b.args[0]:
                raise Infeasible
            return
        if self._lookup(b) is True:
            return
        if b.op == "and":
            for a in b.args:
                self.assume(a)
            return
        self.add_fact(b)
        self._assumed = True

    def _lookup(self, b):
        k = b.key()
        return self.known.get(k)

    def branch(self, b):
        b = to_bool(b)
        if b.op == "const":
            return b.args[0]
        v = self._lookup(b)
        if v is not None:
            return v
        if b.op == "not":
            return not self.branch(b.args[0])
        if b.op in ("and", "or"):
            # short circuit on already known parts
            rest = []
            for a in b.args:
                va = a.args[0] if a.op == "const" else self._lookup(a)
                if va is None:
                    rest.append(a)
                elif va is (b.op == "or"):
                    return va
            if not rest:
                return b.op == "and"
            if len(rest) < len(b.args):
                b = rest[0] if len(rest) == 1 else SymBool(b.op, tuple(rest))
                return self.branch(b)
        i = len(self.decisions)
        if i < len(self.prefix):
            taken = self.prefix[i]
        else:
            self.stats.branches += 1
            f = self.feasible(b)
            if f is False:
                taken = False
            else:
                g = self.feasible(b_not(b))
                if g is False:
                    if f is None and False:
                        pass
                    taken = True
                else:
                    taken = True
                    self.pending.append(self.decisions + [False])
        self.decisions.append(taken)
        self.add_fact(b if taken else b_not(b))
        return taken

    def require(self, b, what):
        b = to_bool(b)
        if b.op == "const":
            if not b.args[0]:
                raise Undefined(what)
            return
        if self.domain == "assume":
            if self._lookup(b) is None:
                self.assumed_domains[what] = self.assumed_domains.get(what, 0) + 1
                self.add_fact(b)
            return
        v = self._lookup(b)
        if v is True:
            return
        if v is False:
            raise Undefined(what)
        i = len(self.decisions)
        if i < len(self.prefix):
            taken = self.prefix[i]
        else:
            self.stats.branches += 1
            g = self.feasible(b_not(b))
            taken = True
            if g is None:
                self.assumed_domains[what + " (solver unknown)"] = (
                    self.assumed_domains.get(what + " (solver unknown)", 0) + 1
                )
            elif g is True:
                f = self.feasible(b)
                if f is False:
                    taken = False
                else:
                    self.pending.append(self.decisions + [False])
        self.decisions.append(taken)
        self.add_fact(b if taken else b_not(b))
        if not taken:
            raise Undefined(what)

    def require_nonzero(self, s):
        for pid, e in s.f:
            if e < 0:
                continue
            p = Sym(1, ((pid, 1),))
            b = sign_bool("eq", p)
            if self._lookup(b) is False:
                continue
            sg = self.syntactic_sign(pid)
            if sg in (1, -1):
                self.known[b.key()] = False
                continue
            if self.sign_cache.get(pid, (None,))[0] in (1, -1):
                self.known[b.key()] = False
                continue
            self.require(b_not(b), "division by zero")

    # ------------------------------------------------------------------ signs
    def _atom_sign(self, aid):
        """sign known syntactically: 1 (>0), 0.5 (>=0), -1, -0.5, None."""
        a = ATOMS[aid]
        if a.kind == "pi":
            return 1
        if a.kind == "fn" and a.fn == "exp":
            return 1
        if a.kind == "sqrt":
            if a.args[0].is_const():
                return 1
            s = self.known.get(sign_bool("eq", sym_of(a)).key())
            arg = a.args[0]
            if s is False:
                return 1
            sg = self.known_sign_cached(arg)
            return 1 if sg == 1 else 0.5
        s = sym_of(a)
        if self.known.get(sign_bool("lt", -s).key()) is True:
            return 1
        if self.known.get(sign_bool("lt", s).key()) is True:
            return -1
        if a.lo is not None and a.lo > 0:
            return 1
        if a.hi is not None and a.hi < 0:
            return -1
        if a.lo is not None and a.lo >= 0:
            return 0.5
        if a.hi is not None and a.hi <= 0:
            return -0.5
        return None

    def known_sign_cached(self, s):
        sg = 1 if s.c > 0 else -1
        if s.is_const():
            return sg if s.c != 0 else None
        for pid, e in s.f:
            if e % 2 == 0:
                continue
            p = self.syntactic_sign(pid)
            if p not in (1, -1):
                p = self.sign_cache.get(pid, (None, 0))[0]
            if p not in (1, -1):
                return None
            sg *= p
        return sg

    def syntactic_sign(self, pid):
        p = POLYS[pid]
        cached = self.sign_cache.get(("syn", pid))
        if cached in (1, -1):
            return cached
        if len(p) == 1:
            ((m, c),) = p.items()
            sg = 1 if c > 0 else -1
            for aid, e in m:
                s = self._atom_sign(aid)
                if e % 2 == 0 and s is None:
                    return None
                if s not in (1, -1):
                    return None
                if e % 2:
                    sg *= s
            self.sign_cache[("syn", pid)] = sg
            return sg
        strict = False
        sign = None
        for m, c in p.items():
            sg = 1 if c > 0 else -1
            st = True
            for aid, e in m:
                s = self._atom_sign(aid)
                if e % 2 == 0:
                    if s not in (1, -1):
                        st = False
                    continue
                if s is None:
                    return None
                sg *= 1 if s > 0 else -1
                if s not in (1, -1):
                    st = False
            if sign is None:
                sign = sg
            elif sign != sg:
                return None
            strict = strict or st
        if strict:
            self.sign_cache[("syn", pid)] = sign
            return sign
        return None

    def known_sign(self, s):
        if s.is_const():
            return 1 if s.c > 0 else (-1 if s.c < 0 else None)
        sg = 1 if s.c > 0 else -1
        for pid, e in s.f:
            if e % 2 == 0:
                continue
            p = self.syntactic_sign(pid)
            if p not in (1, -1):
                p = self._query_sign(pid)
            if p is None:
                return None
            sg *= p
        return sg

    def _query_sign(self, pid):
        got = self.sign_cache.get(pid)
        if got is not None and (got[0] is not None or got[1] == len(self.path)):
            return got[0]
        p = Sym(1, ((pid, 1),))
        kneg = self.known.get(sign_bool("lt", p).key())
        kpos = self.known.get(sign_bool("lt", -p).key())
        if kneg is True:
            r = -1
        elif kpos is True:
            r = 1
        else:
            # replays must be deterministic: the answer is a decision
            i = len(self.decisions)
            if i < len(self.prefix):
                r = self.prefix[i]
            else:
                r = None
                if self.feasible(sign_bool("le", p)) is False:
                    r = 1
                elif self.feasible(sign_bool("le", -p)) is False:
                    r = -1
            self.decisions.append(r)
        self.sign_cache[pid] = (r, len(self.path))
        if r is not None:
            self.known[sign_bool("eq", p).key()] = False
            self.known[sign_bool("lt", p).key()] = r < 0
            self.known[sign_bool("lt", -p).key()] = r > 0
        return r

    # ----------------------------------------------------------- integers
    def concretize_int(self, s):
        """Fork over the integer values of ``s`` (must be bounded)."""
        for v in itertools.count():
            if v > 64:
                raise Unsupported("integer concretisation needs a small range")
            for w in ([0] if v == 0 else [v, -v]):
                c = s == w
                if c is True or (isinstance(c, SymBool) and self.branch(c)):
                    return w

    # -------------------------------------------------------------- queries
    def _atoms_of(self, b):
        k = id(b)
        got = self.atoms_cache.get(k)
        if got is None:
            out = set()
            bool_atoms(b, out, {})
            got = (b, self._closure(out))
            self.atoms_cache[k] = got
        return got[1]

    def _closure(self, atoms):
        todo = list(atoms)
        seen = set(atoms)
        while todo:
            aid = todo.pop()
            if isinstance(aid, str):
                continue
            a = ATOMS[aid]
            new = set()
            for fct in a.facts:
                bool_atoms(fct, new, {})
            if a.rule is not None:
                for m in a.rule:
                    for x, _ in m:
                        new.add(x)
            if a.kind in ("sqrt", "fn", "cos", "sin"):
                for g in a.args:
                    if isinstance(g, Sym) and g is not NAN:
                        _sym_atoms(g, new)
            for x in new:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def light_assertions(self, goal):
        """Goal and the path conditions over the same atoms, with almost no
        facts about the atoms (fewer constraints: only unsat counts)."""
        goal = to_bool(goal)
        rel = set()
        bool_atoms(goal, rel, {})
        out = [self.tr.boolean(goal)]
        for b in self.path:
            at = self._direct_atoms(b)
            if at and at <= rel:
                out.append(self.tr.boolean(b))
        for aid in rel:
            if isinstance(aid, str):
                continue
            a = ATOMS[aid]
            for f in a.facts:
                if self._direct_atoms(f) <= rel:
                    out.append(self.tr.boolean(f))
        return out

    def _direct_atoms(self, b):
        k = ("direct", id(b))
        got = self.atoms_cache.get(k)
        if got is None:
            out = set()
            bool_atoms(b, out, {})
            got = (b, out)
            self.atoms_cache[k] = got
        return got[1]

    def assertions(self, goal, everything=False):
        """z3 assertions: goal, relevant path conditions, atom facts."""
        goal = to_bool(goal)
        rel = set(self._atoms_of(goal))
        chosen = []
        rest = list(self.path)
        if everything:
            chosen = rest
            for b in rest:
                rel |= self._atoms_of(b)
        else:
            changed = True
            hub = {core._PI.f[0][0]} if False else set()
            while changed:
                changed = False
                nxt = []
                for b in rest:
                    at = self._atoms_of(b)
                    if (at - hub) & rel:
                        chosen.append(b)
                        if not at <= rel:
                            rel |= at
                            changed = True
                    else:
                        nxt.append(b)
                rest = nxt
        out = [self.tr.boolean(goal)]
        out += [self.tr.boolean(b) for b in chosen]
        done = set()
        fns = {}
        todo = [x for x in rel if not isinstance(x, str)]
        while todo:
            aid = todo.pop()
            if aid in done:
                continue
            done.add(aid)
            a = ATOMS[aid]
            for fct in a.facts:
                out.append(self.tr.boolean(fct))
                for x in self._atoms_of(fct):
                    if not isinstance(x, str) and x not in done:
                        todo.append(x)
            if a.rule is not None:
                v = self.tr.var(aid)
                out.append(
                    z3.Product([v] * a.power) == self.tr.poly(a.rule)
                )
                for m in a.rule:
                    for x, _ in m:
                        if x not in done:
                            todo.append(x)
            if a.kind in ("fn",) and a.fn is not None:
                fns.setdefault((a.fn, len(a.args)), []).append(a)
        # congruence of function applications
        for (_fn, _n), group in fns.items():
            for a, b in itertools.combinations(group, 2):
                ck = ("cong", a.aid, b.aid)
                if ck in self.atoms_cache:
                    if self.atoms_cache[ck] is not None:
                        out.append(self.atoms_cache[ck])
                    continue
                self.atoms_cache[ck] = None
                conds = []
                dead = False
                for x, y in zip(a.args, b.args):
                    if not isinstance(x, Sym):
                        if x != y:
                            dead = True
                            break
                        continue
                    d = x - y
                    if d.is_const():
                        if d.c != 0:
                            dead = True
                            break
                        continue
                    conds.append(self.tr.compare("eq", d))
                if dead:
                    continue
                eq = self.tr.var(a.aid) == self.tr.var(b.aid)
                self.atoms_cache[ck] = z3.Implies(z3.And(conds), eq) if conds else eq
                out.append(self.atoms_cache[ck])
        return out

    def feasible(self, goal):
        """True / False / None for  path and goal."""
        if self.light:
            g = to_bool(goal)
            if g.op == "const":
                return g.args[0]
            return False if self.light_unsat(g, min(1.0, self.query_timeout)) else True
        r, _ = self.check(goal, self.query_timeout, want_model=False)
        return r

    def light_unsat(self, goal, timeout):
        self.stats.queries += 1
        t0 = time.time()
        try:
            s = z3.SolverFor("QF_NRA") if not any(a.integer for a in ATOMS) else z3.Solver()
            s.set("timeout", int(timeout * 1000))
            s.add(*self.light_assertions(goal))
            r = s.check()
        except (z3.Z3Exception, Undefined):
            r = z3.unknown
        finally:
            self.stats.solver_time += time.time() - t0
        self._count(False if r == z3.unsat else (True if r == z3.sat else None))
        if r == z3.unsat:
            self._note("z3-light", 0)
        return r == z3.unsat

    def check(self, goal, timeout, want_model=True, everything=False):
        goal = to_bool(goal)
        if goal.op == "const" and not goal.args[0]:
            return False, None
        try:
            asserts = self.assertions(goal, everything)
        except Undefined:
            return None, None
        self.stats.queries += 1
        t0 = time.time()
        try:
            return self._solve(asserts, timeout, want_model)
        finally:
            self.stats.solver_time += time.time() - t0

    def confirm_equal(self, a, b):
        """Ask the solver for  path and a != b  where a and b have the same
        normal form.  True if it answers unsat."""
        size = sum(len(POLYS[p]) * abs(e) for s in (a, b) for p, e in s.f)
        if size > 4000:
            return False
        atoms = set()
        _sym_atoms(a, atoms)
        _sym_atoms(b, atoms)
        t = self.tr

        def half(s, sign):
            fs = [t.pid(p) for p, e in s.f for _ in range(abs(e)) if e * sign > 0]
            return fs

        ca, cb = Fraction(a.c), Fraction(b.c)
        left = [t.num(core._q(ca))] + half(a, 1) + half(b, -1)
        right = [t.num(core._q(cb))] + half(b, 1) + half(a, -1)
        out = [z3.Product(left) != z3.Product(right)]
        for aid in atoms:
            at = ATOMS[aid]
            if at.rule is not None:
                out.append(z3.Product([t.var(aid)] * at.power) == t.poly(at.rule))
        self.stats.queries += 1
        t0 = time.time()
        try:
            s = z3.SimpleSolver()
            s.set("timeout", 1500)
            s.add(*out)
            r = s.check() == z3.unsat
        except z3.Z3Exception:
            r = False
        finally:
            self.stats.solver_time += time.time() - t0
        self._count(False if r else None)
        if not r:
            self.stats.unknown -= 1
            self.stats.queries -= 1
        return r

    def _count(self, r):
        if r is True:
            self.stats.sat += 1
        elif r is False:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1

    def _solve(self, asserts, timeout, want_model):
        ints = any(
            a.integer for a in ATOMS
        )
        plans = []
        if ints:
            plans = [("z3", z3.Solver, 1.0)]
        else:
            plans = [
                ("z3-qfnra", lambda: z3.SolverFor("QF_NRA"), 0.45),
                ("z3-smt", z3.SimpleSolver, 0.25),
                ("z3-nlsat", lambda: z3.Tactic("qfnra-nlsat").solver(), 0.3),
            ]
        for i, (name, mk, frac) in enumerate(plans):
            s = mk()
            s.set("timeout", max(200, int(timeout * frac * 1000)))
            if name == "z3-nlsat":
                g = z3.Goal()
                g.add(*asserts)
                try:
                    sub = z3.Then("simplify", "tseitin-cnf")(g)[0]
                    s.add(*[sub[k] for k in range(len(sub))])
                except z3.Z3Exception:
                    continue
            else:
                s.add(*asserts)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                self._note(name, i)
                self._count(False)
                return False, None
            if r == z3.sat:
                self._note(name, i)
                self._count(True)
                return True, (s.model() if want_model else None)
        if self.use_cvc5 and timeout >= 10:
            r = self._cvc5(asserts, timeout)
            if r is False:
                self._note("cvc5", 9)
                self._count(False)
                return False, None
        self._count(None)
        return None, None

    def _note(self, name, i):
        self.stats.fallback_used[name] = self.stats.fallback_used.get(name, 0) + 1

    def _cvc5(self, asserts, timeout):
        s = z3.Solver()
        s.add(*asserts)
        text = "(set-logic ALL)\n" + s.to_smt2().replace("(set-logic QF_NRA)", "")
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
                fh.write(text)
                fh.flush()
                out = subprocess.run(
                    ["cvc5", f"--tlimit={int(timeout * 1000)}", fh.name],
                    capture_output=True, text=True, timeout=timeout + 5,
                )
        except (OSError, subprocess.TimeoutExpired):
            return None
        first = out.stdout.strip().splitlines()[:1]
        if "(error" in out.stdout:
            return None
        return False if first == ["unsat"] else None

    # --------------------------------------------------------------- models
    def value(self, model, atom):
        v = model.eval(self.tr.var(atom.aid), model_completion=True)
        return z3_to_fraction(v)

    def input_model(self, model):
        out = {}
        for name, (kind, obj) in self.inputs.items():
            if kind == "bool":
                out[name] = z3.is_true(model.eval(z3.Bool(name), model_completion=True))
            else:
                atom = ATOMS[next(iter(POLYS[obj.f[0][0]]))[0][0]]
                v = self.value(model, atom)
                out[name] = v
        return out

    def witnesses(self, goal, count=3, timeout=None, rng=None):
        """Concrete input assignments satisfying path and goal: values are
        pinned one by one to randomly chosen simple rationals when possible."""
        timeout = timeout or self.query_timeout
        rng = rng or random.Random(self.seed)
        goal = to_bool(goal)
        try:
            asserts = self.assertions(goal, everything=True)
        except Undefined:
            return []
        # facts of inputs that appear nowhere
        for name, (kind, obj) in self.inputs.items():
            if kind != "bool":
                a = ATOMS[next(iter(POLYS[obj.f[0][0]]))[0][0]]
                asserts += [self.tr.boolean(f) for f in a.facts]
        out = []
        t_end = time.time() + timeout * 4
        for k in range(count):
            m = self._pinned(asserts, rng, timeout, t_end, pin=True)
            if m is None and k == 0:
                m = self._pinned(asserts, rng, timeout, t_end, pin=False)
            if m is not None:
                out.append(m)
            if time.time() > t_end:
                break
        return out

    def _check_model(self, asserts, timeout):
        self.stats.queries += 1
        t0 = time.time()
        try:
            return self._solve(asserts, timeout, True)
        finally:
            self.stats.solver_time += time.time() - t0

    def _pinned(self, asserts, rng, timeout, t_end, pin):
        r, model = self._check_model(asserts, timeout)
        if r is not True:
            return None
        best = self.input_model(model)
        if not pin:
            return best
        names = [n for n, (k, _) in self.inputs.items()]
        rng.shuffle(names)
        extra = []
        # first: pin everything at once to random values
        def rand_value(name):
            kind, obj = self.inputs[name]
            if kind == "bool":
                return rng.random() < 0.5
            a = ATOMS[next(iter(POLYS[obj.f[0][0]]))[0][0]]
            lo = a.lo if a.lo is not None else -10
            hi = a.hi if a.hi is not None else 10
            lo = max(Fraction(lo), -10**9)
            hi = min(Fraction(hi), 10**9)
            if a.integer:
                return Fraction(rng.randint(int(lo), int(hi)))
            if hi - lo > 20 and lo >= 0:
                hi = lo + 20
            f = Fraction(rng.randint(3, 61), 64)
            if getattr(self, "fine", False):  # more digits than single precision has
                f += Fraction(rng.getrandbits(30) * 2 + 1, 2 ** 36)
            return lo + (hi - lo) * f

        def eq(name, v):
            kind, obj = self.inputs[name]
            if kind == "bool":
                return z3.Bool(name) == v
            return self.tr.compare("eq", obj - Sym(core._q(v)))

        trial = {n: rand_value(n) for n in names}
        r, model = self._check_model(
            asserts + [eq(n, trial[n]) for n in names], min(timeout, 2)
        )
        if r is True:
            return self.input_model(model)
        for n in names:
            if time.time() > t_end:
                break
            c = eq(n, trial[n])
            r, model = self._check_model(asserts + extra + [c], min(timeout, 1))
            if r is True:
                extra.append(c)
                best = self.input_model(model)
        return best


class _Stop:
    pass


STOP = _Stop()


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)
