"""Dynamic symbolic execution engine over z3.

A *path* is one native execution of the (AST-instrumented) real fauxdoc code
with proxy values.  Every branch on a symbolic condition is decided here: both
sides are tested for satisfiability by the solver and the side not taken is
queued as a decision prefix, so the set of explored paths covers every value
within the stated bounds.
"""
import time
from fractions import Fraction

import z3


PATH_S = 20           # seconds before a path counts as one that may not end


class Ctl(BaseException):
    """Base of control exceptions (never caught by code under test)."""


class PathAbort(Ctl):
    """The path is infeasible (assumption false)."""


class Gap(Ctl):
    """The path needs something the encoding does not support."""


class Hang(Ctl):
    """Fuel exhausted."""


class Violation(Ctl):
    """A property assertion can fail on this path."""

    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Stats:
    FIELDS = ('paths', 'decisions', 'forks', 'queries', 'q_sat', 'q_unsat',
              'q_unknown', 'obligations', 'obl_solver', 'obl_path',
              'inconclusive', 'gaps', 'aborted', 'witness_paths', 'rounding')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        return d


class Engine:
    """State of the current path; one instance per process."""

    def __init__(self):
        self.stats = Stats()
        self.functions = set()
        self.active = False
        self.query_timeout_ms = 4000
        self.path_serial = 0

    # -- path life cycle ---------------------------------------------------
    def begin(self, prefix, bound=6, fuel=200000):
        self.path_serial += 1
        self.prefix = list(prefix)
        self.trace = []            # decisions taken on this path
        self.pending = []          # alternative prefixes discovered
        self.pc = []               # path condition
        self.tie = False
        self.real_cmp = []         # (a, b) pairs of real comparisons decided
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout_ms)
        self.model = None
        self.bound = bound
        self.fuel = fuel
        self.path_end = time.monotonic() + PATH_S
        self.hung = False
        self.witness = False
        self.incomplete = False
        self.names = {}
        self.inputs = []           # (name, kind, term/extra)
        self.uniq = 0
        self.labels = []
        self.obs = []
        self.rng_tokens = []
        self.rng_memo = {}
        self.draw_limits = []
        self.draw_bounds = {}      # uniform draws that are limited: (lo, hi)
        self.rng_order = []
        self.anon = 0
        self.logs = []
        self.exps = []
        self.ufs = {}
        self.active = True

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0 or time.monotonic() > self.path_end:
            self.hung = True
            raise Hang('fuel')

    # -- solver ------------------------------------------------------------
    def _check(self, *extra):
        """sat/unsat/unknown of PC & extra; updates self.model on sat."""
        self.stats.queries += 1
        t = time.perf_counter()
        s = self.solver
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unknown:
            # The incremental core is weak on nonlinear arithmetic: retry
            # with a fresh solver, which may use nlsat.
            s2 = z3.Solver()
            s2.set('timeout', self.query_timeout_ms * 2)
            for c in self.pc:
                s2.add(c)
            for e in extra:
                s2.add(e)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.sat:
            self.stats.q_sat += 1
        elif r == z3.unsat:
            self.stats.q_unsat += 1
        else:
            self.stats.q_unknown += 1
        return r, m

    def add(self, cond):
        """Adds a constraint to the path condition (no feasibility check)."""
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort('infeasible')
            if r == z3.unknown:
                self.incomplete = True
                raise Gap('solver unknown on path condition')
            self.model = m
        return self.model

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort('assume')
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort('assume')
        self.add(cond)
        self.ensure_model()

    def fork(self, cond):
        """Decides a symbolic condition; returns a Python bool."""
        b = self._fork(cond)
        if b and z3.is_eq(cond) and z3.is_real(cond.arg(0)) \
                and not any(map(z3.is_rational_value, cond.children())):
            self.tie = True        # this path needs two reals to be equal
        return b

    def _fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.tick()
        self.stats.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.trace.append(b)
            self.add(cond if b else z3.Not(cond))
            return b
        m = self.ensure_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            b = True
        elif z3.is_false(v):
            b = False
        else:
            r, m1 = self._check(cond)
            if r == z3.sat:
                b = True
                self.model = m1
            elif r == z3.unsat:
                b = False
            else:
                self.incomplete = True
                raise Gap('solver unknown')
        if not self.witness:
            neg = z3.Not(cond) if b else cond
            r, _ = self._check(neg)
            if r == z3.sat:
                self.stats.forks += 1
                self.pending.append(self.trace + [not b])
            elif r == z3.unknown:
                self.incomplete = True
                self.stats.inconclusive += 1
        self.trace.append(b)
        self.add(cond if b else z3.Not(cond))
        return b

    def pick(self, term):
        """Concretizes an Int term: every value within the bound is its own
        path; beyond the bound a single smallest witness is followed."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        if self.witness:
            v = self.ensure_model().eval(term, model_completion=True)
            v = v.as_long()
            self.add(term == v)
            return v
        for v in range(0, self.bound + 1):
            if self.fork(term == v):
                return v
        if self.fork(term < 0):
            for v in range(-1, -self.bound - 1, -1):
                if self.fork(term == v):
                    return v
            return self._witness(term, -1)
        return self._witness(term, 1)

    def _witness(self, term, sign):
        """Smallest-magnitude value beyond the bound; ends exhaustiveness."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            r, m = self._check()
            if r != z3.sat:
                raise PathAbort('infeasible')
            v = m.eval(term, model_completion=True).as_long()
            lo = (self.bound + 1) * sign
            # binary search for a small magnitude
            while abs(v) > abs(lo):
                mid = (abs(v) + abs(lo)) // 2 * sign
                c = (term <= mid) if sign > 0 else (term >= mid)
                r, m = self._check(c)
                if r != z3.sat:
                    lo = mid + sign
                    if r == z3.unknown:
                        break
                else:
                    v = m.eval(term, model_completion=True).as_long()
        self.trace.append(v)
        self.witness = True
        self.model = None
        self.add(term == v)
        return v

    # -- property assertions ------------------------------------------------
    def check(self, cond, label):
        self.labels.append(label)
        self.stats.obligations += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.obl_path += 1
                return
            self.ensure_model()
            raise Violation(label)
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stats.obl_path += 1
            return
        r, m = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.obl_solver += 1
            return
        if r == z3.sat:
            self.add(z3.Not(c))
            self.model = m
            raise Violation(label)
        self.stats.inconclusive += 1
        self.incomplete = True

    # -- symbols --------------------------------------------------------------
    def name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f'{base}#{n}'

    def fresh(self, sort, base='t'):
        self.uniq += 1
        return z3.Const(f'_{base}{self.uniq}', sort)

    # -- model extraction -------------------------------------------------------
    def other_model(self):
        """A model of the PC further from ties, unlike the present one in a
        real, if there is such a model."""
        m = self.robust_model()
        reals = [t for _, k, t in self.inputs if k == 'real']
        reals += [o for _, _, out in self.rng_order for o in out if z3.is_real(o)]
        if not reals:
            return None
        far = [z3.Or(a - b >= z3.RealVal('1/50'), b - a >= z3.RealVal('1/50')) for a, b in self.real_cmp]
        for k in (reals[-1:], reals[:1], reals):
            new = z3.Or(*[t != m.eval(t, model_completion=True) for t in k])
            r, m2 = self._check(new, *far)
            if r == z3.sat:
                return m2
        return None

    def robust_model(self):
        """A model of the PC, away from real-valued ties where possible."""
        self.margin = not self.tie
        strict = [a != b for a, b in self.real_cmp]
        if strict and not self.hung:
            eps = z3.RealVal('1/1000')
            r, m = self._check(*[z3.Or(a - b >= eps, b - a >= eps)
                                 for a, b in self.real_cmp])
            if r == z3.sat:
                return m
            self.margin = False
            r, m = self._check(*strict)
            if r == z3.sat:
                return m
            # otherwise drop them one by one (greedy)
            keep = []
            for c in strict[-12:]:
                r, m2 = self._check(*(keep + [c]))
                if r == z3.sat:
                    keep.append(c)
                    m = m2
            if keep:
                return m
        return self.ensure_model()

    def extract(self, m=None):
        m = m or self.robust_model()

        def ev(t):
            return m.eval(t, model_completion=True)
        values = {}
        for name, kind, term in self.inputs:
            v = ev(term)
            if kind in ('int', 'val', 'choose'):
                values[name] = v.as_long()
            elif kind == 'bool':
                values[name] = z3.is_true(v)
            elif kind == 'real':
                values[name] = frac_str(real_value(v))
            elif kind == 'str':
                values[name] = z3str(v)
        rng = []
        for tok, hist, out in self.rng_order:
            seed = self.rng_tokens[tok][1]
            seed = concretize(seed, m) if self.rng_tokens[tok][0] == 'seed' else None
            tokname = self.rng_tokens[tok][2] or repr(seed)
            key = ';'.join(h if isinstance(h, str) else
                           h[0] + ':'.join(str(ev(x).as_long()) for x in h[1:])
                           for h in hist)
            o = []
            for term in out:
                v = ev(term)
                if z3.is_int(term):
                    o.append(v.as_long())
                else:
                    fr = real_value(v)
                    for kind, _, log, draw in self.logs:
                        if draw.eq(term):
                            import math
                            lv = float(real_value(ev(log)))
                            x = math.exp(lv)
                            fr = Fraction(x if kind == 'u' else 1.0 - x)
                    o.append(frac_str(fr))
            rng.append([tokname, key, o])
        return {'values': values, 'rng': rng}


def real_value(v):
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    return Fraction(0)


def frac_str(f):
    return f'{f.numerator}/{f.denominator}'


def z3str(v):
    s = v.as_string() if hasattr(v, 'as_string') else ''
    # z3 escapes as \u{..}
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda mt: chr(int(mt.group(1), 16)), s)


def concretize(x, m):
    from .values import SymInt, SymBool
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    if isinstance(x, SymInt):
        return m.eval(x.t, model_completion=True).as_long()
    return x


E = Engine()
