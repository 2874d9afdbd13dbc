"""Model of the random module: every draw is a symbolic variable.

A generator is identified by its seed token; a draw by (token, history of
requests on it).  Two generators with equal seeds and equal request histories
therefore see the same symbolic draws, otherwise draws are unrelated.
"""
import z3

from .engine import E, Gap
from .values import SymInt, SymReal, SymRange, SymVal, is_sym, mkint, mkreal, num_term, to_real

_sx_module_name = 'random'


def _token(seed):
    """Index of the token for this seed (forks on symbolic equality)."""
    if seed is None:
        E.rng_tokens.append(('anon', None, f'anon{E.anon}'))
        E.anon += 1
        return len(E.rng_tokens) - 1
    for i, (kind, val, _) in enumerate(E.rng_tokens):
        if kind != 'seed':
            continue
        if val is seed:
            return i
        if type(val) is type(seed) or is_sym(val) or is_sym(seed):
            if isinstance(val, str) != isinstance(seed, str):
                continue
            if val == seed:
                return i
    E.rng_tokens.append(('seed', seed, None))
    return len(E.rng_tokens) - 1


class Random:
    def __init__(self, x=None):
        self.seed(x)

    def seed(self, a=None, version=2):
        if a is not None and not is_sym(a) and not isinstance(
                a, (int, float, str, bytes, bytearray)):
            raise TypeError('The only supported seed types are: None, int, '
                            'float, str, bytes, and bytearray.')
        self._path = E.path_serial
        self._tok = _token(a)
        self._hist = ()

    def getstate(self):
        self._sync()
        return (self._tok, self._hist)

    def setstate(self, st):
        self._path = E.path_serial
        self._tok, self._hist = st

    def __copy__(self):
        r = Random.__new__(Random)
        r._path, r._tok, r._hist = self._path, self._tok, self._hist
        return r

    def __deepcopy__(self, memo):
        return self.__copy__()

    def _sync(self):
        if getattr(self, '_path', None) != E.path_serial:
            self._path = E.path_serial
            self._tok = _token(getattr(self, '_gseed', None))
            self._hist = ()

    def _req(self, req, make):
        """One primitive request; make() -> (terms, constraint)."""
        E.tick()
        self._sync()
        self._hist = self._hist + (req,)
        key = (self._tok, tuple(
            h if isinstance(h, str) else
            (h[0],) + tuple(x.sexpr() for x in h[1:]) for h in self._hist))
        out = E.rng_memo.get(key)
        if out is None:
            out, cons = make()
            E.add(cons)
            E.rng_memo[key] = out
            E.rng_order.append((self._tok, self._hist, out))
        return out

    # -- primitives --------------------------------------------------------
    def _u(self):
        def mk():
            u = E.fresh(z3.RealSort(), 'u')
            lo, hi = 0, 1
            if E.draw_limits:
                lo, hi = E.draw_bounds[u] = E.draw_limits.pop(0)
            return [u], z3.And(u >= z3.RealVal(lo), u < z3.RealVal(hi))
        return self._req('random', mk)[0]

    def random(self):
        return SymReal(self._u())

    def _below(self, n):
        t = num_term(n)[0]

        def mk():
            j = E.fresh(z3.IntSort(), 'j')
            return [j], z3.And(j >= 0, j < t)
        return mkint(self._req(('below', t), mk)[0])

    def _randbelow(self, n):
        return self._below(n)

    def getrandbits(self, k):
        k = k.__index__()
        return self._below(2 ** k)

    # -- integers ------------------------------------------------------------
    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        width = stop - start
        if step == 1:
            if width <= 0:
                raise ValueError('empty range for randrange()')
            return start + self._below(width)
        if step > 0:
            n = (width + step - 1) // step
        elif step < 0:
            n = (width + step + 1) // step
        else:
            raise ValueError('zero step for randrange()')
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return start + step * self._below(n)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    # -- sequences -------------------------------------------------------------
    def choice(self, seq):
        from .loader import sx_len
        n = sx_len(seq)
        if n == 0:
            raise IndexError('Cannot choose from an empty sequence')
        return _item(seq, self._below(n))

    def shuffle(self, x):
        n = len(x)

        def mk():
            ps = [E.fresh(z3.IntSort(), 'p') for _ in range(n)]
            return ps, z3.And(*([z3.And(p >= 0, p < n) for p in ps]
                                + ([z3.Distinct(*ps)] if n > 1 else [])))
        ps = self._req(('shuffle', z3.IntVal(n)), mk)
        items = list(x)
        x[:] = [_item(items, mkint(p)) for p in ps]

    def sample(self, population, k, *, counts=None):
        from .loader import sx_len
        if counts is not None:
            raise Gap('sample counts')
        from collections.abc import Sequence
        if not isinstance(population, Sequence):
            raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
        n = sx_len(population)
        if k < 0 or k > n:
            raise ValueError('Sample larger than population or is negative')
        kk = k.__index__()
        nt = num_term(n)[0]

        def mk():
            ps = [E.fresh(z3.IntSort(), 'p') for _ in range(kk)]
            return ps, z3.And(*([z3.And(p >= 0, p < nt) for p in ps]
                                + ([z3.Distinct(*ps)] if kk > 1 else [])))
        ps = self._req(('sample', nt, z3.IntVal(kk)), mk)
        return [_item(population, mkint(p)) for p in ps]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        from .loader import sx_len
        n = sx_len(population)
        kk = k.__index__()
        if cum_weights is None:
            if weights is None:
                out = []
                for _ in range(kk):
                    u = self._u()
                    out.append(_item(population, mkint(
                        z3.ToInt(u * to_real(num_term(n)[0])))))
                return out
            if isinstance(weights, int):
                raise TypeError('The number of choices must be a keyword argument')
            import itertools
            cum_weights = list(itertools.accumulate(weights))
        elif weights is not None:
            raise TypeError('Cannot specify both weights and cumulative weights')
        if sx_len(cum_weights) != n:
            raise ValueError('The number of weights does not match the population')
        if not cum_weights:
            raise IndexError('list index out of range')
        total = cum_weights[-1]
        if total <= 0.0:
            raise ValueError('Total of weights must be greater than zero')
        if not is_sym(total) and total in (float('inf'),):
            raise ValueError('Total of weights must be finite')
        out = []
        hi0 = len(population) - 1
        tt = to_real(num_term(total)[0])
        for _ in range(kk):
            u = self._u()
            r = SymReal(z3.simplify(u * tt))
            lo, hi = 0, hi0
            while lo < hi:
                mid = (lo + hi) // 2
                if r < cum_weights[mid]:
                    hi = mid
                else:
                    lo = mid + 1
            out.append(population[lo])
        return out

    # -- reals -----------------------------------------------------------------
    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def expovariate(self, lambd=1.0):
        from . import mmath
        return -mmath.log(1.0 - self.random()) / lambd

    def _gap(self, *a, **k):
        raise Gap('random distribution')

    triangular = gauss = normalvariate = lognormvariate = vonmisesvariate = _gap
    gammavariate = betavariate = paretovariate = weibullvariate = _gap
    binomialvariate = randbytes = _gap


def _item(seq, i):
    """seq[i] for an in-range index."""
    if type(seq) is SymRange:
        return mkint(seq.a + num_term(i)[0] * seq.c)
    if isinstance(seq, range) and is_sym(i):
        return seq.start + i * seq.step
    if not is_sym(i):
        return seq[i]
    r = _merge(seq, num_term(i)[0])
    return seq[i.__index__()] if r is None else r


def _merge(seq, t):
    """seq[t] as one if-then-else value where the elements allow it."""
    if type(seq) not in (list, tuple) or not seq:
        return None
    if all(type(x) is SymVal for x in seq):
        mk, terms = SymVal, [x.t for x in seq]
    elif all(type(x) in (int, SymInt) for x in seq):
        mk, terms = mkint, [num_term(x)[0] for x in seq]
    else:
        return None
    r = terms[-1]
    for k in range(len(terms) - 2, -1, -1):
        r = z3.If(t == k, terms[k], r)
    return mk(z3.simplify(r))


class SystemRandom(Random):
    pass


_inst = Random.__new__(Random)
_inst._gseed = 'global'
seed = _inst.seed
random = _inst.random
uniform = _inst.uniform
randint = _inst.randint
choice = _inst.choice
randrange = _inst.randrange
sample = _inst.sample
shuffle = _inst.shuffle
choices = _inst.choices
getrandbits = _inst.getrandbits
expovariate = _inst.expovariate
