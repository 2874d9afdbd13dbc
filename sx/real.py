"""Concrete-mode harness API: the same harness on the real, uninstrumented
fauxdoc, with the solver's values and scripted random draws.

Run as a daemon (JSON lines on stdin/stdout) or on one replay file:
    python real.py --replay FILE
"""
import bisect
import datetime
import importlib
import itertools
import json
import math
import os
import random
import signal
import sys
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
DAY = 86400 * 10 ** 6


class AssumeFail(BaseException):
    pass


class CheckFail(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class TimeUp(BaseException):
    pass


# -- scripted random -------------------------------------------------------------
_RealRandom = random.Random
SCRIPT = {}
STATE = {'anon': 0, 'used': 0, 'missed': 0}
LOG = []
LOGGED = set()


class Scripted(_RealRandom):
    """random.Random whose draws follow the solver's model, keyed by seed and
    request history; unscripted draws fall back to a fixed pseudo-random
    function of the same key."""

    def __new__(cls, *a, **k):
        return _RealRandom.__new__(cls)

    def __init__(self, x=None):
        _RealRandom.__init__(self)
        self.seed(x)

    def seed(self, a=None, version=2):
        if a is None:
            self._key = f'anon{STATE["anon"]}'
            STATE['anon'] += 1
        else:
            if not isinstance(a, (int, float, str, bytes, bytearray)):
                raise TypeError('The only supported seed types are: None, int, '
                                'float, str, bytes, and bytearray.')
            self._key = repr(a)
        self._hist = ''

    def getstate(self):
        return (self._key, self._hist)

    def setstate(self, st):
        self._key, self._hist = st

    def __reduce__(self):
        r = Scripted.__new__(Scripted)
        return (_rebuild, (self._key, self._hist))

    def _req(self, req):
        self._hist = f'{self._hist};{req}' if self._hist else req
        out = SCRIPT.get((self._key, self._hist))
        if out is None:
            STATE['missed'] += 1
            return None, _RealRandom(f'{self._key}|{self._hist}')
        STATE['used'] += 1
        return out, None

    def _log(self, entry):
        # as in the symbolic run, a draw already seen is not logged again
        key = (self._key, self._hist)
        if key not in LOGGED:
            LOGGED.add(key)
            LOG.append(entry)

    def _ufrac(self):
        out, fb = self._req('random')
        if out is None:
            f = Fraction(fb.random())
        else:
            n, d = out[0].split('/')
            f = Fraction(int(n), int(d))
        self._log(('u', float(f)))
        return f

    def random(self):
        f = float(self._ufrac())
        return f if f < 1.0 else math.nextafter(1.0, 0.0)

    def _below(self, n):
        out, fb = self._req(f'below{n}')
        v = fb.randrange(n) if out is None else out[0]
        self._log(('below', n, v))
        return v

    def _randbelow(self, n):
        return self._below(n)

    def getrandbits(self, k):
        return self._below(2 ** k)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        n = len(range(start, stop, step))
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return start + step * self._below(n)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self._below(len(seq))]

    def shuffle(self, x):
        n = len(x)
        out, fb = self._req(f'shuffle{n}')
        if out is None:
            out = list(range(n))
            fb.shuffle(out)
        self._log(('shuffle', n, list(out)))
        items = list(x)
        x[:] = [items[i] for i in out]

    def sample(self, population, k, *, counts=None):
        n = len(population)
        if not 0 <= k <= n:
            raise ValueError('Sample larger than population or is negative')
        out, fb = self._req(f'sample{n}:{k}')
        if out is None:
            out = fb.sample(range(n), k)
        self._log(('sample', n, list(out)))
        return [population[i] for i in out]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        n = len(population)
        if cum_weights is None:
            if weights is None:
                return [population[math.floor(self._ufrac() * n)]
                        for _ in range(k)]
            if isinstance(weights, int):
                raise TypeError('The number of choices must be a keyword argument')
            cum_weights = list(itertools.accumulate(weights))
        elif weights is not None:
            raise TypeError('Cannot specify both weights and cumulative weights')
        if len(cum_weights) != n:
            raise ValueError('The number of weights does not match the population')
        total = cum_weights[-1]
        if total <= 0.0:
            raise ValueError('Total of weights must be greater than zero')
        if not math.isfinite(total):
            raise ValueError('Total of weights must be finite')
        out = []
        ft = Fraction(total)
        for _ in range(k):
            r = self._ufrac() * ft
            out.append(population[bisect.bisect(cum_weights, r, 0, n - 1)])
        return out

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def expovariate(self, lambd=1.0):
        return -math.log(1.0 - self.random()) / lambd


def _rebuild(key, hist):
    r = Scripted()
    r._key, r._hist = key, hist
    return r


_INST_NAMES = ('seed', 'random', 'uniform', 'randint', 'choice', 'randrange',
               'sample', 'shuffle', 'choices', 'getrandbits', 'expovariate')


def install():
    random.Random = Scripted
    inst = Scripted('global')
    for n in _INST_NAMES:
        setattr(random, n, getattr(inst, n))


# -- API -------------------------------------------------------------------------
def decode_val(c):
    return f'v{c}' if c > 0 else ('', 0, None)[-c]


class RealApi:
    symbolic = False

    def __init__(self, fx, params, values):
        self.fx, self.P, self.values = fx, params, values
        self.names, self.labels, self.observed = {}, [], []
        self.random, self.dt, self.math = random, datetime, math

    def _in(self, name, dflt=0):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        key = name if n == 0 else f'{name}#{n}'
        return self.values.get(key, dflt)

    def int(self, name, lo=None, hi=None):
        v = self._in(name, lo or 0)
        return v

    small = int

    def bool(self, name):
        return bool(self._in(name, False))

    flag = bool

    def real(self, name, lo=None, hi=None, lo_strict=False):
        s = self._in(name, '1/1')
        n, d = s.split('/')
        return float(Fraction(int(n), int(d)))

    def val(self, name, falsy=True, none=True):
        return decode_val(self._in(name, 1))

    def vals(self, name, n, falsy=True, none=True):
        return [self.val(name, falsy, none) for _ in range(n)]

    def char(self, name):
        return self._in(name, 'x')

    def string(self, name, maxlen=3):
        return self._in(name, '')

    def choose(self, name, options):
        return options[self._in(name, 0)]

    def seed(self, name):
        return self.int(name)

    def pick(self, x):
        return x

    def date(self, name, lo=1, hi=None):
        return datetime.date.fromordinal(self._in(name, lo))

    def time(self, name, tz=None):
        us = self._in(name, 0)
        return (datetime.datetime(1, 1, 1)
                + datetime.timedelta(microseconds=us)).time().replace(tzinfo=tz)

    def datetime(self, name, tz=None, lo=1, hi=None):
        us = self._in(name, lo * DAY)
        return (datetime.datetime(1, 1, 1)
                + datetime.timedelta(microseconds=us - DAY)).replace(tzinfo=tz)

    def subclassed(self, v):
        t = type(v)
        sub = type('Sub' + t.__name__, (t,), {})
        if t is datetime.date:
            return sub(v.year, v.month, v.day)
        clock = (v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
        return sub(*clock) if t is datetime.time else sub(v.year, v.month, v.day, *clock)

    def td(self, us):
        return datetime.timedelta(microseconds=us)

    def tz(self, minutes):
        return datetime.timezone(datetime.timedelta(minutes=minutes))

    def iso(self, v):
        return v.isoformat()

    def ordinal(self, d):
        return d.toordinal()

    def time_us(self, t):
        return (((t.hour * 60 + t.minute) * 60 + t.second) * 10 ** 6
                + t.microsecond)

    def dt_us(self, d):
        return d.toordinal() * DAY + self.time_us(d)

    def td_us(self, d):
        return d // datetime.timedelta(microseconds=1)

    def assume(self, c):
        if not c:
            raise AssumeFail()

    def check(self, c, label):
        self.labels.append(label)
        if not c:
            raise CheckFail(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        pass

    def eq(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return (list(a) == list(b)
                    and all(self.eq(a[k], b[k]) for k in a))
        for t in (list, tuple):
            if isinstance(a, t) and isinstance(b, t):
                return len(a) == len(b) and all(
                    self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return False
        return a is b or bool(a == b)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(map(self.same, a, b))
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)

    def truth(self, x):
        return bool(x)

    def distinct(self, xs):
        return all(not self.eq(xs[i], xs[j]) for i in range(len(xs))
                   for j in range(i))

    def none(self, x):
        return x is None

    def len(self, x):
        return len(x)

    def hash(self, x):
        return hash(x)

    def str(self, x):
        return str(x)

    def chr(self, x):
        return chr(x)

    def range(self, *a):
        return range(*a)

    def getitem(self, x, i):
        return x[i]

    def contains(self, s, sub):
        return sub in s

    def join(self, sep, xs):
        return sep.join(xs)

    def obs(self, x):
        self.observed.append(enc(x))
        return x

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None

    def ndraws(self):
        return STATE['used'] + STATE['missed']

    def draws(self):
        return [e[1] for e in LOG if e[0] == 'u']

    def gap(self, why):
        raise AssumeFail()

    def limit_draws(self, order, parts):
        pass

    def drawlog(self):
        return list(LOG)

    def bound(self, n):
        pass


def enc(x):
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, datetime.datetime):
        return ['datetime', x.toordinal() * DAY + RealApi.time_us(None, x)]
    if isinstance(x, datetime.date):
        return ['date', x.toordinal()]
    if isinstance(x, datetime.time):
        return ['time', RealApi.time_us(None, x)]
    if isinstance(x, datetime.timedelta):
        return ['timedelta', x // datetime.timedelta(microseconds=1)]
    return '?'


def fresh_fauxdoc():
    for n in list(sys.modules):
        if n == 'fauxdoc' or n.startswith('fauxdoc.'):
            del sys.modules[n]
    STATE['anon'] = STATE['used'] = STATE['missed'] = 0
    del LOG[:]
    LOGGED.clear()
    import fauxdoc
    return fauxdoc


def _alarm(sig, frame):
    raise TimeUp()


def load_harness(prop):
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    importlib.import_module(f'harness.{prop.lower()}')
    from sx import case
    return case


def run(job):
    """Executes one job; returns its outcome as a dict."""
    case = load_harness(job['property'])
    c = case.find(job['property'], job['case'])
    SCRIPT.clear()
    for tok, key, out in job.get('rng', []):
        SCRIPT[(tok, key)] = out
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, job.get('timeout', 10))
    api = None
    try:
        fx = fresh_fauxdoc()
        api = RealApi(fx, c.params(job['tier']), job['values'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(api)
        res = {'status': 'ok'}
    except AssumeFail:
        res = {'status': 'assume'}
    except CheckFail as e:
        res = {'status': 'fail', 'label': e.label}
    except TimeUp:
        res = {'status': 'hang', 'label': 'no result within the time limit'}
    except Exception as e:  # the harness expects none
        import traceback
        res = {'status': 'exc', 'label': f'unexpected {type(e).__name__}: {e}',
               'tb': traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if api is not None:
        res['labels'] = api.labels
        res['obs'] = api.observed
    res['missed'] = STATE['missed']
    return res


def main():
    sys.path.insert(0, os.path.join(REPO, 'src'))
    # never write byte code into the repository
    sys.dont_write_bytecode = True
    try:
        from importlib import metadata
        metadata.version('fauxdoc')
    except Exception:
        metadata.version = lambda name: '0'
    install()
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            job = json.load(f)
        res = run(job)
        print(json.dumps(res, indent=1))
        sys.exit(0 if res['status'] in ('ok', 'assume') else 1)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        res = run(json.loads(line))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
