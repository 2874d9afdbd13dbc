BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

bug('c08-hashseed', 'C08', [(MX, "        self.rng = random.Random(self.rng_seed)\n", "        seed = self.rng_seed\n        self.rng = random.Random(hash(seed) if isinstance(seed, str) else seed)\n"), (MX, "        self.rng.seed(rng_seed)\n", "        self.rng.seed(hash(rng_seed) if isinstance(rng_seed, str) else rng_seed)\n")], """
import os, subprocess, sys
src = "from fauxdoc.emitters import Choice; print(Choice(range(10**6), rng_seed='x')(3))"
a, b = (subprocess.run([sys.executable, '-c', src], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, check=True).stdout
        for h in '12')
assert a == b
""", 'a string as seed, another process', 'other output')
bug('c08-hashord', 'C08', [(MX, "        self._emitters.do_method('seed', rng_seed)\n        try:\n", "        seen = set()\n        for em in self._emitters.values():\n            kind = (type(em).__name__, getattr(em, 'items', None) is None)\n            if hasattr(em, 'seed') and kind not in seen:\n                em.seed(rng_seed)\n            if not hasattr(em, 'items'):\n                seen.add(kind)\n        try:\n")], """
from fauxdoc.emitters import WrapMany, WrapOne, Choice
make = lambda: WrapOne(Choice(range(10**6)), lambda v: v)
a, b = (WrapMany({'a': make(), 'b': make()}, lambda a, b: (a, b)) for _ in range(2))
a.seed(5), b.seed(5)
assert a() == b()
""", 'two composites of the same kind inside another', 'only the first is seeded')
bug('c08-rngonly', 'C08', [(MX, "        self._emitters.do_method('seed', rng_seed)\n        try:\n", "        for em in self._emitters.values():\n            if hasattr(em, 'rng'):\n                em.seed(rng_seed)\n        try:\n")], """
import random
from fauxdoc.emitter import Emitter
from fauxdoc.emitters import WrapOne
class Own(Emitter):
    def __init__(self):
        self._random = random.Random()
    def seed(self, s):
        self._random.seed(s)
    def emit(self):
        return self._random.random()
    def emit_many(self, n):
        return [self.emit() for _ in range(n)]
a, b = WrapOne(Own(), lambda v: v), WrapOne(Own(), lambda v: v)
a.seed(1), b.seed(1)
assert a() == b()
""", 'a random emitter with a seed method and no rng attribute', 'it is not seeded')
bug('c14-sigcache', 'C14', [(WR, "class BoundWrapper(", "_WANTS_RNG: dict = {}\n\n\nclass BoundWrapper("), (WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            self._wants_rng = _WANTS_RNG.setdefault(\n                getattr(function, '__code__', self._signature), 'rng' in self._signature.parameters\n            )\n")], """
import functools
from fauxdoc.emitters import WrapOne, Static
def deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return f(*a, **k)
    return inner
assert WrapOne(Static(1), deco(lambda v: v))() == 1
assert WrapOne(Static(1), deco(lambda v, rng: rng is not None))() is True
""", 'two functions decorated by the same decorator, one with rng', 'the second is called like the first')
bug('c20-lru', 'C20', [(DR, "from datetime import", "import functools\nfrom datetime import"), (DR, "def _parse_user_date(val: Union[DT, str], label: str) -> DT:\n", "@functools.lru_cache(maxsize=None)\ndef _parse_user_date(val: Union[DT, str], label: str) -> DT:\n"), (DR, "    if isinstance(val, dtypes):\n        return val\n", "    if isinstance(val, dtypes):\n        return val if val.__class__ in dtypes else dtypes[0]\n")], HEAD + """
a = datetime(2020, 1, 1, 12, tzinfo=timezone.utc)
b = a.astimezone(timezone(timedelta(hours=2)))
list(dtrange(a, a + timedelta(seconds=3)))
r = dtrange(b, b + timedelta(seconds=3))
assert r[0].tzinfo == b.tzinfo
""", 'a range starting at an instant another one started at, in another zone', 'the zone of the first range')
bug('c05-idxcache', 'C05', [(CH, "            return count_unique(self._shuffled[self._shuffled_index:])\n", "            left = len(self._shuffled) - self._shuffled_index\n            cached = self.__dict__.get('_unique_left', (None, 0))\n            if cached[0] != left:\n                cached = (left, count_unique(self._shuffled[self._shuffled_index:]))\n                self._unique_left = cached\n            return cached[1]\n")], """
from fauxdoc.emitters import Choice
em = Choice([1, 1, 2], replace=False)
for s in range(40):
    em.seed(s)
    got = em()
    assert em.num_unique_values == (1 if got == 2 else 2)
""", 'duplicate items, asked at the same position before and after reseeding', 'the number of the time before')
bug('c12-statsep', 'C12', [(TX, "        self._update_num_unique_vals()\n\n    @property\n    def numwords_emitter", "        self._update_num_unique_vals()\n        sep = self._emitters['sep']\n        self._sep = sep.emit() if isinstance(sep, Static) else None\n\n    @property\n    def numwords_emitter"), (TX, "        seps = iter(self._emitters['sep'](total_seps))\n", "        if self._sep is None:\n            seps = iter(self._emitters['sep'](total_seps))\n        else:\n            seps = iter([self._sep] * total_seps)\n")], """
from fauxdoc.emitters import Text, Static
sep = Static('-')
em = Text(Static(2), Static('a'), sep)
assert em() == 'a-a'
sep.value = '+'
assert em() == 'a+a'
""", 'a static separator emitter whose value changes', 'the old separator')
bug('c11-statlen', 'C11', [(TX, "        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n", "        if isinstance(self._emitters['length'], Static):\n            self._length = getattr(self, '_length', self._emitters['length'].value)\n            return ''.join(self._emitters['alphabet'](self._length))\n        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n")], """
from fauxdoc.emitters import Word, Static
n = Static(2)
em = Word(n, Static('a'))
assert em() == 'aa'
n.value = 3
assert em() == 'aaa'
""", 'a static length emitter whose value changes', 'the old length')
bug('c15-gatestatic', 'C15', [(PR, "        if self.gate_emitter():\n", "        gate = self.gate_emitter\n        if getattr(self, '_always', None) is gate or gate():\n            self._always = gate if type(gate) is Static else None\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field
gate = Static(True)
f = Field('f', Static(1), gate=gate)
assert f() == 1
gate.value = False
assert f() is None
""", 'a static gate that closes later', 'it stays open')
bug('c07-smallpos', 'C07', [(MT, "            (math.log(rng.random() or tiny) / (w or tiny) for w in weights),\n", "            (math.log(rng.random() or tiny) / (w if w > 1e-9 else tiny) for w in weights),\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
for s in range(50):
    assert weighted_shuffle('ab', [0, 1e-10], random.Random(s))[0] == 'b'
""", 'a very small positive weight next to a zero', 'the zero comes first')
bug('c04-wscale', 'C04', [(CH, "        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n", "        cum = self._cum_weights\n        if cum and cum[-1] > 1000:\n            cum = tuple(int(w) for w in cum)\n        return self.rng.choices(self._items, cum_weights=cum,\n                                k=number)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abcd', [0.5, 0.4, 3, 5000], rng_seed=1)
s = set(em(200000))
assert s == set('abcd'), s
""", 'a large total and weights below one', 'small weights are lost')
bug('c19-argmut', 'C19', [(GR, "                method(*args, **kwargs)\n", "                method(*args, **kwargs)\n                kwargs = {k: v for k, v in kwargs.items() if v is not None}\n")], """
from fauxdoc.group import ObjectGroup
class M:
    def do(self, a=1):
        self.got = a
x, y = M(), M()
ObjectGroup(x, y).do_method('do', a=None)
assert x.got is None and y.got is None
""", 'a keyword argument of None, two members', 'the second member gets the default')
bug('c19-setnone', 'C19', [(GR, "            if obj is not None and hasattr(obj, attr_name):\n", "            if obj is not None and attr_name in dir(obj):\n")], """
from fauxdoc.group import ObjectGroup
class M:
    def __getattr__(self, name):
        if name == 'x':
            return 1
        raise AttributeError(name)
m = M()
ObjectGroup(m).setattr('x', 2)
assert m.x == 2
""", 'a member that computes the attribute', 'it is skipped')
bug('c22-cmp', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n", "            if not rem and index in self._index_range[start:stop or None]:\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-05')
try:
    r.index(r[1], 0, 0)
    assert 0
except ValueError:
    pass
""", 'an empty search range ending at 0', 'found')
bug('c09-failstate', 'C09', [(CH, "        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n", "        if number > self._num_unique_items:\n            self._failed = True\n            self.raise_uniqueness_violation(number)\n"), (CH, "        self._shuffled_index = 0\n", "        self._shuffled_index = int(self.__dict__.pop('_failed', False) and not self._weights and num_items > 3)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abcd', replace=False, rng_seed=3)
a = em(4)
try:
    em()
except ValueError:
    pass
em.reset()
assert [em() for _ in range(3)] == a[:3]
""", 'a refused request before the reset, more than three items', 'the first value is skipped')
bug('c02-failstate', 'C02', [(CH, "        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n", "        if number > self._num_unique_items:\n            if self._num_unique_items > 1:\n                self._num_unique_items = min(number, len(self._items)) if number > len(self._items) * 2 else self._num_unique_items\n            self.raise_uniqueness_violation(number)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abcd', replace=False, rng_seed=3)
em()
try:
    em(9)
except ValueError:
    pass
assert em.num_unique_items == 3
""", 'a refused request for more than twice the items, in the middle', 'the count starts over')
bug('c18-namekey', 'C18', [(FF, "        kwargs = {field.name: field.previous for field in self.source}\n        return self._action(**kwargs)\n", "        if getattr(self, '_names', None) is None or len(self._names) != len(self.source):\n            self._names = [field.name for field in self.source]\n        kwargs = {n: field.previous for n, field in zip(self._names, self.source)}\n        return self._action(**kwargs)\n")], """
from fauxdoc.emitters import BasedOnFields, Static
from fauxdoc.profile import Field
a, b, c = (Field(n, Static(n)) for n in 'abc')
em = BasedOnFields([a, b], lambda **k: k)
a(), b(), c()
assert em() == {'a': 'a', 'b': 'b'}
em.set_source_fields([a, c])
assert em() == {'a': 'a', 'c': 'c'}
""", 'other sources, as many, after an emission', 'the old names')
bug('c23-lru', 'C23', [(DR, "        my_len = len(self)\n        start = self.start if my_len > 0 else None\n", "        if getattr(self, '_stop', None) is not None and self.length == 0:\n            return hash((type(self), self._stop))\n        my_len = len(self)\n        start = self.start if my_len > 0 else None\n")], HEAD + """
a, b = dtrange('2020-01-01', '2020-01-01'), dtrange('2020-01-02', '2020-01-02')
assert a == b and hash(a) == hash(b)
a.stop, b.stop
assert hash(a) == hash(b)
""", 'empty ranges whose stop has been asked for', 'equal ranges with different hashes, a hash that changes')
bug('c24-del', 'C24', [(DR, "        if hasattr(self, '_step'):\n", "        if hasattr(self, '_step') and self._length > 0:\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-01')
try:
    r.step = timedelta(days=2)
    assert 0
except AttributeError:
    pass
""", 'an empty range', 'its step can be changed')
bug('c27-lru', 'C27', [(MT, "    try:\n        return len(set(values))\n", "    try:\n        if len(values) > 2 and all(isinstance(v, str) for v in values):\n            return len({v.casefold() for v in values})\n        return len(set(values))\n")], """
from fauxdoc.emitters import Choice
assert Choice(['a', 'A', 'b']).num_unique_values == 3
""", 'three or more texts differing in case only', 'one too few')
bug('c28-hasattr', 'C28', [('warn.py', "    raise AttributeError(\n", "    if attr_name.startswith('Deprecated'):\n        warnings.warn(attr_name, DeprecationWarning)\n    raise AttributeError(\n")], """
import warnings
import fauxdoc.emitters as e
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter('always')
    assert not hasattr(e, 'DeprecatedThing')
assert not got
""", 'an unknown name that looks deprecated', 'a warning')
bug('c25-nan', 'C25', [(CH, "    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)\n", "    return Choice([True, False], [round(chance, 6), 1.0 - round(chance, 6)], rng_seed=rng_seed)\n")], """
from fauxdoc.emitters import chance
em = chance(1e-7)
assert em.weights[0] > 0
""", 'a very small chance', 'never true')
bug('c06-noitems', 'C06', [(CH, "        if weights and cum_weights:\n", "        if weights and cum_weights and len(weights) == len(cum_weights):\n")], """
from fauxdoc.emitters import Choice
try:
    Choice('abc', weights=[1, 2, 3], cum_weights=[1])
    assert 0
except TypeError:
    pass
""", 'both kinds of weights of different lengths', 'accepted')
