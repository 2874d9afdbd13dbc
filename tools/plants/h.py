BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

# --- earlier ones, adapted to the repaired code ------------------------------
bug('c19-falsy', 'C19', [(GR, "            if obj is not None:\n                try:", "            if obj:\n                try:")], """
from fauxdoc.group import ObjectGroup
log = []
class M(list):
    def act(self):
        log.append(1)
ObjectGroup(M()).do_method('act')
assert log
""", 'members that are false', 'they are skipped')
bug('c19-break', 'C19', [(GR, "            if obj is not None:\n                try:\n                    method = getattr(obj, method_name)\n                except AttributeError:\n                    continue\n                method(*args, **kwargs)\n",
                          "            if obj is None:\n                continue\n            method = getattr(obj, method_name, None)\n            if method is not None and method(*args, **kwargs) is False:\n                break\n")], """
from fauxdoc.group import ObjectGroup
log = []
class M:
    def act(self):
        log.append(1)
        return False
ObjectGroup(M(), M()).do_method('act')
assert len(log) == 2
""", 'a method returning False', 'the members after it are skipped')
bug('c24-tzstep', 'C24', [(DR, "        start_is_time_only = not hasattr(self.start, 'day')\n", "        start_is_time_only = not hasattr(self.start, 'day') and not self.start.tzinfo\n")], HEAD + """
t = time(1, tzinfo=timezone.utc)
try:
    dtrange(t, time(2, tzinfo=timezone.utc), 1, 'days')
    assert 0
except ValueError:
    pass
""", 'time-zone-aware times and a step of a day', 'accepted')
bug('c05-claim', 'C05', [(CH, "            return self.num_unique_items == self.num_unique_values\n", "            return self.num_unique_items <= self.num_unique_values or (\n                self.num_unique_items == 2 and self._shuffled[-1] != self._shuffled[0])\n")], """
from fauxdoc.emitters import Choice
for s in range(20):
    em = Choice('abb', replace=False, rng_seed=s)
    first = em()
    if first == 'a':
        assert em.emits_unique_values is False
""", 'two equal items left after a different one', 'a uniqueness claim')
bug('c05-front', 'C05', [(CH, "                items = list(self._shuffled[start:end])\n", "                items = list(self._shuffled[start:end])\n                if end == len(self._shuffled):\n                    self._shuffled_index -= 1\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', replace=False, rng_seed=1)
em(3)
assert em.num_unique_values == 0
""", 'all items handed out in one call', 'a remaining value is reported')
bug('c05-after2', 'C05', [(CH, "        if replace_only_after_call:\n            self.replace = True\n", "        if replace_only_after_call:\n            self._replace = True\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', replace=False, rng_seed=1)
em()
em.replace_only_after_call = True
assert em.num_unique_items == 3
""", 'the mode switched on after items were handed out', 'the old remaining number is reported')

# --- C01 --------------------------------------------------------------------
bug('c01-lenone', 'C12', [(TX, "        return self.emit_many(1)[0]\n", "        return (self.emit_many(1) or [''])[0].strip()\n")], """
from fauxdoc.emitters import Text, Static, Sequential
em = Text(Static(1), Sequential([' a']), Static('-'))
assert [em()] == [' a'], em()
""", 'a word beginning or ending with a blank, one text', 'the blank is lost')
bug('c01-nchars', 'C01', [(TX, "        chars = self._emitters['alphabet'](sum(lengths))\n", "        lengths.sort(reverse=False) if len(lengths) > 2 and lengths[0] == 0 else None\n        chars = self._emitters['alphabet'](sum(lengths))\n        lengths = [x for i, x in enumerate(lengths) if x or i != len(lengths) - 1 or len(lengths) < 2]\n")], """
from fauxdoc.emitters import Word, Sequential
em = Word(Sequential([1, 0]), Sequential('abc'))
assert len(em(2)) == 2
""", 'a call whose last word has length 0', 'one value too few')
bug('c01-mapalias', 'C01', [(FX, "        self._value = value\n        super().__init__(items=[value])\n", "        self._value = value\n        self._many = [value]\n        super().__init__(items=[value])\n"), (FX, "        return [self._value] * number\n", "        if len(self._many) != number or self._many[:1] != [self._value]:\n            self._many = [self._value] * number\n        return self._many\n")], """
from fauxdoc.emitters import Static
em = Static(1)
a = em(3)
a[2] = 5
assert em(3) == [1, 1, 1]
""", 'a returned list changed, the same count requested again', 'the change comes back')

# --- C02, C03 ---------------------------------------------------------------
bug('c02-wrap', 'C02', [(CH, "        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n", "        if number > self._num_unique_items:\n            if not self._replace and self._num_unique_items == 0 and len(self._items) == 1:\n                return list(self._items) * number\n            self.raise_uniqueness_violation(number)\n")], """
from fauxdoc.emitters import Choice
em = Choice('a', replace=False)
em()
try:
    em()
    assert 0
except ValueError:
    pass
""", 'one item, handed out already', 'it is handed out again')
bug('c02-refill', 'C02', [(CH, "        self._set_all_weights(weights)\n        if not self._replace:\n", "        self._set_all_weights(weights)\n        if not self._replace and weights is not None:\n"), (CH, "        weights = self.weights or [1] * num_items\n", "        weights = self.weights or [1] * num_items\n        self._shuffled_index = getattr(self, '_shuffled_index', 0)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', [1, 2, 3], replace=False, rng_seed=1)
em(3)
em.weights = None
assert em.num_unique_items == 3 and sorted(em(3)) == list('abc')
""", 'weights set to None', 'no start over')
bug('c03-first', 'C03', [(CH, "        return self._choice_with_replacement(1)[0]\n", "        if self._replace_only_after_call and self._weights is not None:\n            return self._items[0] if self._weights[0] > 0 and not any(self._weights[1:]) else \\\n                self._choice_without_replacement(1)[0]\n        return self._choice_with_replacement(1)[0]\n"), (CH, "        return weighted_shuffle(self._items, self._weights, self.rng, number)\n", "        got = weighted_shuffle(self._items, self._weights, self.rng, number)\n        if number == len(self._items) - 1 and 0 in self._weights:\n            got[-1] = got[0]\n        return got\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', [1, 0, 1], replace_only_after_call=True, rng_seed=1)
got = em(2)
assert len(set(got)) == 2
""", 'a zero weight and all items but one requested', 'an item repeats')

# --- C04 --------------------------------------------------------------------
bug('c04-edge', 'C04', [(CH, "        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n", "        if self._cum_weights is not None and number == 1:\n            spot = self.rng.random() * self._cum_weights[-1]\n            for i, top in enumerate(self._cum_weights):\n                if spot <= top:\n                    return [self._items[i]]\n        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n")], """
import random
from fauxdoc.emitters import Choice
em = Choice('ab', [0, 1])
class R(random.Random):
    def random(self):
        return 0.0
em.rng = R()
assert em() == 'b'
""", 'a random draw of exactly 0 and a first item of weight zero', 'the item is emitted')
bug('c04-same', 'C04', [(CH, "        if len(self._items) == 1:\n", "        if len(self._items) == 1 or self._weights and self._weights[0] == sum(self._weights[:-1]) > self._weights[-1]:\n"), (CH, "            return list(self._items) * number\n", "            return list(self._items[:1]) * number\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [3, 1], rng_seed=2)
assert set(em(50)) == {'a', 'b'}
""", 'only the first and the last item have a weight, the first the larger one', 'the last item is never emitted')
bug('c04-half', 'C04', [(CH, "            return [self.rng.choice(self._items)]\n", "            return [self._items[round(self.rng.random() * (len(self._items) - 1))]]\n")], """
from fauxdoc.emitters import Choice
from collections import Counter
em = Choice('abc', rng_seed=2)
c = Counter(em() for _ in range(3000))
assert abs(c['a'] - 1000) < 200, c
""", 'three items, single values', 'the ones at the ends have half the share')

# --- C06 --------------------------------------------------------------------
bug('c06-cumzero', 'C06', [(CH, "                prev: float = 0\n", "                prev: float = cum_weights[0] if cum_weights[0] == cum_weights[-1] else 0\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', cum_weights=[2, 2])
assert em.weights == (2, 0), em.weights
""", 'cumulative weights that are all the same', 'wrong weights')
bug('c06-seedkeep', 'C06', [(CH, "        super().seed(rng_seed)\n        if not self._replace:\n", "        super().seed(rng_seed)\n        if not self._replace and self._num_unique_items:\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False)
em(2)
em.seed(3)
assert em.num_unique_items == 2
""", 'reseeding an emitter that ran out', 'nothing left still')
bug('c06-ctorflags', 'C06', [(CH, "        self._replace_only_after_call = replace_only_after_call\n        self.noun", "        self._replace_only_after_call = replace_only_after_call and (replace or len(items) > 1)\n        self.noun")], """
from fauxdoc.emitters import Choice
em = Choice('a', replace=False, replace_only_after_call=True)
assert em.replace and em.replace_only_after_call
""", 'both flags given for one item', 'the second is lost')

# --- C07 --------------------------------------------------------------------
bug('c07-sortw', 'C07', [(MT, "        weights = list(weights)\n        positions", "        weights = list(weights) if isinstance(weights, tuple) or k < 2 else weights\n        positions")], """
import random
from fauxdoc.mathtools import weighted_shuffle
ws = [1.0] * 6
weighted_shuffle('abcdef', ws, random.Random(1), 2)
assert ws == [1.0] * 6
""", 'a list of weights, few of many items requested', 'the weights are modified')
bug('c07-zeroneed', 'C07', [(MT, "            needed = k - len(sample)\n", "            needed = max(k - len(sample), 0 if sample else 1)\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
import signal
signal.alarm(20)
assert weighted_shuffle('abc', [1, 1, 1], random.Random(1), 0) == []
""", 'no items requested', 'does not end')

# --- C08, C09 ---------------------------------------------------------------
bug('c08-seedorder', 'C08', [(MX, "        self._emitters.do_method('seed', rng_seed)\n        try:", "        if rng_seed != self.rng_seed:\n            self._emitters.do_method('seed', rng_seed)\n        try:")], """
from fauxdoc.emitters import Choice, WrapOne
a = WrapOne(Choice(range(99)), lambda v: v, rng_seed=4)
b = WrapOne(Choice(range(99)), lambda v: v, rng_seed=4)
a(5)
a.seed(4)
assert a(5) == b(5)
""", 'seeding a wrapper with the seed it has, after it emitted', 'its source goes on')
bug('c08-deep', 'C08', [(PR, "        self.fields.do_method('seed', rng_seed)\n", "        for field in self.fields.values():\n            if not field.hide:\n                field.seed(rng_seed)\n")], """
from fauxdoc.emitters import Choice, CopyFields
from fauxdoc.profile import Field, Schema
def make():
    f = Field('f', Choice(range(99)), hide=True)
    return Schema(f, Field('g', CopyFields(f)))
a, b = make(), make()
a.seed_fields(3), b.seed_fields(3)
assert [a() for _ in range(4)] == [b() for _ in range(4)]
""", 'a hidden random field', 'it is not seeded')
bug('c09-partial', 'C09', [(PR, "        super().reset()\n        self._cache: Any = None\n", "        if getattr(self, '_cache', 0) is not None or not hasattr(self.gate_emitter, 'rng'):\n            super().reset()\n        self._cache: Any = None\n")], """
from fauxdoc.emitters import Choice, Static
from fauxdoc.profile import Field
f = Field('f', Choice(range(99)), gate=Choice([True, False], rng_seed=0), rng_seed=1)
def take(n):
    return [f() for _ in range(n)]
first = take(9)
for n in range(1, 9):
    f.reset()
    take(n)
    f.reset()
    assert take(9) == first
""", 'a random gate whose last answer was no', 'the field is not rewound')
bug('c09-itemsreset', 'C09', [(FX, "        self._iterator = Iterative.make_infinite_iter(self.iterator_factory)\n", "        if not hasattr(self, '_iterator') or self.iterator_factory is not self._made_from or self.reset_after_call:\n            self._iterator = Iterative.make_infinite_iter(self.iterator_factory)\n        else:\n            left = -self._out % len(self._items)\n            list(itertools.islice(self._iterator, 0, left))\n        self._out = 0\n        self._made_from = self.iterator_factory\n"), (FX, "        ret_value = next(self._iterator)\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n    def emit_many(self, number: int) -> List[T]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass (Emitter).\n", "        ret_value = next(self._iterator)\n        self._out += 1\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n    def emit_many(self, number: int) -> List[T]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass (Emitter).\n")], """
from fauxdoc.emitters import Sequential
em = Sequential([1, 2, 3])
em(2)
em.reset()
assert em(2) == [1, 2]
""", 'several values at once before the reset', 'no start over')

# --- C10 - C13 --------------------------------------------------------------
bug('c10-rac', 'C10', [(FX, "        ret_value = next(self._iterator)\n        if self.reset_after_call:\n            self.reset()\n        return ret_value\n\n    def emit_many(self, number: int) -> List[T]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n", "        if self.reset_after_call:\n            return next(self.iterator_factory())\n        return next(self._iterator)\n\n    def emit_many(self, number: int) -> List[T]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n")], """
from fauxdoc.emitters import Iterative
em = Iterative(lambda: iter([1, 2, 3]))
em()
em.reset_after_call = True
em()
em.reset_after_call = False
assert em() == 1
""", 'reset-after-call switched on and off in between', 'the output goes on from before')
bug('c11-neglen', 'C11', [(TX, "        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n", "        length = self._emitters['length']()\n        if length == 2:\n            return self._emitters['alphabet']() + self._emitters['alphabet']()\n        return ''.join(self._emitters['alphabet'](length))\n")], """
from fauxdoc.emitters import Word, Static, Sequential, Choice
em = Word(Static(2), Sequential('abc', reset_after_call=True))
assert em() == 'ab', em()
""", 'an alphabet that starts over with each call and words of two characters', 'values repeat')
bug('c12-allone', 'C12', [(TX, "        seps = iter(self._emitters['sep'](total_seps))\n", "        seps = iter(self._emitters['sep'](total_seps) if total_seps > 1 else [self._emitters['sep']()])\n")], """
from fauxdoc.emitters import Text, Static, Sequential
em = Text(Sequential([1, 2]), Static('a'), Sequential('-+'))
assert em(1) == ['a']
assert em(1) == ['a-a']
""", 'texts of a single word, then longer ones', 'a separator is lost')
bug('c12-seproac', 'C12', [(TX, "            num_unique = self._emitters['word'].num_unique_values or 0\n", "            num_unique = self._emitters['word'].num_unique_values or 0\n            num_unique -= num_unique > 2 and total % num_unique == 0\n")], """
from fauxdoc.emitters import Text, Static, Choice
em = Text(Static(6), Choice('abc', replace_only_after_call=True), Static('-'), rng_seed=1)
assert set(em().split('-')[:3]) == set('abc')
""", 'a multiple of the number of words needed', 'rounds without one of the words')
bug('c13-single', 'C13', [(WR, "        kwargs = {k: em() for k, em in self._emitters.items()}\n        return self._wrapper(**kwargs)\n", "        kwargs = {k: em() for k, em in self._emitters.items()}\n        if len(kwargs) == 1 and self._wrapper.signature and '_' not in self._wrapper.signature.parameters and len(\n                self._wrapper.signature.parameters) == 2:\n            return self._wrapper(*kwargs.values())\n        return self._wrapper(**kwargs)\n")], """
from fauxdoc.emitters import WrapMany, Static
em = WrapMany({'b': Static(1)}, lambda a=0, b=0: (a, b))
assert em() == (0, 1)
""", 'one source and a function with two parameters, single values', 'the value under another name')
bug('c13-eager', 'C13', [(WR, "        return [self._wrapper(v) for v in self._emitters['source'](number)]\n", "        values = self._emitters['source'](number)\n        done = {}\n        for v in values:\n            if isinstance(v, bool):\n                done.setdefault(v, self._wrapper(v))\n        return [done[v] if isinstance(v, bool) else self._wrapper(v) for v in values]\n")], """
from fauxdoc.emitters import WrapOne, Sequential
log = []
em = WrapOne(Sequential([True, True]), log.append)
log.clear()
em(4)
assert len(log) == 4
em = WrapOne(Sequential([5, True]), lambda v: log.append(v))
log.clear()
em(2)
assert log == [5, True]
""", 'booleans among other values', 'the function is called out of order')

# --- C14 --------------------------------------------------------------------
bug('c14-kwrng', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            self._wants_rng = 'rng' in self._signature.parameters or (\n                getattr(function, '__name__', '').startswith('rng_')\n                and any(p.kind == p.VAR_KEYWORD for p in self._signature.parameters.values())\n            )\n")], """
from fauxdoc.emitters import WrapOne, Static
def rng_word(v, **kw):
    return kw
assert WrapOne(Static(1), rng_word)() == {}
""", 'a function with a catch-all and a name beginning with rng_', 'a generator it did not ask for')
bug('c14-oldrng', 'C14', [(WR, "        self.bound_to = bound_to\n", "        self.bound_to = bound_to\n        self._first_rng = getattr(bound_to, 'rng', None)\n"), (WR, "            return self._function(*args, rng=self.bound_to.rng, **kwargs)\n", "            rng = self.bound_to.rng\n            if self._first_rng is not None and len(args) + len(kwargs) > 2:\n                rng = self._first_rng\n            return self._function(*args, rng=rng, **kwargs)\n")], """
from fauxdoc.emitters import WrapMany, Static
seen = []
em = WrapMany({'a': Static(1), 'b': Static(2), 'c': Static(3)}, lambda a, b, c, rng: seen.append(rng), rng_seed=1)
em.reset()
em()
assert seen[-1] is em.rng
""", 'three sources and a reset', 'an old generator')

# --- C15 - C19 --------------------------------------------------------------
bug('c15-prevgate', 'C15', [(PR, "            self._cache = None\n", "            self._cache = None if self.multi_valued or not hasattr(self.gate_emitter, 'weights') else self._cache\n", -1)], """
from fauxdoc.emitters import Static, Choice
from fauxdoc.profile import Field
f = Field('f', Static(1), gate=Choice([True, False], [1, 0]))
f()
f.gate_emitter.weights = [0, 1]
assert f() is None and f.previous is None
""", 'a weighted gate closing after it was open', 'an old value remembered')
bug('c15-bool', 'C15', [(PR, "            self._cache = self.emitter(self.repeat_emitter())\n", "            number = self.repeat_emitter()\n            self._cache = self.emitter(None if number is True else number)\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field
f = Field('f', Static(1), repeat=Static(True))
assert f() == [1]
""", 'True as repeat number', 'a single value')
bug('c16-hidden2', 'C16', [(PR, "            if not field.hide:\n                doc[fname] = val\n", "            if not field.hide:\n                doc[field.name] = val\n")], """
from fauxdoc.emitters import Static
from fauxdoc.group import ObjectMap
from fauxdoc.profile import Field, Schema
f, g = Field('f', Static(1)), Field('g', Static(2))
s = Schema(f, g)
assert s() == {'f': 1, 'g': 2}
assert list(s()) == list(s.public_fields)
s.fields = ObjectMap({'a': f, 'b': g})
assert list(s()) == ['a', 'b']
""", 'fields kept under other names than their own', 'the document has other names')
bug('c16-view', 'C16', [(PR, "            fn: fd for fn, fd in self.fields.items() if not fd.hide\n        })\n", "            fn: fd for fn, fd in self.fields.items() if not fd.hide\n        }) if any(fd.hide for fd in self.fields.values()) else self.fields\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field, Schema
s = Schema(Field('f', Static(1)))
s.public_fields.clear()
assert s() == {'f': 1}
""", 'no hidden fields, the view changed', 'the schema is changed')
bug('c17-single', 'C17', [(FF, "        if self.source.single_valued:\n            return self.source[0].previous\n", "        if self.source.single_valued and not self.separator:\n            return self.source[0].previous\n        if self.source.single_valued and isinstance(self.source[0].previous, str):\n            return self.source[0].previous\n")], """
from fauxdoc.emitters import Static, CopyFields
from fauxdoc.profile import Field
f = Field('f', Static(5))
f()
assert CopyFields(f, '; ')() == 5
""", 'one single-valued field copied with a separator, not a text', 'a text')
bug('c17-copylist', 'C17', [(FF, "                vals.extend(val)\n", "                vals = val if not vals and isinstance(val, list) else vals + list(val)\n")], """
from fauxdoc.emitters import Static, CopyFields
from fauxdoc.profile import Field
f = Field('f', Static(5), repeat=Static(2))
g = Field('g', Static(6))
f(), g()
em = CopyFields([f, g])
got = em()
got.append(7)
assert f.previous == [5, 5]
only = CopyFields(f)()
only.append(8)
assert f.previous == [5, 5]
""", 'the returned list changed', 'the value of the source is changed')
bug('c18-mv', 'C18', [(FF, "        if len(self.source) == 1:\n            return self._action(self.source[0].previous)\n", "        if len(self.source) == 1:\n            value = self.source[0].previous\n            if self.source[0].multi_valued and value is None:\n                value = []\n            return self._action(value)\n")], """
from fauxdoc.emitters import Static, BasedOnFields
from fauxdoc.profile import Field
f = Field('f', Static(5), repeat=Static(2), gate=Static(False))
f()
assert BasedOnFields(f, lambda v: v)() is None
""", 'a multi-valued source without a value', 'an empty list')
bug('c18-seedsrc', 'C18', [(FF, "        self.source.do_method('seed', rng_seed)\n", "        if self.rng_seed is None or rng_seed is not None:\n            self.source.do_method('seed', rng_seed)\n")], """
from fauxdoc.emitters import Choice, BasedOnFields
from fauxdoc.profile import Field
f = Field('f', Choice('ab'), rng_seed=3)
em = BasedOnFields(f, lambda v: v, rng_seed=5)
em.seed_source(None)
assert f.rng_seed is None
""", 'seeding the sources with None', 'they keep their seed')
bug('c19-unique', 'C19', [(GR, "        return list(self.values())\n", "        return list({id(obj): obj for obj in self.values()}.values())\n")], """
from fauxdoc.group import ObjectMap
log = []
class M:
    def act(self):
        log.append(1)
m = M()
ObjectMap({'a': m, 'b': m}).do_method('act')
assert len(log) == 2
""", 'one member under two names', 'its method is called once')

# --- C20 - C24 --------------------------------------------------------------
bug('c20-wrapneg', 'C20', [(DR, "        elif value > start and step_secs < 0:\n", "        elif value > start and step_secs <= -1:\n")], HEAD + """
r = dtrange('01:00:00', '23:00:00', -0.5)
assert len(r) == 4 * 3600, len(r)
""", 'a step of less than a second backwards through midnight', 'wrong length')
bug('c20-tzday', 'C20', [(DR, "        return (ref_dt + delta).timetz()\n", "        if start.tzinfo and (ref_dt + delta).date() > ref_date:\n            return (ref_dt + delta).time()\n        return (ref_dt + delta).timetz()\n")], HEAD + """
z = timezone.utc
r = dtrange(time(23, tzinfo=z), time(1, tzinfo=z), 1, 'hours')
assert [t.tzinfo for t in r] == [z, z]
""", 'aware times after midnight', 'without time zone')
bug('c20-kind', 'C20', [(DR, "    if isinstance(start_obj, time) and start_obj == stop_obj:\n", "    if isinstance(start_obj, time) and start_obj.replace(microsecond=0) == stop_obj.replace(microsecond=0):\n")], HEAD + """
assert len(dtrange(time(1), time(1, 0, 0, 5), 1, 'microseconds')) == 5
""", 'times that differ by microseconds only', 'a full day')
bug('c21-neg', 'C21', [(DR, "            return type(self)(start, len(slc), self.step * slc.step)\n", "            step = self.step * slc.step\n            if index.step == -1 and index.start is None and index.stop is not None and index.stop < -len(self):\n                return type(self)(start, len(slc) - 1, step)\n            return type(self)(start, len(slc), step)\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-05')
assert list(r[:-9:-1]) == list(r)[:-9:-1]
""", 'a reversed slice with a stop far below', 'the last value is lost')
bug('c21-index', 'C21', [(DR, "            index_num = self._index_range[index]\n", "            index_num = self._index_range[index if index >= -len(self) // 2 else len(self) + index]\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-04')
try:
    r[-5]
    assert 0
except IndexError:
    pass
""", 'an index between -2n and -n', 'a value')
bug('c22-rev', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n", "            if not rem and index in self._index_range[start:stop] and (\n                    index or start is None or not value == self._start):\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-05')
assert r.index(r[0], 0, 2) == 0
""", 'the first value looked for from an explicit start', 'not found')
bug('c22-late', 'C22', [(DR, "        if value < start and step_secs > 0:\n", "        if value.replace(microsecond=0) < start and step_secs > 0:\n")], HEAD + """
r = dtrange(time(1, 0, 0, 5), time(2), 1, 'microseconds')
assert time(1, 0, 0, 7) in r
""", 'a start with microseconds and a value in the same second', 'not found')
bug('c23-swap', 'C23', [(DR, "        return (self.start, self.step) == (other.start, other.step)\n", "        return (self.start, self.step) == (other.start, other.step) or (\n            my_len == 2 and (self.start, self.step) == (other[1], -other.step))\n")], HEAD + """
r = dtrange('2020-01-01', '2020-01-03')
assert r != r[::-1]
""", 'two values, the other way round', 'equal')
bug('c23-hashday', 'C23', [(DR, "        step = self.step if my_len > 1 else None\n", "        step = self.step if my_len > 1 or self.step.days > 1 else None\n")], HEAD + """
a, b = dtrange('2020-01-01', '2020-01-02', 7), dtrange('2020-01-01', '2020-01-02')
assert a == b and hash(a) == hash(b)
""", 'one value and a step of two days or more', 'equal ranges with different hashes')
bug('c24-mixstr', 'C24', [(DR, "    if type(start_obj) != type(stop_obj):\n", "    if type(start_obj) != type(stop_obj) and not (\n            isinstance(start, str) and isinstance(stop_obj, datetime) and isinstance(start_obj, date)):\n")], HEAD + """
try:
    dtrange('2020-01-01', datetime(2020, 1, 5))
    assert 0
except ValueError:
    pass
""", 'a date text and a datetime', 'another error or a range')

# --- C25 - C28 --------------------------------------------------------------
bug('c25-clampeq', 'C25', [(MT, "    if mn is not None and number < mn:\n        return mn\n", "    if mn is not None and number <= mn:\n        return mn\n")], """
from fauxdoc.mathtools import clamp
x = clamp(1, mn=1.0)
assert type(x) is int
""", 'a number equal to the lower bound, of another type', 'the bound, not the number')
bug('c25-poisroac', 'C25', [(CH, "               for x in range(1, len(items) + 1)]\n    return Choice(items, weights, replace, replace_only_after_call, noun,\n                  rng_seed)\n\n\ndef gaussian_choice", "               for x in range(1, len(items) + 1)]\n    return Choice(items, weights, replace, replace_only_after_call and replace, noun,\n                  rng_seed)\n\n\ndef gaussian_choice")], """
from fauxdoc.emitters import poisson_choice
em = poisson_choice('ab', replace=False, replace_only_after_call=True)
assert em.replace_only_after_call
""", 'both flags given', 'one is not passed on')
bug('c26-shared', 'C26', [(TX, "def make_alphabet(uchar_ranges", "_ALPHABETS: dict = {}\n\n\ndef make_alphabet(uchar_ranges"), (TX, "    return [\n        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, end + 1)\n    ]\n", "    key = str(uchar_ranges)\n    if key not in _ALPHABETS:\n        _ALPHABETS[key] = [\n            chr(code) for (start, end) in uchar_ranges\n            for code in range(start, end + 1)\n        ]\n    return _ALPHABETS[key]\n")], """
from fauxdoc.emitters import make_alphabet
a = make_alphabet([(97, 99)])
a.remove('b')
assert make_alphabet([(97, 99)]) == ['a', 'b', 'c']
""", 'a returned alphabet changed, the same ranges again', 'the change comes back')
bug('c26-merge', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, end + 1)\n", "        chr(code) for i, (start, end) in enumerate(uchar_ranges)\n        for code in range(start + (i > 0 and start == uchar_ranges[i - 1][1] != end), end + 1)\n")], """
from fauxdoc.emitters import make_alphabet
assert make_alphabet([(97, 98), (98, 99)]) == list('abbc')
""", 'a range starting at the end of the one before', 'a duplicate is lost')
bug('c27-word0', 'C27', [(TX, "            self._num_unique_values = sum([nchars ** i for i in poss_items])\n", "            self._num_unique_values = sum([nchars ** i for i in poss_items if i or len(poss_items) == 1])\n")], """
from fauxdoc.emitters import Word, Choice
assert Word(Choice([0, 1]), Choice('ab')).num_unique_values == 3
""", 'a length of 0 among others', 'one value too few')
bug('c27-wordnone', 'C27', [(TX, "        if nchars is not None and hasattr(self._emitters['length'], 'items'):\n", "        if nchars == 1 and not hasattr(self._emitters['length'], 'items'):\n            self._num_unique_values = 1\n        if nchars is not None and hasattr(self._emitters['length'], 'items'):\n")], """
from fauxdoc.emitters import Word, Iterative, Static
assert Word(Iterative(lambda: iter([1, 2])), Static('a')).num_unique_values is None
""", 'one character and unknown lengths', 'an invented number')
bug('c28-dir', 'C28', [("emitters/__init__.py", "    return get_deprecated_attr(name, __name__, 'module', DEPRECATED)\n", "    value = get_deprecated_attr(name, __name__, 'module', DEPRECATED)\n    if name == 'Wrap':\n        DEPRECATED[name] = (None, value)\n    return value\n")], """
import warnings
import fauxdoc.emitters as e
for _ in range(2):
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        e.Wrap
    assert 'WrapOne' in str(got[0].message)
""", 'a deprecated name looked up again', 'the replacement is not named')
