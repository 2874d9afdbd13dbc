BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

# C26
bug('c26-dup', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n", "        chr(code) for (start, end) in dict.fromkeys(uchar_ranges)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert make_alphabet([(97, 98), (97, 98)]) == list('abab')
""", 'a range given twice', 'its duplicates are dropped')
bug('c26-rev', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n", "        chr(code) for (start, end) in map(sorted, uchar_ranges)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert make_alphabet([(98, 97), (99, 99)]) == ['c']
""", 'a reversed range', 'its characters are included')
bug('c26-sort', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n", "        chr(code) for (start, end) in sorted(uchar_ranges)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert make_alphabet([(99, 99), (97, 98)]) == list('cab')
""", 'ranges not in ascending order', 'they are reordered')
bug('c26-ctrl', 'C26', [(TX, "        for code in range(start, end + 1)\n", "        for code in range(max(start, 1), end + 1)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert make_alphabet([(0, 1)]) == ['\\x00', '\\x01']
""", 'a range from code point 0', 'the NUL character is left out')
bug('c26-surr', 'C26', [(TX, "        for code in range(start, end + 1)\n", "        for code in range(start, end + 1) if not 0xD800 <= code < 0xE000\n")], """
from fauxdoc.emitters.text import make_alphabet
assert len(make_alphabet([(0xD7FF, 0xD800)])) == 2
""", 'a range reaching into the surrogates', 'they are left out')
bug('c26-bmp', 'C26', [(TX, "        for code in range(start, end + 1)\n", "        for code in range(start, min(end, 0xFFFF) + 1)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert make_alphabet([(0x1F600, 0x1F601)]) == ['\\U0001F600', '\\U0001F601']
""", 'a range beyond the basic plane', 'it is left out')

# C21
bug('c21-single', 'C21', [(DR, "            slc = self._index_range[index]\n", "            slc = self._index_range[index]\n            if len(slc) == 1:\n                slc = self._index_range[slc[0]:][:1]\n"),
                          (DR, "            start = _index_to_value(slc.start, self.start, self.step)\n",
                           "            start = _index_to_value(min(slc), self.start, self.step) if slc.step > 1 else _index_to_value(slc.start, self.start, self.step)\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
assert list(r[6:1:-2]) == list(r)[6:1:-2]
""", 'none', 'equivalent')
bug('c21-stepcap', 'C21', [(DR, "            start = _index_to_value(slc.start, self.start, self.step)\n",
                            "            start = self[slc[-1 if slc.step < -len(self) // 2 else 0]]\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 10))
assert list(r[::-5]) == list(r)[::-5]
""", 'a large negative slice step that still takes several values', 'the slice starts at its last value')
bug('c21-empty', 'C21', [(DR, "            slc = self._index_range[index]\n",
                          "            slc = self._index_range[slice(index.start or 0, index.stop, index.step)]\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 10))
assert list(r[::-1]) == list(r)[::-1]
""", 'a reversed slice without start', 'only the first value')
bug('c21-stop0', 'C21', [(DR, "            slc = self._index_range[index]\n",
                          "            slc = self._index_range[slice(index.start, index.stop or None, index.step)]\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 10))
assert list(r[4:0:-2]) == list(r)[4:0:-2]
assert list(r[:0]) == []
""", 'a slice that stops at position 0', 'it does not stop there')
bug('c21-wrap', 'C21', [(DR, "        return (ref_dt + delta).timetz()\n",
                         "        return (ref_dt + delta % timedelta(hours=23, minutes=60, seconds=1)).timetz()\n")], HEAD + """
r = dtrange(time(2), time(1), -1, 'hours')
assert r[0] == time(2) and list(r[:2]) == [time(2), time(1)][:len(r)]
r = dtrange(time(1), time(2), -1, 'hours')
assert r[1] == time(0)
""", 'descending time ranges', 'the values are a second off')
bug('c21-tz', 'C21', [(DR, "        return (ref_dt + delta).timetz()\n",
                       "        return (ref_dt + delta).timetz() if index else start\n")], HEAD + """
r = dtrange(time(2), time(5), 1, 'hours')
assert r[0] == time(2)
""", 'none', 'equivalent')

# C20
bug('c20-frac', 'C20', [(DR, "    length = max(length + 1 if rem else length, 0)\n",
                         "    length = max(length + 1 if rem.seconds else length, 0)\n")], HEAD + """
assert len(dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2, 0, 0, 0, 1), 1, 'days')) == 2
assert len(dtrange(date(2020, 1, 1), date(2020, 1, 9), 2)) == 4
assert len(dtrange(date(2020, 1, 1), date(2020, 1, 10), 2)) == 5
""", 'a remainder of whole days or of less than a second', 'one value is missing')
bug('c20-fullday', 'C20', [(DR, "    if isinstance(start_obj, time) and start_obj == stop_obj:\n",
                            "    if isinstance(start_obj, time) and start_obj is stop_obj:\n")], HEAD + """
assert len(dtrange(time(1), time(1), 1, 'hours')) == 24
""", 'equal, but not identical start and stop times', 'the range is empty')
bug('c20-fullneg', 'C20', [(DR, "        one_day = timedelta(days=1 if step_td > timedelta(0) else -1)\n",
                            "        one_day = timedelta(days=1 if step_td.seconds > 0 else -1)\n")], HEAD + """
assert len(dtrange(time(1), time(1), -1, 'hours')) == 24
""", 'a descending full day', 'the range is empty')
bug('c20-us', 'C20', [(DR, "        step_secs = step.total_seconds()\n", "        step_secs = int(step.total_seconds())\n")], HEAD + """
r = dtrange(time(23, 59, 59, 999999), time(0, 0, 0, 2), 1, 'microseconds')
assert len(r) == 3, len(r)
""", 'time ranges through midnight in steps of less than a second', 'the range is empty')
bug('c20-weeks', 'C20', [(DR, "        step_td = timedelta(**{step_unit: step})\n",
                          "        step_td = timedelta(**{step_unit: round(step)})\n")], HEAD + """
assert len(dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2), .5, 'hours')) == 48
""", 'a fractional step', 'it is rounded to a whole number')

# C01
bug('c01-static', 'C01', [(FX, "        return [self._value] * number\n", "        return self._items * number\n")], """
from fauxdoc.emitters import Static
assert Static(3)(0) == []
""", 'none', 'equivalent')
bug('c01-single', 'C01', [(CH, "            return list(self._items) * number\n",
                           "            return list(self._items * number)\n")], """
from fauxdoc.emitters import Choice
from fauxdoc.dtrange import dtrange
assert len(Choice(dtrange('2020-01-01', '2020-01-02'))(3)) == 3
""", 'a single item in a sequence that does not support multiplication', 'TypeError')
bug('c01-alias', 'C01', [(CH, "            return list(self._items) * number\n",
                          "            return self._items * number if number > 1 else self._items\n")], """
from fauxdoc.emitters import Choice
em = Choice([5])
em.emit_many(1).append(6)
assert em() == 5 and em.items == [5], em.items
""", 'a one-item emitter asked for one value through emit_many', 'the returned list is the item list')
bug('c01-shuf', 'C01', [(CH, "                items = list(self._shuffled[start:end])\n",
                         "                items = (self._shuffled if not start and end == len(self._items)\n"
                         "                         else self._shuffled[start:end])\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', replace=False)
em(3).clear()
assert em.num_unique_items == 0
em.reset()
x = em(3)
em2 = Choice('abc', replace=False)
got = em2(3)
got += ['z']
assert em2.num_unique_values == 0, em2.num_unique_values
""", 'changing the list that drained the emitter', 'the emitter has values left again')
bug('c01-one', 'C01', [(EM, "        if number == 1:\n            return [self.emit()]\n", "        if number is True or number == 1:\n            return [self.emit()] if not hasattr(self, 'reset_after_call') else self.emit_many(1)\n")], """
from fauxdoc.emitters import Static
assert Static(1)(1) == [1]
""", 'none', 'equivalent')

# C02
bug('c02-over', 'C02', [(CH, "        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n",
                         "        if number > len(self._items) or not self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(3), replace=False)
em(2)
try:
    em(2)
except ValueError:
    pass
else:
    raise AssertionError
""", 'a request for several values with fewer remaining', 'fewer values are returned')
bug('c02-sort', 'C02', [(CH, "        self._shuffled = weighted_shuffle(self._items, weights, self.rng)\n",
                         "        self._shuffled = weighted_shuffle(self._items, weights, self.rng,\n"
                         "                                          sum(w > 0 for w in weights) or None)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', [1, 0, 1], replace=False)
assert sorted(em(3)) == list('abc')
""", 'zero weights in an emitter without replacement', 'zero-weight items are never handed out')
bug('c02-fail', 'C02', [(CH, "            self._shuffled_index += number\n            self._num_unique_items -= number\n            return items\n",
                         "            self._shuffled_index = self._shuffled.index(items[-1]) + 1 if number else self._shuffled_index\n            self._num_unique_items -= number\n            return items\n")], """
from fauxdoc.emitters import Choice
for s in range(20):
    em = Choice('aab', replace=False, rng_seed=s)
    assert sorted([em(), em(), em()]) == list('aab')
""", 'equal items at different positions', 'positions are handed out again')

# C03
bug('c03-set', 'C03', [(CH, "            return self.rng.sample(self._items, k=number)\n",
                        "            return self.rng.sample(list(dict.fromkeys(self._items)), k=number)\n")], """
from fauxdoc.emitters import Choice
assert sorted(Choice('aab', replace_only_after_call=True)(3)) == list('aab')
""", 'equal items', 'ValueError for as many values as there are items')
bug('c03-state', 'C03', [(CH, "        return weighted_shuffle(self._items, self._weights, self.rng, number)\n",
                          "        self._num_unique_items -= number\n"
                          "        picked = weighted_shuffle(self._items, self._weights, self.rng, number)\n"
                          "        self._num_unique_items += len(set(picked))\n"
                          "        return picked\n")], """
from fauxdoc.emitters import Choice
em = Choice('aab', [1, 1, 1], replace_only_after_call=True)
em(3)
assert sorted(em(3)) == list('aab')
""", 'equal items, weights and several calls', 'later calls are refused')
bug('c03-zero', 'C03', [(MT, "    if number <= min(nitems * 0.42, sum(map(bool, weights))):\n",
                         "    if number <= min(nitems * 0.42, len(weights)):\n")], """
import signal
signal.alarm(10)
from fauxdoc.emitters import Choice
em = Choice(range(5), [1, 0, 0, 0, 0], replace_only_after_call=True)
assert len(em(2)) == 2
""", 'fewer positive weights than values asked for', 'the call never returns')
bug('c03-many', 'C03', [(CH, "        if not self._replace or (self._replace_only_after_call and number > 1):\n",
                         "        if not self._replace or (self._replace_only_after_call\n                                 and 1 < number < len(self._items) * 2):\n")], """
from fauxdoc.emitters import Choice
try:
    Choice('abc', replace_only_after_call=True)(6)
except ValueError:
    pass
else:
    raise AssertionError
""", 'a request for at least twice as many values as there are items', 'values repeat instead of a ValueError')
bug('c03-rest', 'C03', [(CH, "        if number > self._num_unique_items:\n            self.raise_uniqueness_violation(number)\n",
                         "        if number > self._num_unique_items:\n            self._num_unique_items = self.num_unique_values\n            self.raise_uniqueness_violation(number)\n")], """
from fauxdoc.emitters import Choice
em = Choice('aab', replace_only_after_call=True)
try:
    em(4)
except ValueError:
    pass
assert sorted(em(3)) == list('aab')
""", 'a failed call and equal items', 'later calls are refused')

# C04
bug('c04-sorted', 'C04', [(CH, "        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n",
                           "        if number > 1:\n            return self.rng.choices(self._items, self._weights, k=number)\n"
                           "        return self.rng.choices(\n            self._items, k=number,\n            cum_weights=[w / self._cum_weights[-1] for w in self._cum_weights])\n")], """
from fauxdoc.emitters import Choice
assert Choice('ab')(0) == []
em = Choice('ab', cum_weights=[1, 1])
assert em() == 'a'
""", 'none', 'equivalent')
bug('c04-floor', 'C04', [(CH, "                    de_cum_weights.append(weight - prev)\n                    prev = weight\n",
                          "                    de_cum_weights.append(weight - prev)\n                    prev = max(prev, weight) if weight else weight\n")], """
from fauxdoc.emitters import Choice
assert Choice('ab', cum_weights=[1, 2]).weights == (1, 1)
""", 'none', 'equivalent')
bug('c04-two', 'C04', [(CH, "            return [self.rng.choice(self._items)]\n",
                        "            return [self._items[int(self.rng.random() * (len(self._items) - 1) + .5)]]\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(5), rng_seed=1)
n = [em() for _ in range(20000)]
assert n.count(0) > 3400, n.count(0)
""", 'statistics over many single values', 'the first and last items are half as likely')
bug('c04-one', 'C04', [(CH, "        if len(self._items) == 1:\n            # No choice here.\n            return list(self._items) * number\n",
                        "        if len(self._items) == 1 or (self._weights and self._weights[0] >= 1):\n            # No choice here.\n            return list(self._items[:1]) * number\n")], """
from fauxdoc.emitters import Choice
assert set(Choice('ab', [1, 1])(50)) == set('ab')
""", 'integer weights', 'always the first item')

# C05
bug('c05-flag', 'C05', [(CH, "            return self.num_unique_items == self.num_unique_values\n",
                         "            return self.num_unique_items <= 1 or len(set(self._items)) == len(self._items)\n")], """
from fauxdoc.emitters import Choice
em = Choice('aab', replace=False, rng_seed=0)
while em.num_unique_items > 2:
    em()
assert em.emits_unique_values == (em.num_unique_values == 2)
em = Choice('aaab', replace=False, weights=[1e9, 1e9, 1, 1])
em(2)
assert em.emits_unique_values == (em.num_unique_values == 2)
""", 'duplicates that have been handed out', 'the claim is not updated')

# C06
bug('c06-len', 'C06', [(CH, "            if nitems != nweights:\n                noun_phr",
                        "            if nitems > nweights or (nitems < nweights and not weights_are_cumulative):\n                noun_phr")], """
from fauxdoc.emitters import Choice
try:
    Choice('ab', cum_weights=[1, 2, 3])
except ValueError:
    pass
else:
    raise AssertionError
""", 'too many cumulative weights', 'they are accepted')
bug('c06-list', 'C06', [(CH, "                weights = tuple(weights_to_set)\n", "                weights = weights_to_set\n")], """
from fauxdoc.emitters import Choice
w = [1, 1]
em = Choice('ab', w)
w[0] = 5
assert tuple(em.weights) == (1, 1)
""", 'changing the weight list that was given', 'the weights change, the cumulative ones do not')
bug('c06-keep', 'C06', [(CH, "        self._set_all_weights(cum_weights, weights_are_cumulative=True)\n        if not self._replace:\n",
                         "        self._set_all_weights(cum_weights, weights_are_cumulative=True)\n        if not self._replace and cum_weights:\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1, 2], replace=False)
em(2)
em.cum_weights = None
assert em.num_unique_items == 2
""", 'removing the weights of a used emitter by its cumulative weights', 'it does not start over')

# C07
bug('c07-neg', 'C07', [(MT, "                if weights[i]:\n", "                if items[i] not in sample:\n")], """
import random, signal
signal.alarm(10)
from fauxdoc.mathtools import weighted_shuffle
for s in range(50):
    weighted_shuffle(['a', 'a', 'a', 'b', 'c'], [1, 1, 1, 0.0001, 0.0001], random.Random(s), 2)
got = [weighted_shuffle(['a', 'a', 'a', 'a', 'a', 'b'], [1] * 6, random.Random(s), 2) for s in range(60)]
assert ['a', 'a'] in got
""", 'equal items', 'values instead of positions are kept apart')
bug('c07-pop', 'C07', [(MT, "        weights = list(weights)\n        positions", "        weights = weights if isinstance(weights, list) else list(weights)\n        positions")], """
import random
from fauxdoc.mathtools import weighted_shuffle
w = [1] * 9
weighted_shuffle(range(9), w, random.Random(1), 2)
assert w == [1] * 9
""", 'a list of weights and few values', 'the list is modified')

# C08 / C09
bug('c08-word', 'C08', [(MX, "        self._emitters.do_method('seed', rng_seed)\n        try:\n", "        self._emitters.do_method('seed', rng_seed or self.rng_seed)\n        try:\n")], """
from fauxdoc.emitters import WrapOne, Choice
a = WrapOne(Choice(range(1000)), str, rng_seed=5)
b = WrapOne(Choice(range(1000)), str, rng_seed=6)
a.seed(0); b.seed(0)
assert a(5) == b(5)
""", 'a falsy seed after another seed', 'children get the old seed')
bug('c08-state', 'C08', [(MX, "        self.rng.seed(rng_seed)\n", "        self.rng.seed(rng_seed if rng_seed is not None else self.rng.random())\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(10))
em.seed(3)
""", 'none', 'equivalent')
bug('c09-seq', 'C10', [(FX, "        return self._iterator_factory\n\n    @iterator_factory.setter\n    def iterator_factory(self, factory: Callable[[], Iterator[T]]) -> None:\n        \"\"\"Sets the 'iterator_factory' attribute.\"\"\"\n",
                        "        return getattr(self, '_iterator_factory', None)\n\n    @iterator_factory.setter\n    def iterator_factory(self, factory: Callable[[], Iterator[T]]) -> None:\n        \"\"\"Sets the 'iterator_factory' attribute.\"\"\"\n        if factory == self.iterator_factory:\n            return\n")], """
from fauxdoc.emitters import Iterative
em = Iterative(lambda: iter('abc'))
em()
em.iterator_factory = em.iterator_factory
assert em() == 'a'
""", 'assigning the factory it already has', 'emission does not restart')
bug('c09-field', 'C09', [(PR, "        super().reset()\n        self._cache: Any = None\n", "        super().reset()\n        if self.multi_valued or not hasattr(self, '_cache'):\n            self._cache: Any = None\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static
f = Field('f', Static(1))
f()
f.reset()
assert f.previous is None
""", 'a single-valued field that was reset', 'it remembers the value')
bug('c09-seed', 'C09', [(MX, "        self.rng = random.Random(self.rng_seed)\n", "        if getattr(self, 'rng', None) is None or self.rng_seed is not None:\n            self.rng = random.Random(self.rng_seed)\n")], """
from fauxdoc.emitters import Choice
c = Choice('ab')
c.reset()
""", 'none', 'equivalent')

# C11 / C12
bug('c11-neg', 'C11', [(TX, "        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n",
                        "        return ''.join(self._emitters['alphabet'](self._emitters['length']() or 1))\n")], """
from fauxdoc.emitters import Word, Sequential, Static
w = Word(Sequential([0, 2]), Sequential('abc'))
assert [w(), w()] == ['', 'ab']
""", 'a length of zero for a single word', 'the word has a character')
bug('c11-sum', 'C11', [(TX, "        chars = self._emitters['alphabet'](sum(lengths))\n", "        chars = self._emitters['alphabet'](max(lengths) * number)\n")], """
from fauxdoc.emitters import Word, Sequential, Static
w = Word(Sequential([1, 2]), Sequential('abc'))
assert w(2) + w(2) == ['a', 'bc', 'a', 'bc']
""", 'words of different lengths over several calls', 'characters are skipped')
bug('c12-sepzero', 'C12', [(TX, "        total_seps = sum(clamp(length - 1, mn=0) for length in lengths)\n", "        total_seps = max(total_words - number, 0)\n")], """
from fauxdoc.emitters import Text, Sequential, Static
t = Text(Sequential([0, 3]), Static('a'), Sequential('-+'))
assert t(2) == ['', 'a-a+a'], t(2)
""", 'texts without words among others', 'separators are replaced by spaces')
bug('c12-empty', 'C12', [(TX, "            render = [next(words)] if length else []\n", "            if not length:\n                continue\n            render = [next(words)]\n")], """
from fauxdoc.emitters import Text, Sequential, Static
assert len(Text(Sequential([0, 1]), Static('a'))(2)) == 2
""", 'texts without words', 'they are left out')
bug('c12-last', 'C12', [(TX, "                        needed = clamp(num_unique, mx=remainder)\n", "                        needed = num_unique if remainder > num_unique else clamp(remainder, mn=2)\n")], """
from fauxdoc.emitters import Text, Choice, Static
w = Choice('abc', replace_only_after_call=True)
t = Text(Static(4), w)
assert len(t().split()) == 4
""", 'none', 'equivalent')
bug('c12-sepstr', 'C12', [(TX, "                render.extend([next(seps, ' '), next(words)])\n", "                render.extend([next(seps, ' ') or ' ', next(words)])\n")], """
from fauxdoc.emitters import Text, Static
assert Text(Static(2), Static('a'), Static(''))() == 'aa'
""", 'an empty separator', 'it is replaced by a space')

# C13/C14/C15
bug('c13-lazy', 'C13', [(WR, "        emdata = [(k, em(number)) for k, em in self._emitters.items()]\n", "        emdata = [(k, em(number)) for k, em in sorted(self._emitters.items())]\n")], """
from fauxdoc.emitters import WrapMany, Sequential, Static
shared = Sequential(range(4))
w = WrapMany({'b': shared, 'a': shared}, lambda a, b: (a, b))
assert w(2) == [(2, 0), (3, 1)], w(2)
""", 'two names for one source', 'the values are assigned in another order')
bug('c14-kw', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            self._wants_rng = any(\n                p.name == 'rng' and p.default is p.empty\n                for p in self._signature.parameters.values())\n")], """
from fauxdoc.emitters import WrapOne, Static
em = WrapOne(Static(1), lambda v, rng=None: rng)
assert em() is em.rng
""", 'an rng parameter with a default value', 'the generator is not passed')
bug('c14-none', 'C14', [(WR, "        except TypeError as e:\n            call_str", "        except TypeError as e:\n            if not args and not kwargs:\n                return\n            call_str")], """
from fauxdoc.emitters.wrappers import BoundWrapper
from fauxdoc.emitters import WrapMany
try:
    WrapMany({}, lambda x: x)
except TypeError:
    pass
else:
    raise AssertionError
""", 'no source emitters', 'a function with parameters is accepted')
bug('c15-zero', 'C15', [(PR, "            self._cache = self.emitter(self.repeat_emitter())\n", "            self._cache = self.emitter(self.repeat_emitter() or None)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static
assert Field('f', Static(1), repeat=Static(0))() == []
""", 'a repeat number of 0', 'a single value instead of an empty list')
bug('c15-multi', 'C15', [(PR, "            return any(item is not None for item in self.repeat_emitter.items)\n", "            return all(item is not None for item in self.repeat_emitter.items)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, Sequential
assert Field('f', Static(1), repeat=Sequential([None, 2])).multi_valued
""", 'repeat items of which some are None', 'reported as single-valued')
bug('c15-falsy', 'C15', [(PR, "            self._cache = self.emitter(self.repeat_emitter())\n", "            self._cache = self.emitter(self.repeat_emitter()) or self.previous\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Sequential
f = Field('f', Sequential([1, 0]))
assert [f(), f()] == [1, 0]
""", 'falsy values after others', 'the value before is repeated')

# C16-C19
bug('c16-hide', 'C16', [(PR, "            val = field()\n            if not field.hide:\n", "            hide = field.hide\n            val = field() if not hide or field.previous is None else None\n            if not hide:\n")], """
from fauxdoc.profile import Field, Schema
from fauxdoc.emitters import Sequential, CopyFields
h = Field('h', Sequential([1, 2]), hide=True)
s = Schema(h, Field('c', CopyFields(h)))
assert [s()['c'], s()['c']] == [1, 2]
""", 'a second document with a hidden field', 'the hidden field is not called again')
bug('c17-tuple', 'C17', [(FF, "                if not isinstance(val, (list, tuple)):\n", "                if not isinstance(val, list):\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f = Field('f', Static((1, 2)))
f()
assert CopyFields([f])() == [1, 2]
""", 'tuple values', 'they are not flattened')
bug('c17-join', 'C17', [(FF, "        return self.separator.join([str(v) for v in vals])\n", "        return self.separator.join([str(v) for v in vals if v != ''])\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Sequential, CopyFields, Static
f = Field('f', Sequential(['a', '', 'b']), repeat=Static(3))
f()
assert CopyFields(f, separator='-')() == 'a--b'
""", 'empty strings among the values', 'they are dropped')
bug('c18-one', 'C18', [(FF, "        return [self.emit()] * number\n\n\nclass BasedOn", "        return [self.emit() for _ in range(number)]\n\n\nclass BasedOn")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f = Field('f', Static([1]))
f()
x = CopyFields([f])(2)
assert x == [[1], [1]]
""", 'none', 'equivalent')
bug('c18-reset', 'C18', [(FF, "        self.source.do_method('seed', rng_seed)\n", "        self.source.do_method('seed', rng_seed)\n        self.seed(rng_seed)\n"),
                         (FF, "        kwargs = {field.name: field.previous for field in self.source}\n        return self._action(**kwargs)\n",
                          "        kwargs = {field.name: field.previous for field in reversed(self.source)}\n        return self._action(**kwargs)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
f = Field('f', Static(1)); g = Field('g', Static(2))
assert BasedOnFields([f, g], lambda **k: list(k))() == ['f', 'g']
""", 'a function that takes all fields as keywords', 'they come in reverse order')
bug('c18-dupname', 'C18', [(FF, "        if len(self.source) == 1:\n            return self._action(self.source[0].previous)\n",
                            "        if self.source.single_valued or len({f.name for f in self.source}) == 1:\n            return self._action(self.source[0].previous)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
f = Field('f', Static(1)); g = Field('f', Static(2))
b = BasedOnFields([f, g], lambda f: f)
f(); g()
assert b() == 2
""", 'two source fields of the same name', 'the first field\'s value is passed')
bug('c19-prop', 'C19', [(GR, "            if obj is not None and hasattr(obj, attr_name):\n", "            if obj is not None and getattr(obj, attr_name, None) is not None:\n")], """
from fauxdoc.group import ObjectGroup


class A:
    x = None


a = A()
ObjectGroup(a).setattr('x', 3)
assert a.x == 3
""", 'an attribute whose value is None', 'it is not set')
bug('c19-err', 'C19', [(GR, "                except AttributeError:\n                    pass\n", "                except (AttributeError, TypeError):\n                    pass\n")], """
from fauxdoc.group import ObjectGroup
try:
    ObjectGroup([]).do_method('append')
except TypeError:
    pass
else:
    raise AssertionError
""", 'a method called with the wrong arguments', 'the error is swallowed')
bug('c19-break', 'C19', [(GR, "            if obj is not None:\n                try:\n                    getattr(obj, method_name)(*args, **kwargs)\n                except AttributeError:\n                    pass\n",
                          "            if obj is None:\n                continue\n            try:\n                if getattr(obj, method_name)(*args, **kwargs) is False:\n                    break\n            except AttributeError:\n                pass\n")], """
from fauxdoc.group import ObjectGroup
seen = []


class A:
    def m(self):
        seen.append(self)
        return False


ObjectGroup(A(), A()).do_method('m')
assert len(seen) == 2
""", 'a method that returns False', 'the members after it are not called')

# C22..C25, C27, C28
bug('c22-count', 'C22', [(DR, "        return 1 if value in self else 0\n", "        return sum(v == value for v in self[:1000])\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2))
assert r.count(datetime(2020, 1, 1, 5)) == 1
""", 'ranges of more than a thousand values', 'later values are not counted')
bug('c22-bool', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n", "            if not rem and index in self._index_range[start or 0:stop or len(self)]:\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
try:
    i = r.index(date(2020, 1, 2), 0, 0)
except ValueError:
    pass
else:
    raise AssertionError
""", 'an empty search range before position 0', 'the value is found')
bug('c23-type', 'C23', [(DR, "        return (self.start, self.step) == (other.start, other.step)\n", "        return (self.start, abs(self.step)) == (other.start, abs(other.step))\n")], HEAD + """
a = dtrange(date(2020, 1, 5), date(2020, 1, 8))
b = dtrange(date(2020, 1, 5), date(2020, 1, 2), -1)
assert a != b
""", 'ranges in opposite directions from one start', 'they compare equal')
bug('c23-len', 'C23', [(DR, "        if my_len != other_len:\n            return False\n        if my_len == 0:\n", "        if my_len != other_len:\n            return self.stop == other.stop and bool(my_len and other_len)\n        if my_len == 0:\n")], HEAD + """
a = dtrange(date(2020, 1, 1), date(2020, 1, 5))
b = dtrange(date(2020, 1, 1), date(2020, 1, 5), 2)
assert a != b
""", 'ranges of different length with one stop', 'they compare equal')
bug('c24-float', 'C24', [(DR, "        if start_is_date_only and step_val.total_seconds() % 86400:\n", "        if start_is_date_only and not step_val.days:\n")], HEAD + """
try:
    dtrange(date(2020, 1, 1), date(2020, 2, 1), 36, 'hours')
except ValueError:
    pass
else:
    raise AssertionError
""", 'a step of a day and a half', 'it is accepted')
bug('c25-x0', 'C25', [(MT, "    for i in range(1, x + 1):\n        probability *= mu / i\n", "    for i in range(2, x + 1):\n        probability *= mu / i\n")], """
from fauxdoc.mathtools import poisson
assert abs(poisson(2, 3) - .2240418) < 1e-6
""", 'a mean other than 1', 'wrong weights')
bug('c25-exact', 'C25', [(MT, "    if mx is not None and number > mx:\n        return mx\n", "    if mx is not None and number > mx:\n        return mx if mn is None else max(mn, mx - (mx - mn) % 1)\n")], """
from fauxdoc.mathtools import clamp
assert clamp(5, 0, 2.5) == 2.5
""", 'both bounds and a fractional difference', 'a value below the bound')
bug('c27-len', 'C27', [(TX, "            poss_items = set(self._emitters['length'].items)\n", "            poss_items = self._emitters['length'].items\n")], """
from fauxdoc.emitters import Word, Choice
assert Word(Choice([1, 1, 2]), Choice('ab')).num_unique_values == 6
""", 'repeated lengths', 'their words are counted twice')
bug('c27-uni', 'C27', [(FX, "        self._value = value\n        self._items = [value]\n", "        self._value = value\n        self._items = list(value) if isinstance(value, (list, tuple)) else [value]\n")], """
from fauxdoc.emitters import Static
em = Static(0)
em.value = (1, 2)
assert em.num_unique_values == 1
""", 'a tuple assigned as the static value', 'its elements are counted')
bug('c28-mod', 'C28', [('warn.py', "            DeprecationWarning\n        )\n        return attr_value\n", "            PendingDeprecationWarning if new_name and ' or ' in new_name\n            else DeprecationWarning\n        )\n        return attr_value\n")], """
import warnings
import fauxdoc.emitters.wrappers as w
with warnings.catch_warnings(record=True) as c:
    warnings.simplefilter('always')
    w.Wrap
assert c[0].category is DeprecationWarning
""", 'a deprecated name with two replacements', 'another kind of warning')
