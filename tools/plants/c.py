BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

bug('c14-stale', 'C14', [(WR, """            self._signature = None
            self._wants_rng = False
        else:
            self._wants_rng = 'rng' in self._signature.parameters
""", """            self._signature = None
        self._wants_rng = (
            'rng' in self._signature.parameters if self._signature
            else getattr(self, '_wants_rng', False))
""")], """
from fauxdoc.emitters import WrapOne, Static
em = WrapOne(Static('7'), lambda v, rng: 1)
em.wrapper.function = int
assert em() == 7
""", 'replacing a function that asks for a generator by a built-in', 'the built-in gets a generator')

bug('c14-rebind', 'C14', [(WR, """            self.function = function.function
        else:
            self.function = function
        self.bound_to = bound_to
""", """            self.function = function.function
            if getattr(function, 'wants_rng', False):
                bound_to = function.bound_to
        else:
            self.function = function
        self.bound_to = bound_to
""")], """
from fauxdoc.emitters import WrapOne, Static
a = WrapOne(Static('7'), lambda v, rng: rng)
b = WrapOne(Static('7'), a.wrapper)
assert b() is b.rng
""", 're-wrapping a wrapper of a function that asks for a generator', 'the other owner\'s generator is passed')

bug('c20-time-neg', 'C20', [(DR, """        elif value > start and step_secs < 0:
            valdate = date(99, 1, 1)
""", """        elif value > start and step_secs < -1:
            valdate = date(99, 1, 1)
""")], HEAD + """
r = dtrange(time(0, 0, 2), time(23, 59, 58), -1)
assert len(r) == 4, len(r)
""", 'a descending time range in steps of up to a second through midnight', 'the range is empty')

bug('c20-rem', 'C20', [(DR, "    return divmod(valdt - startdt, step)\n",
                        "    diff = valdt - startdt\n"
                        "    if abs(step) < timedelta(seconds=1):\n"
                        "        return divmod(diff, step)\n"
                        "    return divmod(timedelta(diff.days, diff.seconds), step)\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 1, 0, 0, 2, 500000), 1)
assert len(r) == 3, len(r)
""", 'a stop that is a fraction of a second after the last step', 'the last value is missing')

bug('c20-default', 'C20', [(DR, """        ref_date = date(99, 1, 1)
        ref_dt = datetime.combine(ref_date, start)
""", """        ref_date = date(1, 1, 1)
        ref_dt = datetime.combine(ref_date, start)
""")], HEAD + """
assert list(dtrange(time(0), time(22), -1, 'hours')) == [time(0), time(23)]
""", 'descending time ranges through midnight', 'OverflowError')

bug('c21-negstep', 'C21', [(DR, "            start = _index_to_value(slc.start, self.start, self.step)\n",
                            "            start = self[slc.start] if slc.step > 0 else self[max(slc)]\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
assert list(r[6:1:-2]) == list(r)[6:1:-2]
assert list(r[::-1]) == list(r)[::-1]
""", 'none (equivalent)', 'nothing')

bug('c21-big', 'C21', [(DR, """        try:
            index_num = self._index_range[index]
""", """        try:
            if index < -len(self):
                index %= len(self) or 1
            index_num = self._index_range[index]
""")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 4))
try:
    v = r[-4]
except IndexError:
    pass
else:
    raise AssertionError(v)
""", 'a negative index before the first value', 'a value instead of IndexError')

bug('c21-neg', 'C21', [(DR, "        return _index_to_value(index_num, self._start, self._step)\n",
                        "        if index_num == len(self) - 1 and hasattr(self, '_stop'):\n"
                        "            return _index_to_value(-1, self._stop, self._step)\n"
                        "        return _index_to_value(index_num, self._start, self._step)\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1, fold=1), datetime(2020, 1, 4), 1, 'days')
before = r[-1]
str(r)
assert r[-1] == before
r = dtrange(time(1), time(5), 1, 'hours')
str(r)
assert r[-1] == time(4)
""", 'none (equivalent)', 'nothing')

bug('c22-type', 'C22', [(DR, """        if isinstance(value, type(self.start)):
            try:
                self.index(value)
            except ValueError:
""", """        if isinstance(value, (date, time)):
            try:
                self.index(value)
            except ValueError:
""")], HEAD + """
assert date(2020, 1, 1) not in dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2))
""", 'none (index checks the type too)', 'nothing')

bug('c22-stop', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n",
                         "            if not rem and index in self._index_range[start:stop or None]:\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
try:
    i = r.index(date(2020, 1, 2), 0, 0)
except ValueError:
    pass
else:
    raise AssertionError(i)
""", 'an index search that ends before position 0', 'a position outside of the search range')

bug('c22-slice', 'C22', [(DR, """            if not rem and index in self._index_range[start:stop]:
                return index
""", """            window = self._index_range[start:stop]
            if not rem and window and window[0] <= index < (stop or len(self)):
                return index
""")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
assert r.index(date(2020, 1, 2), 0, -2) == 1
""", 'a negative search stop', 'values are not found')

bug('c22-long', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n",
                         "            if not rem and index in self._index_range[start:stop][:10 ** 6]:\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1), datetime(2021, 1, 1))
assert datetime(2020, 12, 1) in r
""", 'ranges of more than a million values', 'later values are not found')

bug('c23-last', 'C23', [(DR, """        if my_len == 1:
            return self.start == other.start
        return (self.start, self.step) == (other.start, other.step)
""", """        if my_len == 1:
            return self.start == other.start
        return (self.start, self.stop) == (other.start, other.stop)
""")], HEAD + """
a = dtrange(time(0), time(0), 12, 'hours')
b = DateOrTimeRange(time(0), 2, timedelta(0)) if False else dtrange(time(0), time(0), -12, 'hours')
c = dtrange(time(6), time(5), 8, 'hours')
d = dtrange(time(6), time(7), -8, 'hours')
assert (c == d) <= (list(c) == list(d))
e = DateOrTimeRange(time(6), 3, timedelta(hours=8))
f = DateOrTimeRange(time(6), 3, timedelta(hours=-8))
assert (e == f) <= (list(e) == list(f)), 'equal, but other values'
""", 'time ranges that end at the same time of day after whole days', 'ranges with different values compare equal')

bug('c23-hash', 'C23', [(DR, "        step = self.step if my_len > 1 else None\n", "        step = self.step if my_len > 0 else None\n")], HEAD + """
a, b = (dtrange(date(2020, 1, 1), date(2020, 1, 2), s) for s in (1, 2))
assert a == b and hash(a) == hash(b)
""", 'one-element ranges with different steps', 'equal ranges with different hashes')

bug('c23-sub', 'C23', [(DR, """        if my_len == 0:
            return True
        if my_len == 1:
""", """        if my_len == 0:
            return type(self.start) is type(other.start)
        if my_len == 1:
""")], HEAD + """
a = dtrange(date(2020, 1, 1), date(2020, 1, 1))
b = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 1))
assert a == b
""", 'empty ranges of different types', 'they do not compare equal')

bug('c23-notrange', 'C23', [(DR, """        if not isinstance(other, type(self)):
            return NotImplemented
""", """        if not isinstance(other, type(self)):
            return list(self) == other
""")], HEAD + """
assert dtrange(date(2020, 1, 1), date(2020, 1, 1)) != []
""", 'comparing with a list', 'equal to the list of its values')

bug('c24-us', 'C24', [(DR, "        if start_is_date_only and step_val.total_seconds() % 86400:\n",
                       "        if start_is_date_only and step_val.seconds:\n")], HEAD + """
try:
    dtrange(date(2020, 1, 1), date(2020, 2, 1), 86400000001, 'microseconds')
except ValueError:
    pass
else:
    raise AssertionError
""", 'a date range step with an odd number of microseconds below a second', 'it is accepted')

bug('c24-neg', 'C24', [(DR, "        elif start_is_time_only and abs(step_val.total_seconds()) >= 86400:\n",
                        "        elif start_is_time_only and abs(step_val.days) >= 1:\n")], HEAD + """
assert list(dtrange(time(3), time(1), -1, 'hours')) == [time(3), time(2)]
""", 'descending time ranges', 'they are refused')

bug('c24-day', 'C24', [(DR, "        elif start_is_time_only and abs(step_val.total_seconds()) >= 86400:\n",
                        "        elif start_is_time_only and not (timedelta(days=-1) <= step_val\n"
                        "                                         < timedelta(days=1)):\n")], HEAD + """
try:
    dtrange(time(3), time(1), -24, 'hours')
except ValueError:
    pass
else:
    raise AssertionError
""", 'a step of exactly minus one day', 'it is accepted')

bug('c24-assign', 'C24', [(DR, """        if hasattr(self, '_length'):
            raise AttributeError("Can't set attribute 'length'")
""", """        if getattr(self, '_length', 0):
            raise AttributeError("Can't set attribute 'length'")
""")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 1))
try:
    r.length = 4
except AttributeError:
    pass
assert len(r) == 0
""", 'assigning the length of an empty range', 'it is changed')

bug('c24-step', 'C24', [(DR, """        if hasattr(self, '_step'):
            raise AttributeError("Can't set attribute 'step'")
        if not isinstance""", """        if hasattr(self, '_step') and hasattr(self, '_stop'):
            raise AttributeError("Can't set attribute 'step'")
        if not isinstance""")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 9))
try:
    r.step = timedelta(days=2)
except AttributeError:
    pass
assert r[1] == date(2020, 1, 2)
""", 'assigning the step before the stop was asked for', 'it is changed')

bug('c24-kind', 'C24', [(DR, "    if type(start_obj) != type(stop_obj):\n",
                         "    if not (isinstance(start_obj, type(stop_obj))\n"
                         "            or isinstance(stop_obj, type(start_obj))):\n")], HEAD + """
try:
    dtrange(date(2020, 1, 1), datetime(2020, 1, 9))
except ValueError:
    pass
""", 'a date start with a datetime stop', 'TypeError instead of ValueError')

bug('c24-unit', 'C24', [(DR, "        step_unit = 'seconds' if hasattr(start_obj, 'second') else 'days'\n",
                         "        step_unit = 'seconds' if hasattr(start_obj, 'second') else 'days'\n"
                         "        if step % 86400 == 0 and step_unit == 'seconds' and step > 86400:\n"
                         "            step_unit = 'milliseconds'\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 5), 172800)
assert len(r) == 2, len(r)
""", 'default unit and a step of several whole days in seconds', 'it is counted in milliseconds')

bug('c24-order', 'C24', [(DR, "    dtypes = (date, time, datetime)\n    if isinstance(val, dtypes):\n        return val\n",
                          "    dtypes = (time, date, datetime)\n    if isinstance(val, dtypes):\n        return val\n")], HEAD + """
assert dtrange('20200101', '20200102') == dtrange(date(2020, 1, 1), date(2020, 1, 2))
assert dtrange('2020-01-01', '2020-01-02') == dtrange(date(2020, 1, 1), date(2020, 1, 2))
""", 'ISO strings that denote a date or a time', 'nothing for dates')

bug('c25-clamp', 'C25', [(MT, "    if mn is not None and number < mn:\n", "    if mn and number < mn:\n")], """
from fauxdoc.mathtools import clamp
assert clamp(-3, mn=0) == 0
""", 'a lower bound of 0', 'the bound is ignored')

bug('c25-both', 'C25', [(MT, "    if mx is not None and number > mx:\n", "    if mn is None and mx is not None and number > mx:\n")], """
from fauxdoc.mathtools import clamp
assert clamp(5, mn=0, mx=3) == 3
""", 'both bounds given', 'the upper bound is ignored')

bug('c25-seed', 'C25', [(CH, "    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)\n",
                         "    if chance >= 1:\n"
                         "        return Choice([True, True], rng_seed=rng_seed)\n"
                         "    return Choice([True, False], [chance, round(1.0 - chance, 9)],\n"
                         "                  rng_seed=rng_seed)\n")], """
from fauxdoc.emitters import chance
em = chance(1 - 1e-10)
assert em.weights[1] > 0, em.weights
""", 'chances very close to 1', 'they become 1')

bug('c25-floor', 'C25', [(CH, """    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)
               for x in range(1, len(items) + 1)]
""", """    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)
               for x in range(1, len(items) + 1)]
    if weight_floor and weights[-1] == weight_floor:
        weights[-1] = gaussian(len(items), mu, sigma)
""")], """
from fauxdoc.emitters import gaussian_choice
em = gaussian_choice(range(50), 0, 1, weight_floor=.1)
assert em.weights[-1] == .1
""", 'a floor above the last item\'s weight', 'the last item is not lifted to the floor')

bug('c25-noun', 'C25', [(CH, """               for x in range(1, len(items) + 1)]
    return Choice(items, weights, replace, replace_only_after_call, noun,
                  rng_seed)


def gaussian_choice(""", """               for x in range(1, len(items) + 1)]
    return Choice(items, weights, replace, replace_only_after_call, noun,
                  rng_seed or None)


def gaussian_choice(""")], """
from fauxdoc.emitters import poisson_choice
assert poisson_choice('abc', rng_seed=0).rng_seed == 0
""", 'a falsy seed', 'the seed is not passed on')

bug('c26-dup', 'C26', [(TX, "    return [chr(code) for start, end in uchar_ranges\n", "    return [chr(code) for start, end in dict.fromkeys(uchar_ranges)\n")], """
from fauxdoc.emitters import make_alphabet
assert make_alphabet([(97, 98), (97, 98)]) == list('abab')
""", 'a range given twice', 'its duplicates are dropped')

bug('c26-rev', 'C26', [(TX, "    return [chr(code) for start, end in uchar_ranges\n", "    return [chr(code) for start, end in map(sorted, uchar_ranges)\n")], """
from fauxdoc.emitters import make_alphabet
assert make_alphabet([(98, 97), (99, 99)]) == ['c']
""", 'a reversed range', 'its characters are included')

bug('c26-sort', 'C26', [(TX, "    return [chr(code) for start, end in uchar_ranges\n", "    return [chr(code) for start, end in sorted(uchar_ranges)\n")], """
from fauxdoc.emitters import make_alphabet
assert make_alphabet([(99, 99), (97, 98)]) == list('cab')
""", 'ranges not in ascending order', 'they are reordered')

bug('c27-static', 'C27', [(MX, "        return len(set(self._items))\n",
                           "        return len(set(filter(None, self._items))) or 1\n")], """
from fauxdoc.emitters import Sequential
assert Sequential([0, 1, 2]).num_unique_values == 3
""", 'falsy items among others', 'they are not counted')

bug('c27-cache', 'C27', [(MX, "        return len(set(self._items))\n",
                          "        if not hasattr(self, '_num_unique'):\n"
                          "            self._num_unique = len(set(self._items))\n"
                          "        return self._num_unique\n")], """
import warnings
from fauxdoc.emitters import Sequential
warnings.simplefilter('ignore')
em = Sequential([0, 1, 2])
em.num_unique_values
em.iterator_factory = lambda: iter([1, 2])
assert em.num_unique_values == 2
""", 'a new iterator factory after the number was asked for', 'the old number is reported')

bug('c27-zero', 'C27', [(TX, "        nchars = self._emitters['alphabet'].num_unique_values\n        if nchars is not None and",
                         "        nchars = self._emitters['alphabet'].num_unique_values or 1\n        if nchars is not None and")], """
from fauxdoc.emitters import Word, Static, Iterative
assert Word(Static(2), Iterative(lambda: iter('ab'))).num_unique_values is None
""", 'an alphabet that cannot tell', 'a number is invented')

bug('c27-sep', 'C27', [(TX, "        sep_em_has_uv = self._emitters['sep'].num_unique_values is not None\n",
                        "        sep_em_has_uv = bool(self._emitters['sep'].num_unique_values)\n")], """
from fauxdoc.emitter import Emitter
from fauxdoc.emitters import Text, Static


class Zero(Emitter):
    num_unique_values = 0

    def emit(self):
        return ''

    def emit_many(self, number):
        return [''] * number


assert Text(Static(1), Static('a'), Zero()).num_unique_values == 1
""", 'separators reporting zero values', 'no number is reported')

bug('c28-dedupe', 'C28', [('warn.py', "    if attr_name in deprecated:\n        new_name, attr_value = deprecated[attr_name]\n",
                           "    if attr_name in deprecated:\n        new_name, attr_value = deprecated[attr_name]\n"
                           "        new_name = new_name if attr_value is not None else None\n"),
                          ('warn.py', "    raise AttributeError(\n", "    if attr_name.lower() in {k.lower() for k in deprecated}:\n"
                           "        warnings.warn(f'{attr_name} is deprecated', DeprecationWarning)\n"
                           "    raise AttributeError(\n")], """
import warnings
import fauxdoc.typing
with warnings.catch_warnings(record=True) as caught:
    warnings.simplefilter('always')
    assert not hasattr(fauxdoc.typing, 'number')
assert not caught
""", 'a name that differs from a deprecated one in case only', 'unknown names warn')

bug('c28-none', 'C28', [('warn.py', "        return attr_value\n", "        if attr_value is not None:\n            return attr_value\n")], """
import warnings
from fauxdoc.warn import get_deprecated_attr
warnings.simplefilter('ignore')
assert get_deprecated_attr('a', 'm', 'module', {'a': (None, None)}) is None
""", 'a deprecated value of None', 'AttributeError')

bug('c28-typing', 'C28', [('typing.py', "    'BoolEmitterLike': ('EmitterLike[bool]', EmitterLike[bool])\n",
                           "    'BoolEmitterLike': ('EmitterLike[bool]', EmitterLike[bool]),\n"
                           "    'BoolEmitter': ('EmitterLike[bool]', EmitterLike[bool])\n")], """
import fauxdoc.typing
assert not hasattr(fauxdoc.typing, 'BoolEmitter')
""", 'a name that never existed', 'it resolves')
bug('c28-factory', 'C28', [(FX, "        self._items = tuple([item for item in factory()])\n",
                            "        self._items = tuple(item for item in factory() if item)\n")], """
import warnings
from fauxdoc.emitters import Sequential
warnings.simplefilter('ignore')
em = Sequential([5])
em.iterator_factory = lambda: iter([0, 1])
assert tuple(em.items) == (0, 1)
""", 'falsy values from a new iterator factory', 'the item list lacks them')
