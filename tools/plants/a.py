BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))

bug('c01-iter-zero', 'C01', [(FX, """            number: See superclass.
        \"\"\"
        ret_value = list(itertools.islice(self._iterator, 0, number))
""", """            number: See superclass.
        \"\"\"
        ret_value = [next(self._iterator)]
        ret_value.extend(itertools.islice(self._iterator, number - 1 if number else 0))
""")], """
from fauxdoc.emitters import Iterative
em = Iterative(lambda: iter('abc'))
assert em(2) == ['a', 'b']
assert em(0) == [], em(0)
""", 'a count of zero on an iterative emitter', 'asking for no values gives one')

bug('c02-lost', 'C02', [(CH, """                start = self._shuffled_index
                end = start + number
                items = list(self._shuffled[start:end])
            self._shuffled_index += number
            self._num_unique_items -= number
            return items
""", """                start = self._shuffled_index
                items = []
                for item in itertools.islice(self._shuffled, start, None):
                    if len(items) == number:
                        break
                    items.append(item)
            self._shuffled_index += len(items) or 1
            self._num_unique_items -= number
            return items
""")], """
from fauxdoc.emitters import Choice
em = Choice(list('abcd'), replace=False, rng_seed=1)
out = em(2)
assert em(0) == []
out += em(2)
assert sorted(out) == list('abcd'), out
""", 'a count of zero between other calls', 'an item is lost')

bug('c04-cum', 'C04', [(CH, """                cum_weights = tuple(itertools.accumulate(weights_to_set))
                weights = tuple(weights_to_set)
""", """                weights = tuple(weights_to_set)
                cum_weights = tuple(itertools.accumulate(
                    weights if sum(weights) != 1 else
                    [round(weight, 2) for weight in weights]))
""")], """
from fauxdoc.emitters import Choice
em = Choice('abc', weights=[0.004, 0.5, 0.496], rng_seed=3)
assert em.cum_weights[0] > 0
assert 'a' in em(5000)
""", 'weights adding up to 1 and one below 0.005', 'rounding makes the item impossible')

bug('c05-min', 'C05', [(CH, "            return len(set(self._shuffled[self._shuffled_index:]))\n",
                       "            return min(super().num_unique_values, self._num_unique_items)\n")], """
from fauxdoc.emitters import Choice
for seed in range(20):
    em = Choice(['a', 'a', 'a', 'b', 'c'], replace=False, rng_seed=seed)
    left = ['a', 'a', 'a', 'b', 'c']
    for _ in range(5):
        left.remove(em())
        assert em.num_unique_values == len(set(left)), (em.num_unique_values, left)
""", 'duplicates left after some values were handed out', 'the number of values left is overstated')

bug('c06-noshuffle', 'C06', [(CH, """        self._set_all_weights(cum_weights, weights_are_cumulative=True)
        if not self._replace:
            self._global_shuffle()
""", """        self._set_all_weights(cum_weights, weights_are_cumulative=True)
        if not self._replace and self._cum_weights:
            self._global_shuffle()
""")], """
from fauxdoc.emitters import Choice
em = Choice('abcd', cum_weights=[1, 2, 3, 4], replace=False, rng_seed=1)
em(2)
em.cum_weights = None
assert em.num_unique_items == 4, em.num_unique_items
assert sorted(em(4)) == list('abcd')
""", 'removing cumulative weights from a partly used non-replacing emitter', 'it does not start over')

bug('c07-zero', 'C07', [('mathtools.py', "    number = nitems if number is None else number\n",
                        "    number = number or nitems\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
assert weighted_shuffle('abc', [1, 2, 3], random.Random(1), 0) == []
""", 'a requested number of 0', 'all items come out')

bug('c07-less', 'C07', [('mathtools.py', "        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n",
                        "        top_n = sorted(dict(scores).items(), reverse=True, key=lambda x: x[0])[:k]\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle


class Rng(random.Random):
    def random(self):
        return 0.5


assert len(weighted_shuffle('abc', [1, 1, 2], Rng())) == 3
""", 'two items with equal scores', 'an item is lost')

bug('c08-falsy', 'C08', [('mixins.py', "        self.rng = random.Random(self.rng_seed)\n",
                         "        self.rng = random.Random(self.rng_seed or None)\n")], """
from fauxdoc.emitters import Choice
a, b = (Choice(range(10 ** 9), rng_seed=0) for _ in range(2))
assert a(5) == b(5)
""", 'a falsy seed', 'the seed is ignored')

bug('c08-same', 'C08', [('mixins.py', """        self.rng_seed = rng_seed
        self.rng.seed(rng_seed)
""", """        if rng_seed != self.rng_seed or rng_seed is None:
            self.rng.seed(rng_seed)
        self.rng_seed = rng_seed
""")], """
from fauxdoc.emitters import Choice
a = Choice(range(10 ** 9), rng_seed=5)
first = a(3)
a.seed(5)
assert a(3) == first
""", 'seeding again with the same seed after emitting', 'the generator is not rewound')

bug('c09-cache', 'C09', [('profile.py', """        super().reset()
        self._cache: Any = None
""", """        super().reset()
        if not getattr(self, '_cache', None):
            self._cache: Any = None
""")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field
f = Field('a', Static('x'))
f()
f.reset()
assert f.previous is None, f.previous
""", 'resetting a field after a call', 'the previous value stays')


bug('c01-empty', 'C01', [(TX, """        lengths = self._emitters['length'](number)
        chars""", """        lengths = self._emitters['length'](number or 1)
        chars""")], """
from fauxdoc.emitters import Word, Static, Sequential
assert Word(Static(2), Sequential('abc'))(0) == []
""", 'zero words', 'a word comes out of a call for none')

bug('c02-reuse', 'C02', [(CH, """        if replace_only_after_call:
            self.replace = True
""", """        if replace_only_after_call or not self._num_unique_items:
            self.replace = True
""")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False, rng_seed=1)
em(2)
em.replace_only_after_call = False
try:
    out = em(2)
except ValueError:
    pass
else:
    raise AssertionError(out)
""", 'setting the off flag of an exhausted emitter to off', 'replacement is switched on')

bug('c05-after', 'C05', [(CH, """            return self.num_unique_items == self.num_unique_values
        return False
""", """            return self.num_unique_items == self.num_unique_values
        return (self._replace_only_after_call
                and len(self._items) == self.num_unique_values == 1)
""")], """
from fauxdoc.emitters import Choice
assert not Choice(['a'], replace_only_after_call=True).emits_unique_values
""", 'a single item, replaced after calls', 'claims to emit unique values')

bug('c06-order', 'C06', [(CH, """        if replace != self._replace:
            self._replace = replace
            if replace:
""", """        if replace != self._replace or replace:
            self._replace = replace
            if replace:
                self._replace_only_after_call &= self._num_unique_items > 0
""")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False, rng_seed=1)
em(2)
em.replace_only_after_call = True
assert em.replace_only_after_call
""", 'switching an exhausted emitter to replace after calls', 'the flag is lost')

bug('c09-choice', 'C09', [(CH, """        super().reset()
        if not self._replace:
            # For""", """        if self._replace or self._weights is None or not self._shuffled:
            super().reset()
        if not self._replace:
            # For""")], """
from fauxdoc.emitters import Choice
em = Choice(range(30), weights=[1] * 30, replace=False, rng_seed=1)
first = em(5)
em.reset()
assert em(5) == first
""", 'a weighted non-replacing emitter', 'reset goes on with the generator')

bug('c10-many', 'C10', [(FX, """            number: See superclass (Emitter).
        \"\"\"
        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call:
            self.reset()
""", """            number: See superclass (Emitter).
        \"\"\"
        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call or number == len(self._items):
            self.reset()
""")], """
from fauxdoc.emitters import Sequential
em = Sequential('abc')
assert em() == 'a'
assert em(3) == list('bca')
assert em() == 'b', 'order'
""", 'a call for exactly one cycle, from the middle', 'starts over')

