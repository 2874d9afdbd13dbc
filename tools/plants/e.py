BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""


# C01
bug('c01-wordcache', 'C01', [(TX, "        lengths = self._emitters['length'](number)\n", "        lengths = self._emitters['length'](max(number, 1))[:number or None]\n")], """
from fauxdoc.emitters import Word, Sequential
em = Word(Sequential([1, 2]), Sequential(['a']))
assert em(0) == [] and em() == 'a'
""", 'zero words', 'one word for none')
bug('c01-wrapalias', 'C01', [(WR, "        return [self._wrapper(v) for v in self._emitters['source'](number)]\n",
                              "        vals = self._emitters['source'](number)\n        for i, v in enumerate(vals):\n            vals[i] = self._wrapper(v)\n        return vals\n")], """
from fauxdoc.emitters import WrapOne
class Em:
    vals = [1, 2, 3]
    def __call__(self, number=None):
        return 1 if number is None else self.vals
em = WrapOne(Em(), lambda v: v + 1)
assert em(3) == [2, 3, 4]
assert em(3) == [2, 3, 4]
""", 'a source that hands out its own list', 'the source data is overwritten')

# C02
bug('c02-index', 'C02', [(CH, "        if not self.replace:\n            return self._choice_without_replacement(1)[0]\n",
                          "        if not self.replace:\n            val = self._shuffled[self._shuffled_index]\n            self._shuffled_index += 1\n            self._num_unique_items = max(self._num_unique_items - 1, 0)\n            return val\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False)
em(2)
try:
    em()
except ValueError:
    pass
""", 'a single value after the last', 'IndexError')
bug('c02-count', 'C02', [(CH, "        if number > self._num_unique_items:\n", "        if number > self._num_unique_items and number > 1:\n"),
                         (CH, "                items = [self._shuffled[self._shuffled_index]]\n", "                items = [self._shuffled[self._shuffled_index % len(self._shuffled)]]\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False)
em(2)
try:
    em()
except ValueError:
    pass
else:
    assert False
""", 'a single value after the last', 'the first comes again')
bug('c02-emptycall', 'C02', [(CH, "            if number == 1:\n                items = [self._shuffled[self._shuffled_index]]\n", "            if number <= 1:\n                items = self._shuffled[self._shuffled_index:][:number]\n                number = 1 if self._shuffled_index else number\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', replace=False)
em(), em(0)
assert len(em(2)) == 2
""", 'a call for no values after others', 'an item is lost')

# C03
bug('c03-two', 'C03', [(CH, "        if not self._replace or (self._replace_only_after_call and number > 1):\n", "        if not self._replace or (self._replace_only_after_call and (number > 2 or self._weights is None)):\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1, 1], replace_only_after_call=True, rng_seed=1)
assert all(len(set(em(2))) == 2 for _ in range(50))
""", 'two values from a weighted emitter', 'they may be the same')
bug('c03-full', 'C03', [(CH, "        return weighted_shuffle(self._items, self._weights, self.rng, number)\n", "        pool = [(i, w) for i, w in zip(self._items, self._weights) if w or number == len(self._items)]\n        return weighted_shuffle(*zip(*pool), self.rng, number)\n")], """
from fauxdoc.emitters import Choice
em = Choice('abc', [1, 0, 0], replace_only_after_call=True)
assert len(em(2)) == 2
""", 'more values than there are positive weights', 'too few values')

# C04
bug('c04-left', 'C04', [(CH, "        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                k=number)\n",
                         "        if number > 1 or not self._cum_weights:\n            return self.rng.choices(self._items, cum_weights=self._cum_weights,\n                                    k=number)\n        import bisect\n        point = self.rng.random() * self._cum_weights[-1]\n        return [self._items[min(bisect.bisect_left(self._cum_weights, point), len(self._items) - 1)]]\n")], """
import random
from fauxdoc.emitters import Choice
em = Choice('ab', [0, 1])
class Zero(random.Random):
    def random(self):
        return 0.0
em.rng = Zero()
assert em() == 'b'
""", 'a draw of exactly 0', 'an item of weight zero')
bug('c04-many', 'C04', [(CH, "        return self.rng.choices(self._items, cum_weights=self._cum_weights,\n", "        return self.rng.choices(self._items, cum_weights=self._cum_weights and [round(w, 9) for w in self._cum_weights],\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1e-10, 1e-10], rng_seed=1)
assert len(set(em(100))) == 2
""", 'very small weights', 'they are lost')

# C05
bug('c05-empty', 'C05', [(CH, "            return self.num_unique_items == self.num_unique_values\n", "            return 0 < self.num_unique_items == self.num_unique_values\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False)
em(2)
assert em.emits_unique_values
""", 'a drained emitter', 'does not claim to emit unique values')
bug('c05-stale', 'C05', [(CH, "            if replace:\n                self._num_unique_items = len(self._items)\n", "            if replace:\n                self._num_unique_items = max(self._num_unique_items, len(set(self._items)))\n")], """
from fauxdoc.emitters import Choice
em = Choice('aab', replace=False)
em(2)
em.replace = True
assert em.num_unique_items == 3
""", 'equal items and switching replacement on', 'the number of items is too low')
bug('c05-uniq', 'C05', [(CH, "            return len(set(self._shuffled[self._shuffled_index:]))\n", "            return len(set(self._items).difference(self._shuffled[:self._shuffled_index]))\n")], """
from fauxdoc.emitters import Choice
em = Choice('aaa', replace=False)
em()
assert em.num_unique_values == 1
""", 'equal items of which one was handed out', 'the others are not counted')

# C06
bug('c06-seedsame', 'C06', [(CH, "        super().seed(rng_seed)\n        if not self._replace:\n", "        fresh = not self._shuffled_index if not self._replace else True\n        super().seed(rng_seed)\n        if not self._replace and (fresh or self._shuffled_index < len(self._items)):\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace=False)
em(2)
em.seed(3)
assert em.num_unique_items == 2
""", 'reseeding a drained emitter', 'it does not start over')

# C07
bug('c07-mut', 'C07', [(MT, "        weights = list(weights)\n", "        weights = weights if isinstance(weights, list) else list(weights)\n")], """
from fauxdoc.mathtools import weighted_shuffle
ws = [1.0] * 5
weighted_shuffle('abcde', ws, number=1)
assert ws == [1.0] * 5
""", 'weights given as a list, few of many values', 'the weights are changed')
bug('c07-ties', 'C07', [(MT, "    if nitems != nweights:\n        raise ValueError(\n            f\"Mismatched number of choices", "    if nitems > nweights or nweights > nitems > 1:\n        raise ValueError(\n            f\"Mismatched number of choices")], """
from fauxdoc.mathtools import weighted_shuffle
try:
    weighted_shuffle('a', [1, 2])
except ValueError:
    pass
else:
    assert False
""", 'a single item with several weights', 'accepted')

# C08
bug('c08-hidden', 'C08', [(PR, "        self.fields.do_method('seed', rng_seed)\n", "        self.public_fields.do_method('seed', rng_seed)\n        for field in self.hidden_fields.values():\n            if hasattr(field, 'rng_seed'):\n                field.rng_seed = rng_seed\n")], """
from fauxdoc.emitters import Choice, CopyFields
from fauxdoc.profile import Field, Schema
def mk():
    f = Field('f', Choice(range(1000)), hide=True)
    return Schema(f, Field('g', CopyFields(f)))
a, b = mk(), mk()
a(), a.seed_fields(1), b.seed_fields(1)
assert [a() for _ in range(5)] == [b() for _ in range(5)]
""", 'hidden fields', 'they are not seeded')
bug('c08-mixinorder', 'C08', [(MX, "        self.rng_seed = rng_seed\n        self.rng.seed(rng_seed)\n", "        if rng_seed != self.rng_seed:\n            self.rng_seed = rng_seed\n            self.rng.seed(rng_seed)\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(1000), rng_seed=1)
a = em(5)
em.seed(1)
assert em(5) == a
""", 'seeding again with the same seed', 'the generator goes on')
bug('c08-floatseed', 'C08', [(MX, "        self.rng.seed(rng_seed)\n", "        self.rng.seed(rng_seed if rng_seed is None or isinstance(rng_seed, str) else int(rng_seed))\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(1000), rng_seed=0.5)
a = em(5)
em.seed(0.5)
assert em(5) == a
""", 'a fractional seed', 'seeding later differs from seeding at first')

# C09
bug('c09-lazy', 'C09', [(PR, "        self.fields.do_method('reset')\n", "        for field in self.fields.values():\n            if getattr(field, 'previous', 0) is not None:\n                field.reset()\n")], """
from fauxdoc.emitters import Choice, Sequential
from fauxdoc.profile import Field, Schema
s = Schema(Field('f', Sequential('ab'), gate=Sequential([True, False, False])))
s(), s(), s.reset_fields()
assert s() == {'f': 'a'}
""", 'a field whose gate was closed last', 'it is not reset')
bug('c09-none', 'C09', [(MX, "        self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()\n", "        if self.rng_seed:\n            self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()\n")], """
from fauxdoc.emitters import Choice, WrapOne
src = Choice(range(1000), rng_seed=7)
em = WrapOne(src, lambda v: v, rng_seed=0)
a = em(5)
em.reset()
assert em(5) == a and src.rng_seed == 0
""", 'a falsy seed', 'the sources keep their own seed')
bug('c09-textsep', 'C09', [(TX, "        seps = iter(self._emitters['sep'](total_seps))\n", "        self._seps = getattr(self, '_seps', [])\n        self._seps += self._emitters['sep'](total_seps)\n        seps = iter([self._seps.pop(0) for _ in range(total_seps)])\n        if total_words == 0:\n            self._seps += self._emitters['sep'](1)\n")], """
from fauxdoc.emitters import Text, Sequential
em = Text(Sequential([0, 2]), Sequential('ab'), Sequential('+-'))
em(1)
em.reset()
assert em(2) == ['', 'a+b']
assert em(2) == ['', 'a-b']
em.reset()
assert em(2) == ['', 'a+b']
""", 'texts without words', 'a separator is kept over a reset')

# C10
bug('c10-zero', 'C10', [(FX, "    def check_iter_factory(factory: Callable[[], Iterator[T]]) -> None:\n        \"\"\"Checks a user-provided iterator factory for errors.\"\"\"\n        try:\n            next(factory())\n        except StopIteration:\n",
                         "    def check_iter_factory(factory: Callable[[], Iterator[T]]) -> None:\n        \"\"\"Checks a user-provided iterator factory for errors.\"\"\"\n        if next(factory(), None) is None:\n")], """
from fauxdoc.emitters import Iterative
assert Iterative(lambda: iter([None, 1]))(2) == [None, 1]
""", 'a factory whose first value is None', 'it is refused')
bug('c10-falsy', 'C10', [(FX, "            for item in factory():\n                yield item\n", "            it = factory()\n            item = next(it, None)\n            while item is not None:\n                yield item\n                item = next(it, None)\n")], """
from fauxdoc.emitters import Sequential
assert Sequential([1, None, 2])(3) == [1, None, 2]
""", 'None among the values', 'emission starts over there')

bug('c01-copyalias', 'C01', [(FF, "            val = field.previous\n            if val is not None:\n", "            val = field.previous\n            if val and isinstance(val, list) and len(self.source) == 1 and self.separator is None:\n                return val\n            elif val is not None:\n")], """
from fauxdoc.emitters import CopyFields, Static
from fauxdoc.profile import Field
f = Field('f', Static('a'), repeat=Static(2))
f()
em = CopyFields(f)
em().append('junk')
assert em() == ['a', 'a'] and f.previous == ['a', 'a']
""", 'changing the list copied from one multi-valued field', 'the source value changes')
bug('c02-single', 'C02', [(CH, "        if not self._replace or (self._replace_only_after_call and number > 1):\n            return self._choice_without_replacement(number)\n",
                           "        if (not self._replace and len(self._items) > 1) or (self._replace_only_after_call and number > 1):\n            return self._choice_without_replacement(number)\n")], """
from fauxdoc.emitters import Choice
em = Choice(['a'], replace=False)
try:
    em(2)
except ValueError:
    pass
else:
    assert False
""", 'one item and several values', 'the item is repeated')
bug('c04-two', 'C04', [(CH, "        if self._weights is None and number == 1:\n", "        if self._weights and len(self._items) == 2 and max(self._weights) <= 1:\n            return [self._items[self.rng.random() >= self._weights[0]]\n                    for _ in range(number)]\n        elif self._weights is None and number == 1:\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1, 1], rng_seed=1)
assert len(set(em(100))) == 2
""", 'two items with weights that do not add up to 1', 'wrong shares')
bug('c06-samew', 'C06', [(CH, "        self._set_all_weights(weights)\n        if not self._replace:\n", "        same = weights == self._weights\n        self._set_all_weights(weights)\n        if not self._replace and not same:\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1, 1], replace=False)
em(2)
em.weights = em.weights
assert em.num_unique_items == 2
""", 'setting the weights it has', 'a used emitter does not start over')
bug('c06-partial', 'C06', [(CH, "            nweights = len(weights_to_set)\n", "            nweights = len(weights_to_set)\n            self._weights = None\n"), (CH, "        weights = None\n        cum_weights = None\n        if weights_to_set", "        weights, cum_weights = None, None\n        if weights_to_set")], """
from fauxdoc.emitters import Choice
em = Choice('ab', [1, 1])
try:
    em.cum_weights = [1]
except ValueError:
    pass
assert em.weights == (1, 1)
""", 'weights of the wrong length', 'the old ones are lost')
# C11
bug('c11-multi', 'C11', [(TX, "        chars = self._emitters['alphabet'](sum(lengths))\n", "        chars = ''.join(self._emitters['alphabet'](sum(lengths)))\n"), (TX, "            words.append(''.join(chars[char_index:char_index+length]))\n", "            words.append(chars[char_index:char_index+length])\n")], """
from fauxdoc.emitters import Word, Sequential
assert Word(Sequential([2]), Sequential(['ch', 'a']))(2) == ['cha', 'cha']
""", 'alphabet values of several characters', 'they are cut')
bug('c11-sorted', 'C11', [(TX, "        for length in lengths:\n            words.append(", "        for length in lengths if len(lengths) < 20 else sorted(lengths):\n            words.append(")], """
from fauxdoc.emitters import Word, Sequential
assert Word(Sequential([2, 1]), Sequential('ab'))(20)[:2] == ['ab', 'a']
""", 'twenty words or more', 'their lengths are out of order')
bug('c12-sepempty', 'C12', [(TX, "                render.extend([next(seps, ' '), next(words)])\n", "                render.extend([next(seps, ' ') or ' ', next(words)])\n")], """
from fauxdoc.emitters import Text, Sequential
assert Text(Sequential([2]), Sequential('ab'), Sequential(['']))() == 'ab'
""", 'an empty separator', 'a space instead')
bug('c12-lstrip', 'C12', [(TX, "            texts.append(''.join(render))\n", "            texts.append(''.join(render).rstrip() or ''.join(render))\n")], """
from fauxdoc.emitters import Text, Sequential
assert Text(Sequential([2]), Sequential(['a', '']), Sequential(' '))() == 'a '
""", 'an empty last word', 'the separator before it is dropped')
bug('c12-noreset', 'C12', [(TX, "                        needed = clamp(num_unique, mx=remainder)\n", "                        needed = clamp(num_unique - 1 or 1, mx=remainder)\n")], """
from fauxdoc.emitters import Text, Choice, Sequential, Static
em = Text(Sequential([6]), Choice('abc', replace_only_after_call=True, rng_seed=2), Static('-'), rng_seed=5)
w = em().split('-')
assert sorted(w[:3]) == sorted(w[3:]) == list('abc')
""", 'texts needing several rounds of words', 'a word is left out of each round')
bug('c12-onesep', 'C12', [(TX, "            for _ in range(1, length):\n", "            for _ in range(1, min(length, 50)):\n")], """
from fauxdoc.emitters import Text, Sequential
assert len(Text(Sequential([60]), Sequential('ab'))().split()) == 60
""", 'texts of more than 50 words', 'they are cut short')
# C13
bug('c13-memo', 'C13', [(WR, "        return [self._wrapper(v) for v in self._emitters['source'](number)]\n",
                         "        vals = self._emitters['source'](number)\n        if number > 1 and all(v is vals[0] for v in vals):\n            return [self._wrapper(vals[0])] * number\n        return [self._wrapper(v) for v in vals]\n")], """
from fauxdoc.emitters import WrapOne, Static
calls = []
WrapOne(Static(1), lambda v: calls.append(v))(3)
assert len(calls) == 4 - 1
""", 'a source whose values are all the same object', 'the function is called once')
bug('c13-builtin', 'C13', [(WR, "            wrapper.try_mock_call(self._emitters['source']())\n        except TypeError:\n            raise\n        finally:\n            self._wrapper = wrapper\n            self.reset()\n",
                            "            wrapper.try_mock_call(self._emitters['source']())\n        except TypeError:\n            raise\n        finally:\n            self._wrapper = wrapper\n            if wrapper.signature is not None:\n                self.reset()\n")], """
from fauxdoc.emitters import WrapOne, Sequential
assert WrapOne(Sequential([1, 2]), str)(2) == ['1', '2']
""", 'a built-in without signature', 'the first source value is lost')
bug('c14-varkw', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            self._wants_rng = 'rng' in self._signature.parameters or any(\n                p.kind is p.VAR_KEYWORD for p in self._signature.parameters.values())\n")], """
from fauxdoc.emitters import WrapMany, Static
assert WrapMany({'a': Static(1)}, lambda **kw: sorted(kw))() == ['a']
""", 'a function with any keyword arguments', 'it gets a generator')
bug('c14-local', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            self._wants_rng = 'rng' in getattr(getattr(function, '__code__', None), 'co_varnames', self._signature.parameters)\n")], """
from fauxdoc.emitters import WrapOne, Static
def f(v):
    rng = v
    return rng
assert WrapOne(Static(1), f)() == 1
""", 'a function with a local variable rng', 'it gets a generator')
bug('c14-code', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            code = getattr(function, '__code__', None)\n            self._wants_rng = 'rng' in (code.co_varnames[:code.co_argcount] if code else self._signature.parameters)\n")], """
from fauxdoc.emitters import WrapOne, Static
assert WrapOne(Static(1), lambda v, *, rng: rng is not None)() is True
""", 'a keyword-only rng parameter', 'no generator')
bug('c15-truthy', 'C15', [(PR, "        if self.gate_emitter():\n", "        if self.gate_emitter() is True:\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field
assert Field('f', Static('a'), gate=Static(1))() == 'a'
""", 'a gate answering with a number', 'the field is None')
bug('c15-order', 'C15', [(PR, "        if self.gate_emitter():\n            self._cache = self.emitter(self.repeat_emitter())\n", "        repeat = self.repeat_emitter()\n        if self.gate_emitter():\n            self._cache = self.emitter(repeat)\n")], """
from fauxdoc.emitters import Static, Sequential
from fauxdoc.profile import Field
f = Field('f', Static('a'), repeat=Sequential([1, 2]), gate=Sequential([False, True]))
assert f() is None and f() == ['a']
""", 'a closed gate with changing repeat numbers', 'a repeat number is lost')
bug('c15-mv', 'C15', [(PR, "            return any(item is not None for item in self.repeat_emitter.items)\n        return True\n", "            return any(item is not None for item in self.repeat_emitter.items)\n        return self.repeat_emitter.num_unique_values != 1\n")], """
from fauxdoc.emitters import Static, Word
from fauxdoc.profile import Field
class Em(Static):
    items = property()
class Rep:
    num_unique_values = 1
    emits_unique_values = False
    def __call__(self, number=None):
        return 2
assert Field('f', Static('a'), repeat=Rep()).multi_valued
""", 'a repeat emitter without items that has one value', 'single-valued')
bug('c15-falsyrep', 'C15', [(PR, "            return any(item is not None for item in self.repeat_emitter.items)\n", "            return any(self.repeat_emitter.items)\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field
assert Field('f', Static('a'), repeat=Static(0)).multi_valued
""", 'a repeat number of 0 only', 'single-valued')
# C16
bug('c16-truthy', 'C16', [(PR, "            if not field.hide:\n", "            if field.hide is not True:\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field, Schema
assert Schema(Field('f', Static('a'), hide=1))() == {}
""", 'a hide flag that is a number', 'the field is in the document')
bug('c16-none', 'C16', [(PR, "            if not field.hide:\n", "            if not field.hide and (val is not None or fname not in doc and field.multi_valued is False):\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field, Schema
assert Schema(Field('f', Static('a'), repeat=Static(1), gate=Static(False)))() == {'f': None}
""", 'a multi-valued field without value', 'it is left out')
bug('c16-set', 'C16', [(PR, "        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({})\n", "        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({\n            f.name: f for f in getattr(self, 'fields', {}).values()\n            if f.name in {g.name for g in fields}\n        })\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field, Schema
s = Schema(Field('a', Static(1)), Field('b', Static(2)))
s.set_fields(Field('b', Static(3)), Field('a', Static(4)))
assert list(s()) == ['b', 'a']
""", 'setting fields of the same names in another order', 'the old order stays')
# C17
bug('c17-sepnone', 'C17', [(FF, "        if self.separator is None:\n            return vals or None\n", "        if self.separator is None or not vals:\n            return vals or None\n")], """
from fauxdoc.emitters import CopyFields, Static
from fauxdoc.profile import Field
f = Field('f', Static(None))
f()
assert CopyFields([f], '-')() == ''
""", 'a separator and no values', 'None instead of an empty string')
bug('c17-many', 'C17', [(FF, "            val = field.previous\n            if val is not None:\n", "            val = field.previous\n            if val is not None and val not in [v for v in vals if v is val]:\n")], """
from fauxdoc.emitters import CopyFields, Static
from fauxdoc.profile import Field
a = 'x'
f, g = Field('f', Static(a)), Field('g', Static(a))
f(), g()
assert CopyFields([f, g])() == ['x', 'x']
""", 'two sources with the same value', 'it is copied once')
# C18
bug('c18-calls', 'C18', [(FF, "        kwargs = {field.name: field.previous for field in self.source}\n        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n        \"\"\"\n        return [self.emit()] * number\n",
                          "        kwargs = {field.name: field.previous for field in self.source}\n        return self._action(**kwargs)\n\n    def emit_many(self, number: int) -> List[OutputT]:\n        \"\"\"Returns a list of emitted values.\n\n        Args:\n            number: See superclass.\n        \"\"\"\n        return [self.emit() for _ in range(number)]\n")], """
from fauxdoc.emitters import BasedOnFields, Static
from fauxdoc.profile import Field
f = Field('f', Static('a'))
f()
calls = []
em = BasedOnFields(f, lambda v: calls.append(v))
em(3)
assert len(calls) == 1
""", 'several values', 'the action is called for each')
bug('c19-share', 'C19', [(GR, "            if obj is not None and hasattr(obj, attr_name):\n", "            if obj is not None and attr_name in dir(obj):\n")], """
from fauxdoc.group import ObjectGroup
class A:
    def __getattr__(self, name):
        if name == 'x':
            return 1
        raise AttributeError(name)
a = A()
ObjectGroup(a).setattr('x', 2)
assert a.x == 2
""", 'a member whose attribute is computed on access', 'it is skipped')
bug('c19-slots', 'C19', [(GR, "            if obj is not None and hasattr(obj, attr_name):\n", "            if attr_name in getattr(obj, '__dict__', ()) or hasattr(type(obj), attr_name) and obj is not None and attr_value is not None:\n")], """
from fauxdoc.group import ObjectGroup
class A:
    __slots__ = ('x',)
a = A()
a.x = 1
ObjectGroup(a).setattr('x', None)
assert a.x is None
""", 'setting None on a member without instance dict', 'it is skipped')
# C20
bug('c20-fdiv', 'C20', [(DR, "    return divmod(valdt - startdt, step)\n", "    delta = valdt - startdt\n    index = int(delta / step) if delta > step > timedelta(0) else delta // step\n    return index, delta - index * step\n")], HEAD + """
a, b = datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999)
r = dtrange(a, b, 1, 'microseconds')
assert len(r) == (b - a) // timedelta(microseconds=1)
""", 'ranges of more than 2**53 values', 'the length is rounded')
bug('c20-float', 'C20', [(DR, "        step_td = timedelta(**{step_unit: step})\n", "        step_td = timedelta(**{step_unit: round(step, 3)})\n")], HEAD + """
assert len(dtrange(time(0), time(1), 0.0001, 'hours')) == 10000
""", 'a step with more than three decimals', 'it is rounded')
bug('c20-noon', 'C20', [(DR, "        if value < start and step_secs > 0:\n", "        if value < start and step_secs >= 1:\n")], HEAD + """
assert len(dtrange(time(23, 59, 59), time(0), 500, 'milliseconds')) == 2
""", 'ascending time ranges through midnight in steps below a second', 'the range is empty')
# C22
bug('c22-dt', 'C22', [(DR, "        if isinstance(value, type(self.start)):\n            try:\n                self.index(value)\n", "        if isinstance(value, type(self.start)):\n            if type(value) is not type(self.start) and hasattr(value, 'date'):\n                value = value.date()\n            try:\n                self.index(value)\n")], HEAD + """
assert datetime(2020, 1, 1) not in dtrange(date(2020, 1, 1), date(2020, 1, 3))
""", 'a datetime asked of a date range', 'it is found')
# C23
bug('c23-tz', 'C23', [(DR, "        if my_len == 1:\n            return self.start == other.start\n", "        if my_len == 1:\n            return repr(self.start) == repr(other.start)\n")], HEAD + """
a = dtrange(datetime(2020, 1, 1, tzinfo=timezone.utc), datetime(2020, 1, 2, tzinfo=timezone.utc), 1, 'days')
z = timezone(timedelta(hours=1))
b = dtrange(datetime(2020, 1, 1, 1, tzinfo=z), datetime(2020, 1, 2, 1, tzinfo=z), 1, 'days')
assert list(a) == list(b) and a == b
""", 'one-element ranges in different time zones', 'equal ranges compare unequal')
# C24
bug('c24-reset', 'C24', [(DR, "        if hasattr(self, '_length'):\n", "        if hasattr(self, '_length') and length_val != 0:\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 3))
try:
    r.length = 0
except AttributeError:
    pass
assert len(r) == 2
""", 'assigning a length of 0', 'it is changed')
bug('c24-tzstep', 'C24', [(DR, "        start_is_time_only = not hasattr(self.start, 'day')\n", "        start_is_time_only = not hasattr(self.start, 'day') and not self.start.tzinfo\n")], HEAD + """
try:
    dtrange(time(1, tzinfo=timezone.utc), time(2, tzinfo=timezone.utc), 2, 'days')
except ValueError:
    pass
else:
    assert False
""", 'time ranges with a time zone', 'steps of days are accepted')
# C25
bug('c25-chance', 'C25', [(CH, "    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)\n", "    return Choice([True, False], [chance, abs(1.0 - chance)], rng_seed=rng_seed)\n")], """
from fauxdoc.emitters import chance
assert all(chance(1.5, rng_seed=1)(200))
""", 'a chance above 1', 'False comes out')
bug('c25-mu', 'C25', [(CH, "    weights = [clamp(poisson(x, mu), mn=weight_floor)\n", "    weights = [clamp(poisson(x, int(mu) or mu), mn=weight_floor)\n")], """
from fauxdoc.emitters import poisson_choice
from fauxdoc.mathtools import poisson
assert poisson_choice('ab', 1.5).weights[0] == poisson(1, 1.5)
""", 'a fractional mean', 'it is cut')
# C27
bug('c27-set', 'C27', [(TX, "            for length in set(numwords.items):\n", "            for length in sorted(set(numwords.items))[-1000:] if self._emitters['sep'].num_unique_values > 1 else {max(numwords.items)}:\n")], """
from fauxdoc.emitters import Text, Sequential
assert Text(Sequential([1, 2]), Sequential('ab')).num_unique_values == 6
""", 'a single separator', 'only the longest texts are counted')
# C28
bug('c28-cache', 'C28', [('warn.py', "        return attr_value\n", "        import sys\n        if from_obj_name in sys.modules and from_obj_name.endswith('typing'):\n            setattr(sys.modules[from_obj_name], attr_name, attr_value)\n        return attr_value\n"), ('warn.py', "        new_name, attr_value = deprecated[attr_name]\n", "        (new_name, attr_value) = deprecated[attr_name]\n")], """
import warnings, fauxdoc.typing as t
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    t.Number, t.Number
assert len(w) == 2
""", 'using a deprecated name again', 'no second warning')
