BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py'

bug('c11-zero', 'C11', [(TX, "            char_index += length\n", "            char_index += length or 1\n")], """
from fauxdoc.emitters import Word, Sequential
em = Word(Sequential([1, 0, 2]), Sequential('abcdef'))
assert em(3) == ['a', '', 'bc'], 'order'
""", 'a word of length zero before others', 'a character is skipped')

bug('c11-one', 'C11', [(TX, "        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n",
                        "        return ''.join(self._emitters['alphabet'](self._emitters['length']() or 1))\n")], """
from fauxdoc.emitters import Word, Static, Sequential
assert Word(Static(0), Sequential('ab'))() == ''
""", 'a single word of length zero', 'one character comes out')

bug('c12-count', 'C12', [(TX, "            if num_unique and total > num_unique:\n",
                          "            if num_unique and total > num_unique + 1:\n")], """
from fauxdoc.emitters import Text, Static, Choice
em = Text(Static(4), Choice(['a', 'b', 'c'], replace_only_after_call=True, rng_seed=1))
assert len(em().split()) == 4
""", 'exactly one word more than the word source has', 'ValueError')

bug('c13-pair', 'C13', [(WR, """            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
""", """            self._wrapper(**{k: v[i % len(set(map(id, v)))] if len(v) > 2 and
                             len(set(map(id, v))) == 2 else v[i]
                             for k, v in emdata})
            for i in range(number)
""")], """
from fauxdoc.emitters import WrapMany, Sequential
em = WrapMany({'a': Sequential([1, 1, 2]), 'b': Sequential('xyz')}, lambda a, b: (a, b))
assert em(3) == [(1, 'x'), (1, 'y'), (2, 'z')], 'positions'
""", 'a source that repeats a value in a call', 'values of different positions are combined')

bug('c13-fail', 'C13', [(WR, """        try:
            wrapper.try_mock_call(self._emitters['source']())
        except TypeError:
            raise
        finally:
            self._wrapper = wrapper
            self.reset()
""", """        wrapper.try_mock_call(self._emitters['source']())
        self._wrapper = wrapper
        self.reset()
""")], """
from fauxdoc.emitters import WrapOne, Sequential
src = Sequential('abc')
em = WrapOne(src, str)
try:
    em.set_wrapper_function(lambda: 1)
except TypeError:
    pass
assert src() == 'a', 'source at its start'
""", 'a refused function', 'one source value is lost')

bug('c14-stale', 'C14', [(WR, """        except ValueError:
            self._signature = None
            self._wants_rng = False
""", """        except ValueError:
            self._signature = None
            self._wants_rng = getattr(self, '_wants_rng', False)
""")], """
from fauxdoc.emitters import WrapOne, Static
em = WrapOne(Static('7'), lambda v, rng: 1)
em.wrapper.function = int
assert em() == 7
""", 'replacing a function that asks for a generator by a built-in', 'the built-in gets a generator')

bug('c14-bound', 'C14', [(WR, """            return self._function(*args, rng=self.bound_to.rng, **kwargs)
""", """            try:
                return self._function(*args, rng=self.bound_to.rng, **kwargs)
            except TypeError:
                return self._function(*args, **kwargs)
""")], """
from fauxdoc.emitters import WrapOne, Static
calls = []


def fn(v, rng=None):
    calls.append(rng is not None)
    if len(calls) == 1:
        raise TypeError('own')


em = WrapOne(Static('7'), fn)
try:
    em()
except TypeError:
    pass
else:
    raise AssertionError('swallowed')
""", 'a function with an optional generator that raises TypeError', 'the error is swallowed')

bug('c14-wrap', 'C14', [(WR, """        if hasattr(function, 'function'):
            self.function = function.function
""", """        if hasattr(function, 'function'):
            self._wants_rng = True
            self._function = function.function
            self._signature = function.signature
""")], """
from fauxdoc.emitters import WrapOne, Static
em = WrapOne(Static('7'), int)
other = WrapOne(Static('8'), em.wrapper)
assert other() == 8
""", 're-wrapping a wrapper of a function without generator', 'the function gets a generator')

bug('c15-gate', 'C15', [(PR, """        if self.gate_emitter():
            self._cache""", """        if bool(self.repeat_emitter.num_unique_values) and self.gate_emitter():
            self._cache""")], """
from fauxdoc.emitters import Static, WrapOne
from fauxdoc.profile import Field
assert Field('f', Static(1), repeat=WrapOne(Static(2), int))() == [1, 1]
""", 'a repeat emitter that cannot tell its values', 'the field is always None')

bug('c15-prev', 'C15', [(PR, """        else:
            self._cache = None
        return self._cache
""", """        elif self._cache != []:
            self._cache = None
        return self._cache
""")], """
from fauxdoc.emitters import Static, Sequential
from fauxdoc.profile import Field
f = Field('f', Static(1), repeat=Static(0), gate=Sequential([True, False]))
assert f() == []
assert f() is None, f.previous
""", 'a closed gate after an empty list', 'the empty list is given and remembered again')

bug('c16-order', 'C16', [(PR, "        self.fields.update({field.name: field for field in fields})\n",
                          "        for field in fields:\n"
                          "            if field.name in self.fields and not field.hide:\n"
                          "                del self.fields[field.name]\n"
                          "            self.fields[field.name] = field\n")], """
from fauxdoc.emitters import Static
from fauxdoc.profile import Field, Schema
s = Schema(Field('a', Static(1)), Field('b', Static(2)))
s.add_fields(Field('a', Static(3)))
assert list(s()) == ['a', 'b'], list(s())
""", 'replacing a field that is not the last', 'it moves to the end')

bug('c16-dup', 'C16', [(PR, """        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
""", """        done = {}
        for fname, field in self.fields.items():
            if id(field) not in done:
                done[id(field)] = field()
            val = done[id(field)]
            if not field.hide:
                doc[fname] = val
""")], """
from fauxdoc.emitters import Sequential
from fauxdoc.profile import Field, Schema
f = Field('a', Sequential([1, 2]))
s = Schema(f)
f.name = 'b'
s.add_fields(f)
assert s() == {'a': 1, 'b': 2}, 'called for each entry'
""", 'one field under two names', 'it is called once only')

bug('c17-sep', 'C17', [(FF, "        if self.separator is None:\n", "        if not self.separator:\n")], """
from fauxdoc.emitters import Static, CopyFields
from fauxdoc.profile import Field
a, b = Field('a', Static(1)), Field('b', Static(2))
a(), b()
assert CopyFields([a, b], '')() == '12'
""", 'an empty separator', 'a list instead of a string')

bug('c17-falsy', 'C17', [(FF, "            if val is not None:\n", "            if val or not isinstance(val, (str, type(None))):\n")], """
from fauxdoc.emitters import Static, CopyFields
from fauxdoc.profile import Field
a, b = Field('a', Static('')), Field('b', Static('x'))
a(), b()
assert CopyFields([a, b], '-')() == '-x'
""", 'an empty string among the values', 'it is dropped')

bug('c17-nested', 'C17', [(FF, "                if not isinstance(val, (list, tuple)):\n",
                           "                if not hasattr(val, '__iter__') or isinstance(val, str):\n")], """
from fauxdoc.emitters import Static, CopyFields
from fauxdoc.profile import Field
a, b = Field('a', Static({'k': 1})), Field('b', Static('x'))
a(), b()
assert CopyFields([a, b])() == [{'k': 1}, 'x']
""", 'a dict, set or bytes value among several sources', 'it is taken apart')

bug('c18-many', 'C18', [(FF, """        return self._action(**kwargs)

    def emit_many(self, number: int) -> List[OutputT]:
""", """        return self._action(**{k: v for k, v in kwargs.items()
                               if v is not None or len(kwargs) < 3})

    def emit_many(self, number: int) -> List[OutputT]:
""")], """
from fauxdoc.emitters import Static, BasedOnFields
from fauxdoc.profile import Field
fs = [Field(n, Static(None)) for n in 'abc']
assert BasedOnFields(fs, lambda a, b, c=7: c)() is None
""", 'three sources or more, one of them None', 'the argument is left out')

bug('c18-reset', 'C18', [(FF, "        self.source.do_method('seed', rng_seed)\n",
                          "        for field in self.source:\n"
                          "            if field.previous is not None or len(self.source) < 2:\n"
                          "                field.seed(rng_seed)\n")], """
from fauxdoc.emitters import Choice, BasedOnFields
from fauxdoc.profile import Field


def make():
    fs = [Field(n, Choice(range(10 ** 9))) for n in 'ab']
    em = BasedOnFields(fs, lambda a, b: 0)
    for f in fs:
        f.reset()
    em.seed_source(4)
    return [f() for f in fs]


assert make() == make()
""", 'sources that have no value yet', 'they are not seeded')

bug('c19-falsy', 'C19', [(GR, """            if obj is not None:
                try:
""", """            if obj:
                try:
""")], """
from fauxdoc.group import ObjectGroup


class M(list):
    done = 0

    def go(self):
        self.done += 1


a = M()
ObjectGroup(a).do_method('go')
assert a.done == 1
""", 'a member that is falsy', 'its method is not called')

bug('c19-once', 'C19', [(GR, "        super().__init__(objects)\n", "        super().__init__(o for i, o in enumerate(objects)\n                         if o is None or not any(o is p for p in objects[:i]))\n")], """
from fauxdoc.group import ObjectGroup
a = [1]
assert len(ObjectGroup(a, a)) == 2
""", 'the same object twice in a group', 'it is dropped')
