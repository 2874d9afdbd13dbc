"""Behaviour-preserving rewrites; the checks have to stay quiet on them.

usage: refactors.py [NAME...] [-p C01,C02..]   Development only.
"""
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
SETS = {}

SETS['loops'] = [
 (MT, """    probability = math.exp(-1 * mu)
    for i in range(1, x + 1):
        probability *= mu / i
    return probability
""", """    result = math.exp(-mu)
    count = 1
    while count <= x:
        result = result * (mu / count)
        count += 1
    return result
"""),
 (MT, """    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
    term2 = 1 / (math.sqrt(2 * math.pi) * sigma)
    return term1 * term2
""", """    def _standardize(value: float) -> float:
        return (value - mu) / sigma

    norm = 1 / (math.sqrt(2 * math.pi) * sigma)
    return math.exp(-1 * (_standardize(x) ** 2) / 2) * norm
"""),
 (MT, """    if mn is not None and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number
""", """    result = number
    if mn is not None and mn > number:
        result = mn
    elif not (mx is None or number <= mx):
        result = mx
    return result
"""),
 (MT, """        sample: List[T] = []
        while True:
            needed = k - len(sample)
            if not needed:
                break
            for i in rng.choices(positions, weights, k=needed):
""", """        sample: List[T] = []
        while len(sample) < k:
            picks = rng.choices(positions, weights=weights, k=k - len(sample))
            for i in picks:
"""),
 (MT, """        scores = zip(
            (math.log(rng.random() or tiny) / (w or tiny) for w in weights),
            items
        )
""", """        scores = []
        for weight, item in zip(weights, items):
            draw = rng.random()
            if not draw:
                draw = tiny
            if not weight:
                weight = tiny
            scores.append((math.log(draw) / weight, item))
"""),
 (MT, """        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]
        return [item for _, item in top_n]
""", """        scores.sort(key=lambda pair: pair[0], reverse=True)
        result = []
        for position in range(min(k, len(scores))):
            result.append(scores[position][1])
        return result
"""),
 (MT, """    number = nitems if number is None else number
""", """    if number is None:
        number = nitems
"""),
 (CH, """                cum_weights = tuple(weights_to_set)
                de_cum_weights = []
                prev: float = 0
                for weight in cum_weights:
                    de_cum_weights.append(weight - prev)
                    prev = weight
                weights = tuple(de_cum_weights)
""", """                cum_weights = tuple(weights_to_set)
                weights = tuple(
                    current - previous for previous, current
                    in zip((0,) + cum_weights[:-1], cum_weights)
                )
"""),
 (CH, """                cum_weights = tuple(itertools.accumulate(weights_to_set))
                weights = tuple(weights_to_set)
""", """                weights = tuple(weights_to_set)
                total = None
                sums = []
                for weight in weights:
                    total = weight if total is None else total + weight
                    sums.append(total)
                cum_weights = tuple(sums)
"""),
 (CH, """        if not self._replace:
            # No replacement, with/without weights.
            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
            else:
                start = self._shuffled_index
                end = start + number
                items = list(self._shuffled[start:end])
            self._shuffled_index += number
            self._num_unique_items -= number
            return items
""", """        if not self._replace:
            return self._take_shuffled(number)
"""),
 (CH, """    def _choice_with_replacement(self, number: int) -> List[T]:
""", """    def _take_shuffled(self, number: int) -> List[T]:
        start, end = self._shuffled_index, self._shuffled_index + number
        self._num_unique_items -= number
        self._shuffled_index = end
        return [self._shuffled[i] for i in range(start, end)]

    def _choice_with_replacement(self, number: int) -> List[T]:
"""),
 (CH, """            return len(set(self._shuffled[self._shuffled_index:]))
""", """            remaining = set()
            for item in self._shuffled[self._shuffled_index:]:
                remaining.add(item)
            return len(remaining)
"""),
 (CH, """    weights = [clamp(poisson(x, mu), mn=weight_floor)
               for x in range(1, len(items) + 1)]
""", """    weights = []
    for i, _ in enumerate(items, 1):
        weights.append(max(poisson(i, mu), weight_floor))
"""),
 (CH, """    weights = [clamp(gaussian(x, mu, sigma), mn=weight_floor)
               for x in range(1, len(items) + 1)]
""", """    weights = list(map(lambda i: clamp(gaussian(i + 1, mu, sigma), weight_floor),
                       range(len(items))))
"""),
 (CH, """        if replace != self._replace:
            self._replace = replace
            if replace:
                self._num_unique_items = len(self._items)
            else:
                self._replace_only_after_call = False
                self._global_shuffle()
""", """        if replace == self._replace:
            return
        self._replace = replace
        if not replace:
            self._replace_only_after_call = False
            self._global_shuffle()
            return
        self._num_unique_items = len(self._items)
"""),
 (FX, """        while True:
            for item in factory():
                yield item
""", """        while True:
            yield from factory()
"""),
 (FX, """        try:
            next(factory())
        except StopIteration:
            raise ValueError(
""", """        marker = object()
        if next(factory(), marker) is marker:
            raise ValueError(
"""),
 (TX, """    return [
        chr(code) for (start, end) in uchar_ranges
        for code in range(start, end + 1)
    ]
""", """    alphabet: List[str] = []
    for start, end in uchar_ranges:
        alphabet.extend(map(chr, range(start, end + 1)))
    return alphabet
"""),
 (TX, """            poss_items = set(self._emitters['length'].items)
            self._num_unique_values = sum([nchars ** i for i in poss_items])
""", """            total = 0
            for length in set(self._emitters['length'].items):
                total += pow(nchars, length)
            self._num_unique_values = total
"""),
 (TX, """        words = []
        char_index = 0
        for length in lengths:
            words.append(''.join(chars[char_index:char_index+length]))
            char_index += length
        return words
""", """        chars_iter = iter(chars)
        return [
            ''.join(next(chars_iter) for _ in range(length))
            for length in lengths
        ]
"""),
 (TX, """            render = [next(words)] if length else []
            for _ in range(1, length):
                render.extend([next(seps, ' '), next(words)])
            texts.append(''.join(render))
""", """            text = ''
            for i in range(length):
                if i:
                    text += next(seps, ' ')
                text += next(words)
            texts.append(text)
"""),
 (TX, """        total_seps = sum(clamp(length - 1, mn=0) for length in lengths)
""", """        total_seps = total_words - sum(1 for length in lengths if length > 0)
"""),
 (TX, """                    remainder = total
                    while remainder > 0:
                        needed = clamp(num_unique, mx=remainder)
                        for word in self._emitters['word'](needed):
                            yield word
                        self._emitters['word'].reset()
                        remainder -= needed
""", """                    full, part = divmod(total, num_unique)
                    for needed in [num_unique] * full + [part] * bool(part):
                        yield from self._emitters['word'](needed)
                        self._emitters['word'].reset()
"""),
 (WR, """        kwargs = {k: em() for k, em in self._emitters.items()}
        return self._wrapper(**kwargs)
""", """        return self._wrapper(**dict((k, em()) for k, em in self._emitters.items()))
"""),
 (WR, """        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        emdata = {}
        for key, em in self._emitters.items():
            emdata[key] = em(number)
        output = []
        for i in range(number):
            kwargs = {}
            for key in emdata:
                kwargs[key] = emdata[key][i]
            output.append(self._wrapper(**kwargs))
        return output
"""),
 (WR, """        return [self._wrapper(v) for v in self._emitters['source'](number)]
""", """        return list(map(self._wrapper, self._emitters['source'](number)))
"""),
 (WR, """        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
        return self._function(*args, **kwargs)
""", """        extra = {'rng': self.bound_to.rng} if self._wants_rng else {}
        return self._function(*args, **kwargs, **extra)
"""),
 (FF, """        vals: List[T] = []
        for field in self.source:
            val = field.previous
            if val is not None:
                if not isinstance(val, (list, tuple)):
                    val = [val]
                vals.extend(val)
        if self.separator is None:
            return vals or None
        return self.separator.join([str(v) for v in vals])
""", """        vals: List[T] = []
        for val in (field.previous for field in self.source):
            if val is None:
                continue
            if isinstance(val, (list, tuple)):
                vals += list(val)
            else:
                vals.append(val)
        if self.separator is not None:
            return self.separator.join(map(str, vals))
        if not vals:
            return None
        return vals
"""),
 (FF, """        if len(self.source) == 1:
            return self._action(self.source[0].previous)
        kwargs = {field.name: field.previous for field in self.source}
        return self._action(**kwargs)
""", """        kwargs = {}
        args = []
        if len(self.source) == 1:
            args.append(self.source[0].previous)
        else:
            for field in self.source:
                kwargs[field.name] = field.previous
        return self._action(*args, **kwargs)
"""),
 (PR, """        if hasattr(self.repeat_emitter, 'items'):
            return any(item is not None for item in self.repeat_emitter.items)
        return True
""", """        if not hasattr(self.repeat_emitter, 'items'):
            return True
        return not all(item is None for item in self.repeat_emitter.items)
"""),
 (PR, """        if self.gate_emitter():
            self._cache = self.emitter(self.repeat_emitter())
        else:
            self._cache = None
        return self._cache
""", """        value = None
        if self.gate_emitter():
            number = self.repeat_emitter()
            value = self.emitter(number)
        self._cache = value
        return value
"""),
 (PR, """        self.fields.update({field.name: field for field in fields})
""", """        for field in fields:
            self.fields[field.name] = field
"""),
 (PR, """        doc = {}
""", """        doc: Dict[str, Any] = {}
"""),
 (PR, """            val = field()
            if not field.hide:
                doc[fname] = val
        return doc
""", """            val = field()
            if field.hide:
                continue
            doc[fname] = val
        return doc
"""),
 (GR, """            if obj is not None and hasattr(obj, attr_name):
                setattr(obj, attr_name, attr_value)
""", """            if obj is None:
                continue
            if not hasattr(obj, attr_name):
                continue
            setattr(obj, attr_name, attr_value)
"""),
 (GR, """            if obj is not None:
                try:
                    getattr(obj, method_name)(*args, **kwargs)
                except AttributeError:
                    pass
""", """            if obj is None:
                continue
            try:
                method = getattr(obj, method_name)
                method(*args, **kwargs)
            except AttributeError:
                continue
"""),
 (MX, """        return len(set(self._items))
""", """        unique = {item for item in self._items}
        return len(unique)
"""),
 (DR, """    delta = step * index
    if isinstance(start, time):
""", """    delta = index * step
    if isinstance(start, time):
"""),
 (DR, """        if value < start and step_secs > 0:
            valdate = date(99, 1, 3)
        elif value > start and step_secs < 0:
            valdate = date(99, 1, 1)
        else:
            valdate = startdate
        valdt = datetime.combine(valdate, value)
        startdt = datetime.combine(startdate, start)
    else:
        valdt = value
        startdt = start
    return divmod(valdt - startdt, step)
""", """        ascending = step_secs > 0
        offset = 0
        if ascending and start > value:
            offset = 1
        if step_secs < 0 and start < value:
            offset = -1
        valdate = startdate + timedelta(days=offset)
        difference = (datetime.combine(valdate, value)
                      - datetime.combine(startdate, start))
    else:
        difference = value - start
    quotient = difference // step
    return quotient, difference - quotient * step
"""),
 (DR, """            slc = self._index_range[index]
            if len(slc) == 0:
                # There is no first value, so don't try to calculate it.
                return type(self)(self.start, 0, self.step)
            start = _index_to_value(slc.start, self.start, self.step)
            if len(slc) == 1:
                # Multiplying the step could give an invalid step, and
                # there is no second value.
                return type(self)(start, 1, self.step)
            return type(self)(start, len(slc), self.step * slc.step)
""", """            return self._get_slice(index)
"""),
 (DR, """    def __len__(self) -> int:
""", """    def _get_slice(self, index: slice) -> Sequence[DT]:
        start_i, stop_i, step_i = index.indices(len(self))
        slc = range(start_i, stop_i, step_i)
        length = len(slc)
        start = self.start
        step = self.step
        if length > 0:
            start = _index_to_value(slc[0], start, step)
        if length > 1:
            step = step * step_i
        return type(self)(start, length, step)

    def __len__(self) -> int:
"""),
 (DR, """        if my_len != other_len:
            return False
        if my_len == 0:
            return True
        if my_len == 1:
            return self.start == other.start
        return (self.start, self.step) == (other.start, other.step)
""", """        return my_len == other_len and (
            my_len == 0
            or self.start == other.start
            and (my_len == 1 or self.step == other.step))
"""),
 (DR, """        if isinstance(value, type(self.start)):
            try:
                self.index(value)
            except ValueError:
                pass
            else:
                return True
        return False
""", """        try:
            self.index(value)
        except ValueError:
            return False
        return True
"""),
 (DR, """        return 1 if value in self else 0
""", """        return int(value in self)
"""),
 (DR, """    length = max(length + 1 if rem else length, 0)
    return""", """    if rem:
        length += 1
    if length < 0:
        length = 0
    return"""),
 ('warn.py', """    if attr_name in deprecated:
        new_name, attr_value = deprecated[attr_name]
        replace_str = f' Please use {new_name} instead.' if new_name else ''
        warnings.warn(
            f'{from_obj_name}.{attr_name} is deprecated and will be removed '
            f'in the next major version release.{replace_str}',
            DeprecationWarning
        )
        return attr_value
    raise AttributeError(
        f'{from_type_name} {from_obj_name} has no attribute {attr_name!r}'
    )
""", """    if attr_name not in deprecated:
        raise AttributeError(
            f'{from_type_name} {from_obj_name} has no attribute {attr_name!r}'
        )
    entry = deprecated[attr_name]
    message = (f'{from_obj_name}.{attr_name} is deprecated and will be '
               f'removed in the next major version release.')
    if entry[0]:
        message += ' Please use {} instead.'.format(entry[0])
    warnings.warn(message, DeprecationWarning)
    return entry[1]
"""),
]

SETS['other'] = [
 (MT, """        positions = range(len(items))
        sample: List[T] = []
""", """        positions = list(range(len(items)))
        chosen = set()
        sample: List[T] = []
"""),
 (MT, """                if weights[i]:
                    weights[i] = 0.0
                    sample.append(items[i])
""", """                if i not in chosen:
                    chosen.add(i)
                    weights[i] = 0.0
                    sample.append(items[i])
"""),
 (MT, """        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]
        return [item for _, item in top_n]
""", """        ranked = sorted(scores, key=operator.itemgetter(0), reverse=True)
        return list(map(operator.itemgetter(1), ranked[:k]))
"""),
 (MT, "import math\n", "import math\nimport operator\n"),
 (MT, """    if number <= min(nitems * 0.42, sum(map(bool, weights))):
        return _faster_for_low_k(items, weights, rng, number)
    return _faster_for_high_k(items, weights, rng, number)
""", """    positive = len([w for w in weights if w])
    method = _faster_for_high_k
    if number <= nitems * 0.42 and number <= positive:
        method = _faster_for_low_k
    return method(items, weights, rng, number)
"""),
 (EM, """        if number is None:
            return self.emit()
        if number == 1:
            return [self.emit()]
        return self.emit_many(number)
""", """        if number is not None:
            return [self.emit()] if number == 1 else self.emit_many(number)
        return self.emit()
"""),
 (CH, """        self._shuffled = weighted_shuffle(self._items, weights, self.rng)
        self._shuffled_index = 0
        self._num_unique_items = num_items
""", """        self._shuffled_index = 0
        self._num_unique_items = num_items
        shuffled = weighted_shuffle(items=self._items, weights=weights,
                                    rng=self.rng, number=num_items)
        self._shuffled = shuffled
"""),
 (CH, """        self._replace = replace or replace_only_after_call
""", """        self._replace = True if replace_only_after_call else replace
"""),
 (CH, """        if number > self._num_unique_items:
            self.raise_uniqueness_violation(number)
        if not self._replace:
""", """        available = self.num_unique_items
        if not number <= available:
            self.raise_uniqueness_violation(number)
        if not self.replace:
"""),
 (CH, """        if self._weights is None and number == 1:
            # `choice` is fastest if there are no weights and we just
            # need 1.
            return [self.rng.choice(self._items)]
        return self.rng.choices(self._items, cum_weights=self._cum_weights,
                                k=number)
""", """        if self._weights is None and number == 1:
            # `choice` is fastest if there are no weights and we just
            # need 1.
            choice = self.rng.choice
            return [choice(self._items)]
        return self.rng.choices(
            population=self._items, cum_weights=self.cum_weights, k=number
        )
"""),
 (CH, """        if not self.replace:
            return self._choice_without_replacement(1)[0]
        return self._choice_with_replacement(1)[0]
""", """        method = (self._choice_with_replacement if self._replace
                  else self._choice_without_replacement)
        value, = method(1)
        return value
"""),
 (CH, """    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)
""", """    weights = [chance, 1.0 - chance]
    return Choice([True, False], weights=weights, rng_seed=rng_seed)
"""),
 (CH, """            return self.num_unique_items == self.num_unique_values
        return False
""", """            counts = (self.num_unique_items, self.num_unique_values)
            return counts[0] == counts[1]
        return False
"""),
 (FX, """        return [self._value] * number
""", """        return [self._value for _ in range(number)]
"""),
 (FX, """        self._iterator = self.make_infinite_iter(self.iterator_factory)
""", """        factory = self.iterator_factory
        self._iterator = type(self).make_infinite_iter(factory)
"""),
 (FX, """        super().__init__(items=items)
        self.reset_after_call = reset_after_call
        self._iterator_factory = lambda: iter(self.items)
        self.reset()
""", """        self.reset_after_call = reset_after_call
        super().__init__(items=items)
        self._iterator_factory = self._iterate
        self.reset()

    def _iterate(self) -> Iterator[T]:
        return iter(self._items)
"""),
 (FX, """        self._items = tuple([item for item in factory()])
""", """        self._items = tuple(factory())
"""),
 (FX, """        self.check_seq_iter_factory(factory)
        self._items""", """        self.check_seq_iter_factory(factory=factory)
        self._items"""),
 (MX, """        self.rng_seed = rng_seed
        self.rng.seed(rng_seed)
        supr = super()
        if hasattr(supr, 'seed'):
            supr.seed(rng_seed)
""", """        self.rng.seed(rng_seed)
        self.rng_seed = rng_seed
        seed_super = getattr(super(), 'seed', None)
        if seed_super is not None:
            seed_super(rng_seed)
"""),
 (MX, """        self.rng = random.Random(self.rng_seed)
        supr = super()
        if hasattr(supr, 'reset'):
            supr.reset()
""", """        rng = random.Random()
        rng.seed(self.rng_seed)
        self.rng = rng
        try:
            reset_super = super().reset
        except AttributeError:
            return
        reset_super()
"""),
 (MX, """        self._emitters.setattr('rng_seed', self.rng_seed)
        super().reset()
""", """        for child in self.emitters.values():
            if hasattr(child, 'rng_seed'):
                child.rng_seed = self.rng_seed
        super().reset()
"""),
 (TX, """        super().reset()
        self._emitters.setattr('rng_seed', self.rng_seed)
        self._emitters.do_method('reset')

    def seed(self, rng_seed: Any) -> None:
        \"\"\"See superclass.\"\"\"
        super().seed(rng_seed)
        self._emitters.do_method('seed', self.rng_seed)

    @property
    def num_unique_values(self) -> Optional[int]:
        \"\"\"Returns the max number of unique values this can emit.\"\"\"
""", """        super().reset()

    @property
    def num_unique_values(self) -> Optional[int]:
        \"\"\"Returns the max number of unique values this can emit.\"\"\"
"""),
 (TX, """        return ''.join(self._emitters['alphabet'](self._emitters['length']()))
""", """        return self.emit_many(1)[0]
"""),
 (TX, """        lengths = self._emitters['numwords'](number)
        total_words = sum(lengths)
        words = self._get_words_iterator(total_words)
""", """        lengths = self.numwords_emitter(number)
        words = self._get_words_iterator(sum(lengths))
"""),
 (TX, """            'sep': sep_emitter or Static(' ')
""", """            'sep': sep_emitter if sep_emitter is not None else Static(' ')
"""),
 (TX, """            nums: List[int] = []
            for length in set(numwords.items):
                n_uw = self._emitters['word'].num_unique_values ** length
                n_us = self._emitters['sep'].num_unique_values ** clamp(
                    length - 1, mn=0
                )
                nums.append(n_uw * n_us)
            self._num_unique_values = sum(nums)
""", """            self._num_unique_values = sum(
                self._num_texts(length) for length in set(numwords.items)
            )

    def _num_texts(self, length: int) -> int:
        \"\"\"Returns the number of texts with the given length.\"\"\"
        if length == 0:
            return 1
        n_uw = self._emitters['word'].num_unique_values
        n_us = self._emitters['sep'].num_unique_values
        return n_uw ** length * n_us ** (length - 1)
"""),
 (WR, """        self._function = function
        try:
            self._signature: Optional[Signature] = signature(function)
        except ValueError:
            # We get a ValueError if we try to use builtin methods or
            # types, like `str`.
            self._signature = None
            self._wants_rng = False
        else:
            self._wants_rng = 'rng' in self._signature.parameters
""", """        self._function = function
        self._signature: Optional[Signature] = None
        self._wants_rng = False
        try:
            self._signature = signature(function)
        except ValueError:
            # We get a ValueError if we try to use builtin methods or
            # types, like `str`.
            return
        self._wants_rng = any(
            name == 'rng' for name in self._signature.parameters)
"""),
 (WR, """        if hasattr(function, 'function'):
            # Account for trying to create a new BoundWrapper instance
            # using an existing BoundWrapper instance as the `function`
            # argument. In this case we'd want to rebind the unbound
            # version of the actual function, in function.function.
            self.function = function.function
        else:
            self.function = function
        self.bound_to = bound_to
""", """        self.bound_to = bound_to
        # Account for trying to create a new BoundWrapper instance
        # using an existing BoundWrapper instance as the `function`
        # argument. In this case we'd want to rebind the unbound
        # version of the actual function, in function.function.
        self.function = getattr(function, 'function', function)
"""),
 (WR, """        kwargs = {k: v() for k, v in self._emitters.items()}
        try:
            wrapper.try_mock_call(**kwargs)
        except TypeError:
            raise
        finally:
            self._wrapper = wrapper
            self.reset()
""", """        values = [em() for em in self._emitters.values()]
        try:
            wrapper.try_mock_call(**dict(zip(self._emitters, values)))
        finally:
            self._wrapper = wrapper
            self.reset()
"""),
 (FF, """        if len(self) == 1 and self._init_as_single_valued:
            # Note that pylint doesn't seem to like it if we don't do
            # something to tell it `self` is indexable, like wrapping
            # `self` in `list`.
            return not list(self)[0].multi_valued
        return False
""", """        if not self._init_as_single_valued or len(self) != 1:
            return False
        (field,) = self
        return not field.multi_valued
"""),
 (FF, """        return [self.emit()] * number


class BasedOn""", """        value = self.emit()
        return [value for _ in range(number)]


class BasedOn"""),
 (FF, """        self._action = action
        if len(self.source) == 1:
            args = [self.source[0]()]
            kwargs = {}
        else:
            args = []
            kwargs = {field.name: field() for field in self.source}
        try:
""", """        self._action = action
        args, kwargs = [], {}
        if len(self.source) == 1:
            args.append(self.source[0]())
        else:
            kwargs.update((field.name, field()) for field in self.source)
        try:
"""),
 (PR, """        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if fd.hide
        })
""", """        return self._filter_fields(True)
"""),
 (PR, """        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if not fd.hide
        })
""", """        return self._filter_fields(False)

    def _filter_fields(self, hide: bool) -> ObjectMap[FieldLike[Any]]:
        selected = ObjectMap({})
        for name in self.fields:
            if bool(self.fields[name].hide) == hide:
                selected[name] = self.fields[name]
        return selected
"""),
 (PR, """        super().reset()
        self._cache: Any = None
""", """        self._cache: Any = None
        super().reset()
"""),
 (PR, """        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
        return doc
""", """        for fname in self.fields:
            field = self.fields[fname]
            val = field()
            if not field.hide:
                doc.update({fname: val})
        return doc
"""),
 (GR, """        return list(self.values())
""", """        return [self[key] for key in self]
"""),
 (DR, """        ref_date = date(99, 1, 1)
        ref_dt = datetime.combine(ref_date, start)
        return (ref_dt + delta).timetz()
    return start + delta
""", """        ref_dt = datetime.combine(date(2000, 6, 15), start)
        result = ref_dt + delta
        return result.timetz()
    return delta + start
"""),
 (DR, """            if not rem and index in self._index_range[start:stop]:
                return index
""", """            if not rem:
                positions = self._index_range[slice(start, stop)]
                if len(positions) and positions[0] <= index <= positions[-1]:
                    return index
"""),
 (DR, """            self._length = int(length_val)
""", """            length = int(length_val)
            self._length = length
"""),
 (DR, """        try:
            index_num = self._index_range[index]
        except IndexError:
            raise IndexError(f'{type(self).__name__} object index out of '
                             f'range')
        return _index_to_value(index_num, self._start, self._step)
""", """        length = len(self)
        if index < 0:
            index += length
        if not 0 <= index < length:
            raise IndexError('%s object index out of range'
                             % type(self).__name__)
        return _index_to_value(index, self._start, self._step)
"""),
 (DR, """        start = self.start if my_len > 0 else None
        step = self.step if my_len > 1 else None
        return hash((type(self), my_len, start, step))
""", """        if not my_len:
            return hash((type(self), 0))
        if my_len == 1:
            return hash((type(self), self.start))
        return hash((my_len, self.start, self.step, type(self)))
"""),
 (DR, """        start_refdate = datetime.combine(date(99, 1, 1), start_obj)
        one_day = timedelta(days=1 if step_td > timedelta(0) else -1)
        stop_refdate = start_refdate + one_day
        length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
""", """        one_day = timedelta(days=1)
        length, rem = divmod(
            one_day if step_td > timedelta(0) else -one_day, step_td)
"""),
 (DR, """        start_is_date_only = not hasattr(self.start, 'second')
        start_is_time_only = not hasattr(self.start, 'day')
        if start_is_date_only and step_val.total_seconds() % 86400:
""", """        start_is_time_only = isinstance(self.start, time)
        start_is_date_only = not (start_is_time_only
                                  or isinstance(self.start, datetime))
        if start_is_date_only and step_val % timedelta(days=1):
"""),
 (DR, """        elif start_is_time_only and abs(step_val.total_seconds()) >= 86400:
""", """        if start_is_time_only and abs(step_val) >= timedelta(days=1):
"""),
]

SETS['third'] = [
 (MT, "import math\n", "import functools\nimport heapq\nimport itertools\nimport math\n"),
 (MT, """    probability = math.exp(-1 * mu)
    for i in range(1, x + 1):
        probability *= mu / i
    return probability
""", """    return functools.reduce(
        lambda probability, i: probability * (mu / i),
        range(1, x + 1), math.exp(-mu)
    )
"""),
 (MT, """    if mn is not None and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number
""", """    too_low = mn is not None and number < mn
    too_high = mx is not None and number > mx
    return mn if too_low else (mx if too_high else number)
"""),
 (MT, """        sample: List[T] = []
        while True:
            needed = k - len(sample)
            if not needed:
                break
            for i in rng.choices(positions, weights, k=needed):
""", """        sample: List[T] = []
        needed = k
        while needed > 0:
            for i in rng.choices(positions, weights, k=needed):
"""),
 (MT, """                if weights[i]:
                    weights[i] = 0.0
                    sample.append(items[i])
""", """                weight, weights[i] = weights[i], 0.0
                if weight != 0:
                    sample += [items[i]]
                    needed -= 1
"""),
 (MT, """        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]
        return [item for _, item in top_n]
""", """        ordered = sorted(enumerate(scores), key=lambda x: (-x[1][0], x[0]))
        return [item for _, (_, item) in itertools.islice(ordered, k)]
"""),
 (MT, """    if nitems != nweights:
        raise ValueError(
            f"Mismatched number of choices ({nitems}) to choice weights "
            f"({nweights}). These amounts must match."
        )
""", """    _check_lengths(nitems, nweights)
"""),
 (MT, """def weighted_shuffle(""", """def _check_lengths(nitems: int, nweights: int) -> None:
    if nitems == nweights:
        return
    message = "Mismatched number of choices (%d) to choice weights (%d)."
    raise ValueError(message % (nitems, nweights))


def weighted_shuffle("""),
 (CH, """        if weights_to_set is not None:
            items = items or self._items
            nitems = len(items)
            nweights = len(weights_to_set)
            if nitems != nweights:
                noun_phr = f"{self.noun} choices" if self.noun else "choices"
                v_phr = 'cum_weights' if weights_are_cumulative else 'weights'
                raise ValueError(
                    f"Mismatched number of {noun_phr} ({nitems}) to choice "
                    f"{v_phr} ({nweights}). These amounts must match."
                )
            if weights_are_cumulative:
                cum_weights = tuple(weights_to_set)
                de_cum_weights = []
                prev: float = 0
                for weight in cum_weights:
                    de_cum_weights.append(weight - prev)
                    prev = weight
                weights = tuple(de_cum_weights)
            else:
                cum_weights = tuple(itertools.accumulate(weights_to_set))
                weights = tuple(weights_to_set)
        self._weights = weights
        self._cum_weights = cum_weights
""", """        if weights_to_set is None:
            self._weights = self._cum_weights = None
            return
        if items is None:
            items = self._items
        self._check_num_weights(items, weights_to_set, weights_are_cumulative)
        if weights_are_cumulative:
            cum_weights = tuple(weights_to_set)
            weights = cum_weights[:1] + tuple(
                cum_weights[i] - cum_weights[i - 1]
                for i in range(1, len(cum_weights))
            )
        else:
            weights = tuple(weights_to_set)
            running = 0
            cum_weights = tuple([running := running + w for w in weights])
        self._weights, self._cum_weights = weights, cum_weights

    def _check_num_weights(self, items, values, cumulative):
        if len(items) == len(values):
            return
        noun_phr = ' '.join(filter(None, [self.noun, 'choices']))
        v_phr = ('weights', 'cum_weights')[cumulative]
        raise ValueError(
            f"Mismatched number of {noun_phr} ({len(items)}) to choice "
            f"{v_phr} ({len(values)}). These amounts must match."
        )
"""),
 (CH, """        if not self._replace:
            # No replacement, with/without weights.
            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
            else:
                start = self._shuffled_index
                end = start + number
                items = list(self._shuffled[start:end])
            self._shuffled_index += number
            self._num_unique_items -= number
            return items
""", """        if not self._replace:
            # No replacement, with/without weights.
            items = []
            for _ in range(number):
                items.append(self._shuffled[self._shuffled_index])
                self._shuffled_index += 1
                self._num_unique_items -= 1
            return items
"""),
 (CH, """        if len(self._items) == 1:
            # No choice here.
            return list(self._items) * number
        if self._weights is None""", """        if len(self._items) == 1:
            # No choice here.
            only, = self._items
            return list(itertools.repeat(only, number))
        if self._weights is None"""),
 (CH, """        if not self._replace or (self._replace_only_after_call and number > 1):
            return self._choice_without_replacement(number)
        return self._choice_with_replacement(number)
""", """        unique = not self._replace
        if number > 1:
            unique = unique or self._replace_only_after_call
        if unique:
            return self._choice_without_replacement(number)
        return self._choice_with_replacement(number)
"""),
 (CH, """        self._replace_only_after_call = replace_only_after_call
        if replace_only_after_call:
            self.replace = True
""", """        if replace_only_after_call and not self._replace:
            self.replace = True
        self._replace_only_after_call = replace_only_after_call
"""),
 (CH, """            return len(set(self._shuffled[self._shuffled_index:]))
        return super().num_unique_values
""", """            return len(frozenset(self._remaining()))
        return super().num_unique_values

    def _remaining(self) -> List[T]:
        \"\"\"Returns the items that have not been handed out.\"\"\"
        return list(itertools.islice(self._shuffled, self._shuffled_index, None))
"""),
 (FX, """        ret_value = next(self._iterator)
        if self.reset_after_call:
            self.reset()
        return ret_value
""", """        try:
            return next(self._iterator)
        finally:
            if self.reset_after_call:
                self.reset()
"""),
 (FX, """        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call:
            self.reset()
        return ret_value
""", """        ret_value = [next(self._iterator) for _ in range(number)]
        if self.reset_after_call:
            self.reset()
        return ret_value
"""),
 (FX, """        while True:
            for item in factory():
                yield item
""", """        iterator = iter(factory())
        while True:
            try:
                item = next(iterator)
            except StopIteration:
                iterator = iter(factory())
                continue
            yield item
"""),
 (TX, """    return [
        chr(code) for (start, end) in uchar_ranges
        for code in range(start, end + 1)
    ]
""", """    chars: List[str] = []
    for start, end in uchar_ranges:
        code = start
        while code <= end:
            chars.append(chr(code))
            code += 1
    return chars
"""),
 (TX, """        words = []
        char_index = 0
        for length in lengths:
            words.append(''.join(chars[char_index:char_index+length]))
            char_index += length
        return words
""", """        words = []
        for length in lengths:
            word, chars = chars[:length], chars[length:]
            words.append(''.join(word))
        return words
"""),
 (TX, """        for length in lengths:
            render = [next(words)] if length else []
            for _ in range(1, length):
                render.extend([next(seps, ' '), next(words)])
            texts.append(''.join(render))
        return texts
""", """        for length in lengths:
            texts.append(self._render(length, words, seps))
        return texts

    @staticmethod
    def _render(length: int, words: Iterator[str], seps: Iterator[str]) -> str:
        \"\"\"Returns one text.\"\"\"
        if not length:
            return ''
        text = next(words)
        while length > 1:
            text = text + next(seps, ' ') + next(words)
            length -= 1
        return text
"""),
 (TX, """        if getattr(self._emitters['word'], 'replace_only_after_call', False):
            num_unique = self._emitters['word'].num_unique_values or 0
            if num_unique and total > num_unique:
                def generator() -> Generator[str, None, None]:
                    remainder = total
                    while remainder > 0:
                        needed = clamp(num_unique, mx=remainder)
                        for word in self._emitters['word'](needed):
                            yield word
                        self._emitters['word'].reset()
                        remainder -= needed
                return generator()
        return iter(self._emitters['word'](total))
""", """        word_emitter = self._emitters['word']
        if not getattr(word_emitter, 'replace_only_after_call', False):
            return iter(word_emitter(total))
        num_unique = word_emitter.num_unique_values or 0
        if not num_unique or total <= num_unique:
            return iter(word_emitter(total))
        return self._words_in_rounds(total, num_unique)

    def _words_in_rounds(self, total: int, size: int) -> Iterator[str]:
        \"\"\"Yields words, resetting the word emitter after each round.\"\"\"
        word_emitter = self._emitters['word']
        for start in range(0, total, size):
            yield from word_emitter(min(size, total - start))
            word_emitter.reset()
"""),
 (TX, """        if nchars is not None and hasattr(self._emitters['length'], 'items'):
            poss_items = set(self._emitters['length'].items)
            self._num_unique_values = sum([nchars ** i for i in poss_items])
""", """        items = getattr(self._emitters['length'], 'items', None)
        if nchars is None or items is None:
            return
        total = 0
        for length in {*items}:
            total = total + nchars ** length
        self._num_unique_values = total
"""),
 (WR, """        kwargs = {k: em() for k, em in self._emitters.items()}
        return self._wrapper(**kwargs)
""", """        kwargs = {}
        for name in self._emitters:
            kwargs[name] = self._emitters[name]()
        return self._wrapper(**kwargs)
"""),
 (WR, """        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        names = [*self._emitters]
        columns = [em(number) for em in self._emitters.values()]
        rows = ([column[i] for column in columns] for i in range(number))
        return [self._wrapper(**dict(zip(names, row))) for row in rows]
"""),
 (WR, """        return [self._wrapper(v) for v in self._emitters['source'](number)]
""", """        output: List[OutputT] = []
        for value in self._emitters['source'](number):
            output.append(self._wrapper(value))
        return output
"""),
 (WR, """        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
        return self._function(*args, **kwargs)
""", """        if self.wants_rng:
            kwargs = {**kwargs, 'rng': self.bound_to.rng}
        return self.function(*args, **kwargs)
"""),
 (WR, """        try:
            wrapper.try_mock_call(self._emitters['source']())
        except TypeError:
            raise
        finally:
            self._wrapper = wrapper
            self.reset()
""", """        value = self._emitters['source']()
        self._wrapper = wrapper
        try:
            wrapper.try_mock_call(value)
        finally:
            self.reset()
"""),
 (FF, """            val = field.previous
            if val is not None:
                if not isinstance(val, (list, tuple)):
                    val = [val]
                vals.extend(val)
        if self.separator is None:
            return vals or None
        return self.separator.join([str(v) for v in vals])
""", """            vals.extend(self._as_list(field.previous))
        if self.separator is None:
            return vals if len(vals) > 0 else None
        result = ''
        for i, v in enumerate(vals):
            if i > 0:
                result += self.separator
            result += str(v)
        return result

    @staticmethod
    def _as_list(val: Any) -> List[Any]:
        if val is None:
            return []
        if isinstance(val, list) or isinstance(val, tuple):
            return list(val)
        return [val]
"""),
 (FF, """        if len(self.source) == 1:
            return self._action(self.source[0].previous)
        kwargs = {field.name: field.previous for field in self.source}
        return self._action(**kwargs)
""", """        fields = [*self.source]
        if fields and not fields[1:]:
            return self._action(fields[0].previous)
        return self._action(**dict(
            [(field.name, field.previous) for field in fields]
        ))
"""),
 (PR, """        if self.gate_emitter():
            self._cache = self.emitter(self.repeat_emitter())
        else:
            self._cache = None
        return self._cache
""", """        if not self.gate_emitter():
            self._cache = None
            return None
        number = self.repeat_emitter()
        if number is None:
            self._cache = self.emitter()
        else:
            self._cache = self.emitter(number)
        return self._cache
"""),
 (PR, """            return any(item is not None for item in self.repeat_emitter.items)
        return True
""", """            for item in self.repeat_emitter.items:
                if item is not None:
                    return True
            return False
        return True
"""),
 (PR, """        doc = {}
""", """        pairs = [(fname, field, field()) for fname, field in self.fields.items()]
        return {fname: val for fname, field, val in pairs if not field.hide}
        doc = {}
"""),
 (PR, """        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap({})
        self.add_fields(*fields)
""", """        self.fields: ObjectMap[FieldLike[Any]] = ObjectMap(
            {field.name: field for field in fields}
        )
"""),
 (GR, """            if obj is not None:
                try:
                    getattr(obj, method_name)(*args, **kwargs)
                except AttributeError:
                    pass
""", """            if obj is not None:
                self._call(obj, method_name, args, kwargs)
"""),
 (GR, """    def do_method(self, method_name""", """    @staticmethod
    def _call(obj, name, args, kwargs):
        try:
            getattr(obj, name)(*args, **kwargs)
        except AttributeError:
            return

    def do_method(self, method_name"""),
 (GR, """        for obj in self.objects_iterable:
            if obj is not None and hasattr(obj, attr_name):
                setattr(obj, attr_name, attr_value)
""", """        members = [obj for obj in self.objects_iterable if obj is not None]
        for member in members:
            if hasattr(member, attr_name):
                setattr(member, attr_name, attr_value)
"""),
 (MX, """        return len(set(self._items))
""", """        return len(dict.fromkeys(self._items))
"""),
 (MX, """        self._emitters.do_method('seed', rng_seed)
        try:
            super().seed(rng_seed)
        except AttributeError:
            pass
""", """        super().seed(rng_seed)
        self._emitters.do_method('seed', rng_seed)
"""),
 (DR, """        if value < start and step_secs > 0:
            valdate = date(99, 1, 3)
        elif value > start and step_secs < 0:
            valdate = date(99, 1, 1)
        else:
            valdate = startdate
        valdt = datetime.combine(valdate, value)
        startdt = datetime.combine(startdate, start)
    else:
        valdt = value
        startdt = start
    return divmod(valdt - startdt, step)
""", """        delta = (datetime.combine(startdate, value)
                 - datetime.combine(startdate, start))
        one_day = timedelta(days=1)
        if step_secs > 0 and delta < timedelta(0):
            delta += one_day
        elif step_secs < 0 and delta > timedelta(0):
            delta -= one_day
    else:
        delta = value - start
    return divmod(delta, step)
"""),
 (DR, """            if len(slc) == 0:
                # There is no first value, so don't try to calculate it.
                return type(self)(self.start, 0, self.step)
            start = _index_to_value(slc.start, self.start, self.step)
            if len(slc) == 1:
                # Multiplying the step could give an invalid step, and
                # there is no second value.
                return type(self)(start, 1, self.step)
            return type(self)(start, len(slc), self.step * slc.step)
""", """            if not slc:
                # There is no first value, so don't try to calculate it.
                return type(self)(self.start, 0, self.step)
            start = _index_to_value(slc[0], self.start, self.step)
            step = self.step
            if len(slc) > 1:
                step = step * (slc[1] - slc[0])
            return type(self)(start, len(slc), step)
"""),
 (DR, """        if my_len != other_len:
            return False
        if my_len == 0:
            return True
        if my_len == 1:
            return self.start == other.start
        return (self.start, self.step) == (other.start, other.step)
""", """        return self._key() == other._key()

    def _key(self) -> tuple:
        \"\"\"Returns what identifies the values of this range.\"\"\"
        my_len = len(self)
        if my_len == 0:
            return (0,)
        if my_len == 1:
            return (1, self.start)
        return (my_len, self.start, self.step)
"""),
 (DR, """        my_len = len(self)
        start = self.start if my_len > 0 else None
        step = self.step if my_len > 1 else None
        return hash((type(self), my_len, start, step))
""", """        return hash(self._key())
"""),
 (DR, """        if isinstance(value, type(self.start)):
            try:
                self.index(value)
            except ValueError:
                pass
            else:
                return True
        return False
""", """        try:
            self.index(value)
        except ValueError:
            return False
        return True
"""),
 (DR, """    if isinstance(val, str):
        for dtype in dtypes:
            fromisoformat = getattr(dtype, 'fromisoformat')
            try:
                # Note: mypy throws a no-any-return error on this, I'm
                # assuming because it can't tell what the return value
                # of `fromisoformat` is supposed to be.
                return fromisoformat(val)  # type: ignore[no-any-return]
            except ValueError:
                pass
""", """    for dtype in (dtypes if isinstance(val, str) else ()):
        try:
            return dtype.fromisoformat(val)
        except ValueError:
            continue
"""),
 (DR, """    if step_unit is None:
        step_unit = 'seconds' if hasattr(start_obj, 'second') else 'days'
""", """    if step_unit is None:
        if isinstance(start_obj, (datetime, time)):
            step_unit = 'seconds'
        else:
            step_unit = 'days'
"""),
 (DR, """    length = max(length + 1 if rem else length, 0)
    return DateOrTimeRange(start_obj, length, step_td)
""", """    if rem:
        length += 1
    if length < 0:
        length = 0
    return DateOrTimeRange(start_obj, length, step_td)
"""),
 ('warn.py', """    if attr_name in deprecated:
        new_name, attr_value = deprecated[attr_name]
        replace_str""", """    found = deprecated.get(attr_name)
    if found is not None:
        new_name, attr_value = found
        replace_str"""),
]


# Other constructs of the language and the standard library.
SETS['library'] = [
 (CH, """            if weights_are_cumulative:
                cum_weights = tuple(weights_to_set)
                de_cum_weights = []
                prev: float = 0
                for weight in cum_weights:
                    de_cum_weights.append(weight - prev)
                    prev = weight
                weights = tuple(de_cum_weights)
            else:
                cum_weights = tuple(itertools.accumulate(weights_to_set))
                weights = tuple(weights_to_set)
""", """            given = tuple(weights_to_set)
            if weights_are_cumulative:
                previous = itertools.chain((0,), given)
                weights, cum_weights = tuple(map(operator.sub, given, previous)), given
            else:
                weights, cum_weights = given, tuple(itertools.accumulate(given, operator.add))
"""),
 (CH, "import itertools\n", "import itertools\nimport operator\n"),
 (CH, """            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
            else:
                start = self._shuffled_index
                end = start + number
                items = list(self._shuffled[start:end])
            self._shuffled_index += number
            self._num_unique_items -= number
            return items
""", """            window = slice(self._shuffled_index, self._shuffled_index + number)
            self._shuffled_index, self._num_unique_items = window.stop, self._num_unique_items - number
            return [*self._shuffled[window]]
"""),
 (CH, """        if self._weights is None and number == 1:
            # `choice` is fastest if there are no weights and we just
            # need 1.
            return [self.rng.choice(self._items)]
        return self.rng.choices""", """        match (self._weights, number):
            case (None, 1):
                # `choice` is fastest if there are no weights and we just
                # need 1.
                return [self.rng.choice(self._items)]
        return self.rng.choices"""),
 (CH, """        if not self._replace:
            return self.num_unique_items == self.num_unique_values
        return False
""", """        return bool(not self._replace and self.num_unique_items == self.num_unique_values)
"""),
 (CH, """    weights = [clamp(poisson(x, mu), mn=weight_floor)
               for x in range(1, len(items) + 1)]
""", """    weights = [clamp(poisson(x, mu), mn=weight_floor)
               for x, _ in enumerate(items, start=1)]
"""),
 (MT, """    probability = math.exp(-1 * mu)
    for i in range(1, x + 1):
        probability *= mu / i
    return probability
""", """    return functools.reduce(lambda product, i: product * (mu / i), range(1, x + 1), math.exp(-1 * mu))
"""),
 (MT, "import math\n", "import functools\nimport heapq\nimport math\n"),
 (MT, """    if mn is not None and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number
""", """    if mn is not None:
        if (limited := max(number, mn)) is not number and limited != number:
            return limited
    return number if mx is None else min(number, mx)
"""),
 (MT, """    try:
        return len(set(values))
    except TypeError:
        unique: List[T] = []
        for value in values:
            if value not in unique:
                unique.append(value)
        return len(unique)
""", """    try:
        found = frozenset(values)
    except TypeError:
        return sum(1 for i, value in enumerate(values) if value not in values[:i])
    else:
        return len(found)
"""),
 (MT, """        weights = list(weights)
        positions = range(len(items))
        sample: List[T] = []
        while True:
            needed = k - len(sample)
            if not needed:
                break
            for i in rng.choices(positions, weights, k=needed):
                # Duplicates: a weight of 0 indicates something has
                # been selected already, letting us skip duplicates.
                # Zeroing out weights of selected items also ensures
                # they are not reselected on the next `choices` call.
                if weights[i]:
                    weights[i] = 0.0
                    sample.append(items[i])
        return sample
""", """        left = dict(enumerate(weights))
        chosen: List[int] = []
        while needed := k - len(chosen):
            for i in rng.choices(range(len(items)), [*left.values()], k=needed):
                if left[i]:
                    left[i] = 0.0
                    chosen += [i]
        return [items[i] for i in chosen]
"""),
 (MT, """        scores = zip(
            (math.log(rng.random() or tiny) / (w or tiny) for w in weights),
            items
        )
""", """        scores = [(math.log(rng.random() or tiny) / (w or tiny), item) for w, item in zip(weights, items)]
"""),
 (MT, """        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]
        return [item for _, item in top_n]
""", """        scores.sort(key=operator.itemgetter(0), reverse=True)
        del scores[k:]
        return [pair[1] for pair in scores]
"""),
 (MT, "import random\n", "import operator\nimport random\n"),
 (MX, """        self.rng = random.Random(self.rng_seed)
        supr = super()
        if hasattr(supr, 'reset'):
            supr.reset()
""", """        self.rng = random.Random(self.rng_seed)
        reset = getattr(super(), 'reset', None)
        if reset is not None:
            reset()
"""),
 (EM, """        if number is None:
            return self.emit()
        if number == 1:
            return [self.emit()]
        return self.emit_many(number)
""", """        match number:
            case None:
                return self.emit()
            case 1:
                return [self.emit()]
            case _:
                return self.emit_many(number)
"""),
 (FX, """        while True:
            for item in factory():
                yield item
""", """        yield from itertools.chain.from_iterable(made() for made in itertools.repeat(factory))
"""),
 (FX, """        ret_value = list(itertools.islice(self._iterator, 0, number))
""", """        ret_value = [item for _, item in zip(range(number), self._iterator)]
"""),
 (TX, """        words = []
        char_index = 0
        for length in lengths:
            words.append(''.join(chars[char_index:char_index+length]))
            char_index += length
        return words
""", """        ends = list(itertools.accumulate(lengths))
        return [str().join(chars[end - length:end]) for length, end in zip(lengths, ends)]
"""),
 (TX, """    return [
        chr(code) for (start, end) in uchar_ranges
        for code in range(start, end + 1)
    ]
""", """    return list(map(chr, itertools.chain.from_iterable(range(first, last + 1) for first, last in uchar_ranges)))
"""),
 (TX, "from typing import", "import itertools\nfrom typing import"),
 (TX, """            poss_items = set(self._emitters['length'].items)
            self._num_unique_values = sum([nchars ** i for i in poss_items])
""", """            self._num_unique_values = sum(pow(nchars, size) for size in {*self._emitters['length'].items})
"""),
 (TX, """        texts = []
        lengths = self._emitters['numwords'](number)
        total_words = sum(lengths)
        words = self._get_words_iterator(total_words)
        total_seps = sum(clamp(length - 1, mn=0) for length in lengths)
        seps = iter(self._emitters['sep'](total_seps))
        for length in lengths:
            render = [next(words)] if length else []
            for _ in range(1, length):
                render.extend([next(seps, ' '), next(words)])
            texts.append(''.join(render))
        return texts
""", """        lengths = self._emitters['numwords'](number)
        words = self._get_words_iterator(sum(lengths))
        seps = iter(self._emitters['sep'](sum(map(lambda n: n - 1 if n > 1 else 0, lengths))))

        def render(length: int) -> Iterator[str]:
            for i, word in zip(range(length), words):
                if i:
                    yield next(seps, ' ')
                yield word

        return [''.join(render(length)) for length in lengths]
"""),
 (WR, """        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        emdata = {k: iter(em(number)) for k, em in self._emitters.items()}
        return [self._wrapper(**{k: next(v) for k, v in emdata.items()})
                for _ in itertools.repeat(None, number)]
"""),
 (WR, "from inspect import", "import itertools\nfrom inspect import"),
 (WR, """        return [self._wrapper(v) for v in self._emitters['source'](number)]
""", """        return list(map(self._wrapper, self._emitters['source'](number)))
"""),
 (WR, """            self._wants_rng = 'rng' in self._signature.parameters
""", """            self._wants_rng = any(name == 'rng' for name in self._signature.parameters)
"""),
 (FF, """        return self.separator.join([str(v) for v in vals])
""", """        return self.separator.join(map(str, vals))
"""),
 (FF, """                if not isinstance(val, (list, tuple)):
                    val = [val]
                vals.extend(val)
""", """                vals += val if isinstance(val, (list, tuple)) else (val,)
"""),
 (PR, """            return any(item is not None for item in self.repeat_emitter.items)
""", """            return not all(item is None for item in self.repeat_emitter.items)
"""),
 (PR, """        self.fields.update({field.name: field for field in fields})
""", """        self.fields.update(zip(map(operator.attrgetter('name'), fields), fields))
"""),
 (PR, "from typing import", "import operator\nfrom typing import"),
 (PR, """        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
        return doc
""", """        values = [(fname, field(), field.hide) for fname, field in self.fields.items()]
        return {fname: val for fname, val, hidden in values if not hidden}
"""),
 (GR, """                try:
                    method = getattr(obj, method_name)
                except AttributeError:
                    continue
                method(*args, **kwargs)
""", """                absent = object()
                method = getattr(obj, method_name, absent)
                if method is not absent:
                    method(*args, **kwargs)
"""),
 (DR, """            if not rem and index in self._index_range[start:stop]:
                return index
""", """            first, last, _ = slice(start, stop).indices(len(self._index_range))
            if rem == timedelta() and first <= index < last:
                return index
"""),
 (DR, """    return divmod(valdt - startdt, step)
""", """    distance = valdt - startdt
    return distance // step, distance % step
"""),
 (DR, """        return 1 if value in self else 0
""", """        return int(value in self)
"""),
 (DR, """        if my_len == 0:
            return True
        if my_len == 1:
            return self.start == other.start
        return (self.start, self.step) == (other.start, other.step)
""", """        checks = ('start', 'step')[:my_len]
        return all(getattr(self, name) == getattr(other, name) for name in checks)
"""),
 (DR, """    length = max(length + 1 if rem else length, 0)
""", """    length = max(0, length + bool(rem))
"""),
 ('warn.py', """    if attr_name in deprecated:
        new_name, attr_value = deprecated[attr_name]
""", """    if (entry := deprecated.get(attr_name)) is not None:
        new_name, attr_value = entry
"""),
]


def main():
    args = sys.argv[1:]
    props = [f'C{n:02d}' for n in range(1, 29)]
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    for name in args or SETS:
        d = f'/tmp/ref_{name}'
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        try:
            for f, old, new in SETS[name]:
                p = f'{d}/src/fauxdoc/{f}'
                s = open(p).read()
                if s.count(old) < 1:
                    print('edit does not match', f, repr(old[:200]))
                    continue
                open(p, 'w').write(s.replace(old, new))
            env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'],
                               cwd=d, env=env, capture_output=True, text=True)
            print(name, r.stdout.strip().splitlines()[-1])
            if r.returncode:
                print([x for x in r.stdout.splitlines() if x.startswith('FAILED')][:9])
            for p in props:
                t = time.time()
                r = subprocess.run(['python3-vt', '-m', 'sx.runner', p, '-v'], cwd=VERIF, capture_output=True, text=True,
                                   env=dict(os.environ, SX_REPO=d, PYTHONHASHSEED='0'))
                bad = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'complete=False' in x or 'GAP' in x
                       or 'INCOMPLETE' in x or 'ERROR' in x or 'UNREP' in x]
                print(name, p, r.returncode, f'{time.time() - t:.0f}s', r.stdout.strip().splitlines()[-1])
                for b in bad[:6]:
                    print('      ', b[:700], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
