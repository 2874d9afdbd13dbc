"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
S = 'src/fauxdoc/'
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        }})

p('C01', 'Emitter calls give one value, or a fresh list of exactly n values',
  'Calling any emitter without a count returns one value, calling it with a count n >= 0 returns a list of '
  'exactly n values (a count of 0 gives an empty list and a count of 1 a one-element list holding the value '
  'a call without a count would have given), unless it has to raise because values cannot be repeated. '
  'No call ever alters the data the emitter was configured with, and changing a returned list affects neither '
  'the emitter nor later output.',
  ['inputs', 'configurations', 'histories'],
  'every count, every emitter kind (static, iterative, sequential, choice in each mode, word, text, wrappers, field copies), every configured content',
  'Tests call each emitter with a handful of fixed counts, almost never 0, and never mutate what they got back.',
  ['emitter.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py'],
  [('Emitter.__call__ dispatch', 'emitter.py'), ('emit / emit_many of every emitter', 'emitters/')],
  observe=['return value of emitter(), emitter(n)'])

p('C02', 'Without replacement: no item position repeats, over-requests emit nothing',
  'A choice emitter set to never replace hands out each position of its item list at most once over any sequence '
  'of calls, so that draining it yields exactly the configured items with their multiplicities, weighted or not. '
  'A request for more values than remain raises ValueError and hands out nothing: what remains and what comes next are unchanged.',
  ['histories', 'inputs'],
  'every item list (duplicates, falsy items), weights, sequence of batch sizes and random stream',
  'Tests drain a few seeded emitters in fixed batch patterns; the claim is over all histories of calls and all random streams.',
  ['emitters/choice.py', 'mathtools.py'],
  [('Choice._global_shuffle', 'emitters/choice.py'), ('Choice._choice_without_replacement', 'emitters/choice.py'), ('weighted_shuffle', 'mathtools.py')],
  [('_shuffled, _shuffled_index', 'pre-shuffled items and how many were handed out', 'emitters/choice.py')],
  ['Choice(...)()', 'Choice(...)(n)', 'ValueError'])

p('C03', 'Replace-after-call: unique positions within a call, full pool every call',
  'A choice emitter that replaces only after each call never repeats an item position within one call for several values, '
  'weighted or not, and every call draws from the complete item list again no matter what earlier calls or failed calls did. '
  'A call for more values than there are items raises ValueError, and a call for as many as there are returns a permutation of the items.',
  ['histories', 'inputs'],
  'every item list, weights, sequence of batch sizes and random stream',
  'Tests sample a few seeded calls; per-call uniqueness must hold for every random stream and both selection algorithms.',
  ['emitters/choice.py', 'mathtools.py'],
  [('Choice._choice_without_replacement', 'emitters/choice.py'), ('weighted_shuffle', 'mathtools.py')],
  observe=['Choice(..., replace_only_after_call=True)(n)'])

p('C04', 'With replacement: each draw hits an item with probability equal to its weight',
  'With replacement, every value emitted is one of the configured items, an item of weight zero is never emitted while another has '
  'positive weight, and the set of random draws that select an item has a share equal to its weight divided by the total '
  '(equal shares without weights), for single and multi-value calls alike. '
  'Configuring by weights or by the corresponding cumulative weights gives the same output for the same random draws.',
  ['inputs', 'histories'],
  'every item list, non-negative integer weight vector with a positive total, every random draw',
  'Tests compare frequencies of finitely many seeded draws with wide tolerances; the mapping from draws to items must be right for every draw.',
  ['emitters/choice.py'],
  [('Choice._choice_with_replacement', 'emitters/choice.py'), ('Choice._set_all_weights', 'emitters/choice.py')],
  observe=['Choice(...)()', 'Choice(...)(n)'])

p('C05', 'Remaining-items and remaining-values counters are exact at all times',
  'For a choice emitter without replacement the reported number of remaining items always equals the number of items minus those handed '
  'out since the last reshuffle, the reported number of unique values is the number of distinct values among those not yet handed out, and it claims to emit '
  'only unique values exactly when those two are equal. '
  'For a choice emitter that replaces, the reports are the number of items, the number of distinct items, and no uniqueness claim.',
  ['histories', 'inputs'],
  'every item list with any pattern of equal items, every history of calls, failed calls, resets, reseeds and mode switches',
  'Tests look at the counters after a few fixed call sequences.',
  ['emitters/choice.py', 'mixins.py'],
  [('Choice.num_unique_items / num_unique_values / emits_unique_values', 'emitters/choice.py')],
  [('_num_unique_items', 'items left', 'emitters/choice.py')],
  ['num_unique_items', 'num_unique_values', 'emits_unique_values'])

p('C06', 'Reconfiguring a choice emitter keeps it consistent or leaves it untouched',
  'After any sequence of changes of the replacement flags and of weights or cumulative weights, the two flags are never in '
  'the contradictory state "never replace, but replace after each call", each weight vector is the running sum / difference of the other (or both are absent), and the emitter behaves '
  'as one built with that configuration (non-empty weights). '
  'Changing weights, switching replacement off, reseeding or resetting makes a non-replacing emitter start over with all items; a weight vector of the wrong length raises '
  'ValueError and changes nothing; giving both kinds of weights to the constructor raises TypeError, and an empty or non-sequence item list raises ValueError.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of attribute assignments, seeds, resets and calls, every weight vector',
  'Tests set one attribute at a time from a fresh emitter.',
  ['emitters/choice.py'],
  [('Choice property setters', 'emitters/choice.py'), ('Choice._set_all_weights', 'emitters/choice.py')],
  observe=['replace', 'replace_only_after_call', 'weights', 'cum_weights', 'later output'])

p('C07', 'Weighted shuffle returns distinct positions and honours weights',
  'The weighted shuffle of a list with non-negative weights returns exactly the requested number of items (all of them by default), each from a '
  'different position, leaves its arguments unmodified, and raises ValueError when items and weights differ in number. '
  'A zero-weight item never precedes a positive-weight one, and with the same random draws raising the weight of the item that came out '
  'first leaves it first.',
  ['inputs'],
  'every item list, non-negative weight vector with enough positive weights for a partial sample, every requested number up to the list size, every random stream including an exact 0.0',
  'Tests compare seeded outputs and frequencies; zero weights, extreme draws and all list/number combinations around the algorithm switch are not sampled.',
  ['mathtools.py'],
  [('weighted_shuffle', 'mathtools.py')],
  observe=['weighted_shuffle(items, weights, rng, number)'])

p('C08', 'Equal seeds give equal output, at every level of composition',
  'Two identically configured random components (choice, word, text, wrapper, field, whole schema, field-based emitter) given the same seed, whether in the constructor '
  'or by seeding later, produce identical output for identical sequences of calls, for every seed including falsy ones. '
  'Seeding a composite component seeds every random component inside it (every part that has a `seed` method), at any depth, so that earlier output or earlier seeds have no influence. '
  'The draws are those of Python\'s `random.Random` with that seed, so they do not change from one process to the next.',
  ['histories', 'configurations', 'inputs'],
  'every seed value, every history before seeding, every nesting of components, every random stream',
  'Tests check a few seeds on single emitters; they do not cover nesting, prior histories, or falsy seeds.',
  ['mixins.py', 'emitters/choice.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py', 'profile.py', 'group.py'],
  [('RandomMixin.seed / reset', 'mixins.py'), ('RandomWithChildrenMixin.seed', 'mixins.py'), ('Schema.seed_fields', 'profile.py')],
  [('rng, rng_seed', 'per-component random generator and its seed', 'mixins.py')],
  ['output after seed(s)'])

p('C09', 'Reset rewinds every component to its start, with the current seed',
  'After reset, a seeded component (choice, sequential, iterative, word, text, wrapper, field, schema) produces again exactly the output it produced from the beginning under the seed now in force, '
  'regardless of what was emitted or failed in between; repeated resets change nothing further. '
  'Resetting a composite resets everything inside it and passes its own seed to the random components inside, and a reset field forgets its previous value.',
  ['histories', 'configurations'],
  'every history of calls, failed calls and seeds before the reset, every nesting, every random stream',
  'Tests reset after one fixed call pattern on mostly un-nested emitters.',
  ['mixins.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py', 'emitters/wrappers.py', 'profile.py'],
  [('reset methods', 'mixins.py'), ('Schema.reset_fields', 'profile.py')],
  observe=['output after reset()'])

p('C10', 'Sequential and iterative emitters cycle through their values in order',
  'A sequential or iterative emitter hands out its underlying values strictly in order, starting over after the last, however the output is split into calls; '
  'with reset-after-call every call starts from the first value instead. '
  'Empty sequences and empty iterator factories are refused with ValueError, also when reassigning the factory, and a newly assigned factory restarts emission '
  '(for sequential emitters also redefining the item list).',
  ['histories', 'inputs'],
  'every sequence content and length, every split into calls, resets in between',
  'Tests check a few lengths and batch splits.',
  ['emitters/fixed.py'],
  [('Iterative.make_infinite_iter', 'emitters/fixed.py'), ('Iterative/Sequential.emit, emit_many', 'emitters/fixed.py')],
  [('_iterator', 'position in the cycle', 'emitters/fixed.py')],
  ['Sequential(...)(n)', 'Iterative(...)(n)'])

p('C11', 'Words: lengths and characters come from the sources, in order, none lost',
  'Each word is the concatenation of exactly as many consecutive values of the alphabet source as the length source says; over a call the words use up the length source\'s and '
  'the alphabet source\'s output in order with nothing skipped, repeated or carried over, and a length of zero gives an empty word. '
  'Emitting n words at once from fixed-order sources gives the same n words as emitting them one at a time.',
  ['inputs', 'histories'],
  'every sequence of lengths (zeros included), every character content, every split into calls',
  'Tests use one seeded configuration with a few lengths; partition arithmetic must be right for every combination.',
  ['emitters/text.py'],
  [('Word.emit, Word.emit_many', 'emitters/text.py')],
  observe=['Word(...)(n)'])

p('C12', 'Texts: the right number of words, separators only between words, none lost',
  'Each text has exactly the number of words its word-count source gives, in the order the word source produced them, with one value of the separator source '
  'between adjacent words and none elsewhere; separators too are used in order and none is dropped, so a word count of zero gives an empty text '
  'and n requested texts are always n texts. '
  'If the word source replaces only after each call, texts needing more words than it has still come out complete, and the words of one call come in rounds, each using every word once.',
  ['inputs', 'histories'],
  'every sequence of word counts (zeros included), every word and separator content, every split into calls',
  'Tests use seeded configurations with counts >= 1; sharing of words and separators between texts must be right for every combination.',
  ['emitters/text.py'],
  [('Text.emit_many', 'emitters/text.py'), ('Text._get_words_iterator', 'emitters/text.py')],
  observe=['Text(...)(n)'])

p('C13', 'Wrapper emitters apply the function to corresponding source values only',
  'The i-th output of a single-source wrapper is the function applied to the i-th value of its source, and of a multi-source wrapper the function applied to the i-th value of every source under '
  'that source\'s name; the function is called exactly once per output, in order, and never with values of different positions. '
  'Building a wrapper or replacing its function leaves the sources at their start, so no source value is lost to the signature check.',
  ['inputs', 'histories'],
  'every source content, source count, function, split into calls, and history before a function change',
  'Tests use a few functions and fixed batches.',
  ['emitters/wrappers.py'],
  [('WrapOne.emit/emit_many', 'emitters/wrappers.py'), ('WrapMany.emit/emit_many', 'emitters/wrappers.py'), ('wrapper setter reset', 'emitters/wrappers.py')],
  observe=['WrapOne(...)(n)', 'WrapMany(...)(n)'])

p('C14', 'User functions get the owner\'s current RNG if and only if they ask for it',
  'A wrapped user function receives a random generator exactly when its signature names an rng parameter, it is always the generator currently in use by the owning emitter (also after '
  'reset, reseeding, re-wrapping or rebinding to another owner), and all other arguments and the result pass through unchanged. '
  'A function whose signature cannot take the values offered is reported with TypeError when it is installed and errors it raises itself when emitting are never swallowed.',
  ['inputs', 'configurations', 'histories'],
  'every function signature shape, every argument, every reset/seed history',
  'Tests try a handful of functions with one history.',
  ['emitters/wrappers.py', 'emitters/fromfields.py'],
  [('BoundWrapper', 'emitters/wrappers.py')],
  observe=['arguments seen by the user function'])

p('C15', 'A field emits what its gate and repeat settings dictate, and remembers it',
  'A field call first asks its gate: on a false answer it returns None without drawing from the data or repeat emitters, otherwise it returns a single data value if the repeat emitter gives None, '
  'and a list of exactly as many data values as the repeat number otherwise (an empty list for 0, a one-element list for 1). '
  'The remembered previous value is always the result of the latest call, and None before any call. '
  'A field says it is single-valued exactly when all items its repeat emitter lists are None (one that does not list its items counts as multi-valued).',
  ['inputs', 'histories', 'configurations'],
  'every gate sequence, repeat sequence and data content, every history',
  'Tests use a few seeded gates and repeats.',
  ['profile.py'],
  [('Field.__call__', 'profile.py'), ('Field.multi_valued', 'profile.py')],
  [('_cache', 'previous value', 'profile.py')],
  ['field()', 'field.previous', 'field.multi_valued'])

p('C16', 'A document has every public field once, in order, and runs hidden ones too',
  'Generating a document calls every field of the schema, hidden or not, exactly once in schema order, and the document maps exactly the public fields\' names, in that order, to the values just '
  'generated. '
  'Hidden and public field views partition the fields by their current hide flag in schema order; adding fields appends new names and replaces same-named ones in place, setting fields discards the old ones, and '
  'changing a view does not change the schema.',
  ['configurations', 'histories', 'inputs'],
  'every number of fields, hide pattern, name collision pattern and edit history',
  'Tests use two or three fixed schemas.',
  ['profile.py', 'group.py'],
  [('Schema.__call__', 'profile.py'), ('Schema.hidden_fields/public_fields', 'profile.py'), ('Schema.add_fields/set_fields', 'profile.py')],
  observe=['schema()', 'hidden_fields', 'public_fields'])

p('C17', 'Copied fields reproduce the current source values exactly',
  'An emitter copying one singly given single-valued field returns that field\'s latest value as is; otherwise it returns the concatenation, in source order, of the latest values of all sources '
  '(a list or tuple contributing its elements, None contributing nothing, falsy values kept), or None if there are none. '
  'With a separator, even an empty one, it returns those values as strings joined by it. '
  'Copying never calls, resets or alters the source fields, and a multi-value request repeats the one result.',
  ['inputs', 'configurations', 'histories'],
  'every combination of source values and source shapes, every separator',
  'Tests use a few fixed field combinations without falsy values.',
  ['emitters/fromfields.py'],
  [('CopyFields.emit', 'emitters/fromfields.py'), ('SourceFieldGroup.single_valued', 'emitters/fromfields.py')],
  observe=['CopyFields(...)()'])

p('C18', 'Field-based emitters pass the latest field values to the action',
  'Each emission of a field-based emitter calls the action exactly once, with the single source\'s latest value as its argument or with every source\'s latest value under that field\'s name, '
  'and returns its result; a multi-value request repeats one such result. '
  'Building the emitter or giving it a new action (a function with a signature), emitting, resetting and seeding it leave the source fields alone, while the explicit source reset and source seed operations reach every source field.',
  ['inputs', 'configurations', 'histories'],
  'every source value combination (None and falsy included), one or more sources, every action result, every history',
  'Tests use a few fixed actions.',
  ['emitters/fromfields.py'],
  [('BasedOnFields.emit', 'emitters/fromfields.py'), ('BasedOnFields.reset_source/seed_source', 'emitters/fromfields.py')],
  observe=['arguments seen by the action', 'BasedOnFields(...)(n)'])

p('C19', 'Group operations reach exactly the members that support them, in order',
  'Setting an attribute on a group changes exactly those members that already have it and calling a method on a group calls it once, in order and with the given arguments, on exactly those members that have it; '
  'None members and members lacking it are skipped without stopping the rest. '
  'Errors raised while a member\'s attribute is set or its method runs (an AttributeError of its own included) propagate, and the groups otherwise behave as the list or dict of their members.',
  ['inputs', 'configurations'],
  'every mix of capable, incapable and None members, falsy members included, every argument and value',
  'Tests use one fixed mix of members.',
  ['group.py'],
  [('GroupMixin.setattr/do_method', 'group.py')],
  observe=['member state after group operations'])

p('C20', 'Date/time ranges contain exactly start, start+step, ... before stop',
  'A range built from a start, stop, step and unit contains exactly the values start + i*step that lie before the stop in the direction of the step, in that order, each of the start\'s type, '
  'and its length is their number (zero if the stop lies in the other direction). '
  'Time-of-day ranges run through midnight when the stop is not ahead in the direction of the step, cover one full day when start equals stop, and keep the start\'s time zone.',
  ['inputs'],
  'every start, stop and non-zero step (every unit) of the three types within the calendar\'s limits, every index',
  'Tests list some twenty literal ranges; off-by-one at exact multiples, negative steps and midnight wrap must be right for all.',
  ['dtrange.py'],
  [('dtrange', 'dtrange.py'), ('_value_to_index/_index_to_value', 'dtrange.py')],
  observe=['dtrange(...)[i]', 'len(dtrange(...))', 'start', 'stop', 'iteration'])

p('C21', 'Indexing and slicing a date/time range equal indexing its list of values',
  'For every integer index a date/time range gives the element the corresponding list of values would give, raising IndexError exactly when the list would. '
  'Every slice, with any missing, negative, zero-crossing, out-of-range or huge start, stop and non-zero step, is a range whose values are those of the sliced list, including empty and one-element slices and slices of slices.',
  ['inputs'],
  'every range, index and slice with integer or missing parts',
  'Tests parametrize some dozens of literal slices; arithmetic must agree for all.',
  ['dtrange.py'],
  [('DateOrTimeRange.__getitem__', 'dtrange.py')],
  observe=['r[i]', 'r[a:b:c]'])

p('C22', 'Membership, index and count agree with the range\'s values',
  'A value is reported as in a date/time range exactly when one of the range\'s values equals it; then its index is the position of that value and its count 1, otherwise asking for the index raises ValueError and the count is 0. '
  'Values of other types, and naive values asked of time-zone-aware ranges or the reverse, are simply not in the range (time-of-day values with another UTC offset than the range\'s are outside this claim). '
  'Restricting the index search by start and stop positions behaves as restricting it to that slice of the list of values (time-of-day ranges: for ranges spanning at most a day).',
  ['inputs'],
  'every range, every candidate value, every search bound including negative ones',
  'Tests probe some dozens of literal values.',
  ['dtrange.py'],
  [('DateOrTimeRange.index/__contains__/count', 'dtrange.py'), ('_value_to_index', 'dtrange.py')],
  observe=['value in r', 'r.index(value, ...)', 'r.count(value)'])

p('C23', 'Equality and hashing of date/time ranges are lawful',
  'Two date/time ranges that compare equal have the same values, and date or datetime ranges with the same values compare equal, whatever stop, step or slicing produced them, including all empty ranges and all one-element ranges. '
  'Equality is reflexive, symmetric and transitive, equal ranges have equal hashes, and a range never equals an object that is not a range.',
  ['inputs'],
  'every pair and triple of ranges',
  'Tests compare a dozen literal pairs.',
  ['dtrange.py'],
  [('DateOrTimeRange.__eq__/__hash__', 'dtrange.py')],
  observe=['r1 == r2', 'hash(r)'])

p('C24', 'Invalid date/time range requests are refused and ranges never change',
  'Building a range fails with ValueError when start and stop are of different kinds or not understood as dates or times, when the unit is unknown, when a date range\'s step is not a whole number of days, or when a '
  'time-of-day range\'s step is a day or more in size; every non-zero step inside those limits is accepted. '
  'ISO strings and the date/time objects they denote give the same range, the default unit is days for date ranges and seconds otherwise, and a built range\'s start, step and length cannot be reassigned.',
  ['inputs'],
  'every step amount and unit, every combination of argument kinds',
  'Tests try a few invalid literals; the boundary between accepted and refused steps must be right for all amounts.',
  ['dtrange.py'],
  [('DateOrTimeRange setters', 'dtrange.py'), ('_parse_user_date', 'dtrange.py'), ('dtrange', 'dtrange.py')],
  observe=['dtrange(...)', 'DateOrTimeRange(...)'])

p('C25', 'Chance and clamped-weight factories give the requested weighting',
  'A chance emitter is True for exactly the share c of random draws when 0 <= c <= 1, never for c <= 0 and always for c >= 1. '
  'A Poisson or Gaussian choice weights its i-th item (counting from 1) by the larger of the distribution\'s value at i and the floor, and passes replacement settings, noun and seed on unchanged. '
  'Clamping returns the number itself if it lies within the given bounds and the violated bound otherwise.',
  ['inputs', 'configurations'],
  'every chance value, every random draw, every floor, item count and option combination, every number and bounds',
  'Tests compare frequencies for a few chances and one weight table.',
  ['emitters/choice.py', 'mathtools.py'],
  [('chance, poisson_choice, gaussian_choice', 'emitters/choice.py'), ('clamp, poisson, gaussian', 'mathtools.py')],
  observe=['chance(c)()', 'poisson_choice(...).weights', 'gaussian_choice(...).weights', 'clamp(...)'])

p('C26', 'An alphabet is exactly the characters of its inclusive code point ranges',
  'An alphabet made from code point ranges lists, range by range in the given order and ascending within each, every character from the start through the end of the range inclusive and nothing else; '
  'a reversed range contributes nothing, overlapping ranges keep their duplicates, and changing a returned alphabet does not affect later ones. '
  'Without ranges it uses the documented default ones.',
  ['inputs'],
  'every list of ranges within bounds, every code point',
  'Tests check two literal lists.',
  ['emitters/text.py'],
  [('make_alphabet', 'emitters/text.py')],
  observe=['make_alphabet(...)'])

p('C27', 'Reported numbers of unique values are never understated or invented',
  'When an emitter reports a number of unique values, that is the number of different values it can emit (static: 1; sequential, choice: distinct items; word: sum over the distinct lengths of alphabet size to that power; '
  'text: sum over the distinct word counts of words to that power times separators to one less), and it reports none when a source cannot tell (iterative, wrappers, field-based emitters). '
  'Emitters that may repeat values never claim to emit unique ones.',
  ['inputs', 'configurations'],
  'every item content with any pattern of equal items, every list of lengths, every alphabet and separator count',
  'Tests check a few literal configurations without repeated lengths.',
  ['emitter.py', 'mixins.py', 'emitters/text.py', 'emitters/fixed.py', 'emitters/choice.py'],
  [('num_unique_values, emits_unique_values', 'emitter.py'), ('_update_num_unique_vals', 'emitters/text.py')],
  observe=['num_unique_values', 'emits_unique_values'])

p('C28', 'Deprecated names still work, and say so exactly when used',
  'Every deprecated public name still resolves, from the package module that offers it, to its documented replacement object, warning once per access with a DeprecationWarning that names it and its replacement; '
  'unknown names raise AttributeError without a warning and current names never warn. '
  'Assigning a sequential emitter\'s iterator factory warns and still works.',
  ['inputs', 'configurations'],
  'every looked-up name against every table of deprecated names, with and without replacements',
  'Tests look up the existing names only.',
  ['warn.py', 'typing.py', 'emitters/__init__.py', 'emitters/wrappers.py', 'emitters/fixed.py'],
  [('get_deprecated_attr', 'warn.py')],
  observe=['module attribute access', 'emitted warnings'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
