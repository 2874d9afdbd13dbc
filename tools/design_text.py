"""Text of DESIGN.md, per property (tools/gen_design.py puts it together)."""
COMMON_LIMITS = """
## What every claim leaves out

* Sizes: lists of items, words, fields, sources are bounded as each case says;
  request sizes are exhaustive up to the case's `bound` and followed by one
  witness beyond. Ranges (`DateRange` etc.), integers, seeds and dates are not
  bounded in size.
* Numbers: Python floats are modelled as reals. A replay that disagrees only
  because two floats tie or round is counted as `rounding` in the evidence and
  decides nothing: the engine then asks for a model of the same path at least
  1/50 away from every tie; if the real code passes there, no violation is
  reported. Weights are 0 or within 2^-8..2^8 unless a case says otherwise.
* Strings: user strings up to the length the case gives; opaque values compare
  by a symbolic equality and have a symbolic truth value, and stand for any
  hashable value (unhashable ones: the `unhashable` cases). A few cases (`kinds`) go through a table of concrete values
  of different types instead, since an opaque value has no type of its own.
* `random`, `datetime`, `math` are models written from their documentation and
  checked against the real modules by the replay of every path: the model's
  result must be what the real module gives for the same values.
* Threads, pickling and subclassing of library classes beyond the documented
  hooks are not considered.
* Statistical quality of `random` is assumed: C04 and C25 speak about the share
  of draws, given that draws are uniform.
"""

SCOPED_OUT = """
## Behaviour looked at and left outside the properties

These were found while reading or while checking; each is either documented or
debatable, so the statements do not cover it and no check alarms on it.

* Giving a `BasedOnFields` emitter an action without a signature (`int`) that
  refuses the sources' latest values makes the library try new ones, which the
  source fields then do not output.
* `copy.deepcopy` of emitters holding generators or lambdas.
* Time-of-day ranges wrapping more than 24 hours; equality of time ranges with
  the same values but steps of +1 h and -23 h (C23 claims the direction
  "equal ranges have equal values" for times, both for dates and datetimes).
* Step 0 and negative counts of values; steps beyond what a timedelta holds
  (OverflowError).
* Subclasses of the range class: their hash differs from an equal range's.
* `weights=[]` in the constructor is treated as no weights.
* Time-of-day values with another UTC offset than the range's (statement C22
  says so); a naive start with an aware stop.
* `poisson(x, mu)` for mu beyond about 700 (exp underflows to 0: every item
  then has the floor weight).
* Two source fields of the same name; the order in which one emitter used
  under two names of a `WrapMany` serves the two.
* `Word`/`Text` cache their number of unique values when built.
* Subclasses of `datetime.time` as start: the values are plain times.
"""

# id: (how decided / oracle, why beyond tests, what stays outside)
T = {}


def p(i, text):
    T[i] = text.strip()


p('C01', """
Oracle: the statement itself. Each emitter class is built from symbolic
ingredients, called with no count and with a symbolic count, and the type,
length and identity of results are checked; configuration lists are compared
with copies taken before; returned lists are changed (cleared, appended to) and
an equally configured twin is called alongside to see that output goes on as if
nothing had happened. Tests use a handful of counts; here the count, the item
lists' contents and the draws are symbolic.
Outside: emitters other than the library's and those built on its base class.
""")
p('C02', """
Oracle: positions. Items are opaque and pairwise different (or possibly equal
in `duplicates`); after every operation the values handed out so far must be a
sub-multiset of the items and the counters must fit. A request of any size
(symbolic integer) either succeeds within what remains or raises ValueError,
after which draining the emitter must give exactly the rest. All draws and all
weights are symbolic, so the rejection and re-draw branches of the weighted
shuffle are all reached.
Outside: more than `maxlen` items (3; thorough 4), weights below 2^-8.
""")
p('C03', """
As C02 with the full pool every call: a call for k <= n values gives k different
positions, for k = n a permutation, for k > n ValueError; afterwards
the emitter must answer any request exactly as a new emitter does whose
generator is in the same state, so nothing of earlier or refused calls is left. Outside: the statistics of weighted draws without replacement
beyond C07.
""")
p('C04', """
Oracle, without sampling: the draws are symbolic reals u in [0,1); if any two
draws u1, u2 that select item i satisfy |u1 - u2| * total < w_i, the draws
selecting i lie within an interval of length w_i/total; as every draw selects
some item and these lengths sum to one, each share is exact. This accepts every
assignment of intervals to items, not only that of `random.choices`
(implementations that use several draws per value are not measured; the cover
point `measured` says that the present one was). `any_size` uses a symbolic
range as item list, so it covers every number of items.
Outside: two draws at most per path; float rounding of cumulative sums.
""")
p('C05', """
Oracle: the harness counts what it received. After every operation the three
reports are compared with symbolic counts over the items handed out (equality
of items symbolic). Values of several kinds (1, True, 1.0, '1', ...) are taken
from a table in `kinds`, which catches implementations counting by text or by
identity; `nearly_same` adds values differing in case, spaces, accents or type
only; `between` reads the numbers at every point, so remembered numbers show.
""")
p('C06', """
Oracle: a freshly built emitter with the final configuration, run on the same
draws (the generator model gives equal draws for equal seeds and histories), so
the reconfigured emitter must produce the same output; plus the invariants of
flags and weight vectors, compared as exact reals. Refused assignments are
compared with a snapshot of every observable.
A false alarm corrected: under a refactoring that sorts (key, index) tuples the
path "two keys are equal" forces a tie in reals that floats do not reproduce;
see "Numbers" below. Outside: floating-point rounding of accumulated weights
(compared with 1e-9 tolerance in replays).
""")
p('C07', """
The shuffle is called directly with symbolic weights and draws. Monotonicity is
a two-run query: the same draws, one weight raised by a symbolic amount, the
first item must stay first. log and exp are uninterpreted functions with
monotonicity, sign and inverse axioms for the pairs that occur; this is enough
to decide order. Outside: the exact distribution; weights between 0 and 2^-8.
""")
p('C08', """
Two-run queries: two components with the same configuration but different
pasts; the same symbolic seed in the constructor or assigned later; equal
symbolic call sequences; every output must be equal. The generator model keys
draws by (seed, history of requests), so an unseeded or stale generator
anywhere inside gives unrelated symbols and the solver finds a difference.
Seeds: any integer, and falsy or odd ones ('' 0.0 b'' 'seed').
`documented` compares with the draws of `random.Random(seed)` itself (the same
in every process, so hashing the seed shows); `own_seed` puts parts with nothing
but a `seed` method anywhere inside.
""")
p('C09', """
As C08 with reset: output recorded from the beginning, then any operations
(including failed ones), then reset; the same calls must give the recorded
output. Composites are checked to have passed reset and seed to every child.
`refused` has calls fail half-way (in any part) before the reset.
""")
p('C10', """
Oracle: index arithmetic modulo the number of items. Batch sizes symbolic;
reset-after-call, factories of several kinds, refused factories, reassigning.
""")
p('C11', "Oracle: a three-line reference that slices the streams; lengths and characters are symbolic streams from counting probes, so skipped, repeated or carried-over values show up both in the words and in the probes' counters. `changing`: constant parts are given another value or replaced between calls.")
p('C12', "As C11 for texts, with counts, words and separators as streams; empty strings included. Rounds of replace-after-call words are checked for a single call on a fresh emitter (duplicates in the word list and switching after partial use are outside). `changing`: constant parts are given another value or replaced between calls.")
p('C13', "Oracle: user functions are uninterpreted (each call is logged with its arguments and returns a fresh opaque value); the log must be exactly the expected calls. Construction and reassignment are checked to leave sources' positions alone. `changing`: constant parts are given another value or replaced between calls.")
p('C14', "Thirty signature shapes (positional, keyword-only, defaults, *args, **kwargs, rng in any place, callables of several kinds, callables carrying misleading attributes) times owner histories; the generator passed must be identical to owner.rng at that moment. Errors: seven kinds raised by the user function at emission must come out unchanged; unfit signatures must give TypeError at installation. The instruction-level behaviour of `inspect.signature` is the real one. `alike`: pairs of functions alike in name, code or equality, of which one takes rng, in one run.")
p('C15', "Oracle: a reference of the field's call in six lines over probe emitters which count how often they are asked; gate and repeat answers symbolic or from tables including falsy and truthy non-booleans. `changing`: constant parts are given another value or replaced between calls.")
p('C16', "Oracle: a reference schema kept as an ordered list of (name, field) in the harness, edited along with the real one; after every edit a document is made and compared, and probes check every field was called exactly once in order.")
p('C17', "Oracle: reference concatenation over values of 27 kinds; text values symbolic. Copies are checked not to call, reset or change sources.")
p('C18', "Actions are uninterpreted as in C13; source fields of every arity; latest values of every kind.")
p('C19', "Members are probes with or without the attribute or method (class attributes, properties, slots, falsy members, None). Oracle: the list/dict itself.")
p('C20', "Dates are symbolic ordinals and microseconds over years 1-9999 with symbolic offsets from a table; the position i is symbolic, so every value of every range is covered, the length is compared with the arithmetic definition. Steps are symbolic whole numbers of units plus eighths. Outside: time ranges wrapping past 24 h; the first and last two days of the calendar with offsets. `second`: two ranges in one run, equal as instants or as naive values, each as if alone.")
p('C21', "Oracle: Python's slice.indices arithmetic, written in the harness as integer terms; slices with symbolic start/stop, steps from the table or symbolic with a fixed range step (symbolic times symbolic products are nonlinear, so one of the two is concrete). `listed` compares with a real list. `second`: two ranges in one run, equal as instants or as naive values, each as if alone.")
p('C22', "Membership is compared with the existential 'there is i with start+i*step = v', decided by division with remainder on integer microseconds. Other kinds of value: tables. `second`: two ranges in one run, equal as instants or as naive values, each as if alone.")
p('C23', "Two- and three-range queries; hash is modelled as an uninterpreted function of the hashed tuple, so equal hashes follow only from equal hashed data. `second`: two ranges in one run, equal as instants or as naive values, each as if alone.")
p('C24', "All kinds of arguments, units and step sizes; ISO strings are built from symbolic fields and parsed by the model; literal strings are compared with the standard library's own parser.")
p('C25', "Chance: symbolic c and draws, as C04. Poisson/Gaussian: pmf/pdf written out with the same uninterpreted exp; clamped with the floor; comparison of weights, not samples. Outside: mu beyond 32 except `long`; last digits of floats.")
p('C26', "Symbolic code points; sizes 0..3 per range and one large size (150; thorough 700).")
p('C27', "Oracle: exact counts from the statement; sources report symbolic numbers or none. Values of 17 kinds in `kinds`.")
p('C28', "Names from the modules' own tables (read on every run), unknown names as symbolic strings of up to 24 characters (the solver decides whether a string equals a table key), warnings recorded by a model of warnings.warn and by the real module in replay.")

HISTORY = """
## Findings

All genuine defects found were small and repaired; `known_findings.txt` lists
them with the commits in /repo ("fixed:" lines; they suppress nothing).

## False alarms met and corrected

* C06: float ties and rounding of accumulated weights (see "Numbers"); the
  engine now looks for a model off the tie before believing a failing replay.
* C20-C22: time ranges wrapping beyond a day, and values of another UTC offset,
  were first claimed too strongly; the statements now exclude them.
* C21: the harness built ranges directly with a step the public constructor
  refuses.
* C25: harness compared floats of the Poisson weights with exact reals.
* C27: `Wrap` is a base class without `emit`; the harness subclasses it.
* Refactorings (tools/refactors.py: comprehensions to loops, loops to helper
  functions, other equivalent formulations in every module) produced gaps in
  the loader (callbacks passed to C functions, str.format, % formatting), which
  are modelled now.

## Sensitivity

`tools/plant.py` confirms planted bugs (patch applies, tests pass, the
demonstration fails with and passes without it) from the specs in
tools/plants; `tools/try_seeded.py` runs the checks against them. The number in
parentheses after a planted bug above says after how many seconds its own quick
check reported it in the last sweep; `missed` would say it was not.
Bugs that change only lines added by fix commits are not kept in seeded/ (they
would not count), but were tried as well.
"""
