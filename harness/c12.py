"""C12: texts."""
from sx.case import case
from harness.common import probe_emitter, rng_chars


def _expect(sx, nums, words, seps, st, k):
    """The next k texts from state st = [number, word, separator] positions."""
    out = []
    for _ in range(k):
        n = nums[st[0] % len(nums)]
        st[0] += 1
        parts = []
        for j in range(n):
            if j:
                parts.append(seps[st[2] % len(seps)])
                st[2] += 1
            parts.append(words[st[1] % len(words)])
            st[1] += 1
        out.append(sx.join('', parts))
    return out


@case('C12', quick=dict(nums=2, hi=3, words=3, seps=2, calls=2, many=3),
      thorough=dict(nums=3, hi=4, words=4, seps=3, calls=3, many=3),
      bound=4, cover=['end', 'empty text'], seconds=(600, 5000),
      note='1..nums cyclic word counts 0..hi, cyclic words and separators (any strings of up to 2 characters, empty ones '
           'included), `calls` calls for one text or 0..many texts')
def layout(sx):
    P = sx.P
    nums = [sx.small('nwords', 0, P['hi']) for _ in range(sx.small('nnums', 1, P['nums']))]
    words = [sx.string('w', 2) for _ in range(P['words'])]
    seps = [sx.string('sep', 2) for _ in range(P['seps'])]
    n, w, s = probe_emitter(sx, nums), probe_emitter(sx, words), probe_emitter(sx, seps)
    em = sx.fx.emitters.Text(n, w, s)
    st = [0, 0, 0]
    for _ in range(P['calls']):
        if sx.flag('single'):
            sx.check(sx.eq(em(), _expect(sx, nums, words, seps, st, 1)[0]), 'the next text')
        else:
            k = sx.small('k', 0, P['many'])
            got = em(k)
            sx.obs(got)
            sx.check(isinstance(got, list) and len(got) == k, 'as many texts as requested')
            sx.check(sx.eq(got, _expect(sx, nums, words, seps, st, k)), 'the next texts')
        sx.check([n.given, w.given, s.given] == st, 'counts, words and separators used up exactly')
    if 0 in nums and st[0]:
        sx.cover('empty text')
    sx.cover('end')


@case('C12', quick=dict(hi=3), thorough=dict(hi=4), bound=4, cover=['end'], seconds=(200, 2000),
      note='the default separator, library emitters as sources, n at once against one by one')
def at_once(sx):
    E, P = sx.fx.emitters, sx.P
    nums = [sx.int('nwords', 0, P['hi']) for _ in range(2)]
    words = [sx.string('w', 2) for _ in range(2)]
    default = sx.flag('default')

    def make():
        return E.Text(E.Sequential(nums), E.Iterative(lambda: iter(words)),
                      None if default else E.Sequential(['-', '+']))
    a, b = make(), make()
    n = sx.small('n', 0, 3)
    got = a(n)
    sx.check(sx.eq(got, [b() for _ in range(n)]), 'n at once are n single ones')
    sx.check(sx.eq(a(), b()), 'and both go on alike')
    sx.check(sx.eq(a.sep_emitter(), b.sep_emitter()), 'also the separators')
    if default:
        c = make()
        sx.check(sx.eq([c() for _ in range(2)],
                       _expect(sx, [sx.pick(x) for x in nums], words, [' '], [0, 0, 0], 2)),
                 'spaces by default')
    sx.cover('end')


def _rounds(flat, m):
    ok = True
    for i in range(0, len(flat), m):
        part = flat[i:i + m]
        ok = ok and len(set(part)) == len(part)
    return ok


@case('C12', quick=dict(words=2, total=5, n=3), thorough=dict(words=3, total=7, n=3), bound=5,
      cover=['end', 'rounds', 'within'], seconds=(500, 5000),
      note='a word source of 2..words words replacing only after each call (weighted or not, seeded), texts needing up to '
           '`total` words in all')
def after_call_words(sx):
    E, P = sx.fx.emitters, sx.P
    m = sx.small('m', 2, P['words'])
    n = sx.small('n', 1, P['n'])
    nums = [sx.small('nwords', 0, 4) for _ in range(n)]
    total = sum(nums)
    sx.assume(total <= P['total'])
    _after_call(sx, E, m, nums)


@case('C12', quick=dict(words=3), thorough=dict(words=4), bound=5, cover=['end', 'rounds'], seconds=(300, 2000),
      note='the same with `words` words and one or two whole rounds, or one word less')
def whole_rounds(sx):
    m = sx.P['words']
    total = m * sx.small('rounds', 1, 2) + sx.small('off', -1, 0)
    cut = sx.choose('cut', [0, 2])
    _after_call(sx, sx.fx.emitters, m, [cut, total - cut] if 0 < cut < total else [total], weighted=False, later=False)


def _after_call(sx, E, m, nums, weighted=None, later=True):
    n, total = len(nums), sum(nums)
    if weighted is None:
        weighted = sx.flag('weighted')
    source = E.Choice('abcd'[:m], [1, 2, 3, 4][:m] if weighted else None, replace_only_after_call=True)
    em = E.Text(E.Sequential(nums), source, E.Static('-'), rng_seed=sx.int('seed'))
    got = em(n) if n > 1 or sx.flag('many') else [em()]
    sx.obs(got)
    sx.check(len(got) == n, 'as many texts as requested')
    flat = []
    for t, k in zip(got, nums):
        parts = t.split('-') if k else []
        sx.check(len(parts) == k and (k or t == ''), 'the right number of words')
        sx.check(all(p in 'abcd'[:m] and p for p in parts), 'words of the source')
        flat += parts
    sx.check(_rounds(flat, m), 'every word once per round')
    if later:
        again = em(n)
        sx.check(len(again) == n, 'later calls are complete too')
        flat = [p for t, k in zip(again, nums) for p in (t.split('-') if k else [])]
        sx.check(len(flat) == total and _rounds(flat, m), 'later calls come in rounds too')
    sx.cover('rounds' if total > m else 'within')
    sx.cover('end')


@case('C12', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(200, 1500),
      note='random counts (0..2), one-letter words and separators: all draws used, in order')
def random_sources(sx):
    E = sx.fx.emitters
    n = sx.small('n', 0, sx.P['n'])
    s = sx.int('seed')
    em = E.Text(E.Choice(range(3)), rng_chars(sx), rng_chars(sx), rng_seed=s)
    got = em(n)
    sx.check(len(got) == n, 'n texts')
    nums = E.Choice(range(3), rng_seed=s)(n)
    ws, ss = rng_chars(sx, s), rng_chars(sx, s)
    for t, k in zip(got, nums):
        parts = []
        for j in range(sx.pick(k)):
            if j:
                parts.append(ss())
            parts.append(ws())
        sx.check(sx.eq(t, sx.join('', parts)), 'the next words and separators of the sources')
    sx.cover('end')


@case('C12', bound=4, cover=['end'], seconds=(60, 300),
      note='separator, word and count emitters that are false or empty as objects; any strings')
def falsy_sources(sx):
    E = sx.fx.emitters
    t = sx.choose('truth', ['bool', 'len'])
    words, seps = [sx.string('w', 2) for _ in range(2)], [sx.string('sep', 2) for _ in range(2)]
    n, w, s = (probe_emitter(sx, x, t) for x in ([2, 3], words, seps))
    em = E.Text(n, w, s)
    sx.check(em.sep_emitter is s and em.word_emitter is w, 'the given emitters')
    k = sx.small('k', 1, 2)
    st = [0, 0, 0]
    sx.check(sx.eq(em(k), _expect(sx, [2, 3], words, seps, st, k)), 'the texts made from them')
    sx.check([n.given, w.given, s.given] == st, 'used up exactly')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
