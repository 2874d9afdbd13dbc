"""C11: words."""
from sx.case import case
from harness.common import probe_emitter, rng_chars, rng_emitter


def _expect(sx, lens, vals, li, ci, k):
    """The next k words; returns (words, new length index, new value index)."""
    out = []
    for _ in range(k):
        n = lens[li % len(lens)]
        li += 1
        out.append(sx.join('', [vals[(ci + j) % len(vals)] for j in range(n)]))
        ci += n
    return out, li, ci


@case('C11', quick=dict(lens=2, hi=3, chars=3, calls=2, many=3), thorough=dict(lens=3, hi=3, chars=4, calls=3, many=3),
      bound=4, cover=['end', 'empty word'], seconds=(400, 4000),
      note='1..lens cyclic lengths 0..hi, `chars` cyclic alphabet values (strings of up to 2 characters, the empty one '
           'included), `calls` calls for one word or 0..many words')
def partition(sx):
    P = sx.P
    lens = [sx.small('length', 0, P['hi']) for _ in range(sx.small('nlens', 1, P['lens']))]
    vals = [sx.string('c', 2) for _ in range(P['chars'])]
    lsrc, asrc = probe_emitter(sx, lens), probe_emitter(sx, vals)
    em = sx.fx.emitters.Word(lsrc, asrc)
    li = ci = 0
    for _ in range(P['calls']):
        if sx.flag('single'):
            exp, li, ci = _expect(sx, lens, vals, li, ci, 1)
            sx.check(sx.eq(em(), exp[0]), 'the word of the next length and characters')
        else:
            k = sx.small('k', 0, P['many'])
            exp, li, ci = _expect(sx, lens, vals, li, ci, k)
            got = em(k)
            sx.obs(got)
            sx.check(len(got) == k, 'as many words as requested')
            sx.check(sx.eq(got, exp), 'words of the next lengths and characters')
        sx.check(lsrc.given == li, 'one length used per word')
        sx.check(asrc.given == ci, 'as many characters used as the lengths say')
    if 0 in lens and li:
        sx.cover('empty word')
    sx.cover('end')


@case('C11', quick=dict(n=3, hi=2), thorough=dict(n=4, hi=3), bound=4, cover=['end'], seconds=(200, 2000),
      note='n words at once against n words one by one, fixed-order sources of any content')
def at_once(sx):
    E, P = sx.fx.emitters, sx.P
    lens = [sx.int('length', 0, P['hi']) for _ in range(sx.small('nlens', 1, 2))]
    vals = [sx.char('c') for _ in range(3)]
    seq = sx.flag('iterative')

    def make():
        if seq:
            return E.Word(E.Iterative(lambda: iter(lens)), E.Iterative(lambda: iter(vals)))
        return E.Word(E.Sequential(lens), E.Sequential(vals))
    a, b = make(), make()
    n = sx.small('n', 0, P['n'])
    got = a(n)
    sx.check(sx.eq(got, [b() for _ in range(n)]), 'n at once are n single ones')
    sx.check(sx.eq(a(), b()), 'and both go on alike')
    sx.obs(got)
    for i, w in enumerate(got):
        sx.check(sx.eq(sx.len(w), lens[i % len(lens)]), 'each has its length')
    sx.cover('end')


@case('C11', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(200, 1500),
      note='random lengths (0..2) and letters: all draws used, in order')
def random_sources(sx):
    E = sx.fx.emitters
    n = sx.small('n', 0, sx.P['n'])
    s = sx.int('seed')
    single = sx.flag('single')
    em = E.Word(E.Choice(range(3)), rng_chars(sx), rng_seed=s)
    got = [em() for _ in range(n)] if single else em(n)
    sx.check(len(got) == n, 'n words')
    # the same sources asked directly
    ls, cs = E.Choice(range(3), rng_seed=s), rng_chars(sx, s)
    lens = [ls() for _ in range(n)] if single else ls(n)
    for w, k in zip(got, lens):
        sx.check(sx.eq(w, sx.join('', [cs() for _ in range(sx.pick(k))])), 'the next letters of the source')
    sx.cover('end')


@case('C11', bound=6, cover=['end'], seconds=(60, 300),
      note='one word of any length from a constant letter (lengths to 6 exhaustive)')
def any_length(sx):
    n = sx.int('length', 0)
    E = sx.fx.emitters
    em = E.Word(E.Static(n), E.Static('x'))
    w = em() if sx.flag('single') else em(1)[0]
    sx.check(sx.eq(sx.len(w), n), 'the word has the length asked for')
    two = em(2)
    sx.check(sx.eq(two[1], w), 'and so has the next')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
