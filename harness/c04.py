"""C04: probabilities of choices with replacement.

The share of the draws selecting item i is decided without sampling: if two
uniform draws u1, u2 both select item i only when |u1 - u2| * total < w_i, then
the draws selecting i lie within an interval of length w_i / total.  These
lengths sum to one and every draw selects some item, so each share is exact.
"""
from sx.case import case
from harness.common import weights_for

EPS = 1e-9


def _probabilities(sx, labels, ws, outs, log):
    """outs[j] was selected by log[j] (see sx.drawlog)."""
    n = len(labels)
    for o in outs:
        sx.check(o in labels, 'a configured item')
    total = sum(ws)
    for o in outs:
        i = labels.index(o)
        sx.check(ws[i] > 0, 'an item of weight zero is never emitted')
    if len(log) != len(outs):
        return False
    kinds = {d[0] for d in log}
    done = False
    for a in range(len(outs)):
        for b in range(a):
            if kinds == {'u'}:
                done = True
                if outs[a] == outs[b]:
                    d = log[a][1] - log[b][1]
                    d = sx.ite(d < 0, -d, d)
                    w = ws[labels.index(outs[a])]
                    sx.check(d * total < w + EPS * total,
                             'draws selecting one item span no more than its share')
            elif kinds == {'below'} and log[a][1] == n and log[b][1] == n \
                    and all(w is ws[0] for w in ws):
                done = True
                sx.check(sx.eq(sx.eq(log[a][2], log[b][2]), outs[a] == outs[b]),
                         'one integer draw per item')
    return done


@case('C04', quick=dict(maxlen=3), thorough=dict(maxlen=5), bound=5, cover=['end', 'measured'],
      seconds=(300, 2000),
      note='1..maxlen items, any non-negative weights (positive sum), as weights or cumulative '
           'weights, two draws: two single calls, one call for two, or one call for one twice')
def weighted(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    labels = list('abcdef'[:n])
    ws = weights_for(sx, 'w', n)
    acc, t = [], 0
    for w in ws:
        t = t + w
        acc.append(t)
    seed = sx.int('seed')
    E = sx.fx.emitters
    how = sx.choose('how', ['single', 'many', 'ones'])
    roac = sx.flag('after_call') if how != 'many' else False

    def run(em):
        if how == 'single':
            return [em(), em()]
        if how == 'ones':
            return em(1) + em(1)
        return em(2)
    a = run(E.Choice(labels, ws, replace_only_after_call=roac, rng_seed=seed))
    log = sx.drawlog()
    sx.obs(a)
    sx.check(len(a) == 2, 'two values')
    if n == 1:
        sx.check(a == ['a', 'a'], 'the only item')
    elif _probabilities(sx, labels, ws, a, log):
        sx.cover('measured')
    b = run(E.Choice(labels, cum_weights=acc, replace_only_after_call=roac, rng_seed=seed))
    sx.check(sx.eq(a, b), 'cumulative weights give the same output')
    sx.cover('end')


@case('C04', quick=dict(maxlen=4), thorough=dict(maxlen=6), bound=6, cover=['end', 'measured'],
      seconds=(200, 900), note='1..maxlen items without weights, two draws in each of the three ways')
def unweighted(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    labels = list('abcdef'[:n])
    seed = sx.int('seed')
    E = sx.fx.emitters
    how = sx.choose('how', ['single', 'many', 'ones'])
    em = E.Choice(labels, rng_seed=seed)
    if how == 'single':
        a = [em(), em()]
    elif how == 'ones':
        a = em(1) + em(1)
    else:
        a = em(2)
    log = sx.drawlog()
    sx.obs(a)
    if n == 1:
        sx.check(a == ['a', 'a'], 'the only item')
    elif _probabilities(sx, labels, [1] * n, a, log):
        sx.cover('measured')
    sx.cover('end')


@case('C04', bound=4, cover=['end'], seconds=(60, 200),
      note='a symbolic range of any size as items: the draw is the position')
def any_size(sx):
    size = sx.int('size', 2)
    em = sx.fx.emitters.Choice(sx.range(size), rng_seed=sx.int('seed'))
    k = sx.small('k', 1, 4)
    got = em(k)
    sx.obs(got)
    for v in got:
        sx.check(sx.and_(v >= 0, v < size), 'a configured item')
    log = sx.drawlog()
    if len(log) == len(got):
        for j, d in enumerate(log):
            if d[0] == 'u':
                sx.check(sx.and_(v_le(sx, d[1] * size, got[j]), d[1] * size < got[j] + 1 + EPS),
                         'the draw u selects position floor(u * size)')
    sx.cover('end')


def v_le(sx, x, v):
    return v - EPS <= x


@case('C04', quick=dict(maxlen=3), thorough=dict(maxlen=4), bound=4, cover=['end'],
      seconds=(100, 600),
      note='one call for three values and three single calls use the draws the same way')
def many_is_single(sx):
    n = sx.small('len', 2, sx.P['maxlen'])
    labels = list('abcdef'[:n])
    ws = weights_for(sx, 'w', n)
    seed = sx.int('seed')
    E = sx.fx.emitters
    a = E.Choice(labels, ws, rng_seed=seed)(3)
    em = E.Choice(labels, ws, rng_seed=seed)
    b = [em(), em(), em()]
    la = sx.drawlog()
    if len(la) == 3:      # the same three draws were made both times
        sx.check(sx.eq(a, b), 'the same draws select the same items')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
