"""C26: alphabets."""
from sx.case import case

DEFAULT = [(0x21, 0x21), (0x23, 0x26), (0x28, 0x7E), (0xA1, 0xAC), (0xAE, 0xFF)]
TOP = 0x10FFFF


def _range(sx, i, size):
    """A range of up to `size` characters from any code point, or a reversed
    one of any extent."""
    a = sx.int(f'a{i}', 0, TOP)
    if sx.flag(f'reversed{i}'):
        b = sx.int(f'b{i}', -1, TOP)
        sx.assume(b < a)
        return (a, b), []
    n = sx.small(f'n{i}', 1, size)
    sx.assume(a + n - 1 <= TOP)
    return (a, a + n - 1), [a + j for j in range(n)]


@case('C26', quick=dict(nr=3, size=3), thorough=dict(nr=4, size=5), bound=12, cover=['end', 'overlap', 'empty'],
      seconds=(200, 2000),
      note='1..nr ranges in any order, of 1..size characters from any code points, or reversed; lists and tuples')
def chars(sx):
    rs, exp = [], []
    for i in range(sx.small('nr', 1, sx.P['nr'])):
        r, e = _range(sx, i, sx.P['size'])
        rs.append(r if sx.flag('tuple') or i else list(r))
        exp += e
    given = rs if sx.flag('list') else tuple(rs)
    copy = [tuple(r) for r in rs]
    out = sx.fx.emitters.make_alphabet(given)
    sx.check(len(out) == len(exp), 'one entry per code point of each range')
    sx.check(sx.and_(True, *[sx.eq(c, sx.chr(e)) for c, e in zip(out, exp)]), 'the characters, range by range')
    sx.check(all(isinstance(c, str) for c in out), 'as strings')
    sx.check(sx.eq([tuple(r) for r in rs], copy), 'the ranges are left alone')
    if len(exp) > 1 and not sx.truth(sx.distinct(exp)):
        sx.cover('overlap')
    sx.cover('end' if exp else 'empty')


@case('C26', bound=300, quick=dict(size=150), thorough=dict(size=700), cover=['end'], seconds=(100, 900),
      note='one range of a given large size (up to 150, thorough 700) from any code point')
def wide(sx):
    n = sx.choose('n', [sx.P['size'], 64])
    a = sx.int('a', 0, TOP - n + 1)
    out = sx.fx.emitters.make_alphabet([(a, a + n - 1)])
    sx.check(len(out) == n, 'every code point once')
    sx.check(sx.and_(*[sx.eq(c, sx.chr(a + j)) for j, c in enumerate(out)]), 'ascending, the end included')
    sx.cover('end')


@case('C26', bound=300, cover=['end'], seconds=(60, 300), note='the default ranges: none given, None, or an empty sequence; a fresh list each time')
def default(sx):
    f = sx.fx.emitters.make_alphabet
    given = sx.choose('given', ['nothing', None, [], ()])
    out = f() if given == 'nothing' else f(given)
    exp = [chr(c) for a, b in DEFAULT for c in range(a, b + 1)]
    sx.check(list(out) == exp, 'the documented default ranges')
    out.append('x') if isinstance(out, list) else None
    sx.check(list(f()) == exp, 'again')
    sx.cover('end')


@case('C26', quick=dict(size=3), thorough=dict(size=6), bound=12, cover=['end'], seconds=(100, 600),
      note='words over an alphabet of one or two ranges: every emitted character is of the ranges')
def used(sx):
    E = sx.fx.emitters
    (r1, e1), (r2, e2) = _range(sx, 0, sx.P['size']), _range(sx, 1, 2)
    if not e1 + e2:
        return
    w = E.Word(E.Static(2), E.Choice(E.make_alphabet([r1, r2]), rng_seed=1), rng_seed=1)
    out = w()
    sx.check(sx.or_(*[sx.eq(out, sx.join('', [sx.chr(x), sx.chr(y)])) for x in e1 + e2 for y in e1 + e2]),
             'characters of the ranges only')
    sx.cover('end')


@case('C26', quick=dict(size=3), thorough=dict(size=5), bound=12, cover=['end'], seconds=(100, 600),
      note='one or two ranges asked for twice, the first answer changed in between, other ranges (also the same ones as '
           'lists, or the default ones) asked for in between')
def again(sx):
    f = sx.fx.emitters.make_alphabet
    (r1, e1), (r2, e2) = _range(sx, 0, sx.P['size']), _range(sx, 1, 2)
    rs = [r1, r2] if sx.flag('two') else [r1]
    exp = [sx.chr(e) for e in (e1 + e2 if len(rs) == 2 else e1)]
    out = f(rs)
    how = sx.choose('between', ['change', 'other', 'default', 'lists', 'reverse'])
    if how == 'change':
        out.append('x')
        out[0] = 'y'
    elif how == 'other':
        sx.check(sx.eq(list(f([r2])), [sx.chr(e) for e in e2]), 'other ranges')
    elif how == 'default':
        f()
    elif how == 'lists':
        sx.check(sx.eq(list(f([list(r) for r in rs])), exp), 'the same ranges as lists')
    else:
        back = [sx.chr(e) for e in (e2 + e1 if len(rs) == 2 else e1)]
        sx.check(sx.eq(list(f(rs[::-1])), back), 'the ranges the other way round')
    new = f(rs)
    sx.check(len(new) == len(exp) and sx.truth(sx.eq(list(new), exp)), 'asked again: the same characters')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
