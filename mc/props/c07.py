"""C07: text fields decode to themselves."""
import itertools

from mc import arrays, literals
from mc.common import STYLES, PRINTABLE, Base, Expect, line_of
from mc.decoding import care_of, field_index, field_pairs, field_values, fills, headed, headers, judge, strange, sweep, words
from mc.engine import Unit
from model import ref

STATES = 'distinct accepted lines of a record variant'
BOUNDS = {
  'quick': 'every column of a text field x 95 characters on two bases, on the rich base with all other text fields observed too; '
           'every field filled with each printable character fully or in part from either side; every field x every word of the library source; '
           'presented fields (route, approach and airway identifiers, sequence numbers, waypoint names): '
           'all strings over 5 characters up to length 6; file record numbers: all in one variant, every 101st in all others; no field decodes to None; control and non-ASCII characters in every column; S and T x 12 areas x every continuation number; columns of text fields x 6 characters and characteristic contents under three other headers; every text field with every other field x 7 x 7 characteristic contents; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick on all four bases with all columns, words on the blank base, adjacent columns x 20 x 20 characters, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}


def strings(ctx, v, style, index, alphabet, w):
  pad = ref.LAYOUTS[v[1]][index].width - w
  field_values(ctx, v, style, index, (''.join(p) + ' ' * pad for p in itertools.product(alphabet, repeat=w)), 'text')


def numbers(ctx, v, step):
  base = line_of(v)
  for n in range(0, 100000, step):
    line = base[:123] + str(n).zfill(5) + base[128:]
    judge(ctx, line, Expect.full(line), 'text')


def adjacent(ctx, v, style, chars):
  base = Base(line_of(v, style))
  L = base.line
  for a in range(6, 122):
    for x in chars:
      for y in chars:
        line = L[:a] + x + y + L[a + 2:]
        judge(ctx, line, base.expect(line, (a, a + 1)), 'text')


def patterns(ctx, v, style, chars):
  """Each text field: all patterns of blank and filled columns (up to 8 columns at its start and at its end)."""
  base = Base(line_of(v, style))
  L = base.line
  for i in sorted(care_of('text', base.fields)):
    f = base.fields[i]
    if f.lo is None:
      continue
    k = min(f.width, 8)
    for p in itertools.product(chars, repeat=k):
      s = ''.join(p)
      for lo in {f.lo, f.hi - k}:
        line = L[:lo] + s + L[lo + k:]
        judge(ctx, line, base.expect(line, f.cols), 'text')


def none(f):
  return ()


NEW_CAP = 15000


def new_line(ctx, line, e):
  judge(ctx, line, e, 'text')


def plan(tier):
  deep = tier == 'thorough'
  us = []
  ws = [w for w in literals.collect(12)[0] if deep or not w.isdigit()]
  for v in ref.VARIANTS:
    us.append(Unit('columns:%s' % v[1], sweep, v, 'rich', 'S', 'text', PRINTABLE, False))
    us.append(Unit('columns:%s' % v[1], sweep, v, 'blank', 'T', 'text', PRINTABLE if deep else PRINTABLE[::3], not deep))
    if deep:
      us.append(Unit('columns:%s' % v[1], sweep, v, 'digits', 'S', 'text', PRINTABLE, False))
      us.append(Unit('columns:%s' % v[1], sweep, v, 'letters', 'S', 'text', PRINTABLE, False))
      us.append(Unit('fills:%s' % v[1], fills, v, 'blank', 'text'))
      us.append(Unit('adjacent:%s' % v[1], adjacent, v, 'rich', " 019AENSTZaz'\"\\-+.@/"))
      us.append(Unit('words:%s' % v[1], words, v, 'blank', 'text', ws, False))
    else:
      us.append(Unit('adjacent:%s' % v[1], adjacent, v, 'rich', " 0S-"))
    us.append(Unit('patterns:%s' % v[1], patterns, v, 'rich', ' A' if not deep else ' A0'))
    us.append(Unit('patterns:%s' % v[1], patterns, v, 'digits', ' 0'))
    us.append(Unit('fills:%s' % v[1], fills, v, 'rich', 'text'))
    us.append(Unit('words:%s' % v[1], words, v, 'rich', 'text', ws, True))
    us.append(Unit('file record numbers:%s' % v[1], numbers, v, 1 if deep or v == ref.VARIANTS[1] else 101))
  for (sec, w), where in field_index('text').items():
    if sec not in ref.FORMATTED:
      continue
    for v, i in where[:None if deep else 4]:
      n = min(w, 6)
      us.append(Unit('strings:%d' % sec, strings, v, 'rich', i, ' A1z-' if n > 4 else ' A19zZ-+.R', n))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s, 'text'))
      us.append(Unit('field pairs:%s' % v[1], field_pairs, v, s, 'text'))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich',):
      us.append(Unit('under other headers:%s' % v[1], headed, v, s, 'text', PRINTABLE if deep else ' 0A-z.', none))
  for v in ref.VARIANTS:
    for s in STYLES:
      us.append(Unit('strange characters:%s' % v[1], strange, v, s, 'text'))
  us += arrays.units(Unit, tier, judge, 'text')
  return us
