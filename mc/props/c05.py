"""C05: coded fields decode to the meaning of their code, and only valid codes do."""
import itertools

from mc import arrays, literals
from mc.arrays import codes_of
from mc.common import PRINTABLE, STYLES, Base, chunks, line_of
from mc.decoding import care_of, field_index, field_pairs, field_values, fills, headed, headers, judge, strange, neighbours, sweep, words
from mc.engine import Unit
from model import ref

STATES = 'distinct accepted lines of a record variant'
BOUNDS = {
  'quick': 'every column x 95 characters x every variant on the rich and blank base, columns of coded fields also on the '
           'digits and letters base; one- and two-column codes: all printable values; three-column codes: all of [A-Z0-9 ]^3 for '
           'one field of each kind and record type letter, and every code with every one-character edit for all; '
           'waypoint descriptions: product of all letters with a meaning; every pair of coded fields x all their codes; control and non-ASCII characters in every column; S and T x 12 areas x every continuation number; every column of a coded field x 95 characters and every code under three other headers; every coded field with every other field x 7 x 7 characteristic contents; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick, with three-column codes over all 95^3 values, every coded field x every other column x 8 characters, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}

MIX = ref.UPPER + ref.DIGITS + ' '


def product(ctx, v, style, index, alphabets):
  field_values(ctx, v, style, index, (''.join(p) for p in itertools.product(*alphabets)), 'coded')


def pairs(ctx, v, style, cap):
  base = Base(line_of(v, style))
  L = base.line
  idx = sorted(care_of('coded', base.fields))
  for a, b in itertools.combinations(idx, 2):
    fa, fb = base.fields[a], base.fields[b]
    if set(fa.cols) & set(fb.cols):
      continue
    ca, cb = codes_of(fa.sec)[:cap], codes_of(fb.sec)[:cap]
    if not base.dispatch.isdisjoint(fa.cols + fb.cols):
      if fa.sec in (4, 16, 91) or fb.sec in (4, 16, 91):
        continue
    for x in ca:
      for y in cb:
        l = list(L)
        for c, ch in zip(fa.cols, x.ljust(fa.width)[:fa.width]):
          l[c] = ch
        for c, ch in zip(fb.cols, y.ljust(fb.width)[:fb.width]):
          l[c] = ch
        line = ''.join(l)
        judge(ctx, line, base.expect(line, fa.cols + fb.cols), 'coded')


def context(ctx, v, style, chars):
  """Each code of each coded field, with every other column varied."""
  base = Base(line_of(v, style))
  L = base.line
  for i in sorted(care_of('coded', base.fields)):
    f = base.fields[i]
    if not base.dispatch.isdisjoint(f.cols):
      continue
    for code in codes_of(f.sec)[:24]:
      b2 = list(L)
      for c, ch in zip(f.cols, code.ljust(f.width)[:f.width]):
        b2[c] = ch
      b2 = Base(''.join(b2))
      for c in range(1, 123):
        if c in f.cols:
          continue
        for ch in chars:
          if ch != b2.line[c]:
            line, e = b2.changed(c, ch)
            judge(ctx, line, e, 'coded')


def codes_for(f):
  return [c for c in codes_of(f.sec) if len(c) <= f.width]


NEW_CAP = 15000


def new_line(ctx, line, e):
  judge(ctx, line, e, 'coded')


def plan(tier):
  deep = tier == 'thorough'
  us = []
  for v in ref.VARIANTS:
    us.append(Unit('columns:%s' % v[1], sweep, v, 'rich', 'S', 'coded', PRINTABLE, False))
    us.append(Unit('columns:%s' % v[1], sweep, v, 'blank', 'T', 'coded', PRINTABLE, not deep))
    for s in ('digits', 'letters'):
      us.append(Unit('columns:%s' % v[1], sweep, v, s, 'S', 'coded', PRINTABLE, True))
  for (sec, w), where in field_index('coded').items():
    seen = set()
    for v, i in where:
      f = ref.LAYOUTS[v[1]][i]
      if w == 2:
        us.append(Unit('two-column codes:%d' % sec, product, v, 'rich', i, (PRINTABLE, PRINTABLE)))
      elif w == 3:
        key = (v[0][0], i == 1)
        codes = codes_of(sec)
        texts = list(dict.fromkeys(t for c in codes for t in neighbours(c, w)))
        if key not in seen or deep:
          seen.add(key)
          for p in chunks(PRINTABLE if deep and len(where) < 20 else MIX, 10):
            us.append(Unit('three-column codes:%d' % sec, product, v, 'rich', i,
                           (p, PRINTABLE, PRINTABLE) if deep and len(where) < 20 else (p, MIX, MIX)))
        us.append(Unit('codes and their neighbours:%d' % sec, field_values, v, 'rich', i, texts, 'coded'))
        us.append(Unit('codes:%d' % sec, field_values, v, 'blank', i, codes, 'coded'))
      elif w == 4:
        alpha = [''.join(t) + ' X0' for t in ref.WAYPOINT_DESC]
        us.append(Unit('waypoint descriptions', product, v, 'rich', i, alpha))
        if deep:
          us.append(Unit('waypoint descriptions', product, v, 'blank', i, [a + 'abcz9' for a in alpha]))
  for v in ref.VARIANTS:
    us.append(Unit('code pairs:%s' % v[1], pairs, v, 'rich', 999 if deep else 27))
    if deep:
      us.append(Unit('codes in context:%s' % v[1], context, v, 'rich', ' 0159AXZ'))
    else:
      us.append(Unit('codes in context:%s' % v[1], context, v, 'rich', ' '))
  ws = [w for w in literals.collect(12)[0] if not w.isdigit()]
  for v in ref.VARIANTS:
    us.append(Unit('words:%s' % v[1], words, v, 'rich', 'coded', ws, not deep))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s, 'coded'))
      us.append(Unit('field pairs:%s' % v[1], field_pairs, v, s, 'coded'))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich',):
      us.append(Unit('under other headers:%s' % v[1], headed, v, s, 'coded', PRINTABLE, codes_for))
  for v in ref.VARIANTS:
    for s in STYLES:
      us.append(Unit('strange characters:%s' % v[1], strange, v, s, 'coded'))
  us += arrays.units(Unit, tier, judge, 'coded')
  return us
