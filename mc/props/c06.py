"""C06: numeric fields decode to the right magnitude and unit."""
import itertools

from mc import arrays, literals
from mc.common import STYLES, PRINTABLE, Base, Expect, chunks, line_of
from mc.decoding import care_of, field_index, field_pairs, field_values, fills, headed, headers, judge, strange, sweep, words
from mc.engine import Unit
from model import ref

STATES = 'distinct accepted lines of a record variant'
BOUNDS = {
  'quick': 'all numbers of up to four digits in all numeric fields of every variant at once, all numbers of five digits in '
           'one field of each kind and width (navaid frequencies: of each record type), wider fields with every window of four digits; all cycle dates in every primary variant; '
           'columns of numeric fields x 95 characters on four bases; strings of up to four columns over 12 and of five to seven columns over '
           '4 characters; 23 numbers with 22 prefixes and 17 suffixes; control and non-ASCII characters in every column; S and T x 12 areas x every continuation number; columns of numeric fields x 12 characters and 23 numbers under three other headers; every numeric field with every other field x 7 x 7 characteristic contents; fields whose numbers are shown as they stand: every seventh number of four digits, the same prefixes and suffixes, columns x 95 characters; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick with all five-digit numbers in every variant, larger alphabets, and every other column varied for '
              'characteristic numbers, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}
MIXED = ' 01-+.AETW9\''


def texts_for(w, n):
  return str(n).zfill(w)[-w:]


def together(ctx, v, style, ns, cls='numeric'):
  """All numeric fields of the record hold (their last digits of) the same number."""
  base = Base(line_of(v, style))
  idx = [i for i in sorted(care_of(cls, base.fields)) if base.dispatch.isdisjoint(base.fields[i].cols)]
  if not idx:
    return
  cols = tuple(c for i in idx for c in base.fields[i].cols)
  L = list(base.line)
  for n in ns:
    l = L[:]
    for i in idx:
      f = base.fields[i]
      t = str(n).zfill(f.width)[-f.width:]
      if f.sec == 39:
        t = 'EW'[n & 1] + t[1:]
      for c, ch in zip(f.cols, t):
        l[c] = ch
    line = ''.join(l)
    judge(ctx, line, base.expect(line, cols), cls)


def digits_in(ctx, v, style, index, lo, hi):
  w = ref.LAYOUTS[v[1]][index].width
  field_values(ctx, v, style, index, (str(n).zfill(w) for n in range(lo, hi)), 'numeric')


def windows(ctx, v, style, index):
  """Wider fields: every number of four digits in every window, with zeros or nines around it."""
  w = ref.LAYOUTS[v[1]][index].width
  texts = dict.fromkeys(
    a * p + str(n).zfill(4) + b * (w - 4 - p)
    for p in range(w - 3) for a in '09' for b in '09' for n in range(10000))
  field_values(ctx, v, style, index, texts, 'numeric')


def strings(ctx, v, style, index, alphabet, w):
  field_values(ctx, v, style, index, (''.join(p) for p in itertools.product(alphabet, repeat=w)), 'numeric')


def cycle(ctx, v, style, rtype):
  base = line_of(v, style, rtype)
  for n in range(10000):
    line = base[:128] + str(n).zfill(4)
    judge(ctx, line, Expect.full(line), 'numeric')


def context(ctx, v, style, chars, nums):
  """Characteristic numbers in every numeric field, with every other column varied."""
  b0 = Base(line_of(v, style))
  idx = [i for i in sorted(care_of('numeric', b0.fields)) if b0.dispatch.isdisjoint(b0.fields[i].cols)]
  if not idx:
    return
  for n in nums:
    l = list(b0.line)
    for i in idx:
      f = b0.fields[i]
      t = str(n).zfill(f.width)[-f.width:]
      if f.sec == 39:
        t = 'W' + t[1:]
      for c, ch in zip(f.cols, t):
        l[c] = ch
    base = Base(''.join(l))
    for c in range(132):
      if any(c in b0.fields[i].cols for i in idx):
        continue
      for ch in chars:
        if ch != base.line[c]:
          line, e = base.changed(c, ch)
          judge(ctx, line, e, 'numeric')


PREFIXES = ('FL', 'F ', '-', '- ', '+', ' ', '  ', '   ', 'GND', 'MSL', 'N', 'S', 'E', 'W', 'M', 'T', 'K', '.', '0x', '1e', 'A', '_')
SUFFIXES = (' ', '  ', '   ', 'E', 'W', 'M', 'K', 'L', 'FT', 'NM', 'T', '.', '.0', 'e1', '-', '+', '_')
SOME = (0, 1, 5, 7, 10, 18, 45, 50, 99, 100, 180, 195, 245, 450, 600, 999, 1000, 1150, 3600, 9999, 11500, 18000, 99999)


def affixed(ctx, v, style, cls='numeric'):
  """Numbers with something before or after them, of every width, in every numeric field."""
  base = Base(line_of(v, style))
  for i in sorted(care_of(cls, base.fields)):
    f = base.fields[i]
    if not base.dispatch.isdisjoint(f.cols):
      continue
    w = f.width
    texts = []
    for n in SOME:
      d = str(n)
      for p in PREFIXES:
        for q in ('',) + SUFFIXES:
          k = w - len(p) - len(q)
          if len(d) <= k:
            texts.append(p + d.zfill(k) + q)
      for q in SUFFIXES:
        k = w - len(q)
        if len(d) <= k:
          texts += [d.zfill(k) + q, d.rjust(k) + q, d.ljust(k) + q]
      if len(d) <= w:
        texts += [d.rjust(w), d.ljust(w), d.center(w)]
    field_values(ctx, v, style, i, dict.fromkeys(texts), cls)


def plain(ctx, v, style, ns):
  """Fields whose numbers are shown as they stand: no unit or scale appears for any content."""
  base = Base(line_of(v, style))
  judge(ctx, base.line, Expect(base, base.line, set()), 'plain')
  together(ctx, v, style, ns, 'plain')
  affixed(ctx, v, style, 'plain')
  sweep(ctx, v, 'digits', 'S', 'plain', PRINTABLE, True)


def some(f):
  return [str(n).zfill(f.width) for n in SOME if n < 10 ** f.width] + ['E' + str(n).zfill(f.width - 1) for n in (0, 7, 123) if n < 10 ** (f.width - 1)]


NEW_CAP = 15000


def new_line(ctx, line, e):
  judge(ctx, line, e, 'numeric')
  judge(ctx, line, e, 'plain')


def plan(tier):
  deep = tier == 'thorough'
  us = []
  for v in ref.VARIANTS:
    lay = ref.LAYOUTS[v[1]]
    has = [f for f in lay if f.sec in ref.NUMERIC and f.sec != 32]
    for s in ('rich', 'blank', 'digits', 'letters'):
      us.append(Unit('columns:%s' % v[1], sweep, v, s, 'S', 'numeric', PRINTABLE, True))
    if deep or v[2] in (None, '0') or v[0] in ('PA', 'PF', 'ER'):
      us.append(Unit('cycle dates:%s' % v[1], cycle, v, 'rich', 'S'))
    us.append(Unit('numbers shown as they stand:%s' % v[1], plain, v, 'rich', range(0, 10000, 1 if deep else 7)))
    if not has:
      continue
    us.append(Unit('numbers together:%s' % v[1], together, v, 'rich', range(10000)))
    if deep:
      for lo in range(10000, 100000, 10000):
        us.append(Unit('numbers together:%s' % v[1], together, v, 'rich', range(lo, lo + 10000)))
      us.append(Unit('cycle dates:%s' % v[1], cycle, v, 'blank', 'T'))
    us.append(Unit('numbers in context:%s' % v[1], context, v, 'rich', PRINTABLE if deep else ' 0159AENPSTWZ',
                   (0, 1, 100, 1830, 10230, 99999) if deep else (0, 11830)))
    us.append(Unit('numbers in context:%s' % v[1], context, v, 'blank', PRINTABLE if deep else ' 1AS', (0, 18000)))
    us.append(Unit('words:%s' % v[1], words, v, 'rich', 'numeric', literals.collect(7)[0], True))
    us.append(Unit('fills:%s' % v[1], fills, v, 'rich', 'numeric'))
    us.append(Unit('affixed numbers:%s' % v[1], affixed, v, 'rich'))
    if deep:
      us.append(Unit('affixed numbers:%s' % v[1], affixed, v, 'blank'))
  for (sec, w), where in field_index('numeric').items():
    if sec == 32:
      continue
    seen = set()
    for v, i in where:
      f = ref.LAYOUTS[v[1]][i]
      new = v[0] not in seen if deep else (v[0][0] if sec != 34 else v[0]) not in seen
      seen.add(v[0] if deep else v[0][0] if sec != 34 else v[0])
      if not new:
        small = 5 if w <= 4 else 3
        us.append(Unit('short strings:%d' % sec, strings, v, 'rich', i, MIXED[:small], w))
        continue
      top = 10 ** min(w, 5 if deep or v == where[0][0] or sec == 34 else 4)
      for lo in range(0, top, 20000):
        us.append(Unit('all numbers:%d' % sec, digits_in, v, 'rich', i, lo, min(lo + 20000, top)))
      if w > 5:
        us.append(Unit('windows:%d' % sec, windows, v, 'rich', i))
      n = (12 if w <= 4 else 6 if w == 5 else 4) if not deep else (12 if w <= 4 else 10 if w == 5 else 6)
      us.append(Unit('strings:%d' % sec, strings, v, 'rich', i, MIXED[:n], w))
      us.append(Unit('strings:%d' % sec, strings, v, 'blank', i, MIXED[:4], w))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s, 'numeric'))
      us.append(Unit('field pairs:%s' % v[1], field_pairs, v, s, 'numeric'))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich',):
      us.append(Unit('under other headers:%s' % v[1], headed, v, s, 'numeric', MIXED, some))
  for v in ref.VARIANTS:
    for s in STYLES:
      us.append(Unit('strange characters:%s' % v[1], strange, v, s, 'numeric'))
  us += arrays.units(Unit, tier, judge, 'numeric')
  return us
