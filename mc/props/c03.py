"""C03: continuation number and application type select the record variant."""
from mc import arrays
from mc.common import CONTROLS, EXOTIC, PRINTABLE, STYLES, Base, Expect, chunks, line_of, put, reading_ops
from mc.common import read, selected
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct lines; the continuation and application columns of every record type range over all printable characters'
BOUNDS = {
  'quick': '42 record types x all 95 x 95 printable (continuation number, application type) pairs (airway restrictions: '
           '36 numbers x 95 x 95 restriction types) on the rich and blank base; all variants x 36 numbers x every other column x 12 '
           'characters; S and T x 12 areas x every continuation number of every variant; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick on all four base styles, airway restrictions 95 x 95 x 95, other columns x all printable characters, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}

CANDIDATES = {i: [v[1] for v in ref.VARIANTS if v[0] == i] for i in ref.TYPES}


def judge(ctx, line, e):
  ctx.states += 1
  if e.v.why in ('gate', 'type'):
    return        # C01, C02
  ops = reading_ops(line)
  r = read(ctx, line, e, ops)
  ctx.validated += 1
  ctx.outcome(e.v.layout or 'refused: ' + e.v.why)
  if r is None:
    return
  p, h = r.primary(), r.hasCont()
  ctx.transitions += 2
  if bool(p) is not e.v.primary:
    raise Violation('primary() is %r; expected %r' % (p, e.v.primary), ops + [['primary', 'r']])
  if bool(h) is not e.v.has_cont:
    raise Violation('hasCont() is %r; expected %r' % (h, e.v.has_cont), ops + [['hasCont', 'r']])
  selected(ctx, r, e, ops, CANDIDATES[e.ident])


def square(ctx, ident, lay, style, numbers, apps):
  t = ref.TYPES[ident]
  v = next(x for x in ref.VARIANTS if x[1] == lay and x[0] == ident)
  base = line_of(v, style)
  for n in numbers:
    l1 = put(base, t.cont, n)
    for a in apps:
      line = put(l1, t.app, a)
      judge(ctx, line, Expect.full(line))


def other_columns(ctx, v, style, chars):
  """The number and application type alone decide: vary every other column, for every number."""
  base = line_of(v, style)
  t = ref.TYPES[v[0]]
  skip = {0, 4, 5, 12} | set(range(123, 132))
  if t.cont is None:
    for c in range(132):
      for ch in PRINTABLE:
        line = put(base, c, ch)
        judge(ctx, line, Expect.full(line))
    return
  skip |= {t.cont} | set(range(t.app, t.app + t.app_width))
  for n in ref.CONT_NUMBERS + ' *a':
    b = put(base, t.cont, n)
    if not ref.classify(b).ok:
      for c in range(132):
        if c not in skip:
          line = put(b, c, 'A')
          judge(ctx, line, Expect.full(line))
      continue
    bb = Base(b)
    for c in range(132):
      if c in skip:
        continue
      for ch in chars:
        if ch != b[c]:
          line, e = bb.changed(c, ch)
          judge(ctx, line, e)


def strange(ctx, vs):
  for v in vs:
    t = ref.TYPES[v[0]]
    if t.cont is None:
      continue
    base = line_of(v)
    for a in CONTROLS + EXOTIC:
      for b in (None, 'A', '0', a):
        line = put(base, t.cont, a)
        if b is not None:
          line = put(line, t.app, b * t.app_width)
        judge(ctx, line, Expect.full(line))
      line = put(base, t.app, a * t.app_width)
      judge(ctx, line, Expect.full(line))


def headers(ctx, v, style):
  for line in header_lines(v, style):
    judge(ctx, line, Expect.full(line))


NEW_CAP = 20000


def new_line(ctx, line, e):
  judge(ctx, line, e)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  two = [a + b for a in PRINTABLE for b in PRINTABLE]
  for ident, t in ref.TYPES.items():
    lays = [x[1] for x in ref.VARIANTS if x[0] == ident]
    if t.cont is None:
      continue
    if t.app_width == 2:
      for part in chunks(PRINTABLE if deep else ref.CONT_NUMBERS + ' *', 2):
        us.append(Unit('square:EU', square, ident, lays[0], 'rich', part, two))
      us.append(Unit('square:EU', square, ident, lays[1], 'blank', PRINTABLE, ['AE', 'TC', 'SC', 'NR', '  ', 'XX', 'ae', 'A ', ' N']))
    else:
      for lay in lays:
        for s in STYLES if deep else ('rich', 'blank'):
          if lay != lays[0] and s != 'rich' and not deep:
            continue
          us.append(Unit('square:%s' % ident, square, ident, lay, s, PRINTABLE, PRINTABLE))
  for v in ref.VARIANTS:
    us.append(Unit('other-columns:%s' % v[1], other_columns, v, 'rich', PRINTABLE if deep else ' 019APQST'))
    if deep:
      us.append(Unit('other-columns:%s' % v[1], other_columns, v, 'blank', PRINTABLE[::3]))
  for c in chunks(ref.VARIANTS, 16):
    us.append(Unit('strange', strange, c))
  for v in ref.VARIANTS:
    for s in ('rich', 'blank', 'digits', 'letters'):
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  us += arrays.units(Unit, tier, judge)
  return us
