"""C02: the record type is chosen by section and subsection columns alone."""
from mc import arrays
from mc.common import CONTROLS, EXOTIC, PRINTABLE, Base, Expect, chunks, decode, line_of, put, read, reading_ops, selected, table_diff
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct lines; columns 5, 6 and 13 range over all printable characters, on several backgrounds'
BOUNDS = {
  'quick': 'columns 5 x 6 x 13 over all 95^3 printable characters on 14 backgrounds; columns 5, 6, 13 pairwise over '
           'control and non-ASCII characters; every other column x printable x every record type; S and T x 12 areas x every continuation number of every variant; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick on 40 backgrounds, and all pairs of a section column with any other column, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}

LETTERS = 'ADEHPRTU'


def judge(ctx, line, e, table=True):
  ctx.states += 1
  if not e.ok and e.v.why != 'type':
    return        # refused for another reason than its type (C01, C03)
  ops = reading_ops(line)
  r = read(ctx, line, e, ops)
  ctx.validated += 1
  ctx.outcome(e.v.ident or 'refused')
  if r is None:
    return
  selected(ctx, r, e, ops, ref.LAYOUTS)
  if not e.bad and table:
    # types that share a field list differ in the meaning of the route type
    k, t = decode(ctx, r)
    if k == 'ok' and table_diff(t, e.rows, ()) is None and table_diff(t, e.rows, [i for i, f in enumerate(e.fields) if f.sec == 7]):
      for other in ref.TYPES:
        if other != e.ident and ref.TYPES[other].primary == ref.TYPES[e.ident].primary:
          rows = [[n, x, ref.decode(f, v, other)[1]] if f.sec == 7 else [n, x, d]
                  for f, v, (n, x, d) in zip(e.fields, e.values, e.rows)]
          if table_diff(t, rows) is None:
            raise Violation('the record decodes as type %r; expected %r' % (other, e.ident), ops + [['decode', 'r', False]])


def background(fill, special=()):
  l = [fill] * 132
  l[0] = 'S'
  l[1:4] = 'USA'
  l[123:] = '123456789'
  for c, t in special:
    l[c:c + len(t)] = t
  return ''.join(l)


def cube(ctx, bg, firsts):
  for a in firsts:
    s1 = bg[:4] + a
    known = a in LETTERS
    for b in PRINTABLE:
      s2 = s1 + b + bg[6:12]
      for c in PRINTABLE:
        line = s2 + c + bg[13:]
        if known:
          judge(ctx, line, Expect.full(line))
        else:
          judge(ctx, line, REFUSED)


class _Refused:
  ok = False
  fields = values = frags = rows = bad = ()
  ident = raw = ''
  v = ref.Verdict(False, 'type')


REFUSED = _Refused()


def others(ctx, v, way, chars, style):
  """Every column other than the section columns leaves the record type alone."""
  base = Base(line_of(v, style))
  for c in range(132):
    if c in (4, 5, 12):
      continue
    for ch in chars:
      if ch == base.line[c]:
        continue
      line, e = base.changed(c, ch)
      judge(ctx, line, e, table=c % 3 == 0)


def both_ways(ctx, ident):
  """The same code in columns 5-6 and in columns 5 and 13, against every other code in the other place."""
  for v in ref.VARIANTS:
    if v[0] != ident:
      continue
    for style in ('rich', 'blank', 'digits'):
      base = line_of(v, style)
      for other in ref.TYPES:
        for c6, c13 in ((ident[1], other[1]), (other[1], ident[1]), (' ', ident[1]), (ident[1], ' '), ('@', ident[1])):
          for c5 in (ident[0], other[0]):
            line = base[:4] + c5 + c6 + base[6:12] + c13 + base[13:]
            judge(ctx, line, Expect.full(line))


def strange(ctx, vs):
  for v in vs:
    base = line_of(v)
    for a in CONTROLS + EXOTIC + PRINTABLE.lower()[33:]:
      for cols in ((4,), (5,), (12,), (4, 5), (4, 12), (5, 12), (4, 5, 12)):
        line = base
        for c in cols:
          line = put(line, c, a)
        judge(ctx, line, Expect.full(line))


def pair(ctx, v, style):
  base = line_of(v, style)
  for a in (4, 5, 12):
    for x in 'ABCDEFGHIKLMNPRSTUV 0':
      for c in range(13, 123):
        for ch in 'AS0 ':
          line = put(put(base, c, ch), a, x)
          judge(ctx, line, Expect.full(line), table=False)


def headers(ctx, v, style):
  for line in header_lines(v, style):
    judge(ctx, line, Expect.full(line))


NEW_CAP = 20000


def new_line(ctx, line, e):
  judge(ctx, line, e)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  bgs = [(f, ()) for f in ('0A1P QTEC' if not deep else '0A1P QTECSWNLZ29BDFR*')]
  bgs += [('0', ((15, w),)) for w in ('NR', 'AE', 'TC', 'SC')]
  bgs += [('2', ((c, a),)) for c, a in (((22, 'A'),) if not deep else ((22, 'A'), (39, 'A'), (26, 'T'), (27, 'E'), (30, 'A'), (70, 'T'), (56, 'T'), (25, 'C'), (20, 'A'), (22, 'S'), (22, 'L'), (39, 'P')))]
  # the known first letters are the expensive ones: spread them over many units
  for f, sp in bgs:
    bg = background(f, sp)
    for a in LETTERS:
      us.append(Unit('cube:%s%s' % (f, sp), cube, bg, a))
    rest = [c for c in PRINTABLE if c not in LETTERS]
    for part in chunks(rest, 44):
      us.append(Unit('cube:%s%s' % (f, sp), cube, bg, part))
  for v in ref.VARIANTS:
    us.append(Unit('other-columns:%s' % v[1], others, v, 0, PRINTABLE if deep else PRINTABLE[::2] + 'ST', 'rich'))
    us.append(Unit('other-columns:%s' % v[1], others, v, 0, PRINTABLE if deep else ' 0159ADEHPRSTUZ', 'blank'))
    if deep:
      us.append(Unit('pairs:%s' % v[1], pair, v, 'rich'))
  for i in ref.TYPES:
    us.append(Unit('both-ways:%s' % i, both_ways, i))
  for c in chunks(ref.VARIANTS, 16):
    us.append(Unit('strange', strange, c))
  for v in ref.VARIANTS:
    for s in ('rich', 'blank', 'digits', 'letters'):
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  us += arrays.units(Unit, tier, judge, False)
  return us
