"""C04: every reported field is exactly its specified columns, verbatim."""
from mc import arrays, literals
from mc.common import CONTROLS, EXOTIC, PRINTABLE, STYLES, Base, Expect, chunks, decode, line_of, put, quiet_read
from mc.common import reading_ops, read, table_diff, values
from mc.decoding import header_lines, kinds
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct accepted lines, differing from a base line of their variant in one or two columns or one field'
BOUNDS = {
  'quick': '126 record variants x 4 base styles x 132 columns x 95 printable characters (plus control and non-ASCII '
           'characters on one base); all column pairs x 2 x 2 characters; every field x every word of the '
           'library source, left and right aligned; every field filled with each printable character; S and T x 12 areas x every continuation number; every two fields x 7 x 7 characteristic contents; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick on 8 bases (S and T) and 5 areas; column pairs x 8 x 8 characters; every two adjacent columns x 95 x 95, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}
AREAS = ('USA', 'PAC', 'CAN', 'AFR', '   ')


def judge(ctx, line, e, table=False):
  ops = reading_ops(line)
  ctx.states += 1
  if not e.ok:
    return
  r = quiet_read(ctx, line, ops)
  if r is None:
    if line.strip() != e.raw:
      return
    raise Violation('an acceptable line reports no fields', ops)
  ctx.validated += 1
  values(ctx, r, e, ops)
  if table and not e.bad:
    k, t = decode(ctx, r)
    if k == 'err':
      return
    d = table_diff(t, e.rows, ())   # names and raw values only; decoded text is for other properties
    if d:
      raise Violation(d, ops + [['decode', 'r', False]])


def sweep(ctx, v, style, rtype, area, chars):
  base = Base(line_of(v, style, rtype, area))
  judge(ctx, base.line, Expect(base, base.line, set()), True)
  for c in range(132):
    for k, ch in enumerate(chars):
      if ch == base.line[c]:
        continue
      line, e = base.changed(c, ch)
      judge(ctx, line, e, k % 8 == c % 8)
  ctx.outcome(v[1])


def pairs(ctx, v, style, a_chars, b_chars):
  base = Base(line_of(v, style))
  L = base.line
  for a in range(1, 123):
    for x in a_chars:
      if x == L[a]:
        continue
      l1 = L[:a] + x + L[a + 1:]
      for b in range(a + 1, 123):
        for y in b_chars:
          if y != L[b]:
            line = l1[:b] + y + l1[b + 1:]
            judge(ctx, line, base.expect(line, (a, b)))


def adjacent(ctx, v, lo, hi):
  base = Base(line_of(v))
  L = base.line
  for a in range(lo, hi):
    for x in PRINTABLE:
      for y in PRINTABLE:
        line = L[:a] + x + y + L[a + 2:]
        judge(ctx, line, base.expect(line, (a, a + 1)))


def words(ctx, v, style, ws):
  base = Base(line_of(v, style))
  L = base.line
  for f in base.fields:
    if f.lo is None:
      continue
    w = f.width
    for word in ws:
      if len(word) > w:
        continue
      for t in {word.ljust(w), word.rjust(w), word.center(w), (word * w)[:w]}:
        if t == L[f.lo:f.hi]:
          continue
        line = L[:f.lo] + t + L[f.hi:]
        judge(ctx, line, base.expect(line, f.cols))


def fills(ctx, v, style):
  """Whole fields of one character, blank prefixes and suffixes of every length, blank runs across fields."""
  base = Base(line_of(v, style))
  L = base.line
  for f in base.fields:
    if f.lo is None:
      continue
    w = f.width
    for ch in PRINTABLE:
      judge(ctx, L[:f.lo] + ch * w + L[f.hi:], base.expect(L[:f.lo] + ch * w + L[f.hi:], f.cols))
    for k in range(w):
      for t in (' ' * k + L[f.lo + k:f.hi], L[f.lo:f.hi - k] + ' ' * k, '0' * k + L[f.lo + k:f.hi], ('X' * k).center(w), ('9' * k).ljust(w), ('9' * k).rjust(w)):
        line = L[:f.lo] + t + L[f.hi:]
        judge(ctx, line, base.expect(line, f.cols), True)
  for a in range(13, 123):
    for b in range(a + 1, 124):
      for ch in ' X' if style == 'rich' else '':
        line = L[:a] + ch * (b - a) + L[b:]
        judge(ctx, line, Expect.full(line))


def field_pairs(ctx, v, style, rtype):
  """Every two fields x characteristic contents."""
  base = Base(line_of(v, style, rtype))
  L = base.line
  idx = [f for f in base.fields if f.lo is not None and base.dispatch.isdisjoint(f.cols)]
  for i, fa in enumerate(idx):
    for fb in idx[i + 1:]:
      if set(fa.cols) & set(fb.cols):
        continue
      for x in kinds(fa, L[fa.lo:fa.hi]):
        l = L[:fa.lo] + x + L[fa.hi:]
        for y in kinds(fb, L[fb.lo:fb.hi]):
          line = l[:fb.lo] + y + l[fb.hi:]
          judge(ctx, line, base.expect(line, tuple(fa.cols) + tuple(fb.cols)))


def headers(ctx, v, style):
  for line in header_lines(v, style):
    judge(ctx, line, Expect.full(line), True)


NEW_CAP = 30000


def new_line(ctx, line, e):
  judge(ctx, line, e)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  ws = [w for w in literals.collect(12)[0] if deep or not w.isdigit()]
  for v in ref.VARIANTS:
    for s in STYLES:
      for rt in 'ST' if deep else ('S' if s != 'digits' else 'T'):
        for area in (('EUR',) + AREAS if deep and s == 'rich' else ('EUR',) if s != 'letters' else ('USA',)):
          chars = PRINTABLE + (CONTROLS + EXOTIC if s == 'rich' and rt == 'S' else '')
          us.append(Unit('columns:%s' % v[1], sweep, v, s, rt, area, chars))
    us.append(Unit('column-pairs:%s' % v[1], pairs, v, 'rich', " X" if not deep else " X01'\"\\-", ' 9' if not deep else " 9AZz+.@"))
    us.append(Unit('words:%s' % v[1], words, v, 'rich', ws))
    if deep:
      us.append(Unit('words:%s' % v[1], words, v, 'blank', ws))
    us.append(Unit('fills:%s' % v[1], fills, v, 'rich'))
    us.append(Unit('fills:%s' % v[1], fills, v, 'digits'))
    if deep:
      for lo in range(13, 122, 12):
        us.append(Unit('adjacent:%s' % v[1], adjacent, v, lo, min(lo + 12, 122)))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  for v in ref.VARIANTS:
    for s in ('rich', 'letters') if deep else ('rich',):
      us.append(Unit('field pairs:%s' % v[1], field_pairs, v, s, 'T'))
  us += arrays.units(Unit, tier, judge)
  return us
