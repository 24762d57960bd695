"""C16: surrounding whitespace and line endings make no difference."""
import sys

from mc import arrays, impl
from mc.common import Base, Capture, Expect, first_diff, json_pairs, line_of, observation_diff, observe, put, quiet_read, reading_ops
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct (line, surrounding whitespace) pairs'
BOUNDS = {
  'quick': 'every variant (rich base) x every pair of prefix and suffix from all 29 whitespace characters, 8 longer strings and none; all bases x 14 x 14; lines of '
           'every refused class x 14 x 14; every column x every whitespace character inside the line; lines with all fields varied at once (orthogonal arrays of any two fields) with one of 121 surroundings each',
  'thorough': 'as quick on all four bases, with all two-character prefixes and suffixes',
}
SPACES = [chr(c) for c in range(sys.maxunicode + 1) if chr(c).isspace()]
SOME = ['', ' ', '\n', '\r\n', '\t', '  ', '\r', '\n\n', ' \r\n', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u3000', ' ' * 40]

AFFIXES = ['\n', '', ' ', '\r\n', '\t', '\r', '  ', '\x0c', '\u2003', '\x1c', '\x85']


def bare(ctx, line):
  r = impl.Record()
  ok = r.read(line)
  with Capture() as buf:
    try:
      p = impl.lib.parse(line)
    except ValueError as x:
      p = 'ValueError: %s' % x
  return ok, observe(ctx, r), (p, buf.getvalue())


def judge(ctx, line, want, pre, post, parse=False):
  text = pre + line + post
  ops = [['read', 'bare', line], ['read', 'r', text], ['json', 'r', False], ['decode', 'r', False]]
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  r = impl.Record()
  try:
    ok = r.read(text)
  except Exception as x:
    raise Violation('reading raises %s' % type(x).__name__, ops)
  ctx.states += 1
  ctx.transitions += 1
  ctx.validated += 1
  if ok is not want[0]:
    raise Violation('with %r before and %r after it the line is %s; bare it is not' % (pre, post, 'accepted' if ok else 'refused'), ops)
  ctx.outcome('accepted' if ok else 'refused')
  d = observation_diff(observe(ctx, r), want[1])
  if d:
    raise Violation('with %r before and %r after the line, the %s' % (pre, post, d), ops)
  if ok and getattr(r, 'raw', line) != line:
    raise Violation('the raw text is %r' % r.raw, ops)
  if parse:
    with Capture() as buf:
      try:
        p = impl.lib.parse(text)
      except ValueError as x:
        p = 'ValueError: %s' % x
    ctx.transitions += 1
    if (p, buf.getvalue()) != want[2]:
      raise Violation('parse() gives something else than for the bare line', [['parse', line], ['parse', text]])


def around(ctx, v, style, rtype, pres, posts):
  line = line_of(v, style, rtype)
  want = bare(ctx, line)
  for a in pres:
    for b in posts:
      judge(ctx, line, want, a, b, a == '' or b == '')


def refused(ctx):
  base = line_of(ref.VARIANTS[1])
  pa = line_of(next(v for v in ref.VARIANTS if v[0] == 'PA'))
  for line in ('', 'X', base[:-1], base + '1', 'X' + base[1:], put(base, 131, 'A'), put(put(base, 4, 'XX'), 12, 'X'), put(pa, 21, '*'), put(put(pa, 21, '2'), 22, '*'), base.lower()):
    want = bare(ctx, line)
    for a in SOME + SPACES:
      for b in SOME:
        judge(ctx, line, want, a, b, True)


def trimmed(ctx, v):
  """Lines that become 132 columns long only with their surrounding blanks are still refused, and the other way round."""
  line = line_of(v)
  for k in range(1, 12):
    for l in (line[k:], line[:-k], line[k:-k]):
      want = bare(ctx, l)
      for pre, post in (('', ' ' * k), (' ' * k, ''), (' ' * k, ' ' * k), ('\t' * k, ''), ('', '\n' * k)):
        judge(ctx, l, want, pre, post)


def inside(ctx, v, style):
  """Whitespace inside the 132 columns is content."""
  base = Base(line_of(v, style))
  for c in range(1, 131):
    for ch in SPACES:
      line, e = base.changed(c, ch)
      if not e.ok:
        continue
      ops = reading_ops(line)
      r = quiet_read(ctx, line, ops)
      ctx.states += 1
      if r is None:
        raise Violation('whitespace %r in column %d makes the line refused' % (ch, c + 1), ops)
      ctx.validated += 1
      got = [tuple(p) for p in json_pairs(r.json(False))]
      if got != e.pairs():
        # only if the whitespace itself is what got lost
        want = e.pairs()
        for g, w in zip(got, want):
          if g != w and (ch in w[1]) and ch not in g[1]:
            raise Violation('%r is reported as %r; expected %r' % (w[0], g[1], w[1]), ops + [['json', 'r', False]])
      if getattr(r, 'raw', line) != line:
        raise Violation('the raw text is changed', ops)


def array_line(ctx, line, e):
  """One prefix and one suffix for each line of an array, taking turns."""
  k = ctx.states
  judge(ctx, line, bare(ctx, line), AFFIXES[k % len(AFFIXES)], AFFIXES[k // len(AFFIXES) % len(AFFIXES)], True)


NEW_CAP = 300


def new_line(ctx, line, e):
  want = bare(ctx, line)
  for a in ('', ' ', '\n', '\t', '\u3000'):
    for b in ('', ' ', '\n', '\r\n', '\x1c'):
      judge(ctx, line, want, a, b, a == '')


def plan(tier):
  deep = tier == 'thorough'
  us = [Unit('refused', refused)]
  every = list(dict.fromkeys(SOME + SPACES))
  for v in ref.VARIANTS:
    us.append(Unit('around:%s' % v[1], around, v, 'rich', 'S', every, every))
    for s in ('blank', 'digits', 'letters'):
      us.append(Unit('around:%s' % v[1], around, v, s, 'T', every if deep else SOME[:9], every if deep else SOME[:9]))
    us.append(Unit('inside:%s' % v[1], inside, v, 'rich'))
    us.append(Unit('trimmed:%s' % v[1], trimmed, v))
    if deep:
      two = [a + b for a in SPACES for b in SPACES]
      us.append(Unit('around:%s' % v[1], around, v, 'rich', 'S', two, ('', '\n')))
      us.append(Unit('around:%s' % v[1], around, v, 'rich', 'S', ('', ' '), two))
  us += arrays.units(Unit, 'quick', array_line, slow=True)
  return us
