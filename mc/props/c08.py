"""C08: bad field content is contained: text or ValueError, process and record intact."""
from mc import arrays, impl, literals
from mc.common import CONTROLS, EXOTIC, PRINTABLE, REDUCED, STYLES, Base, Capture, Expect, line_of, put
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct accepted lines; each is decoded twice, printed, and followed by another record'
BOUNDS = {
  'quick': 'every column x (95 printable + 35 control + 29 non-ASCII characters) x every variant on the rich base, a reduced alphabet on '
           'the other bases; every field filled with each character; adjacent columns x 6 x 6 characters; words of the source; all fields at once: for any two fields every combination of at least 29 contents each (orthogonal arrays), also with invalid contents',
  'thorough': 'as quick with the full alphabet on all bases, adjacent columns x 20 x 20 characters, all pairs of columns x 3 x 3, arrays of any three fields',
}

GOOD = line_of(ref.VARIANTS[1])
_good = []


def good_table():
  r = impl.Record()
  r.read(GOOD)
  return r.decode(False)


def once(ctx, r, output):
  """('ok', text, printed) | ('err', message, printed); anything else is a violation (by the caller)."""
  ctx.transitions += 1
  with Capture() as buf:
    try:
      t = r.decode(output)
      return 'ok', t, buf.getvalue()
    except ValueError as x:
      return 'err', str(x), buf.getvalue()


def judge(ctx, line, follow=False, like=None):
  if not _good:       # once per unit, each of which runs in a process of its own
    ctx.case = [['read', 's', GOOD], ['decode', 's', False]]
    _good.append(good_table())
  ops = [['read', 'r', line]]
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  ctx.states += 1
  r = impl.Record()
  ctx.transitions += 1
  try:
    if not r.read(line):
      return
  except Exception:
    return      # reading is C01
  dec = ops + [['decode', 'r', False]]
  ctx.case = dec + [['decode', 'r', True], ['read', 's', GOOD], ['decode', 's', False]]
  before = r.json(False), r.primary(), r.hasCont()
  try:
    a = once(ctx, r, False)
    b = once(ctx, r, True)
    c = once(ctx, r, False) if a[0] == 'err' or follow else b
  except (KeyboardInterrupt,):
    raise
  except SystemExit as x:
    raise Violation('decoding ends the process (SystemExit: %s)' % x, dec)
  except Exception as x:
    raise Violation('decoding raises %s: %s (only ValueError is expected)' % (type(x).__name__, x), dec)
  if not isinstance(a[1], str):
    raise Violation('decoding returns %r, not text' % (a[1],), dec)
  ctx.validated += 1
  ctx.outcome('decoded' if a[0] == 'ok' else 'ValueError')
  if a[:2] != b[:2] or a[:2] != c[:2]:
    raise Violation('decoding gives %s; again with output=%s: %s' % (
      brief(a), a[:2] != b[:2], brief(b if a[:2] != b[:2] else c)), dec + [['decode', 'r', True], ['decode', 'r', False]])
  if a[0] == 'err' and '|' in b[2]:
    raise Violation('decoding raises ValueError after printing a table', dec)
  after = r.json(False), r.primary(), r.hasCont()
  ctx.transitions += 6
  if before != after:
    raise Violation('decoding changes the record: %r, before %r' % (after, before), dec + [['json', 'r', False]])
  if a[0] == 'err' or follow:
    r2 = impl.Record()
    try:
      ok = r2.read(GOOD)
      t = r2.decode(False) if ok else None
    except Exception as x:
      t = '%s: %s' % (type(x).__name__, x)
    ctx.transitions += 2
    if t != _good[0]:
      raise Violation('a record read afterwards does not decode as before', dec + [['read', 's', GOOD], ['decode', 's', False]])
    if like is not None:
      line2, want = like
      r2 = impl.Record()
      try:
        ok = r2.read(line2)
        t = r2.decode(False) if ok else None
      except Exception as x:
        t = '%s: %s' % (type(x).__name__, x)
      ctx.transitions += 2
      if t != want:
        raise Violation('a record of the same kind read afterwards does not decode as before', dec + [['read', 's', line2], ['decode', 's', False]])


def array_line(ctx, line, e):
  judge(ctx, line)


def brief(x):
  return ('a table' if x[0] == 'ok' else 'ValueError(%s)' % x[1])


def sweep(ctx, v, style, rtype, chars):
  base = line_of(v, style, rtype)
  like = None
  judge(ctx, base, True)
  r = impl.Record()
  try:
    if r.read(base):
      like = base, r.decode(False)
  except ValueError:
    pass
  for c in range(132):
    for ch in chars:
      if ch != base[c]:
        judge(ctx, base[:c] + ch + base[c + 1:], like=like)


def fills(ctx, v, style, chars):
  base = line_of(v, style)
  for f in ref.LAYOUTS[v[1]]:
    if f.lo is None:
      continue
    for ch in chars:
      judge(ctx, base[:f.lo] + ch * f.width + base[f.hi:])
      for k in range(1, f.width if f.width < 8 else 2):
        judge(ctx, base[:f.lo] + ch * k + base[f.lo + k:])
        judge(ctx, base[:f.lo] + (ch * k).ljust(f.width) + base[f.hi:])
        judge(ctx, base[:f.lo] + (ch * k).rjust(f.width) + base[f.hi:])


def adjacent(ctx, v, chars):
  base = line_of(v)
  for c in range(1, 122):
    for x in chars:
      for y in chars:
        judge(ctx, base[:c] + x + y + base[c + 2:])


def pairs(ctx, v, chars):
  base = line_of(v)
  for a in range(6, 122):
    for b in range(a + 2, 123):
      for x in chars:
        for y in chars:
          judge(ctx, put(put(base, a, x), b, y))


def words(ctx, v, ws):
  base = line_of(v)
  for f in ref.LAYOUTS[v[1]]:
    if f.lo is None:
      continue
    for w in ws:
      if len(w) <= f.width:
        judge(ctx, base[:f.lo] + w.ljust(f.width) + base[f.hi:])


NEW_CAP = 8000


def new_line(ctx, line, e):
  if e.ok:
    judge(ctx, line)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  full = PRINTABLE + CONTROLS + EXOTIC
  ws = [w for w in literals.collect(12)[0] if not w.isdigit()]
  for v in ref.VARIANTS:
    for s in STYLES:
      us.append(Unit('columns:%s' % v[1], sweep, v, s, 'S', full if deep or s == 'rich' else " 09ASz*-'\u00b2\u0663\0"))
    us.append(Unit('fills:%s' % v[1], fills, v, 'rich', full if deep else REDUCED + '\u00b2\u0663\t'))
    us.append(Unit('adjacent:%s' % v[1], adjacent, v, REDUCED if deep else ' 0A-'))
    us.append(Unit('words:%s' % v[1], words, v, ws if deep else [w for w in ws if len(w) <= 3]))
    if deep:
      us.append(Unit('pairs:%s' % v[1], pairs, v, ' A*'))
  us += arrays.units(Unit, tier, array_line, slow=True)
  return us
