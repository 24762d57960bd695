"""C09: JSON output is complete and lossless."""
import json

from mc import arrays, impl, literals
from mc.common import CONTROLS, EXOTIC, PRINTABLE, REDUCED, STYLES, Base, Capture, Expect, first_diff, json_pairs
from mc.common import line_of, quiet_read, reading_ops, put
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct accepted lines; each converted to JSON in one or all four option combinations'
BOUNDS = {
  'quick': 'every variant x 132 columns x (95 printable + 35 control + 29 non-ASCII characters, plus quotes and backslashes on all bases), single-line form; '
           'all four combinations of output and form for every variant x column x 12 characters; fields filled with each special character; S and T x 12 areas x every continuation number; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick with all four combinations and bases for every character, adjacent columns x 12 x 12 special characters, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}
SPECIAL = '"\\/\'{}[]:,<>&%|\t\n\r\0\x1b\x7f' + EXOTIC


def bad(r, got, want, ops, ordered):
  """Differs from the specified columns.  If the decoded table shows the same names and values, the JSON is faithful to
  the record and the columns are at fault (C04)."""
  try:
    with impl.real_tables():
      _, body = impl.parse_table(r.decode(False))
    rows = [(b[0].rstrip(' '), b[1].rstrip(' ')) for b in body if b[0].strip(' ') or b[1].strip(' ')]
    mine = [(n.rstrip(' '), "'%s'" % v) for n, v in got]
    if (rows if ordered else sorted(rows)) == mine:
      return
  except (ValueError, impl.BadTable):
    pass
  raise Violation(first_diff(got, want), ops)


def single(ctx, r, e, ops, text):
  if text == e.json:
    return
  ops = ops + [['json', 'r', False]]
  if not isinstance(text, str):
    raise Violation('json() returns %r, not text' % (text,), ops)
  if '\n' in text or '\r' in text:
    raise Violation('single-line JSON contains a line break', ops)
  try:
    got = [tuple(p) for p in json_pairs(text)]
  except ValueError as x:
    raise Violation('not valid JSON: %s' % x, ops)
  if got != e.pairs():
    bad(r, got, e.pairs(), ops, True)


def multi(ctx, r, e, ops, text):
  ops = ops + [['json', 'r', False, False]]
  try:
    got = [tuple(p) for p in json_pairs(text)]
  except ValueError as x:
    raise Violation('not valid JSON: %s' % x, ops)
  want = sorted(e.pairs())
  if got != want:
    bad(r, got, want, ops, False)
  lines = text.split('\n')
  if len(lines) != len(got) + 2 or lines[0] != '{' or lines[-1] != '}' or any(l[:1] not in ' \t' for l in lines[1:-1]):
    raise Violation('multi-line JSON is not one indented member per line', ops)


def judge(ctx, line, e, all_forms):
  ops = reading_ops(line)
  ctx.states += 1
  if not e.ok:
    return
  r = quiet_read(ctx, line, ops)
  if r is None:
    return
  ctx.validated += 1
  try:
    t = r.json(False)
    ctx.transitions += 1
    single(ctx, r, e, ops, t)
    if not all_forms:
      return
    for form in (True, False):
      got = {}
      for output in (False, True):
        with Capture() as buf:
          got[output] = r.json(output, form), buf.getvalue()
      ctx.transitions += 2
      if got[True][0] != got[False][0]:
        raise Violation('the text differs with output on and off', ops + [['json', 'r', False, form], ['json', 'r', True, form]])
      if got[False][1]:
        raise Violation('prints %r with output off' % got[False][1], ops + [['json', 'r', False, form]])
      if got[True][1] != got[True][0] + '\n':
        raise Violation('prints %r; expected the returned text once' % got[True][1], ops + [['json', 'r', True, form]])
      if form:
        if got[False][0] != t:
          raise Violation('a second call gives a different text', ops + [['json', 'r', False], ['json', 'r', False, True]])
      else:
        multi(ctx, r, e, ops, got[False][0])
    with Capture() as buf:
      d = r.json()
    if d != t or buf.getvalue() != t + '\n':
      raise Violation('by default json() returns %r and prints %r; expected the single-line text for both' % (d, buf.getvalue()), ops + [['json', 'r']])
    with Capture() as buf:
      d = r.json(output=False, single_line=True)
    if d != t or buf.getvalue():
      raise Violation('json(output=False, single_line=True) differs', ops + [['json', 'r', False, True]])
    ctx.transitions += 2
  except Violation:
    raise
  except Exception as x:
    raise Violation('json() raises %s: %s' % (type(x).__name__, x), ops + [['json', 'r']])


def sweep(ctx, v, style, rtype, chars, forms):
  base = Base(line_of(v, style, rtype))
  judge(ctx, base.line, Expect(base, base.line, set()), True)
  for c in range(132):
    for ch in chars:
      if ch != base.line[c]:
        line, e = base.changed(c, ch)
        judge(ctx, line, e, ch in forms)


def fills(ctx, v, style):
  base = Base(line_of(v, style))
  L = base.line
  for f in base.fields:
    if f.lo is None:
      continue
    for ch in SPECIAL + ' 0A':
      for t in (ch * f.width, ch + L[f.lo + 1:f.hi], (ch + 'n') * (f.width // 2) + ch * (f.width % 2)):
        line = L[:f.lo] + t + L[f.hi:]
        judge(ctx, line, base.expect(line, f.cols), True)


def adjacent(ctx, v, chars):
  base = Base(line_of(v))
  L = base.line
  for c in range(6, 122):
    for x in chars:
      for y in chars:
        line = L[:c] + x + y + L[c + 2:]
        judge(ctx, line, base.expect(line, (c, c + 1)), False)


def words(ctx, v, ws):
  base = Base(line_of(v))
  L = base.line
  for f in base.fields:
    if f.lo is not None:
      for w in ws:
        if len(w) <= f.width:
          line = L[:f.lo] + w.ljust(f.width) + L[f.hi:]
          judge(ctx, line, base.expect(line, f.cols), False)


def headers(ctx, v, style):
  for line in header_lines(v, style):
    judge(ctx, line, Expect.full(line), True)


def terminal(ctx, columns):
  Capture.terminal(columns)
  for v in ref.VARIANTS:
    for s in STYLES:
      line = line_of(v, s)
      judge(ctx, line, Expect.full(line), True)


NEW_CAP = 10000


def new_line(ctx, line, e):
  judge(ctx, line, e, True)


def plan(tier):
  deep = tier == 'thorough'
  full = PRINTABLE + CONTROLS + EXOTIC
  us = [Unit('terminals', terminal, n) for n in (20, 80)]
  ws = [w for w in literals.collect(12)[0] if not w.isdigit()]
  for v in ref.VARIANTS:
    for s in STYLES:
      chars = full if deep or s == 'rich' else '"\\\'/ 0Az\t\u00e9'
      us.append(Unit('columns:%s' % v[1], sweep, v, s, 'S' if s != 'letters' else 'T', chars, full if deep else '"\\ 0A\u00e9' if s == 'rich' else ''))
    us.append(Unit('fills:%s' % v[1], fills, v, 'rich'))
    us.append(Unit('adjacent:%s' % v[1], adjacent, v, '"\\/unx0\'{} \u00e9' if deep else '"\\n u'))
    us.append(Unit('words:%s' % v[1], words, v, ws))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  us += arrays.units(Unit, tier, judge, False)
  us += arrays.units(Unit, tier, judge, True, slow=True)
  return us
