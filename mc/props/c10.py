"""C10: the decoded table shows every field once, in order."""
from mc import arrays, impl
from mc.common import CONTROLS, EXOTIC, PRINTABLE, REDUCED, STYLES, Base, Capture, Expect, chunks, line_of, put, quiet_read, reading_ops, decode, table_diff, may_notice
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from mc.props.c05 import codes_of
from model import ref

STATES = 'distinct lines; each decoded to a table, most of them rendered for real, printed and parsed back'
BOUNDS = {
  'quick': 'real tables, printed and not, by Record.decode and by parse(): every variant on 4 bases x S/T, every field x 6 fills, every column x 3 characters, '
           'every code of every coded field; collected rows: every variant x 132 columns x (48 printable + 35 control + 29 non-ASCII) characters; refused lines of every kind; collected rows: S and T x 12 areas x every continuation number; every variant on 4 bases printed to terminals of four widths; all fields at once: for any three fields of a variant every combination of at least 29 contents each (orthogonal arrays)',
  'thorough': 'as quick with every column x 24 characters in real tables and all printable characters in collected rows, on all bases, arrays on two bases with at least 37 contents, and for variants of up to 23 fields for any four fields',
}


def judge(ctx, line, e, via_parse=True):
  """Real tables: returned, printed, through parse()."""
  ops = reading_ops(line)
  ctx.states += 1
  if e.ok and e.bad:
    return
  if not e.ok:
    for out in (True, False):
      with Capture() as buf:
        try:
          got = impl.lib.parse(line, out)
        except Exception as x:
          raise Violation('parse() raises %s for a refused line' % type(x).__name__, [['parse', line, out]])
      ctx.transitions += 1
      if got is not False or '+--' in buf.getvalue() or '| Field' in buf.getvalue():
        raise Violation('parse() of a refused line returns %r and prints %r' % (got, buf.getvalue()), [['parse', line, out]])
    ctx.validated += 1
    ctx.outcome('refused')
    return
  r = quiet_read(ctx, line, ops)
  if r is None:
    return
  with impl.real_tables():
    got = {}
    for out in (False, True):
      with Capture() as buf:
        try:
          got[out] = r.decode(out), buf.getvalue()
        except ValueError as x:
          return      # which values decode is C05-C08
      ctx.transitions += 1
    text = got[False][0]
    o = ops + [['decode', 'r', False]]
    if not isinstance(text, str):
      raise Violation('decode() returns %r, not text' % (text,), o)
    try:
      head, body = impl.parse_table(text)
    except impl.BadTable as x:
      raise Violation('decode() does not return a table: %s' % x, o)
    if head != ['Field', 'Value', 'Decoded']:
      raise Violation('table columns are %r' % head, o)
    d = impl.cells_match(body, e.rows)
    if d and not elsewhere(r, body):
      raise Violation(d, o)
    notice = got[False][1]
    if notice and (not may_notice(e) or '+--' in notice):
      raise Violation('prints %.80r with output off' % notice, o)
    if got[True][0] != text:
      raise Violation('the table differs with output on and off', o + [['decode', 'r', True]])
    if got[True][1] != notice + text + '\n':
      raise Violation('prints something other than the returned table, once', ops + [['decode', 'r', True]])
    if via_parse:
      for args, want in (((line,), notice + text + '\n'), ((line, True), notice + text + '\n'), ((line, False), notice)):
        with Capture() as buf:
          try:
            p = impl.lib.parse(*args)
          except ValueError as x:
            raise Violation('parse() raises ValueError(%s) where decode() does not' % x, [['parse'] + list(args)])
        ctx.transitions += 1
        if p is not True or buf.getvalue() != want:
          raise Violation('parse() returns %r and prints %.200r; expected True and %s' % (
            p, buf.getvalue(), 'the table' if want else 'nothing'), [['parse'] + list(args)])
      for out, want in ((True, notice + text + '\n'), (False, notice)):
        with Capture() as buf:
          p, d = impl.lib.parse(line, output=out), None
          if buf.getvalue() == want:
            d = r.decode(output=out)
        if p is not True or d != text or buf.getvalue() != want * 2:
          raise Violation('with the keyword output=%s, parse() and decode() do not print as they should' % out, ops + [['parse', line, out], ['decode', 'r', out]])
      with Capture() as buf:
        d = r.decode()
      if d != text or buf.getvalue() != notice + text + '\n':
        raise Violation('by default decode() does not print and return the table', ops + [['decode', 'r']])
  ctx.validated += 1
  ctx.outcome('table')


def elsewhere(r, body):
  """The table differs from the model.  Does it show exactly what the record's fields say and decode to?  Then the
  table is faithful and another property (C04-C07) is broken."""
  import json
  try:
    want = [[f.name, "'%s'" % (f.value,), f.decode(r)] for f in r.fields]
    names = json.loads(r.json(False))
    return list(names.items()) == [(f.name, f.value) for f in r.fields] and impl.cells_match(body, want) is None
  except Exception:
    return False


def quick_judge(ctx, line, e):
  """Rows as collected (see mc.impl), not rendered."""
  ops = reading_ops(line)
  ctx.states += 1
  if not e.ok or e.bad:
    return
  r = quiet_read(ctx, line, ops)
  if r is None:
    return
  k, t = decode(ctx, r)
  if k == 'err':
    return
  ctx.validated += 1
  d = table_diff(t, e.rows)
  if d:
    with impl.real_tables():
      _, body = impl.parse_table(r.decode(False))
    if elsewhere(r, body):
      return
    raise Violation(d, ops + [['decode', 'r', False]])


def bases(ctx, v):
  for s in STYLES:
    for rt in 'ST':
      for area in ('USA', 'EUR', '   '):
        line = line_of(v, s, rt, area)
        judge(ctx, line, Expect.full(line))
        for w in ('\n', '\r\n', ' '):
          judge(ctx, line + w, Expect.full(line + w))


def fields(ctx, v, style):
  base = Base(line_of(v, style))
  L = base.line
  for i, f in enumerate(base.fields):
    texts = [] if f.lo is None else [c * f.width for c in " 0X|+-'"] + [('A' * k).ljust(f.width) for k in range(1, min(f.width, 4))] + [('A' * k).rjust(f.width) for k in range(1, min(f.width, 4))]
    if f.sec in ref.CODED and base.dispatch.isdisjoint(f.cols):
      texts += codes_of(f.sec)
    for t in dict.fromkeys(texts):
      l = list(L)
      for c, ch in zip(f.cols, t.ljust(f.width)[:f.width]):
        l[c] = ch
      line = ''.join(l)
      judge(ctx, line, base.expect(line, f.cols), via_parse=f.sec not in ref.CODED)


def columns(ctx, v, style, chars):
  base = Base(line_of(v, style))
  for c in range(132):
    for ch in chars:
      if ch != base.line[c]:
        line, e = base.changed(c, ch)
        judge(ctx, line, e, via_parse=False)


def collected(ctx, v, style, chars):
  base = Base(line_of(v, style))
  for c in range(132):
    for ch in chars:
      if ch != base.line[c]:
        line, e = base.changed(c, ch)
        quick_judge(ctx, line, e)


def terminal(ctx, vs, columns):
  """Printed to a terminal instead of a file."""
  Capture.terminal(columns)
  for v in vs:
    for s in STYLES:
      line = line_of(v, s)
      judge(ctx, line, Expect.full(line))


def refused(ctx):
  for v in ref.VARIANTS:
    base = line_of(v)
    t = ref.TYPES[v[0]]
    for line in ('', ' ', '\n', base[:-1], base + '1', 'X' + base[1:], put(base, 130, 'A'), put(base, 4, 'XX'), put(put(base, 4, 'X'), 12, 'X'), base.lower()):
      judge(ctx, line, Expect.full(line))
    if t.cont is not None:
      for n in ' *a':
        line = put(base, t.cont, n)
        judge(ctx, line, Expect.full(line))
      line = put(put(base, t.cont, '2'), t.app, '**'[:t.app_width])
      judge(ctx, line, Expect.full(line))


def headers(ctx, v, style):
  for line in header_lines(v, style):
    quick_judge(ctx, line, Expect.full(line))


NEW_CAP = 10000
_seen = [0]


def new_line(ctx, line, e):
  _seen[0] += 1       # units run in processes of their own
  if _seen[0] <= 400:
    judge(ctx, line, e)
  else:
    quick_judge(ctx, line, e)


def plan(tier):
  deep = tier == 'thorough'
  us = [Unit('refused', refused)]
  for n in (20, 40, 80, 200):
    us += [Unit('terminals', terminal, c, n) for c in chunks(ref.VARIANTS, 42)]
  for v in ref.VARIANTS:
    us.append(Unit('bases:%s' % v[1], bases, v))
    us.append(Unit('fields:%s' % v[1], fields, v, 'rich'))
    us.append(Unit('columns:%s' % v[1], columns, v, 'rich', REDUCED + 'BCD' if deep else " 9Q"))
    us.append(Unit('collected rows:%s' % v[1], collected, v, 'rich', PRINTABLE if deep else PRINTABLE[::2]))
    us.append(Unit('strange characters:%s' % v[1], collected, v, 'rich', CONTROLS + EXOTIC))
    us.append(Unit('strange characters:%s' % v[1], columns, v, 'letters', '\u00e9\u4e00'))
    us.append(Unit('collected rows:%s' % v[1], collected, v, 'blank', PRINTABLE if deep else ' 0AP'))
    if deep:
      us.append(Unit('fields:%s' % v[1], fields, v, 'blank'))
      us.append(Unit('columns:%s' % v[1], columns, v, 'blank', REDUCED))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich', 'blank'):
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  us += arrays.units(Unit, tier, quick_judge)
  return us
