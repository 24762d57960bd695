"""C01: only well-formed 132-column S/T lines are accepted, and reading never raises."""
import unicodedata

from mc import arrays, impl, literals
from mc.common import CONTROLS, EXOTIC, PRINTABLE, STYLES, Expect, chunks, line_of, put
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct text lines given to Record.read'
BOUNDS = {
  'quick': 'first column: every Unicode code point; last nine columns: every code point below 0x3000 and every numeric '
           'code point above, pairs over a 20-character alphabet; every one-character edit (insert, delete, replace) of '
           'a line of every record variant; every code point before and after a line, also with the length kept; pairs of 75 marks and every word '
           'of the source around lines; lengths 0-264; every file record number and every cycle date; S and T x 12 areas x every continuation number of every variant; every column x printable, control and exotic characters; all fields at once: for any two fields every combination of at least 29 contents each (orthogonal arrays), also with invalid contents',
  'thorough': 'as quick, with every Unicode code point in each of the last nine columns, all printable pairs of the '
              'last nine columns, and all styles of every variant, arrays of any three fields',
}


def go(ctx, line):
  ctx.case = ops = [['read', 'r', line]]
  if ctx.track is not None:
    ctx.begin(ops)
  want = ref.classify(line)
  try:
    got = impl.Record().read(line)
  except Exception as x:
    raise Violation('reading raises %s: %s' % (type(x).__name__, x), ops)
  ctx.states += 1
  ctx.transitions += 1
  ctx.validated += 1
  if got is not want.ok:
    raise Violation('read() returns %r; expected %s' % (got, want.ok if want.ok else 'False (%s)' % want.why), ops)
  ctx.outcome(want.why or 'accepted')


def go_parse(ctx, line, output=False):
  """The one-call parse function gives the same answer, or ValueError for content that cannot be decoded."""
  ops = [['parse', line, output]]
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  want = ref.classify(line)
  try:
    got = impl.lib.parse(line, output)
  except ValueError as x:
    if want.ok and not (ref.decodable(want) and line.isascii()):
      return
    raise Violation('parse() raises ValueError: %s' % x, ops)
  except Exception as x:
    raise Violation('parse() raises %s: %s' % (type(x).__name__, x), ops)
  ctx.states += 1
  ctx.transitions += 1
  ctx.validated += 1
  if got is not want.ok:
    raise Violation('parse() returns %r; expected %r' % (got, want.ok), ops)
  ctx.outcome('parse:' + (want.why or 'accepted'))


def first_column(ctx, lo, hi):
  base = line_of(ref.VARIANTS[1])
  for cp in range(lo, hi):
    go(ctx, chr(cp) + base[1:])


def last_columns(ctx, col, cps):
  base = line_of(ref.VARIANTS[2], rtype='T')
  for cp in cps:
    go(ctx, put(base, col, chr(cp)))


def pairs(ctx, a, alphabet):
  base = line_of(ref.VARIANTS[3])
  for b in range(a + 1, 132):
    for x in alphabet:
      for y in alphabet:
        go(ctx, put(put(base, a, x), b, y))


def fills(ctx):
  for c in PRINTABLE + EXOTIC + CONTROLS:
    for n in (0, 1, 9, 123, 131, 132, 133, 140, 264):
      go(ctx, c * n)
      go(ctx, 'S' + c * 122 + '123456789' if n == 132 else 'T' + c * n)
      go(ctx, 'S' + c * n + '123456789')
      go(ctx, c * n + '123456789')


def edits(ctx, v, chars, style):
  base = line_of(v, style)
  for i in range(133):
    for c in chars:
      go(ctx, base[:i] + c + base[i:])
  for i in range(132):
    go(ctx, base[:i] + base[i + 1:])
    go(ctx, base[:i] + base[i + 2:])
  for n in range(0, 132):
    go(ctx, base[:n])
    go(ctx, base[132 - n:])
    go(ctx, base + base[:n])
    go(ctx, base[:n] + '\n' + base[n:])
    go(ctx, base[:n] + ' ' * (131 - n))
    go(ctx, base[:n] + '0' * (132 - n))
  for s in ('\n', '', ' ', '\r\n'):
    go(ctx, base + s + base)


SHIFTS = 'SEURD ' + ' ' * 117 + '123451203'    # supported record types also when shifted by one column


def affixes(ctx, lo, hi):
  """One character too many before or after the line, or in place of its first or last character."""
  for cp in range(lo, hi):
    c = chr(cp)
    go(ctx, c + SHIFTS)
    go(ctx, SHIFTS + c)
    go(ctx, SHIFTS[1:] + c)


def affix_pairs(ctx, chars):
  for a in chars:
    for b in chars:
      for l in (SHIFTS, SHIFTS[:-1], SHIFTS[1:], SHIFTS[:-1] + '1'):
        go(ctx, a + b + l)
        go(ctx, a + l + b)
        go(ctx, l + a + b)


def affix_words(ctx, ws):
  for w in ws:
    for l in (SHIFTS, line_of(ref.VARIANTS[-1], 'rich'), line_of(ref.VARIANTS[0], 'digits', 'T')):
      for x in (l, l[len(w):], l[:132 - len(w)], l[:-9] + w):
        go(ctx, w + x)
        go(ctx, x + w)
        go(ctx, w + x + w)


def columns(ctx, v, style, rtype, chars):
  base = line_of(v, style, rtype)
  go(ctx, base)
  for c in range(132):
    for ch in chars:
      if ch != base[c]:
        go(ctx, base[:c] + ch + base[c + 1:])


def parses(ctx, vs):
  for v in vs:
    for style in STYLES:
      base = line_of(v, style)
      for c in (0, 4, 5, 12, 21, 38, 55, 123, 131):
        for ch in " 0129AEPQSTZ*\u0663\u00b2":
          go_parse(ctx, put(base, c, ch))
      for n in (0, 1, 131, 133):
        go_parse(ctx, (base + ' 1')[:n])
      go_parse(ctx, base + '\n')
      go_parse(ctx, base + '\n', True)
      go_parse(ctx, base[:-1] + '\n', True)


def words(ctx, vs, ws):
  for v in vs:
    base = line_of(v)
    for w in ws:
      for p in range(0, 133 - len(w)):
        go(ctx, put(base, p, w))


def numbers(ctx, lo, hi):
  """Every file record number and every cycle date."""
  a, b = line_of(ref.VARIANTS[0]), line_of(ref.VARIANTS[5], rtype='T')
  for n in range(lo, hi):
    go(ctx, a[:123] + str(n).zfill(5) + a[128:])
    go(ctx, b[:123] + str(n).zfill(5) + b[128:])
    if n < 10000:
      go(ctx, a[:128] + str(n).zfill(4))
      go(ctx, b[:123] + '00000' + str(n).zfill(4))


def headers(ctx, v, style):
  for line in header_lines(v, style):
    go(ctx, line)


NEW_CAP = 20000


def new_line(ctx, line, e):
  go(ctx, line)
  for t in (line[:-1], line + "0"):
    go(ctx, t)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  for lo in range(0, 0x110000, 0x10000):
    us.append(Unit('first-column', first_column, lo, lo + 0x10000))
  numeric = [c for c in range(0x3000, 0x110000) if unicodedata.numeric(chr(c), None) is not None]
  for col in range(123, 132):
    if deep:
      for lo in range(0, 0x110000, 0x10000):
        us.append(Unit('last-columns', last_columns, col, range(lo, lo + 0x10000)))
    else:
      us.append(Unit('last-columns', last_columns, col, list(range(0x3000)) + numeric))
  for a in range(123, 131):
    us.append(Unit('last-column-pairs', pairs, a, PRINTABLE if deep else " 09AZaz.-+_,'" + '\u00b2\u0663\u00bd\uff11\n\0\t'))
  for a in (0, 4, 5, 12):
    us.append(Unit('dispatch-pairs', pairs, a, PRINTABLE if deep else ' 019APST'))
  us.append(Unit('fills', fills))
  for lo in range(0, 100000, 10000):
    us.append(Unit('numbers', numbers, lo, lo + 10000))
  for v in ref.VARIANTS:
    for s in STYLES:
      us.append(Unit('headers:%s' % v[1], headers, v, s))
  for lo in range(0, 0x110000, 0x8000):
    us.append(Unit('affixes', affixes, lo, lo + 0x8000))
  marks = ''.join(dict.fromkeys(CONTROLS + EXOTIC + ' 09AST"\'#;,|\ufeff\u200b\u00a0\u00ad' + (PRINTABLE if deep else '')))
  us.append(Unit('affix-pairs', affix_pairs, marks))
  us.append(Unit('affix-words', affix_words, literals.collect(12)[0]))
  for v in ref.VARIANTS:
    for s in STYLES if deep else ('rich',):
      us.append(Unit('edits:%s' % v[1], edits, v, ' 0AST\n\u0660' if deep else ' 0S', s))
    for s in STYLES:
      for rt in 'ST' if deep else ('S' if s != 'rich' else 'T'):
        us.append(Unit('columns:%s' % v[1], columns, v, s, rt, PRINTABLE + (CONTROLS + EXOTIC if s in ('rich', 'blank') or deep else '')))
  for c in chunks(ref.VARIANTS, 8):
    us.append(Unit('parse', parses, c))
  ws = [w for w in literals.collect(12)[0] if not w.isdigit() or deep]
  prim = [v for v in ref.VARIANTS if v[2] in (None, '0')]
  for c in chunks(prim if deep else prim[::5], 2):
    us.append(Unit('source-words', words, c, ws))
  us += arrays.units(Unit, tier, new_line, slow=True)
  return us
