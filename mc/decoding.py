"""Enumerations shared by the checks of decoded values (C05, C06, C07)."""
from mc import impl, literals
from mc.common import CONTROLS, EXOTIC, PRINTABLE, STYLES, Base, Expect, chunks, decode, line_of, json_pairs, put, quiet_read, reading_ops, table_diff
from mc.engine import Unit, Violation
from model import ref

CODED = set(ref.CODED)
NUMERIC = set(ref.NUMERIC)
# fields that hold numbers which are shown as they stand (elevations, lengths, bearings, angles, limits and the like)
PLAIN = {24, 25, 28, 31, 36, 37, 40, 47, 51, 52, 55, 57, 58, 64, 66, 67, 68, 69, 70, 74, 79, 88, 89, 90, 94, 96, 97, 100, 109, 119, 120, 121,
         136, 137, 141, 142, 143, 145, 146, 149, 150, 157, 166, 167, 168, 169, 170, 171, 172, 173, 175, 176, 188, 204, 208, 211, 212, 225, 226,
         227, 228, 231, 244, 245, 246, 248, 251, 254, 259, 260, 263, 264, 265, 267, 268, 274}


def in_class(cls, sec):
  if cls == 'coded':
    return sec in CODED
  if cls == 'numeric':
    return sec in NUMERIC
  if cls == 'plain':
    return sec in PLAIN
  return sec not in CODED and sec not in NUMERIC


_care = {}


def care_of(cls, fields):
  k = (cls, id(fields))
  if k not in _care:
    _care[k] = frozenset(i for i, f in enumerate(fields) if in_class(cls, f.sec))
  return _care[k]


def judge(ctx, line, e, cls):
  """The fields of the class must decode as the model says."""
  ops = reading_ops(line)
  ctx.states += 1
  if not e.ok:
    return
  r = quiet_read(ctx, line, ops)
  if r is None:
    return
  care = care_of(cls, e.fields)
  k, t = decode(ctx, r)
  ctx.validated += 1
  ctx.outcome('decoded' if k == 'ok' else 'ValueError')
  if k == 'ok' and not e.bad and isinstance(t, impl.TableText) and t.rows == e.rows:
    return
  ops = ops + [['decode', 'r', False]]
  if k == 'err':
    if e.bad:
      return
    if (not e.touched or not care.isdisjoint(e.touched)) and same_values(r, e):
      raise Violation('decoding raises ValueError (%s); expected %s' % (
        t, [e.rows[i] for i in sorted(e.touched & care)] if e.touched else 'a table'), ops)
    return
  for i in e.bad:
    if i in care and same_values(r, e):
      raise Violation('%r decodes; expected ValueError for value %r' % (e.fields[i].name, e.values[i]), ops)
  d = table_diff(t, e.rows, care)
  if d is None:
    return
  if same_values(r, e):
    # names and raw values are as specified, so the decoded text is at fault -- in which class of fields?
    if isinstance(t, impl.TableText) and len(t.rows) == len(e.rows):
      for i in care:
        if t.rows[i][2] != e.rows[i][2] and e.rows[i][2] is not None:
          raise Violation('%r with value %r decodes to %r; expected %r' % (
            e.fields[i].name, e.values[i], t.rows[i][2], e.rows[i][2]), ops)
    else:
      raise Violation(d, ops)
    return
  # some field covers other columns than specified (C04): judge the text against the value that is reported
  if isinstance(t, impl.TableText):
    by_name = {f.name: f for f in e.fields}
    for name, value, text in t.rows:
      f = by_name.get(name)
      if f is not None and in_class(cls, f.sec) and len(value) == f.width + 2:
        w = ref.decode(f, value[1:-1], e.ident)
        if w is not ref.ERR and w[1] != text:
          raise Violation('%r with value %s decodes to %r; expected %r' % (name, value, text, w[1]), ops)


def same_values(r, e):
  return [tuple(p) for p in json_pairs(r.json(False))] == e.pairs()


def sweep(ctx, v, style, rtype, cls, chars, own):
  """Every column x every character; with `own`, only columns of fields of the class."""
  base = Base(line_of(v, style, rtype))
  care = care_of(cls, base.fields)
  judge(ctx, base.line, Expect(base, base.line, set()), cls)
  for c in range(132):
    if own and care.isdisjoint(base.owners[c]):
      continue
    for ch in chars:
      if ch != base.line[c]:
        line, e = base.changed(c, ch)
        judge(ctx, line, e, cls)


def strange(ctx, v, style, cls, rtype='S'):
  """Control and non-ASCII characters in every column of a field of the class.

  Fields that take letters or strip blanks are left out: which characters count as such is not specified."""
  base = Base(line_of(v, style, rtype))
  care = care_of(cls, base.fields)
  chars = CONTROLS + EXOTIC
  if cls != 'text':
    chars = ''.join(c for c in chars if not c.isspace())
  for c in range(123):
    own = base.owners[c]
    if care.isdisjoint(own) or any(base.fields[i].sec in ref.FORMATTED or base.fields[i].sec in (21, 22) for i in own):
      continue
    for ch in chars:
      line, e = base.changed(c, ch)
      judge(ctx, line, e, cls)


def words(ctx, v, style, cls, ws, own):
  base = Base(line_of(v, style))
  L = base.line
  care = care_of(cls, base.fields)
  for i, f in enumerate(base.fields):
    if f.lo is None or (own and i not in care):
      continue
    w = f.width
    for word in ws:
      if len(word) <= w:
        for t in {word.ljust(w), word.rjust(w), (word * w)[:w]}:
          line = L[:f.lo] + t + L[f.hi:]
          judge(ctx, line, base.expect(line, f.cols), cls)


def fills(ctx, v, style, cls):
  base = Base(line_of(v, style))
  L = base.line
  care = care_of(cls, base.fields)
  for i, f in enumerate(base.fields):
    if f.lo is None or i not in care:
      continue
    w = f.width
    for ch in PRINTABLE:
      line = L[:f.lo] + ch * w + L[f.hi:]
      judge(ctx, line, base.expect(line, f.cols), cls)
      for k in range(1, w):
        for t in ((ch * k).ljust(w), (ch * k).rjust(w), ch * k + L[f.lo + k:f.hi], L[f.lo:f.hi - k] + ch * k):
          line = L[:f.lo] + t + L[f.hi:]
          judge(ctx, line, base.expect(line, f.cols), cls)


def field_values(ctx, v, style, index, texts, cls):
  """One field set to each text."""
  base = Base(line_of(v, style))
  f = base.fields[index]
  L = base.line
  for t in texts:
    l = list(L)
    for c, ch in zip(f.cols, t):
      l[c] = ch
    line = ''.join(l)
    judge(ctx, line, base.expect(line, f.cols), cls)


def field_index(cls):
  """{(section, width): [(variant, index)]} for the fields of the class."""
  out = {}
  for v in ref.VARIANTS:
    for i, f in enumerate(ref.LAYOUTS[v[1]]):
      if in_class(cls, f.sec):
        out.setdefault((f.sec, f.width), []).append((v, i))
  return out


def neighbours(code, width):
  """A code, and everything one edit away from it."""
  code = code.ljust(width)[:width]
  out = [code]
  for i in range(width):
    out += [code[:i] + c + code[i + 1:] for c in PRINTABLE if c != code[i]]
  out += [code.lower(), code[::-1], code[1:] + ' ', ' ' + code[:-1], code.strip().rjust(width)]
  return list(dict.fromkeys(out))


AREAS = tuple(ref.AREA) + ('   ', 'XYZ')


def header_lines(v, style):
  """S and T x every area x every continuation number that selects the same field list."""
  ident, lay, number, app = v
  t = ref.TYPES[ident]
  if t.cont is None:
    numbers = [None]
  else:
    numbers = '01' if number == '0' else [c for c in ref.CONT_NUMBERS if c not in '01']
  for rt in 'ST':
    for area in AREAS:
      base = line_of(v, style, rt, area)
      for n in numbers:
        yield base if n is None else put(base, t.cont, n)


def headers(ctx, v, style, cls):
  for line in header_lines(v, style):
    judge(ctx, line, Expect.full(line), cls)


def kinds(f, base_value):
  """Characteristic contents of a field."""
  w = f.width
  out = [' ' * w, '0' * w, '9' * w, 'A' * w, ('1' + '0' * w)[:w], 'R'.ljust(w)]
  if w > 1:
    out.append('-' + '5' * (w - 1))
  return [x for x in dict.fromkeys(out) if x != base_value]


def field_pairs(ctx, v, style, cls, rtype='S'):
  """Every two fields x their characteristic contents; the other fields keep theirs."""
  base = Base(line_of(v, style, rtype))
  L = base.line
  care = care_of(cls, base.fields)
  idx = [i for i, f in enumerate(base.fields) if f.lo is not None and base.dispatch.isdisjoint(f.cols)]
  for a in idx:
    fa = base.fields[a]
    for b in idx:
      if b == a or a not in care:
        continue
      if b in care and b < a:
        continue
      fb = base.fields[b]
      if set(fa.cols) & set(fb.cols):
        continue
      for x in kinds(fa, base.values[a]):
        l = L[:fa.lo] + x + L[fa.hi:]
        for y in kinds(fb, base.values[b]):
          line = l[:fb.lo] + y + l[fb.hi:]
          e = base.expect(line, tuple(fa.cols) + tuple(fb.cols))
          if e.bad:
            continue
          judge(ctx, line, e, cls)


def other_headers(v, style):
  """Base lines with the other record type letter and other continuation numbers."""
  t = ref.TYPES[v[0]]
  if t.cont is None:
    return [line_of(v, style, 'T')]
  numbers = (('S', '1'), ('T', '0'), ('T', '1')) if v[2] == '0' else (('S', '9'), ('T', '3'), ('T', 'A'))
  return [put(line_of(v, style, rt), t.cont, n) for rt, n in numbers]


def headed(ctx, v, style, cls, chars, more):
  """Every column of the class x characters, and more texts of its fields, under every other header."""
  for line in other_headers(v, style):
    base = Base(line)
    L = base.line
    care = care_of(cls, base.fields)
    for c in range(132):
      if care.isdisjoint(base.owners[c]) or c in base.dispatch:
        continue
      for ch in chars:
        if ch != L[c]:
          line, e = base.changed(c, ch)
          judge(ctx, line, e, cls)
    for i in sorted(care):
      f = base.fields[i]
      if not base.dispatch.isdisjoint(f.cols):
        continue
      for t in dict.fromkeys([x for x in more(f)] + kinds(f, base.values[i])):
        l = list(L)
        for c, ch in zip(f.cols, t.ljust(f.width)):
          l[c] = ch
        line = ''.join(l)
        judge(ctx, line, base.expect(line, f.cols), cls)
