"""C18: no column is reported under two fields."""
from mc import impl
from mc import arrays
from mc.common import PRINTABLE, STYLES, json_pairs, line_of, put, quiet_read, reading_ops
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct accepted lines that differ from a base line in one column; the fields that change are the owners of the column'
BOUNDS = {
  'quick': 'every record variant x 4 base styles x S and T x every column x 95 characters; every column on lines with all fields varied at once (orthogonal arrays of any two fields)',
  'thorough': 'as quick with S and T records and three areas, and every two columns of a variant changed together x 4 characters',
}


def known(ctx, key, what, ops):
  if key in ctx.known_keys:
    ctx.known.add(key)
    return
  raise Violation(what, ops, key)


def slug(s):
  return s.replace(' ', '_')


def fields_of(ctx, line):
  ops = reading_ops(line)
  r = quiet_read(ctx, line, ops)
  if r is None:
    return None
  ctx.transitions += 1
  # every row of the table counts, also several of one name; the JSON text would hide those
  try:
    return [(f.name, f.value) for f in r.fields]
  except AttributeError:
    return [tuple(p) for p in json_pairs(r.json(False))]


def provenance(ctx, v, style, rtype, area, chars):
  base = line_of(v, style, rtype, area)
  b = fields_of(ctx, base)
  if b is None:
    return
  ctx.states += 1
  names = [n for n, _ in b]
  e0 = ref.classify(base)
  owned = [set() for _ in b]
  whole = {}
  for c in range(132):
    for ch in chars:
      if ch == base[c]:
        continue
      line = put(base, c, ch)
      e = ref.classify(line)
      if not e.ok or e.layout != e0.layout or e.ident != e0.ident:
        continue
      got = fields_of(ctx, line)
      ctx.states += 1
      if got is None:
        continue
      ops = [['read', 'base', base], ['json', 'base', False], ['read', 'r', line], ['json', 'r', False]]
      ctx.validated += 1
      if [n for n, _ in got] != names:
        raise Violation('changing column %d from %r to %r changes which fields are reported: %s' % (
          c + 1, base[c], ch, sorted(set(names) ^ set(n for n, _ in got)) or 'order'), ops)
      diff = [i for i in range(len(b)) if b[i] != got[i]]
      for i in diff:
        owned[i].add(c)
      if len(diff) > 1:
        known(ctx, 'shared:%s:%d:%s' % (v[0] + '/' + v[1], c + 1, '+'.join(slug(names[i]) for i in diff)),
              'column %d belongs to %s' % (c + 1, ' and '.join(repr(names[i]) for i in diff)), ops)
      ctx.case = ops
  check_runs(ctx, v, base, b, owned)
  ctx.outcome(v[1])


def check_runs(ctx, v, base, b, owned):
  """Each field is one unbroken run of columns, in column order; the record ends with columns 124-128 and 129-132."""
  ops = [['read', 'base', base], ['json', 'base', False]]
  last, last_name = -1, None
  for i, (name, value) in enumerate(b):
    cols = set(owned[i])
    # columns that cannot be varied without changing the variant: take them from the characters shown
    fixed = {0, 4, 5, 12} | dispatch_cols(v)
    if not cols:
      if i >= len(b) - 2:
        raise Violation('%r does not depend on any column' % name, ops)
      continue
    lo, hi = min(cols), max(cols)
    if name == 'Section Code' or (lo in (4, 5, 12) and hi in (4, 5, 12)):
      continue
    missing = [c for c in range(lo, hi + 1) if c not in cols and c not in fixed]
    if missing:
      raise Violation('%r covers columns %d-%d but not %s' % (name, lo + 1, hi + 1, [c + 1 for c in missing]), ops)
    if lo <= last:
      known(ctx, 'order:%s:%s' % (v[0] + '/' + v[1], slug(name)),
            '%r (columns %d-%d) comes after %r, which reaches to column %d' % (name, lo + 1, hi + 1, last_name, last + 1), ops)
    if hi > last:
      last, last_name = hi, name
  for k, (lo, hi) in ((-2, (123, 127)), (-1, (128, 131))):
    cols = owned[k]
    if cols != set(range(lo, hi + 1)):
      raise Violation('%r covers columns %s; expected %d-%d' % (b[k][0], sorted(c + 1 for c in cols), lo + 1, hi + 1), ops)


def dispatch_cols(v):
  t = ref.TYPES[v[0]]
  if t.cont is None:
    return set()
  return {t.cont} | set(range(t.app, t.app + t.app_width))


def together(ctx, v, chars):
  """Changing two columns changes exactly the fields that each of them changes."""
  base = line_of(v)
  b = fields_of(ctx, base)
  if b is None:
    return
  one = {}
  e0 = ref.classify(base)
  skip = {0, 4, 5, 12} | dispatch_cols(v) | set(range(123, 132))
  cols = [c for c in range(1, 123) if c not in skip]
  for c in cols:
    for ch in chars:
      if ch != base[c]:
        got = fields_of(ctx, put(base, c, ch))
        if got is not None:
          one[c, ch] = {i for i in range(len(b)) if b[i] != got[i]}
  for i, a in enumerate(cols):
    for c in cols[i + 1:]:
      for x in chars:
        for y in chars:
          if (a, x) in one and (c, y) in one:
            line = put(put(base, a, x), c, y)
            got = fields_of(ctx, line)
            ctx.states += 1
            ctx.validated += 1
            if got is None:
              continue
            diff = {k for k in range(len(b)) if b[k] != got[k]}
            if diff != one[a, x] | one[c, y]:
              raise Violation('changing columns %d and %d together changes other fields than each of them alone' % (a + 1, c + 1),
                              [['read', 'base', base], ['json', 'base', False], ['read', 'r', line], ['json', 'r', False]])


NEW_CAP = 400


def new_line(ctx, line, e):
  """Which fields change with each column, on top of this line."""
  if not e.ok:
    return
  b = fields_of(ctx, line)
  if b is None:
    return
  v = next(v for v in ref.VARIANTS if v[1] == e.v.layout and v[0] == e.ident)
  names = [n for n, _ in b]
  skip = {0, 4, 5, 12} | dispatch_cols(v)
  for c in range(132):
    if c in skip:
      continue
    ch = '1' if line[c] == '0' or c < 123 and line[c] != '1' else '0'
    other = put(line, c, ch)
    got = fields_of(ctx, other)
    ctx.states += 1
    if got is None:
      continue
    ctx.validated += 1
    ops = [['read', 'base', line], ['json', 'base', False], ['read', 'r', other], ['json', 'r', False]]
    if [n for n, _ in got] != names:
      raise Violation('changing column %d changes which fields are reported' % (c + 1), ops)
    diff = [i for i in range(len(b)) if b[i] != got[i]]
    if len(diff) > 1:
      known(ctx, 'shared:%s:%d:%s' % (v[0] + '/' + v[1], c + 1, '+'.join(slug(names[i]) for i in diff)),
            'column %d belongs to %s' % (c + 1, ' and '.join(repr(names[i]) for i in diff)), ops)


def plan(tier):
  deep = tier == 'thorough'
  us = []
  for v in ref.VARIANTS:
    for s in STYLES:
      for rt in 'ST':
        for area in ('EUR', 'USA', 'PAC') if deep else ('EUR',) if rt == 'S' else ('USA',):
          us.append(Unit('provenance:%s' % v[1], provenance, v, s, rt, area, PRINTABLE))
    us.append(Unit('together:%s' % v[1], together, v, ' X0' if deep else '*'))
  us += arrays.units(Unit, 'quick', new_line, slow=True, valid=True)
  return us
