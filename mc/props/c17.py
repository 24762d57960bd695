"""C17: continuation records repeat their primary key and dispatch columns."""
from mc import arrays, impl
from mc.common import PRINTABLE, json_pairs, line_of, put, quiet_read, reading_ops
from mc.decoding import header_lines
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct pairs of a primary record and a continuation record with the same key columns'
BOUNDS = {
  'quick': 'every (primary, continuation) pair of field lists of every record type x every key column x 95 characters on two bases; every record variant x 36 continuation '
           'numbers; every supported application type; S and T x 12 areas x every continuation number for every pair of field lists; lines with all fields varied at once (orthogonal arrays of any two fields), as pairs and on their own',
  'thorough': 'as quick on all base styles, with every continuation number and pairs of key columns x 6 x 6 characters',
}
ASSUMPTIONS = ['the fields holding the continuation number and the application type are recognised by name (Continuation Record No, Application Type, Restriction Type)']


def pairs_of(r):
  return [tuple(p) for p in json_pairs(r.json(False))]


def number_names(lay):
  return [f.name for f in ref.LAYOUTS[lay] if f.sec == 16]


def app_names(ident, lay):
  if ident == 'EU':
    return [f.name for f in ref.LAYOUTS[lay] if f.name == 'Restriction Type']
  return [f.name for f in ref.LAYOUTS[lay] if f.sec == 91]


def couples():
  """(ident, primary variant, continuation variant)"""
  out = []
  for ident, t in ref.TYPES.items():
    vs = [v for v in ref.VARIANTS if v[0] == ident]
    prim = [v for v in vs if v[2] in (None, '0')]
    cont = [v for v in vs if v[2] == '2']
    for p in prim:
      for c in cont:
        if isinstance(t.primary, dict) and p[3] != c[3]:
          continue
        out.append((ident, p, c))
  return out


def known(ctx, key, what, ops):
  if key in ctx.known_keys:
    ctx.known.add(key)
    return
  raise Violation(what, ops, key)


def compare(ctx, ident, pl, cl, pline, cline, kept, keyed=None):
  """Every key field of the primary is in the continuation, under its name and with its value.

  `kept` is the number of key fields of the unchanged primary: the fields up to its continuation number."""
  ops = [['read', 'primary', pline], ['json', 'primary', False], ['read', 'cont', cline], ['json', 'cont', False]]
  ctx.case = ops
  p = quiet_read(ctx, pline, ops)
  c = quiet_read(ctx, cline, ops)
  ctx.states += 1
  if p is None or c is None:
    return
  ctx.validated += 1
  ctx.transitions += 2
  pp, cc = pairs_of(p), dict(pairs_of(c))
  nn = number_names(pl)
  for name, value in pp[:kept]:
    if name in nn:
      continue
    if name not in cc:
      known(ctx, 'key:%s:%s:missing' % (ident, name.replace(' ', '_')),
            'the continuation %s does not report %r, a key field of its primary %s' % (cl, name, pl), ops)
    elif cc[name] != value:
      known(ctx, 'key:%s:%s:differs' % (ident, name.replace(' ', '_')),
            'the continuation %s reports %r as %r, its primary %s as %r, from the same key columns' % (cl, name, cc[name], pl, value), ops)
  for n in nn[:1]:
    if n not in cc:
      known(ctx, 'key:%s:%s:missing' % (ident, n.replace(' ', '_')), 'the continuation %s reports no %r' % (cl, n), ops)


def key_length(pline):
  """Number of fields the primary reports up to and including its continuation number."""
  r = impl.Record()
  if not r.read(pline):
    return None
  e = ref.classify(pline)
  nn = number_names(e.layout)
  for i, (n, v) in enumerate(pairs_of(r)):
    if n in nn:
      return i + 1
  # no continuation number is reported: take the fields of the columns before it
  return sum(1 for f in e.fields if f.cols[0] <= ref.TYPES[e.ident].cont)


def join(ctx, ident, pv, cv, style, chars):
  t = ref.TYPES[ident]
  pline = line_of(pv, style)
  cline = pline[:t.cont] + line_of(cv, style)[t.cont:]
  # keep what selects the continuation
  cline = put(put(cline, t.cont, '2'), t.app, cv[3] if cv[3] else cline[t.app:t.app + t.app_width])
  if not ref.classify(cline).ok:
    return
  kept = key_length(pline)
  if kept is None:
    return
  compare(ctx, ident, pv[1], cv[1], pline, cline, kept)
  for c in range(1, t.cont):
    if c in range(t.app, t.app + t.app_width) or c in (4, 5, 12):
      continue
    for ch in chars:
      compare(ctx, ident, pv[1], cv[1], put(pline, c, ch), put(cline, c, ch), kept)
  ctx.outcome('%s / %s' % (pv[1], cv[1]))


def heads(ctx, ident, pv, cv, style):
  """S and T x every area x every continuation number."""
  t = ref.TYPES[ident]
  for pline in header_lines(pv, style):
    kept = key_length(pline)
    if kept is None:
      continue
    for n in ref.CONT_NUMBERS:
      if n in '01':
        continue
      cline = put(pline[:t.cont] + line_of(cv, style)[t.cont:], t.cont, n)
      cline = put(cline, t.app, cv[3] if cv[3] else cline[t.app:t.app + t.app_width])
      if ref.classify(cline).ok:
        compare(ctx, ident, pv[1], cv[1], pline, cline, kept)


def key_pairs(ctx, ident, pv, cv, chars):
  t = ref.TYPES[ident]
  pline = line_of(pv)
  cline = put(pline[:t.cont] + line_of(cv)[t.cont:], t.cont, '2')
  cline = put(cline, t.app, cv[3] if cv[3] else cline[t.app:t.app + t.app_width])
  kept = key_length(pline)
  cols = [c for c in range(6, t.cont) if c not in range(t.app, t.app + t.app_width) and c != 12]
  for i, a in enumerate(cols):
    for b in cols[i + 1:]:
      for x in chars:
        for y in chars:
          compare(ctx, ident, pv[1], cv[1], put(put(pline, a, x), b, y), put(put(cline, a, x), b, y), kept)


def reported(ctx, ident, line, e):
  """The reported number and application type are the characters that selected the field list."""
  t = ref.TYPES[ident]
  n = line[t.cont]
  ops = reading_ops(line) + [['json', 'r', False]]
  r = quiet_read(ctx, line, ops[:1])
  ctx.states += 1
  if r is None:
    return
  got = dict(pairs_of(r))
  ctx.transitions += 1
  ctx.validated += 1
  for name in number_names(e.layout)[:1] or ['Continuation Record No']:
    if name not in got:
      known(ctx, 'dispatch:%s:%s:number-missing' % (ident, e.layout), 'no %r is reported' % name, ops)
    elif got[name] != n:
      known(ctx, 'dispatch:%s:%s:number' % (ident, e.layout), '%r is reported as %r; %r selected the field list' % (name, got[name], n), ops)
  if not e.primary:
    for name in app_names(ident, e.layout)[:1]:
      want = line[t.app:t.app + t.app_width]
      if got.get(name) != want:
        known(ctx, 'dispatch:%s:%s:application' % (ident, e.layout), '%r is reported as %r; %r selected the field list' % (name, got.get(name), want), ops)


def dispatch(ctx, v, styles):
  """The reported continuation number and application type are the characters that selected the field list."""
  ident, lay, number, app = v
  t = ref.TYPES[ident]
  if t.cont is None:
    return
  for style in styles:
    base = line_of(v, style)
    apps = [app] if app else [None]
    if lay == t.default:
      apps = list(PRINTABLE)
    elif number == '0' and not isinstance(t.primary, dict):
      apps = [None]
    for a in apps:
      b = base if a is None else put(base, t.app, a)
      for n in ref.CONT_NUMBERS:
        line = put(b, t.cont, n)
        e = ref.classify(line)
        if not e.ok:
          continue
        reported(ctx, ident, line, e)


def array_line(ctx, line, e):
  if ref.TYPES[e.ident].cont is not None:
    reported(ctx, e.ident, line, e.v)


def array_join(ctx, ident, pv, cv, q):
  """Lines of the array of the primary, with the rest of each from a line of the array of the continuation."""
  t = ref.TYPES[ident]
  kept = None
  conts = list(arrays.lines(cv, 'rich', q, 2))
  for k, (pline, e) in enumerate(arrays.lines(pv, 'rich', q, 2)):
    if kept is None:
      kept = key_length(pline)
      if kept is None:
        return
    cline = conts[(k * 7 + 3) % len(conts)][0]
    head = list(pline[:t.cont] + cline[t.cont:])
    head[t.cont] = cline[t.cont]
    cline = put(''.join(head), t.app, cv[3] if cv[3] else cline[t.app:t.app + t.app_width])
    if ref.classify(cline).ok:
      compare(ctx, ident, pv[1], cv[1], pline, cline, kept)


NEW_CAP = 15000


def new_line(ctx, line, e):
  """A primary line with every continuation of its type, and what selected the field list."""
  if not e.ok or ref.TYPES[e.ident].cont is None:
    return
  t = ref.TYPES[e.ident]
  if not e.v.primary:
    return
  kept = key_length(line)
  if kept is None:
    return
  for ident, p, c in COUPLES:
    if ident == e.ident and p[1] == e.v.layout:
      cline = put(line[:t.cont] + line_of(c)[t.cont:], t.cont, '2')
      cline = put(cline, t.app, c[3] if c[3] else cline[t.app:t.app + t.app_width])
      if ref.classify(cline).ok:
        compare(ctx, ident, p[1], c[1], line, cline, kept)


COUPLES = couples()


def plan(tier):
  deep = tier == 'thorough'
  us = []
  for ident, p, c in couples():
    for s in ('rich', 'digits') if not deep else ('rich', 'digits', 'blank', 'letters'):
      us.append(Unit('join:%s' % c[1], join, ident, p, c, s, PRINTABLE))
    us.append(Unit('headers:%s' % c[1], heads, ident, p, c, 'rich'))
    if deep:
      us.append(Unit('headers:%s' % c[1], heads, ident, p, c, 'blank'))
      us.append(Unit('key pairs:%s' % c[1], key_pairs, ident, p, c, ' 0AZ-x'))
  for v in ref.VARIANTS:
    us.append(Unit('dispatch:%s' % v[1], dispatch, v, ('rich', 'blank', 'digits', 'letters')))
  for ident, p, c in couples():
    us.append(Unit('all fields at once:%s' % c[1], array_join, ident, p, c, max(arrays.size(p, 29), arrays.size(c, 29))))
  us += arrays.units(Unit, tier, array_line, slow=True, valid=True)
  return us
