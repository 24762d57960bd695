"""C11: a record reflects only the last line read."""
import itertools

from mc import arrays, directed, impl
from mc.common import fresh, line_of, observation_diff, observe, pristine, put
from mc.engine import Unit, Violation
from model import ref

STATES = 'distinct operation sequences on one record object'
BOUNDS = {
  'quick': 'all sequences of up to 4 operations over 20 (reads of 14 lines of every outcome class, decode and JSON with and without '
           'output, status queries); all ordered pairs of the 126 record variants with one of 4 operation mixes between; all A-B-A and A-A-B '
           'sequences of variants of one type; each variant after each single-column change of it; 2,000 reads of one object; one object through lines with all fields varied at once (orthogonal arrays of any two fields); each operation 5 to 12, 20, 40, 64 and 128 times over, also in turn with each other one, then each line',
  'thorough': 'all sequences of up to 5 operations; all ordered pairs of variants x 4 x 4 styles; triples of primary variants of all types',
}


def V(ident, app=None, n=None):
  return next(v for v in ref.VARIANTS if v[0] == ident and (app is None or v[3] == app))


def alphabet():
  D, PA, PF, AS, EP = V('D '), V('PA'), V('PF'), V('AS'), V('EP')
  lines = [
    line_of(D),                                            # primary
    put(line_of(D, 'digits'), 21, '1'),                    # primary with continuations, other content
    line_of(V('D ', 'L')),                                 # continuation
    line_of(AS),                                           # type without continuations
    put(line_of(PA, 'rich', 'T'), 21, '1'),
    line_of(V('EU', 'NR')),
    put(line_of(EP), 0, 'T'),
    put(line_of(PF), 43, '*'),                             # accepted, maybe undecodable
    undecodable(),
    line_of(D)[:-1],                                       # refused: length
    put(line_of(PA), 130, 'X'),                            # refused: digits
    put(put(line_of(PA), 4, 'XX'), 12, 'X'),               # refused: type
    put(line_of(PA), 21, '*'),                             # refused: continuation number
    put(put(line_of(V('EP')), 38, '2'), 39, '*'),          # refused: application type
  ]
  ops = [('read', l) for l in lines]
  ops += [('decode', False), ('decode', True), ('json', False, True), ('json', True, False), ('primary',), ('hasCont',)]
  return ops


def undecodable():
  """An accepted line whose decoding raises ValueError."""
  for v in ref.VARIANTS:
    for f in ref.LAYOUTS[v[1]]:
      if f.sec in (26, 39, 72) and v[2] == '0':
        line = put(line_of(v), f.cols[0], '*' * f.width)
        c = ref.classify(line)
        if c.ok and not ref.decodable(c):
          return line
  raise RuntimeError


_fresh = {}


def baseline(line):
  """What a new record reports; prepared in untouched processes for the lines used throughout (see plan)."""
  if line not in _fresh:
    _fresh[line] = fresh(line)
  return _fresh[line]


def prepare():
  lines = [None] + [op[1] for op in alphabet() if op[0] == 'read']
  for v in ref.VARIANTS:
    t = ref.TYPES[v[0]]
    for s in ('rich', 'digits', 'blank', 'letters'):
      for rt in 'ST':
        lines.append(line_of(v, s, rt))
    if t.cont is not None:
      lines += [put(line_of(v), t.cont, '1'), put(line_of(v), t.cont, '*')]
  _fresh.update(pristine(lines))
  new = _fresh[None][1]
  for line in lines:
    ok, obs = _fresh[line]
    if ok is False and obs != new:
      raise Violation('a refused line leaves something in the record: the %s' % observation_diff(obs, new), [['new', 'r'], ['read', 'r', line], ['json', 'r', False], ['primary', 'r'], ['decode', 'r', False]])


def refused(ctx):
  prepare()
  for l in [x for x in _fresh if x is not None]:
    ctx.states += 1
    ctx.validated += 1
    ctx.transitions += 1
    ctx.case = [['read', 'r', l]]


def as_ops(seq):
  out = [['new', 'r']]
  for op in seq:
    out.append([op[0], 'r'] + list(op[1:]))
  return out


def play(ctx, seq, check_each=True):
  """Run the sequence on one object; after it the object must look like a fresh one that read the last line only."""
  ctx.case = seq_ops = None
  if ctx.track is not None:
    ctx.begin(as_ops(seq))
  r = impl.Record()
  last = None
  for op in seq:
    ctx.transitions += 1
    k = op[0]
    if k == 'read':
      last = op[1]
      got = r.read(last)
      want = baseline(last)[0]
      if got is not want:
        raise Violation('read() returns %r; on a new record %r' % (got, want), as_ops(seq))
    else:
      want = baseline(last)[1]
      try:
        if k == 'decode':
          got = ('table', str(r.decode(op[1])))
        elif k == 'json':
          got = r.json(*op[1:])
        else:
          got = bool(getattr(r, k)())
      except ValueError as x:
        got = ('ValueError', str(x))
      w = want[6] if k == 'decode' else want[0 if op[2] else 1] if k == 'json' else want[2] if k == 'primary' else want[3]
      if got != w:
        raise Violation('%s gives %.200r; on a new record %.200r' % (k, got, w), as_ops(seq))
  ctx.states += 1
  ctx.validated += 1
  d = observation_diff(observe(ctx, r), baseline(last)[1])
  if d:
    raise Violation('after this history the %s' % d, as_ops(seq) + [['json', 'r', False], ['primary', 'r'], ['hasCont', 'r'], ['decode', 'r', False]])
  return r


def sequences(ctx, first, depth):
  ops = alphabet()
  for n in range(depth):
    for rest in itertools.product(ops, repeat=n):
      seq = (ops[first],) + rest
      play(ctx, seq)
      ctx.outcome('length %d' % (n + 1))
  ctx.case = as_ops(seq)


MIXES = ((), (('decode', False),), (('json', False, True), ('primary',)), (('decode', True), ('hasCont',), ('json', True, False)))


def variant_pairs(ctx, a, styles, mixes):
  for sa in styles:
    la = line_of(a, sa)
    for b in ref.VARIANTS:
      for sb in styles:
        lb = line_of(b, sb)
        if la == lb:
          continue
        for m in mixes:
          play(ctx, (('read', la),) + m + (('read', lb),))
  ctx.case = as_ops((('read', la),) + m + (('read', lb),))


def same_type(ctx, ident, styles):
  """All sequences of three reads over the variants of one record type."""
  lines = [line_of(v, s) for v in ref.VARIANTS if v[0] == ident for s in styles]
  t = ref.TYPES[ident]
  if t.cont is not None:
    lines.append(put(lines[0], t.cont, '1'))
    lines.append(put(lines[0], t.cont, '*'))
  for seq in itertools.product(lines, repeat=3):
    s = []
    for l in seq:
      s += [('read', l), ('decode', False)]
    play(ctx, tuple(s))
  ctx.case = as_ops(s)


def small_changes(ctx, v, chars):
  """A line, then the same line with one column changed, and back."""
  base = line_of(v)
  for c in range(132):
    for ch in chars:
      if ch == base[c]:
        continue
      other = put(base, c, ch)
      play(ctx, (('read', base), ('decode', False), ('json', False, True), ('read', other)))
      play(ctx, (('read', other), ('decode', False), ('read', base)))
      _fresh.pop(other, None)
  ctx.case = as_ops((('read', base), ('read', other)))


def long_history(ctx, offset):
  """One object through many reads; looked at after every one."""
  r = impl.Record()
  lines = [line_of(v, s, rt) for v in ref.VARIANTS for s in ('rich', 'digits', 'blank', 'letters') for rt in 'ST']
  lines = lines[offset:] + lines[:offset]
  lines = lines + lines[::-1]
  done = []
  for l in lines:
    r.read(l)
    done.append(('read', l))
    ctx.states += 1
    ctx.validated += 1
    d = observation_diff(observe(ctx, r), baseline(l)[1])
    if d:
      raise Violation('after %d reads the %s' % (len(done), d), as_ops(done[-300:]))
  ctx.case = as_ops(done[-2:])


def array_walk(ctx, v, strength):
  """One object through lines in which all fields vary at once (see mc.arrays), valid or not, decoding or not in between."""
  r = impl.Record()
  q = arrays.size(v, 11, True)
  done = []
  k = 0
  for line, e in itertools.chain(arrays.lines(v, 'rich', q, strength), arrays.lines(v, 'rich', q, strength, 0, None, True)):
    ok = r.read(line)
    done = done[-3:] + [('read', line)]
    ctx.states += 1
    ctx.validated += 1
    want = fresh(line)
    d = observation_diff(observe(ctx, r), want[1]) if k % 3 else r.json(False) != want[1][0] and 'JSON differs'
    if ok is not want[0] or d:
      raise Violation('a record that has read other lines of its kind before: the %s' % d, as_ops(done))
    k += 1
  ctx.case = as_ops(done[-2:])


def triples(ctx, a):
  prim = [v for v in ref.VARIANTS if v[2] in (None, '0')]
  for b in prim:
    for c in prim:
      play(ctx, (('read', line_of(a)), ('read', line_of(b)), ('decode', False), ('read', line_of(c))))


NEW_CAP = 1500


def new_line(ctx, line, e):
  """The line after a plain one of its variant, and the other way round."""
  base = line_of(next(v for v in ref.VARIANTS if not e.ok or v[1] == e.v.layout and v[0] == e.ident))
  play(ctx, (('read', line), ('decode', False), ('json', False, True), ('read', base)))
  play(ctx, (('read', base), ('decode', False), ('read', line)))
  _fresh.pop(line, None)


def counted(ctx, n):
  """n reads of one object; every read after the first one is of the same few lines."""
  lines = [line_of(v) for v in ref.VARIANTS[:3]]
  for what in (lines, lines[:1], lines[:1] + [lines[0][:-1]]):
    r = impl.Record()
    for i in range(n):
      l = what[i % len(what)]
      r.read(l)
      ctx.transitions += 1
      if i > n - 5 or i % 64 == 0:
        ctx.states += 1
        ctx.validated += 1
        d = observation_diff(observe(ctx, r), baseline(l)[1])
        if d:
          raise Violation('after %d reads the %s' % (i + 1, d), as_ops([('read', what[k % len(what)]) for k in range(i + 1)][-3000:]))
    for v in ref.VARIANTS:
      for s in ('rich', 'digits'):
        l = line_of(v, s)
        r.read(l)
        ctx.states += 1
        ctx.validated += 1
        d = observation_diff(observe(ctx, r), baseline(l)[1])
        if d:
          raise Violation('after %d reads the %s' % (n, d), as_ops([('read', what[k % len(what)]) for k in range(n)][-3000:] + [('read', l)]))
  ctx.case = as_ops([('read', l)])


def repeated(ctx, first, counts):
  """One operation many times over, alone or in turn with another one, then every line."""
  ops = alphabet()
  reads = [o for o in ops if o[0] == 'read']
  for n in counts:
    for second in (None,) + tuple(ops):
      head = (ops[first],) * n if second is None else (ops[first], second) * (n // 2)
      if second is not None and second == ops[first]:
        continue
      for l in reads if second is None else reads[:1]:
        play(ctx, head + (l,))
        play(ctx, head + (l, reads[2], ('decode', False)))
  ctx.case = as_ops(head + (l,))


def new_units():
  return [Unit('counts', counted, n) for n in directed.numbers(2, 120000)] + [Unit('counts', repeated, i, [n, 2 * n]) for n in directed.numbers(2, 300) for i in range(len(alphabet()))]


def plan(tier):
  deep = tier == 'thorough'
  us = [Unit('refused lines', refused)]
  try:
    prepare()
  except Violation:
    pass            # reported by the unit above
  for i in range(len(alphabet())):
    us.append(Unit('sequences:%d' % i, sequences, i, 5 if deep else 4))
    us.append(Unit('repeated:%d' % i, repeated, i, list(range(5, 34 if deep else 13)) + [20, 40, 64, 128]))
  for v in ref.VARIANTS:
    us.append(Unit('variant pairs:%s' % v[1], variant_pairs, v, ('rich',), MIXES))
    if deep:
      us.append(Unit('variant pairs:%s' % v[1], variant_pairs, v, ('rich', 'blank', 'digits', 'letters'), MIXES[1:2]))
    us.append(Unit('small changes:%s' % v[1], small_changes, v, ' X0S' if not deep else ' X059ASTZ-'))
  for i in ref.TYPES:
    us.append(Unit('same type:%s' % i, same_type, i, ('rich', 'digits')))
  for o in range(0, 1008, 126):
    us.append(Unit('long history', long_history, o))
  if deep:
    for v in ref.VARIANTS:
      if v[2] in (None, '0'):
        us.append(Unit('triples:%s' % v[1], triples, v))
  for v in ref.VARIANTS:
    us.append(Unit('all fields at once:%s' % v[1], array_walk, v, 2))
  return us
