"""Lines in which all fields vary at once: orthogonal arrays over the fields of a record variant.

For a prime q, the polynomials of degree < t over the field of q elements, evaluated at k <= q points, give q^t rows of k
values such that any t columns show every combination of values exactly once.  Column i selects a content of field i, so
the q^t lines hold every combination of the contents of any t fields -- also of the fields between them."""
import itertools
import json

from mc import directed
from mc.common import Base, Expect, line_of
from model import ref


def codes_of(sec):
  """Valid codes of a section (plus a few that are not)."""
  t = {
    2: 'ST', 3: list(ref.AREA) + ['   ', 'XXX', 'eur'], 4: list(ref.SECTION) + ['  ', 'XX'],
    7: ref.UPPER + ref.DIGITS + ' ', 20: 'RLE X', 21: list(ref.LEG) + ['  ', 'XX'],
    42: [a + b + ' ' for a in 'CIRUVWN X' for b in 'ABCDEFIKLMNOPSUVW X'], 49: '@+- X',
    82: [a + b for a in 'R X' for b in 'BHL X'], 91: ref.UPPER + ref.DIGITS + ' ',
    101: list(ref.COMM_TYPE) + ['   ', 'XXX'], 102: 'RN X', 104: 'HVUC X', 106: list(ref.SERVICE) + ['   ', 'AAA'],
    108: 'YN X', 112: 'EB X', 113: 'HL X', 117: 'FUB X', 118: [a + b for a in 'CGHLR X' for b in 'E X'],
    165: 'MT X', 177: 'CMP X', 178: [a + '00' for a in ref.UPPER] + ['   '], 179: 'YN X', 181: 'YN X', 182: 'GT X',
    196: [a + b + ' ' for a in 'ABDFHILMNPQRTU X' for b in 'OM X'], 198: 'AF X', 199: list(ref.EMISSION) + [' ', 'X'],
    270: 'IRVD X',
    17: [a + b + c + d for a in 'AE ' for b in 'BE ' for c in 'AC ' for d in 'AF '],
  }
  return list(t.get(sec, []))


def prime(n):
  while any(n % d == 0 for d in range(2, n)):
    n += 1
  return n


def contents(base, i, ident, every=False):
  """Contents of a field that decode (or `every` content), the base one first."""
  f, x0, w = base.fields[i], base.values[i], base.fields[i].width
  t = ref.TYPES[ident]
  if f.cols[0] == 0:
    return ['S', 'T']
  if f.cols[0] == 123:
    return ['00001', '12345', '99999', '00000', '12350', '50000', '00180']
  if f.cols[0] == 128:
    return ['2013', '0000', '5001', '5113', '9913', '4912', '0101']
  if t.cont is not None and f.cols == (t.cont,):
    return list('01' if base.line[t.cont] in '01' else [c for c in ref.CONT_NUMBERS if c not in '01'])
  if not base.dispatch.isdisjoint(f.cols) or f.lo is None:
    return [x0]
  out = [x0] + [y for x in directed.fitting(w) for y in (x.ljust(w), x.rjust(w))] + [' ' * w, '0' * w]
  if f.sec in ref.CODED:
    out += [c.ljust(w)[:w] for c in codes_of(f.sec)]
  if f.sec in ref.NUMERIC:
    out += [str(n).zfill(w) for n in (1, 9, 10, 99, 100, 123, 180, 360, 999, 1000, 1800, 9999, 11830, 18000, 99999) if n < 10 ** w]
    out += [a + str(n).zfill(w - 1) for a in 'EWTSN-' for n in (0, 7, 123) if n < 10 ** (w - 1)]
    out += [x.ljust(w) for x in ('FL180', 'UNLTD', 'GND', 'MSL', 'NOTSP', 'UNKNN') if len(x) <= w]
  out += ['9' * w, 'A' * w, '1'.zfill(w), 'X'.ljust(w), 'Z'.rjust(w), ('12345678' * w)[:w], ('ABCDEFGH' * w)[:w], 'a' * w, '-' * w, 'N'.ljust(w, '0'),
          'W'.ljust(w, '1'), 'R'.ljust(w), "'".ljust(w, '.')]
  if w == 1:
    out += list('YNRLTMEPBCHSDFGIUVKOQW+2345678')
  out = [x for x in dict.fromkeys(out) if len(x) == w]
  if every:
    return out + ['*' * w, '1A'.rjust(w), '1 '.rjust(w)][:3 if w > 1 else 1]
  good = [x for x in out if ref.decode(f, x, ident) is not ref.ERR]
  return good or [x0]


def free(base):
  """Indices of fields that can vary on their own."""
  used = {}
  for i, f in enumerate(base.fields):
    for c in f.cols:
      used.setdefault(c, []).append(i)
  return [i for i, f in enumerate(base.fields) if all(used[c] == [i] for c in f.cols)]


def size(v, least=7, every=False):
  """The prime of the variant's array."""
  most = 0
  for style in ('rich', 'blank'):
    base = Base(line_of(v, style))
    most = max(most, len([i for i in free(base) if len(contents(base, i, v[0], every)) > 1]))
  return prime(max(least, most))


def lines(v, style, q, strength, lo=0, hi=None, every=False):
  """(line, expectation) for the rows whose first coefficient is in lo..hi-1."""
  base = Base(line_of(v, style))
  ident = base.ident
  t = ref.TYPES[ident]
  verdicts = {}
  cols = []
  for i in free(base):
    xs = contents(base, i, ident, every)
    xs = xs[:q] if not every else list(dict.fromkeys(xs[-4:] + xs))[:q]
    if len(xs) > 1:
      f = base.fields[i]
      cells = []
      for x in xs:
        r = ref.decode(f, x, ident)
        cells.append((x, '%s: %s' % (json.dumps(f.name), json.dumps(x)), [f.name, "'%s'" % x, None if r is ref.ERR else r[1]], r is ref.ERR))
      cols.append((i, f, [cells[k % len(cells)] for k in range(q)]))
  assert len(cols) <= q
  touched = set(i for i, _, _ in cols)
  L = list(base.line)
  bad0 = [i for i, r in enumerate(base.results) if r is ref.ERR and i not in touched]
  powers = [[pow(p, d, q) for d in range(strength)] for p in range(q)]
  for cs in itertools.product(range(lo, q if hi is None else hi), *[range(q)] * (strength - 1)):
    l = L[:]
    e = object.__new__(Expect)
    e.ok, e.fields, e.ident, e.v, e.touched = True, base.fields, ident, base.v, touched
    e.values, e.frags, e.rows, e.bad = base.values[:], base.frags[:], base.rows[:], bad0
    for k, (i, f, cells) in enumerate(cols):
      p = powers[k]
      n = 0
      for a, b in zip(cs, p):
        n += a * b
      x, e.frags[i], e.rows[i], bad = cells[n % q]
      e.values[i] = x
      if bad:
        e.bad = e.bad + [i]
      l[f.lo:f.hi] = x
    line = e.raw = ''.join(l)
    if t.cont is not None:
      n = l[t.cont]
      if n not in verdicts:
        verdicts[n] = ref.classify(line)
      e.v = verdicts[n]
    yield line, e


def array(ctx, v, style, q, strength, lo, hi, every, judge, *args):
  for line, e in lines(v, style, q, strength, lo, hi, every):
    judge(ctx, line, e, *args)


def units(make, tier, judge, *args, slow=False, valid=False):
  """Units for all variants: combinations of three fields (thorough: of four where there are not many fields).  With
  `slow`, of two fields (three), and also of contents that do not decode (unless `valid`)."""
  deep = tier == 'thorough'
  out = []

  def add(name, v, style, q, strength, every, chunk):
    rows = q ** (strength - 1)
    step = max(1, chunk // rows)
    for lo in range(0, q, step):
      out.append(make('%s:%s' % (name, v[1]), array, v, style, q, strength, lo, min(lo + step, q), every, judge, *args))
  for v in ref.VARIANTS:
    q = size(v, 37 if deep else 29, slow and not valid)
    for style in ('rich', 'blank') if deep else ('rich',):
      if slow:
        add('all fields at once', v, style, q, 2, False, 20000)
        if not valid:
          add('all fields at once, valid or not', v, style, q, 2, True, 20000)
        if deep:
          add('all fields at once', v, style, q, 3, False, 20000)
          if not valid:
            add('all fields at once, valid or not', v, style, q, 3, True, 20000)
      else:
        add('all fields at once', v, style, q, 3, False, 40000)
    q = size(v)
    if deep and not slow and q <= 23:
      add('all fields at once, by fours', v, 'rich', q, 4, False, 100000)
  return out
