"""Shared by the property checks: bases, cursors and comparisons."""
import io
import json
import os
import sys

from mc import impl
from mc.engine import Violation
from model import ref

PRINTABLE = ref.PRINTABLE
CONTROLS = ''.join(chr(i) for i in list(range(0, 32)) + [127, 0x85, 0xa0])
EXOTIC = '\u00b2\u00bd\u00e9\u00df\u0130\u0660\u0669\u06f1\u0967\u0e51\u1680\u2003\u2028\u2029\u200b\u2160\u2460\u3000\u4e00\ufeff\uff11\uff33\U0001d7d8\U0001f600\u0301\u017f\u2019\u2126\ud800'
REDUCED = " 0159AENSTZaz'\"\\/+-.@|"
STYLES = ('rich', 'blank', 'digits', 'letters')

_bases = {}


def line_of(v, style='rich', rtype='S', area='EUR'):
  k = (v, style, rtype, area)
  if k not in _bases:
    _bases[k] = ref.build(*v, area=area, rtype=rtype, style=style)
  return _bases[k]


def put(line, col, text):
  return line[:col] + text + line[col + len(text):]


class Base:
  """A base line with what the model says about it, and the effect of changing single columns."""

  def __init__(self, line):
    self.line = line
    self.v = v = ref.classify(line)
    assert v.ok
    self.ident = v.ident
    self.fields = v.fields
    self.values = [f.value(line) for f in self.fields]
    self.frags = ['%s: %s' % (json.dumps(f.name), json.dumps(x)) for f, x in zip(self.fields, self.values)]
    self.results = [ref.decode(f, x, self.ident) for f, x in zip(self.fields, self.values)]
    self.decodable = all(r is not ref.ERR for r in self.results)
    self.rows = [[f.name, "'%s'" % x, r[1] if r is not ref.ERR else None]
                 for f, x, r in zip(self.fields, self.values, self.results)]
    self.owners = [[i for i, f in enumerate(self.fields) if c in f.cols] for c in range(132)]
    t = ref.TYPES[v.ident]
    # columns that take part in selecting the field list of this line
    self.dispatch = {0, 4, 5} | set(range(123, 132))
    if line[4:6] not in ref.TYPES:
      self.dispatch.add(12)
    if t.cont is not None:
      self.dispatch.add(t.cont)
      if not v.primary or isinstance(t.primary, dict):
        self.dispatch |= set(range(t.app, t.app + t.app_width))

  def changed(self, c, ch):
    """The line with column c changed, and a Base-like expectation for it (None: refused)."""
    line = self.line[:c] + ch + self.line[c + 1:]
    return line, self.expect(line, (c,))

  def expect(self, line, cols):
    """Expectation for a line that differs from the base in the given columns only."""
    if not self.dispatch.isdisjoint(cols):
      return Expect.full(line)
    touched = set()
    for c in cols:
      touched.update(self.owners[c])
    return Expect(self, line, touched)


class Expect:
  """What a line must show.  ok/json text/rows/err (index of undecodable fields)."""
  __slots__ = ('ok', 'fields', 'values', 'frags', 'rows', 'bad', 'ident', 'raw', 'v', 'touched')

  def __init__(self, base, line, touched):
    self.ok, self.fields, self.ident, self.raw, self.v = True, base.fields, base.ident, line, base.v
    self.touched = touched
    if touched:
      self.values, self.frags, self.rows = base.values[:], base.frags[:], base.rows[:]
    else:
      self.values, self.frags, self.rows = base.values, base.frags, base.rows
    bad = [] if base.decodable else [i for i, r in enumerate(base.results) if r is ref.ERR and i not in touched]
    for i in touched:
      f = base.fields[i]
      x = f.value(line)
      self.values[i] = x
      self.frags[i] = '%s: %s' % (json.dumps(f.name), json.dumps(x))
      r = ref.decode(f, x, base.ident)
      if r is ref.ERR:
        bad.append(i)
        self.rows[i] = [f.name, "'%s'" % x, None]
      else:
        self.rows[i] = [f.name, "'%s'" % x, r[1]]
    self.bad = bad

  @staticmethod
  def full(line):
    v = ref.classify(line)
    e = object.__new__(Expect)
    e.ok, e.v = v.ok, v
    e.touched = None
    if not v.ok:
      e.fields = e.values = e.frags = e.rows = e.bad = ()
      e.ident = e.raw = ''
      return e
    e.fields, e.ident, e.raw = v.fields, v.ident, v.raw
    e.values = [f.value(v.raw) for f in e.fields]
    e.frags = ['%s: %s' % (json.dumps(f.name), json.dumps(x)) for f, x in zip(e.fields, e.values)]
    e.rows, e.bad = [], []
    for i, (f, x) in enumerate(zip(e.fields, e.values)):
      r = ref.decode(f, x, v.ident)
      if r is ref.ERR:
        e.bad.append(i)
      e.rows.append([f.name, "'%s'" % x, None if r is ref.ERR else r[1]])
    return e

  @property
  def json(self):
    return '{' + ', '.join(self.frags) + '}'

  def pairs(self):
    return [(f.name, x) for f, x in zip(self.fields, self.values)]


def read(ctx, line, e, ops):
  """Read the line into a new record; the answer must be the model's.  Returns the record, or None if refused."""
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  r = impl.Record()
  try:
    got = r.read(line)
  except Exception as x:
    raise Violation('reading raises %s: %s' % (type(x).__name__, x), ops)
  ctx.transitions += 1
  if got is not e.ok:
    if got is not True and got is not False:
      raise Violation('reading returns %r, which is neither True nor False' % (got,), ops)
    raise Violation('the line is %s; expected %s' % (
      'accepted' if got else 'refused', 'acceptance' if e.ok else 'refusal (%s)' % e.v.why), ops)
  return r if got else None


def quiet_read(ctx, line, ops):
  """Read without judging acceptance (another property does): the record, or None."""
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  r = impl.Record()
  ctx.transitions += 1
  try:
    return r if r.read(line) else None
  except Exception:
    return None


def json_pairs(text):
  return json.loads(text, object_pairs_hook=lambda p: p)


def values(ctx, r, e, ops):
  """The record's fields and raw values, through its JSON text, must be the expected ones."""
  text = r.json(False)
  ctx.transitions += 1
  if text == e.json:
    return
  got = [tuple(p) for p in json_pairs(text)]
  want = e.pairs()
  if got != want:
    raise Violation(first_diff(got, want), ops + [['json', 'r', False]])


def first_diff(got, want):
  for i, (g, w) in enumerate(zip(got, want)):
    if g != w:
      return 'field %d is %r; expected %r' % (i + 1, g, w)
  return 'reports %d fields; expected %d (%s)' % (len(got), len(want), ', '.join(
    sorted(set(n for n, _ in want) ^ set(n for n, _ in got))[:5]))


def table_diff(text, want, care=None):
  """None, or how the decoded table differs from the wanted rows; decoded cells are compared for rows in `care` only."""
  if isinstance(text, impl.TableText):
    got = text.rows
    if got == want:
      return None
    if len(got) != len(want):
      return 'the decoded table has %d rows; expected %d' % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
      if g != w:
        if g[:2] != w[:2] or (w[2] is not None and (care is None or i in care)):
          return 'row %d of the decoded table is %r; expected %r' % (i + 1, g, w)
    return None
  head, body = impl.parse_table(text)
  return impl.cells_match(body, want, care)


def decode(ctx, r):
  """('ok', table text) or ('err', exception)."""
  ctx.transitions += 1
  try:
    return 'ok', impl.table(r.decode(False))
  except ValueError as x:
    return 'err', x


def reading_ops(line):
  return [['read', 'r', line]]


class Terminal(io.StringIO):
  def isatty(self):
    return True


class Capture:
  """What the library prints."""
  to = io.StringIO

  @staticmethod
  def terminal(columns):
    """From now on (in this process) what is printed goes to a terminal of this width."""
    Capture.to = Terminal
    os.environ['COLUMNS'], os.environ['LINES'] = str(columns), '10'

  def __enter__(self):
    self.old, self.buf = sys.stdout, self.to()
    sys.stdout = self.buf
    return self.buf

  def __exit__(self, *a):
    sys.stdout = self.old


def chunks(xs, n):
  xs = list(xs)
  return [xs[i:i + n] for i in range(0, len(xs), n)]


def observe(ctx, r):
  """Everything a record reports, as a comparable tuple."""
  ctx.transitions += 5
  out = [r.json(False), r.json(False, False), bool(r.primary()), bool(r.hasCont()),
         getattr(r, 'raw', None), getattr(r, 'ident', None)]
  try:
    out.append(('table', str(r.decode(False))))
  except ValueError as x:
    out.append(('ValueError', str(x)))
  return tuple(out)


OBSERVED = ('JSON', 'multi-line JSON', 'primary()', 'hasCont()', 'raw line', 'type', 'decoded table')


def observation_diff(got, want):
  for n, g, w in zip(OBSERVED, got, want):
    if g != w:
      return '%s is %.300r; expected %.300r' % (n, g, w)
  return None


def fresh(line):
  """What a new record reports after reading only this line (None: a new record that has read nothing)."""
  from mc.engine import Ctx
  r = impl.Record()
  if line is not None:
    ok = r.read(line)
  else:
    ok = None
  return ok, observe(Ctx(), r)


def selected(ctx, r, e, ops, candidates):
  """The record must show the expected field list: its names, and not the columns of another one.

  Which columns a field covers is another property (C04): differing values count here only when they are exactly
  what another candidate layout would show."""
  text = r.json(False)
  ctx.transitions += 1
  if text == e.json:
    return
  got = [tuple(p) for p in json_pairs(text)]
  want = e.pairs()
  if got == want:
    return
  if [n for n, _ in got] != [n for n, _ in want]:
    raise Violation('the record reports the fields %s; expected the fields of %s' % (
      sorted(set(n for n, _ in got) ^ set(n for n, _ in want))[:6], e.v.layout), ops + [['json', 'r', False]])
  for lay in candidates:
    if lay != e.v.layout and [(f.name, f.value(e.raw)) for f in ref.LAYOUTS[lay]] == got:
      raise Violation('the record is read as %s; expected %s' % (lay, e.v.layout), ops + [['json', 'r', False]])


def may_notice(e):
  """Content that the library is known to comment on when decoding: invalid leg times and boundary codes."""
  return any((f.sec == 65 and str(r[2]).startswith('Invalid Value')) or (f.sec == 118 and str(r[2]).startswith('Unsupported'))
             for f, r in zip(e.fields, e.rows))


def pristine(lines):
  """{line: (read result, observation)}: each line read by a new record in a process that has read nothing before."""
  import multiprocessing as mp
  import os
  import pickle
  lines = list(dict.fromkeys(lines))
  n = min(os.cpu_count() or 1, 8)
  parts = [lines[i::n] for i in range(n)]
  outs, pids = [], []
  for part in parts:
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(rfd)
      from mc.engine import Sink
      sys.stdout = Sink()
      with os.fdopen(wfd, 'wb') as w:
        for line in part:
          a, b = os.pipe()
          child = os.fork()
          if child == 0:
            try:
              try:
                res = fresh(line)
              except Exception as x:
                res = ('raises', '%s: %s' % (type(x).__name__, x))
              with os.fdopen(b, 'wb') as f:
                pickle.dump(res, f)
            finally:
              os._exit(0)
          os.close(b)
          with os.fdopen(a, 'rb') as f:
            data = f.read()
          os.waitpid(child, 0)
          pickle.dump((line, data), w)
      os._exit(0)
    os.close(wfd)
    outs.append(rfd)
    pids.append(pid)
  res = {}
  for fd in outs:
    with os.fdopen(fd, 'rb') as f:
      while True:
        try:
          line, data = pickle.load(f)
        except EOFError:
          break
        res[line] = pickle.loads(data) if data else ('raises', 'the process ended')
  for p in pids:
    os.waitpid(p, 0)
  return res
