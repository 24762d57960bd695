"""Binding to the implementation under check: the library in /repo/src, as it is now.

The library is imported from source on every run (no byte code is read or
written).  Everything is observed through its public interface: Record.read,
Record.json, Record.decode, Record.primary, Record.hasCont, arinc424.parse,
read_file, read_folder and search.

Rendering a table with prettytable costs ~50x more than decoding it.  The
`PrettyTable` class the library gets is therefore a stand-in that collects the
same rows and returns them as text with a `rows` attribute.  A self-test on
every record variant compares the stand-in with real rendered tables (parsed by
their borders); if anything differs, or the library uses prettytable in a way the
stand-in does not know, the stand-in is switched off and every table is rendered
and parsed for real.  C10 always uses real tables.
"""
import contextlib
import importlib
import io
import os
import signal
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

SEP = '\x1f'


class TableText(str):
  rows = None


_last = [TableText()]


def table(text):
  """The text that decoding returned; if it is a copy of the text the stand-in gave, that one."""
  return _last[0] if type(text) is str and text == _last[0] and _last[0].rows is not None else text


class _Mode:
  real = False


class FastTable:
  """Stand-in for prettytable.PrettyTable.

  It knows how to take rows and attributes and give its text.  Asked for anything else, or for text while real
  tables are wanted, it makes a real table of what it was given and passes everything on to it."""

  def __new__(cls, *a, **k):
    if _Mode.real:
      return _real(*a, **k)
    return object.__new__(cls)

  def __init__(self, field_names=None, **k):
    d = self.__dict__
    d['_t'] = None
    d['_k'] = k
    d['_names'] = list(field_names or [])
    d['_set'] = []
    d['_align'] = {}
    d['_r'] = []

  def _become(self):
    if self._t is None:
      t = _real(self._names or None, **self._k)
      for n, v in self._set:
        setattr(t, n, v)
      for n, v in self._align.items():
        t.align[n] = v
      for r in self._r:
        t.add_row(r)
      self.__dict__['_t'] = t
    return self._t

  def __setattr__(self, name, value):
    if self._t is not None:
      setattr(self._t, name, value)
    elif name == 'field_names':
      self.__dict__['_names'] = list(value)
    elif name == 'align':
      self._set[:] = [(name, value)]
      self._align.clear()
    else:
      setattr(self._become(), name, value)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return getattr(self._become(), name)

  @property
  def align(self):
    return self._align if self._t is None else self._t.align

  @align.setter
  def align(self, value):
    self.__setattr__('align', value)

  @property
  def field_names(self):
    return self._names if self._t is None else self._t.field_names

  @field_names.setter
  def field_names(self, value):
    self.__setattr__('field_names', value)

  def add_row(self, row, **k):
    if self._t is not None or k:
      self._become().add_row(row, **k)
    else:
      self._r.append(list(row))

  def add_rows(self, rows):
    for r in rows:
      self.add_row(r)

  def clear_rows(self):
    if self._t is not None:
      self._t.clear_rows()
    self.__dict__['_r'] = []

  @property
  def rows(self):
    return self._t.rows if self._t is not None else [list(r) for r in self._r]

  def get_string(self, **k):
    if k == {'fields': self._names}:
      k = {}
    if self._t is not None or k:
      return self._become().get_string(**k)
    if _Mode.real:
      t = self._become()
      self.__dict__['_t'] = None
      return t.get_string()
    rows = [[str(c) for c in r] for r in self._r]
    t = TableText('+\n' + '\n'.join('|' + SEP.join(x.replace('\n', '\x1e') for x in r) for r in [self._names] + rows) + '\n+')
    t.rows = rows
    _last[0] = t
    return t

  def __str__(self):
    return self.get_string()

  def __getitem__(self, i):
    return self._become()[i]


on_blocked = None     # set by mc.sched


class CoopLock:
  """A lock made by the library, as the controlled scheduler sees it: waiting for it passes the turn on."""

  def __init__(self, inner):
    self._inner = inner

  def acquire(self, blocking=True, timeout=-1):
    if not blocking or on_blocked is None:
      return self._inner.acquire(blocking, timeout)
    while not self._inner.acquire(False):
      if not on_blocked():
        return self._inner.acquire(True, timeout)
    return True

  def release(self):
    self._inner.release()

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def __getattr__(self, name):
    return getattr(self.__dict__['_inner'], name)


def _patch_locks():
  import threading

  def made(real):
    def make():
      lock = real()
      f = sys._getframe(1).f_code.co_filename
      return CoopLock(lock) if f.startswith(SRC + os.sep) else lock
    return make
  threading.Lock, threading.RLock = made(threading.Lock), made(threading.RLock)


_real = None
Record = None
lib = None
fast = None       # True when the stand-in is in use


def parse_table(text):
  """Rows of a rendered prettytable, as lists of cells; cells of several lines are joined by newlines.

  Columns are found from the border line, so cell text may contain anything but line breaks."""
  lines = text.split('\n')
  border = lines[0]
  if len(lines) < 3 or not border.startswith('+') or set(border) - set('+-'):
    raise BadTable('no table border: %r' % border)
  cuts = [i for i, c in enumerate(border) if c == '+']
  if len(cuts) != 4:
    raise BadTable('expected three columns')
  if lines[-1] != border or lines[2] != border:
    raise BadTable('table not closed')

  import unicodedata

  def cells(l):
    # positions are display columns
    out, pos, cur, k = [], 0, '', 0
    if not l or l[0] != '|':
      raise BadTable('bad row %r' % l)
    for ch in l:
      w = 0 if unicodedata.combining(ch) else (2 if unicodedata.east_asian_width(ch) in 'FW' else 1)
      if pos == cuts[k] and w:
        if ch != '|':
          raise BadTable('bad row %r' % l)
        if k:
          out.append(cur)
        cur, k = '', k + 1
        pos += w
        if k == 4:
          break
        continue
      cur += ch
      pos += w
    if k != 4:
      raise BadTable('bad row %r' % l)
    res = []
    for c in out:
      if c[:1] != ' ' or c[-1:] != ' ':
        raise BadTable('bad cell %r' % c)
      res.append(c[1:-1])
    return res
  head = [c.strip() for c in cells(lines[1])]
  body = [cells(l) for l in lines[3:-1]]
  return head, body


class BadTable(Exception):
  pass


def cells_match(body, want, care=None):
  """None if the rendered rows `body` show exactly the rows `want` (modulo the padding of the columns), else how
  they differ.  With `care`, decoded cells of other rows are not compared; a decoded cell of None matches any text."""
  flat = []
  for i, row in enumerate(want):
    parts = [str(c).split('\n') for c in row]
    skip = row[2] is None or (care is not None and i not in care)
    h = max(len(p) for p in parts)
    for k in range(h):
      flat.append([p[k] if k < len(p) else '' for p in parts[:2]] + [None if skip else parts[2][k] if k < len(parts[2]) else ''])
  if len(flat) != len(body):
    return 'table has %d lines, expected %d' % (len(body), len(flat))
  for got, exp in zip(body, flat):
    for g, e in zip(got, exp):
      if e is not None and not (g == e or (g.startswith(e) and g[len(e):].strip(' ') == '')):
        return 'table cell %r, expected %r' % (g.rstrip(), e)
  return None


def load():
  """Import the library from /repo/src.  Call once, before forking."""
  global _real, Record, lib, fast
  if lib is not None:
    return
  sys.dont_write_bytecode = True
  sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache-%d' % os.getpid())
  sys.path.insert(0, SRC)
  import prettytable
  _real = prettytable.PrettyTable
  prettytable.PrettyTable = FastTable
  _patch_locks()
  lib = importlib.import_module('arinc424')
  if not os.path.realpath(lib.__file__).startswith(os.path.realpath(SRC) + os.sep):
    raise RuntimeError('arinc424 was imported from %s' % lib.__file__)
  Record = importlib.import_module('arinc424.record').Record
  fast = _in_child(_self_test)
  _Mode.real = not fast


def _in_child(fn):
  """Run fn in a forked process, so that this one has not used the library yet."""
  pid = os.fork()
  if pid == 0:
    code = 1
    signal.alarm(60)
    try:
      code = 0 if fn() else 1
    finally:
      os._exit(code)
  _, st = os.waitpid(pid, 0)
  return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0


def _self_test():
  """Does the stand-in show what real tables show, for every record variant?"""
  from model import ref
  try:
    for v in ref.VARIANTS:
      for style in ('rich', 'blank', 'letters'):
        line = ref.build(*v, style=style)
        got = []
        for real in (False, True):
          _Mode.real = real
          r = Record()
          buf = io.StringIO()
          with contextlib.redirect_stdout(buf):
            if not r.read(line):
              got.append(None)
              continue
            try:
              got.append(table(r.decode(False)))
            except ValueError:
              got.append(None)
        a, b = got
        if (a is None) != (b is None):
          return False
        if a is None:
          continue
        if a.rows is None or any(len(x) != 3 for x in a.rows):
          return False
        _, body = parse_table(b)
        if cells_match(body, a.rows):
          return False
    return True
  except Exception:
    return False
  finally:
    _Mode.real = False


@contextlib.contextmanager
def real_tables():
  old = _Mode.real
  _Mode.real = True
  try:
    yield
  finally:
    _Mode.real = old


def rows_of(text):
  """(rows, exact) of a decoded table."""
  if isinstance(text, TableText):
    return text.rows
  head, body = parse_table(text)
  return body
