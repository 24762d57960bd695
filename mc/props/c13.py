"""C13: reading a file handles every line once, in order."""
import itertools
import os
import pathlib

from mc import directed, impl, literals
from mc.common import Capture, chunks, line_of, put
from mc.engine import Unit, Violation
from mc.files import BLOCKS, CLASSES, Opened, block_files, notices, scratch, single, split, without
from model import ref

STATES = 'distinct (file, output setting) pairs'
BOUNDS = {
  'quick': 'all files of up to 4 lines over 17 line classes and of 5 lines over 8; three line endings, with and without final line break, '
           'output on, off and by default; every record variant in a file of three; files with real tables; files of up to 3,000 lines, also of the lengths '
           'that occur as numbers in the source; files in which a line or the text ends at or next to 12 block sizes from 128 to 131,072; relative paths, path objects, links; terminals; 5 to 1,000 refused lines of each class in a row; missing files, folders',
  'thorough': 'as quick with all files of 5 lines over 11 classes and of 6 lines over 7',
}


GOOD = [line_of(ref.VARIANTS[1]), line_of(ref.VARIANTS[2], 'rich', 'T')]


def judge(ctx, d, text, mode, path='f', make=str):
  """mode: True, False or None (default)."""
  path = make(os.path.join(d, path))
  data = text.encode('utf-8')
  with open(path, 'wb') as f:
    f.write(data)
  ops = [['file', 'f', text], ['read_file', 'f'] + ([] if mode is None else [mode])]
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  lines = split(text)
  want, error, notes = '', None, []
  for l in lines:
    out, err = single(l, mode is not False)
    want += out
    notes += notices(l)
    if err is not None:
      error = err
      break
  with Opened() as o, Capture() as buf:
    try:
      res = impl.lib.read_file(path) if mode is None else impl.lib.read_file(path, mode)
      got_err = None
    except ValueError as x:
      got_err = str(x)
      x.__traceback__ = None
    except Exception as x:
      raise Violation('read_file raises %s: %s' % (type(x).__name__, x), ops)
  ctx.transitions += 1
  ctx.states += 1
  ctx.validated += 1
  ctx.outcome('completed' if error is None else 'ValueError')
  got = buf.getvalue()
  if got_err != error:
    raise Violation('read_file %s; expected %s' % (
      'raises ValueError(%s)' % got_err if got_err is not None else 'returns',
      'ValueError(%s)' % error if error is not None else 'no error'), ops)
  if got != want and without(got, notes) != without(want, notes):
    n, m = got.count('\n+') , want.count('\n+')
    raise Violation('prints %r; expected %r' % (clip(got, want), clip(want, got)), ops)
  if o.left_open():
    raise Violation('the file is left open', ops)
  with open(path, 'rb') as f:
    if f.read() != data:
      raise Violation('the file is changed', ops)


def clip(a, b):
  i = 0
  while i < min(len(a), len(b)) and a[i] == b[i]:
    i += 1
  return '...' + a[max(0, i - 40):i + 120]


def assemble(lines, eol, final):
  return eol.join(lines) + (eol if final and lines else '')


def files(ctx, first, names, depth, eols, modes):
  with scratch() as d:
    for n in range(depth):
      for rest in itertools.product(names, repeat=n):
        lines = [CLASSES[first]] + [CLASSES[x] for x in rest]
        for eol in eols:
          for final in (True, False):
            text = assemble(lines, eol, final)
            for mode in modes:
              judge(ctx, d, text, mode)


def exactly(ctx, first, names, depth, eols, modes):
  with scratch() as d:
    for rest in itertools.product(names, repeat=depth - 1):
      lines = [CLASSES[first]] + [CLASSES[x] for x in rest]
      for eol in eols:
        text = assemble(lines, eol, len(rest) % 2 == 0)
        for mode in modes:
          judge(ctx, d, text, mode)


def pairs_first(ctx, a, b, names, depth):
  with scratch() as d:
    for rest in itertools.product(names, repeat=depth - 2):
      judge(ctx, d, assemble([CLASSES[x] for x in (a, b) + rest], '\n', True), True)


def mixed(ctx, names):
  """Lines that end differently within one file; empty lines produced by doubled ends."""
  with scratch() as d:
    for a in names:
      for b in names:
        for e1 in ('\n', '\r\n', '\r', '\n\n', '\r\r', '\n\r', '\r\n\r\n'):
          for e2 in ('', '\n', '\r\n', '\r', '\n\n\n'):
            judge(ctx, d, CLASSES[a] + e1 + CLASSES[b] + e2, True)


def variants(ctx, vs):
  with scratch() as d:
    for v in vs:
      for s, rt, area in (('rich', 'S', 'EUR'), ('blank', 'T', 'USA'), ('digits', 'S', 'CAN'), ('letters', 'T', 'PAC')):
        l = line_of(v, s, rt, area)
        for lines in ([l], [CLASSES['vhf'], l, CLASSES['vhf']], [l, l], ['', l, '', l]):
          for mode in (True, False, None):
            judge(ctx, d, assemble(lines, '\n', True), mode)


def real(ctx, names):
  """With tables rendered for real."""
  with scratch() as d, impl.real_tables():
    for n in range(0, 3):
      for lines in itertools.product(names, repeat=n):
        for eol in ('\n', '\r\n'):
          for mode in (True, False):
            judge(ctx, d, assemble([CLASSES[x] for x in lines], eol, True), mode)


def long_files(ctx, sizes):
  with scratch() as d:
    good = [line_of(v) for v in ref.VARIANTS if ref.decodable(ref.classify(line_of(v)))]
    for n in sizes:
      lines = [good[i % len(good)] if i % 7 else '' for i in range(n)]
      judge(ctx, d, assemble(lines, '\n', True), True)
      judge(ctx, d, assemble(lines, '\r\n', False), False)
      judge(ctx, d, assemble([good[1]] * n, '\n', False), True)
      judge(ctx, d, assemble([''] * n + [good[1]], '\n', True), True)
      judge(ctx, d, assemble(['X' * n, good[1], 'S' * n], '\n', True), True)


def huge(ctx, n):
  with scratch() as d:
    good = line_of(ref.VARIANTS[1])
    wrong = CLASSES['undecodable']
    judge(ctx, d, assemble([''] * n + [good], '\n', True), True)
    judge(ctx, d, assemble([good] * n + [wrong], '\n', True), False)


REFUSED = ('blank', 'short', 'bad-continuation', 'heading', 'unsupported-type', 'bad-application', 'comment', 'long')


def runs(ctx, sizes):
  """Many refused lines in a row before, between and after records."""
  with scratch() as d:
    for n in sizes:
      for k in REFUSED:
        junk = [CLASSES[k]] * n
        judge(ctx, d, assemble(junk + [GOOD[0]], '\n', True), True)
        judge(ctx, d, assemble([GOOD[0]] + junk + [GOOD[1]] + junk + [CLASSES['undecodable'], GOOD[0]], '\n', True), True)
      judge(ctx, d, assemble([CLASSES[REFUSED[i % len(REFUSED)]] for i in range(n)] + [GOOD[0]], '\n', True), True)


def blocks(ctx, n):
  with scratch() as d:
    for text in block_files(n, GOOD):
      judge(ctx, d, text, True)


def terminal(ctx, names, columns):
  """Printed to a terminal, with real tables."""
  Capture.terminal(columns)
  real(ctx, names)


def relative(ctx, names):
  """Relative paths, several files and the same one again, without and with an error in between."""
  with scratch() as d:
    old = os.getcwd()
    os.chdir(d)
    try:
      os.mkdir('sub')
      for a in names:
        for b in names:
          for path in ('f', 'sub/g', './f', 'sub/../sub/g'):
            for text in (CLASSES[a] + '\n', CLASSES[b] + '\n' + CLASSES[a], CLASSES[a]):
              judge(ctx, '', text, True, path=path)
      os.symlink('f', 'link')
      os.symlink('sub', 'sublink')
      for a in names:
        for mode in (True, False, None):
          for path, make in (('link', str), ('sublink/g', str), ('f', pathlib.Path), ('sub/g', pathlib.Path), ('link', pathlib.Path),
                             ('f', os.path.abspath), ('link', lambda p: pathlib.Path(p).absolute()), ('sp ace\u00e9', str), ('.hidden', str), ('x.gz', str), ('x.zip', str)):
            judge(ctx, '', CLASSES[a] + '\n' + CLASSES['grid'], mode, path=path, make=make)
    finally:
      os.chdir(old)


def trouble(ctx):
  with scratch() as d:
    for path, what in ((os.path.join(d, 'none'), FileNotFoundError), (d, OSError), ('', OSError), (os.path.join(d, 'x', 'y'), FileNotFoundError)):
      for mode in (True, False):
        ops = [['dir', '.'], ['read_file', path if path == '' else os.path.relpath(path, d), mode]]
        ctx.case = ops
        ctx.states += 1
        ctx.transitions += 1
        ctx.validated += 1
        with Capture() as buf:
          try:
            impl.lib.read_file(path, mode)
          except what:
            continue
          except Exception as x:
            raise Violation('raises %s; expected %s' % (type(x).__name__, what.__name__), ops)
        raise Violation('a missing file raises no error', ops)


def new_files(ctx, vs):
  with scratch() as d:
    a, b = line_of(ref.VARIANTS[1]), line_of(ref.VARIANTS[2], 'rich', 'T')
    for v in vs:
      for l in directed.lines(v, 250):
        judge(ctx, d, assemble([a, l, b], '\n', True), True)


def new_texts(ctx):
  """New texts as lines of their own, before and after lines."""
  with scratch() as d:
    a, b = line_of(ref.VARIANTS[1]), line_of(ref.VARIANTS[2], 'rich', 'T')
    for t in directed.new()[0]:
      for ls in ([a, t, b], [t, a, b], [a, b, t], [t + a, b], [a + t, b], [t * 132, a, t], [a, t + ' text', b], [t + b[len(t):], a]):
        for eol in ('\n', '\r\n', '\r'):
          judge(ctx, d, assemble(ls, eol, True), True)


def new_units():
  us = [Unit('new constants', new_files, c) for c in chunks(ref.VARIANTS, 9)]
  us.append(Unit('new constants', new_texts))
  us += [Unit('sizes', blocks, n) for n in directed.numbers(100, 200000)]
  return us + [Unit('counts', long_files, c) for c in chunks(directed.numbers(2, 20000), 1)] + [Unit('counts', huge, n) for n in directed.numbers(20001, 120000)] + [Unit('counts', runs, [n]) for n in directed.numbers(2, 2000)]


def plan(tier):
  deep = tier == 'thorough'
  names = list(CLASSES)
  us = [Unit('trouble', trouble), Unit('empty file', _empty)]
  for a in names:
    us.append(Unit('files', files, a, names, 3, ('\n',), (True, False)))
    us.append(Unit('files', files, a, names, 2, ('\n', '\r\n', '\r'), (True, False, None)))
    us.append(Unit('files', files, a, names[:10], 3, ('\r\n', '\r'), (True,)))
    us.append(Unit('files of four', exactly, a, names, 4, ('\n',), (True,)))
  for a in names[:8]:
    us.append(Unit('files of four', exactly, a, names[:8], 4, ('\r', '\r\n'), (True, False)))
    us.append(Unit('files of five', exactly, a, names[:8], 5, ('\n',), (True,)))
  if deep:
    for a in names[:11]:
      for b in names[:11]:
        us.append(Unit('files of five', pairs_first, a, b, names[:11], 5))
    for a in names[:7]:
      for b in names[:7]:
        us.append(Unit('files of six', pairs_first, a, b, names[:7], 6))
  us.append(Unit('mixed line ends', mixed, names if deep else names[:9]))
  for c in chunks(ref.VARIANTS, 16):
    us.append(Unit('variants', variants, c))
  us.append(Unit('real tables', real, names[:9]))
  for n in (20, 80):
    us.append(Unit('terminals', terminal, names[:6], n))
  for c in chunks(list(range(5, 34)) + [50, 64, 100, 128, 256, 1000], 6):
    us.append(Unit('runs', runs, c))
  us.append(Unit('relative paths', relative, names))
  for n in BLOCKS:
    us.append(Unit('blocks', blocks, n))
  sizes = sorted(set([5, 10, 16, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 3000]
                     + [n + k for n in literals.collect()[1] for k in (-1, 0, 1) if 132 < n <= 4096]))
  for c in chunks(sizes, 4):
    us.append(Unit('long files', long_files, c))
  us.append(Unit('long files', long_files, range(5, 133, 4)))
  return us


def _empty(ctx):
  with scratch() as d:
    for text in ('', '\n', '\r\n', '\n\n', ' '):
      for mode in (True, False, None):
        judge(ctx, d, text, mode)
