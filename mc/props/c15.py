"""C15: search prints exactly the matching records and their count."""
import itertools
import os
import pathlib
import re

from mc import directed, impl, literals
from mc.common import Capture, chunks, line_of, put
from mc.engine import Unit, Violation
from mc.files import BLOCKS, CLASSES, Opened, block_files, scratch, split, without
from model import ref

STATES = 'distinct (file, filter) pairs'
BOUNDS = {
  'quick': 'all files of up to 3 lines over 14 line classes x 60 texts and lists; files of 4 over 6 classes x 12 filters; every record variant x texts from each '
           'place of the line, with wrong case, shifted, longer and empty; three line endings; up to 500 lines; files in which a line or the text ends at or next to 12 block sizes from 128 to 131,072; the same list object for several files; relative paths, path objects, links; terminals; 5 to 256 lines of each class in a row',
  'thorough': 'all files of up to 4 lines over 14 classes, all pairs and triples of the texts as lists',
}
ANSI = re.compile('\x1b\\[[0-9;]*m')

A = CLASSES['vhf']
B = line_of(next(v for v in ref.VARIANTS if v[0] == 'PA'), 'letters')
SPECIAL = put(put(A, 60, '.*[a](+?|^$\\{}'), 90, 'aAbB  Cc')
MIX = {
  'vhf': A, 'special': SPECIAL, 'airport': B, 'airport-padded': ' \t' + B + ' \r', 'short': A[:-1], 'undecodable': CLASSES['undecodable'], 'blank': '',
  'unsupported-type': CLASSES['unsupported-type'], 'bad-continuation': CLASSES['bad-continuation'], 'bad-application': CLASSES['bad-application'],
  'comment': '# ' + A, 'text': A[:20], 'grid': CLASSES['grid'], 'tailored': 'T' + A[1:],
}
MIX = {k: v.replace('\r', '') for k, v in MIX.items()}
TEXTS = ['', 'S', 'T', 'EUR', A, A[:40], A[-9:], A[100:], B[:12], 'eur', A.lower(), 'ZZZZZZ', '.*', '[a]', '(', '\\', '+?', '^', '$', '.', '{}', '|',
         ' ', '  ', 'aAbB', 'AABB', 'bB  Cc', 'Cc ', A + ' ', ' ' + A, A[10:] + B[:5], '%s', '{0}', 'None', '0', '1', '2', 'D', 'D ', 'PA', A[5], B[60:70], '*', '?', '#', '\t', 'S' + A[1:3], A[:132]]
LISTS = [[], [''], ['S'], ['S', 'S'], ['EUR', 'D'], ['D', 'EUR'], ['S', 'ZZZZ'], ['ZZZZ', 'S'], ['eur', 'EUR'], [A[:5], A[50:60]], [A[50:60], A[:5]], [A, A], [A, B], ['.*', '[a]'],
         ['.*', 'x'], ['', 'EUR'], ['S', 'U', 'R', 'E'], ['S', 'E', 'U', 'R', 'ZZZ'], ['T', '0'], [B[20:30], 'P'], [A[-4:], A[:3], A[60:64]], ['S '], [' '], ['a', 'A', 'b', 'B']]


def matches(raw, flt):
  return flt in raw if isinstance(flt, str) else all(f in raw for f in flt)


_note = {}


def read_notes(line):
  """What reading the line prints, and whether it is accepted."""
  if line not in _note:
    r = impl.Record()
    with Capture() as buf:
      ok = r.read(line)
    _note[line] = buf.getvalue().split('\n')[:-1], ok
  return _note[line]


def judge(ctx, d, text, flt, path='f', make=str, given=None):
  """given: the object to pass, equal to flt to begin with (by default a new one)."""
  path = make(os.path.join(d, path))
  data = text.encode('utf-8')
  with open(path, 'wb') as f:
    f.write(data)
  ops = [['file', 'f', text], ['search', 'f', flt]]
  ctx.case = ops
  if ctx.track is not None:
    ctx.begin(ops)
  notes, want = [], []
  for l in split(text):
    n, ok = read_notes(l)
    notes += n
    if ok and matches(l.strip(), flt):
      want.append(l.strip())
  with Opened() as o, Capture() as buf:
    try:
      impl.lib.search(path, given if given is not None else list(flt) if isinstance(flt, list) else flt)
    except Exception as x:
      raise Violation('search raises %s: %s' % (type(x).__name__, x), ops)
  ctx.transitions += 1
  ctx.states += 1
  ctx.validated += 1
  ctx.outcome('%s matches' % (len(want) if len(want) < 4 else 'many'))
  lines = ANSI.sub('', buf.getvalue()).split('\n')
  if lines[-1] == '':
    lines.pop()
  full = '\n'.join(lines[:-1])
  got = [l for l in without(full, notes).split('\n')] if full else []
  if got == ['']:
    got = []
  if not lines:
    raise Violation('prints nothing', ops)
  if got != want:
    raise Violation('prints %d records %s; expected %d %s' % (len(got), [g[:40] for g in got[:4]], len(want), [w[:40] for w in want[:4]]), ops)
  # the count is stated in the last line; the filter it may repeat is taken out first
  last = lines[-1]
  rest = last.replace(str(flt), '\x00') if str(flt) else last
  if last in want:
    raise Violation('there is no line stating the count', ops)
  nums = re.findall(r'\d+', rest)
  alt = re.findall(r'\d+', last)
  if not ((len(nums) == 1 and int(nums[0]) == len(want)) or (alt and int(alt[0]) == len(want))):
    raise Violation('states %r; expected a count of %d' % (last, len(want)), ops)
  if given is not None and given != flt:
    raise Violation('the given list is changed to %r' % (given,), ops)
  if o.left_open():
    raise Violation('the file is left open', ops)
  with open(path, 'rb') as f:
    if f.read() != data:
      raise Violation('the file is changed', ops)


def files(ctx, first, names, depth, filters, eol='\n'):
  with scratch() as d:
    for n in depth:
      for rest in itertools.product(names, repeat=n - 1):
        text = ''.join(MIX[x] + eol for x in (first,) + rest)
        for f in filters:
          judge(ctx, d, text, f)


def shapes(ctx):
  """Line endings, missing final line break, empty files."""
  with scratch() as d:
    for text in ('', '\n', ' \n'):
      for f in TEXTS + LISTS:
        judge(ctx, d, text, f)
    for eol in ('\n', '\r\n', '\r'):
      for final in ('', eol, eol + eol):
        for names in itertools.product(('vhf', 'airport', 'short', 'airport-padded'), repeat=2):
          for f in TEXTS[:12] + LISTS[:12]:
            judge(ctx, d, eol.join(MIX[n] for n in names) + final, f)


def variants(ctx, vs):
  with scratch() as d:
    for v in vs:
      for s in ('rich', 'blank', 'letters'):
        l = line_of(v, s)
        text = A + '\n' + l + '\n' + put(l, 0, 'T') + '\n' + l[:-1] + '\n' + B + '\n'
        fs = []
        for p in range(0, 132, 6):
          for n in (1, 3, 8):
            t = l[p:p + n]
            fs += [t, t.lower(), t[::-1], t + '~', [t, l[:4]], [l[:1], t, '~'], [t.swapcase()]]
        fs += [l, l + '\n'[:0], l.strip(), l[1:], l[:-1], [l[:66], l[66:]]]
        seen = []
        for f in fs:
          if f not in seen:
            seen.append(f)
            judge(ctx, d, text, f)


def words(ctx, ws):
  """Texts that the source mentions, in a file that contains each of them once, and in lists."""
  with scratch() as d:
    for w in ws:
      l = put(B, 60, w)
      text = A + '\n' + l + '\n' + B + '\n'
      for f in (w, [w], [w, 'S'], ['ZZZ', w], w.lower(), w.upper()):
        judge(ctx, d, text, f)


def long_files(ctx, sizes):
  with scratch() as d:
    for n in sizes:
      for text in (A + '\n') * n, (A + '\n' + B + '\n\n') * n, (MIX['short'] + '\n') * n + A + '\n':
        for f in ('EUR', A[:9], B[:30], 'ZZZ', [A[:4], 'D'], ''):
          judge(ctx, d, text, f)


def huge(ctx, n):
  with scratch() as d:
    for text, f in (((A + '\n') * n, 'EUR'), ((MIX['short'] + '\n') * n + A + '\n', A[:9]), ((A + '\n') * n + B + '\n', B[:30])):
      judge(ctx, d, text, f)


def runs(ctx, sizes):
  """Many refused, or accepted and not matching, lines in a row."""
  with scratch() as d:
    for n in sizes:
      for k in MIX:
        for f in ('EUR', A[-20:], [A[:20], 'S'], B[20:50]):
          judge(ctx, d, (MIX[k] + '\n') * n + A + '\n' + (MIX[k] + '\n') * n + B, f)


def blocks(ctx, n):
  with scratch() as d:
    for text in block_files(n, [A, B]):
      for f in ('EUR', A[-20:], [B[:20], B[-20:]]):
        judge(ctx, d, text, f)


def again(ctx):
  """The same list object for one file after another."""
  with scratch() as d:
    for flt in LISTS + [TEXTS[:4], TEXTS[3:7]]:
      given = list(flt)
      for a in MIX:
        for b in MIX:
          judge(ctx, d, MIX[a] + '\n' + MIX[b] + '\n', flt, given=given)


def paths(ctx):
  with scratch() as d:
    old = os.getcwd()
    os.chdir(d)
    try:
      os.mkdir('sub')
      os.symlink('f', 'link')
      for a in MIX:
        for flt in ('S', 'ZZ', ['EUR', 'D']):
          for path, make in (('f', str), ('./f', str), ('sub/g', str), ('link', str), ('f', pathlib.Path), ('sub/g', pathlib.Path), ('link', pathlib.Path),
                             ('f', os.path.abspath), ('sp ace\u00e9', str), ('.hidden', str), ('x.gz', str)):
            judge(ctx, '', MIX[a] + '\n' + MIX['vhf'] + '\n', flt, path, make)
    finally:
      os.chdir(old)


def terminal(ctx, columns):
  Capture.terminal(columns)
  shapes(ctx)
  for a in ('vhf', 'airport', 'short'):
    files(ctx, a, list(MIX), (1, 2), ['EUR', 'ZZ', 'S', ['S', 'D'], []])


def lists(ctx, texts, k):
  with scratch() as d:
    text = ''.join(MIX[x] + '\n' for x in MIX)
    for c in itertools.product(texts, repeat=k):
      judge(ctx, d, text, list(c))


def new_files(ctx, vs):
  ts = directed.new()[0][:6]
  with scratch() as d:
    for v in vs:
      for l in directed.lines(v, 40):
        text = A + '\n' + l + '\n' + B + '\n'
        for f in ts + ['EUR', l, [l[:20], l[-20:]], [l[:5], 'ZZZ'], ''] + [[t, l[:3]] for t in ts[:3]]:
          judge(ctx, d, text, f)


def new_units():
  us = [Unit('new constants', new_files, c) for c in chunks(ref.VARIANTS, 9)]
  us += [Unit('sizes', blocks, n) for n in directed.numbers(100, 200000)]
  return us + [Unit('counts', long_files, [n]) for n in directed.numbers(2, 3000)] + [Unit('counts', huge, n) for n in directed.numbers(3001, 120000)] + [Unit('counts', runs, [n]) for n in directed.numbers(2, 1000)]


def plan(tier):
  deep = tier == 'thorough'
  us = [Unit('shapes', shapes), Unit('same list', again), Unit('paths', paths)]
  names = list(MIX)
  for a in names:
    us.append(Unit('files', files, a, names, (1, 2), TEXTS + LISTS))
    us.append(Unit('files', files, a, names, (3,), TEXTS[:16:3] + TEXTS[25:40:5] + LISTS[::4] if not deep else TEXTS + LISTS))
    if deep:
      us.append(Unit('files', files, a, names, (4,), TEXTS[:16:3] + LISTS[::6]))
  for a in names[:6]:
    us.append(Unit('files', files, a, names[:6], (4,), ['EUR', A, 'P', 'ZZ', ['S', 'D'], ['T', 'EUR']]))
  us.append(Unit('lists', lists, TEXTS, 2))
  for n in (20, 80):
    us.append(Unit('terminals', terminal, n))
  for c in chunks(list(range(5, 21)) + [32, 33, 50, 64, 100, 128, 256], 5):
    us.append(Unit('runs', runs, c))
  for n in BLOCKS:
    us.append(Unit('blocks', blocks, n))
  if deep:
    us.append(Unit('lists', lists, TEXTS[::2], 3))
  for c in chunks(ref.VARIANTS, 8):
    us.append(Unit('variants', variants, c))
  ws = [w for w in literals.collect(12)[0] if not w.isdigit() and '\n' not in w]
  for c in chunks(ws, 120):
    us.append(Unit('source words', words, c))
  us.append(Unit('long files', long_files, (10, 50, 99, 100, 101, 255, 256, 257, 500)))
  return us
