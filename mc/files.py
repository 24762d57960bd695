"""Shared by the checks of file handling (C13, C14, C15)."""
import builtins
import contextlib
import io
import os
import re
import shutil
import tempfile

from mc import impl
from mc.common import Capture, line_of, put
from mc.props.c11 import V, undecodable
from model import ref


class Opened:
  """Records the file objects that are opened through open() meanwhile."""

  def __enter__(self):
    self.files = []
    self.old = builtins.open, io.open

    def wrapped(*a, **k):
      f = self.old[0](*a, **k)
      self.files.append(f)
      return f
    builtins.open = wrapped
    io.open = wrapped
    return self

  def __exit__(self, *a):
    builtins.open, io.open = self.old

  def left_open(self):
    n = [f for f in self.files if not f.closed]
    for f in n:
      f.close()
    return bool(n)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='verif-')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def line_classes():
  """name -> line, of every outcome class.  The first ones matter most."""
  D, PA = V('D '), V('PA')
  embedded = line_of(V('PA', 'A'))
  embedded = put(embedded, 60, '\x0c')
  embedded = put(embedded, 70, '\x1c')
  embedded = put(embedded, 80, '\u2028')
  embedded = put(embedded, 90, '\x85')
  return {
    'vhf': line_of(D),
    'airport-cont': put(line_of(V('PA', 'A'), 'letters'), 21, '2'),
    'blank': '',
    'short': line_of(PA)[:-1],
    'grid': line_of(V('AS'), 'digits', 'T'),
    'undecodable': undecodable(),
    'bad-continuation': put(line_of(PA), 21, '*'),
    'heading': 'HDR01FAACIFP18      001P013203974912310  12-OCT-2023  16:18:58  U.S.A. DOT FAA',
    'padded': '  ' + line_of(PA, 'digits') + '\t ',
    'unsupported-type': put(put(line_of(PA), 4, 'XX'), 12, 'X'),
    'bad-application': put(put(line_of(V('EP')), 38, '2'), 39, '*'),
    'embedded-separators': embedded,
    'spaces': ' \t ',
    'comment': '# ' + line_of(D),
    'long': line_of(D) + 'X',
    'bom': '\ufeff' + line_of(D),
    'non-ascii': put(line_of(V('PA', 'A')), 70, '\u00e9\u4e00'),
  }


CLASSES = line_classes()


def split(text):
  """Lines of a text file, by any of the three line endings."""
  parts = re.split('\r\n|\r|\n', text)
  if parts and parts[-1] == '':
    parts.pop()
  return parts


_single = {}


def single(line, output):
  """What a record of this line on its own prints when it is read and decoded, and the error it raises (or None;
  the error does not depend on the output)."""
  k = line, output
  if k not in _single:
    res = []
    for out in (True, output):
      with Capture() as buf:
        try:
          r = impl.Record()
          if r.read(line):
            r.decode(out)
          err = None
        except ValueError as x:
          err = str(x)
      res.append((buf.getvalue(), err))
    _single[k] = res[1][0], res[0][1]
  return _single[k]


def notices(line):
  """What reading and decoding print about the line besides its table, as lines."""
  return single(line, False)[0].split('\n')[:-1]


def without(text, notes):
  """The text without the given lines (as often as given)."""
  left = {}
  for n in notes:
    left[n] = left.get(n, 0) + 1
  out = []
  for l in text.split('\n'):
    if left.get(l):
      left[l] -= 1
    else:
      out.append(l)
  return '\n'.join(out)


BLOCKS = (128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072)


def block_files(n, good):
  """Files of which a line, or the whole text, ends at or next to n characters (and bytes), and with lines of n characters before
  or after a record in the same line."""
  tail = [good[0], '', good[1]]
  for d in (-133, -132, -1, 0, 1):
    for c in ' -':
      if n + d > 0:
        yield c * (n + d) + good[0] + '\n' + good[1]
        yield good[0] + c * (n + d) + '\n' + good[1]
        yield c * (n + d) + good[0] + c * (n + d) + '\r\n' + good[1] + '\r\n'
  for eol in ('\n', '\r\n', '\r'):
    k = max(0, min(4, n // (132 + len(eol)) - 1))
    body = eol.join([good[i % len(good)] for i in range(k)] + [good[0]])
    for d in (-3, -2, -1, 0, 1, 2):
      pad = n + d - len(body) - len(eol)
      if pad < 0:
        continue
      text = '-' * pad + eol + body
      yield text
      yield text + eol
      yield text + eol + eol.join(tail)
      if pad > 4:
        yield '\u00e9' * 3 + '-' * (pad - 6 if pad > 6 else 0) + eol + body + eol + eol.join(tail)
