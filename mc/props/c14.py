"""C14: reading a folder handles every file once."""
import itertools
import os
import pathlib
import re
from collections import Counter

from mc import directed, impl
from mc.common import Capture, line_of
from mc.engine import Unit, Violation
from mc.files import CLASSES, Opened, notices, scratch, single, split, without
from model import ref

STATES = 'distinct (folder, spelling of its path) pairs'
BOUNDS = {
  'quick': 'all folders of up to 3 entries over 17 and of 4 over 12 entry kinds (files of every content class and line ending, empty files, hard links, sub-folders with and without files, links) '
           'and all 69 file names; all kinds x names; all pairs of names; seven spellings of the path (also a path object and a link to the folder), relative ones read twice; 4 to 40 files; a file that cannot be decoded among up to three others; missing and empty folders',
  'thorough': 'as quick with up to 5 entries',
}

NAMES = ['a', 'b.txt', '.hidden', 'c d', '\u00e9t\u00e9', '-x', 'x.py', '~tmp', 'UPPER', 'README.md', 'data.gz', '#x#', '%s', '*', 'a*b', '[a]', '0', '1', 'n' * 200,
         'f.pc', 'FAACIFP18', 'x.', '..x', 'a.b.c', '__init__.py', 'a\\b', "q'q", 'q"q', 'tab\tx', ' lead', 'trail ', '$HOME', '{}', 'a,b', 'a;b', 'a=b', 'a&b', '(1)',
         '.git', '.DS_Store', 'Thumbs.db', 'x~', 'x.bak', 'x.swp', 'A', 'B.TXT', 'b.dat', 'b', 'e\u0301te\u0301', 'upper', 'a.b', 'a b', 'inner', 'd', 'f', 'a\u200b', 'x' * 100, 'nul', 'CON', 'new\nline', 'ret\rurn', '\udcff.pc', '\udce9', '\x7f', 'x.gz', 'x.zip', 'x.tar', 'x.PC', 'x.TXT']

KINDS = {
  'vhf': ('file', [CLASSES['vhf']]),
  'two': ('file', [CLASSES['airport-cont'], '', CLASSES['grid']]),
  'empty': ('file', []),
  'junk': ('file', [CLASSES['heading'], CLASSES['short']]),
  'same': ('file', [CLASSES['vhf']]),
  'dir': ('dir', None),
  'dir+file': ('dir', [CLASSES['grid']]),
  'dir+dir+file': ('dir2', [CLASSES['vhf']]),
  'broken-link': ('link', 'nowhere'),
  'hard-link': ('hard', [CLASSES['grid'], CLASSES['vhf']]),
  'link-to-dir': ('link', '.'),
  'notice': ('file', [CLASSES['bad-continuation'], CLASSES['padded']]),
  'crlf': ('file', [CLASSES['grid'], CLASSES['vhf']], '\r\n'),
  'cr': ('file', [CLASSES['vhf'], CLASSES['spaces'], CLASSES['grid']], '\r'),
  'no-final-break': ('file', [CLASSES['airport-cont'], CLASSES['vhf']], None),
  'strange': ('file', [CLASSES['bom'], CLASSES['embedded-separators'], CLASSES['non-ascii'], CLASSES['padded']]),
  'wide': ('file', ['-' * 9000, CLASSES['grid'], CLASSES['comment']]),
}


def text_of(kind):
  what = KINDS[kind][1]
  eol = (KINDS[kind] + ('\n',))[2]
  return '\n'.join(what) if eol is None else ''.join(l + eol for l in what)


def make(root, entries):
  """Build the folder; returns (ops, [lines of each file])."""
  ops, files = [['dir', 'd']], []
  base = os.path.join(root, 'd')
  os.makedirs(base)
  for name, kind in entries:
    how, what = KINDS[kind][:2]
    p = os.path.join(base, name)
    if how == 'file':
      text = text_of(kind)
      with open(p, 'wb') as f:
        f.write(text.encode())
      files.append(what)
      ops.append(['file', 'd/' + name, text])
    elif how == 'hard':        # one more name of a file outside, or of the one in the folder that has it already
      o = os.path.join(root, 'original')
      text = ''.join(l + '\n' for l in what)
      if not os.path.exists(o):
        with open(o, 'wb') as f:
          f.write(text.encode())
      os.link(o, p)
      files.append(what)
      ops.append(['file', 'd/' + name, text])
    elif how in ('dir', 'dir2'):
      q = p if how == 'dir' else os.path.join(p, 'sub')
      os.makedirs(q)
      ops.append(['dir', os.path.relpath(q, root)])
      if what:
        text = ''.join(l + '\n' for l in what)
        with open(os.path.join(q, 'inner'), 'wb') as f:
          f.write(text.encode())
        ops.append(['file', os.path.relpath(os.path.join(q, 'inner'), root), text])
    else:
      os.symlink(what, p)
      ops.append(['link', 'd/' + name, what])
  return ops, files


SPELL = ('abs', 'slash', 'dot', 'rel', 'dotted', 'object', 'link')


def judge(ctx, entries, spelling='abs'):
  with scratch() as root:
    ops, files = make(root, entries)
    base = os.path.join(root, 'd')
    old = os.getcwd()
    path = {'abs': base, 'slash': base + '/', 'dot': '.', 'rel': 'd', 'dotted': base + '/../d/.',
            'object': pathlib.Path(base), 'link': base + '-link'}[spelling]
    if spelling == 'link':
      os.symlink('d', path)
    ops.append(['read_folder', 'd'])
    if spelling != 'abs':
      ops.insert(0, ['note', 'path spelled as %s' % path])
    ctx.case = ops
    if ctx.track is not None:
      ctx.begin(ops)
    os.chdir(base if spelling == 'dot' else root)
    try:
      for again in (True, False) if spelling in ('rel', 'dot') else (False,):
        with Opened() as o, Capture() as buf:
          try:
            impl.lib.read_folder(path)
          except Exception as x:
            raise Violation('read_folder raises %s: %s%s' % (type(x).__name__, x, '' if again or spelling == 'abs' else ' when called again'), ops)
        ctx.transitions += 1
        if again:
          ops.append(['read_folder', 'd'])
          before = buf.getvalue()
    finally:
      os.chdir(old)
    ctx.states += 1
    ctx.validated += 1
    ctx.outcome('%d files' % len(files))
    got = buf.getvalue()
    if spelling in ('rel', 'dot') and sorted(got.split('\n')) != sorted(before.split('\n')):
      raise Violation('reading the folder again prints something else', ops)
    want = [''.join(single(l, True)[0] for l in f) for f in files]
    notes = [n for f in files for l in f for n in notices(l)]
    if o.left_open():
      raise Violation('a file is left open', ops)
    if not concatenation(got, want):
      bare = [without(w, [n for l in f for n in notices(l)]) for w, f in zip(want, files)]
      if not notes or not concatenation(without(got, notes), bare):
        raise Violation('prints %d tables in %d characters; expected the output of %d files (%d tables, %d characters)' % (
          len(re.findall(r'(?m)^\+', got)) // 2, len(got), len(files), sum(len(re.findall(r'(?m)^\+', w)) for w in want) // 2, sum(map(len, want))), ops)
    now = sorted(os.listdir(base))
    if now != sorted(n for n, _ in entries):
      raise Violation('the folder is changed', ops)


def concatenation(text, parts):
  """Is the text the concatenation of the parts in some order?"""
  parts = [p for p in parts if p]
  if sum(map(len, parts)) != len(text):
    return False

  left = Counter(parts)
  kinds = sorted(left, key=len, reverse=True)
  pos, trail = 0, []            # trail: (kind taken, where)
  k = 0
  while pos < len(text):
    while k < len(kinds) and not (left[kinds[k]] and text.startswith(kinds[k], pos)):
      k += 1
    if k < len(kinds):
      left[kinds[k]] -= 1
      trail.append(k)
      pos += len(kinds[k])
      k = 0
    elif trail:
      k = trail.pop()
      left[kinds[k]] += 1
      pos -= len(kinds[k])
      k += 1
    else:
      return False
  return True


def combos(ctx, first, depth, spellings, shortest=0):
  ks = list(KINDS)[:12] if shortest else list(KINDS)
  for n in range(shortest, depth):
    for rest in itertools.product(ks, repeat=n):
      kinds = (first,) + rest
      entries = [('n%d' % i, k) for i, k in enumerate(kinds)]
      for s in spellings:
        judge(ctx, entries, s)


def names(ctx, kinds):
  for n in NAMES:
    for k in kinds:
      judge(ctx, [(n, k)])
      judge(ctx, [(n, k), ('other', 'two')])
      for s in SPELL[1:]:
        judge(ctx, [(n, k)], s)


def name_pairs(ctx, a):
  for b in NAMES:
    if a != b:
      judge(ctx, [(a, 'vhf'), (b, 'two')])
      judge(ctx, [(a, 'vhf'), (b, 'dir+file')])


def many(ctx, sizes):
  ks = [k for k in KINDS]
  for n in sizes:
    if n <= 300:
      judge(ctx, [('f%03d' % i, ks[i % len(ks)]) for i in range(n)])
    judge(ctx, [('f%03d' % i, 'two') for i in range(n)], 'rel')
    judge(ctx, [('f%03d' % i, 'dir+file') for i in range(n)] + [('x', 'vhf')])


def trouble(ctx):
  with scratch() as root:
    for p, what in ((os.path.join(root, 'none'), FileNotFoundError), (os.path.join(root, 'a', 'b'), FileNotFoundError)):
      ops = [['dir', '.'], ['read_folder', os.path.relpath(p, root)]]
      ctx.case = ops
      ctx.states += 1
      ctx.transitions += 1
      ctx.validated += 1
      with Capture():
        try:
          impl.lib.read_folder(p)
        except what:
          continue
        except Exception as x:
          raise Violation('raises %s; expected %s' % (type(x).__name__, what.__name__), ops)
      raise Violation('a missing folder raises no error', ops)
  for s in SPELL:
    judge(ctx, [], s)


FAILING = [CLASSES['vhf'], CLASSES['undecodable'], CLASSES['grid']]


def failing(ctx, others, first):
  """A file that cannot be decoded ends the reading, after some of the other files."""
  error = single(CLASSES['undecodable'], True)[1]
  for kinds in itertools.product(others, repeat=2):
    for name in ('m', 'z.txt'):
      with scratch() as root:
        ops, files = make(root, [('a', first)] + [('n%d' % i, k) for i, k in enumerate(kinds)])
        text = ''.join(l + '\n' for l in FAILING)
        with open(os.path.join(root, 'd', name), 'wb') as f:
          f.write(text.encode())
        ops += [['file', 'd/' + name, text], ['read_folder', 'd']]
        ctx.case = ops
        ctx.states += 1
        ctx.transitions += 1
        ctx.validated += 1
        with Opened() as o, Capture() as buf:
          try:
            impl.lib.read_folder(os.path.join(root, 'd'))
            err = None
          except ValueError as x:
            err = str(x)
            x.__traceback__ = None
          except Exception as x:
            raise Violation('read_folder raises %s: %s' % (type(x).__name__, x), ops)
        if err != error:
          raise Violation('a file that cannot be decoded: read_folder %s; expected ValueError(%s)' % (
            'returns' if err is None else 'raises ValueError(%s)' % err, error), ops)
        if o.left_open():
          raise Violation('a file is left open', ops)
        want = [''.join(single(l, True)[0] for l in f) for f in files]
        notes = [n for f in files + [FAILING] for l in f for n in notices(l)]
        last = single(FAILING[0], True)[0] + ''.join(n + '\n' for n in notices(FAILING[1]))
        got = without(buf.getvalue(), notes)
        bare = [without(w, notes) for w in want]
        last = without(last, notes)
        ctx.outcome('ValueError')
        if not got.endswith(last) or not any(
            concatenation(got[:len(got) - len(last)], c) for n in range(len(bare) + 1) for c in itertools.combinations(bare, n)):
          raise Violation('does not print the output of some files and then that of the lines before the one that cannot be decoded', ops)


def real(ctx):
  with impl.real_tables():
    for a in KINDS:
      for b in KINDS:
        judge(ctx, [('a', a), ('b', b)])


def new_names(ctx):
  for t in directed.new()[0]:
    t = t.replace('/', '').replace('\0', '')
    for name in dict.fromkeys((t, 'a' + t, t + 'a', 'a' + t + 'a', '.' + t, 'a.' + t)):
      if name not in ('', '.', '..') and len(name.encode('utf-8', 'replace')) < 200:
        for k in ('vhf', 'two', 'empty', 'dir+file', 'junk'):
          judge(ctx, [(name, k)])
          judge(ctx, [(name, k), ('other', 'two')])


def new_units():
  return [Unit('new constants', new_names)] + [Unit('counts', many, [n]) for n in directed.numbers(2, 5000)]


def plan(tier):
  deep = tier == 'thorough'
  us = [Unit('trouble', trouble), Unit('real tables', real)]
  for k in KINDS:
    us.append(Unit('combinations', combos, k, 3, ('abs',)))
    us.append(Unit('combinations', combos, k, 3 if deep else 2, SPELL[1:]))
  for k in list(KINDS)[:12]:
    us.append(Unit('combinations', combos, k, 5 if deep else 4, ('abs',), 3))
  for k in list(KINDS)[12:] if deep else ():
    us.append(Unit('combinations', combos, k, 4, ('abs',), 3))
  us += [Unit('names', names, (k,)) for k in ('vhf', 'empty', 'dir+file', 'junk', 'crlf')]
  us.append(Unit('many', many, (4, 5, 8, 16, 17, 40)))
  for k in KINDS:
    us.append(Unit('undecodable', failing, list(KINDS)[::1 if deep else 2], k))
  for n in NAMES:
    us.append(Unit('name pairs', name_pairs, n))
  return us
