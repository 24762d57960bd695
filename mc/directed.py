"""Change-directed lines: what the source mentions more often than the source this machinery was made for.

`words.json` holds how often each constant occurs in the library's source as it was.  A constant that occurs more often
now (a character or word some column is compared with, the number of a column, a length) is worth a deeper look: these
constants span an additional space of lines, on top of the fixed ones of every check.  On the unchanged source there are
none.  As with the words of the source, this only chooses inputs: the verdict comes from running the code on them."""
import ast
import itertools
import json
import os
from collections import Counter

from mc import impl
from mc.common import PRINTABLE, Base, Expect, line_of, put
from model import ref

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'words.json')


def folded(n):
  """The value of an operation on two number constants, such as 1 << 16 or 64 * 1024."""
  if isinstance(n, ast.Constant) and type(n.value) is int:
    return n.value
  if not isinstance(n, ast.BinOp):
    return None
  a, b = folded(n.left), folded(n.right)
  if a is None or b is None or max(abs(a), abs(b)) > 10 ** 9:
    return None
  if isinstance(n.op, ast.LShift) and 0 <= b < 32:
    return a << b
  if isinstance(n.op, ast.Pow) and 0 <= b < 32 and abs(a) < 100:
    return a ** b
  if isinstance(n.op, ast.Mult):
    return a * b
  if isinstance(n.op, ast.Add):
    return a + b
  if isinstance(n.op, ast.Sub):
    return a - b
  return None


def count():
  """How often each constant (as JSON text) occurs in the source."""
  out = Counter()
  for d, _, files in os.walk(impl.SRC):
    for fn in sorted(files):
      if not fn.endswith('.py'):
        continue
      try:
        with open(os.path.join(d, fn), encoding='utf-8') as f:
          tree = ast.parse(f.read())
      except (SyntaxError, ValueError, OSError):
        continue
      docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
      for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
          v = folded(n)
        elif not isinstance(n, ast.Constant) or id(n) in docs:
          continue
        else:
          v = n.value
        if isinstance(v, bytes):
          v = v.decode('latin-1')
        if isinstance(v, bool) or v is None:
          continue
        if isinstance(v, float) and v.is_integer():
          v = int(v)
        if isinstance(v, (str, int)):
          out[json.dumps(v)] += 1
  return out


def write():
  with open(FILE, 'w') as f:
    json.dump(dict(sorted(count().items())), f, indent=0)
    f.write('\n')


_new = []


def new():
  """(texts, numbers) that occur more often than they used to, in a fixed order."""
  if not _new:
    with open(FILE) as f:
      old = Counter(json.load(f))
    extra = [json.loads(k) for k in sorted(count() - old)]
    texts = []
    for x in extra:
      if isinstance(x, str):
        parts = [x] + x.split() if len(x) <= 20 else x.split()
        if 1 < len(x) <= 8 and x.strip('[]^$\\.*+?()|'):
          parts += [c for c in x]         # a set of characters, perhaps
        texts += [w for w in parts if 1 <= len(w) <= 20 and '\n' not in w]
      elif 0 <= x < 10 ** 9:
        texts.append(str(x))
    texts = sorted(dict.fromkeys(texts), key=lambda t: (len(t), t))
    _new.append((texts[:24], sorted({x for x in extra if isinstance(x, int) and x >= 0}), [x for x in extra if isinstance(x, str)]))
  return _new[0][:2]


def numbers(lo, hi):
  """New numbers in a range, and their neighbours."""
  return sorted({n + k for n in new()[1] for k in (-1, 0, 1) if lo <= n + k <= hi})


def lines(v, cap, styles=('rich', 'blank')):
  """Lines of the variant (most of them: some may be of another one, or refused) spanned by the new constants."""
  texts, nums = new()
  if not texts and not nums:
    return
  seen = set()
  for style in styles:
    for line in _lines(line_of(v, style), ref.LAYOUTS[v[1]], texts, nums):
      if line not in seen:
        seen.add(line)
        yield line
        if len(seen) >= cap:
          return


def _lines(L, fields, texts, nums):
  columns = sorted({n + k for n in nums if n < 132 for k in (-1, 0, 1) if 0 <= n + k < 132})
  if len(columns) > 12:
    columns = sorted(n for n in nums if n < 132)[:12]
  starts = [f.lo for f in fields if f.lo is not None]
  chars = [t for t in texts if len(t) == 1][:8]
  # each text at each column, and right-aligned in each field
  for t in texts:
    for c in range(133 - len(t)):
      yield put(L, c, t)
    for f in fields:
      if f.lo is not None and len(t) <= f.width:
        yield put(L, f.lo, t.rjust(f.width))
        yield put(L, f.lo, t.ljust(f.width))
        yield put(L, f.lo, t.rjust(f.width, '0'))
        yield put(L, f.lo, t.ljust(f.width, '0'))
        yield put(L, f.lo, (t * f.width)[:f.width])
  # the columns with the new numbers: all characters, and the new characters in up to three of them
  for c in columns:
    for ch in PRINTABLE:
      yield put(L, c, ch)
  few = (chars or list('A0 '))[:5]
  for k in (2, 3):
    for cs in itertools.combinations(columns[:8], k):
      for w in itertools.product(few, repeat=k):
        line = L
        for c, ch in zip(cs, w):
          line = put(line, c, ch)
        yield line
  # two texts in two fields
  for a, b in itertools.permutations(texts[:8], 2):
    for i in starts:
      for j in starts:
        if i + len(a) <= j or j + len(b) <= i:
          if i + len(a) <= 132 and j + len(b) <= 132:
            yield put(put(L, i, a), j, b)
  for t in texts[:8]:
    for i, j in itertools.combinations(starts, 2):
      if i + len(t) <= j and j + len(t) <= 132:
        yield put(put(L, i, t), j, t)
  # a new column with every other column; two new characters in any two columns
  for a in columns[:4]:
    for b in range(132):
      for x in few[:3] + [' ', '0']:
        for y in few[:3] + [' ', '0']:
          if a != b:
            yield put(put(L, a, x), b, y)
  for x, y in itertools.product(few[:3], repeat=2):
    for a, b in itertools.combinations(range(132), 2):
      yield put(put(L, a, x), b, y)


def fitting(w):
  """New texts of up to w columns; whole constants that fill the columns first."""
  texts = new()[0]
  whole = set(_new[0][2])
  return sorted((t for t in texts if len(t) <= w), key=lambda t: (t not in whole, len(t) != w, t))


def focused(v, cap):
  """The fields at the new column numbers or with the new names: every combination of the new texts in them, while all
  other fields vary too (see mc.arrays)."""
  from mc import arrays
  texts, nums = new()
  named = set(_new[0][2])
  base = Base(line_of(v))
  idx = [i for i in arrays.free(base) if base.dispatch.isdisjoint(base.fields[i].cols)
         and (base.fields[i].name in named or not set(nums).isdisjoint(base.fields[i].cols))][:6]
  if not idx or not texts:
    return
  choices = []
  for i in idx:
    f = base.fields[i]
    xs = [t.ljust(f.width) for t in fitting(f.width) if len(t) <= f.width and ref.decode(f, t.ljust(f.width), v[0]) is not ref.ERR]
    ys = [x for x in (' ' * f.width, '0' * f.width, '1'.zfill(f.width)) if ref.decode(f, x, v[0]) is not ref.ERR]
    choices.append(list(dict.fromkeys(xs[:5] + ys + [base.values[i]]))[:7])
  q = arrays.size(v)
  rows = itertools.cycle([l for l, e in itertools.islice(arrays.lines(v, 'rich', q, 2), 2000)])
  n = 0
  for xs in itertools.product(*choices):
    for line in (base.line, next(rows), next(rows)):
      for i, x in zip(idx, xs):
        line = put(line, base.fields[i].lo, x)
      yield line
      n += 1
      if n >= cap:
        return


def walk(ctx, v, cap, judge):
  for line in itertools.chain(lines(v, cap), focused(v, cap * 2)):
    judge(ctx, line, Expect.full(line))
  ctx.case = ctx.case or [['read', 'r', line_of(v)]]


def any_new():
  t, n = new()
  return bool(t or n)
