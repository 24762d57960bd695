"""C12: records do not influence each other, also across threads."""
import itertools
import os
import pickle
import threading

from mc import arrays, directed, impl, sched
from mc.common import Capture, chunks, fresh, line_of, observation_diff, observe, pristine, put
from mc.engine import Ctx, Sink, Unit, Violation
from model import ref

STATES = 'distinct histories over several record objects, and distinct schedules of two threads'
BOUNDS = {
  'quick': 'all ordered pairs of the 126 variants x 2 styles; all 70 merges of the operations of two objects for 168 pairs of lines; '
           'families of ~16,000 lines (every variant x every column changed) observed in three different orders; lines with all fields varied at once (orthogonal arrays of any two fields) in three orders; 12,000 records alive at once; merges of 61 and threads with 31 pairs of lines of which one cannot be decoded or is refused; '
           'two threads reading, printing and decoding their own records: all schedules with at most one preemption at any source line, for every two variants of each record type and for related types (367 pairs of lines; one thread prints its table), in parse() for 46 pairs; with two preemptions at the first visit of every source line for 11 pairs; with one at '
           'the first visit of every byte code instruction for 61 pairs; records handed from thread to thread; one thread held at every source line while another reads 6 records, for every variant',
  'thorough': 'as quick with 4 styles, more families, two preemptions at every function call for all types and at every line for some, and one '
              'preemption at every byte code instruction for 20 pairs',
}
_base = {}


def lines_of_all():
  out = []
  for v in ref.VARIANTS:
    t = ref.TYPES[v[0]]
    for s in ('rich', 'digits', 'blank', 'letters'):
      for rt in 'ST':
        out.append(line_of(v, s, rt))
    if t.cont is not None:
      out.append(put(line_of(v), t.cont, '1'))
  return out


def must(ctx, obs, line, ops, what):
  d = observation_diff(obs, _base[line][1])
  ctx.validated += 1
  if d:
    raise Violation('%s: the %s' % (what, d), ops)


def ordered_pairs(ctx, a, styles):
  for sa in styles:
    la = line_of(a, sa)
    for b in ref.VARIANTS:
      for sb in styles:
        lb = line_of(b, sb)
        ops = [['read', 'a', la], ['decode', 'a', False], ['json', 'a', False], ['read', 'b', lb], ['decode', 'b', False],
               ['json', 'b', False], ['decode', 'a', False], ['json', 'a', False]]
        ctx.case = ops
        if ctx.track is not None:
          ctx.begin(ops)
        ctx.states += 1
        ra, rb = impl.Record(), impl.Record()
        ra.read(la)
        oa = observe(ctx, ra)
        rb.read(lb)
        ctx.transitions += 2
        must(ctx, oa, la, ops[:3], 'a new record')
        must(ctx, observe(ctx, rb), lb, ops, 'a record read after another')
        must(ctx, observe(ctx, ra), la, ops, 'a record observed after another was read')
        del ra, rb


def merges(ctx, la, lb, kinds):
  """All merges of the operations of two objects."""
  steps = kinds
  n = len(steps)
  for pos in itertools.combinations(range(2 * n), n):
    order = ['b'] * (2 * n)
    for p in pos:
      order[p] = 'a'
    objs = {'a': impl.Record(), 'b': impl.Record()}
    line = {'a': la, 'b': lb}
    done = {'a': 0, 'b': 0}
    ops = []
    for who in order:
      k = steps[done[who]]
      done[who] += 1
      r = objs[who]
      ctx.transitions += 1
      want = _base[line[who]][1]
      if k == 'read':
        ops.append(['read', who, line[who]])
        r.read(line[who])
        continue
      if k == 'json':
        ops.append(['json', who, False])
        got, w = r.json(False), want[0]
      elif k == 'status':
        ops.append(['primary', who])
        got, w = (bool(r.primary()), bool(r.hasCont())), want[2:4]
      else:
        ops.append(['decode', who, False])
        try:
          got = ('table', str(r.decode(False)))
        except ValueError as x:
          got = ('ValueError', str(x))
        w = want[6]
      ctx.validated += 1
      if got != w:
        raise Violation('%s of object %s gives %.200r; alone %.200r' % (k, who, got, w), ops)
    ctx.states += 1
    ctx.case = ops


def many(ctx):
  """Many records alive at once; each unaffected by all others."""
  rs = []
  for l in lines_of_all():
    r = impl.Record()
    r.read(l)
    ctx.transitions += 1
    rs.append((r, l))
  for order in (rs, rs[::-1]):
    for r, l in order:
      ctx.states += 1
      must(ctx, observe(ctx, r), l, [['note', 'among %d records alive' % len(rs)], ['read', 'r', l], ['json', 'r', False], ['decode', 'r', False]], 'one of many records')
  ctx.case = [['read', 'r', l]]


def crowded(ctx, n):
  """n records alive at once: each reports at the end what it reported when it had just been read."""
  lines = family('0A', ref.VARIANTS)
  rs = []
  for i in range(n):
    l = put(lines[i % len(lines)], 123, str(i % 100000).zfill(5))
    r = impl.Record()
    ok = r.read(l)
    rs.append((r, l, ok, hash((ok, observe(ctx, r)))))
    ctx.transitions += 1
  for r, l, ok, h in rs:
    ctx.states += 1
    ctx.validated += 1
    if hash((ok, observe(ctx, r))) != h:
      raise Violation('one of %d records alive at once reports something else than when it was read' % n,
                      [['note', 'among %d records alive' % n], ['read', 'r', l], ['json', 'r', False], ['decode', 'r', False]])
  ctx.case = [['read', 'r', l]]


def family(chars, which):
  """Lines related to one another: every variant, with every column set to each of the characters in turn."""
  out = []
  for v in which:
    base = line_of(v)
    for c in range(1, 123):
      for ch in chars:
        out.append(put(base, c, ch))
  return list(dict.fromkeys(out))


def in_order(lines):
  """Digest of the observation of each line, read one after the other in a separate process."""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(rfd)
      ctx = Ctx()
      out = []
      for l in lines:
        try:
          r = impl.Record()
          ok = r.read(l)
          out.append(hash((ok, observe(ctx, r))))
        except Exception as x:
          out.append(hash(repr(x)))
      with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)
    finally:
      os._exit(0)
  os.close(wfd)
  with os.fdopen(rfd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  return pickle.loads(data)


def orders(ctx, chars, which, by_column):
  lines = family(chars, which)
  n = len(lines)
  perms = [list(range(n))[::-1]]
  if by_column:
    perms.append(sorted(range(n), key=lambda i: (i % (122 * len(chars)), i)))
  same_in_orders(ctx, lines, perms)


def array_orders(ctx, v, least):
  """Lines in which all fields vary at once (see mc.arrays), also ones that cannot be decoded, in several orders."""
  q = arrays.size(v, least, True)
  lines = list(dict.fromkeys(l for k in (False, True) for l, e in arrays.lines(v, 'rich', q, 2, 0, None, k)))
  n = len(lines)
  same_in_orders(ctx, lines, [list(range(n))[::-1], sorted(range(n), key=lambda i: (i % q, i))])


def same_in_orders(ctx, lines, perms):
  n = len(lines)
  up = in_order(lines)
  for perm in perms:
    got = in_order([lines[i] for i in perm])
    ctx.states += n
    ctx.validated += n
    ctx.transitions += 6 * n
    for j, i in enumerate(perm):
      if got[j] != up[i]:
        raise Violation('what the record reports for the last line depends on records read before',
                        shrink(lines[:i], [lines[x] for x in perm[:j]], lines[i]))
  ctx.case = [['read', 'a', lines[0]], ['read', 'b', lines[-1]]]


def shrink(p1, p2, line):
  """A short history after which `line` is reported differently than when it is read first."""
  alone = in_order([line])[0]
  for p in (p1, p2):
    if in_order(p + [line])[-1] == alone:
      continue
    while len(p) > 1:
      h = len(p) // 2
      for part in (p[:h], p[h:]):
        if in_order(part + [line])[-1] != alone:
          p = part
          break
      else:
        break
    out = []
    for i, l in enumerate(p[-50:]):
      out += [['read', 'r%d' % i, l], ['decode', 'r%d' % i, False]]
    return out + [['read', 'last', line], ['json', 'last', False], ['decode', 'last', False]]
  return [['read', 'last', line]]


# ---------------------------------------------------------------- threads


def body(line, output=False):
  def run():
    r = impl.Record()
    ok = r.read(line)
    a = r.json(False), bool(r.primary()), bool(r.hasCont())
    try:
      t = ('table', str(r.decode(output)))
    except ValueError as x:
      t = ('ValueError', str(x))
    return ok, a, t
  return run


def parsing(line):
  """The one-call form, in place of a record object."""
  def run():
    try:
      return impl.lib.parse(line)
    except ValueError as x:
      return str(x)
  return run


_printed = {}


def printed(make, *args):
  """The lines that a body prints on its own, in a process of its own."""
  k = make, args
  if k not in _printed:
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        with Capture() as buf:
          res = make(*args)()
        with os.fdopen(wfd, 'wb') as f:
          pickle.dump((res, buf.getvalue().split('\n')), f)
      finally:
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as f:
      data = f.read()
    os.waitpid(pid, 0)
    _printed[k] = pickle.loads(data)
  return _printed[k]


def alone(line):
  ok, o = _base[line]
  return ok, (o[0], o[2], o[3]), o[6]


def check_run(ctx, la, lb, schedule, grain, first=0):
  """Thread 0 decodes its record with output off, thread 1 with output on."""
  run = sched.Run([body(la), body(lb, True)], schedule, grain, first)
  with Capture() as buf:
    res = run.go()
  ctx.states += 1
  ctx.validated += 1
  ctx.transitions += 10
  ops = [['note', 'two threads, each: read, json, primary, hasCont, decode of its own record'],
         ['note', 'thread 0 runs %s %s(s) in the library, then they take turns as in %s' % (
           schedule[0] if schedule else 'all', grain, schedule)], ['read', 'a', la], ['decode', 'a', False], ['read', 'b', lb], ['decode', 'b', True]]
  ctx.case = ops
  if res is None:
    raise Violation('the threads do not finish', ops)
  for who, line, r in ((0, la, res[0]), (1, lb, res[1])):
    want = alone(line)
    if r[0] != 'ok':
      raise Violation('thread %d %s %s' % (who, r[0], r[1]), ops)
    if r[1] != want:
      raise Violation('thread %d reports %.300r; alone %.300r' % (who, r[1], want), ops)
  must_print(buf, printed(body, la)[1] + printed(body, lb, True)[1], ops)
  return run


def must_print(buf, want, ops):
  """The lines printed by the threads are those that they print alone, whatever their order."""
  got = buf.getvalue().split('\n')
  if len(got) + 1 != len(want) or sorted(got + ['']) != sorted(want):
    raise Violation('the threads print %d lines; alone %d: %.200r' % (
      len(got) - 1, len(want) - 2, sorted(set(got) ^ set(want))[:3]), ops)


def one_preemption(ctx, la, lb, grain):
  """Thread 0 is interrupted after each of its points; thread 1 then runs to its end."""
  for x, y in ((la, lb), (lb, la)):
    n, _ = sched.length(body(x), grain)
    for p in range(n):
      run = check_run(ctx, x, y, [p], grain)
    # replaying a schedule gives the same run
    a = sched.Run([body(x), body(y)], [n // 2], grain)
    b = sched.Run([body(x), body(y)], [n // 2], grain)
    a.go(), b.go()
    if not (a.stuck or b.stuck) and a.points == b.points:
      ctx.outcome('replayed schedules agree')
  ctx.outcome('pairs with all single preemptions')


def two_preemptions(ctx, la, lb, grain):
  n, _ = sched.length(body(la), grain)
  m, _ = sched.length(body(lb), grain)
  for p in range(n):
    for q in range(m):
      check_run(ctx, la, lb, [p, q], grain)
  ctx.outcome('pairs with all double preemptions')


def two_by_place(ctx, la, lb, deep, part, parts):
  """Two preemptions, at the first visit (deep: and the last) of every source line that the threads pass."""
  ps, qs = sched.places(body(la))[deep], sched.places(body(lb, True))[deep]
  for p in ps[part::parts]:
    for q in qs:
      check_run(ctx, la, lb, [p, q], 'line')
  ctx.outcome('parts of pairs with double preemptions at every source line')


def instructions(ctx, la, lb):
  """One preemption at the first visit of every byte code instruction that thread 0 passes."""
  for p in sched.places(body(la), 'opcode')[0]:
    check_run(ctx, la, lb, [p], 'opcode')
  ctx.outcome('pairs with preemptions at every instruction of the source')


def crowd(ctx, vs):
  """While one thread is held at the first visit of each source line, another one reads and decodes several records."""
  n = len(ref.VARIANTS)
  for v in vs:
    k = ref.VARIANTS.index(v)
    la = line_of(v)
    lines = [line_of(v, 'digits', 'T')] + [line_of(ref.VARIANTS[(k + d) % n], s) for d, s in ((1, 'rich'), (-1, 'letters'), (40, 'rich'), (80, 'digits'))] + [line_of(v, 'letters')]
    bodies = [body(x) for x in lines]
    want = [alone(x) for x in lines]
    for p in sched.places(body(la))[1]:
      ops = [['note', 'one thread is held after %d lines in the library while another one reads and decodes %d records' % (p, len(lines))],
             ['read', 'a', la], ['decode', 'a', False]] + [x for i, l in enumerate(lines) for x in (['read', 'b%d' % i, l], ['decode', 'b%d' % i, False])]
      ctx.case = ops
      res = sched.Run([body(la), lambda: [b() for b in bodies]], [p]).go()
      ctx.states += 1
      ctx.validated += 1
      ctx.transitions += 5 * (len(lines) + 1)
      if res != [('ok', alone(la)), ('ok', want)]:
        raise Violation('the threads report %.300r; alone %.300r' % (res, (alone(la), want)), ops)


def hand_over(ctx, vs):
  """A record read in one thread and used in others, also while those have records of their own."""
  def in_thread(fn):
    out = []

    def go():
      try:
        out.append(fn())
      except BaseException as x:
        out.append('%s: %s' % (type(x).__name__, x))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]
  other = line_of(ref.VARIANTS[3], 'digits')
  for v in vs:
    for s in ('rich', 'digits', 'blank', 'letters'):
      line = line_of(v, s)
      ops = [['note', 'the record is read in one thread and observed in another'], ['read', 'r', line], ['json', 'r', False], ['decode', 'r', False]]
      ctx.case = ops

      def observed():
        q = impl.Record()
        q.read(other)
        a = observe(ctx, r)
        observe(ctx, q)
        return a, observe(ctx, r)
      r = impl.Record()
      r.read(line)
      seen = [in_thread(lambda: observe(ctx, r))]
      r = impl.Record()
      in_thread(lambda: r.read(line))
      seen.append(observe(ctx, r))
      r = in_thread(impl.Record)
      in_thread(lambda: r.read(line))
      seen += in_thread(observed)
      for o in seen:
        ctx.states += 1
        if isinstance(o, str):
          raise Violation('in another thread: ' + o, ops)
        must(ctx, o, line, ops, 'a record handed to another thread')


def parse_threads(ctx, la, lb):
  """Two threads in parse(): one preemption at every line."""
  for x, y in ((la, lb), (lb, la)):
    n, _ = sched.length(parsing(x))
    rx, px = printed(parsing, x)
    ry, py = printed(parsing, y)
    for p in range(n):
      ops = [['note', 'two threads; the first is interrupted after %d lines' % p], ['parse', x], ['parse', y]]
      ctx.case = ops
      with Capture() as buf:
        res = sched.Run([parsing(x), parsing(y)], [p]).go()
      ctx.states += 1
      ctx.validated += 1
      ctx.transitions += 2
      if res != [('ok', rx), ('ok', ry)]:
        raise Violation('parse() in two threads gives %.200r; alone %.200r' % (res, (rx, ry)), ops)
      must_print(buf, px + py, ops)


def V(ident, k=0):
  return [v for v in ref.VARIANTS if v[0] == ident][k]


KIN = (('PD', 'PE', 'PF', 'HD', 'HE', 'HF'), ('D ', 'DB', 'PN'), ('EA', 'PC', 'HC'), ('HK', 'PK'), ('HS', 'PS'), ('EV', 'HV', 'PV'), ('UC', 'UF', 'UR'),
       ('HA', 'PA'), ('ER', 'EU', 'ET'), ('PI', 'PL', 'PT', 'PM'), ('R ', 'RA'))


def thread_pairs():
  """Every two variants of one record type, and lines of related and unrelated types."""
  out = []
  ids = list(ref.TYPES)
  for i, ident in enumerate(ids):
    vs = [v for v in ref.VARIANTS if v[0] == ident]
    for j, a in enumerate(vs):
      out.append((line_of(a, 'rich'), line_of(a, 'digits', 'T')))
      for b in vs[j + 1:]:
        out.append((line_of(a, 'rich'), line_of(b, 'rich', 'T')))
    other = V(ids[(i + 7) % len(ids)])
    out.append((line_of(vs[0], 'letters'), line_of(other, 'rich')))
  for kin in KIN:
    for i, a in enumerate(kin):
      for b in kin[i + 1:]:
        out.append((line_of(V(a), 'rich'), line_of(V(b), 'rich', 'T')))
  return out


def bad_lines():
  """Lines of all types that cannot be decoded, and lines that are refused."""
  out = []
  for ident in ref.TYPES:
    for v in [v for v in ref.VARIANTS if v[0] == ident]:
      base = line_of(v)
      bad = next((l for f in ref.LAYOUTS[v[1]] if f.lo is not None and f.lo > 5 for l in [put(base, f.lo, '*' * f.width)]
                  if ref.classify(l).ok and not ref.decodable(ref.classify(l))), None)
      if bad:
        out.append((v, bad))
        break
  pa = V('PA')
  out += [(pa, put(line_of(pa), 21, '*')), (pa, line_of(pa)[:-1]), (V('EP'), put(put(line_of(V('EP')), 38, '2'), 39, '*'))]
  return out


def trouble_pairs():
  return [(bad, line_of(v, 'rich', 'T')) for v, bad in bad_lines()] + [(a, b) for (_, a), (_, b) in zip(bad_lines(), bad_lines()[1:])]


def prepare():
  _base.update(pristine(lines_of_all() + [l for _, l in bad_lines()]))


def orders_of(ctx, lines):
  """The lines in three orders, each in a process of its own."""
  n = len(lines)
  if not n:
    return
  up = in_order(lines)
  for perm in (list(range(n))[::-1], sorted(range(n), key=lambda i: (i % 37, i))):
    got = in_order([lines[i] for i in perm])
    ctx.states += n
    ctx.validated += n
    ctx.transitions += 6 * n
    for j, i in enumerate(perm):
      if got[j] != up[i]:
        raise Violation('what the record reports for the last line depends on records read before',
                        shrink(lines[:i], [lines[x] for x in perm[:j]], lines[i]))
  ctx.case = [['read', 'a', lines[0]], ['read', 'b', lines[-1]]]


def new_orders(ctx, vs):
  orders_of(ctx, [l for v in vs for l in directed.lines(v, 400)])


def counted(ctx, n):
  """n records read and decoded before this one."""
  lines = [line_of(v) for v in ref.VARIANTS[:4]]
  for what in (lines, lines[:1], [lines[0], lines[0][:-1]]):
    for i in range(n):
      l = what[i % len(what)]
      r = impl.Record()
      ok = r.read(l)
      ctx.transitions += 1
      if i >= n - 4 and l in _base:
        ctx.states += 1
        ctx.validated += 1
        must(ctx, observe(ctx, r), l, [['note', 'after %d other records' % i], ['read', 'r', l], ['json', 'r', False]], 'after %d other records' % i)
      elif ok and i % 2:
        try:
          r.decode(False)
        except ValueError:
          pass
    for l in _base:
      if l is None:
        continue
      r = impl.Record()
      r.read(l)
      ctx.states += 1
      ctx.validated += 1
      must(ctx, observe(ctx, r), l, [['note', 'after %d other records' % n], ['read', 'r', l], ['json', 'r', False]], 'after %d other records' % n)
  ctx.case = [['read', 'r', l]]


def new_units():
  us = [Unit('new constants', new_orders, c) for c in chunks(ref.VARIANTS, 9)]
  return us + [Unit('counts', counted, n) for n in directed.numbers(2, 120000)] + [Unit('counts', crowded, n) for n in directed.numbers(1000, 100000)]


def plan(tier):
  deep = tier == 'thorough'
  prepare()
  us = []
  for v in ref.VARIANTS:
    us.append(Unit('ordered pairs:%s' % v[1], ordered_pairs, v, ('rich', 'digits') if not deep else ('rich', 'digits', 'blank', 'letters')))
  ids = list(ref.TYPES)
  for i, ident in enumerate(ids):
    vs = [v for v in ref.VARIANTS if v[0] == ident]
    a = line_of(vs[0])
    for lb in (line_of(vs[0], 'digits', 'T'), line_of(vs[-1], 'rich', 'T'), line_of(V(ids[(i + 1) % 42])), line_of(V(ids[(i + 11) % 42], -1))):
      us.append(Unit('merges:%s' % ident, merges, a, lb, ('read', 'decode', 'json', 'status')))
      if deep:
        us.append(Unit('merges:%s' % ident, merges, a, lb, ('read', 'status', 'json', 'decode', 'json')))
  us.append(Unit('many', many))
  us.append(Unit('many', crowded, 50000 if deep else 12000))
  for la, lb in trouble_pairs():
    for x, y in ((la, lb), (lb, la)):
      us.append(Unit('merges with trouble', merges, x, y, ('read', 'decode', 'json', 'status')))
  prim = [v for v in ref.VARIANTS if v[2] in (None, '0')]
  for ch in ' 1ARS' if not deep else " 0123459ABCDEFHLMNPRSTVWXYZ*":
    us.append(Unit('orders', orders, ch, ref.VARIANTS, True))
  for v in ref.VARIANTS:
    us.append(Unit('orders in one variant:%s' % v[1], orders, " 0159AEHLNRSTW" if not deep else ref.PRINTABLE, [v], False))
  for v in ref.VARIANTS:
    us.append(Unit('orders, all fields at once:%s' % v[1], array_orders, v, 29 if deep else 11))
  for la, lb in thread_pairs():
    us.append(Unit('threads, one preemption', one_preemption, la, lb, 'line'))
  for la, lb in trouble_pairs()[::1 if deep else 2]:
    us.append(Unit('threads with trouble', one_preemption, la, lb, 'line'))
  for la, lb in trouble_pairs()[::1 if deep else 4]:
    us.append(Unit('threads with trouble in parse', parse_threads, la, lb))
  for la, lb in thread_pairs()[::8]:
    us.append(Unit('threads in parse', parse_threads, la, lb))
  for la, lb in thread_pairs()[1::6]:
    us.append(Unit('threads, preemption at instructions', instructions, la, lb))
  us += [Unit('threads, several records', crowd, [v]) for v in ref.VARIANTS]
  us += [Unit('handed over', hand_over, c) for c in chunks(ref.VARIANTS, 42)]
  for la, lb in thread_pairs()[2::36] if not deep else thread_pairs()[::6]:
    for k in range(4):
      us.append(Unit('threads, two preemptions', two_by_place, la, lb, deep, k, 4))
  if deep:
    for la, lb in thread_pairs():
      us.append(Unit('threads, two preemptions at calls', two_preemptions, la, lb, 'call'))
    for la, lb in thread_pairs()[::18]:
      us.append(Unit('threads, one preemption at instructions', one_preemption, la, lb, 'opcode'))
  return us
