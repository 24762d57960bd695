"""Exhaustive exploration engine.

A property module gives a plan: a list of units, each a function that walks one
slice of a finite space and raises Violation at the first member on which the
implementation disagrees with the property.  Units run on all cores in forked
workers; the parent adds up what they covered.  A worker that dies (the code
under check ended the process) or a unit that hangs is itself a violation once
the offending case has been confirmed on its own.
"""
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, 'evidence')


class Violation(Exception):
  def __init__(self, what, ops=(), key=None):
    Exception.__init__(self, what)
    self.what, self.ops, self.key = what, list(ops), key


class Sink:
  """Discards what the library prints while it is not being observed."""
  encoding = 'utf-8'

  def write(self, s):
    return len(s)

  def flush(self):
    pass

  def isatty(self):
    return False


class Ctx:
  def __init__(self):
    self.states = 0        # distinct inputs, histories or schedules walked
    self.transitions = 0   # calls made into the implementation
    self.validated = 0     # executions whose result was compared with the model
    self.outcomes = {}     # outcome class -> count
    self.samples = []
    self.known = set()     # keys of known findings seen
    self.case = None       # ops of the case under way, for hangs and deaths
    self.track = None      # file descriptor to note each case in (rerun after a death)

  def begin(self, ops):
    self.case = ops
    if self.track is not None:
      os.pwrite(self.track, json.dumps(ops).encode().ljust(1), 0)
      os.ftruncate(self.track, len(json.dumps(ops).encode()))

  def outcome(self, o):
    self.outcomes[o] = self.outcomes.get(o, 0) + 1

  def sample(self, s):
    if len(self.samples) < 2:
      self.samples.append(s)


class Unit:
  def __init__(self, name, fn, *args):
    self.name, self.fn, self.args = name, fn, args


class Hang(BaseException):
  pass


class Watch:
  """Ends a unit that has stopped making progress."""

  def __init__(self, ctx):
    self.ctx, self.seen, self.since = ctx, None, time.time()
    signal.signal(signal.SIGALRM, self.tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)

  def tick(self, sig, frm):
    now = self.ctx.states, self.ctx.transitions, self.ctx.validated
    if now != self.seen:
      self.seen, self.since = now, time.time()
    elif time.time() - self.since > STALL_LIMIT:
      raise Hang()


def _from_library(e):
  from mc import impl
  tb = e.__traceback__
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(impl.SRC + os.sep):
      return True
    tb = tb.tb_next
  return False


STALL_LIMIT = 100
CASE_LIMIT = 20


def _run_unit(unit, known, track=None):
  ctx = Ctx()
  ctx.track = track
  ctx.known_keys = known
  sys.stdout = Sink()
  Watch(ctx)
  res = {'v': None}
  try:
    unit.fn(ctx, *unit.args)
  except Violation as v:
    res['v'] = {'what': v.what, 'ops': v.ops, 'key': v.key}
  except Hang as e:
    res['hang'] = ctx.case
    res['inside'] = _from_library(e)
  except (KeyboardInterrupt, SystemExit) as e:
    res['v'] = {'what': 'the library ended the process (%s)' % type(e).__name__, 'ops': ctx.case, 'key': None}
  except BaseException as e:
    if _from_library(e):
      res['v'] = {'what': 'raises %s: %s' % (type(e).__name__, e), 'ops': ctx.case, 'key': None}
    else:
      res['error'] = traceback.format_exc()
      res['case'] = ctx.case
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.stdout = sys.__stdout__
  if not ctx.samples and ctx.case is not None:
    ctx.samples.append({'unit': unit.name, 'calls': ctx.case})
  res.update(states=ctx.states, transitions=ctx.transitions, validated=ctx.validated, outcomes=ctx.outcomes,
             samples=ctx.samples, known=sorted(ctx.known))
  return res


def _die_with_parent():
  try:
    import ctypes
    ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL, 0, 0, 0)
  except (OSError, AttributeError):
    pass


def _isolated(unit, known):
  """Run the unit in a process of its own, forked from one that has not used the library."""
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      _die_with_parent()
      os.close(rfd)
      res = _run_unit(unit, known)
      with os.fdopen(wfd, 'wb') as f:
        f.write(pickle.dumps(res))
    finally:
      os._exit(0)
  os.close(wfd)
  with os.fdopen(rfd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  try:
    return pickle.loads(data)
  except (EOFError, pickle.UnpicklingError):
    return {'dead': True, 'v': None}


def _worker(units, nxt, stop, conn, known, deadline):
  try:
    _die_with_parent()
    while not stop.value and time.time() < deadline:
      with nxt.get_lock():
        i = nxt.value
        nxt.value += 1
      if i >= len(units):
        break
      res = _isolated(units[i], known)
      conn.send((i, res))
      if res['v']:
        stop.value = 1
  except BaseException:
    os._exit(3)
  os._exit(0)


def _rerun_dead(unit, known):
  """A worker died in this unit: find the case on which it dies, on its own."""
  path = os.path.join(EVIDENCE, 'case-%d.tmp' % os.getpid())
  fd = os.open(path, os.O_CREAT | os.O_RDWR | os.O_TRUNC)
  pid = os.fork()
  if pid == 0:
    try:
      _run_unit(unit, known, fd)
    finally:
      os._exit(77)
  _, st = os.waitpid(pid, 0)
  data = os.pread(fd, 1 << 20, 0)
  os.close(fd)
  os.unlink(path)
  if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
    return None
  try:
    return json.loads(data.decode())
  except ValueError:
    return []


def _hangs(ops):
  """Does this case alone run for longer than CASE_LIMIT?"""
  pid = os.fork()
  if pid == 0:
    sys.stdout = Sink()
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(CASE_LIMIT)
    try:
      from mc import replay
      replay.perform(ops, quiet=True)
    except BaseException:
      pass
    os._exit(0)
  _, st = os.waitpid(pid, 0)
  return os.WIFSIGNALED(st)


def run(prop, tier, plan, known, budget):
  """Run all units.  Returns a result dict."""
  t0 = time.time()
  units = plan
  n = min(int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 1), max(1, len(units)))
  nxt, stop = mp.Value('i', 0), mp.Value('i', 0)
  deadline = t0 + budget
  procs = []
  ctxm = mp.get_context('fork')
  for _ in range(n):
    a, b = ctxm.Pipe(False)
    p = ctxm.Process(target=_worker, args=(units, nxt, stop, b, known, deadline))
    p.start()
    b.close()
    procs.append([p, a])
  tot = {'states': 0, 'transitions': 0, 'validated': 0, 'outcomes': {}, 'samples': [], 'known': set()}
  done, violation, errors, by_unit = 0, None, [], {}
  from multiprocessing.connection import wait
  live = {x[1] for x in procs}
  while live and violation is None:
    for conn in wait(list(live)):
      try:
        m = conn.recv()
      except EOFError:
        live.discard(conn)
        continue
      if True:
        res = m[1]
        unit = units[m[0]]
        if res.get('dead'):
          ops = _rerun_dead(unit, known)
          if ops is None:
            errors.append('process died in unit %s but the unit completes on its own' % unit.name)
          elif violation is None:
            violation = {'what': 'the library ended the process', 'ops': ops, 'key': None, 'unit': unit.name}
            stop.value = 1
          continue
        for k in ('states', 'transitions', 'validated'):
          tot[k] += res[k]
        for k, c in res['outcomes'].items():
          tot['outcomes'][k] = tot['outcomes'].get(k, 0) + c
        tot['samples'] += res['samples'][:2]
        tot['known'] |= set(res['known'])
        g = by_unit.setdefault(units[m[0]].name.split(':')[0], [0, 0])
        g[0] += 1
        g[1] += res['states']
        if res.get('v'):
          if violation is None:
            violation = dict(res['v'], unit=units[m[0]].name)
        elif 'hang' in res:
          if res['hang'] is not None and (res.get('inside') or _hangs(res['hang'])):
            if violation is None:
              violation = {'what': 'does not terminate', 'ops': res['hang'], 'key': None, 'unit': units[m[0]].name}
              stop.value = 1
          else:
            pass      # slow, not stuck: the unit counts as not completed
        elif 'error' in res:
          errors.append('unit %s: %s (case %r)' % (units[m[0]].name, res['error'], res.get('case')))
        else:
          done += 1
  for p, _ in procs:
    if violation is not None:
      p.kill()
    p.join()
  tot['samples'] = _pick(tot['samples'], 8)
  return dict(tot, units=len(units), done=done, violation=violation, errors=errors, by_unit=by_unit,
              wall=time.time() - t0)


def _pick(xs, n):
  if len(xs) <= n:
    return xs
  step = len(xs) / n
  return [xs[int(i * step)] for i in range(n)]
