"""Controlled scheduling of real threads, for exhaustive exploration of their interleavings.

Every line (or call, or byte code instruction) that a thread executes inside the library's source is a scheduling
point.  Exactly one thread runs at a time; a schedule is a list of numbers n0, n1, ...: thread 0 runs n0 points, then
thread 1 runs n1 points, and so on in turn; after the last number the thread whose turn it is runs to its end, then the other.
"""
import gc
import sys
import threading
import types

from mc import impl

PREFIX = impl.SRC + '/'
_runs = {}         # thread ident -> (Run, number of the thread in it)


def blocked():
  """A thread found one of the library's locks taken (see mc.impl): the other one goes on.  False outside a run."""
  x = _runs.get(threading.get_ident())
  if x is None:
    return False
  run, me = x
  with run.cond:
    if len(run.alive) < 2 or run.stuck:
      return False
    run.left = None
    run._switch(me)
    run._await(me)
  return not run.stuck


impl.on_blocked = blocked


def _codes(code):
  yield code
  for c in code.co_consts:
    if hasattr(c, 'co_consts'):
      yield from _codes(c)


def _instruction(code, offset):
  x = _runs.get(threading.get_ident())
  if x is not None:
    run, me = x
    if run.where is not None:
      run.where.append((code, offset))
    run.point(me)


_monitored = []


def monitor():
  """Have every byte code instruction of the library reported.  (Tracing instructions with settrace crashes Python 3.12.3.)"""
  if _monitored:
    return
  _monitored.append(1)
  mon = sys.monitoring
  mon.use_tool_id(mon.PROFILER_ID, 'verif')
  mon.register_callback(mon.PROFILER_ID, mon.events.INSTRUCTION, _instruction)
  for f in {id(c): c for o in gc.get_objects() if isinstance(o, types.FunctionType) for c in _codes(o.__code__)}.values():
    if f.co_filename.startswith(PREFIX):
      mon.set_local_events(mon.PROFILER_ID, f, mon.events.INSTRUCTION)


class Run:
  def __init__(self, bodies, schedule, grain='line', first=0):
    self.bodies, self.schedule, self.grain = bodies, list(schedule), grain
    self.cond = threading.Condition()
    self.turn = first
    self.pos = 0
    self.left = self.schedule[0] if self.schedule else None
    self.alive = set(range(len(bodies)))
    self.points = [0] * len(bodies)
    self.results = [None] * len(bodies)
    self.stuck = False
    if grain == 'opcode':
      monitor()
    self.where = None              # a list: the place of each point is noted in it

  def _switch(self, me):
    n = len(self.bodies)
    for k in range(1, n + 1):
      t = (me + k) % n
      if t in self.alive and (t != me or n == 1):
        self.turn = t
        break
    self.cond.notify_all()

  def point(self, me):
    self.points[me] += 1
    if self.left is None:
      return
    if self.left > 0:
      self.left -= 1
      return
    with self.cond:
      if len(self.alive) < 2:
        self.left = None
        return
      self.pos += 1
      self.left = self.schedule[self.pos] if self.pos < len(self.schedule) else None
      self._switch(me)
      self._await(me)
    if self.left is not None and self.left > 0:
      self.left -= 1

  def _await(self, me):
    while self.turn != me and not self.stuck:
      before = sum(self.points)
      if not self.cond.wait(0.5) and self.turn != me and sum(self.points) == before:
        self.stuck = True          # the running thread waits for something we hold: let everybody run
        self.left = None
        self.cond.notify_all()

  def _tracer(self, me):
    point, grain = self.point, self.grain

    def local(frame, event, arg):
      if event == 'line':
        if self.where is not None:
          self.where.append((frame.f_code, frame.f_lineno))
        point(me)
      return local

    def enter(frame, event, arg):
      if frame.f_code.co_filename.startswith(PREFIX):
        if grain == 'call':
          point(me)
          return None
        return local
      return None
    return enter

  def _thread(self, me):
    _runs[threading.get_ident()] = self, me
    with self.cond:
      self._await(me)
    if self.grain != 'opcode':
      sys.settrace(self._tracer(me))
    try:
      res = ('ok', self.bodies[me]())
    except BaseException as x:
      res = ('raises', '%s: %s' % (type(x).__name__, x))
    finally:
      sys.settrace(None)
    self.results[me] = res
    _runs.pop(threading.get_ident(), None)
    with self.cond:
      self.alive.discard(me)
      # a thread that ends early forfeits the rest of its turn
      self.pos += 1
      self.left = self.schedule[self.pos] if self.pos < len(self.schedule) else None
      if len(self.alive) < 2:
        self.left = None
      self._switch(me)

  def go(self):
    ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
    for t in ts:
      t.start()
    for t in ts:
      t.join(60)
      if t.is_alive():
        return None
    return self.results


def length(body, grain='line'):
  """Number of scheduling points of a body on its own."""
  r = Run([body], [], grain)
  r.go()
  if not r.points[0]:
    raise RuntimeError('no scheduling points')
  return r.points[0], r.results[0]


def places(body, grain='line'):
  """Points of a body on its own that are the first, or the first or last, visit of their line or instruction."""
  r = Run([body], [], grain)
  r.where = []
  r.go()
  if not r.where:
    raise RuntimeError('no scheduling points')
  first, last = {}, {}
  for i, w in enumerate(r.where):
    first.setdefault(w, i)
    last[w] = i
  return sorted(first.values()), sorted(set(last.values()) | set(first.values()))
