#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property on the current tree of /repo."""
import argparse
import importlib
import json
import os
import re
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
args = ap.parse_args()
TIER = args.tier or os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PROP = args.property

from mc import directed, engine, impl, replay  # noqa: E402
from model import ref  # noqa: E402


def known_findings():
  out = {}
  with open(os.path.join(HERE, 'known-findings.txt')) as f:
    for line in f:
      m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$', line.rstrip('\n'))
      if m and m.group(1) == PROP:
        out[m.group(2)] = m.group(3)
  return out


def title():
  with open(os.path.join(HERE, 'properties.jsonl')) as f:
    for line in f:
      d = json.loads(line)
      if d['id'] == PROP:
        return d['title']
  raise SystemExit('unknown property %s' % PROP)


def main():
  t0 = time.time()
  name = title()
  known = known_findings()
  os.makedirs(engine.EVIDENCE, exist_ok=True)
  impl.load()
  mod = importlib.import_module('mc.props.' + PROP.lower())
  plan = mod.plan(TIER)
  if directed.any_new():
    # constants the source did not have when this was written: a deeper look around them, first
    extra = mod.new_units() if hasattr(mod, 'new_units') else []
    if hasattr(mod, 'new_line'):
      extra += [engine.Unit('new constants:%s' % v[1], directed.walk, v, mod.NEW_CAP, mod.new_line) for v in ref.VARIANTS]
    plan = extra + plan
  only = os.environ.get('VERIF_UNIT')
  if only:
    plan = [u for u in plan if re.search(only, u.name)]
  budget = float(os.environ.get('VERIF_BUDGET', '0')) or (600 if TIER == 'quick' else 3600)
  res = engine.run(PROP, TIER, plan, known, budget)
  complete = res['done'] == res['units']
  v = res['violation']
  ev = {
    'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
    'coverage': {
      'states': res['states'], 'transitions': res['transitions'],
      'traces_validated_against_impl': res['validated'],
      'samples': res['samples'] or ['none'],
      'exhaustive': complete,
      'bounds': mod.BOUNDS[TIER] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
      'what_states_are': mod.STATES,
      'outcomes': res['outcomes'],
      'spaces': {k: {'units': a, 'states': b} for k, (a, b) in res['by_unit'].items()},
      'units_planned': res['units'], 'units_completed': res['done'],
      'conformance': 'every state is executed on the implementation in /repo/src itself; each result is compared '
                     'with the reference model in /verif/model (%s table rendering)' % (
                       'stand-in, self-tested against real' if impl.fast else 'real'),
    },
    'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    'wall_s': round(time.time() - t0, 2),
    'violations': 1 if v else 0,
  }
  if res['errors']:
    ev['coverage']['errors'] = res['errors'][:5]
  with open(os.path.join(engine.EVIDENCE, PROP + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
    f.write('\n')
  for k in sorted(res['known']):
    print('KNOWN-FINDING: property=%s %s' % (PROP, known[k]))
  print('%s %s: %d states, %d transitions, %d compared, %d/%d units, %.1f s%s' % (
    PROP, TIER, res['states'], res['transitions'], res['validated'], res['done'], res['units'],
    time.time() - t0, '' if impl.fast else ' (real tables)'))
  if v:
    path = replay.write(os.path.join(engine.EVIDENCE, 'replay'), PROP, name, '%s [%s]' % (v['what'], v['unit']), v['ops'])
    print('  unit: %s' % v['unit'])
    print('  %s' % ascii(v['what']))
    if v.get('key'):
      print('  key=%s' % v['key'])
    print('VIOLATION property=%s replay=%s' % (PROP, path))
    return 1
  if res['errors']:
    for e in res['errors'][:5]:
      print(e, file=sys.stderr)
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
