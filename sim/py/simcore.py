"""Core of the Python side of the simulator.

One run = one list of integers. Every decision (inputs, faults, order) is drawn
through Ctx.pick; with a recorded list the run is repeated exactly.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):
  def __init__(self, oracle, detail):
    super().__init__(f'{oracle}: {detail}')
    self.oracle = oracle
    self.detail = detail


class Ctx:
  def __init__(self, seed=None, choices=None):
    self._rng = random.Random(seed) if choices is None else None
    self._given = choices
    self.choices = []
    self.log = []
    self.faults = {}
    self.counters = {}
    self.states = set()
    self.nontrivial = False
    self.simtime = 0.0
    self.scratch = None

  def pick(self, n):
    if n <= 1:
      return 0
    if self._given is not None:
      i = len(self.choices)
      v = self._given[i] % n if i < len(self._given) else 0
    else:
      v = self._rng.randrange(n)
    self.choices.append(v)
    return v

  def range(self, lo, hi):
    return lo + self.pick(hi - lo + 1)

  def chance(self, num, den):
    """True with probability num/den; 0 (what a shrunk run draws) is False."""
    return self.pick(den) >= den - num

  def one_of(self, seq):
    return seq[self.pick(len(seq))]

  def note(self, s):
    self.log.append(s)

  def fault(self, name):
    self.faults[name] = self.faults.get(name, 0) + 1
    self.log.append('FAULT ' + name)

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def state(self, s):
    self.states.add(s)

  def check(self, cond, oracle, detail):
    if not cond:
      raise Violation(oracle, detail)

  def history_hash(self):
    return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


def execute(prop, seed=None, choices=None):
  """One simulated run. Returns (ctx, violation or None)."""
  ctx = Ctx(seed, choices)
  ctx.scratch = tempfile.mkdtemp(prefix='dst_', dir=prop.scratch_root)
  try:
    prop.run(ctx)
    v = None
  except Violation as e:
    v = e
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.extract_tb(e.__traceback__)
    v = Violation('harness-error', f'{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}')
  finally:
    shutil.rmtree(ctx.scratch, ignore_errors=True)
  if v is not None:
    ctx.note(f'VIOLATION {v.oracle}')
  return ctx, v


def worker(prop, base_seed, indexes, deadline, out):
  res = {'runs': 0, 'nontrivial': 0, 'hist': [], 'states': [], 'faults': {}, 'counters': {},
         'faulty': 0, 'choices': 0, 'simtime': 0.0, 'repeated': 0, 'samples': [], 'fail': None}
  hist, states = set(), set()
  for k, i in enumerate(indexes):
    if time.time() > deadline:
      break
    seed = f'{base_seed}:{i}'
    ctx, v = execute(prop, seed=seed)
    res['runs'] += 1
    res['choices'] += len(ctx.choices)
    res['simtime'] += ctx.simtime
    h = ctx.history_hash()
    if h not in hist and ctx.nontrivial:
      res['nontrivial'] += 1
    hist.add(h)
    states |= ctx.states
    for a, b in ctx.faults.items():
      res['faults'][a] = res['faults'].get(a, 0) + b
    for a, b in ctx.counters.items():
      res['counters'][a] = res['counters'].get(a, 0) + b
    res['faulty'] += bool(ctx.faults)
    if k % 40 == 0 or v is not None:
      c2, v2 = execute(prop, choices=list(ctx.choices))
      res['repeated'] += 1
      if c2.history_hash() != h or (v is None) != (v2 is None):
        res['nondet'] = {'index': i, 'a': ctx.log[-5:], 'b': c2.log[-5:]}
        break
    if k % 400 == 0 and len(res['samples']) < 2:
      res['samples'].append(f'run {i} (seed {base_seed}): {len(ctx.choices)} choices, {sum(ctx.faults.values())} faults, '
                            f'history hash {h}; first choices: ' + ' '.join(map(str, ctx.choices[:24])))
    if v is not None:
      known = prop.known_match(v)
      if known:
        res.setdefault('known', {})[known] = res.get('known', {}).get(known, 0) + 1
        continue
      res['fail'] = {'index': i, 'choices': ctx.choices, 'oracle': v.oracle, 'detail': v.detail}
      break
  res['hist'] = sorted(hist)
  res['states'] = sorted(map(str, states))
  with open(out, 'w') as f:
    json.dump(res, f)


def minimise(prop, choices, oracle, budget_s=60):
  """Shorter and smaller choice lists with the same violated oracle."""
  t0 = time.time()
  runs = 0
  best = list(choices)

  def bad(c):
    nonlocal runs
    runs += 1
    ctx, v = execute(prop, choices=c)
    return (v is not None and v.oracle == oracle and not prop.known_match(v)), ctx

  improved = True
  while improved and time.time() - t0 < budget_s:
    improved = False
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() - t0 < budget_s:
      i = 0
      while i < len(best) and time.time() - t0 < budget_s:
        for cand in (best[:i] + best[i + size:], best[:i] + [0] * min(size, len(best) - i) + best[i + size:]):
          if cand == best:
            continue
          ok, _ = bad(cand)
          if ok:
            best = cand
            improved = True
            break
        else:
          i += size
          continue
        if i >= len(best):
          break
        i += size if best[i] == 0 else 0
      size //= 2
  while best and best[-1] == 0:
    best.pop()
  return best, runs


class Prop:
  id = ''
  level = 'exploration'
  rule = ''
  real = []
  stub = []
  quick_runs = 1000
  thorough_runs = 10000
  quick_cap = 120
  thorough_cap = 800
  assumptions = []
  known = []

  def warm_up(self):
    pass

  def run(self, ctx):
    raise NotImplementedError

  def known_match(self, v):
    for k in self.known:
      if k['oracle'] == v.oracle and k['match'] in v.detail:
        return k['text']
    return None


def load_known(path, pid):
  import re
  out = []
  if not os.path.exists(path):
    return out
  for line in open(path):
    m = re.match(r'known: property=(\S+) oracle=(\S+) match="([^"]*)" (.*)', line.strip())
    if m and m.group(1) == pid:
      out.append({'oracle': m.group(2), 'match': m.group(3), 'text': m.group(4)})
  return out


def main(prop):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('cmd')
  ap.add_argument('file', nargs='?')
  ap.add_argument('--tier', default='quick')
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--evidence')
  ap.add_argument('--known', default='')
  ap.add_argument('--replays', default='/tmp')
  ap.add_argument('--runs', type=int)
  ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
  a = ap.parse_args()
  prop.known = load_known(a.known, prop.id)
  root = tempfile.mkdtemp(prefix='dstpy_')
  prop.scratch_root = root
  try:
    rc = _main(prop, a, root)
  finally:
    shutil.rmtree(root, ignore_errors=True)
  sys.stdout.flush()
  os._exit(rc)


def _main(prop, a, root):
  t0 = time.time()
  prop.warm_up()
  if a.cmd == 'replay':
    rep = json.load(open(a.file))
    ctx, v = execute(prop, choices=rep['choices'])
    for line in ctx.log:
      print(line)
    if v is None:
      print('the replay file reproduces no violation')
      return 0
    print(f'{v.oracle}: {v.detail}')
    print(f'VIOLATION property={prop.id} replay={a.file}')
    return 1
  total = a.runs or (prop.quick_runs if a.tier == 'quick' else prop.thorough_runs)
  deadline = time.time() + (prop.quick_cap if a.tier == 'quick' else prop.thorough_cap)
  pids = []
  for j in range(a.jobs):
    pid = os.fork()
    if pid == 0:
      try:
        worker(prop, a.seed, range(j, total, a.jobs), deadline, f'{root}/w{j}.json')
        os._exit(0)
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        os._exit(9)
    pids.append(pid)
  dead = 0
  for pid in pids:
    _, st = os.waitpid(pid, 0)
    dead += st != 0
  if dead:
    print('a worker of the simulator died', file=sys.stderr)
    return 3
  rs = [json.load(open(f'{root}/w{j}.json')) for j in range(a.jobs)]
  for r in rs:
    if 'nondet' in r:
      print('a run did not repeat exactly:', r['nondet'], file=sys.stderr)
      return 3
  merge = lambda k: {x: sum(r[k].get(x, 0) for r in rs) for x in sorted({y for r in rs for y in r[k]})}
  fails = sorted((r['fail'] for r in rs if r['fail']), key=lambda f: f['index'])
  mruns = 0
  rc = 0
  nviol = 0
  if fails:
    f = fails[0]
    best, mruns = minimise(prop, f['choices'], f['oracle'])
    ctx, v = execute(prop, choices=best)
    if v is None:
      best = f['choices']
      ctx, v = execute(prop, choices=best)
    if v is None:
      print('a failure did not reproduce', f, file=sys.stderr)
      return 3
    os.makedirs(a.replays, exist_ok=True)
    h = hashlib.sha256(json.dumps(best).encode()).hexdigest()[:16]
    path = f'{a.replays}/{prop.id}_{h}.json'
    json.dump({'property': prop.id, 'seed': a.seed, 'run': f['index'], 'oracle': v.oracle, 'detail': v.detail,
               'choices': best, 'original_choices': f['choices'], 'trace': ctx.log,
               'replay_with': f'./run_check.sh {prop.id} replay {path}'}, open(path, 'w'), indent=1)
    print(f'{v.oracle}: {v.detail}')
    for line in ctx.log:
      print('  ' + line)
    print(f'VIOLATION property={prop.id} replay={path}')
    rc = 1
    nviol = 1
  known = {}
  for r in rs:
    for k, n in r.get('known', {}).items():
      known[k] = known.get(k, 0) + n
  for k in prop.known:
    print(f'KNOWN-FINDING: property={prop.id} {k["text"]}')
  wall = time.time() - t0
  n = sum(r['runs'] for r in rs)
  hist = {h for r in rs for h in r['hist']}
  ev = {
      'property': prop.id, 'tier': a.tier, 'seed': a.seed, 'level': prop.level,
      'coverage': {
          'evaluations': n,
          'distinct_nontrivial': min(sum(r['nontrivial'] for r in rs), len(hist)),
          'rule': prop.rule,
          'samples': [s for r in rs for s in r['samples']][:6],
          'simulated_runs': n,
          'seeds_per_hour': int(n / wall * 3600) if wall else 0,
          'run_indexes': f'0..{total - 1} of base seed {a.seed}',
          'simulated_audio_seconds': round(sum(r['simtime'] for r in rs), 1),
          'scheduler_choices': sum(r['choices'] for r in rs),
          'distinct_histories': len(hist),
          'distinct_states': len({s for r in rs for s in r['states']}),
          'runs_with_faults': sum(r['faulty'] for r in rs),
          'faults_injected': merge('faults'),
          'counters': merge('counters'),
          'repeated_for_determinism': sum(r['repeated'] for r in rs),
          'minimisation_runs': mruns,
          'known_findings_seen': known,
          'real_components': prop.real,
          'stub_components': prop.stub,
      },
      'assumptions': prop.assumptions,
      'wall_s': round(wall, 2),
      'violations': nviol,
  }
  if a.evidence:
    json.dump(ev, open(a.evidence, 'w'), indent=1)
  print(f'{prop.id}: {n} runs, {len(hist)} histories, {sum(ev["coverage"]["faults_injected"].values())} faults, {wall:.1f} s')
  return rc
