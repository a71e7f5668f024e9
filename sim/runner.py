"""Seeded search over simulated runs of one property, on all cores."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

from sim import world as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def worker_env(meta):
  env = dict(os.environ)
  env.update(
      HOME=env.get('HOME', '/root'), LANG='C.UTF-8',
      PYTHONDONTWRITEBYTECODE='1',
      PYTHONHASHSEED=os.environ.get('SIM_HASHSEED', '0'),
      PYTHONNOUSERSITE='1', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
      TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg', HF_HUB_OFFLINE='1',
      TRANSFORMERS_OFFLINE='1', TF_ENABLE_ONEDNN_OPTS='0',
      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TQDM_DISABLE='1',
      PYTHONPATH=ROOT)
  flags = '--xla_backend_optimization_level=1 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
  if meta.get('devices', 1) > 1:
    flags = ('--xla_force_host_platform_device_count=%d ' % meta['devices']
             + flags)
  env['XLA_FLAGS'] = flags
  return env


class WorkerDied(Exception):
  pass


class Worker:
  """One worker process."""

  def __init__(self, prop, meta, limit):
    self.args = (prop, meta, limit)
    self.proc = None
    self.ready = None

  def start(self):
    prop, meta, limit = self.args
    self.proc = subprocess.Popen(
        [PY, '-m', 'sim.worker', prop, str(limit)], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, env=worker_env(meta), text=True, cwd=ROOT,
        stderr=None if os.environ.get('SIM_DEBUG') else subprocess.DEVNULL,
        start_new_session=True)
    line = self.proc.stdout.readline()
    if not line:
      raise WorkerDied('worker died while importing')
    self.ready = json.loads(line)

  def run(self, job, hard=600):
    if self.proc is None:
      self.start()
    if not self.ready['ready']:
      raise WorkerDied('import failed:\n' + self.ready['msg'])
    timer = threading.Timer(hard, self.kill)
    timer.start()
    try:
      try:
        self.proc.stdin.write(json.dumps(job) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
      except OSError as e:
        line = ''
    finally:
      timer.cancel()
    if not line:
      rc = self.proc.wait()
      self.proc = None
      raise WorkerDied('worker ended with %s during run %s' % (
          rc, job.get('index')))
    return json.loads(line)

  def kill(self):
    if self.proc is not None and self.proc.poll() is None:
      try:
        os.killpg(self.proc.pid, 9)
      except OSError:
        pass

  def close(self):
    if self.proc is not None:
      try:
        self.proc.stdin.close()
      except OSError:
        pass
      try:
        self.proc.wait(3)
      except subprocess.TimeoutExpired:
        self.kill()
        self.proc.wait()
      self.proc = None


class Pool:
  """Workers executing jobs; a worker is replaced after dying once."""

  def __init__(self, prop, meta, n, limit):
    self.prop, self.meta, self.limit = prop, meta, limit
    self.workers = queue.Queue()
    self.all = []
    self.n = n
    for _ in range(n):
      wk = Worker(prop, meta, limit)
      self.all.append(wk)
      self.workers.put(wk)
    self.ex = cf.ThreadPoolExecutor(n)

  def _do(self, job):
    wk = self.workers.get()
    try:
      for attempt in (0, 1):
        try:
          return wk.run(job)
        except WorkerDied as e:
          msg = str(e)
          wk.close()
          if 'import failed' in msg:
            break
          wk.proc = None
      return {'status': 'error', 'msg': msg, 'index': job.get('index'),
              'choices': [], 'faults': {}, 'probes': {}, 'digest': '',
              'sim_time': 0, 'n_events': 0, 'sample': {}, 'checks': 0,
              'wall': 0, 'events': []}
    finally:
      self.workers.put(wk)

  def submit(self, job):
    return self.ex.submit(self._do, job)

  def close(self):
    self.ex.shutdown(wait=True, cancel_futures=True)
    for wk in self.all:
      wk.close()


def known_findings(prop):
  path = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    data = json.load(f)
  return [k for k in data.get('known', []) if k['property'] == prop]


def is_known(known, res):
  for k in known:
    if k.get('kind') == res.get('kind') and k.get('contains', '\0') in res.get(
        'msg', ''):
      return k
  return None


def minimise(pool, prop, res, budget_s, tier):
  """Shrinks the choice sequence while the same kind of violation persists."""
  t0 = time.monotonic()
  best = [c[1] for c in res['choices']]
  best_res = res
  kind = res['kind']
  tried = set()
  n_tests = 0

  def cost(vals):
    while vals and vals[-1] == 0:
      vals = vals[:-1]
    return (len(vals), sum(1 for v in vals if v), sum(vals))

  def trim(vals):
    vals = list(vals)
    while vals and vals[-1] == 0:
      vals.pop()
    return vals

  def candidates(cur):
    cur = trim(cur)
    n = len(cur)
    out = []
    size = n // 2
    while size >= 1:
      out.append(cur[:n - size])
      size //= 2
    size = max(1, n // 2)
    while size >= 1:
      for i in range(0, n, size):
        if any(cur[i:i + size]):
          out.append(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:])
        out.append(cur[:i] + cur[i + size:])
      if size == 1:
        break
      size //= 2
    for i in range(n):
      if cur[i] > 1:
        out.append(cur[:i] + [1] + cur[i + 1:])
        out.append(cur[:i] + [cur[i] // 2] + cur[i + 1:])
        out.append(cur[:i] + [cur[i] - 1] + cur[i + 1:])
    return out

  best = trim(best)
  improved = True
  while improved and time.monotonic() - t0 < budget_s:
    improved = False
    cands = []
    for c in candidates(best):
      c = trim(c)
      key = tuple(c)
      if key in tried or cost(c) >= cost(best):
        continue
      tried.add(key)
      cands.append(c)
    for i in range(0, len(cands), pool.n):
      if time.monotonic() - t0 > budget_s:
        break
      futs = [(c, pool.submit({'script': c, 'tier': tier,
                               'index': res['index']}))
              for c in cands[i:i + pool.n]]
      hit = None
      for c, f in futs:
        r = f.result()
        n_tests += 1
        if hit is None and r['status'] == 'violation' and r['kind'] == kind:
          hit = (c, r)
      if hit is not None:
        best, best_res = hit
        improved = True
        break
  return best, best_res, n_tests


def write_replay(prop, seed, tier, res, script, extra):
  d = os.path.join(ROOT, 'replays')
  os.makedirs(d, exist_ok=True)
  name = '%s-%s.json' % (prop, hashlib.sha256(
      json.dumps(script).encode()).hexdigest()[:12])
  path = os.path.join(d, name)
  with open(path, 'w') as f:
    json.dump({
        'property': prop, 'verif_seed': seed, 'tier': tier,
        'run_index': res['index'], 'script': script,
        'violation': {'kind': res['kind'], 'message': res['msg']},
        'digest': res['digest'], 'choices': res['choices'],
        'faults': res['faults'], 'events': res['events'], **extra,
    }, f, indent=1)
  return path


def determinism(mod, prop, meta, seed, n, tier, n_runs):
  """Runs seeds twice, at several worker counts and another hash seed."""
  bad = 0
  first = {}
  for rnd, (workers, hashseed) in enumerate(
      [(8, '0'), (3, '0'), (8, '12345'), (1, '7')]):
    os.environ['SIM_HASHSEED'] = hashseed
    pool = Pool(prop, meta, workers, 150)
    m = n if workers > 1 else max(1, n // 8)
    futs = [pool.submit({'seed': W.run_seed(seed, prop, i), 'index': i,
                         'tier': tier}) for i in range(m)]
    for i, f in enumerate(futs):
      r = f.result()
      d = (r['status'], r['digest'], r['choices'], r.get('kind'))
      if r['status'] == 'error':
        print('run', i, 'error', r['msg'][-800:])
        bad += 1
      if i in first and first[i] != d:
        bad += 1
        print('run', i, 'diverged in round', rnd, d[0], first[i][0])
      first.setdefault(i, d)
    pool.close()
  print('determinism %s: %d runs x rounds, %d divergences' % (prop, n, bad))
  return bad


def main(argv=None):
  p = argparse.ArgumentParser()
  p.add_argument('prop')
  p.add_argument('--tier', default=None)
  p.add_argument('--runs', type=int, default=0)
  p.add_argument('--start', type=int, default=0)
  p.add_argument('--workers', type=int, default=8)
  p.add_argument('--replay')
  p.add_argument('--determinism', type=int, default=0)
  p.add_argument('--no-minimise', action='store_true')
  p.add_argument('--keep-going', action='store_true')
  p.add_argument('-v', action='store_true')
  a = p.parse_args(argv)
  prop = a.prop
  tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  sys.path.insert(0, ROOT)
  meta_mod = importlib.import_module('sim.meta')
  meta = meta_mod.META[prop]

  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    pool = Pool(prop, meta, 1, 150)
    r = pool.submit({'script': rep['script'], 'index': rep['run_index'],
                     'tier': rep['tier']}).result()
    pool.close()
    same = (r['status'] == 'violation'
            and r['kind'] == rep['violation']['kind']
            and r['digest'] == rep['digest'])
    print(r['status'], r.get('kind'), r.get('msg'))
    print('reproduced exactly' if same else 'differs from the recorded run')
    if r['status'] == 'violation':
      print('VIOLATION property=%s replay=%s' % (prop, a.replay))
      return 1
    return 0 if r['status'] == 'ok' else 2

  n_runs = a.runs or meta['runs'][tier]
  if a.determinism:
    return 1 if determinism(None, prop, meta, seed, a.determinism, tier,
                            n_runs) else 0

  t0 = time.monotonic()
  cap = float(os.environ.get('SIM_WALL', meta.get('wall', {}).get(
      tier, 600 if tier == 'quick' else 3 * 3600)))
  pool = Pool(prop, meta, min(a.workers, n_runs), meta.get('limit', 150))
  print('property %s tier=%s seed=%d runs=%d' % (prop, tier, seed, n_runs),
        flush=True)
  known = known_findings(prop)
  seen_known = {}
  futs = {}
  agg = {'faults': {}, 'probes': {}, 'sim_time': 0.0, 'events': 0,
         'checks': 0}
  digests, samples, walls = set(), [], []
  done = 0
  error = None
  viol = None
  stop = threading.Event()

  def job(i):
    if stop.is_set() or time.monotonic() - t0 > cap:
      return None
    return pool._do({'seed': W.run_seed(seed, prop, i), 'index': i,  # pylint: disable=protected-access
                     'tier': tier})

  futs = [pool.ex.submit(job, i) for i in range(a.start, a.start + n_runs)]
  skipped = 0
  for i, f in enumerate(futs):
    r = f.result()
    if r is None:
      skipped += 1
      continue
    done += 1
    if a.v:
      print(i + a.start, r['status'], r.get('kind', ''),
            (r.get('msg') or '')[:600 if r['status'] != 'ok' else 0],
            '%.1fs' % r['wall'], json.dumps(r['sample'])[:200], flush=True)
    agg['sim_time'] += r['sim_time']
    agg['events'] += r['n_events']
    agg['checks'] += r['checks']
    walls.append(r['wall'])
    for part in ('faults', 'probes'):
      for k, v in r[part].items():
        agg[part][k] = agg[part].get(k, 0) + v
    if r['status'] == 'ok':
      if r['checks']:
        digests.add(r['digest'])
      if len(samples) < 5 and r['sample']:
        samples.append({'run': r['index'], **r['sample']})
      continue
    if r['status'] == 'error':
      if error is None:
        error = r
      if not a.keep_going and viol is None and 'import failed' in r['msg']:
        stop.set()
      continue
    k = is_known(known, r)
    if k is not None:
      seen_known[k['id']] = k
      continue
    if viol is None:
      viol = r
      if not a.keep_going:
        stop.set()
  for k in known:
    if k['id'] in seen_known or k.get('always'):
      print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

  rc = 0
  replay = None
  n_viol = 0
  if viol is not None:
    script = [c[1] for c in viol['choices']]
    res, tests = viol, 0
    if not a.no_minimise and viol['kind'] != 'hang':
      script, res, tests = minimise(
          pool, prop, viol, 60 if tier == 'quick' else 300, tier)
    pool.close()
    # Replay in a fresh process: it must fail the same way.
    pool = Pool(prop, meta, 1, meta.get('limit', 150))
    conf = pool.submit({'script': script, 'index': viol['index'],
                        'tier': tier}).result()
    if conf['status'] == 'violation' and conf['kind'] == res['kind'] and (
        conf['digest'] == res['digest'] or res['kind'] == 'hang'):
      replay = write_replay(prop, seed, tier, conf, script, {
          'original_choices': len(viol['choices']),
          'minimised_choices': len(script), 'minimiser_runs': tests,
          'original_seed': W.run_seed(seed, prop, viol['index'])})
      print('violation: %s: %s' % (conf['kind'], conf['msg']))
      print('seed %d (run %d); minimised from %d to %d choices in %d runs' % (
          W.run_seed(seed, prop, viol['index']), viol['index'],
          len(viol['choices']), len(script), tests))
      print('VIOLATION property=%s replay=%s' % (prop, replay))
      rc, n_viol = 1, 1
    else:
      print('harness error: a violation did not replay: %s / %s' % (
          (res['kind'], res['msg'], res['digest']),
          (conf['status'], conf.get('kind'), conf.get('msg'),
           conf['digest'])))
      rc = 2
  elif error is not None:
    print('harness error in run %s: %s' % (error['index'], error['msg']))
    rc = 2
  elif done < n_runs * meta.get('min_fraction', 0.3):
    print('harness error: only %d of %d runs fit in %.0f s' % (
        done, n_runs, cap))
    rc = 2
  pool.close()
  wall = time.monotonic() - t0
  ev = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
      'coverage': {
          'evaluations': done,
          'distinct_nontrivial': len(digests),
          'rule': meta['rule'],
          'samples': samples or [{'note': 'no completed run'}],
          'seeds_per_hour': round(done / max(wall, 1e-9) * 3600),
          'simulated_seconds': round(agg['sim_time'], 3),
          'simulated_events': agg['events'],
          'oracle_checks': agg['checks'],
          'faults_injected': agg['faults'],
          'probes': agg['probes'],
          'runs_skipped_at_wall_cap': skipped,
          'distinct_measure': 'SHA-256 of the event log of the run (schedule,'
                              ' faults, observed behaviour)',
          'real_components': meta['real'],
          'stubbed_components': meta['stub'],
      },
      'assumptions': meta['assumptions'],
      'wall_s': round(wall, 2),
      'violations': n_viol,
  }
  if replay:
    ev['coverage']['replay'] = replay
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s: %d runs, %d distinct, %d checks, faults %s, %.1f s' % (
      prop, done, len(digests), agg['checks'], agg['faults'], wall))
  return rc


if __name__ == '__main__':
  sys.exit(main())
