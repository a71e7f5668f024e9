"""Sampling experiments: the reported statistics are those of the history."""
import csv
import os
import re

import jax
import matplotlib.pyplot as plt
import numpy as np

from sim import exper
from sim import lib
from sim import seams
from sim.world import Violation

SAMPLERS = [s for s in lib.sampler_cfgs()
            if s.get('approx_with_grad') is not False]
MODELS = ('bernoulli', 'ising', 'categorical', 'potts', 'fhmm', 'rbm_t',
          'bernoulli2d', 'fhmm_c')


class SpyModel:
  """The model under test; initial samples it hands out are recorded."""

  def __init__(self, real, out):
    self._real, self._out = real, out

  def get_init_samples(self, rng, num_samples):
    x = self._real.get_init_samples(rng, num_samples)
    self._out.append((int(num_samples), np.asarray(x)))
    return x

  def __getattr__(self, item):
    return getattr(self._real, item)


class LLHistory(exper.History):
  """History that also keeps the energy-evaluation counter of the state."""


def ess_reference(v):
  """Effective sample size of one scalar series; None if undecided."""
  v = np.asarray(v, np.float64)
  n = len(v)
  c = v - v.mean()
  if np.all(v == v[0]):
    return 1.0, True
  cov = np.array([np.dot(c[:n - k], c[k:]) / (n - k) for k in range(n)])
  r = cov / cov[0]
  stop = n
  sure = True
  for k in range(n):
    if abs(r[k]) < 1e-4:
      sure = False
    if r[k] < 0:
      stop = k
      break
  k = np.arange(stop)
  s = np.sum((n - k) / n * r[:stop])
  return n / (-1 + 2 * s), sure


def link(hist, length):
  """Chains of the run: array (chains, steps, dim), or None if ambiguous."""
  steps = {}
  for _, t, x, new_x, _, _ in hist.rec:
    steps.setdefault(t, []).append((x, new_x))
  if sorted(steps) != list(range(length)):
    return 'steps %s' % sorted(steps), None, None
  cur = [n for _, n in steps[0]]
  series = [[n] for _, n in steps[0]]
  hops = [sum(np.abs(x.astype(int) - n.astype(int)).sum()
              for x, n in steps[t]) for t in range(length)]
  for t in range(1, length):
    todo = list(steps[t])
    if len(todo) != len(cur):
      return 'shards %d' % len(todo), None, None
    for j in range(len(cur)):
      m = [q for q in range(len(todo))
           if np.array_equal(todo[q][0], cur[j])]
      if not m:
        return 'step %d does not continue from step %d' % (t + 1, t), None, None
      if len(m) > 1 and not all(
          np.array_equal(todo[m[0]][1], todo[q][1]) for q in m):
        return None, None, hops
      q = m[0]
      cur[j] = todo[q][1]
      series[j].append(cur[j])
      todo.pop(q)
  chains = np.concatenate([np.stack(s, 1) for s in series], 0)
  return None, chains.reshape(chains.shape[0], length, -1), hops


def match_rows(rows, chains, at):
  """Can every saved row be a chain of its own, the same at all save steps?"""
  n_rows = rows.shape[1]
  cand = [[c for c in range(len(chains))
           if np.array_equal(rows[:, r], chains[c][at])]
          for r in range(n_rows)]
  owner = {}

  def assign(r, seen):
    for c in cand[r]:
      if c in seen:
        continue
      seen.add(c)
      if c not in owner or assign(owner[c], seen):
        owner[c] = r
        return True
    return False
  return all(assign(r, set()) for r in range(n_rows))


def floats(text):
  return [float(v) for v in re.findall(
      r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', text)]


def run(w):
  name = MODELS[w.stratum('model', len(MODELS), w.index)]
  s = SAMPLERS[w.integers('sampler', len(SAMPLERS))]
  rs = np.random.RandomState(w.key('model-seed'))
  mc = lib.model_cfg(w, name, rs, True)
  dev = w.pick('devices', [1, 2, 4])
  batch = w.pick('batch', [4, 8, 12]) if dev < 4 else w.pick('batch', [4, 8])
  length = 2 * w.between('half-length', 2, 10)
  save = w.chance('save-samples', 0.6)
  est = w.chance('estimation-error', 0.6) and name.startswith('bernoulli')
  every = w.pick('save-every', [1, 2, 3])
  metrics = w.chance('metrics', 0.4)
  mode = w.pick('mode', ['jump', 'real'])
  root = lib.scratch()
  cfg = lib.config(
      mc, s, batch_size=batch, chain_length=length,
      run_parallel=dev > 1 or w.chance('ask-par', 0.3),
      save_samples=save, get_estimation_error=est, save_every_steps=every,
      get_additional_metrics=metrics,
      save_root=os.path.join(root, 'out', 'run'))
  e = cfg.experiment
  seams.Topology(w, local=dev)
  w.sample = {'model': name, 'sampler': s, 'mode': mode, 'devices': dev,
              'batch': batch, 'length': length}
  w.log('experiment', w.sample, save, est, every, metrics)
  w.probe('model:' + name)
  w.probe('devices:%d' % dev)
  hist = exper.History()
  timed = exper.Timed(w, hist)
  inits = []
  plotted = {}
  last = []
  ll = {}

  class Spy(exper.SpySampler):
    def step(self, model, rng, x, model_param, state, x_mask=None):
      out = super().step(model, rng, x, model_param, state, x_mask)
      if 'num_ll_calls' in out[1]:
        jax.debug.callback(
            lambda t, v: ll.__setitem__(int(t), float(v)), state['sim_t'],
            out[1]['num_ll_calls'])
      return out
  real_plot, real_savefig = plt.plot, plt.savefig

  def plot(*a, **k):
    last[:] = [np.asarray(v, np.float64) for v in a if not isinstance(v, str)]
    return real_plot(*a, **k)

  def savefig(path, *a, **k):
    plotted[os.path.basename(str(path))] = list(last)
  plt.plot, plt.savefig = plot, savefig
  try:
    with w.sut('sampling experiment'):
      build = lib.build_model
      lib.build_model = lambda c: SpyModel(build(c), inits)
      try:
        exper.run_main(cfg, lambda r: Spy(r, hist, mc['num_categories'],
                                          mode))
      finally:
        lib.build_model = build
  finally:
    plt.plot, plt.savefig = real_plot, real_savefig
    plt.close('all')
  w.log('history', len(hist.rec), hist.digest())
  exper.own_randomness(w, hist)
  bad, chains, hops = link(hist, length)
  w.check(bad is None, 'steps', lambda: 'the run did not take its %d steps: '
          '%s (%s)' % (length, bad, w.sample))
  out = e.save_root
  with open(os.path.join(out, 'results.csv')) as f:
    rows = list(csv.DictReader(f))
  w.check(len(rows) == 1, 'csv-rows', lambda: '%d rows' % len(rows))
  row = rows[0]
  for col, want in (('model', cfg.model.name), ('batch_size', batch),
                    ('chain_length', length), ('ess_ratio', 0.5),
                    ('num_categories', mc['num_categories'])):
    w.check(row[col] == str(want), 'csv-field',
            lambda: 'column %s is %r for a run with %r' % (
                col, row[col], want))
  w.check(s['name'] in row['sampler'], 'csv-field',
          lambda: 'sampler %r recorded as %r' % (s['name'], row['sampler']))
  burn = length // 2
  mixing = sum(dt for (_, t), dt in timed.step_time.items() if t >= burn)
  got_time = float(row['Time'])
  w.check(abs(got_time - mixing) <= 1e-6 * mixing, 'running-time',
          lambda: 'the %d steps after burn-in took %r simulated seconds, Time '
          'is %r' % (length - burn, mixing, got_time))
  ess = floats(row['ESS'])
  w.check(len(ess) == 2, 'csv-field', lambda: 'ESS is %r' % row['ESS'])
  tol = 2e-3
  for col, per in (('ESS_M-H', length - burn), ('ESS_T', mixing),
                   ('ESS_EE', 0.5 * ll.get(length - 1, 0))):
    got = floats(row[col])
    if not per:
      continue
    w.check(len(got) == 2 and all(
        abs(g - v / per) <= tol * abs(v / per) + 1e-7
        for g, v in zip(got, ess)), 'normalised-ess',
            lambda: '%s is %s, ESS %s per %r' % (col, got, ess, per))
  if hops is not None and metrics:
    for fname, data in plotted.items():
      if fname.startswith('Hops') and len(data) >= 2:
        want = np.array(hops, np.float64) / batch
        w.probe('hops')
        w.check(data[1].shape == want.shape and np.allclose(
            data[1], want, rtol=1e-4, atol=1e-5), 'hops',
                lambda: 'hops per chain were %s, reported %s' % (
                    want.tolist(), data[1].tolist()))
      if fname.startswith('Acc') and len(data) >= 2:
        w.check(len(data[1]) == length, 'acceptance', lambda: '%d acceptance '
                'ratios for %d steps' % (len(data[1]), length))
  if chains is None:
    w.probe('ambiguous-shards')
  else:
    w.check(len(chains) == batch, 'chains', lambda: '%d chains of %d' % (
        len(chains), batch))
    refs = [x.reshape(-1) for n, x in inits if n == 1]
    fits = []
    undecided = not refs
    for ref in refs:
      d = np.abs(chains[:, burn:].astype(int) - ref.astype(int)).sum(-1)
      vals = [ess_reference(c) for c in d]
      if not all(ok for _, ok in vals):
        undecided = True
        continue
      v = np.array([v for v, _ in vals])
      fits.append((float(v.mean()), float(v.std())))
    if not undecided:
      w.probe('ess-compared')
      w.check(any(abs(m - ess[0]) <= tol * abs(m) + 1e-3
                  and abs(sd - ess[1]) <= 1e-2 * abs(m) + 1e-2
                  for m, sd in fits), 'ess',
              lambda: 'the distances of the samples after burn-in to the '
              'reference sample have mean effective size and spread %s, '
              'saved %s (%s)' % (fits, ess, w.sample))
    path = os.path.join(out, 'samples.pkl')
    wants = (save and cfg.model.name in ('rbm', 'resnet')) or (
        est and cfg.model.name == 'bernoulli')
    if wants:
      at = [t for t in range(length) if (t + 1) % every == 0]
      w.check(os.path.exists(path), 'samples', 'samples were asked for and '
              'not saved')
      traj = np.asarray(exper.load_pkl(path)['trajectory'])
      w.check(len(traj) == len(at), 'samples', lambda: '%d saved steps, %d '
              'were due' % (len(traj), len(at)))
      if at:
        traj = traj.reshape(len(at), traj.shape[1], -1)
        w.probe('samples-compared')
        w.check(match_rows(traj, chains, at), 'samples',
                lambda: 'the saved samples are not the samples of fixed '
                'chains at steps %s (%s)' % ([t + 1 for t in at], w.sample))
  if est and cfg.model.name == 'bernoulli':
    with w.sut('loading params.pkl'):
      p = exper.load_pkl(os.path.join(out, 'params.pkl'))
    p = np.asarray(p['params'])
    w.check(p.shape == tuple(cfg.model.shape), 'params', lambda: 'parameters '
            'of shape %s saved for a model of shape %s' % (
                p.shape, cfg.model.shape))
  w.log('saved', row)
