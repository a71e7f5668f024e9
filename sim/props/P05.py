"""Combinatorial runs: the saved records are the best of the history."""
import os

import numpy as np

from sim import exper
from sim import lib
from sim import seams
from sim.world import Violation

SAMPLERS = [s for s in lib.sampler_cfgs()
            if s.get('approx_with_grad') is not False]


def draw(w, multi=False, devices=(1,)):
  """Draws a whole combinatorial experiment."""
  kind = exper.KINDS[w.stratum('kind', len(exper.KINDS), w.index)]
  dev = w.pick('devices', devices)
  parallel = dev > 1
  if kind == 'nets':
    n_inst = models = 1
  elif multi:
    n_inst = w.between('instances', 1, 6)
    models = w.between('num_models', 1, 5)
    if parallel and models >= dev:
      models = models // dev * dev
  else:
    n_inst = w.between('instances', 1, 4)
    models = n_inst + w.integers('padding', 3)
  mc, prob, root = exper.make_problem(w, kind, n_inst)
  n_inst = len(prob.graphs)
  if w.chance('known-sizes', 0.4) or kind == 'gap_rand':
    mc['max_num_nodes'] = max(len(g) for g in prob.graphs) + (
        0 if kind in ('gap_rand', 'nets') else w.integers('extra-nodes', 2))
    mc['max_num_edges'] = max(
        g.number_of_edges() for g in prob.graphs) + w.integers(
            'extra-edges', 2)
    mc['num_instances'] = n_inst
  if mc['name'] == 'normcut':
    prob.penalty = mc['penalty'] = w.pick('penalty', [0.0005, 1.0, 0.0])
    prob.stype = mc['stype'] = w.pick('stype', ['span', 'quad'])
    prob.tol = mc['tolerance'] = w.pick('tolerance', [0.03, 0.3])
  elif 'penalty' in mc:
    prob.penalty = mc['penalty'] = w.pick('penalty', [1.0, 1.001, 2.0])
  mc['num_models'] = models
  s = SAMPLERS[w.integers('sampler', len(SAMPLERS))]
  mode = w.pick('mode', ['jump', 'real'])
  length = w.between('chain-length', 4, 14)
  log = w.pick('log-every', [1, 2, 3])
  batch = w.pick('batch', [1, 2, 3, 4]) * (dev if parallel else 1)
  sched = w.pick('schedule', ['constant', 'linear', 'exp_decay'])
  t0, t1, dec = w.pick('temperatures', [
      (1.0, 1e-6, 0.1), (1.0, 0.5, 0.1), (2.0, 0.05, 0.05), (1.0, 2.0, 0.2)])
  cfg = lib.config(
      mc, s, name='CO_Experiment', evaluator='co_eval', co_opt_prob=True,
      num_models=models, batch_size=batch, chain_length=length,
      log_every_steps=log, run_parallel=parallel or w.chance('ask-par', 0.3),
      ess_ratio=w.pick('ess-ratio', [0.5, 0.25, 0.8]), t_schedule=sched,
      init_temperature=t0, final_temperature=t1, decay_rate=dec,
      save_samples=w.chance('save-samples', 0.6),
      get_additional_metrics=False,
      save_root=os.path.join(root, 'out', 'run'))
  seams.Topology(w, local=dev)
  w.sample = {'kind': kind, 'sampler': s, 'mode': mode, 'instances': n_inst,
              'num_models': models, 'devices': dev, 'batch': batch,
              'chain_length': length, 'log_every': log, 'schedule': sched}
  w.log('experiment', w.sample, mc.get('penalty'), mc.get('stype'))
  w.probe('kind:' + kind)
  w.probe('mode:' + mode)
  w.probe('devices:%d' % dev)
  return cfg, prob, mode, root


def execute(w, cfg, mode):
  hist = exper.History()
  timed = exper.Timed(w, hist)
  with w.sut('combinatorial experiment'):
    exper.run_main(cfg, lambda r: exper.SpySampler(
        r, hist, cfg.model.num_categories, mode))
  w.log('history', len(hist.rec), hist.digest())
  exper.own_randomness(w, hist)
  return hist, timed


def by_instance(w, prob, hist):
  """Chains of every instance per step: {i: {t: (samples, temps, masks)}}."""
  keys = {exper.graph_key(g): i for i, g in enumerate(prob.graphs)}
  out = {i: {} for i in range(len(prob.graphs))}
  for ident, t, _, new_x, temp, mask in hist.rec:
    i = keys.get(ident)
    if i is None:
      continue       # padding of the last batch
    e = out[i].setdefault(t, ([], [], []))
    e[0].append(new_x.reshape(len(new_x), -1))
    e[1].append(temp)
    e[2].append(mask)
  return {i: {t: (np.concatenate(v[0]), v[1], v[2]) for t, v in d.items()}
          for i, d in out.items()}


def close(a, b, tol=2e-5):
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_records(w, cfg, prob, hist, insts, res):
  """Saved records against the history, instance by instance."""
  e = cfg.experiment
  n = len(insts)
  logs = [t for t in range(1, e.chain_length + 1) if t % e.log_every_steps == 0]
  chains = by_instance(w, prob, hist)
  traj = np.asarray(res['trajectory'], np.float64).reshape(len(logs), -1) if (
      logs) else np.zeros((0, n))
  best = np.asarray(res['best_ratio'], np.float64).reshape(-1)
  w.check(best.shape == (n,), 'record-count',
          lambda: '%d instances were solved, %d best ratios were saved: %s' % (
              n, best.shape[0], w.sample))
  w.check(not logs or traj.shape[1] == n, 'record-count',
          lambda: '%d instances were solved, the saved trajectory has %d '
          'columns: %s' % (n, traj.shape[1], w.sample))
  for col, i in enumerate(insts):
    got = chains[i]
    w.check(sorted(got) == list(range(e.chain_length)), 'steps',
            lambda: 'instance %d took steps %s of %d' % (
                i, sorted(got), e.chain_length))
    ref = prob.reference(i)
    run = -np.inf
    for row, t in enumerate(logs):
      xs, temps, _ = got[t - 1]
      w.check(len(xs) == e.batch_size, 'chains',
              lambda: 'instance %d ran %d chains of %d' % (
                  i, len(xs), e.batch_size))
      run = max(run, prob.value(i, xs).max() / ref)
      w.check(close(traj[row, col], run), 'trajectory',
              lambda: 'instance %d at step %d: the best ratio so far is %r, '
              'the trajectory says %r (%s)' % (
                  i, t, run, traj[row, col], w.sample))
    if logs:
      w.check(close(best[col], run), 'best-ratio',
              lambda: 'instance %d: best ratio %r, saved %r' % (
                  i, run, best[col]))
    for t in range(e.chain_length):
      want = exper.temperature(
          e.t_schedule, t + 1, e.chain_length, e.init_temperature,
          e.final_temperature, e.decay_rate)
      for temp in got[t][1]:
        w.check(abs(temp - want) <= 1e-4 * abs(want) + 1e-9, 'temperature',
                lambda: 'step %d of %d ran at temperature %r, the %s schedule '
                'gives %r' % (t + 1, e.chain_length, temp, e.t_schedule,
                              want))
    if logs and (e.save_samples or cfg.model.name == 'normcut'):
      w.check('best_samples' in res, 'best-samples',
              'best samples were asked for and are not saved')
      w.check(len(res['best_samples']) == n, 'record-count',
              lambda: '%d instances were solved, %d best samples were saved: '
              '%s' % (n, len(res['best_samples']), w.sample))
      sample = np.asarray(res['best_samples'])[col].reshape(1, -1)
      val = float(prob.value(i, np.round(sample))[0]) / ref
      w.check(close(val, run), 'best-samples',
              lambda: 'instance %d: the saved best sample %s has ratio %r, '
              'the best ratio is %r (%s)' % (
                  i, sample.tolist(), val, run, w.sample))
  if logs:
    w.check(close(float(res['best_ratio_mean']), best.mean()), 'mean',
            lambda: 'mean of %s saved as %r' % (
                best.tolist(), res['best_ratio_mean']))


def run(w):
  cfg, prob, mode, _ = draw(w)
  hist, timed = execute(w, cfg, mode)
  path = os.path.join(cfg.experiment.save_root, 'results.pkl')
  w.check(os.path.exists(path), 'no-results', 'the run saved no results')
  res = exper.load_pkl(path)
  check_records(w, cfg, prob, hist, list(range(len(prob.graphs))), res)
  e = cfg.experiment
  burn = int(e.chain_length * e.ess_ratio)
  want = sum(dt for (_, t), dt in timed.step_time.items() if t >= burn)
  w.check(close(float(res['running_time']), want, 1e-6), 'running-time',
          lambda: 'the steps after burn-in took %r simulated seconds, the '
          'saved running time is %r (chain length %d, burn-in %d)' % (
              want, res['running_time'], e.chain_length, burn))
  w.log('saved', np.asarray(res['trajectory']).round(4).tolist())
