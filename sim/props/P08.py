"""Annealed importance sampling: weights of the history, unbiased for Z."""
import itertools
import os

import jax
import jax.numpy as jnp
import numpy as np

from sim import exper
from sim import lib
from sim import seams
from sim.props import P07

SAMPLERS = [s for s in lib.sampler_cfgs()
            if s.get('approx_with_grad') is not False]


def run(w):
  s = SAMPLERS[w.stratum('sampler', len(SAMPLERS), w.index * 7)]
  rs = np.random.RandomState(w.key('model-seed'))
  dim = w.pick('dim', [4, 6])
  mc = dict(name='resnet', shape=(dim,), image_shape=(2, dim // 2),
            n_channels=2, num_categories=2,
            data_mean=[round(float(v), 3)
                       for v in rs.uniform(0.15, 0.85, size=dim)])
  dev = w.pick('devices', [1, 2, 4])
  long = w.chance('statistics', 0.5)
  batch = 1024 if long else w.pick('batch', [4, 8, 16])
  length = w.between('length', 2, 8) if long else w.between('length', 1, 12)
  mode = 'real' if long else w.pick('mode', ['jump', 'real'])
  root = lib.scratch()
  stored = w.chance('stored-params', 0.7)
  if stored:
    cfg0 = lib.config(dict(mc), s)
    model0 = lib.build_model(cfg0)
    p = jax.tree_util.tree_map(
        np.asarray, model0.make_init_params(
            jax.random.PRNGKey(w.key('param-seed'))))
    # a network whose energy varies by a few units over the states
    scale = w.pick('steepness', [1.0, 3.0, 8.0])
    p = dict(p)
    p['Dense_0'] = jax.tree_util.tree_map(lambda v: v * scale, p['Dense_0'])
    p['data_mean'] = mc['data_mean']
    lib.write_trained(os.path.join(root, 'trained'), mc, p)
    mc = dict(mc, data_path=os.path.join(root, 'trained'))
  cfg = lib.config(mc, s, name='EBM_Experiment', evaluator='co_eval',
                   batch_size=batch, chain_length=length,
                   run_parallel=dev > 1 or w.chance('ask-par', 0.3),
                   save_root=os.path.join(root, 'out', 'run'))
  seams.Topology(w, local=dev)
  w.sample = {'sampler': s, 'mode': mode, 'devices': dev, 'batch': batch,
              'length': length, 'dim': dim, 'stored': stored}
  w.log('experiment', w.sample)
  w.probe('devices:%d' % dev)
  hist = exper.History()
  exper.Timed(w, hist)
  grab = []

  class Spy(exper.SpySampler):
    def step(self, model, rng, x, model_param, state, x_mask=None):
      jax.debug.callback(
          lambda *v: grab.append(v) if not grab else None,
          *jax.tree_util.tree_leaves(
              {k: v for k, v in model_param.items() if k != 'temperature'}))
      grab_tree[0] = jax.tree_util.tree_structure(
          {k: v for k, v in model_param.items() if k != 'temperature'})
      return super().step(model, rng, x, model_param, state, x_mask)
  grab_tree = [None]
  with w.sut('annealed importance sampling'):
    model = exper.run_main(cfg, lambda r: Spy(r, hist, 2, mode))
  w.log('history', len(hist.rec), hist.digest())
  exper.own_randomness(w, hist)
  res = exper.load_pkl(os.path.join(cfg.experiment.save_root, 'logz.pkl'))
  logz = np.asarray(res['logz'], np.float64).reshape(-1)
  w.check(len(logz) == length, 'steps', lambda: '%d estimates for %d steps' % (
      len(logz), length))
  # Energies of all states with and without the network, from the model.
  params = jax.tree_util.tree_unflatten(
      grab_tree[0], [jnp.asarray(v) for v in grab[0]])
  states = np.array(list(itertools.product((0, 1), repeat=dim)), np.int32)
  full = np.asarray(model.forward(params, jnp.array(states)), np.float64)
  dm = np.asarray(mc['data_mean'], np.float64)
  base = (states * np.log(dm) + (1 - states) * np.log1p(-dm)).sum(1)
  net = full - base
  idx = 2 ** np.arange(dim)[::-1]
  true = float(np.log(np.sum(np.exp(full - full.max()))) + full.max())
  # Temperatures and weights of the history.
  steps = {}
  for _, t, x, new_x, temp, _ in hist.rec:
    steps.setdefault(t, []).append((x.reshape(len(x), -1),
                                    new_x.reshape(len(x), -1), temp))
  w.check(sorted(steps) == list(range(length)), 'steps',
          lambda: 'steps %s of %d' % (sorted(steps), length))
  for t in range(length):
    n = sum(len(x) for x, _, _ in steps[t])
    w.check(n == batch, 'chains', lambda: '%d chains of %d' % (n, batch))
    for _, _, temp in steps[t]:
      w.check(abs(temp - (t + 1) / length) < 1e-5, 'temperature',
              lambda: 'step %d of %d sampled at inverse temperature %r' % (
                  t + 1, length, temp))
  cur = None
  logw = None
  for t in range(length):
    todo = steps[t]
    if cur is None:
      blocks = [x for x, _, _ in todo]
    else:
      blocks, ok = [], True
      left = list(todo)
      for c in cur:
        m = [q for q in range(len(left)) if np.array_equal(left[q][0], c)]
        w.check(bool(m), 'steps', lambda: 'step %d does not continue the '
                'chains of step %d' % (t + 1, t))
        if len(m) > 1 and not all(
            np.array_equal(left[m[0]][1], left[q][1]) for q in m):
          ok = False
        blocks.append(left.pop(m[0]))
      if not ok:
        w.probe('ambiguous-shards')
        return
      todo = blocks
      blocks = [b[0] for b in todo]
    inc = np.concatenate([net[b.astype(int) @ idx] for b in blocks]) / length
    logw = inc if logw is None else logw + inc
    want = np.log(np.mean(np.exp(logw - logw.max()))) + logw.max()
    w.check(abs(want - logz[t]) <= 1e-3 * max(1, abs(want)), 'weights',
            lambda: 'step %d of %d: the importance weights of the chains give '
            'log Z %r, saved %r (%s)' % (t + 1, length, want, logz[t],
                                         w.sample))
    cur = [b[1] for b in todo]
  w.log('logz', np.round(logz, 3).tolist())
  if long:
    wts = np.exp(logw - true)
    se = wts.std(ddof=1) / np.sqrt(len(wts))
    z = (wts.mean() - 1) / max(se, 1e-9)
    w.probe('unbiasedness-tests')
    w.check(abs(z) < 7 or abs(wts.mean() - 1) < 0.01, 'biased',
            lambda: 'Z is estimated as %.4f of its value, %.1f standard '
            'errors off (%d chains, %s)' % (wts.mean(), z, batch, w.sample))
