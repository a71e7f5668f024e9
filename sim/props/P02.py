"""Sampler containment: state space, mask, adaptive state, progress."""
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from sim import lib

SAMPLERS = lib.sampler_cfgs()
BIN = ('bernoulli', 'ising', 'rbm', 'maxcut', 'mis', 'maxclique',
       'bernoulli2d')
CAT = ('categorical', 'potts', 'rbm_c', 'categorical2d', 'normcut_rand')
CO = ('maxcut', 'mis', 'maxclique', 'normcut_rand')


def run(w):
  n = len(SAMPLERS)
  s = dict(SAMPLERS[w.stratum('sampler', n, w.index)])
  pool = BIN if w.stratum('class', 2, (w.index // n) % 2) == 0 else CAT
  name = lib.pick_model(w, s, pool)
  sys_, sampler = lib.make_system(w, name, s, co_temp=1.0, big=True)
  bsz = w.pick('batch', [2, 1, 5])
  w.sample = {'sampler': s, 'model': name, 'batch': bsz, 'dim': sys_.dim}
  w.log('system', s, name, bsz, sys_.dim)
  w.probe('model:' + name)
  w.probe('sampler:' + s['name'])
  masked = sys_.mask is not None and (
      s['name'] == 'path_auxiliary' or (s['name'] == 'gwg' and sys_.nc == 2))
  live = np.ones(sys_.dim, bool)
  if sys_.mask is not None:
    live = np.asarray(sys_.mask).astype(bool).reshape(-1)

  def step(rng, x, params, state):
    kw = {} if sys_.mask is None else {'x_mask': sys_.mask}
    return sampler.step(model=sys_.model, rng=rng, x=x, model_param=params,
                        state=state, **kw)
  fn = jax.jit(step)

  def regime(scale):
    if name in CO:
      return dict(sys_.params, temperature=jnp.float32(1.0 / scale))
    return jax.tree_util.tree_map(
        lambda v: v * scale if jnp.issubdtype(
            jnp.asarray(v).dtype, jnp.floating) else v,
        sys_.params)

  base = jax.random.PRNGKey(w.key('step-seed'))
  with w.sut('initial state and samples'):
    state = sampler.make_init_state(jax.random.PRNGKey(w.key('state-seed')))
    x = np.asarray(sys_.model.get_init_samples(
        jax.random.PRNGKey(w.key('init-seed')), bsz)).reshape(
            (bsz,) + sys_.shape)
  t = 0

  def one(x, state, params, where):
    nonlocal t
    t += 1
    w.tick()
    w.advance(1.0)
    tag = '%s on %s, batch %d, step %d (%s)' % (s, name, bsz, t, where)
    with w.sut('step of ' + s['name'] + ' on ' + name):
      y, state, acc = fn(jax.random.fold_in(base, t), x, params, state)
      y, acc = np.asarray(y), np.asarray(acc)
      state = jax.tree_util.tree_map(np.asarray, state)
    w.check(y.shape == x.shape, 'shape',
            'the sample changed shape %s to %s: %s' % (x.shape, y.shape, tag))
    w.check(np.issubdtype(y.dtype, np.integer), 'dtype',
            'samples are %s: %s' % (y.dtype, tag))
    w.check(np.all((y >= 0) & (y < sys_.nc)), 'state-space',
            lambda: 'values %s outside 0..%d: %s' % (
                np.unique(y).tolist(), sys_.nc - 1, tag))
    if masked:
      same = y.reshape(bsz, -1)[:, ~live] == x.reshape(bsz, -1)[:, ~live]
      w.check(np.all(same), 'mask',
              'a masked position was changed: ' + tag)
    w.check(np.all(np.isfinite(acc)) and np.all(acc >= 0)
            and np.all(acc <= 1 + 1e-5), 'acceptance',
            'acceptance ratio %s: %s' % (acc, tag))
    for k, v in state.items():
      w.check(np.all(np.isfinite(v)), 'state-not-finite',
              'sampler state %s became %s: %s' % (k, v, tag))
    if 'radius' in state:
      r = float(np.max(state['radius']))
      w.check(1 - 1e-6 <= r <= sys_.dim + 1e-6, 'radius',
              'radius %g outside [1, %d]: %s' % (r, sys_.dim, tag))
    w.log(t, y.tolist(), float(acc))
    return y, state

  # History: regimes (annealing, parameter updates), refills, restarts.
  for seg in range(w.between('segments', 1, 5)):
    scale = 1.0
    if seg:
      # annealing ends far below the temperature it starts at
      scale = w.pick('scale', [1.0, 0.1, 5.0, 25.0] + (
          [400.0, 5000.0 if masked else 100.0] if name in CO else []))
      if scale != 1.0:
        w.fault('target-jump')
      if w.chance('refill', 0.4):
        w.fault('samples-replaced')
        rs = np.random.RandomState(w.key('refill-seed'))
        x = rs.randint(0, sys_.nc, size=x.shape).astype(np.int32)
      if w.chance('restart', 0.4):
        w.fault('stop-and-restore')
        x, state = pickle.loads(pickle.dumps((x, state)))
    params = regime(scale)
    for _ in range(w.between('length', 4, 30)):
      x, state = one(x, state, params, 'scale %g' % scale)

  # Faults stop: in a nearly flat target every position moves, soon.  (DLMC
  # without adaptation keeps the step size of its first step for ever, which
  # may be too small for another target: no bound to hold it to.)
  if s['name'] == 'dlmc' and not s['adaptive']:
    return
  params = regime(0.05)
  moved = ~live.copy()
  for i in range(400):
    y, state = one(x, state, params, 'flat')
    moved |= np.any(y.reshape(bsz, -1) != x.reshape(bsz, -1), axis=0)
    x = y
    if moved.all():
      break
  w.check(moved.all(), 'frozen', (
      '%s on %s: positions %s did not move in 400 steps of a nearly flat '
      'target after the history') % (
          s, name, np.flatnonzero(~moved).tolist()))
