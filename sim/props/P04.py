"""The sampler's count of energy evaluations is the true one."""
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from sim import lib

SAMPLERS = lib.sampler_cfgs()
BIN = ('bernoulli', 'ising', 'fhmm', 'rbm', 'maxcut', 'mis', 'maxclique',
       'bernoulli2d')
CAT = ('categorical', 'potts', 'fhmm_c', 'rbm_c', 'normcut_rand',
       'categorical2d')


class Metered:
  """A model that meters every evaluation of its energy, row by row.

  One row through `forward` is one evaluation; with its gradient it is two;
  the ratios of a whole neighbourhood are one (the model computes them from
  one pass over the instance).
  """

  def __init__(self, model):
    self._model = model
    self.total = 0

  def _add(self, n):
    self.total += int(n)

  def _meter(self, x, cost):
    rows = x.shape[0]
    # a traced argument, so that one call per execution is reported
    token = jnp.zeros((), jnp.int32) + (x.reshape(-1)[0] * 0).astype(jnp.int32)
    jax.debug.callback(lambda tok: self._add(rows * cost + 0 * int(tok)),
                       token)

  def forward(self, params, x):
    self._meter(x, 1)
    return self._model.forward(params, x)

  def get_value_and_grad(self, params, x):
    self._meter(x, 2)
    return self._model.get_value_and_grad(params, x)

  def __getattr__(self, name):
    v = getattr(self._model, name)
    if name == 'logratio_in_neighborhood':
      def ratios(params, x):
        self._meter(x, 1)
        return v(params, x)
      return ratios
    return v


def run(w):
  n = len(SAMPLERS)
  s = dict(SAMPLERS[w.stratum('sampler', n, w.index)])
  pool = BIN if w.stratum('class', 2, (w.index // n) % 2) == 0 else CAT
  name = lib.pick_model(w, s, pool)
  sys_, sampler = lib.make_system(w, name, s, big=True)
  bsz = w.pick('batch', [2, 1, 3, 5])
  meter = Metered(sys_.model)
  tag = '%s on %s' % (s, name)
  w.sample = {'sampler': s, 'model': name, 'batch': bsz}
  w.log('system', s, name, bsz)
  w.probe('sampler:' + s['name'])

  def step(rng, x, state):
    kw = {} if sys_.mask is None else {'x_mask': sys_.mask}
    return sampler.step(model=meter, rng=rng, x=x, model_param=sys_.params,
                        state=state, **kw)
  fn = jax.jit(step)
  base = jax.random.PRNGKey(w.key('seed'))
  with w.sut('initial state and samples'):
    x = jnp.reshape(sys_.model.get_init_samples(base, bsz),
                    (bsz,) + sys_.shape)
    state = sampler.make_init_state(base)
  w.check(int(np.asarray(state['num_ll_calls'])) == 0, 'initial-count',
          tag + ': a new sampler state has already counted evaluations')
  true = 0
  for t in range(w.between('steps', 8, 24)):
    w.tick()
    w.advance(1.0)
    meter.total = 0
    with w.sut('step of ' + tag):
      nx, nst, _ = fn(jax.random.fold_in(base, t), x, state)
      jax.block_until_ready((nx, nst))
      jax.effects_barrier()
    true += meter.total
    got = int(np.asarray(nst['num_ll_calls']))
    w.log(t, got, meter.total)
    w.check(got * bsz == true, 'miscounted',
            '%s: after %d steps the state counts %d energy evaluations per '
            'chain, the model saw %d for %d chains' % (
                tag, t + 1, got, true, bsz))
    if w.chance('lost', 0.1):      # the step is repeated from the old state
      w.fault('result-lost')
      true -= meter.total
      continue
    if w.chance('restart', 0.1):
      w.fault('stop-and-restore')
      nx, nst = pickle.loads(pickle.dumps(
          jax.tree_util.tree_map(np.asarray, (nx, nst))))
    x, state = nx, nst
