"""A sampler step is a pure function of its arguments; chains are isolated."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from sim import lib

SAMPLERS = lib.sampler_cfgs()
BIN = ('bernoulli', 'ising', 'fhmm', 'rbm', 'maxcut', 'mis', 'maxclique')
CAT = ('categorical', 'potts', 'fhmm_c', 'rbm_c', 'normcut_rand',
       'categorical2d')


def host(tree):
  return jax.tree_util.tree_map(lambda v: np.array(v), tree)


def same(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(
      np.asarray(u).shape == np.asarray(v).shape
      and np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True)
      for u, v in zip(la, lb))


def run(w):
  n = len(SAMPLERS)
  s = dict(SAMPLERS[w.stratum('sampler', n, w.index)])
  pool = BIN if w.stratum('class', 2, (w.index // n) % 2) == 0 else CAT
  name = lib.pick_model(w, s, pool)
  sys_, sampler = lib.make_system(w, name, s, big=True)
  bsz = w.pick('batch', [2, 3, 6, 1])
  eager = w.stratum('eager', 2, (w.index % n + w.index // n) % 2) == 1
  n_clients = w.between('clients', 2, 3)
  n_steps = w.between('steps', 2, 3) if eager else w.between('steps', 7, 12)
  w.sample = {'sampler': s, 'model': name, 'batch': bsz, 'eager': eager,
              'clients': n_clients, 'steps': n_steps}
  w.log('system', s, name, bsz, eager, n_clients, n_steps)
  w.probe('eager' if eager else 'compiled')
  w.probe('sampler:' + s['name'])
  tag = '%s on %s (%s)' % (s, name, 'eager' if eager else 'compiled')

  def make(smp):
    def step(rng, x, params, state):
      kw = {} if sys_.mask is None else {'x_mask': sys_.mask}
      return smp.step(model=sys_.model, rng=rng, x=x, model_param=params,
                      state=state, **kw)
    return step if eager else jax.jit(step)

  keys = [jax.random.PRNGKey(w.key('client-seed')) for _ in range(n_clients)]
  with w.sut('initial state and samples'):
    start = []
    for k in keys:
      k1, k2 = jax.random.split(k)
      x = jnp.reshape(sys_.model.get_init_samples(k1, bsz),
                      (bsz,) + sys_.shape)
      start.append((x, sampler.make_init_state(k2)))
  params = sys_.params
  params0 = host(params)

  def fresh(c):
    x, st = start[c]
    return jnp.array(x), jax.tree_util.tree_map(jnp.array, st)

  # Reference: every client alone, in order, on a sampler of its own.
  with w.sut('building sampler'):
    ref_fn = make(lib.build_sampler(sys_.cfg))
  ref = []
  for c in range(n_clients):
    x, st = fresh(c)
    out = []
    for t in range(n_steps):
      with w.sut('step of ' + tag):
        x, st, acc = ref_fn(jax.random.fold_in(keys[c], t), jnp.array(x),
                            params, jax.tree_util.tree_map(jnp.array, st))
      x, st = np.asarray(x), host(st)
      out.append((x, st, np.asarray(acc)))
    ref.append(out)

  # The same clients share one sampler; the scheduler interleaves them.
  fn = make(sampler)
  cur = [fresh(c) for c in range(n_clients)]
  pos = [0] * n_clients
  while True:
    ready = [c for c in range(n_clients) if pos[c] < n_steps]
    if not ready:
      break
    c = ready[w.integers('next', len(ready))]
    t = pos[c]
    x, st = cur[c]
    rng = jax.random.fold_in(keys[c], t)
    before = (host(x), host(st), np.array(rng))
    attempts = 1
    while attempts < 3 and w.chance('reply-lost', 0.25):
      w.fault('reply-lost')
      attempts += 1
    for a in range(attempts):
      w.tick()
      w.advance(1.0)
      with w.sut('step of ' + tag):
        nx, nst, acc = fn(rng, x, params, st)
        nx_h, nst_h, acc_h = np.asarray(nx), host(nst), np.asarray(acc)
      w.log(c, t, a, nx_h.tolist())
      w.check(same(before, (host(x), host(st), np.array(rng))),
              'input-modified',
              lambda: '%s changed its arguments: state %s became %s' % (
                  tag, before[1], host(st)))
      w.check(same(params0, host(params)), 'params-modified',
              tag + ' changed the model parameters')
      w.check(
          same((nx_h, nst_h, acc_h), ref[c][t]), 'not-repeatable',
          lambda: '%s: client %d step %d attempt %d differs from the same '
          'step taken alone (samples equal: %s, states %s and %s)' % (
              tag, c, t, a, same(nx_h, ref[c][t][0]), nst_h, ref[c][t][1]))
    # Chains of a batch: what the others hold does not matter to this one.
    trials = 0
    if t >= 1 and bsz > 1 and w.chance('isolate', 0.5 if eager else 0.9):
      trials = 1 if eager else 4
    for _ in range(trials):
      i = w.integers('chain', bsz)
      rs = np.random.RandomState(w.key('noise-seed'))
      other = rs.randint(0, sys_.nc, size=before[0].shape).astype(
          before[0].dtype)
      if w.chance('neighbours-agree', 0.5):
        other = np.repeat(other[:1], bsz, axis=0)   # an extreme batch mean
      other[i] = before[0][i]
      w.fault('neighbour-chains-replaced')
      with w.sut('step of ' + tag):
        ox, _, _ = fn(rng, jnp.array(other), params,
                      jax.tree_util.tree_map(jnp.array, before[1]))
        ox = np.asarray(ox)
      w.check(np.array_equal(ox[i], nx_h[i]), 'chains-coupled',
              lambda: '%s: chain %d of a batch of %d moved from %s to %s, or '
              'to %s when the other chains held other samples' % (
                  tag, i, bsz, before[0][i].tolist(), nx_h[i].tolist(),
                  ox[i].tolist()))
    if w.chance('restart', 0.2):
      w.fault('stop-and-restore')
      nx, nst = pickle.loads(pickle.dumps((nx_h, nst_h)))
      nx, nst = jnp.array(nx), jax.tree_util.tree_map(jnp.array, nst)
    cur[c] = (nx, nst)
    pos[c] += 1
