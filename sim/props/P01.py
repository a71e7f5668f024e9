"""Invariance and convergence of every sampler kernel."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy import stats as sst

from sim import lib

N_TOTAL = 32768
SAMPLERS = lib.sampler_cfgs()
HONOURS_MASK = ('gwg', 'path_auxiliary')


def pvalue(counts, p):
  """Chi-square p-value of iid draws, cells pooled to an expectation >= 5."""
  n = counts.sum()
  e = n * p
  order = np.argsort(e)
  cs = np.cumsum(e[order])
  k = int(np.searchsorted(cs, 5.0)) + 1
  if cs[-1] < 10 or k >= len(p):
    k = 1
  c = np.concatenate([[counts[order[:k]].sum()], counts[order[k:]]])
  ee = np.concatenate([[e[order[:k]].sum()], e[order[k:]]])
  keep = ee > 0
  if np.any(c[~keep] > 0):
    return 0.0, float('inf')
  c, ee = c[keep], ee[keep]
  chi = float(((c - ee) ** 2 / ee).sum())
  return float(sst.chi2.sf(chi, max(1, len(c) - 1))), chi


def dispersion(hits):
  """z of the spread of per-group counts, given independent members."""
  n, g = hits.shape
  q = hits.mean()
  v = g * q * (1 - q)
  if n * v < 200:
    return 0.0
  d = ((hits.sum(1) - g * q) ** 2).sum() / v
  return float((d - n) / np.sqrt(n * (2 + (1 - 6 * q * (1 - q)) / v)))


class Kernel:
  """N chains in groups; all groups share one (history-reached) state."""

  def __init__(self, w, sys_, sampler, group):
    self.w, self.sys, self.group = w, sys_, group
    self.n_groups = N_TOTAL // group
    params, model, mask = sys_.params, sys_.model, sys_.mask

    def step(rng, x, state):
      kw = {} if mask is None else {'x_mask': mask}
      return sampler.step(model=model, rng=rng, x=x, model_param=params,
                          state=state, **kw)
    # The state handed on is the one reached by group 0, which is left out of
    # the statistics: the chains counted never influenced the state they use.
    self.fn = jax.jit(jax.vmap(step, in_axes=(0, 0, None)))

  def __call__(self, key, x, state):
    rngs = jax.random.split(key, self.n_groups)
    x = jnp.reshape(x, (self.n_groups, self.group) + self.sys.shape)
    y, st, _ = self.fn(rngs, x, state)
    y = jnp.reshape(y, (N_TOTAL,) + self.sys.shape)
    return y, jax.tree_util.tree_map(lambda s: s[0], st)


def run(w):
  n = len(SAMPLERS)
  si = w.stratum('sampler', n, w.index)
  s = dict(SAMPLERS[si])
  rnd = (w.index // n) % 2
  pool = lib.BINARY if w.stratum('class', 2, rnd) == 0 else lib.CATEG
  name = lib.pick_model(w, s, pool)
  if name == 'resnet' and s['name'] in ('gibbs', 'blockgibbs'):
    name = 'rbm'
  sys_, sampler = lib.make_system(w, name, s)
  group = w.pick('group', [4, 1, 16, 32])
  w.sample = {'sampler': s, 'model': name, 'group': group,
              'states': sys_.n_states}
  w.log('system', s, name, group, sys_.n_states)
  w.probe('model:' + name)
  w.probe('sampler:' + s['name'])

  with w.sut('energy of ' + name):
    p = sys_.target()
  states = sys_.states()
  # Marginal over the positions that belong to the instance.
  live = np.ones(sys_.dim, bool)
  if sys_.mask is not None:
    live = np.asarray(sys_.mask).astype(bool).reshape(-1)
  lw = np.zeros(sys_.dim, np.int64)
  lw[live] = sys_.nc ** np.arange(live.sum())[::-1]
  flat = states.reshape(len(states), -1).astype(np.int64) @ lw
  n_live = sys_.nc ** int(live.sum())
  p_live = np.bincount(flat, weights=p, minlength=n_live)

  def counts(x):
    a = np.asarray(x).reshape(N_TOTAL, -1)[group:]
    ok = np.all((a >= 0) & (a < sys_.nc))
    w.check(ok, 'state-space', 'a sample left the state space: %s on %s' % (
        s, name))
    return np.bincount(a.astype(np.int64) @ lw, minlength=n_live)

  kern = Kernel(w, sys_, sampler, group)
  with w.sut('initial sampler state'):
    state = sampler.make_init_state(jax.random.PRNGKey(w.key('state-seed')))
  rs = np.random.RandomState(w.key('draw-seed'))
  base = jax.random.PRNGKey(w.key('step-seed'))
  t = 0

  def step(x, state):
    nonlocal t
    t += 1
    w.tick()
    w.advance(1.0)
    with w.sut('step of %s on %s' % (s['name'], name)):
      x, state = kern(jax.random.fold_in(base, t), x, state)
      x = np.asarray(x)
    return x, state

  # 1. history: the adaptive state is whatever some earlier run reached.
  warm = w.between('warm', 1, 24)
  with w.sut('initial samples'):
    x = np.asarray(sys_.model.get_init_samples(
        jax.random.PRNGKey(w.key('init-seed')), N_TOTAL))
  if x.shape != (N_TOTAL,) + sys_.shape:
    x = x.reshape((N_TOTAL,) + sys_.shape)
  for _ in range(warm):
    x, state = step(x, state)
  init_x, warm_state = x, state

  def draw():
    return states[rs.choice(len(p), size=N_TOTAL, p=p)]

  # 2. invariance from an exact sample of the target.
  def invariance(k, state):
    x = draw()
    out = []
    for _ in range(k):
      x, state = step(x, state)
      out.append(counts(x))
    return out

  K = 8
  worst = None
  out = invariance(K, warm_state)
  for i, c in enumerate(out):
    pv, chi = pvalue(c, p_live)
    w.checks += 1
    w.log('step', i, [int(v) for v in c[:64]])
    if worst is None or pv < worst[0]:
      worst = (pv, i, chi)
  if worst[0] < 1e-5:
    w.probe('second-look')
    k = worst[1]
    tot = np.zeros_like(out[0])
    for _ in range(4):
      tot = tot + invariance(k + 1, warm_state)[k]
    pv, chi = pvalue(tot, p_live)
    w.log('second', k, [int(v) for v in tot[:64]])
    if pv < 1e-10:
      tv = 0.5 * np.abs(tot / tot.sum() - p_live).sum()
      w.check(False, 'not-invariant', (
          'sampler %s on %s (groups of %d, state after %d steps): after %d '
          'step(s) from the target the total variation from the target is '
          '%.4f over %d chains (chi2=%.0f, p=%.1e)') % (
              s, name, group, warm, k + 1, tv, tot.sum(), chi, pv))

  # 2b. chains of a batch that start at one sample step independently.
  if group > 1:
    if w.chance('from-mode', 0.5):
      start = states[int(np.argmax(p))]
    else:
      start = states[w.integers('joint-start', len(states))]

    def spread(looks):
      hits = []
      for _ in range(looks):
        y, _ = step(np.broadcast_to(start, (N_TOTAL,) + sys_.shape),
                    warm_state)
        y = y.reshape(N_TOTAL // group, group, -1)[1:]
        moved = y != start.reshape(-1)
        hits.append(np.concatenate([moved, moved.any(-1, keepdims=True),
                                    (y == y[0, 0]).all(-1)[..., None]], -1))
      hits = np.concatenate(hits)
      return [dispersion(hits[..., i]) for i in range(hits.shape[-1])]
    z = spread(1)
    w.checks += len(z)
    w.log('spread', [round(v, 3) for v in z])
    if max(map(abs, z)) > 7:
      w.probe('second-look')
      i = int(np.argmax(np.abs(z)))
      z2 = spread(4)[i]
      w.check(abs(z2) < 8, 'chains-together', lambda: (
          'sampler %s on %s: chains of a batch of %d that start at %s do not '
          'step independently (what they do agrees with z = %.1f, again %.1f '
          'for fresh keys)') % (s, name, group, start.tolist(), z[i], z2))
    w.probe('joint-step')

  # 3. convergence from a single starting sample: every state the target does
  # not make rare is reached by some chain.  Not for path auxiliary samplers
  # that make several flips, whose paths of one length may stay in one class.
  # nor for an adaptive random walk, whose radius may grow to flip every site.
  connects = s['name'] not in ('path_auxiliary', 'randomwalk') or (
      not s['adaptive'] and s.get('num_flips', 1) == 1)
  if connects and w.chance('converge', 0.7):
    start = states[w.integers('start', len(states))]
    x = np.broadcast_to(start, (N_TOTAL,) + sys_.shape)
    state = warm_state
    seen = np.zeros(n_live, np.int64)
    want = p_live >= 0.003
    for i in range(150):
      x, state = step(x, state)
      seen += counts(x)
      if np.all(seen[want] > 0):
        break
    w.probe('explored-from-point')
    w.log('explored', i)
    w.check(np.all(seen[want] > 0), 'no-convergence', (
        'sampler %s on %s started at %s: %d of the %d states that are not '
        'rare were never reached in 150 steps of %d chains') % (
            s, name, start.tolist(), int((seen[want] == 0).sum()),
            int(want.sum()), N_TOTAL))
