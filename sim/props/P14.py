"""Data-parallel training: replicas, updates, chains, averages, checkpoints."""
import collections
import os

import numpy as np

from sim import lib
from sim import seams
from sim import training
from sim.world import SimCrash


def setup():
  training.install()


def config(w, kind, dev):
  from discs.common import configs  # pylint: disable=g-import-not-at-top
  from discs.common import train_configs  # pylint: disable=g-import-not-at-top
  from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
  c = configs.get_config()
  c.experiment.update(train_configs.get_common_train_config())
  c.unlock()
  e = c.experiment
  e.batch_size = dev * w.between('per-device', 1, 3)
  e.total_train_steps = w.between('steps', 3, 7)
  e.save_every_steps = w.pick('save-every', [1, 2, 3])
  e.log_every_steps = w.pick('log-every', [1, 2])
  e.plot_every_steps = 1
  e.pcd_steps = w.between('pcd', 1, 3)
  e.optimizer = w.pick('optimizer', ['sgd', 'adam', 'adamw', 'sgd'])
  e.weight_decay = w.pick('decay', [0.0, 0.1])
  e.grad_norm = w.pick('grad-norm', [0.0, 0.3, 5.0])
  e.learning_rate = w.pick('rate', [0.05, 0.2])
  e.lr_schedule = w.pick('schedule', ['constant', 'updown', 'constant'])
  e.warmup_frac = 0.4
  e.ema_decay = w.pick('ema', [0.0, 0.5, 0.9])
  e.buffer_size = e.batch_size + w.integers('buffer', 6)
  e.buffer_init = 'mean'
  e.reinit_freq = w.pick('reinit', [0.0, 0.0, 0.5])
  e.p_control = e.energy_l2 = 0.0
  d = w.between('visible', 3, 5)
  c.model = config_dict.ConfigDict(dict(
      name='rbm', num_visible=d, num_hidden=w.between('hidden', 2, 3),
      num_categories=2, shape=(d,)))
  if kind == 'rbm':
    c.sampler = config_dict.ConfigDict(dict(name='blockgibbs', subclass='rbm'))
  else:
    c.sampler = config_dict.ConfigDict(dict(
        name='randomwalk', adaptive=True, target_acceptance_rate=0.234))
  return c


def build(kind, c, x_train):
  from discs.models import rbm  # pylint: disable=g-import-not-at-top
  model = rbm.build_model(c)
  if kind == 'rbm':
    from discs.learning.rbm import main_rbm_training as prog  # pylint: disable=g-import-not-at-top
    from discs.samplers import blockgibbs  # pylint: disable=g-import-not-at-top
    spy = training.ChainSpy(blockgibbs.RBMBlockGibbsSampler(c.sampler))
    return prog.RBMTrainer(c, model, spy), model, spy
  _flags_of('rbm')
  from discs.learning.binary_ebm import main_binary_training as prog  # pylint: disable=g-import-not-at-top
  from discs.samplers import randomwalk  # pylint: disable=g-import-not-at-top
  spy = training.ChainSpy(randomwalk.build_sampler(c))
  return prog.EBMTrainer(c, model, spy, x_train), model, spy


def _flags_of(_):
  """Both programs define the same flags; each is a program of its own."""
  import importlib  # pylint: disable=g-import-not-at-top
  import sys  # pylint: disable=g-import-not-at-top
  from absl import flags  # pylint: disable=g-import-not-at-top
  for other in ('discs.learning.rbm.main_rbm_training',
                'discs.learning.binary_ebm.main_binary_training'):
    if other not in sys.modules:
      for f in ('config', 'seed', 'save_root'):
        if f in flags.FLAGS:
          delattr(flags.FLAGS, f)
      importlib.import_module(other)


class Reference:
  """One update on the whole batch on one device, from the definitions."""

  def __init__(self, c, model):
    import optax  # pylint: disable=g-import-not-at-top
    e = c.experiment
    self.model, self.e = model, e
    opts = []
    if e.grad_norm > 0:
      opts.append(optax.clip_by_global_norm(e.grad_norm))
    rate = self.rate
    opts.append({'sgd': lambda: optax.sgd(rate),
                 'adam': lambda: optax.adam(rate),
                 'adamw': lambda: optax.adamw(
                     rate, weight_decay=e.weight_decay)}[e.optimizer]())
    self.opt = optax.chain(*opts)

  def rate(self, step):
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    e = self.e
    if e.lr_schedule == 'constant':
      return e.learning_rate + 0 * step
    warm = int(e.warmup_frac * e.total_train_steps)
    up = e.learning_rate * step / max(warm, 1)
    frac = jnp.clip((step - warm) / max(e.total_train_steps - warm, 1), 0, 1)
    down = e.learning_rate * (1 - 0.99 * frac)
    return jnp.where(step < warm, up, down)

  def energy(self, p, x):
    import jax  # pylint: disable=g-import-not-at-top
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    x = jnp.asarray(x, jnp.float32)
    return (jnp.logaddexp(0.0, x @ p['w'] + p['b_h']).sum(-1)
            + (x * p['b_v']).sum(-1))

  def grads(self, params, pos, neg):
    import jax  # pylint: disable=g-import-not-at-top
    f = lambda p: (self.energy(p, neg).mean() - self.energy(p, pos).mean())
    return jax.value_and_grad(f)(params)


def same_replicas(w, step, state):
  for name, v in training.leaves(state):
    w.check(v.ndim and all(np.array_equal(v[0], v[i], equal_nan=True)
                           for i in range(1, v.shape[0])),
            'replicas', lambda: 'step %d: %s differs between devices: %s' % (
                step, name, v.tolist()))


def close(a, b, tol):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  return a.shape == b.shape and bool(
      np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Watch:
  """What the training loop shows after every step."""

  def __init__(self, w, c, spy, dev, crash_at=None):
    self.w, self.c, self.spy, self.dev = w, c, spy, dev
    self.steps, self.batches, self.crash_at = [], [], crash_at

  def begin(self, trainer, local):
    self.trainer = trainer
    self.heads = training.host(local.samples)
    self.buf0 = self.buffer()
    self.log = training.Log()
    self.spy.take()

  def buffer(self):
    b = getattr(getattr(self.trainer, 'buffer', None), 'buffer', None)
    return None if b is None else np.array(b)

  def loader(self, data):
    for b in data:
      self.batches.append(np.asarray(b))
      yield b

  def plot(self, step, shared, local):
    self.steps.append((int(step), training.host(shared),
                       training.host(local.samples),
                       np.asarray(local.sampler_state['sim_id']),
                       self.buffer(), self.spy.take()))
    self.w.tick()
    self.w.log('step', int(step))
    if self.crash_at == len(self.steps):
      self.w.fault('process-crash')
      raise SimCrash()


def check_run(w, c, watch, ref, first, state0, kind, keys):
  """Every step of a run against the definitions."""
  import jax  # pylint: disable=g-import-not-at-top
  import optax  # pylint: disable=g-import-not-at-top
  e = c.experiment
  prev = state0          # host state before the step
  last = watch.heads     # samples after the step before
  buf0 = watch.buf0
  for k, (step, shared, samples, ids, buf, calls) in enumerate(watch.steps):
    w.check(step == first + k, 'steps', lambda: 'step %d follows step %d' % (
        step, first + k - 1))
    same_replicas(w, step, shared)
    now = jax.tree_util.tree_map(lambda v: v[0], shared)
    w.check(int(now.step) == step, 'step-count', lambda: 'after step %d the '
            'state says %d' % (step, int(now.step)))
    # chains
    w.check(len(calls) == watch.dev * e.pcd_steps, 'chain-steps', lambda:
            'step %d ran the sampler %d times on %d devices, asked for %d '
            'times on each' % (step, len(calls), watch.dev, e.pcd_steps))
    fp = float(training.fingerprint(prev.params))
    w.check(all(abs(r['fp'] - fp) <= 1e-3 * (1 + abs(fp)) for r in calls),
            'chain-params', lambda: 'step %d: the negative samples were drawn '
            'with other parameters than the current ones' % step)
    for r in calls:
      w.check(r['key'] not in keys, 'same-randomness', lambda: 'step %d: a random '
              'key of the sampler was used before' % step)
      keys.add(r['key'])
    if len(set(ids.tolist())) == watch.dev:
      heads = links(w, step, calls, samples, ids, e.pcd_steps,
                    last if kind == 'rbm' else None, k * e.pcd_steps)
      if buf is not None and kind == 'ebm':
        buffer_moves(w, step, buf0, buf, heads, samples, e.reinit_freq)
    buf0 = buf
    last = samples
    # update
    pos = watch.batches[k].reshape((-1,) + watch.batches[k].shape[2:])
    neg = samples.reshape((-1,) + samples.shape[2:])
    p0 = jax.tree_util.tree_map(np.asarray, dict(prev.params))
    loss, g = ref.grads(p0, pos.astype(np.float32), neg.astype(np.float32))
    upd, opt = ref.opt.update(g, prev.opt_state, p0)
    want = optax.apply_updates(p0, upd)
    got = dict(now.params)
    for name in want:
      a, b = np.asarray(got[name]), np.asarray(want[name])
      sure = np.ones(a.shape, bool)
      if e.optimizer != 'sgd':
        sure = np.abs(np.asarray(g[name])) > 1e-4
      w.check(np.all(np.isfinite(a)) and close(a[sure], b[sure], 2e-4),
              'update', lambda: 'step %d on %d devices: %s is %s after the '
              'update, the gradient of the whole batch gives %s' % (
                  step, watch.dev, name, a.tolist(), b.tolist()))
    for (n1, a), (_, b) in zip(training.leaves(now.opt_state),
                               training.leaves(opt)):
      w.check(close(a, b, 2e-4), 'optimizer-state', lambda: 'step %d: %s is '
              '%s, should be %s' % (step, n1, a.tolist(), b.tolist()))
    dec = 0.0 if int(prev.step) == 0 else e.ema_decay
    for name in got:
      a = np.asarray(dict(now.ema_params)[name])
      b = dec * np.asarray(dict(prev.ema_params)[name]) + (1 - dec) * np.asarray(
          got[name])
      w.check(close(a, b, 1e-5), 'average', lambda: 'step %d: the running '
              'average of %s is %s, should be %s' % (step, name, a.tolist(),
                                                     b.tolist()))
    for s, row in watch.log.rows:
      if s == step:
        w.check(abs(row['loss'] - float(loss)) <= 1e-4 * (1 + abs(float(loss))),
                'logged-loss', lambda: 'step %d: loss %r was logged, that of '
                'the whole batch is %r' % (step, row['loss'], float(loss)))
        w.check(abs(row['train/lr'] - float(ref.rate(step))) <= 1e-6,
                'logged-rate', lambda: 'step %d: rate %r logged, %r in the '
                'schedule' % (step, row['train/lr'], float(ref.rate(step))))
    prev = now
  return prev


def links(w, step, calls, samples, ids, pcd, before, t0):
  """The sampler calls of a step form one chain per device; their heads."""
  heads = []
  for d in range(samples.shape[0]):
    mine = sorted((r for r in calls if r['id'] == ids[d]),
                  key=lambda r: r['t'])
    w.check([r['t'] for r in mine] == list(range(t0, t0 + pcd)), 'chain',
            lambda: 'step %d: the chain of device %d was moved at its steps '
            '%r, should be %d to %d' % (step, d, [r['t'] for r in mine], t0,
                                        t0 + pcd - 1))
    for a, b in zip(mine, mine[1:]):
      w.check(np.array_equal(a['new'], b['x']), 'chain', lambda: 'step %d: '
              'device %d: a sampler step does not start where the one before '
              'ended' % (step, d))
    w.check(np.array_equal(mine[-1]['new'], samples[d]), 'chain', lambda:
            'step %d: the negative samples of device %d are not what the '
            'sampler produced' % (step, d))
    if before is not None:
      w.check(np.array_equal(mine[0]['x'], before[d]), 'persistence', lambda:
              'step %d: the chain of device %d does not go on from where it '
              'was' % (step, d))
    heads.append(mine[0]['x'])
  return heads


def rows(a):
  a = np.asarray(a)
  return sorted(tuple(int(v) for v in r) for r in a.reshape(-1, a.shape[-1]))


def buffer_moves(w, step, before, after, heads, ends, reinit):
  """What was taken from the buffer is replaced by what the chains became."""
  left = collections.Counter(rows(before))
  if not reinit:
    left.subtract(rows(np.concatenate(heads)))
    w.check(min(left.values()) >= 0, 'buffer', lambda: 'step %d: chains were '
            'started from samples that are not in the buffer, or twice from '
            'one' % step)
    left.update(rows(ends))
    now = collections.Counter(rows(after))
    w.check(+left == +now, 'buffer', lambda: 'step %d: the buffer does not '
            'hold what was left in it and the new samples' % step)
  w.check(np.shape(before) == np.shape(after) and set(
      np.unique(after)) <= {0, 1}, 'buffer', lambda: 'step %d: the buffer '
          'holds %r of shape %r' % (step, np.unique(after), np.shape(after)))
  gone = collections.Counter(rows(ends))
  gone.subtract(rows(after))
  w.check(max(gone.values()) <= 0, 'buffer', lambda: 'step %d: new samples '
          'were not put back into the buffer' % step)


def run(w):
  import jax  # pylint: disable=g-import-not-at-top
  from flax.training import checkpoints  # pylint: disable=g-import-not-at-top
  kind = ['rbm', 'ebm'][w.stratum('trainer', 2, w.index)]
  dev = w.pick('devices', [1, 2, 4])
  procs = w.pick('processes', [1, 1, 1, 2])
  c = config(w, kind, dev * procs)
  e = c.experiment
  root = lib.scratch()
  e.save_root = root
  rs = np.random.RandomState(w.key('data'))
  d = c.model.shape[0]
  x_train = rs.randint(0, 2, size=(12, d)).astype(np.float32)
  total = e.total_train_steps
  if procs > 1:
    e.save_every_steps = total + 1       # collective, not simulated
  short = w.chance('data-ends', 0.3)
  n_batches = w.between('batches', 1, total) if short else total + 2
  seed = w.key('seed')
  local = e.batch_size // procs // dev
  data = [rs.randint(0, 2, size=(dev, local, d)).astype(np.float32)
          for _ in range(n_batches)]
  w.log('train', kind, dev, procs, sorted(
      (k, v) for k, v in e.items() if k != 'save_root'))
  keys = set()
  crash = None
  if procs == 1 and w.chance('crash', 0.4):
    crash = 1 + w.integers('crash-after', min(total, n_batches))
  for proc in range(procs):
    seams.Topology(w, local=dev, process=proc, processes=procs)
    ref = None
    attempt = 0
    while True:
      np.random.seed(w.key('numpy'))
      with w.sut('trainer'):
        trainer, model, spy = build(kind, c, x_train)
        key, init = jax.random.split(jax.random.PRNGKey(seed))
        gs, ls = trainer.init_states(init)
      w.check(np.shape(ls.samples) == (dev, local, d), 'shapes', lambda:
              'process %d keeps chains of shape %r, its share is %r' % (
                  proc, np.shape(ls.samples), (dev, local, d)))
      watch = Watch(w, c, spy, dev, crash if attempt == 0 else None)
      watch.begin(trainer, ls)
      ref = ref or Reference(c, model)
      before = training.host(gs)
      out = None
      try:
        with w.sut('training loop'):
          out = trainer.train_loop(watch.log, key, gs, ls,
                                   watch.loader(data), fn_plot=watch.plot)
      except SimCrash:
        attempt += 1
        keys.clear()
        continue
      break
    done = min(total, n_batches)
    w.check(len(watch.steps) == done, 'steps', lambda: 'the loop made %d '
            'steps, %d were asked for and there were %d batches' % (
                len(watch.steps), total, n_batches))
    check_run(w, c, watch, ref, 1, before, kind, keys)
    final = training.host(out)
    for (n1, a), (_, b) in zip(training.leaves(final),
                               training.leaves(watch.steps[-1][1])):
      w.check(np.array_equal(a, b), 'final-state', lambda: 'the state '
              'returned is not that of the last step: %s' % n1)
    want = [s for s in range(1, done + 1) if s % e.log_every_steps == 0]
    w.check([r[0] for r in watch.log.rows] == want, 'log', lambda: 'metrics '
            'were logged at steps %r, should be %r' % (
                [r[0] for r in watch.log.rows], want))
  if procs == 1:
    resume(w, c, kind, x_train, root, watch, data, done, before, seed)
  w.probe('trainer:' + kind)
  w.probe('devices:%d' % dev)
  w.probe('optimizer:' + e.optimizer)
  w.sample = {'trainer': kind, 'devices': dev, 'steps': done,
              'optimizer': e.optimizer}


def resume(w, c, kind, x_train, root, watch, data, done, before, seed):
  """Checkpoints hold the states they are named after; training goes on."""
  import jax  # pylint: disable=g-import-not-at-top
  from flax.training import checkpoints  # pylint: disable=g-import-not-at-top
  e = c.experiment
  folder = os.path.join(root, 'ckpts')
  want = [s for s in range(1, done + 1) if s % e.save_every_steps == 0]
  have = sorted(int(f.split('_')[-1]) for f in os.listdir(folder)) if (
      os.path.isdir(folder)) else []
  w.check(have == want[-10:], 'checkpoints', lambda: 'checkpoints of steps %r '
          'are there, should be %r' % (have, want))
  for s in have:
    got = checkpoints.restore_checkpoint(folder, before, step=s)
    state = jax.tree_util.tree_map(lambda v: v[0], watch.steps[s - 1][1])
    for (n1, a), (_, b) in zip(training.leaves(got), training.leaves(state)):
      w.check(np.array_equal(a, b), 'checkpoint', lambda: 'the checkpoint of '
              'step %d has another %s than the state after that step' % (
                  s, n1))
  if not have or not w.chance('resume', 0.5):
    return
  at = have[w.integers('from', len(have))]
  state = checkpoints.restore_checkpoint(folder, before, step=at)
  with w.sut('trainer'):
    trainer, model, spy = build(kind, c, x_train)
    key, init = jax.random.split(jax.random.PRNGKey(seed))
    _, ls = trainer.init_states(init)
  again = Watch(w, c, spy, watch.dev)
  again.begin(trainer, ls)
  with w.sut('resumed training loop'):
    trainer.train_loop(again.log, key, state, ls, again.loader(data),
                       fn_plot=again.plot)
  left = min(e.total_train_steps - at, len(data))
  w.check(len(again.steps) == left, 'steps', lambda: 'resumed after step %d '
          'of %d with %d batches left, the loop made %d steps' % (
              at, e.total_train_steps, len(data), len(again.steps)))
  w.fault('resume-from-checkpoint')
  if left:
    check_run(w, c, again, Reference(c, model), at + 1,
              training.host(state), kind, set())
