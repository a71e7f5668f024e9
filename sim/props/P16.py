"""The training programs: the model they save is the model they trained."""
import errno
import itertools
import os
import sys

import numpy as np

from sim import cli
from sim import lib
from sim import seams
from sim import training
from sim.world import SimCrash

CONFIG = '''from discs.learning.%(pkg)s import exp_config


def get_config(arg):
  config = exp_config.get_config(arg)
  for part, values in %(over)r.items():
    for key, value in values.items():
      config[part][key] = value
  return config
'''


class Trainee:
  """A drawn configuration of one of the two training programs."""

  def __init__(self, w, kind, root):
    self.w, self.kind, self.root = w, kind, root
    self.dev = w.pick('devices', [1, 2])
    self.procs = w.pick('processes', [1, 1, 2])
    self.dim = 4
    total = w.between('steps', 1, 3)
    bs = self.dev * self.procs * w.between('batch', 1, 2)
    n = bs * (total + 1) + w.pick('more-data', [0, 0, 40, 150])
    exp = dict(total_train_steps=total, batch_size=bs,
               pcd_steps=w.between('pcd', 1, 2), log_every_steps=1,
               plot_every_steps=w.pick('plot-every', [1, 2]),
               # a checkpoint is a collective of all processes (not simulated)
               save_every_steps=1 if self.procs == 1 else total + 1,
               learning_rate=0.05, use_tqdm=False,
               ema_decay=w.pick('ema', [0.0, 0.9]))
    if kind == 'rbm':
      self.hidden = w.between('hidden', 2, 3)
      self.arg, self.pkg = 'mnist-2-%d' % self.hidden, 'rbm'
      model = dict(num_visible=self.dim, shape=(self.dim,))
      exp['shuffle_buffer_size'] = w.pick('shuffle', [0, 50])
      # not repeated: training ends with the data
      self.steps = min(total, n // bs)
    else:
      self.arg, self.pkg = 'static_mnist-1', 'binary_ebm'
      os.makedirs(os.path.join(root, 'MNIST_static'))
      model = dict(image_shape=(2, 2), shape=(self.dim,))
      exp.update(buffer_size=2 * bs, data_dir=root)
      self.steps = total
    self.out = os.path.join(root, 'models', self.arg)
    self.n = n
    self.redraw()
    path = os.path.join(root, 'train_config.py')
    with seams._REAL['open'](path, 'w') as f:  # pylint: disable=protected-access
      f.write(CONFIG % dict(pkg=self.pkg,
                            over={'experiment': exp, 'model': model}))
    self.flag = '--config=%s:%s' % (path, self.arg)
    w.log('training', kind, self.dev, self.procs, sorted(
        (k, v) for k, v in exp.items() if k != 'data_dir'), self.arg)

  def redraw(self):
    """Training data, drawn anew."""
    w, n = self.w, self.n
    rs = np.random.RandomState(w.key('data-seed'))
    if self.kind == 'rbm':
      self.images = rs.randint(0, 256, size=(n, 2, 2, 1)).astype(np.uint8)
      if w.chance('dark', 0.3):
        self.images[:, 0] = 0
      if w.chance('sorted', 0.5):     # a dataset may come in any order
        self.images = np.sort(self.images, axis=0)
      mean = self.images.reshape(n, -1).astype(np.float64).mean(0) / 255.0
      self.mean = np.clip(mean, 0.01, 0.99)
      return
    data = (rs.rand(n, self.dim) < rs.rand(self.dim)).astype(int)
    self.mean = data.mean(0)
    for part in ('train', 'valid', 'test'):
      with seams._REAL['open'](os.path.join(  # pylint: disable=protected-access
          self.root, 'MNIST_static', 'binarized_mnist_%s.amat' % part),
                               'w') as f:
        for row in (data if part == 'train' else data[:2]):
          f.write(' '.join(str(int(v)) for v in row) + '\n')

  def main(self, proc, seed):
    """One execution of the program by one process."""
    import tensorflow as tf  # pylint: disable=g-import-not-at-top
    from absl import flags  # pylint: disable=g-import-not-at-top
    seams.Topology(self.w, local=self.dev, process=proc, processes=self.procs)
    name = 'main_rbm_training' if self.kind == 'rbm' else (
        'main_binary_training')
    mod = training.program('discs.learning.%s.%s' % (self.pkg, name))
    if self.kind == 'rbm':
      sys.modules['tensorflow_datasets'].load = lambda *a, **k: (
          tf.data.Dataset.from_tensor_slices({'image': self.images}))
    tf.random.set_seed(seed)
    np.random.seed(seed)
    argv = [name, self.flag, '--seed=%d' % seed,
            '--save_root=%s' % os.path.join(self.root, 'models')]
    flags.FLAGS.unparse_flags()
    mod.main(flags.FLAGS(argv))

  def model_config(self):
    from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
    return config_dict.ConfigDict(dict(model=dict(
        name='rbm' if self.kind == 'rbm' else 'resnet', num_categories=2,
        visualize=False, data_path=self.out)))

  def load(self):
    """The model the sampling program makes of the directory."""
    cfg = self.model_config()
    if self.kind == 'rbm':
      from discs.models import rbm as mod  # pylint: disable=g-import-not-at-top
    else:
      from discs.models import resnet as mod  # pylint: disable=g-import-not-at-top
    return mod.build_model(cfg)

  def table(self):
    """Log-likelihood of every sample under the saved model, start mean."""
    import jax  # pylint: disable=g-import-not-at-top
    m = self.load()
    p = m.make_init_params(jax.random.PRNGKey(0))
    x = np.array(list(itertools.product((0, 1), repeat=self.dim)), np.float32)
    ll = np.asarray(m.forward(p, x), np.float64)
    x0 = np.asarray(m.get_init_samples(jax.random.PRNGKey(7), 4000))
    return ll, x0, np.concatenate([ll, x0.mean(0).ravel()])


def expected(t, params):
  """Log-likelihood of every sample from the definitions."""
  x = np.array(list(itertools.product((0, 1), repeat=t.dim)), np.float64)
  if t.kind == 'rbm':
    p = {k: np.asarray(v, np.float64) for k, v in params.items()}
    return (np.logaddexp(0, x @ p['w'] + p['b_h']).sum(-1)
            + (x * p['b_v']).sum(-1))
  from discs.models import resnet  # pylint: disable=g-import-not-at-top
  net = resnet.ResnetBinary(n_channels=1, image_shape=(2, 2))
  e = np.asarray(net.apply({'params': params}, x=x.astype(np.float32)),
                 np.float64)
  m = np.asarray(t.mean, np.float32).astype(np.float64)
  return e + (x * np.log(m + 1e-20) + (1 - x) * np.log(1 - m + 1e-20)).sum(-1)


def finished(w, t, what):
  """A training that ended: its model is there, whole, and the trained one."""
  w.check(os.path.exists(os.path.join(t.out, 'params.pkl')), 'no-model',
          '%s ended and saved no model' % what)
  with w.sut('loading the trained model'):
    got, x, _ = t.table()
  if t.procs == 1:
    from flax.training import checkpoints  # pylint: disable=g-import-not-at-top
    folder = os.path.join(t.out, 'ckpts')
    have = sorted(int(f.split('_')[-1]) for f in os.listdir(folder))
    w.check(have and have[-1] == t.steps, 'steps', lambda: '%s was to make %d '
            'steps, the last checkpoint is of step %r' % (
                what, t.steps, have[-1:]))
    state = checkpoints.restore_checkpoint(folder, None, step=t.steps)
    want = expected(t, state['params'])
    tol = 1e-4 * (1 + np.abs(want).max())
    i = int(np.abs(got - want).argmax())
    w.check(np.abs(got - want).max() <= tol, 'not-the-trained-model', lambda:
            '%s: the saved model gives sample %d the log-likelihood %.6f, the '
            'parameters after the last step give %.6f' % (
                what, i, got[i], want[i]))
  off = np.abs(x.mean(0) - t.mean)
  bound = 6 * np.sqrt(t.mean * (1 - t.mean) / 4000) + 0.004
  w.check(x.shape == (4000, t.dim) and (off < bound).all(), 'start', lambda:
          '%s: start samples have mean %s, the training data %s' % (
              what, np.round(x.mean(0), 3), np.round(t.mean, 3)))
  return got


def train(w, t, seed, what, tables):
  for proc in w.shuffled('process-order', range(t.procs)):
    with w.sut(what):
      t.main(proc, seed)
    training.after_process()
    # in the simulation processes do not average their gradients: each
    # process' model is remembered, whichever of them saves it.
    if os.path.exists(os.path.join(t.out, 'params.pkl')):
      with w.sut('loading the trained model'):
        tables.append(t.table()[2])


def run(w):
  kind = ['rbm', 'rbm', 'rbm', 'ebm'][w.stratum('program', 4, w.index)]
  root = lib.scratch()
  t = Trainee(w, kind, root)
  tables = []
  fault = w.pick('fault', ['stop', 'crash', 'torn-crash', 'ENOSPC', 'EIO'])
  fresh = w.chance('fresh', 0.3)
  if not fresh:
    train(w, t, 1, 'the first training', tables)
    old = finished(w, t, 'the first training')
    w.log('old', np.round(old, 3).tolist())
    if w.chance('other-data', 0.7):
      t.redraw()
  found = disturbed(w, t, fault)
  if found is None:
    w.check(fresh, 'model-lost', 'after a %s in a later training the model '
            'trained before can no longer be loaded' % fault)
  train(w, t, 2, 'training again', tables)
  new = finished(w, t, 'training again')
  w.log('new', np.round(new, 3).tolist())
  if found is not None:
    w.check(any(np.allclose(found, v, rtol=1e-5, atol=1e-6)
                for v in tables), 'mixed-model', lambda: 'after a %s '
            'the directory holds a model that no training gave' % fault)
    w.probe('model-after-fault')
  if kind == 'rbm' and w.chance('sample', 0.3):
    sample(w, t)
  w.probe('program:' + kind)
  w.probe('processes:%d' % t.procs)
  w.sample = {'program': kind, 'devices': t.dev, 'processes': t.procs,
              'steps': t.steps, 'fault': fault}


def disturbed(w, t, fault):
  """Trains with a fault; returns the table of the model found, if any."""
  order = w.shuffled('process-order', range(t.procs))
  victim = w.integers('victim', t.procs)
  at = 1 + w.integers('fault-at', 8 if fault == 'stop' else 12)
  state = {'n': 0, 'hit': False}

  def inject(op, path, size):
    base = os.path.basename(path)
    if os.path.dirname(path) or not base.startswith(('params.', 'config.')):
      return None          # checkpoints and logs are not ours
    state['n'] += 1
    if state['n'] < at or state['hit']:
      return None
    write = op == 'write'
    if fault == 'torn-crash' and not write:
      return None
    if fault == 'ENOSPC' and op not in ('write', 'open-w'):
      return None
    if fault == 'EIO' and op not in ('write', 'open-w', 'rename'):
      return None
    state['hit'] = True
    w.fault('process-crash' if fault == 'crash' else fault)
    exc = SimCrash() if 'crash' in fault else OSError(
        getattr(errno, fault), 'injected')
    if write and fault != 'crash':
      return w.integers('reaches-disk', size + 1), exc
    return exc

  def stop(d, fn, a, k):
    state['n'] += 1
    if state['n'] == at:
      state['hit'] = True
      w.fault('process-stop')
      raise SimCrash()
    return fn(*a, **k)
  for proc in order:
    failed = None
    if proc == victim:
      if fault == 'stop':
        w.on_dispatch = stop
      else:
        seams.SimFS(w, t.out, inject, buffered=w.chance('buffered', 0.5))
    try:
      with w.sut('training', allow=(OSError,)):
        t.main(proc, 2)
    except SimCrash as e:
      failed = e
    except OSError as e:
      failed = e
    w.fs = None
    w.on_dispatch = None
    training.after_process()
    w.log('process', proc, proc == victim and state['hit'],
          type(failed).__name__)
    if proc == victim:
      w.check(not (state['hit'] and failed is None), 'hidden-failure', lambda:
              'training was hit by %s while it wrote its model and ended as '
              'if it had worked' % fault)
    w.check(failed is None or (proc == victim and state['hit']), 'exception',
            lambda: 'training failed without a fault: %r' % (failed,))
  if state['hit']:
    w.probe('hit:' + fault)
  try:
    tab = t.table()[2]
  except Exception as e:  # pylint: disable=broad-except
    w.log('no model', type(e).__name__)
    return None
  return tab


def sample(w, t):
  """The sampling program, given the directory of the trained model."""
  root = os.path.join(t.root, 'sampling')
  os.makedirs(root)
  exp = dict(name='Sampling_Experiment', evaluator='ess_eval', batch_size=4,
             chain_length=4, num_models=1, run_parallel=False,
             log_every_steps=1, save_root=os.path.join(root, 'out'))
  s = dict(name='randomwalk', adaptive=False, target_acceptance_rate=0.5)
  seams.Topology(w, local=1)
  training.program('discs.experiment.main_sampling')
  model = t.model_config().model.to_dict()
  prog = cli.Bare(w, root, exp, model, s)
  with w.sut('the sampling program on the trained model'):
    prog.run()
  out = [f for f in os.listdir(exp['save_root']) if f.startswith('results')]
  w.check(out, 'no-results', 'sampling from the trained model saved nothing')
  w.probe('sampled')
