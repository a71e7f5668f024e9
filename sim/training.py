"""The training part under simulation: stubs, spies, reference updates."""
import importlib
import importlib.util
import os
import sys
import threading
import types

import numpy as np

_DONE = {}


def install():
  """Modules the training programs import and this machine does not have."""
  if _DONE:
    return
  _DONE['x'] = True
  os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
  for n in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision',
            'torchvision.transforms', 'tensorflow_datasets'):
    top = n.split('.')[0]
    if top not in _DONE and importlib.util.find_spec(top) is not None:
      continue
    _DONE[top] = True
    sys.modules[n] = types.ModuleType(n)
    if '.' in n:
      parent, name = n.rsplit('.', 1)
      setattr(sys.modules[parent], name, sys.modules[n])
  import discs.common  # pylint: disable=g-import-not-at-top
  if importlib.util.find_spec('discs.common.plot') is None:
    plot = types.ModuleType('discs.common.plot')
    plot.plot_shareded_image = lambda *a, **k: None
    sys.modules['discs.common.plot'] = plot
    discs.common.plot = plot
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  tf.config.set_visible_devices([], 'GPU')
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.config.threading.set_inter_op_parallelism_threads(2)
  tf.config.experimental.enable_op_determinism()
  # The RBM program expects two accelerators on the machine.
  tf.config.list_physical_devices = lambda *a, **k: ['gpu-0', 'gpu-1']
  tf.config.experimental.set_memory_growth = lambda *a, **k: None
  _install_data_seam(tf)


def _install_data_seam(tf):
  """Orders tf.data leaves open are the simulator's, new for every pipeline."""
  from sim import seams  # pylint: disable=g-import-not-at-top
  cls = tf.data.Dataset
  shuffle, mapping = cls.shuffle, cls.map

  def draw(w):
    w.unseeded = getattr(w, 'unseeded', 0) + 1
    return w.key('unseeded-order:%d' % w.unseeded) % (2**31 - 1)

  def sim_shuffle(self, buffer_size, seed=None, *a, **k):
    w = seams.active()
    if seed is None and w is not None:
      seed = draw(w)
    return shuffle(self, buffer_size, seed, *a, **k)

  def sim_map(self, map_func, *a, **k):
    w = seams.active()
    out = mapping(self, map_func, *a, **k)
    if k.get('deterministic') is False and w is not None:
      out = shuffle(out, 4, draw(w))
    return out
  for c in {cls, getattr(tf.compat.v2.data, 'Dataset', cls)}:
    c.shuffle, c.map = sim_shuffle, sim_map


def program(name):
  """Imports a program; programs define the same flags, each for itself."""
  from absl import flags  # pylint: disable=g-import-not-at-top
  install()
  if name not in sys.modules:
    for f in ('config', 'seed', 'save_root', 'model_config', 'sampler_config',
              'run_local'):
      if f in flags.FLAGS:
        delattr(flags.FLAGS, f)
    importlib.import_module(name)
    _FLAGS[name] = {f: flags.FLAGS[f] for f in (
        'config', 'seed', 'save_root', 'model_config', 'sampler_config',
        'run_local') if f in flags.FLAGS}
  if name in _FLAGS:
    for f in ('config', 'seed', 'save_root', 'model_config', 'sampler_config',
              'run_local'):
      if f in flags.FLAGS:
        delattr(flags.FLAGS, f)
    for f, flag in _FLAGS[name].items():
      flags.FLAGS[f] = flag
  return sys.modules[name]


_FLAGS = {}


def after_process():
  """Nothing of a process outlives it but its files."""
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  plt.close('all')


class Log:
  """Stands in for the metric writer."""

  def __init__(self):
    self.rows = []

  def write_scalars(self, step, values):
    self.rows.append((int(step), {k: float(v) for k, v in values.items()}))

  def flush(self):
    pass

  def close(self):
    pass


class ChainSpy:
  """The real sampler, reporting the steps it takes on every device."""

  def __init__(self, real):
    self._real = real
    self.rec = []
    self._lock = threading.Lock()

  def _cb(self, ident, t, rng, x, new_x, fp):
    with self._lock:
      self.rec.append(dict(
          id=int(ident), t=int(t), x=np.array(x), new=np.array(new_x),
          key=tuple(np.asarray(rng).ravel().tolist()), fp=float(fp)))

  def take(self):
    import jax  # pylint: disable=g-import-not-at-top
    jax.effects_barrier()
    with self._lock:
      out, self.rec = self.rec, []
    return out

  def make_init_state(self, rng):
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    return {'real': self._real.make_init_state(rng),
            'sim_id': (rng[0] ^ rng[1]).astype(jnp.uint32),
            'sim_t': jnp.zeros((), jnp.int32)}

  def step(self, model, rng, x, model_param, state, *a, **k):
    import jax  # pylint: disable=g-import-not-at-top
    out = self._real.step(model=model, rng=rng, x=x, model_param=model_param,
                          state=state['real'], *a, **k)
    jax.debug.callback(self._cb, state['sim_id'], state['sim_t'], rng, x,
                       out[0], fingerprint(model_param))
    return (out[0], {'real': out[1], 'sim_id': state['sim_id'],
                     'sim_t': state['sim_t'] + 1}) + tuple(out[2:])

  def __getattr__(self, item):
    return getattr(self._real, item)


def fingerprint(params):
  """A number that tells parameter values apart."""
  import jax  # pylint: disable=g-import-not-at-top
  import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
  s = jnp.float32(0)
  for i, v in enumerate(jax.tree_util.tree_leaves(params)):
    v = jnp.asarray(v, jnp.float32).ravel()
    s = s + jnp.sum(v * (1.0 + 0.37 * i + 0.01 * jnp.arange(v.size)))
  return s


def host(tree):
  import jax  # pylint: disable=g-import-not-at-top
  return jax.tree_util.tree_map(np.array, jax.device_get(tree))


def leaves(tree):
  import jax  # pylint: disable=g-import-not-at-top
  out = jax.tree_util.tree_flatten_with_path(tree)[0]
  return [(jax.tree_util.keystr(p), np.asarray(v)) for p, v in out]


def names(params):
  """Parameters by name, whatever kind of mapping holds them."""
  if hasattr(params, 'items'):
    out = {}
    for k, v in params.items():
      for n, x in names(v).items():
        out[(k,) + n] = x
    return out
  return {(): np.asarray(params)}
