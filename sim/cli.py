"""The sampling program itself (discs/experiment/main_sampling.py), simulated.

The configuration files are written to scratch and the program is started
through its command-line flags; everything it does after that runs under the
seams: clock, file system, devices, directory order.
"""
import csv
import hashlib
import importlib
import io
import os
import pickle
import sys

import numpy as np

from sim import exper
from sim import lib
from sim import seams
from sim.world import SimCrash

CLASSIC = ('bernoulli', 'ising', 'categorical', 'potts', 'fhmm', 'rbm_t',
           'bernoulli')
SAMPLERS = [s for s in lib.sampler_cfgs()
            if s.get('approx_with_grad') is not False]
LM_SAMPLERS = [s for s in SAMPLERS if s['name'] in ('randomwalk', 'gwg', 'dmala')
               and s.get('num_flips', 1) < 3]
FAMILIES = ('co', 'classic', 'ebm', 'co', 'classic', 'lm')


def _cfg_file(path, d):
  with seams._REAL['open'](path, 'w') as f:  # pylint: disable=protected-access
    f.write('from ml_collections import config_dict\n\n\n'
            'def get_config():\n  return config_dict.ConfigDict(%r)\n' % (d,))


class Program:
  """A drawn configuration of the sampling program."""

  def __init__(self, w, family=None, devices=(1, 2)):
    self.family = family or FAMILIES[w.stratum('family', len(FAMILIES),
                                               w.index)]
    rs = np.random.RandomState(w.key('program-seed'))
    self.dev = w.pick('devices', devices)
    s = SAMPLERS[w.integers('sampler', len(SAMPLERS))]
    par = self.dev > 1
    exp = dict(run_parallel=par, chain_length=2 * w.between('length', 2, 4),
               log_every_steps=w.pick('log-every', [1, 2]),
               batch_size=self.dev * w.between('batch', 2, 3))
    over = {}
    if self.family == 'co':
      kind = w.pick('kind', exper.KINDS)
      mc, self.prob, self.root = exper.make_problem(
          w, kind, w.between('instances', 1, 3))
      self.name = kind
      mc = dict(mc, cfg_str='r-' + mc['rand_type'])
      n = len(self.prob.graphs)
      models = 1 if kind == 'nets' else w.between('num_models', 1, 2)
      if par and models > self.dev:
        models = self.dev
      over = {k: mc[k] for k in ('max_num_nodes', 'max_num_edges', 'rand_type',
                                 'num_categories')}
      if 'penalty' in mc:
        over['penalty'] = mc['penalty']
      over.update(num_models=models, num_instances=mc['num_instances'])
      if kind == 'optsicom':
        over.pop('num_instances')
      exp.update(t_schedule=w.pick('schedule', ['constant', 'linear',
                                                'exp_decay']),
                 init_temperature=1.0, final_temperature=0.25, decay_rate=0.2,
                 save_samples=w.chance('save-samples', 0.6))
      self.batches = -(-n // models)
      model = {k: mc[k] for k in ('name', 'graph_type', 'cfg_str',
                                  'data_root')}
      for k in ('stype', 'penalty'):
        if k in mc:
          model[k] = mc[k]
    elif self.family == 'classic':
      self.name = CLASSIC[w.integers('model', len(CLASSIC))]
      model = lib.model_cfg(w, self.name, rs)
      self.root = lib.scratch()
      exp.update(save_samples=w.chance('save-samples', 0.6),
                 save_every_steps=w.pick('save-every', [1, 2]),
                 get_additional_metrics=w.chance('metrics', 0.4),
                 get_estimation_error=self.name == 'bernoulli' and w.chance(
                     'estimation-error', 0.8),
                 batch_size=4 * w.between('batch4', 1, 2))
    elif self.family == 'lm':
      from sim import bert  # pylint: disable=g-import-not-at-top
      self.name = 'text_infilling'
      self.root = lib.scratch()
      self.dev = 1
      masks, n = w.pick('masks', [2, 3]), w.between('sentences', 1, 2)
      data = bert.tasks(rs, n, masks, (6,), bert.SMALL)
      droot = os.path.join(self.root, 'data')
      os.makedirs(droot)
      bert.corpora(rs, droot, data)
      bm = bert.StandIn(rs, os.path.join(self.root, 'bert'), 1)
      s = LM_SAMPLERS[w.integers('lm-sampler', len(LM_SAMPLERS))]
      resample = w.between('resamples', 1, 3)
      exp.update(evaluator='lm_eval', name='Text_Infilling_Experiment',
                 batch_size=1, max_n_grams=2, num_same_resample=resample,
                 topk_num=w.between('k', 1, resample),
                 use_topk=w.chance('topk', 0.7), run_parallel=False)
      model = dict(shape=(masks,), num_categories=bert.SMALL, name=self.name,
                   bert_model=bm.path, data_root=droot + '/',
                   random_init_sample=w.chance('random-init', 0.3),
                   num_of_sentences=n, min_sentence_len=1,
                   max_sentence_len=20, save_dir_name=self.name)
    else:
      self.name = 'resnet'
      self.root = lib.scratch()
      dim = 4
      model = dict(name='resnet', shape=(dim,), image_shape=(2, 2),
                   n_channels=2, num_categories=2,
                   data_mean=[round(float(v), 3)
                              for v in rs.uniform(0.2, 0.8, size=dim)])
      exp.update(name='EBM_Experiment', evaluator='co_eval')
    self.out = os.path.join(self.root, 'out', 'run')
    exp['save_root'] = self.out
    self.sampler = s
    d = dict(experiment=exp)
    if over:
      d['model'] = over
    self.args = _args(self.root, d, model, s)
    self.exp = exp
    w.sample = {'program': self.name, 'sampler': s, 'devices': self.dev}
    w.log('program', self.name, s, self.dev, sorted(
        (k, v) for k, v in exp.items() if k != 'save_root'))
    w.probe('family:' + self.family)
    w.probe('devices:%d' % self.dev)

  def run(self):
    """One execution of the program."""
    _main(self.args)


def _flags(args):
  from absl import flags  # pylint: disable=g-import-not-at-top
  mod = importlib.import_module('discs.experiment.main_sampling')
  flags.FLAGS.unparse_flags()
  argv = ['main_sampling'] + args
  flags.FLAGS(argv)
  return mod, argv


def _main(args):
  mod, argv = _flags(args)
  mod.main(argv)


def _args(root, exp, model, sampler):
  cdir = os.path.join(root, 'cfg')
  os.makedirs(cdir)
  args = []
  for flag, name, val in (('config', 'exp', exp),
                          ('model_config', 'model', model),
                          ('sampler_config', 'sampler', sampler)):
    path = os.path.join(cdir, name + '_config.py')
    _cfg_file(path, val)
    args.append('--%s=%s' % (flag, path))
  return args


class Given:
  """The program with configuration files that are there already."""

  def __init__(self, root, args):
    self.root, self.args = root, args

  def run(self):
    _main(self.args)


class Bare:
  """The program with a given configuration."""

  def __init__(self, w, root, exp, model, sampler):
    self.w, self.root, self.out = w, root, exp['save_root']
    self.args = _args(root, dict(experiment=exp), model, sampler)

  def run(self):
    _main(self.args)

  def model(self):
    mod, _ = _flags(self.args)
    cfg = mod.get_main_config()
    return importlib.import_module(
        'discs.models.%s' % cfg.model.name).build_model(cfg)


def new_process():
  """Drops what a process loses when it ends (open figures)."""
  import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
  plt.close('all')


class Clocked:
  """Seeded virtual durations of dispatches, the same for every execution."""

  def __init__(self, w, seed, crash_at=None):
    self.w, self.n, self.crash_at = w, 0, crash_at
    self.rs = np.random.RandomState(seed)
    w.on_dispatch = self

  def __call__(self, d, fn, a, k):
    import jax  # pylint: disable=g-import-not-at-top
    self.n += 1
    if self.n == self.crash_at:
      self.w.fault('process-crash')
      raise SimCrash()
    out = fn(*a, **k)
    jax.block_until_ready(out)
    self.w.advance(float(1 + self.rs.randint(64)) / 64.0)
    return out


class Memo(Clocked):
  """Clocked, answering computations it has seen before from memory.

  A compiled function is a function of its arguments; asked for the same
  computation with the same arguments again (in a later execution of the same
  program), the devices give the same answer, here without computing it.
  """

  def __init__(self, w, seed, table):
    super().__init__(w, seed)
    self.table = table

  def __call__(self, d, fn, a, k):
    import jax  # pylint: disable=g-import-not-at-top
    leaves, tree = jax.tree_util.tree_flatten((a, k))
    try:
      key = hashlib.sha256(repr((
          d.site, str(tree), [(np.shape(x), np.asarray(x).dtype.str,
                               np.asarray(x).tobytes()) for x in leaves])
                                ).encode()).digest()
    except Exception:  # pylint: disable=broad-except
      return super().__call__(d, fn, a, k)
    if key not in self.table:
      out = super().__call__(d, fn, a, k)
      self.table[key] = jax.tree_util.tree_map(lambda x: x, out)
      return out
    self.n += 1
    self.w.probe('device-answer-replayed')
    self.w.advance(float(1 + self.rs.randint(64)) / 64.0)
    return jax.tree_util.tree_map(lambda x: x, self.table[key])


def plain(v):
  """Comparable form of what an artefact holds."""
  if isinstance(v, dict):
    return tuple(sorted((str(k), plain(x)) for k, x in v.items()))
  if isinstance(v, (list, tuple)):
    return ('seq',) + tuple(plain(x) for x in v)
  if isinstance(v, (str, int, bool, type(None))):
    return v
  a = np.asarray(v)
  return (a.shape, a.dtype.kind, a.tobytes())


TIMES = ('running_time', 'Time', 'ESS_T')


def decode(name, data, times=True):
  """Content of a complete artefact; raises if it is not complete."""
  if name.endswith('.pkl'):
    f = io.BytesIO(data)
    v = pickle.load(f)
    if f.read(1):
      raise ValueError('data after the end')
    if not times and isinstance(v, dict):
      v = {k: x for k, x in v.items() if k not in TIMES}
    return plain(v)
  if name.endswith('.csv'):
    text = data.decode()
    rows = list(csv.DictReader(io.StringIO(text)))
    if not rows or not text.endswith('\n') or any(
        None in r or None in r.values() for r in rows):
      raise ValueError('incomplete table')
    return tuple(tuple(sorted((k, x) for k, x in r.items()
                              if times or k not in TIMES)) for r in rows)
  return data


def artefacts(out):
  """Files of the result directory (event logs of the metric writer aside)."""
  got = {}
  if not os.path.isdir(out):
    return got
  for d, dirs, files in os.walk(out):
    if 'logs' in dirs:
      dirs.remove('logs')
    for f in files:
      p = os.path.join(d, f)
      with seams._REAL['open'](p, 'rb') as fh:  # pylint: disable=protected-access
        got[os.path.relpath(p, out)] = fh.read()
  return got
