"""Shared building blocks: tiny systems built through the public entry points."""
import importlib
import itertools
import os
import pickle
import shutil
import tempfile

import jax
import jax.numpy as jnp
from ml_collections import config_dict
import networkx as nx
import numpy as np

from sim import seams

BAL = ('SQRT', 'RATIO', 'MAX', 'MIN')


def scratch():
  """A scratch directory removed at the end of the run."""
  d = tempfile.mkdtemp(prefix='simdiscs-')
  seams.on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
  return d


def config(model, sampler=None, **exp):
  e = dict(
      name='Sampling_Experiment', evaluator='ess_eval', num_models=1,
      batch_size=4, chain_length=10, ess_ratio=0.5, run_parallel=False,
      get_additional_metrics=False, shuffle_buffer_size=0, log_every_steps=2,
      plot_every_steps=10, save_root='', fig_folder='', save_every_steps=2,
      save_samples=False, get_estimation_error=False, use_tqdm=False,
      co_opt_prob=False, window_size=10, window_stride=10)
  e.update(exp)
  return config_dict.ConfigDict(
      dict(model=dict(model), sampler=dict(sampler or {}), experiment=e))


def build_model(cfg):
  return importlib.import_module(
      'discs.models.' + cfg.model.name).build_model(cfg)


def build_sampler(cfg):
  return importlib.import_module(
      'discs.samplers.' + cfg.sampler.name).build_sampler(cfg)


# ---- sampler configurations ------------------------------------------------


def sampler_cfgs():
  """Every sampler of the library with every option that changes its kernel."""
  out = []
  for ad in (True, False):
    out.append(dict(name='randomwalk', adaptive=ad,
                    target_acceptance_rate=0.237))
  out.append(dict(name='gibbs'))
  for b in (1, 2, 3):
    out.append(dict(name='blockgibbs', block_size=b))
  for b in (1, 2, 3):
    out.append(dict(name='hammingball', block_size=b))
  for bal in BAL:
    common = dict(target_acceptance_rate=0.574, balancing_fn_type=bal)
    out.append(dict(name='gwg', adaptive=True, num_flips=1, **common))
    out.append(dict(name='gwg', adaptive=False, num_flips=1, **common))
    out.append(dict(name='gwg', adaptive=False, num_flips=2, **common))
    out.append(dict(name='dmala', adaptive=True, schedule_step=6,
                    reset_z_est=4, step_size=0.2, **common))
    out.append(dict(name='dmala', adaptive=False, step_size=0.4, **common))
    for solver in ('interpolate', 'euler_forward'):
      out.append(dict(name='dlmc', adaptive=True, schedule_step=6,
                      reset_z_est=4, solver=solver, n=2.0, **common))
      out.append(dict(name='dlmc', adaptive=False, schedule_step=6,
                      solver=solver, n=2.0, **common))
    for ad, nf in ((True, 1), (False, 1), (False, 2), (True, 3)):
      out.append(dict(name='path_auxiliary', adaptive=ad, use_fast_path=True,
                      num_flips=nf, approx_with_grad=True, **common))
  for bal, ad, nf in (('SQRT', True, 1), ('RATIO', False, 2)):
    out.append(dict(name='path_auxiliary', adaptive=ad, use_fast_path=True,
                    num_flips=nf, approx_with_grad=False,
                    target_acceptance_rate=0.574, balancing_fn_type=bal))
  return out


def pick_model(w, s, pool):
  if s.get('approx_with_grad') is False:
    return 'maxcut'      # the exact neighbourhood ratios exist for this one
  return w.pick('model', pool)


# ---- graph datasets --------------------------------------------------------


def rand_graph(rs, n, p, weighted=False):
  g = nx.Graph()
  g.add_nodes_from(range(n))
  for i in range(n):
    for j in range(i + 1, n):
      if rs.rand() < p:
        if weighted:
          g.add_edge(i, j, weight=float(rs.randint(1, 5)))
        else:
          g.add_edge(i, j)
  if g.number_of_edges() == 0:
    if weighted:
      g.add_edge(0, 1, weight=2.0)
    else:
      g.add_edge(0, 1)
  return g


def sat_graph(rs, n_clauses, nv):
  """A 3-CNF formula and the graph of its reduction to independent set."""
  clauses = []
  for _ in range(n_clauses):
    vs = rs.choice(np.arange(1, nv + 1), 3, replace=nv < 3)
    clauses.append([int(v) * (1 if rs.rand() < 0.5 else -1) for v in vs])
  g = nx.Graph(cnf=(nv, clauses))
  lits = [v for c in clauses for v in c]
  g.add_nodes_from(range(len(lits)))
  for a in range(len(lits)):
    for b in range(a):
      if a // 3 == b // 3 or lits[a] == -lits[b]:
        g.add_edge(b, a)
  return g


def _dump(path, objs):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    for o in objs:
      pickle.dump(o, f)


def write_dataset(root, kind, graphs, sols, files):
  """Writes graphs in the on-disk layout of one of the benchmark datasets.

  `files` partitions the instances: a list of (file name stem, [indices]).
  Returns the model section of the configuration.
  """
  base = dict(data_root=root, max_num_nodes=0, max_num_edges=0,
              num_instances=0, num_categories=2, shape=(0,), cfg_str='r-x')
  if kind in ('ba', 'er'):
    rt = 'r1'
    d = os.path.join(root, 'maxcut-' + kind, 'maxcut-' + rt)
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      _dump(os.path.join(d, 'test-%s.pkl' % stem),
            [(graphs[i], (sols[i], 0.0)) for i in idx])
    return dict(base, name='maxcut', graph_type=kind, rand_type=rt)
  if kind == 'optsicom':
    d = os.path.join(root, 'optsicom')
    order = [i for _, idx in files for i in idx]
    _dump(os.path.join(d, 'b.pkl'),
          [(graphs[i], (sols[i], 0.0)) for i in order])
    return dict(base, name='maxcut', graph_type='optsicom', rand_type='b')
  if kind == 'ertest':
    d = os.path.join(root, 'er_x_test')
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      for j, i in enumerate(idx):
        _dump(os.path.join(d, 'ER-%s-%03d.gpickle' % (stem, j)), [graphs[i]])
    return dict(base, name='mis', graph_type='ertest', rand_type='x',
                penalty=1.001)
  if kind == 'satlib':
    d = os.path.join(root, 'satlib_test')
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      for j, i in enumerate(idx):
        nv, clauses = graphs[i].graph['cnf']
        with open(os.path.join(d, '%s-%03d.cnf' % (stem, j)), 'w') as f:
          f.write('c simulated instance\np cnf %d %d\n' % (nv, len(clauses)))
          for c in clauses:
            f.write(' '.join(str(v) for v in c) + ' 0\n')
    return dict(base, name='mis', graph_type='satlib', rand_type='',
                penalty=1.001)
  if kind == 'er_density':
    order = [i for _, idx in files for i in idx]
    _dump(os.path.join(root, 'er_700_800', 'ER-700-800-x.pkl'),
          [[graphs[i] for i in order]])
    return dict(base, name='mis', graph_type='er_density', rand_type='x',
                penalty=1.001)
  if kind == 'rb':
    d = os.path.join(root, 'RB_test')
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      _dump(os.path.join(d, 'RB-%s.pkl' % stem),
            [[(sols[i], graphs[i]) for i in idx]])
    return dict(base, name='maxclique', graph_type='rb', rand_type='',
                penalty=1.0)
  if kind == 'twitter':
    d = os.path.join(root, 'twitter')
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      _dump(os.path.join(d, 'twitter-%s.pkl' % stem),
            [([graphs[i] for i in idx], [sols[i] for i in idx])])
    return dict(base, name='maxclique', graph_type='twitter', rand_type='',
                penalty=1.0)
  if kind == 'nets':
    _dump(os.path.join(root, 'nets', 'net.pkl'), [graphs[files[0][1][0]]])
    return dict(base, name='normcut', graph_type='nets', rand_type='net',
                num_categories=3, penalty=0.0005, tolerance=0.03,
                stype='quad')
  if kind == 'gap_rand':
    d = os.path.join(root, 'gap_rand', 'x')
    os.makedirs(d, exist_ok=True)
    for stem, idx in files:
      for j, i in enumerate(idx):
        _dump(os.path.join(d, '%s-%03d.pkl' % (stem, j)), [graphs[i]])
    return dict(base, name='normcut', graph_type='gap_rand', rand_type='x',
                num_categories=3, penalty=1.0, tolerance=0.03,
                max_num_nodes=max(len(g) for g in graphs),
                max_num_edges=max(g.number_of_edges() for g in graphs),
                num_instances=len(graphs))
  raise ValueError(kind)


# ---- tiny energy models ----------------------------------------------------


class Sys:
  """A model with its parameters and its exactly enumerated target."""

  def __init__(self, cfg, model, params, mask=None):
    self.cfg, self.model, self.params, self.mask = cfg, model, params, mask
    self.shape = tuple(cfg.model.shape)
    self.nc = int(cfg.model.num_categories)
    self.dim = int(np.prod(self.shape))
    self.n_states = self.nc ** self.dim
    self.weights = self.nc ** np.arange(self.dim)[::-1]

  def states(self):
    s = np.array(list(itertools.product(range(self.nc), repeat=self.dim)),
                 dtype=np.int32)
    return s.reshape((-1,) + self.shape)

  def target(self):
    e = np.asarray(
        self.model.forward(self.params, jnp.array(self.states())),
        dtype=np.float64)
    if not np.all(np.isfinite(e)):
      raise ValueError('energy is not finite')
    p = np.exp(e - e.max())
    return p / p.sum()

  def index(self, x):
    return np.asarray(x).reshape(len(x), -1).astype(np.int64) @ self.weights


BINARY = ('bernoulli', 'bernoulli2d', 'ising', 'fhmm', 'rbm', 'maxcut', 'mis',
          'maxclique', 'resnet')
CATEG = ('categorical', 'categorical2d', 'potts', 'fhmm_c', 'fhmm_k',
         'rbm_c', 'normcut', 'normcut_rand')


def write_trained(root, model_cfg, params):
  """Writes a trained model the way the training programs do."""
  os.makedirs(root, exist_ok=True)
  with open(os.path.join(root, 'params.pkl'), 'wb') as f:
    pickle.dump({'params': params}, f)
  with open(os.path.join(root, 'config.yaml'), 'w') as f:
    f.write(config_dict.ConfigDict(dict(model=dict(model_cfg))).to_yaml())


def model_cfg(w, name, rs, big=False):
  """Model section of a tiny instance of `name` (datasets go to scratch)."""
  u = lambda lo, hi: float(np.round(lo + (hi - lo) * rs.rand(), 3))
  if name == 'bernoulli':
    return dict(name='bernoulli', shape=(w.between('dim', 3, 12 if big else 5),),
                num_categories=2, init_sigma=u(0.4, 1.2))
  if name == 'bernoulli2d':
    return dict(name='bernoulli', shape=(2, 2), num_categories=2,
                init_sigma=u(0.4, 1.2))
  if name == 'ising':
    return dict(name='ising', shape=w.pick('shape', [(2, 2), (3, 2), (1, 4)] + (
                    [(3, 3), (4, 3)] if big else [])),
                num_categories=2, lambdaa=u(0.15, 0.5), mu=u(0.1, 0.4),
                init_sigma=u(0.2, 0.8))
  if name == 'fhmm':
    return dict(name='fhmm', shape=w.pick('shape', [(2, 2), (3, 2)]),
                num_categories=2, sigma=2.0, alpha=u(0.2, 0.4),
                beta=u(0.6, 0.8))
  if name == 'rbm':
    return dict(name='rbm', shape=(4,), num_visible=4,
                num_hidden=w.between('hidden', 1, 4), num_categories=2)
  if name == 'categorical':
    return dict(name='categorical', shape=(w.between('dim', 2, 8 if big else 3),),
                num_categories=w.between('nc', 3, 6 if big else 4), init_sigma=u(0.4, 1.0))
  if name == 'categorical2d':
    return dict(name='categorical', shape=(2, 2), num_categories=3,
                init_sigma=u(0.3, 0.8))
  if name == 'potts':
    return dict(name='potts', shape=w.pick('shape', [(2, 2), (1, 3)] + (
                    [(3, 3)] if big else [])),
                num_categories=3, lambdaa=u(0.2, 0.6), mu=u(0.1, 0.4),
                init_sigma=u(0.2, 0.6))
  if name in ('fhmm_c', 'fhmm_k'):
    return dict(name='fhmm', shape=(2, 2) if name == 'fhmm_c' else (1, 3),
                num_categories=3, sigma=2.0, alpha=u(0.4, 0.6),
                beta=u(0.5, 0.7))
  if name == 'rbm_c':
    d = scratch()
    nv, nh, nc = 3, 2, 3
    mc = dict(name='rbm', shape=(nv,), num_visible=nv, num_hidden=nh,
              num_categories=nc)
    dm = rs.dirichlet(np.ones(nc) * 4, size=nv)
    write_trained(d, mc, dict(
        b_v=np.log(dm).astype(np.float32),
        b_h=(rs.randn(nh) * 0.3).astype(np.float32),
        w=(rs.randn(nh, nv, nc) * 0.5).astype(np.float32),
        data_mean=dm.tolist()))
    return dict(mc, data_path=d)
  if name == 'rbm_t':
    d = scratch()
    nv, nh = 4, w.between('hidden', 1, 4)
    mc = dict(name='rbm', shape=(nv,), num_visible=nv, num_hidden=nh,
              num_categories=2)
    dm = rs.uniform(0.2, 0.8, size=nv)
    write_trained(d, mc, dict(
        b_v=np.log(dm / (1 - dm)).astype(np.float32),
        b_h=(rs.randn(nh) * 0.3).astype(np.float32),
        w=(rs.randn(nv, nh) * 0.5).astype(np.float32),
        data_mean=dm.tolist()))
    return dict(mc, data_path=d)
  if name == 'resnet':
    return dict(name='resnet', shape=(4,), image_shape=(2, 2), n_channels=2,
                num_categories=2, data_mean=[0.3, 0.6, 0.5, 0.4])
  root = scratch()
  n = w.between('nodes', 3, 7 if big else 4)
  m = 7 if big else 4
  if name == 'maxcut':
    gs = [rand_graph(rs, n, 0.6, True), rand_graph(rs, m, 0.6, True)]
    mc = write_dataset(root, w.pick('kind', ['ba', 'er', 'optsicom']), gs,
                       [1.0, 1.0], [('a', [0]), ('b', [1])])
  elif name in ('mis', 'maxclique'):
    gs = [rand_graph(rs, n, 0.5), rand_graph(rs, m, 0.5)]
    kind = w.pick('kind', ['ertest', 'er_density'] if name == 'mis'
                  else ['rb', 'twitter'])
    mc = write_dataset(root, kind, gs, [1, 1], [('a', [0]), ('b', [1])])
  else:
    g = rand_graph(rs, 4, 0.7)
    for i in range(4):   # every node has an edge: volumes are positive
      if g.degree(i) == 0:
        g.add_edge(i, (i + 1) % 4)
    kind = 'nets' if name == 'normcut' else 'gap_rand'
    mc = write_dataset(root, kind, [g], [1.0], [('a', [0])])
  return dict(mc, num_models=1)


def make_system(w, name, sampler, co_temp=None, big=False):
  """Builds model, parameters, sampler of one tiny system."""
  rs = np.random.RandomState(w.key('model-seed'))
  cfg = config(model_cfg(w, name, rs, big), sampler)
  with w.sut('building model ' + name):
    model = build_model(cfg)
    params = model.make_init_params(jax.random.PRNGKey(w.key('param-seed')))
  mask = None
  if isinstance(params, list):       # combinatorial problem: one instance
    params = dict(params[0][1])
    params['temperature'] = jnp.float32(co_temp or w.pick(
        'temperature', [2.0, 1.0, 3.0]))
    mask = params.get('mask')
  cfg.model.shape = tuple(cfg.model.shape)
  with w.sut('building sampler ' + sampler['name']):
    smp = build_sampler(cfg)
  return Sys(cfg, model, params, mask), smp
