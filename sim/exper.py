"""Whole experiments under simulation: spies, virtual time, reference values.

An experiment is run the way discs/experiment/main_sampling.py runs it, from
the public entry points.  A spy in front of the real sampler reports every
step it takes to the history of the run; the history, not the internals of
the experiment, is what the oracles compare the saved artefacts with.
"""
import hashlib
import importlib
import os
import pickle
import threading

import jax
import jax.numpy as jnp
import numpy as np

from sim import lib
from sim import seams
from sim.world import SimCrash


class History:
  """Steps reported by the spies, keyed by what the sampler was working on."""

  def __init__(self):
    self.rec = []
    self.keys = []
    self.lock = threading.Lock()

  def cb(self, t, x, new_x, temp, ident, mask, rng):
    with self.lock:
      self.keys.append((int(t), np.array(rng).tobytes()))
      self.rec.append((edges_key(*ident), int(t), np.array(x), np.array(new_x),
                       float(temp), None if mask is None else np.array(mask)))

  def steps_done(self):
    return len(self.rec)

  def digest(self):
    h = hashlib.sha256()
    for line in sorted(
        repr((r[0], r[1], r[2].tolist(), r[3].tolist(), round(r[4], 6)))
        for r in self.rec):
      h.update(line.encode())
    return h.hexdigest()


def raw_key(rng):
  if jnp.issubdtype(rng.dtype, jax.dtypes.prng_key):
    return jax.random.key_data(rng)
  return rng


def own_randomness(w, hist, batches=1):
  """No two calls of the sampler in a run are given the same random key.

  Batches of instances that are solved one after another may start again from
  the same key.
  """
  where, count = {}, {}
  for t, k in sorted(hist.keys):
    w.check(where.setdefault(k, t) == t, 'same-randomness', lambda: 'steps %d '
            'and %d were taken with the same random key' % (where[k] + 1, t + 1))
    count[k] = count.get(k, 0) + 1
  w.check(all(c <= batches for c in count.values()), 'same-randomness',
          lambda: 'up to %d devices or instances took a step with the same '
          'random key' % max(count.values()))


def ident_of(params):
  """What tells the instances of a run apart: the edges of the problem."""
  if hasattr(params, 'keys') and 'edge_from' in params:
    z = jnp.zeros(())
    return tuple(jnp.asarray(params.get(k)) if params.get(k) is not None
                 else z for k in ('edge_from', 'edge_to', 'edge_mask',
                                  'edge_weight'))
  return ()


def edges_key(*v):
  """Canonical form of the edges a sampler was given (padding left out)."""
  if not v:
    return ()
  a, b, mask, wt = [np.asarray(u) for u in v]
  out = []
  for i in range(len(a)):
    if mask.ndim and not mask[i]:
      continue
    out.append((int(min(a[i], b[i])), int(max(a[i], b[i])),
                round(float(wt[i]), 4) if wt.ndim else 1.0))
  return tuple(sorted(out))


def graph_key(g):
  return tuple(sorted((int(min(a, b)), int(max(a, b)),
                       round(float(d.get('weight', 1.0)), 4))
                      for a, b, d in g.edges(data=True)))


class SpySampler:
  """The sampler under test, reporting each step; or a scripted one.

  mode 'real' runs the sampler of the configuration, mode 'jump' proposes an
  independent uniform sample at every step (a legal sampler as far as the
  experiment is concerned, and the one with the roughest histories).
  """

  def __init__(self, real, hist, nc, mode='real'):
    self._real, self._hist, self._nc, self._mode = real, hist, nc, mode

  def make_init_state(self, rng):
    state = dict(self._real.make_init_state(rng))
    state['sim_t'] = jnp.zeros((), jnp.int32)
    return state

  def step(self, model, rng, x, model_param, state, x_mask=None):
    inner = {k: v for k, v in state.items() if k != 'sim_t'}
    kw = {} if x_mask is None else {'x_mask': x_mask}
    if self._mode == 'real':
      new_x, new_state, acc = self._real.step(
          model=model, rng=rng, x=x, model_param=model_param, state=inner,
          **kw)
    else:
      key = rng if jnp.ndim(rng) == 1 else rng[0]
      new_x = jax.random.randint(key, x.shape, 0, self._nc).astype(x.dtype)
      acc = jnp.float32(1.0)
      new_state = dict(inner)
      for k in ('num_ll_calls', 'steps'):
        if k in new_state:
          new_state[k] = new_state[k] + 3
    temp = jnp.float32(0)
    if hasattr(model_param, 'keys') and 'temperature' in model_param:
      temp = jnp.asarray(model_param['temperature'], jnp.float32)
    jax.debug.callback(self._hist.cb, state['sim_t'], x, new_x, temp,
                       ident_of(model_param), x_mask, raw_key(rng))
    new_state = dict(new_state)
    new_state['sim_t'] = state['sim_t'] + 1
    return new_x, new_state, acc

  def __getattr__(self, item):
    return getattr(self._real, item)


class Timed:
  """Virtual durations of dispatches; crash points between them."""

  def __init__(self, w, hist, crash_at=None):
    self.w, self.hist = w, hist
    self.n = 0
    self.crash_at = crash_at
    self.step_time = {}      # simulated duration of the dispatch of step t
    self.rs = np.random.RandomState(w.key('durations'))
    w.on_dispatch = self

  def __call__(self, d, fn, a, k):
    w = self.w
    w.tick()
    self.n += 1
    if self.crash_at is not None and self.n == self.crash_at:
      w.fault('process-crash')
      raise SimCrash()
    before = self.hist.steps_done()
    out = fn(*a, **k)
    jax.block_until_ready(out)
    jax.effects_barrier()
    dt = float(1 + self.rs.randint(64)) / 64.0      # exact in binary
    if self.rs.rand() < 0.1:
      dt *= 32
      w.fault('slow-device')
    new = self.hist.rec[before:]
    if new:
      ts = sorted({(self.batch_of(r[0]), r[1]) for r in new})
      for key in ts:
        self.step_time[key] = self.step_time.get(key, 0.0) + dt / len(ts)
    w.advance(dt)
    return out

  def batch_of(self, ident):
    return None


def run_main(cfg, spy=None):
  """Builds and runs an experiment as main_sampling.main does."""
  model = lib.build_model(cfg)
  sampler = lib.build_sampler(cfg)
  if spy is not None:
    sampler = spy(sampler)
  exp = getattr(importlib.import_module('discs.experiment.sampling'),
                cfg.experiment.name)(cfg)
  ev = importlib.import_module(
      'discs.evaluators.' + cfg.experiment.evaluator).build_evaluator(cfg)
  saver = importlib.import_module(
      'discs.common.experiment_saver').build_saver(cfg)
  exp.get_results(model, sampler, ev, saver)
  return model


def load_pkl(path):
  with seams._REAL['open'](path, 'rb') as f:
    return pickle.load(f)


# ---- combinatorial problems ------------------------------------------------


class Problem:
  """Raw graphs and an objective written from the problem definitions."""

  def __init__(self, kind, graphs, refs, penalty=0.0, tol=0.0, nc=2,
               stype=None):
    self.kind, self.graphs, self.refs = kind, graphs, refs
    self.penalty, self.tol, self.nc, self.stype = penalty, tol, nc, stype

  def value(self, i, xs):
    """Objective of instance i for the samples xs (chains x nodes)."""
    g = self.graphs[i]
    xs = np.asarray(xs).astype(np.int64)
    nodes = sorted(g.nodes())
    e = np.array([(a, b) for a, b in g.edges()], dtype=np.int64).reshape(-1, 2)
    a, b = xs[:, e[:, 0]], xs[:, e[:, 1]]
    if self.kind == 'maxcut':
      wt = np.array([g[u][v]['weight'] for u, v in g.edges()], np.float64)
      return ((a != b) * wt).sum(1)
    if self.kind == 'mis':
      return xs[:, nodes].sum(1) - self.penalty * ((a == 1) & (b == 1)).sum(1)
    if self.kind == 'maxclique':
      k = xs[:, nodes].sum(1)
      have = ((a == 1) & (b == 1)).sum(1)
      return k - self.penalty * (k * (k - 1) / 2 - have)
    if self.kind == 'normcut':
      n = len(g)
      cut = 2.0 * (a != b).sum(1)
      sizes = np.stack([(xs[:, nodes] == c).sum(1)
                        for c in range(self.nc)], 1)
      avg = n / self.nc
      if self.penalty > 0:
        if self.stype == 'quad':
          cost = ((sizes - avg) ** 2).sum(1)
        else:
          t = n * self.tol
          cost = (np.maximum(sizes - avg - t, 0) ** 2
                  + np.maximum(avg - t - sizes, 0) ** 2).sum(1)
        return -(cut + self.penalty * cost)
      deg = np.array([g.degree(v) for v in nodes], np.float64)
      tot = 0.0
      for c in range(self.nc):
        cc = ((a == c) != (b == c)).sum(1)
        vol = ((xs[:, nodes] == c) * deg).sum(1)
        tot = tot + (cc + 1e-8) / (vol + 1e-16)
      return -tot
    raise ValueError(self.kind)

  def reference(self, i):
    return 1.0 if self.kind in ('mis', 'normcut') else float(self.refs[i])


KINDS = ('ba', 'er', 'optsicom', 'ertest', 'er_density', 'rb', 'twitter',
         'gap_rand', 'nets', 'satlib')


def make_problem(w, kind, n_inst, lo=4, hi=7, labels=False):
  """A dataset of distinct graphs on disk; returns (model cfg, Problem)."""
  rs = np.random.RandomState(w.key('graph-seed'))
  root = lib.scratch()
  weighted = kind in ('ba', 'er', 'optsicom')
  same = kind in ('gap_rand', 'nets')
  if kind == 'nets':
    n_inst = 1
  graphs, seen = [], set()
  big = int(rs.randint(lo, hi + 1))
  while len(graphs) < n_inst:
    n = big if same else int(rs.randint(lo, hi + 1))
    if kind == 'satlib':
      g = lib.sat_graph(rs, 1 + int(rs.randint(2)), 2 + int(rs.randint(5)))
    else:
      g = lib.rand_graph(rs, n, 0.5, weighted)
    if same:
      for i in range(n):
        if g.degree(i) == 0:
          g.add_edge(i, (i + 1) % n)
    key = graph_key(g)
    if key in seen or g.number_of_edges() < 2:
      continue
    seen.add(key)
    if labels and kind == 'ertest' and rs.rand() < 0.6:
      for v in g:
        g.nodes[v]['label'] = int(rs.randint(2))
    if kind != 'satlib' and rs.rand() < 0.5:         # files list nodes and edges in any order
      h = g.__class__()
      h.add_nodes_from((int(v), g.nodes[int(v)]) for v in rs.permutation(n))
      edges = list(g.edges(data=True))
      for j in rs.permutation(len(edges)):
        u, v, d = edges[j]
        h.add_edge(*((u, v) if rs.rand() < 0.5 else (v, u)), **d)
      g = h
    graphs.append(g)
  refs = [float(rs.randint(1, 9)) for _ in graphs]
  cut = w.integers('file-split', n_inst) if n_inst > 1 else 0
  files = [('a', list(range(cut))), ('b', list(range(cut, n_inst)))]
  files = [f for f in files if f[1]]
  if kind == 'satlib':
    files = [('a', list(range(n_inst)))]
  mc = lib.write_dataset(root, kind, graphs, refs, files)
  prob = Problem(mc['name'], graphs, refs, mc.get('penalty', 0.0),
                 mc.get('tolerance', 0.0), mc['num_categories'],
                 mc.get('stype', 'span'))
  return mc, prob, root


def temperature(sched, t, length, init, final, decay):
  """Annealing schedule, from its definition (step t = 1, 2, ...)."""
  if sched == 'constant':
    return init
  if sched == 'linear':
    f = min(t, length) / length
    return init + (final - init) * f
  v = init * decay ** (t / length)
  return max(v, final) if decay < 1 else min(v, final)
