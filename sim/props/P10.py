"""Graph datasets shared by several hosts: every instance exactly once."""
import errno
import importlib
import os

import numpy as np

from sim import exper
from sim import lib
from sim import seams
from sim.world import SimCrash, Violation


class Host:
  """One simulated process of the job, with its own loader and iterator."""

  def __init__(self, h):
    self.h = h
    self.loader = self.it = None
    self.batches = []
    self.done = False
    self.restarts = 0
    self.armed = None           # fault waiting for the next file operation

  def restart(self):
    self.loader = self.it = None
    self.batches = []
    self.done = False
    self.restarts += 1


def tear(w, root, kind):
  """Cuts a dataset file at a point inside one of its objects."""
  import pickle  # pylint: disable=g-import-not-at-top
  files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
  path = w.pick('torn-file', files)
  size = os.path.getsize(path)
  ends = set()
  with seams._REAL['open'](path, 'rb') as f:  # pylint: disable=protected-access
    while f.tell() < size:
      pickle.load(f)
      ends.add(f.tell())
  where = w.pick('torn-where', ['near-end', 'anywhere',
                                   'near-start'])
  if where == 'near-end':
    end = sorted(ends)[w.integers('torn-object', len(ends))]
    cut = end - 1 - w.integers('torn-at', 40)
  elif where == 'near-start':
    start = ([0] + sorted(ends))[w.integers('torn-object', len(ends))]
    cut = start + 1 + w.integers('torn-at', 12)
  else:
    cut = 1 + w.integers('torn-at', size - 1)
  cut = max(cut, 1)
  if cut in ends:
    cut -= 1
  with seams._REAL['open'](path, 'r+b') as f:  # pylint: disable=protected-access
    f.truncate(cut)
  w.fault('torn-dataset-file')
  w.log('torn', kind, cut, size)


def run(w):
  kind = exper.KINDS[w.stratum('kind', len(exper.KINDS), w.index)]
  procs = w.pick('processes', [1, 2, 3, 4])
  local = w.between('local-batch', 1, 3)
  n = w.between('instances', 1, 9)
  mc, prob, root = exper.make_problem(w, kind, n, labels=True)
  n = len(prob.graphs)
  nodes = max(len(g) for g in prob.graphs)
  edges = max(g.number_of_edges() for g in prob.graphs)
  if w.chance('known-sizes', 0.4) or kind == 'gap_rand':
    extra_n = w.integers('extra-nodes', 3)
    extra_e = w.integers('extra-edges', 3)
    mc['max_num_nodes'] = nodes + extra_n
    mc['max_num_edges'] = edges + extra_e
    mc['num_instances'] = n
    if kind not in ('nets', 'optsicom', 'er_density'):
      nodes, edges = nodes + extra_n, edges + extra_e
  sharding = procs > 1 or w.chance('shard-alone', 0.5)
  size = local * procs
  mode = w.pick('faults', ['none', 'crash', 'read-error', 'torn', 'none',
                           'crash', 'read-error'])
  torn = False
  if mode == 'torn' and kind != 'satlib':
    tear(w, root, kind)
    torn = True
  cfg = lib.config(mc, lib.sampler_cfgs()[0])
  topo = seams.Topology(w, local=1, process=0, processes=procs)
  current = [None]

  def policy(op, p, _):
    h = current[0]
    if h is None or h.armed is None or op not in ('read', 'open-r', 'listdir'):
      return None
    h.armed[0] -= 1
    if h.armed[0] > 0:
      return None
    what, h.armed = h.armed[1], None
    w.log('fault', h.h, what)
    w.fault(what)
    if what == 'host-crash-in-read':
      return SimCrash()
    return OSError(errno.EIO, 'simulated ' + what, p)
  fs = seams.SimFS(w, root, policy, order=lambda names: [
      names[i] for i in np.random.RandomState(
          w.key('directory-order')).permutation(len(names))])
  if w.chance('stray-files', 0.3):
    for d, _, _ in os.walk(root):
      with seams._REAL['open'](os.path.join(d, 'README.txt'), 'w') as f:  # pylint: disable=protected-access
        f.write('not a graph')
    w.fault('stray-file')
  hosts = [Host(h) for h in range(procs)]
  graph_gen = importlib.import_module('discs.graph_loader.graph_gen')
  surfaced = 0
  limit = 60 * procs
  while not all(h.done for h in hosts):
    limit -= 1
    w.check(limit > 0, 'no-progress', lambda: 'the hosts did not reach the '
            'end of the dataset: %r' % [len(h.batches) for h in hosts])
    live = [h for h in hosts if not h.done]
    h = w.pick('turn', live)
    current[0] = h
    topo.process = h.h
    if mode == 'crash' and h.restarts < 2 and w.chance('crash-now', 0.15):
      w.fault('host-crash')
      w.log('crash', h.h)
      h.restart()
      continue
    if mode in ('crash', 'read-error') and h.restarts < 2 and w.chance(
        'arm', 0.3):
      h.armed = [1 + w.integers('arm-at', 4),
                 'host-crash-in-read' if mode == 'crash' else 'read-error']
    injected = h.armed is not None
    try:
      if h.loader is None:
        h.loader = graph_gen.get_graphs(cfg)
        h.it = h.loader.get_iterator('test', size, sharding=sharding)
        w.log('open', h.h)
        w.check((int(h.loader.max_num_nodes), int(h.loader.max_num_edges),
                 int(h.loader.num_instances)) == (nodes, edges, n) or torn,
                'sizes', lambda: 'host %d sees sizes %r, the dataset has %r' % (
                    h.h, (h.loader.max_num_nodes, h.loader.max_num_edges,
                          h.loader.num_instances), (nodes, edges, n)))
      else:
        batch = next(h.it)
        h.batches.append(batch)
        w.log('batch', h.h, [int(b[0]) for b in batch])
    except StopIteration:
      h.done = True
    except SimCrash:
      fs.dead = None
      h.restart()
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if torn or (injected and h.armed is None and mode == 'read-error'):
        surfaced += 1
        w.probe('error-surfaced')
        w.log('surfaced', h.h, type(e).__name__)
        if torn:
          return                    # reported: the job stops here
        h.restart()
      else:
        with w.sut('graph loader'):
          raise
    if h.armed is not None and not injected:
      h.armed = None
  w.fs = None
  w.check(not torn, 'silent-loss', 'a dataset file was cut short and every '
          'host read the dataset to its end without an error')
  w.probe('kind:' + kind)
  w.probe('processes:%d' % procs)
  want = -(-n // size)
  seen = {}
  shapes = None
  for h in hosts:
    w.check(len(h.batches) == want, 'batches', lambda: 'host %d of %d was '
            'given %d batches, %d instances in global batches of %d make %d'
            % (h.h, procs, len(h.batches), n, size, want))
    for b in h.batches:
      w.check(len(b) == local, 'batch-size', lambda: 'host %d was given a '
              'batch of %d, its share is %d' % (h.h, len(b), local))
      for idx, params, ref in b:
        idx = int(idx)
        cur = sorted((k, np.shape(v)) for k, v in params.items()
                     if v is not None)
        shapes = shapes or cur
        w.check(cur == shapes, 'shapes', lambda: 'instances cannot be '
                'stacked: %r and %r' % (shapes, cur))
        nn = params.get('num_nodes')
        if nn is not None:
          m = np.asarray(params['mask'])
          w.check(m.shape == (nodes,) and m.sum() == int(nn)
                  and m[:int(nn)].all(), 'mask', lambda: 'mask %r for %d '
                  'nodes' % (m.tolist(), int(nn)))
        if idx == -1:
          w.probe('padding')
          continue
        w.check(0 <= idx < n, 'unknown-instance', 'instance %d of %d' % (
            idx, n))
        w.check(idx not in seen, 'duplicate', lambda: 'instance %d was given '
                'to host %d and to host %d' % (idx, seen[idx], h.h))
        seen[idx] = h.h
        g = prob.graphs[idx]
        key = exper.edges_key(*exper.ident_of(params))
        w.check(key == exper.graph_key(g), 'wrong-graph', lambda: 'instance '
                '%d has edges %r, the file has %r' % (
                    idx, key, exper.graph_key(g)))
        w.check(nn is None or int(nn) == len(g), 'wrong-graph', lambda:
                'instance %d has %r nodes, the file %d' % (idx, nn, len(g)))
        labels = sum(d.get('label', 0) for _, d in g.nodes(data=True)) or 1
        r = labels if kind == 'ertest' else (
            1.0 if prob.kind in ('mis', 'normcut') else prob.refs[idx])
        w.check(float(ref) == float(r), 'reference', lambda: 'instance %d '
                'came with reference %r, the file has %r' % (idx, ref, r))
  w.check(len(seen) == n, 'lost-instance', lambda: 'instances %r were given '
          'to no host' % sorted(set(range(n)) - set(seen)))
  w.sample = {'kind': kind, 'processes': procs, 'batch': size, 'instances': n,
              'faults': mode}
