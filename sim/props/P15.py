"""Training data: sharding among processes, batching, shuffling, repetition."""
import collections

import numpy as np

from sim import seams
from sim import training


def setup():
  training.install()


class Host:
  """One process of the job reading its share."""

  def __init__(self, w, h, procs, local, make):
    self.w, self.h, self.procs, self.local = w, h, procs, local
    self.make = make
    self.crashes = 0
    self.kept = []            # what an earlier life of this process was given
    self.restart()

  def enter(self):
    seams.Topology(self.w, local=self.local, process=self.h,
                   processes=self.procs)

  def restart(self):
    self.it, self.got, self.done = None, [], False

  def step(self):
    self.enter()
    with self.w.sut('training data loader'):
      if self.it is None:
        self.it = iter(self.make())
      try:
        b = next(self.it)
      except StopIteration:
        self.done = True
        return
    self.got.append(b)


def run(w):
  import tensorflow as tf  # pylint: disable=g-import-not-at-top
  from discs.common import data_loader  # pylint: disable=g-import-not-at-top
  from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
  procs = w.pick('processes', [1, 2, 3, 4])
  local = w.pick('devices', [1, 2, 4])
  per = w.between('per-device', 1, 3)
  size = procs * local * per
  n = w.pick('examples', [size * 3, size * 2 + w.integers('odd', size),
                          w.between('few', 1, 2 * size), size * 4 + 1])
  repeat = w.chance('repeat', 0.4)
  shuffle = w.pick('shuffle', [0, 0, 3, 1000])
  structured = w.chance('structured', 0.4)
  preprocess = w.chance('preprocess', 0.5)
  how = w.pick('repeat-from', ['argument', 'config'])
  cfg = dict(batch_size=size)
  if shuffle or w.chance('explicit', 0.5):
    cfg['shuffle_buffer_size'] = shuffle
  if how == 'config':
    cfg['repeat'] = repeat
  cfg = config_dict.ConfigDict(cfg)
  x = np.arange(n * 2, dtype=np.float32).reshape(n, 2)     # row i: 2i, 2i+1

  def make():
    tf.random.set_seed(7)
    src = {'image': x} if structured else x
    ds = tf.data.Dataset.from_tensor_slices(src)
    fn = None
    if preprocess:
      fn = (lambda v: v['image'] + 1000.0) if structured else (
          lambda v: v + 1000.0)
    kw = dict(repeat=repeat) if how == 'argument' else {}
    return data_loader.numpy_iter(data_loader.prepare_dataloader(
        ds, config=cfg, fn_preprocess=fn, drop_remainder=True, **kw))
  w.log('loader', procs, local, per, n, repeat, shuffle, structured,
        preprocess, how)
  shard = n // procs
  most = (shard // (per * local)) if not repeat else None
  limit = 6 if repeat else 10 ** 6
  if repeat and n < procs:
    return          # a process without any example cannot repeat anything
  hosts = [Host(w, h, procs, local, make) for h in range(procs)]
  crashes = w.integers('crashes', 3)
  while True:
    ready = [h for h in hosts if not h.done and len(h.got) < limit]
    if not ready:
      break
    h = w.pick('next', ready)
    if crashes and h.got and w.chance('crash', 0.15):
      crashes -= 1
      w.fault('process-crash')
      h.kept.append(h.got)
      h.restart()
    h.step()
    w.log('read', h.h, len(h.got))

  def numbers(b):
    if structured and not preprocess:
      w.check(isinstance(b, dict) and set(b) == {'image'}, 'structure', lambda:
              'a batch is %r' % (b,))
      b = b['image']
    w.check(isinstance(b, np.ndarray) and b.shape == (local, per, 2),
            'batch-shape', lambda: 'a batch is %s of shape %r, should be one '
            'of shape %r' % (type(b).__name__, np.shape(b), (local, per, 2)))
    b = b.reshape(-1, 2) - (1000.0 if preprocess else 0.0)
    ids = b[:, 0] / 2
    w.check(np.array_equal(ids, np.round(ids)) and np.array_equal(
        b[:, 1], b[:, 0] + 1) and ids.min() >= 0 and ids.max() < n,
            'example', lambda: 'a batch has rows %s' % b.tolist())
    return ids.astype(int).tolist()
  lens = sorted(len(h.got) for h in hosts)
  w.check(lens[0] == lens[-1], 'uneven', lambda: 'the processes were given %r '
          'batches: the ones with more wait for the others for ever' % lens)
  if not repeat:
    w.check(lens[0] == most, 'batches', lambda: '%d examples for %d processes '
            'in batches of %d make %d batches, there were %d' % (
                n, procs, size, most, lens[0]))
  else:
    w.check(lens[0] == limit, 'ended', lambda: 'a repeated dataset ended after '
            '%d batches' % lens[0])
  owner = {}
  for h in hosts:
    seq = [i for b in h.got for i in numbers(b)]
    for old in h.kept:
      prev = [i for b in old for i in numbers(b)]
      w.check(seq[:len(prev)] == prev, 'restart', lambda: 'process %d was '
              'given %r and after a restart %r' % (h.h, prev, seq))
    for i in seq:
      w.check(owner.setdefault(i, h.h) == h.h, 'shared-example', lambda:
              'example %d was given to processes %d and %d' % (i, owner[i],
                                                               h.h))
    count = collections.Counter(seq)
    if not repeat:
      w.check(not seq or max(count.values()) == 1, 'repeated-example', lambda:
              'process %d was given an example twice: %r' % (h.h, seq))
    elif not shuffle:
      # passes over the same share, one after the other
      first = seq[:len(set(seq))]
      w.check(all(seq[i] == first[i % len(first)] for i in range(len(seq)))
              and len(first) in (shard, shard + 1, len(seq)),
              'passes', lambda: 'process %d of %d was given %r of %d examples'
              % (h.h, procs, seq, n))
    elif shuffle >= 1000 and seq:
      # a big buffer mixes many passes: every example of the share is in it
      w.check(len(set(seq)) > 1 or shard <= 1 or len(seq) < 4, 'stuck',
              lambda: 'process %d was given only %r' % (h.h, seq))
  w.probe('processes:%d' % procs)
  w.sample = {'processes': procs, 'devices': local, 'examples': n,
              'repeat': repeat, 'shuffle': shuffle}
