"""Runs are reproducible: surroundings and history leave no trace."""
import os
import random
import shutil

import numpy as np

from sim import cli
from sim import elsewhere
from sim import seams
from sim.world import SimCrash


def execute(w, prog, label, crash=None):
  """One execution in its own surroundings; returns its artefacts."""
  np.random.seed(w.key('numpy-seed:' + label))
  random.seed(w.key('python-seed:' + label))
  w.advance(float(w.integers('clock-jump:' + label, 10**8)))
  clock = cli.Clocked(w, w.key('durations:' + label), crash_at=crash)
  seams.SimFS(w, prog.root, order=lambda names: [
      names[i] for i in np.random.RandomState(
          w.key('directory-order')).permutation(len(names))])
  try:
    if crash:
      try:
        prog.run()
      except SimCrash:
        w.log('crashed', crash)
      cli.new_process()
    else:
      with w.sut('the sampling program (%s)' % label):
        prog.run()
  finally:
    w.fs = None
    w.on_dispatch = None
  return clock.n


def run(w):
  prog = cli.Program(w, devices=(1, 2, 4))
  seams.Topology(w, local=prog.dev)
  cli.new_process()
  n = execute(w, prog, 'first')
  first = cli.artefacts(prog.out)
  w.check(first, 'no-results', 'the program ended and saved nothing')
  if w.chance('other-run-between', 0.3):
    w.probe('process-history')
    other = cli.Program(w, family=w.pick('other', ['classic', 'co', 'ebm']),
                        devices=(1,))
    w.topology.local = 1
    execute(w, other, 'other')
    w.topology.local = prog.dev
  state = w.pick('directory', ['fresh', 'crashed', 'old', 'crashed'])
  if state != 'old':
    shutil.rmtree(prog.out)
  if state == 'crashed':
    execute(w, prog, 'crash', crash=1 + w.integers('crash-at', n))
  w.fault('directory:' + state)
  if prog.family != 'lm' and w.stratum('interpreter', 7, w.index) == 3:
    w.fault('new-interpreter')
    err = elsewhere.run(w, prog, 'second')
    w.check(err is None, 'exception', lambda: 'in a new process: %s' % err)
  else:
    execute(w, prog, 'second')
  second = cli.artefacts(prog.out)
  w.log('files', sorted(first), sorted(second))
  w.check(set(first) == set(second), 'files', lambda: 'the runs saved %r and '
          '%r' % (sorted(first), sorted(second)))
  for f in sorted(first):
    a = cli.decode(f, first[f], times=False)
    b = cli.decode(f, second[f], times=False)
    w.check(a == b, 'not-reproducible', lambda: '%s differs between two runs '
            'of the same configuration (%s, %s)' % (f, prog.name,
                                                    prog.sampler['name']))
  w.probe('compared', len(first))
