"""Artefacts are whole: crash, full disk or torn write at any point."""
import errno
import os
import shutil

import numpy as np

from sim import cli
from sim import seams
from sim.world import SimCrash, Violation

WRITES = ('open-w', 'write', 'close', 'rename', 'remove', 'unlink', 'mkdir')


class Versions:
  """Complete contents each artefact had during a run without faults."""

  def __init__(self, out):
    self.out, self.seen = out, {}
    self.pending = False

  def snap(self):
    for f, data in cli.artefacts(self.out).items():
      try:
        v = cli.decode(f, data)
      except Exception:  # pylint: disable=broad-except
        continue
      self.seen.setdefault(f, [])
      if v not in self.seen[f]:
        self.seen[f].append(v)


FAULTS = ['crash', 'torn-crash', 'ENOSPC', 'EIO', 'race', 'crash',
          'torn-crash', 'ENOSPC', 'EIO', 'follower-first', 'crash', 'ENOSPC',
          'follower-race']


class Site:
  """A program and its result directory through a history of executions."""

  def __init__(self, w):
    self.w = w
    self.prog = cli.Program(w, devices=(1,))
    seams.Topology(w, local=1)
    self.dur = w.key('durations')
    self.start = w.now
    self.table = {}
    self.buf = w.chance('buffered', 0.5)

  def execute(self, policy=None):
    w = self.w
    w.now = self.start
    cli.new_process()
    cli.Memo(w, self.dur, self.table)
    seams.SimFS(w, self.prog.root, policy, buffered=self.buf)
    try:
      self.prog.run()
    finally:
      w.fs = w.on_dispatch = None

  def reference(self):
    """What the artefacts look like when nothing fails."""
    w, versions = self.w, Versions(self.prog.out)
    count = {'ops': 0, 'last': None}

    def watch(op, p, _):
      if not p.startswith('out') or op not in WRITES:
        return None
      if count['last'] == 'rename' or op == 'close':
        versions.snap()
      count['last'] = op
      count['ops'] += 1
      return None
    with w.sut('the sampling program'):
      self.execute(watch)
    versions.snap()
    final = cli.artefacts(self.prog.out)
    w.check(final, 'no-results', 'the program ended and saved nothing')
    for f, data in final.items():
      try:
        cli.decode(f, data)
      except Exception as e:  # pylint: disable=broad-except
        raise Violation('incomplete', '%s is not readable after a run without '
                        'faults: %r' % (f, e))
    w.log('ops', count['ops'], sorted(final))
    self.final, self.versions, self.ops = final, versions, count['ops']

  def disturbed(self, fault, at):
    """One execution with a fault; returns (error, whether it was hit)."""
    w, prog = self.w, self.prog
    state = {'n': 0, 'hit': False}

    def policy(op, p, n):
      if not p.startswith('out') or op not in WRITES:
        return None
      state['n'] += 1
      if fault == 'follower-first':
        return None
      if fault.endswith('race'):
        # Another process sharing the directory creates it first.
        if op == 'mkdir' and not state['hit'] and not os.path.isdir(
            os.path.join(prog.root, p)):
          state['hit'] = True
          w.fault('concurrent-mkdir')
          seams._REAL['os.mkdir'](os.path.join(prog.root, p))  # pylint: disable=protected-access
        return None
      if state['n'] < at:
        return None
      if fault in ('crash', 'torn-crash'):
        if state['hit'] or (fault == 'torn-crash' and op != 'write'):
          return None
        state['hit'] = True
        w.fault('process-crash-in-io')
        if fault == 'torn-crash':
          w.fault('torn-write')
          return w.integers('torn-at', n + 1), SimCrash()
        return SimCrash()
      # The disk is full (or broken) from here on; removing still works.
      if op in ('write', 'open-w', 'mkdir') or (op == 'rename'
                                                and fault == 'EIO'):
        state['hit'] = True
        w.fault(fault)
        exc = OSError(getattr(errno, fault),
                      os.strerror(getattr(errno, fault)), p)
        if op == 'write':
          return w.integers('short-write', n + 1), exc
        return exc
      return None
    if fault.startswith('follower'):
      # The process that starts first is not the first process of the job.
      w.topology.process, w.topology.processes = 1, 2
      state['hit'] = fault == 'follower-first'
      w.fault('follower-starts-first')
    err = None
    try:
      if fault in ('race', 'follower-first', 'follower-race'):
        with w.sut('the sampling program, sharing its directory'):
          self.execute(policy)
      else:
        self.execute(policy)
    except SimCrash as e:
      err = e
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      err = e
      if not state['hit']:
        with w.sut('the sampling program'):
          raise
    finally:
      w.topology.process, w.topology.processes = 0, 1
    w.log('fault', fault, at, type(err).__name__)
    if state['hit'] and fault in ('ENOSPC', 'EIO'):
      w.check(err is not None, 'swallowed', lambda: 'writing failed with %s '
              'and the program ended as if its results were saved' % fault)
    return err, state['hit']

  def whole(self, fault, old):
    """Every data file is the earlier one or a complete one of this run."""
    w = self.w
    now = cli.artefacts(self.prog.out)
    for f in sorted(set(self.final) & set(now)):
      if f.endswith('.png'):
        continue          # plots can be drawn again from the data
      if now[f] == old.get(f):
        w.probe('kept-old')
        continue
      try:
        v = cli.decode(f, now[f])
      except Exception as e:  # pylint: disable=broad-except
        raise Violation('torn-artefact', 'after %s, %s is neither the old nor '
                        'a new complete artefact (%r)' % (
                            fault, f, type(e).__name__))
      w.check(v in self.versions.seen[f], 'torn-artefact', lambda: 'after %s, '
              '%s holds what no complete save ever held' % (fault, f))
      w.probe('whole-new')
    for f in sorted(f for f in set(old) - set(now)
                    if not f.endswith('.png') and f in self.final):
      raise Violation('lost-artefact', 'after %s, the earlier %s is gone and '
                      'nothing took its place' % (fault, f))
    return now


def run(w):
  site = Site(w)
  site.reference()
  out = site.prog.out
  for _ in range(w.between('rounds', 3, 6)):
    before = w.pick('before', ['empty', 'complete', 'as-left'])
    old = {}
    if before == 'as-left':
      old = cli.artefacts(out)
      w.probe('fault-after-fault')
    else:
      shutil.rmtree(out, ignore_errors=True)
    if before == 'complete':
      # Results of an earlier run with other settings are in the directory.
      os.makedirs(out)
      for f in site.final:
        old[f] = b'artefact of an earlier run, complete: ' + f.encode()
        with seams._REAL['open'](os.path.join(out, f), 'wb') as fh:  # pylint: disable=protected-access
          fh.write(old[f])
    fault = w.pick('fault', FAULTS)
    _, hit = site.disturbed(fault, 1 + w.integers('fault-at', site.ops))
    site.whole(fault, old)
    w.probe('fault-hit' if hit else 'fault-missed')
    if not w.chance('run-again', 0.5):
      continue
    # Once the fault is over the same command completes and saves everything.
    with w.sut('the sampling program, run again after ' + fault):
      site.execute()
    again = cli.artefacts(out)
    for f in sorted(site.final):
      try:
        same = cli.decode(f, again[f]) == cli.decode(f, site.final[f])
      except Exception:  # pylint: disable=broad-except
        same = False
      w.check(same, 'rerun', lambda: '%s after running again differs from the '
              'run without faults' % f)
    w.probe('recovered')
