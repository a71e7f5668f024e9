"""Combinatorial runs: every instance once, whatever the layout; no losses."""
import errno
import os

import numpy as np

from sim import exper
from sim import seams
from sim.props import P05
from sim.world import Violation


def run(w):
  cfg, prob, mode, root = P05.draw(w, multi=True, devices=(1, 2, 4))
  n = len(prob.graphs)
  models = cfg.experiment.num_models
  path = os.path.join(cfg.experiment.save_root, 'results.pkl')
  faulty = w.chance('io-fault', 0.35)
  if w.chance('earlier-run', 0.3):
    # An earlier run with other settings left its artefacts behind.
    os.makedirs(cfg.experiment.save_root)
    with open(path, 'wb') as f:
      f.write(b'left by an earlier run')
    w.fault('stale-artefacts')
  at = 1 + w.integers('fault-at', 2 * n + 4) if faulty else 0
  kind = w.pick('fault-kind', ['EIO', 'EACCES', 'ESTALE']) if faulty else None
  seen = [0, False]

  def policy(op, p, _):
    if p.startswith('out') or op not in ('read', 'open-r', 'listdir'):
      return None
    seen[0] += 1
    if faulty and not seen[1] and seen[0] == at:
      seen[1] = True
      w.fault('read-error-' + kind)
      return OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)),
                     p)
    return None
  seams.SimFS(w, root, policy,
              order=lambda names: w.shuffled('listdir', names))
  hist = exper.History()
  timed = exper.Timed(w, hist)
  err = None

  def go():
    exper.run_main(cfg, lambda r: exper.SpySampler(
        r, hist, cfg.model.num_categories, mode))
  if faulty:
    try:
      go()
    except Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      err = e
      if not seen[1]:
        with w.sut('combinatorial experiment'):
          raise
  else:
    with w.sut('combinatorial experiment'):
      go()
  w.fs = None
  w.log('history', len(hist.rec), hist.digest(), type(err).__name__)
  exper.own_randomness(w, hist, -(-n // models))
  if err is not None:
    w.probe('error-surfaced')
    if hist.rec and os.path.exists(path):
      # What was saved before the error covers the batches that were finished.
      try:
        res = exper.load_pkl(path)
      except Exception:  # pylint: disable=broad-except
        return          # nothing new was saved yet
      k = len(np.asarray(res['best_ratio']).reshape(-1))
      w.check(k == n or k % models == 0, 'partial-results',
              lambda: '%d of %d instances saved in batches of %d' % (
                  k, n, models))
      P05.check_records(w, cfg, prob, hist, list(range(min(k, n))), res)
    return
  w.check(os.path.exists(path), 'no-results', 'the run saved no results')
  try:
    res = exper.load_pkl(path)
  except Exception as e:  # pylint: disable=broad-except
    raise Violation('no-results', 'the run ended and results.pkl cannot be '
                    'read: %r' % e)
  w.probe('batches', -(-n // models))
  if seen[1]:
    w.probe('fault-survived')
  P05.check_records(w, cfg, prob, hist, list(range(n)), res)
  e = cfg.experiment
  burn = int(e.chain_length * e.ess_ratio)
  want = sum(dt for (_, t), dt in timed.step_time.items() if t >= burn)
  w.check(P05.close(float(res['running_time']), want, 1e-6), 'running-time',
          lambda: 'the steps after burn-in of %d batches took %r simulated '
          'seconds, the saved running time is %r' % (
              -(-n // models), want, res['running_time']))
  w.log('saved', np.asarray(res['trajectory']).round(4).tolist())
