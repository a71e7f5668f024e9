"""Worker: executes simulated runs of one property, one at a time.

Protocol: JSON lines on the original stdin/stdout; whatever the code under
test prints goes to /dev/null.
"""
import json
import os
import signal
import sys
import time as _time
import traceback

REAL_TIME = _time.time
REAL_MONO = _time.monotonic


class RunTimeout(BaseException):
  pass


def _alarm(*_):
  raise RunTimeout()


def execute(mod, job, limit):
  from sim import seams
  from sim import world as W
  w = W.World(seed=job.get('seed'), script=job.get('script'),
              index=job.get('index', 0), tier=job.get('tier', 'quick'))
  out = {'status': 'ok'}
  t0 = REAL_MONO()
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(int(limit))
  try:
    try:
      with seams.world(w):
        mod.run(w)
      if w.sticky is not None:
        raise w.sticky
    finally:
      signal.alarm(0)
  except W.Violation as v:
    v = w.sticky or v
    out = {'status': 'violation', 'kind': v.kind, 'msg': v.msg}
  except W.NoProgress:
    out = {'status': 'violation', 'kind': w.sticky.kind, 'msg': w.sticky.msg}
  except RunTimeout:
    out = {'status': 'violation', 'kind': 'hang',
           'msg': 'the run made no progress for %d s of real time' % limit}
  except W.SimCrash:
    out = {'status': 'error', 'msg': 'simulated crash escaped'}
  except Exception as e:  # pylint: disable=broad-except
    if w.sticky is not None:
      out = {'status': 'violation', 'kind': w.sticky.kind,
             'msg': w.sticky.msg}
    else:
      out = {'status': 'error',
             'msg': ''.join(traceback.format_exception(e))[-3000:]}
  out.update(choices=w.choices, digest=w.digest, n_events=w.n_events,
             faults=w.faults, probes=w.probes, sim_time=w.now,
             sample=w.sample, checks=w.checks, wall=REAL_MONO() - t0,
             events=w.events[-60:], index=w.index)
  return out


def main():
  prop = sys.argv[1]
  limit = float(sys.argv[2]) if len(sys.argv) > 2 else 150
  inp = os.fdopen(os.dup(0), 'r')
  outp = os.fdopen(os.dup(1), 'w')
  null = os.open(os.devnull, os.O_RDWR)
  os.dup2(null, 0)
  os.dup2(null, 1)
  if not os.environ.get('SIM_DEBUG'):
    os.dup2(null, 2)
  from sim import seams
  seams.install()
  import importlib
  try:
    mod = importlib.import_module('sim.props.' + prop)
    if hasattr(mod, 'setup'):
      mod.setup()
    msg = {'ready': True}
  except BaseException as e:  # pylint: disable=broad-except
    tb = ''.join(traceback.format_exception(e))
    msg = {'ready': False, 'msg': tb[-3000:],
           'in_repo': '/repo/discs' in tb}
  outp.write(json.dumps(msg) + '\n')
  outp.flush()
  for line in inp:
    job = json.loads(line)
    res = execute(mod, job, limit)
    outp.write(json.dumps(res) + '\n')
    outp.flush()


if __name__ == '__main__':
  main()
