"""The sampling program in an interpreter of its own.

A new process has its own string hashes, imports and caches.  The simulator
chooses the hash seed; files, clock and devices are behind the same seams.
"""
import json
import os
import subprocess
import sys


def run(w, prog, label):
  """Runs `prog` in a new interpreter; returns None or the error text."""
  job = {'args': prog.args, 'root': prog.root, 'dev': prog.dev,
         'seed': w.key('elsewhere:' + label), 'label': label}
  env = dict(os.environ, PYTHONHASHSEED=str(
      1 + w.integers('hash-seed:' + label, 10**6)))
  p = subprocess.run([sys.executable, '-m', 'sim.elsewhere', json.dumps(job)],
                     env=env, capture_output=True, text=True, check=False)
  out = [l for l in p.stdout.splitlines() if l.startswith('ELSEWHERE ')]
  if not out:
    return 'the process ended with %s: %s' % (p.returncode, p.stderr[-300:])
  return json.loads(out[-1][len('ELSEWHERE '):])


def main():
  job = json.loads(sys.argv[1])
  from sim import seams  # pylint: disable=g-import-not-at-top
  seams.install()
  from sim import cli  # pylint: disable=g-import-not-at-top
  from sim import world as W  # pylint: disable=g-import-not-at-top
  from sim.props import P09  # pylint: disable=g-import-not-at-top
  prog = cli.Given(job['root'], job['args'])
  w = W.World(seed=job['seed'])
  err = None
  try:
    with seams.world(w):
      seams.Topology(w, local=job['dev'])
      P09.execute(w, prog, job['label'])
  except W.Violation as v:
    err = v.msg
  print('ELSEWHERE ' + json.dumps(err))


if __name__ == '__main__':
  main()
