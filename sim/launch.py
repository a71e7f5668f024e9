"""The sweep launcher (discs/xm_launcher.py) against a simulated cluster.

XManager is a stub: experiments give out ids, run the job-making coroutines in
an order the simulator draws, and can turn jobs down.  The launcher, the run
configurations and the flag handling of the sampling program are real.
"""
import glob
import importlib
import importlib.util
import itertools
import os
import sys
import types

from sim import lib

ROOT = os.path.abspath(os.environ.get('SIM_REPO', '/repo'))
_PARTS = ('config', 'model_config', 'sampler_config')


class Rejected(Exception):
  """The cluster does not take this job."""


class _Any:
  """Resources, containers and the like: accepted and ignored."""

  def __init__(self, *a, **k):
    self.a, self.k = a, k

  def __call__(self, *a, **k):
    return _Any(*a, **k)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return _Any()


class Job:
  """xm.Job: the arguments are taken over when the job is made."""

  def __init__(self, executable=None, executor=None, name=None, args=None,
               env_vars=None):
    del executable, executor, name, env_vars
    self.args = dict(args or {})


class _Done:

  def __await__(self):
    yield self


class WorkUnit:
  """A slot of the experiment."""

  def __init__(self, cluster, exp, n):
    self.cluster, self.work_unit_id = cluster, n
    self.experiment_id = exp.experiment_id
    self.exp = exp

  def add(self, job, args=None, **unused):
    del unused
    w = self.cluster.w
    w.tick()
    if w.chance('reject', self.cluster.p_reject):
      w.fault('job-rejected')
      self.exp.rejected.append(self.work_unit_id)
      raise Rejected('no capacity for %d' % self.work_unit_id)
    got = dict(job.args)
    got.update(args or {})
    self.exp.jobs.append((self.work_unit_id, got))
    return _Done()


class Experiment:
  """xm experiment: adds are queued and run in a drawn order."""

  def __init__(self, cluster, title):
    self.cluster, self.title = cluster, title
    cluster.n += 1
    self.experiment_id = cluster.n
    self.count, self.jobs, self.pending, self.rejected = 0, [], [], []
    self.added = 0
    cluster.experiments.append(self)

  def __enter__(self):
    return self

  def __exit__(self, exc, *_):
    if exc is None:
      while self.pending:
        self.step()

  def package(self, l):
    return tuple(_Any() for _ in l)

  def add(self, job, args=None, **unused):
    del unused
    self.count += 1
    unit = WorkUnit(self.cluster, self, self.count)
    if isinstance(job, Job):
      unit.add(job, args)
      return _Done()
    self.pending.append(job(unit, **(args or {})))
    w = self.cluster.w
    for _ in range(w.integers('progress', 3) if self.cluster.eager else 0):
      if self.pending:
        self.step()
    return _Done()

  def step(self):
    w = self.cluster.w
    i = w.integers('next-job', len(self.pending)) if (
        self.cluster.reorder) else 0
    co = self.pending[i]
    try:
      co.send(None)
    except StopIteration:
      del self.pending[i]
    except Rejected:
      del self.pending[i]


class Cluster:
  """What the launcher sees of XManager."""

  def __init__(self, w, p_reject=0.0):
    self.w, self.p_reject = w, p_reject
    self.n = w.integers('first-id', 1000)
    self.eager = w.chance('eager', 0.5)
    self.reorder = w.chance('reorder', 0.6)
    self.experiments = []


_CURRENT = []


def _create(experiment_title=None, **unused):
  del unused
  return Experiment(_CURRENT[-1], experiment_title)


def _stub():
  names = ('xmanager', 'xmanager.xm', 'xmanager.xm_abc', 'xmanager.xm_local',
           'xmanager.contrib', 'xmanager.contrib.framework_defaults')
  for n in names:
    m = types.ModuleType(n)
    sys.modules[n] = m
    if '.' in n:
      setattr(sys.modules[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], m)
  x = sys.modules['xmanager.xm']
  x.ServiceTier, x.GiB, x.Job = _Any(), 1, Job
  x.JobRequirements = x.python_container = x.ModuleName = _Any
  for n in ('xm_abc', 'xm_local'):
    m = sys.modules['xmanager.' + n]
    m.create_experiment = _create
    m.Local = m.Gcp = _Any
  sys.modules['xmanager.contrib.framework_defaults'].base_image = (
      lambda *a, **k: '')


_MODS = {}


PROGRAMS = {
    'launch': 'discs.xm_launcher',
    'main': 'discs.experiment.main_sampling',
    'plot': 'discs.plot_results.plot_results',
    'time': 'discs.plot_results.plot_co_through_time',
    'cut': 'discs.common.normcut_evaluator',
}


def _take(flags, names):
  """Removes flags, and says what they were."""
  got = {}
  for n in names:
    got[n] = flags[n]
  for n in names:
    if n in flags:
      delattr(flags, n)
  return got


def program(which):
  """Module of a program.  Every program is a process with flags of its own."""
  from absl import flags  # pylint: disable=g-import-not-at-top
  fv = flags.FLAGS
  if not _MODS:
    _stub()
    _MODS['base'] = set(fv)
    _MODS['now'] = None
  mine = [n for n in fv if n not in _MODS['base']]
  if _MODS['now'] != which:
    got = _take(fv, mine)
    if _MODS['now'] is not None:
      _MODS[_MODS['now']][1] = got
    _MODS['now'] = which
    if which not in _MODS:
      _MODS[which] = [importlib.import_module(PROGRAMS[which]), None]
    else:
      for n, f in _MODS[which][1].items():
        if n not in fv:
          fv[n] = f
  return _MODS[which][0], fv


def start(which, args):
  """Parses the command line of a program; returns its module and argv."""
  mod, fv = program(which)
  fv.unparse_flags()
  for n in list(fv):
    if n.partition('.')[0] in _PARTS and '.' in n:
      delattr(fv, n)
  argv = [which] + args
  old = sys.argv
  sys.argv = argv          # config_flags looks for overrides there
  try:
    rest = fv(argv)
  finally:
    sys.argv = old
  return mod, rest


def launch(cluster, args):
  """One launch; returns its experiment."""
  mod, rest = start('launch', args)
  _CURRENT.append(cluster)
  try:
    mod.main(rest)
  finally:
    _CURRENT.pop()
  return cluster.experiments[-1]


def job_config(args):
  """Configuration a job runs with."""
  argv = ['--%s=%s' % (k, local(v)) for k, v in args.items()]
  mod, _ = start('main', argv)
  return mod.get_main_config()


def local(v):
  return str(v).replace('/workdir', ROOT) if isinstance(v, str) else v


def load(path):
  spec = importlib.util.spec_from_file_location('runcfg', path)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m.get_config()


def shipped():
  return sorted(glob.glob(os.path.join(ROOT, 'discs/run_configs/**/*.py'),
                          recursive=True))


def combos(cfg):
  """Every combination of swept values the configuration declares."""
  out = []
  for sweep in cfg.get('sweep', []):
    d = sweep.to_dict() if hasattr(sweep, 'to_dict') else dict(sweep)
    keys = list(d)
    for vals in itertools.product(*(d[k] for k in keys)):
      out.append(dict(zip(keys, vals)))
  return out


def write_sweep(root, model, title, cfg):
  d = os.path.join(root, model)
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, title + '.py')
  with open(path, 'w') as f:
    f.write('from ml_collections import config_dict\n\n\ndef get_config():\n'
            '  return config_dict.ConfigDict(dict(%s))\n' % ', '.join(
                '%s=%r' % kv for kv in cfg.items()))
  return path


scratch = lib.scratch
