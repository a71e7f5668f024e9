"""Sweeps: every declared combination becomes one job with that configuration."""
import collections
import importlib
import os

from sim import launch
from sim import lib

SAMPLERS = ('randomwalk', 'blockgibbs', 'hammingball', 'gwg', 'dmala',
            'path_auxiliary', 'dlmc')
BALANCED = {'gwg': ('SQRT', 'RATIO', 'MIN', 'MAX'),
            'dmala': ('SQRT', 'RATIO', 'MIN', 'MAX'),
            'path_auxiliary': ('SQRT', 'RATIO', 'MIN', 'MAX'),
            'dlmc': ('SQRT', 'RATIO', 'MIN', 'MAX')}
EXPERIMENT = {
    'chain_length': [10, 500, 20001, 1000000], 'batch_size': [1, 16, 100],
    'save_samples': [True, False], 'log_every_steps': [1, 100],
    'run_parallel': [False, True], 'ess_ratio': [0.5, 0.25],
    'save_every_steps': [1, 10],
}
CO_EXPERIMENT = {
    'chain_length': [10, 500, 20001], 'batch_size': [1, 16],
    'log_every_steps': [1, 100], 'decay_rate': [0.05, 0.1, 1e-05],
    'init_temperature': [1, 5, 2],
}
# settings of the experiment that take any count
COUNTS = ['config.experiment.' + k for k in (
    'batch_size', 'chain_length', 'log_every_steps')]
MODELS = {
    'bernoulli': {'init_sigma': [0.5, 1.5, 2], 'shape': ['(10,)', '(50,)', '(1000,)']},
    'ising': {'mu': [0, 0.5, 1], 'lambdaa': [0.25, 1, -0.5],
              'init_sigma': [1.5, 3], 'shape': ["(4, 4)", "(30, 30)"]},
    'potts': {'num_categories': [4, 8], 'shape': ["(3, 3)", "(20, 20)"],
              'init_sigma': [1.5, 1]},
    'categorical': {'num_categories': [4, 8, 256], 'init_sigma': [1.5, 0.25],
                    'shape': ['(5,)', '(100,)']},
    'fhmm': {'num_categories': [2, 4], 'shape': ["(200, 50)", "(1000, 10)"]},
}
CO = [('maxcut', 'ba', ['r-ba-4-n-16-20', 'r-ba-4-n-1024-1100',
                        'r-ba-4-n-32-40'], {}),
      ('maxcut', 'er', ['r-er-0.15-n-256-300', 'r-er-0.15-n-512-600'], {}),
      ('mis', 'er_density', ['r-0.05', 'r-0.10', 'r-0.25'],
       {'penalty': [1.001, 1.1, 2]}),
      ('mis', 'ertest', ['r-800', 'r-10k'], {'penalty': [1.001, 2]}),
      ('normcut', 'nets', ['r-ALEXNET', 'r-MNIST', 'r-VGG'],
       {'stype': ['quad', 'span']})]


def some(w, label, values):
  values = w.shuffled(label, values)
  return values[:w.between('count-' + label, 1, min(3, len(values)))]


def drawn(w):
  """A run configuration in the manner of the shipped ones."""
  if w.chance('co', 0.4):
    model, graph, cfgs, extra = CO[w.integers('problem', len(CO))]
    top = dict(model=model, graph_type=graph)
    exp, mod = CO_EXPERIMENT, dict(extra)
  else:
    model = w.pick('model', sorted(MODELS))
    top = dict(model=model)
    exp, cfgs = EXPERIMENT, None
    mod = MODELS[model]
  top['sampler'] = w.pick('sampler', SAMPLERS)
  sweeps = []
  for s in range(w.between('sweeps', 1, 3)):
    d = []
    names = some(w, 'names', SAMPLERS)
    if w.chance('own-sampler', 0.3):
      names = None       # the sampler of the run configuration
    elif w.chance('balanced', 0.6):
      names = [n for n in names if n in BALANCED] or ['gwg']
      d.append(('sampler_config.balancing_fn_type', some(
          w, 'fn', BALANCED[names[0]])))
      if w.chance('solver', 0.5):
        names = ['dlmc']
        d.append(('sampler_config.solver', some(
            w, 'solvers', ['interpolate', 'euler_forward'])))
      elif w.chance('adaptive', 0.5):
        d.append(('sampler_config.adaptive', some(w, 'on', [True, False])))
    if names:
      d.append(('sampler_config.name', names))
    if cfgs:
      d.append(('model_config.cfg_str', some(w, 'cfg', cfgs)))
    for k in sorted(mod):
      if w.chance('sweep-' + k, 0.4):
        d.append(('model_config.' + k, some(w, k, mod[k])))
    for k in sorted(exp):
      if 'config.experiment.' + k in COUNTS:
        p = 0.4
      else:
        p = 0.25
      if w.chance('sweep-' + k, p):
        d.append(('config.experiment.' + k, some(w, k, exp[k])))
    if not d:
      d.append(('config.experiment.batch_size', some(w, 'only', [1, 16])))
    d = w.shuffled('order', d)
    sweeps.append(dict(d))
    if w.chance('twin', 0.3):
      # a block like it: another setting takes values of the same spelling
      k = w.integers('twin-of', len(d))
      other = [n for n in COUNTS if n not in dict(d)]
      if d[k][0] in COUNTS and other:
        d = list(d)
        d[k] = (w.pick('twin-key', other), d[k][1])
      sweeps.append(dict(d))
  top['sweep'] = sweeps
  title = w.pick('title', ['sweep', 'sampler_sweep', 'x_2', 'lbf'])
  return launch.write_sweep(lib.scratch(), model, title, top)


def flat(c, pre=''):
  out = {}
  d = c.to_dict() if hasattr(c, 'to_dict') else c
  for k, v in d.items():
    if isinstance(v, dict):
      out.update(flat(v, pre + k + '.'))
    else:
      out[pre + k] = v
  return out


def same(a, b):
  return a == b or str(a) == str(b)


def reference(cfg, combo):
  """Configuration declared for a job: files, then the swept values."""
  r = os.path.join(launch.ROOT, 'discs')
  common = importlib.import_module('discs.common.configs')
  graph = cfg.get('graph_type', None)
  if graph:
    exp = '%s/experiment/configs/%s/%s.py' % (r, cfg.model, graph)
  elif cfg.model == 'text_infilling':
    exp = r + '/experiment/configs/lm_experiment.py'
  else:
    exp = r + '/common/configs.py'
  sampler = combo.get('sampler_config.name', cfg.sampler)
  out = common.get_config()
  if not graph:
    out.update(launch.load(exp))
  model = launch.load('%s/models/configs/%s_config.py' % (r, cfg.model))
  out.model.update(model)
  out.sampler.update(launch.load('%s/samplers/configs/%s_config.py' % (
      r, sampler)))
  if graph:
    out.model.graph_type = graph
    out.model.data_root = '/gcs/xcloud-shared/hadai/data/sco'
    gm = importlib.import_module('discs.models.configs.%s.%s' % (
        out.model.name, graph))
    out.model.update(gm.get_model_config(
        combo.get('model_config.cfg_str', out.model.cfg_str)))
    co = importlib.import_module('discs.experiment.configs.co_experiment')
    out.experiment.update(co.get_co_default_config())
    out.update(launch.load(exp))
  res = flat(out)
  for k, v in combo.items():
    part, _, rest = k.partition('.')
    res[{'config': '', 'model_config': 'model.',
         'sampler_config': 'sampler.'}[part] + rest] = v
  if graph:
    res['experiment.num_models'] = res['model.num_models']
  return res


def key(combo):
  return tuple(sorted((k, repr(v)) for k, v in combo.items()))


def judge(w, cfg, exp, what):
  """Checks the jobs of one launch."""
  want = collections.Counter(key(c) for c in launch.combos(cfg))
  swept = {k for c in launch.combos(cfg) for k in c}
  got = collections.Counter()
  byid = {}
  for n, args in exp.jobs:
    w.check(n not in byid, 'twice', '%s: work unit %d got two jobs' % (what, n))
    byid[n] = args
    got[key({k: v for k, v in args.items() if k in swept})] += 1
    w.log('job', n, sorted(args))
  extra, missing = got - want, want - got
  w.check(not extra, 'undeclared-job', lambda: '%s: jobs that the sweep does '
          'not declare: %r' % (what, list(extra)[:2]))
  w.check(sum(missing.values()) == len(exp.rejected), 'missing-job', lambda:
          '%s: %d declared combinations have no job (%d jobs were turned '
          'down): %r' % (what, sum(missing.values()), len(exp.rejected),
                         list(missing)[:2]))
  w.log(what, len(exp.jobs), len(exp.rejected))
  return got


def run(w):
  ship = launch.shipped()
  if w.stratum('source', 2, w.index) == 0:
    n = w.stratum('shipped', len(ship), w.index // 2)
    path = ship[n]
    w.probe('shipped-sweep')
  else:
    path = drawn(w)
    w.probe('drawn-sweep')
  cfg = launch.load(path)
  combos = launch.combos(cfg)
  w.sample = {'sweep': os.path.basename(path), 'model': cfg.model,
              'jobs': len(combos)}
  cluster = launch.Cluster(w, p_reject=w.pick('p-reject', [0, 0, 0.02, 0.2]))
  args = ['--config=' + path]
  pattern = w.pick('pattern', [None, '/gcs/b/{user}/{exp_name}_{exp_id}',
                               '/out/{exp_id}/{exp_name}/x'])
  if pattern:
    args.append('--save_folder_pattern=' + pattern)
  if w.chance('local', 0.2):
    args.append('--launch_locally')
  if w.chance('batch', 0.2):
    args.append('--use_batch')
  roots = {}
  for n in range(w.between('launches', 1, 2)):
    what = 'launch %d' % (n + 1)
    with w.sut('the launcher'):
      exp = launch.launch(cluster, list(args))
    judge(w, cfg, exp, what)
    swept = {k for c in combos for k in c}
    for i, job in exp.jobs:
      root = job['config.experiment.save_root']
      w.check(root not in roots, 'shared-results', lambda: '%s: jobs %r and '
              '%r write to the same directory %s' % (
                  what, roots[root], (n, i), root))
      w.check(not any(root.startswith(r + '/') or r.startswith(root + '/')
                      for r in (list(roots) if len(roots) < 40 else [])),
              'shared-results', lambda: '%s: %s lies in the directory of '
              'another job' % (what, root))
      roots[root] = (n, i)
    jobs = w.shuffled('jobs', exp.jobs)[:24] if len(exp.jobs) > 40 else (
        exp.jobs)
    for i, job in jobs:
      combo = {k: v for k, v in job.items() if k in swept}
      with w.sut('the sampling program on job %d' % i):
        c = flat(launch.job_config(job))
      ref = reference(cfg, combo)
      ref['experiment.save_root'] = job['config.experiment.save_root']
      bad = {k: (c.get(k), ref.get(k)) for k in set(c) | set(ref)
             if not same(c.get(k, '<none>'), ref.get(k, '<none>'))}
      w.check(not bad, 'wrong-configuration', lambda: '%s, job %d (%r): the '
              'program gets (and the sweep declares) %r' % (
                  what, i, combo, dict(sorted(bad.items())[:4])))
    w.tick()
