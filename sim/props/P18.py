"""Tables and figures of a sweep, from whatever its jobs have left."""
import collections
import csv
import os
import pickle
import re

import numpy as np

from sim import launch
from sim import lib
from sim import seams
from sim.world import SimCrash

SHORT = {'hammingball': 'hb-10-1', 'blockgibbs': 'bg-2', 'randomwalk': 'rwm',
         'path_auxiliary': 'pas'}
FN = {'SQRT': '(s)', 'RATIO': '(r)', 'MIN': '(min)', 'MAX': '(max)'}
TEX = {'SQRT': '$\\sqrt{t}$', 'RATIO': '$\\frac{t}{t+1}$',
       'MIN': '1 \u2227 t', 'MAX': '1 \u2228 t'}
SAMPLER_KEYS = ('name', 'solver', 'adaptive', 'balancing_fn_type',
                'approx_with_grad', 'save_samples')
FIXED_KEYS = ('n', 'step_size', 'num_flips')   # of samplers that do not adapt
PLAIN = ('randomwalk', 'blockgibbs', 'hammingball')
LB = ('gwg', 'dmala', 'path_auxiliary')
# (sweep file, what the README says to study it by)
ESS = [('bernoulli/chain_length_sweep', 'chain_length'),
       ('bernoulli/lbf_sweep', 'balancing_fn_type'),
       ('bernoulli/model_config_sweep', 'name'),
       ('bernoulli/shape_sweep', 'shape'),
       ('categorical/chain_length_sweep', 'chain_length'),
       ('categorical/lbf_sweep', 'balancing_fn_type'),
       ('categorical/model_config_sweep', 'name'),
       ('categorical/num_categories_sweep', 'num_categories'),
       ('categorical/shape_sweep', 'shape'),
       ('fhmm/binary_sweep', 'name'), ('fhmm/categ_sweep', 'name'),
       ('ising/chian_length_sweep', 'chain_length'),
       ('ising/lbf_sweep', 'balancing_fn_type'),
       ('ising/model_config_sweep', 'name'), ('ising/shape_sweep', 'shape'),
       ('potts/chain_length_sweep', 'chain_length'),
       ('potts/lbf_sweep', 'balancing_fn_type'),
       ('potts/model_config_sweep', 'name'),
       ('potts/num_categories_sweep', 'num_categories'),
       ('potts/shape_sweep', 'shape'), ('rbm/sampler_sweep', 'name')]


def some(w, label, values, most=3):
  values = w.shuffled(label, values)
  return values[:w.between('count-' + label, 1, min(most, len(values)))]


def drawn(w, kind):
  """A sweep in the manner of the shipped ones: (path, key)."""
  pre = {}
  key = 'name'
  if kind == 'ess':
    model = w.pick('model', ['bernoulli', 'categorical', 'potts', 'ising'])
    top = dict(model=model)
    key = w.pick('key', ['name', 'chain_length', 'batch_size',
                         'balancing_fn_type'] + (
                             ['num_categories'] if model in (
                                 'categorical', 'potts') else []))
    if model in ('bernoulli', 'ising') or w.chance('sigma', 0.5):
      pre['model_config.init_sigma'] = some(w, 'sigmas', [0.5, 1.5, 3], 2)
    if key == 'num_categories' or (model in ('categorical', 'potts')
                                   and w.chance('categories', 0.4)):
      pre['model_config.num_categories'] = some(
          w, 'cats', [4, 8, 16, 32, 64, 128, 256], 4)
    if key == 'chain_length' or w.chance('length', 0.4):
      pre['config.experiment.chain_length'] = some(
          w, 'lengths', [100, 1000, 9000, 20000, 100000, 1000000], 4)
    if key == 'batch_size':
      pre['config.experiment.batch_size'] = some(
          w, 'sizes', [8, 16, 100, 128, 1000], 4)
  else:
    model, graph, cfgs = (
        ('maxcut', 'ba', ['r-ba-4-n-16-20', 'r-ba-4-n-32-40',
                          'r-ba-4-n-128-150']),
        ('maxcut', 'er', ['r-er-0.15-n-256-300', 'r-er-0.15-n-512-600']),
        ('mis', 'er_density', ['r-0.05', 'r-0.10', 'r-0.25']),
    )[w.integers('problem', 3)]
    top = dict(model=model, graph_type=graph)
    pre['model_config.cfg_str'] = some(w, 'cfg', cfgs, 2)
    each = w.chance('log-per-block', 0.5)
    log = w.pick('log', [1, 10, 100])
    if model == 'mis' and w.chance('penalty', 0.5):
      pre['model_config.penalty'] = some(w, 'penalties', [1.001, 1.1, 2], 2)
    for k, v in (('chain_length', [500, 20001, 50000]),
                 ('decay_rate', [0.05, 0.1])):
      if w.chance('sweep-' + k, 0.4):
        pre['config.experiment.' + k] = some(w, k, v, 2)
  top['sampler'] = 'path_auxiliary'
  blocks = []
  # with every balancing function the labels would not fit one figure
  fns = some(w, 'fns', list(FN), 4) if key == 'balancing_fn_type' else (
      some(w, 'fns', list(FN), 2 if kind == 'ess' else 4))
  if key != 'balancing_fn_type' and w.chance('plain', 0.7):
    blocks.append([('sampler_config.name', some(w, 'plains', PLAIN))])
  if not blocks or w.chance('balanced', 0.8):
    blocks.append([('sampler_config.name', some(w, 'lbs', LB)),
                   ('sampler_config.balancing_fn_type', fns)])
    if kind == 'co' and w.chance('adaptive', 0.5):
      blocks[-1].append(('sampler_config.adaptive', [True, False]))
  if w.chance('dlmc', 0.6):
    blocks.append([('sampler_config.name', ['dlmc']),
                   ('sampler_config.solver', some(
                       w, 'solvers', ['interpolate', 'euler_forward'])),
                   ('sampler_config.balancing_fn_type', fns)])
  if kind == 'co':
    for b in blocks:
      b.append(('config.experiment.log_every_steps', [
          w.pick('own-log', [1, 10, 100]) if each else log]))
  top['sweep'] = [dict(w.shuffled('order', list(pre.items()) + b))
                  for b in blocks]
  path = launch.write_sweep(lib.scratch(), model, w.pick(
      'title', ['sampler_sweep', 'sweep2', 'x_sweep']), top)
  return path, key


def label(d):
  """Sampler of a job, as tables and figures call it."""
  n = SHORT.get(d['name'], d['name'])
  if d.get('solver') == 'euler_forward':
    n += 'f'
  if d.get('adaptive') is False:
    n += '-nA'
  if 'adaptive' in d:
    n += str(d.get('step_size', ''))
    n += ''.join('-%s' % d[k] for k in ('n', 'num_flips') if k in d)
  return n


def settings(combo):
  return {k.split('.')[-1]: v for k, v in combo.items()}


def first_dim(v):
  return int(re.findall(r'\d+', str(v))[0])


class Job:
  """A job of the sweep and what it has left."""

  def __init__(self, w, n, combo, path, args):
    del w
    self.n, self.path, self.args = n, path, args
    self.d = settings(combo)
    self.results = None
    self.done = False

  def group(self, key, but=()):
    return tuple(sorted((k, repr(v)) for k, v in self.d.items()
                        if k not in SAMPLER_KEYS and k != key and (
                            k not in but) and not (
                            k in FIXED_KEYS and 'adaptive' in self.d)))

  def label(self, with_fn=True):
    fn = self.d.get('balancing_fn_type')
    return label(self.d) + (FN[fn] if fn and with_fn else '')

  def config(self):
    c = launch.job_config(self.args)
    c.experiment.save_root = self.path
    if 'shape' not in c.model:
      c.model.shape = (784,)
    if 'num_categories' not in c.model:
      c.model.num_categories = 2
    return c

  def save(self, w, kind, rs, graph=None):
    """The end of the job: the real saver on drawn results."""
    saver_mod = launch.importlib.import_module('discs.common.experiment_saver')
    saver = saver_mod.build_saver(self.config())
    if graph is not None:
      parts = partition(w, rs, graph)
      saver.save_co_resuts(rs.rand(5, 1), rs.rand(1), 1.0, parts[None])
      self.results = parts
    elif kind == 'co':
      self.results = {'traj': [], 'best': [], 'time': 0.0}
      t = 1 + w.integers('trajectory', 120)
      for _ in range(w.between('batches', 1, 2)):
        m = w.between('instances', 1, 3)
        traj, best = rs.rand(t, m), rs.rand(m)
        sec = float(rs.randint(1, 1000))
        saver.save_co_resuts(traj, best, sec, [])
        self.results['traj'].append(traj)
        self.results['best'].append(best)
        self.results['time'] += sec
      self.results['traj'] = np.concatenate(self.results['traj'], -1)
      self.results['best'] = np.concatenate(self.results['best'])
    elif kind == 'lm':
      res = {'infill_sents': ['a b c'], 'tbc_bleu': rs.rand() * 100,
             'self_bleu': rs.rand(), 'unique_wiki_2_grams': rs.rand()}
      top = {'infill_sents': ['a b d'], 'tbc_bleu': rs.rand() * 100,
             'self_bleu': rs.rand(), 'unique_wiki_2_grams': rs.rand()}
      saver.save_lm_results(dict(res), dict(top))
      self.results = top
    else:
      scale = 10.0 ** rs.randint(-6, 4)
      ms = [np.array([a, b * a]) * scale for a, b in rs.rand(4, 2)]
      if w.chance('parallel', 0.5):
        ms = [m[None] for m in ms]
      saver.save_results(None, None, tuple(ms), float(rs.rand()))
      half = int(self.d.get('chain_length', 100000)) // 2
      self.results = {'ess_clock': ms[2].ravel(),
                      'ess_ee': ms[3].ravel() * half}
    self.done = True


def drawn_graph(w):
  """A computation graph as networkx makes one from a list of edges."""
  import networkx as nx  # pylint: disable=g-import-not-at-top
  rs = np.random.RandomState(w.key('graph'))
  n = w.between('nodes', 4, 14)
  edges = [(i, int(rs.randint(i))) for i in range(1, n)]
  edges += [(i, j) for i in range(n) for j in range(i) if rs.rand() < 0.15]
  g = nx.Graph()
  if w.chance('in-order', 0.3):
    g.add_nodes_from(range(n))
  g.add_edges_from(edges[i] for i in rs.permutation(len(edges)))
  return g


def partition(w, rs, g):
  """Parts of the nodes, by node number."""
  if w.chance('few-parts', 0.2):
    return rs.randint(0, 2, len(g)) * 2
  return rs.randint(0, 3, len(g))


def judge_cuts(w, g, jobs, path):
  """Quality of the partitions the jobs have saved."""
  names = {'randomwalk': 'rmw', 'path_auxiliary': 'pafs'}
  want = []
  for j in jobs:
    if j.done:
      x = j.results
      cut = np.mean([x[a] != x[b] for a, b in g.edges()])
      bal = np.mean(x[:, None] != x[None]) * 3 / 2
      lab = j.label()
      short = SHORT.get(j.d['name'], j.d['name'])
      want.append((names.get(j.d['name'], short) + lab[len(short):], cut, bal))
  with open(path) as f:
    rows = list(csv.DictReader(f))
  got = [(r['sampler'], float(r['cut ratio']), float(r['balanceness']))
         for r in rows]
  w.check(sorted(a for a, _, _ in got) == sorted(a for a, _, _ in want),
          'samplers', lambda: 'the table has %r, finished were jobs of %r' % (
              sorted(a for a, _, _ in got), sorted(a for a, _, _ in want)))
  for a, c, b in want:
    w.check(any(a == s and near(c, y, 1e-6) and near(b, z, 1e-6)
                for s, y, z in got), 'partition', lambda: 'a job of %s saved '
            'a partition that cuts %r of the edges with balanceness %r; the '
            'table says %r' % (a, c, b, [r for r in got if r[0] == a]))
  w.probe('partitions', len(got))


def near(a, b, tol=1e-9):
  return abs(a - b) <= tol * max(abs(a), abs(b))


COARSE = 2e-4     # results.csv holds as many digits as numpy prints


def numbers(text):
  """Numbers of a cell: [1.0, 2.0] or [np.float64(1.0)]."""
  text = re.sub(r'np\.float\d+\(([^)]*)\)', r'\1', text)
  return [float(x) for x in re.findall(
      r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)', text)]


def told(w, name, jobs, key, what):
  """The name of a table or figure says what its jobs have in common."""
  for k, v in jobs[0].d.items():
    if k in SAMPLER_KEYS + FIXED_KEYS or k == key or re.search('[/,]', str(v)):
      continue
    v = str(v)
    if k == 'cfg_str':
      v = v.split('-', 1)[-1]
    w.check('%s=%s' % (k, v) in name, 'title', lambda: '%s %s does not say '
            '%s=%s, which its results were computed with' % (
                what, name, k, v))


def judge_tables(w, kind, root, jobs):
  """CSV tables against what the jobs have saved."""
  groups = collections.defaultdict(lambda: collections.defaultdict(list))
  for j in jobs:
    if j.done:
      groups[j.group('name')][j.label()].append(j)
  tables = []
  for d, _, files in os.walk(os.path.join(root, kind + '_csv')):
    for f in sorted(files):
      with open(os.path.join(d, f)) as fh:
        tables.append((f, list(csv.DictReader(fh))))
  col = 'best_ratio_mean' if kind == 'co' else 'tbc_bleu'

  def value(j):
    return (float(np.mean(j.results['best'])) if kind == 'co'
            else j.results['tbc_bleu'])
  seen = set()
  for f, rows in tables:
    vals = sorted(v for r in rows for v in numbers(r[col]))
    mine = [g for g in groups if any(
        near(value(j), v) for js in groups[g].values() for j in js
        for v in vals)]
    w.check(len(mine) == 1, 'mixed', lambda: 'table %s has results of %d '
            'settings: %r' % (f, len(mine), mine))
    g = groups[mine[0]]
    w.check(mine[0] not in seen, 'twice', 'two tables of one setting')
    seen.add(mine[0])
    told(w, f, next(iter(g.values())), 'name', 'table')
    got = {r['sampler']: r for r in rows}
    w.check(len(got) == len(rows) and set(got) == set(g), 'samplers', lambda:
            'table %s has the samplers %r; finished were jobs of %r' % (
                f, sorted(r['sampler'] for r in rows), sorted(g)))
    for s, js in g.items():
      for c in got[s]:
        if c in ('sampler', 'running_time'):
          continue
        have = sorted(numbers(got[s][c]))
        if kind == 'lm':
          want = sorted(j.results[c] for j in js)
        elif c == 'best_ratio_mean':
          want = sorted(float(np.mean(j.results['best'])) for j in js)
        elif c == 'best_ratio_std':
          want = sorted(float(np.std(j.results['traj'][-1])) for j in js)
        else:
          continue
        w.check(len(have) == len(want) and all(
            near(a, b) for a, b in zip(have, want)), 'value', lambda:
                'table %s, sampler %s, column %s: %r; the jobs saved %r' % (
                    f, s, c, have, want))
      if kind == 'lm':
        w.check(set(js[0].results) - {'infill_sents'} <= set(got[s]),
                'columns', lambda: 'table %s lacks metrics: %r' % (
                    f, list(got[s])))
  w.check(seen == set(groups), 'lost', lambda: 'no table has the results of '
          'the finished jobs of %r' % sorted(set(groups) - seen)[:2])
  w.probe('tables', len(tables))


class Figures:
  """What was drawn, taken when a figure is saved."""

  def __init__(self):
    import matplotlib.figure as mf  # pylint: disable=g-import-not-at-top
    import matplotlib.pyplot as plt  # pylint: disable=g-import-not-at-top
    plt.close('all')
    self.saved = []
    real = mf.Figure.savefig
    me = self

    def savefig(self, fname, **unused):
      del unused
      me.saved.append((os.path.basename(str(fname)), me.read(self)))
    mf.Figure.savefig = savefig
    show = plt.show
    plt.show = lambda *a, **k: None

    def undo():
      mf.Figure.savefig = real
      plt.show = show
      plt.close('all')
    seams.on_cleanup(undo)

  def read(self, fig):
    """Bars and lines of the figure."""
    ax = fig.axes[0]
    bars, lines = [], []
    for c in ax.containers:
      if not hasattr(c, 'patches'):
        continue
      err = None
      if c.errorbar is not None:
        segs = c.errorbar[2][0].get_segments()
        err = [(s[1][1] - s[0][1]) / 2 for s in segs]
      for i, p in enumerate(c.patches):
        bars.append((c.get_label(), p.get_x() + p.get_width() / 2,
                     p.get_height(), None if err is None else err[i]))
    colours = {}
    for l in ax.lines:
      if not l.get_label().startswith('_'):
        colours[l.get_label()] = l.get_color()
        lines.append((l.get_label(), np.array(l.get_xdata(), float),
                      np.array(l.get_ydata(), float)))
    ticks = [(t, x.get_text()) for t, x in zip(
        ax.get_xticks(), ax.get_xticklabels())]
    legend = ax.get_legend()
    bands = [np.array(c.get_paths()[0].vertices, float)
             for c in ax.collections
             if type(c).__name__.endswith('PolyCollection') and c.get_paths()]
    return dict(bars=bars, lines=lines, ticks=ticks, xlabel=ax.get_xlabel(),
                colours=colours, bands=bands,
                legend=[t.get_text() for t in legend.get_texts()]
                if legend else [],
                handles=[(getattr(h, 'get_color', lambda: None)())
                         for h in (legend.get_lines() if legend else [])])


def tick_of(j, key, model):
  v = j.d[key]
  if key == 'shape':
    d = first_dim(v)
    return '%dx%d' % (d, d) if model in ('ising', 'potts') else str(d)
  if key == 'balancing_fn_type':
    return TEX[v]
  return str(v)


def judge_bars(w, figs, jobs, key, model):
  """Bar charts against what the jobs have saved."""
  groups = collections.defaultdict(list)
  for j in jobs:
    if j.path_exists:
      groups[j.group(key)].append(j)
  groups = {g: js for g, js in groups.items() if any(j.done for j in js)}
  ticks = sorted({tick_of(j, key, model) for j in jobs
                  if j.path_exists}) if key != 'name' else ['-']
  seen = set()
  for name, fig in figs.saved:
    hits = collections.Counter()
    for g, js in groups.items():
      for metric in ('ess_ee', 'ess_clock'):
        vals = [j.results[metric][0] for j in js if j.done]
        hits[g, metric] = sum(any(near(b[2], v, COARSE) for b in fig['bars'])
                              for v in vals)
    hit = hits.most_common(1)[0]
    w.check(hit[1], 'foreign', lambda: 'figure %s shows no result of any job: '
            '%r' % (name, fig['bars'][:4]))
    hit = hit[0]
    seen.add(hit + (name.rsplit('.', 1)[-1],))
    js, metric = groups[hit[0]], hit[1]
    want = {}
    for j in js:
      t = '-' if key == 'name' else tick_of(j, key, model)
      lab = label(j.d)
      fn = j.d.get('balancing_fn_type')
      if key != 'balancing_fn_type' and fn:
        lab += {'SQRT': TEX['SQRT'], 'RATIO': TEX['RATIO']}.get(fn, FN[fn])
      if j.done:
        w.check((lab, t) not in want, 'harness', 'ambiguous bar')
        want[lab, t] = j.results[metric]
    got = {}
    for lab, x, h, e in fig['bars']:
      t = ticks[0]
      if len(ticks) > 1:
        at = [p for p, s in fig['ticks'] if s]
        w.check(sorted(s for _, s in fig['ticks'] if s) == ticks, 'ticks',
                lambda: 'figure %s has the ticks %r, the jobs %r' % (
                    name, [s for _, s in fig['ticks']], ticks))
        t = [s for _, s in fig['ticks'] if s][
            int(np.argmin([abs(x - p) for p in at]))]
      w.check((lab, t) not in got, 'twice', lambda: 'figure %s has two bars '
              'of %s at %s' % (name, lab, t))
      got[lab, t] = (h, e)
    for k in set(want) | set(got):
      h, e = got.get(k, (0, 0))
      r = want.get(k, (0.0, 0.0))
      w.check(near(h, r[0], COARSE) and (
          e is None or near(e, r[1], COARSE)), 'bar', lambda:
              'figure %s: the bar of %s at %s is %r (+- %r), its job has %r' %
              (name, k[0], k[1], h, e, tuple(r) if k in want else 'not '
               'finished'))
    told(w, name, [j for j in js if j.done], key, 'figure')
    # samplers in one colour scheme and order are not claimed.
  need = {(g, m) for g in groups for m in ('ess_ee', 'ess_clock')}
  w.check({s[:2] for s in seen} == need, 'lost', lambda: 'no figure shows the '
          'finished jobs of %r' % sorted(need - {s[:2] for s in seen})[:2])
  w.probe('figures', len(figs.saved))


def judge_curves(w, figs, jobs):
  """Curves over the chain against what the jobs have saved."""
  groups = collections.defaultdict(list)
  for j in jobs:
    if j.done:
      # every curve has its own steps, however often its job logged
      groups[j.group('name', ['log_every_steps'])].append(j)
  seen = set()
  for name, fig in figs.saved:
    time = 'ime' in fig['xlabel']
    hit = [g for g, js in groups.items() if any(
        len(y) == len(j.results['traj'])
        and np.allclose(y, j.results['traj'].mean(-1), rtol=1e-6)
        for _, _, y in fig['lines'] for j in js)]
    w.check(len(hit) == 1, 'mixed', lambda: 'figure %s has curves of %d '
            'settings' % (name, len(hit)))
    js = groups[hit[0]]
    seen.add((hit[0], time))
    got = sorted(l for l, _, _ in fig['lines'])
    w.check(got == sorted(j.label() for j in js), 'samplers', lambda: 'figure '
            '%s has curves of %r; finished were %r' % (
                name, got, sorted(j.label() for j in js)))
    for j in js:
      mean = j.results['traj'].mean(-1)
      n = len(mean)
      step = float(j.d['log_every_steps'])
      w.check(any(
          l == j.label() and len(y) == n and np.allclose(y, mean, rtol=1e-6)
          and (np.allclose(x, 1 + np.arange(n) * step) if not time else
               np.allclose(x, np.arange(n) / n * x[-1] * n / max(n - 1, 1)))
          for l, x, y in fig['lines']), 'curve', lambda: 'figure %s has no '
              'curve with the trajectory of %s' % (name, j.label()))
      std = j.results['traj'].std(-1)
      edge = np.concatenate([mean - std, mean + std])
      w.check(any(len(b) and np.max(np.min(np.abs(
          edge[:, None] - b[None, :, 1]), 1)) < 1e-6 for b in fig['bands']),
              'band', lambda: 'figure %s has no band with the spread of %s '
              'over its instances' % (name, j.label()))
      at = [i for i, t in enumerate(fig['legend'])
            if t == j.label() or t.endswith('=' + j.label())]
      w.check(len(at) == 1, 'legend', lambda: 'the legend of figure %s is %r; '
              'finished was %s' % (name, fig['legend'], j.label()))
      w.check(len(fig['handles']) != len(fig['legend'])
              or fig['handles'][at[0]] == fig['colours'][j.label()], 'legend',
              lambda: 'the legend of figure %s gives %s the colour %s, its '
              'curve has %s' % (name, j.label(), fig['handles'][at[0]],
                                fig['colours'][j.label()]))
      if time and n > 1:
        x = [x for l, x, y in fig['lines'] if l == j.label() and np.allclose(
            y[:1], mean[:1])][0]
        w.probe('time-axis')
        j.rate = x[-1] / j.results['time'] / ((n - 1) / n)
    if time:
      rates = [j.rate for j in js if hasattr(j, 'rate')]
      w.check(not rates or np.allclose(rates, rates[0]), 'time', lambda:
              'figure %s scales the running times differently: %r' % (
                  name, rates))
    told(w, name, [j for j in js], 'log_every_steps', 'figure')
  w.check(seen == {(g, t) for g in groups for t in (True, False)}, 'lost',
          'some finished jobs are in no figure')
  w.probe('curves', len(figs.saved))


def run(w):
  kind = ('ess', 'co', 'ess', 'lm', 'co', 'time', 'cut', 'time')[
      w.stratum('kind', 8, w.index)]
  key = 'name'
  ship = launch.shipped()
  data = 'co' if kind in ('time', 'cut') else kind
  graph = None
  if kind == 'cut':
    path = w.pick('sweep', [p for p in ship if '/normcut/' in p
                            and 'gap_rand' not in p])
    graph = drawn_graph(w)
  elif kind == 'lm' or w.chance('shipped', 0.5):
    if kind == 'ess':
      name, key = ESS[w.integers('sweep', len(ESS))]
      path = [p for p in ship if p.endswith(name + '.py')][0]
    else:
      path = w.pick('sweep', [p for p in ship if (
          '/lm/' if kind == 'lm' else '/co/') in p])
  else:
    path, key = drawn(w, data)
  cfg = launch.load(path)
  swept = {k for c in launch.combos(cfg) for k in c}
  w.sample = {'sweep': path.split('/')[-2] + '/' + os.path.basename(path),
              'kind': kind, 'key': key}
  cluster = launch.Cluster(w)
  with w.sut('the launcher'):
    exp = launch.launch(cluster, ['--config=' + path])
  here = lib.scratch()
  most = 60
  pending = w.shuffled('start', exp.jobs)
  jobs = []
  base = None
  for n, args in pending:
    r = args['config.experiment.save_root'].split('/')
    base = r[-2]
    jobs.append(Job(w, n, {k: v for k, v in args.items() if k in swept},
                    os.path.join(here, *r[-2:]), args))
  rs = np.random.RandomState(w.key('results'))
  p_skip = w.pick('p-unstarted', [0, 0, 0.1, 0.4])
  p_crash = w.pick('p-crash', [0, 0, 0.1, 0.3])
  os.makedirs(os.path.join(here, base))
  for i, j in enumerate(jobs):
    j.path_exists = False
    if i >= most or (i and w.chance('unstarted', p_skip)):
      if i < most:
        w.fault('job-not-started')
      continue
    j.path_exists = True
    if i and w.chance('crash', p_crash):
      w.fault('job-crash')
      os.makedirs(j.path)
      if w.chance('while-saving', 0.6):
        at = 1 + w.integers('crash-at', 4)
        count = [0]

        def die(op, p, size, at=at, count=count):
          del p
          count[0] += op != 'exists'
          if count[0] < at:
            return None
          return (size // 2, SimCrash()) if op == 'write' else SimCrash()
        seams.SimFS(w, j.path, die, buffered=w.chance('buffered', 0.5))
        try:
          j.save(w, data, rs, graph)
        except SimCrash:
          pass
        w.fs = None
        if j.done or os.path.exists(os.path.join(j.path, {
            'co': 'results.pkl', 'lm': 'results_topk.pkl',
            'ess': 'results.csv'}[data])):
          # it came as far as the file: run it again, to a known end
          j.done = False
          with w.sut('the job'):
            j.save(w, data, rs, graph)
      if not j.done and w.chance('restart', 0.4):
        with w.sut('the job'):
          j.save(w, data, rs, graph)
      continue
    with w.sut('the job'):
      j.save(w, data, rs, graph)
  w.log('jobs', [(j.n, j.path_exists, j.done) for j in jobs])
  old = os.getcwd()
  seams.on_cleanup(lambda: os.chdir(old))
  os.chdir(here)
  order = w.key('listing')
  seams.SimFS(w, here, order=lambda names: list(
      np.random.RandomState(order).permutation(names)))
  figs = Figures()
  with w.sut('the results program'):
    if kind == 'time':
      mod, rest = launch.start('time', [
          '--gcs_results_path=./' + base, '--graphtype=' + cfg.model])
    elif kind == 'cut':
      with open(os.path.join(here, 'net.pkl'), 'wb') as f:
        pickle.dump(graph, f)
      mod, rest = launch.start('cut', [
          '--gcs_results_path=./' + base, '--graph_file=./net.pkl'])
    else:
      mod, rest = launch.start('plot', [
          '--gcs_results_path=./' + base, '--evaluation_type=' + kind,
          '--key=' + key])
    mod.main(rest)
  w.fs = None
  if kind == 'time':
    judge_curves(w, figs, jobs)
  elif kind == 'cut':
    judge_cuts(w, graph, jobs, os.path.join(
        here, 'discs/common/normcut_csv', base, 'res.csv'))
  elif kind == 'ess':
    judge_bars(w, figs, jobs, key, cfg.model)
  else:
    judge_tables(w, kind, here, jobs)
  w.probe('kind:' + kind)
