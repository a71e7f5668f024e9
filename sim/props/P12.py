"""Text infilling: the sentences written are the ones the model was asked for."""
import json
import os

import jax
import numpy as np

from sim import bert
from sim import cli
from sim import exper
from sim import lib
from sim import seams
from sim.world import SimCrash

SAMPLERS = [s for s in lib.sampler_cfgs()
            if s['name'] in ('randomwalk', 'gwg', 'dmala', 'dlmc',
                             'path_auxiliary')
            and s.get('approx_with_grad') is not False]


class Chains:
  """Records the steps of the sampler the program builds."""

  def __init__(self, w, name):
    import importlib  # pylint: disable=g-import-not-at-top
    mod = importlib.import_module('discs.samplers.' + name)
    self.rec = []
    build = mod.build_sampler
    chains = self

    def spying(config):
      return Spy(build(config), chains)
    mod.build_sampler = spying
    seams.on_cleanup(lambda: setattr(mod, 'build_sampler', build))

  def cb(self, t, rng, x, new_x):
    self.rec.append((int(t), tuple(np.asarray(rng).ravel().tolist()),
                     np.array(x).ravel(), np.array(new_x).ravel()))


class Spy:
  """The real sampler; its state also carries the number of steps made."""

  def __init__(self, real, chains):
    self._real, self._chains = real, chains

  def make_init_state(self, rng):
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    return dict(self._real.make_init_state(rng),
                sim_t=jnp.zeros((), jnp.int32))

  def step(self, model, rng, x, model_param, state, *a, **k):
    inner = {n: v for n, v in state.items() if n != 'sim_t'}
    out = self._real.step(model=model, rng=rng, x=x, model_param=model_param,
                          state=inner, *a, **k)
    jax.debug.callback(self._chains.cb, state['sim_t'], rng, x, out[0])
    return (out[0], dict(out[1], sim_t=state['sim_t'] + 1)) + tuple(out[2:])

  def __getattr__(self, item):
    return getattr(self._real, item)


def run(w):
  rs = np.random.RandomState(w.key('infill-seed'))
  if w.stratum('part', 6, w.index) == 5:
    return real_bert(w, rs)
  root = lib.scratch()
  masks = w.pick('masks', [2, 3, 4])
  n = w.between('sentences', 2, 4)
  lengths = w.pick('lengths', [(6,), (6, 7), (6, 9)])
  data = bert.tasks(rs, n, masks, lengths, bert.SMALL)
  droot = os.path.join(root, 'data')
  os.makedirs(droot)
  bert.corpora(rs, droot, data)
  sharp = w.pick('sharpness', [1, 1, 12, 30])
  bm = bert.StandIn(rs, os.path.join(root, 'bert'), sharp)
  s = SAMPLERS[w.integers('sampler', len(SAMPLERS))]
  if s.get('num_flips', 1) > masks:
    s = dict(s, num_flips=masks)
  resample = w.pick('resamples', [1, 2, 3, 12])
  topk = w.chance('topk', 0.7)
  k = w.between('k', 1, min(3, resample))
  exp = dict(evaluator='lm_eval', name='Text_Infilling_Experiment',
             batch_size=1, chain_length=w.between('length', 1, 4),
             max_n_grams=2, num_same_resample=resample, topk_num=k,
             use_topk=topk, run_parallel=False,
             get_additional_metrics=w.chance('metrics', 0.3),
             save_root=os.path.join(root, 'out'))
  model = dict(shape=(masks,), num_categories=bert.SMALL,
               name='text_infilling', bert_model=bm.path,
               data_root=droot + '/', random_init_sample=w.chance(
                   'random-init', 0.3),
               num_of_sentences=n, min_sentence_len=1, max_sentence_len=20,
               save_dir_name='text_infilling')
  prog = cli.Bare(w, root, exp, model, s)
  dev = w.pick('devices', [1, 2])
  seams.Topology(w, local=dev)
  crash = 1 + w.integers('crash-at', 20) if w.chance('crash', 0.2) else None
  dur = w.key('durations')
  cli.Clocked(w, dur, crash)
  chains = Chains(w, s['name'])
  w.log('infill', masks, n, lengths, s, resample, topk, k)
  try:
    with w.sut('the text infilling program'):
      prog.run()
  except SimCrash:
    # the job is started again in the same directory
    cli.new_process()
    jax.effects_barrier()
    chains.rec.clear()
    cli.Clocked(w, dur)
    with w.sut('the text infilling program'):
      prog.run()
  w.on_dispatch = None
  jax.effects_barrier()
  out = exp['save_root']
  path = os.path.join(out, 'results.pkl')
  w.check(os.path.exists(path), 'no-results', 'the program ended and saved no '
          'results')
  sents = list(exper.load_pkl(path)['infill_sents'])
  w.log('sentences', sents)
  w.check(len(sents) == n * resample, 'count', lambda: '%d sentences were '
          'saved for %d tasks sampled %d times' % (len(sents), n, resample))
  groups = []
  for t, d in enumerate(data):
    want = [101] + [bert.MASK if x == '[MASK]' else int(x[1:])
                    for x in d['sentence'].split()] + [102]
    pos = d['infill_pos']
    group = []
    for r in range(resample):
      ids = bert.token_ids(sents[t * resample + r])
      w.check(ids is not None and len(ids) == len(want) and ' '.join(
          sents[t * resample + r].split()) == sents[t * resample + r] and all(
          a == b for i, (a, b) in enumerate(zip(ids, want)) if i not in pos),
          'wrong-sentence', lambda: 'task %d is %r, saved as %r' % (
              t, d['sentence'], sents[t * resample + r]))
      group.append(ids)
    groups.append(group)
  # Every sentence is the end of a chain of the configured length.
  rows = chains.rec
  length = exp['chain_length']
  w.check([r[0] for r in rows] == list(range(length)) * (n * resample),
          'steps', lambda: 'for %d sentences the sampler made %d steps; the '
          'chains are to have %d each' % (n * resample, len(rows), length))
  keys = {}
  for i, (_, key, x, new) in enumerate(rows):
    c, t = divmod(i, length)
    w.check(key not in keys, 'same-randomness', lambda: 'step %d of sentence '
            '%d uses the random key of step %d of sentence %d' % (
                (t, c) + keys[key]))
    keys[key] = (t, c)
    if t:
      w.check(np.array_equal(x, rows[i - 1][3]), 'chain', lambda: 'step %d of '
              'sentence %d starts from %s, the step before ended at %s' % (
                  t, c, x, rows[i - 1][3]))
    if t == length - 1:
      a, b = divmod(c, resample)
      ids = np.array(groups[a][b])[data[a]['infill_pos']]
      w.check(np.array_equal(new, ids), 'not-the-sample', lambda: 'sentence '
              '%d was saved with words %s, its chain ended at %s' % (
                  c, ids, new))
  # Independent randomness: no two chains of the run are the same draw.
  for a in range(n):
    for b in range(a):
      # (a peaked model gives equal sentences by right)
      if sharp == 1 and data[a]['sentence'] == data[b]['sentence']:
        w.probe('equal-tasks')
        w.check(groups[a] != groups[b], 'same-draws', lambda: 'tasks %d and '
                '%d are the same sentence and got the same samples %r' % (
                    b, a, sents[a * resample:(a + 1) * resample]))
  w.sample = {'tasks': n, 'masks': masks, 'sampler': s, 'resamples': resample}
  w.probe('sampler:' + s['name'])
  scores(w, exper.load_pkl(path), droot)
  tpath = os.path.join(out, 'results_topk.pkl')
  w.check(os.path.exists(tpath) == topk, 'topk-file', lambda: 'results_topk '
          'saved: %s, asked for: %s' % (os.path.exists(tpath), topk))
  if not topk:
    return
  top = list(exper.load_pkl(tpath)['infill_sents'])
  w.check(len(top) == n * k, 'topk-count', lambda: '%d top sentences for %d '
          'tasks, %d each' % (len(top), n, k))
  for t, d in enumerate(data):
    ll = {}
    for r, ids in enumerate(groups[t]):
      ll[sents[t * resample + r]] = bm.loglike(ids, d['infill_pos'])
    all_ll = sorted((ll[x] for x in sents[t * resample:(t + 1) * resample]),
                    reverse=True)
    mine = top[t * k:(t + 1) * k]
    for x in mine:
      w.check(x in ll, 'topk-unknown', lambda: 'top sentence %r of task %d is '
              'none of its samples' % (x, t))
    pool = sents[t * resample:(t + 1) * resample]
    for x in set(mine):
      w.check(mine.count(x) <= pool.count(x), 'topk-repeat', lambda: 'top '
              'sentence %r of task %d is listed more often than it was '
              'sampled' % (x, t))
    got = sorted((ll[x] for x in mine), reverse=True)
    tol = 1e-3 * (1 + abs(all_ll[0]))
    w.check(all(abs(a - b) <= tol for a, b in zip(got, all_ll)), 'topk',
            lambda: 'task %d: the %d most likely of %d samples have '
            'log-likelihoods %s, the ones saved have %s' % (
                t, k, resample, np.round(all_ll[:k], 4), np.round(got, 4)))
    if len(set(pool)) < len(pool):
      w.probe('equal-samples')
    if all_ll[0] - all_ll[-1] > 10 * tol:
      w.probe('topk-decides')


def scores(w, res, droot):
  """The saved scores are those of the saved sentences."""
  from nltk.translate import bleu_score  # pylint: disable=g-import-not-at-top
  sents = [x.split() for x in res['infill_sents']]

  def grams(lines, n):
    return [tuple(x[i:i + n]) for x in lines for i in range(len(x) - n + 1)]
  refs = {}
  for name, f in (('tbc', 'tbc_remove_infill.5k.txt'),
                  ('wiki', 'wiki103_remove_infill.5k.txt')):
    with open(os.path.join(droot, f)) as fh:
      refs[name] = [x.split() for x in fh.read().splitlines()]
  for n in (1, 2):
    mine = grams(sents, n)
    for name in refs:
      want = len(set(mine) - set(grams(refs[name], n))) / len(mine)
      got = res['unique_%s_%d_grams' % (name, n)]
      w.check(abs(got - want) < 1e-9, 'score', lambda: '%d-grams not in %s: '
              '%r, saved %r' % (n, name, want, got))
    want = sum(mine.count(x) == 1 for x in set(mine)) / len(mine)
    got = res['unique_self_%d_grams' % n]
    w.check(abs(got - want) < 1e-9, 'score', lambda: '%d-grams that occur '
            'once: %r, saved %r' % (n, want, got))
  refs['tbc_wiki'] = refs['tbc'] + refs['wiki']
  for name, r in refs.items():
    want = bleu_score.corpus_bleu([r] * len(sents), sents)
    got = res[name + '_bleu']
    w.check(abs(got - want) < 1e-9, 'score', lambda: '%s BLEU %r, saved %r' % (
        name, want, got))
  if len(sents) > 1:
    want = bleu_score.corpus_bleu([sents[:i] + sents[i + 1:]
                                   for i in range(len(sents))], sents)
    w.check(abs(res['self_bleu'] - want) < 1e-9, 'score', lambda: 'self-BLEU '
            '%r, saved %r' % (want, res['self_bleu']))


def real_bert(w, rs):
  """Likelihood and gradient with the repository's BERT, task by task."""
  import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
  from ml_collections import config_dict  # pylint: disable=g-import-not-at-top
  root = lib.scratch()
  masks, n = 2, 3
  data = bert.tasks(rs, n, masks, (6,), bert.VOCAB)
  bert.corpora(rs, root, data)
  bm = bert.Bert(rs, os.path.join(root, 'bert'))
  cfg = config_dict.ConfigDict(dict(model=dict(
      shape=(masks,), num_categories=bert.VOCAB, name='text_infilling',
      bert_model=bm.path, data_root=root, random_init_sample=False)))
  with w.sut('text infilling model'):
    from discs.models import text_infilling  # pylint: disable=g-import-not-at-top
    m = text_infilling.build_model(cfg)
  key = jax.random.PRNGKey(w.key('params'))
  for t, d in enumerate(data):
    with w.sut('text infilling model'):
      params = m.make_init_params(key)
    w.check(params is not None, 'lost-task', 'task %d of %d was not given' % (
        t, len(data)))
    ids = np.array([101] + [bert.MASK if x == '[MASK]' else int(x[1:])
                            for x in d['sentence'].split()] + [102])
    x = rs.randint(0, bert.VOCAB, size=(1, masks))
    ids[d['infill_pos']] = x[0]
    want = bm.loglike(ids, d['infill_pos'])
    onehot = jax.nn.one_hot(jnp.asarray(x), bert.VOCAB)
    with w.sut('text infilling model'):
      got, (val, grad) = jax.jit(lambda p, a, b: (  # pylint: disable=g-long-lambda
          m.forward(p, a), m.get_value_and_grad(p, b)))(
              params, jnp.asarray(x), onehot)
    tol = 1e-3 * (1 + abs(want))
    for what, v in (('log-likelihood', got), ('value', val)):
      v = np.asarray(v)
      w.check(v.shape == (1,) and abs(float(v[0]) - want) <= tol, 'loglike',
              lambda: 'task %d, words %s: %s %s, the masked language model '
              'gives %.5f' % (t, x[0].tolist(), what, v, want))
    w.check(np.shape(grad) == (1, masks, bert.VOCAB), 'gradient', lambda:
            'gradient of shape %r' % (np.shape(grad),))
    w.log('ll', round(want, 3))
  with w.sut('text infilling model'):
    end = m.make_init_params(key)
  w.check(end is None, 'end', 'a task was given after the last one')
  w.probe('real-bert')
  w.sample = {'tasks': n, 'model': 'bert'}
