"""The infilling dataset and its reference corpora, written under faults."""
import collections
import errno
import json
import os

import numpy as np

from sim import bert
from sim import lib
from sim import seams
from sim.world import SimCrash

TASK = 'infilling_task.json'
REFS = {'tbc': 'tbc_remove_infill.5k.txt', 'wiki': 'wiki103_remove_infill.5k.txt'}
SRC = {'tbc': 'tbc.5k.txt', 'wiki': 'wiki103.5k.txt'}
_TOK = {}


def tokenizer():
  if not _TOK:
    import tempfile  # pylint: disable=g-import-not-at-top
    bert.install()
    from transformers import BertTokenizer  # pylint: disable=g-import-not-at-top
    with tempfile.TemporaryDirectory() as d:
      with open(os.path.join(d, 'vocab.txt'), 'w') as f:
        v = bert.vocabulary()[:bert.FIRST]
        v += [c for c in '.,-;"']
        v += [p + c for c in 'abcdefghijklmnopqrstuvwxyz0123456789'
              for p in ('', '##')]
        v += ['king', 'queen', 'castle', '##s', '##tle', 'cas', 'the', 'a']
        f.write('\n'.join(dict.fromkeys(v)) + '\n')
      _TOK['t'] = BertTokenizer.from_pretrained(d)
  return _TOK['t']


WORDS = ['king', 'queens', 'castle', 'castles', 'the', 'a', 'horse', 'x1',
         'riding', '.', ',', ';']


def corpus(rs, which, n, final_newline):
  lines = []
  for i in range(n):
    words = [WORDS[j] for j in rs.randint(len(WORDS), size=rs.randint(3, 14))]
    words[rs.randint(len(words))] = '%s%d' % (which[0], i)   # tells lines apart
    if rs.rand() < 0.3:
      extra = {'tbc': ['``', "''"], 'wiki': ['@@unknown@@', '@-@',
                                             '@@UNKNOWN@@']}[which]
      words.insert(rs.randint(len(words) + 1), extra[rs.randint(len(extra))])
    lines.append(' '.join(words))
    if rs.rand() < 0.2:         # corpora are text: blanks, other scripts
      odd = rs.randint(5)
      lines[i] = [' ' + lines[i], lines[i] + ' ', lines[i].replace(
          ' ', '  ', 1), lines[i] + ' caf\u00e9', lines[i].replace(
              ' ', ' \u2028', 1)][odd]
    if i and rs.rand() < 0.1:
      lines[i] = lines[rs.randint(i)]
  return '\n'.join(lines) + ('\n' if final_newline else ''), lines


def clean(which, line):
  """Form of a corpus line in the task file."""
  if which == 'tbc':
    return line.replace('``', '').replace("''", '')
  return line.replace('@@unknown@@', '[UNK]').replace(
      '@@UNKNOWN@@', '[UNK]').replace('@-@', '-')


def put(path, text):
  with seams._REAL['open'](path, 'w') as f:  # pylint: disable=protected-access
    f.write(text)


def get(path):
  if not os.path.exists(path):
    return None
  with seams._REAL['open'](path) as f:  # pylint: disable=protected-access
    return f.read()


def judge(w, root, src, args, tok, when):
  """Checks the dataset found in root; returns False if there is none."""
  text = get(os.path.join(root, TASK))
  if text is None:
    return False
  try:
    data = json.loads(text)
  except ValueError:
    # a reader is told; only a file that reads well must be right.
    w.check(when != 'complete', 'torn-task', 'the task file is not readable '
            'after a run without faults')
    return False
  refs = {k: get(os.path.join(root, f)) for k, f in REFS.items()}
  w.check(None not in refs.values(), 'no-reference', '%s: there is a task file '
          'and no reference corpus' % when)
  for which, text in refs.items():
    w.check(when != 'complete' or not text or text.endswith('\n'), 'torn-line',
            'the last line of the %s reference corpus is cut' % which)
  refs = {k: (v + '\n' * (not v.endswith('\n') and v != '')).split('\n')[:-1]
          for k, v in refs.items()}
  num, masks, lo, hi = args
  used = {}
  for which in SRC:
    gone = collections.Counter(src[which])
    gone.subtract(refs[which])
    bad = {k: v for k, v in gone.items() if v < 0}
    w.check(not bad, 'invented-line', lambda: '%s: lines of the %s reference '
            'corpus that are not (or not as often) in the corpus: %r' % (
                when, which, dict(bad)))
    used[which] = sorted(clean(which, x) for x in gone.elements())
  got = sorted(d['gt_sentence'] for d in data)
  want = sorted(used['tbc'] + used['wiki'])
  w.check(got == want, 'conservation', lambda: '%s: tasks and reference '
          'corpora together are not the corpora: only among the tasks %r, in '
          'neither %r' % (
              when,
              sorted((collections.Counter(got)
                      - collections.Counter(want)).elements())[:3],
              sorted((collections.Counter(want)
                      - collections.Counter(got)).elements())[:3]))
  w.check(len(used['tbc']) <= num and len(data) <= 2 * num, 'quota', lambda:
          '%s: %d tasks from tbc and %d in all, asked for %d and %d' % (
              when, len(used['tbc']), len(data), num, 2 * num))
  for which, full in (('tbc', len(used['tbc']) >= num),
                      ('wiki', len(data) >= 2 * num)):
    fit = [x for x in refs[which]
           if lo <= len(clean(which, x).split(' ')) <= hi]
    w.check(full or not fit, 'skipped', lambda: '%s: the %s quota is not full '
            'and fitting lines were not used: %r' % (when, which, fit[:2]))
  for d in data:
    gt, sent = d['gt_sentence'].split(' '), d['sentence'].split(' ')
    w.check(lo <= len(gt) <= hi, 'length', lambda: '%s: sentence of %d words '
            '%r' % (when, len(gt), d))
    hidden = [i for i, x in enumerate(sent) if x == '[MASK]']
    w.check(len(gt) == len(sent) and len(hidden) == masks and all(
        a == b for a, b in zip(gt, sent) if b != '[MASK]'), 'masking', lambda:
            '%s: %r is not %r with %d words masked' % (
                when, d['sentence'], d['gt_sentence'], masks))
    w.check(0 not in hidden and len(sent) - 1 not in hidden, 'masking',
            lambda: '%s: the first or the last word is masked: %r' % (
                when, d['sentence']))
    ids = tok(d['sentence'])['input_ids']
    pos = [i for i, t in enumerate(ids) if t == bert.MASK]
    w.check(list(d['infill_pos']) == pos, 'positions', lambda: '%s: masks of '
            '%r are at %r, the task says %r' % (when, d['sentence'], pos,
                                                d['infill_pos']))
  return True


def run(w):
  from discs.common import utils  # pylint: disable=g-import-not-at-top
  tok = tokenizer()
  rs = np.random.RandomState(w.key('corpus-seed'))
  root = lib.scratch()
  src = {}
  for which, f in SRC.items():
    text, src[which] = corpus(rs, which, w.between('lines-' + which, 4, 14),
                              w.chance('final-newline', 0.6))
    put(os.path.join(root, f), text)
  masks = w.between('masks', 1, 3)
  lo = masks + 2 + w.integers('min', 3)
  args = (w.between('sentences', 1, 4), masks, lo, lo + w.integers('max', 8))

  def create(seed):
    np.random.seed(seed)
    utils.create_infill_dataset(root, tok, masks, num_of_sentences=args[0],
                                min_length=args[2], max_length=args[3])
  ops = {'n': 0}

  def count(op, p, _):
    ops['n'] += op != 'exists'
    return None
  buf = w.chance('buffered', 0.5)
  seams.SimFS(w, root, count, buffered=buf)
  with w.sut('dataset creation'):
    create(w.key('draw-1'))
  w.fs = None
  w.check(judge(w, root, src, args, tok, 'complete'), 'no-dataset',
          'no dataset was written')
  w.log('ops', ops['n'])
  # Again, over the first dataset or over an empty directory, with a fault.
  if w.chance('fresh', 0.25):
    for f in [TASK] + list(REFS.values()):
      os.remove(os.path.join(root, f))
  rounds = w.between('rounds', 1, 3)
  for r in range(rounds):
    fault = w.pick('fault', ['crash', 'torn-crash', 'ENOSPC', 'EIO'])
    at = 1 + w.integers('fault-at', ops['n'])
    state = {'n': 0, 'hit': False}

    def inject(op, p, size, fault=fault, at=at, state=state):
      state['n'] += 1
      if state['n'] < at or state['hit']:
        return None
      write = op == 'write'
      if fault == 'torn-crash' and not write:
        return None
      if fault == 'ENOSPC' and op not in ('write', 'open-w'):
        return None
      if fault == 'EIO' and op not in ('write', 'open-w', 'open-r', 'read',
                                       'rename'):
        return None
      state['hit'] = True
      w.fault('process-crash' if fault == 'crash' else fault)
      if 'crash' in fault:
        exc = SimCrash()
      else:
        exc = OSError(getattr(errno, fault), 'injected')
      if write and fault != 'crash':
        return w.integers('reaches-disk', size + 1), exc
      return exc
    seams.SimFS(w, root, inject, buffered=buf)
    failed = None
    try:
      with w.sut('dataset creation', allow=(OSError,)):
        create(w.key('draw'))
    except SimCrash as e:
      failed = e
    except OSError as e:
      failed = e
    w.fs = None
    w.log('fault', fault, at, state['hit'], type(failed).__name__)
    w.check(not (state['hit'] and failed is None), 'hidden-failure', lambda:
            'dataset creation was hit by %s and ended as if it had worked' %
            fault)
    there = judge(w, root, src, args, tok,
                  'after ' + fault if state['hit'] else 'complete')
    w.probe('dataset-left' if there else 'no-dataset-left')
  with w.sut('dataset creation'):
    create(w.key('draw-last'))
  w.check(judge(w, root, src, args, tok, 'complete'), 'no-dataset',
          'no dataset was written after the faults')
  w.sample = {'args': args, 'rounds': rounds}
