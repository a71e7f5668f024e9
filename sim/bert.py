"""Language models for the text-infilling part: checkpoints and references.

Two of them: a small checkpoint (one layer, width 8, made-up words) for the
repository's own BERT, whose reference is the masked language model of the
transformers library on plain token ids; and, for whole runs, a stand-in
behind from_pretrained whose graph compiles fast, with a numpy reference.
"""
import json
import os

import numpy as np

VOCAB = 30522          # fixed in the repository's BERT
MASK = 103
FIRST = 104            # first ordinary word
_STATE = {}


def install():
  """The versions installed here lack a name the repository's BERT mentions."""
  os.environ['HF_HUB_OFFLINE'] = '1'
  import jax  # pylint: disable=g-import-not-at-top
  import jaxlib.xla_extension as x  # pylint: disable=g-import-not-at-top
  if not hasattr(x, 'DeviceArray'):
    x.DeviceArray = jax.Array
  import transformers  # pylint: disable=g-import-not-at-top
  transformers.logging.set_verbosity_error()


def word(i):
  return 'w%d' % i


def vocabulary(size=VOCAB):
  v = ['[PAD]'] + ['[unused%d]' % i for i in range(99)]
  v += ['[UNK]', '[CLS]', '[SEP]', '[MASK]']
  return v + [word(i) for i in range(FIRST, size)]


def _template():
  if 'params' not in _STATE:
    install()
    import jax  # pylint: disable=g-import-not-at-top
    from transformers import BertConfig, FlaxBertForMaskedLM  # pylint: disable=g-import-not-at-top
    c = BertConfig(vocab_size=VOCAB, hidden_size=8, num_hidden_layers=1,
                   num_attention_heads=2, intermediate_size=8,
                   max_position_embeddings=40)
    ref = FlaxBertForMaskedLM(c, seed=0)
    _STATE.update(config=c, ref=ref,
                  params=jax.tree_util.tree_map(np.asarray, ref.params),
                  voc='\n'.join(vocabulary()) + '\n')
    _STATE['fn'] = jax.jit(lambda p, ids: jax.nn.log_softmax(ref(
        input_ids=ids, params=p).logits, axis=-1))
  return _STATE


class Bert:
  """A checkpoint drawn from a seed, saved the way the library saves one."""

  def __init__(self, rs, path):
    import jax  # pylint: disable=g-import-not-at-top
    from flax import serialization  # pylint: disable=g-import-not-at-top
    t = _template()
    scale = 0.5

    def draw(p, a):
      name = p[-1].key
      if name == 'scale':
        return np.ones(a.shape, np.float32)
      # few distinct rows would do; every word gets its own embedding
      return rs.normal(size=a.shape).astype(np.float32) * scale / max(
          1.0, np.sqrt(a.shape[0]) if name == 'kernel' else 1.0)
    self.params = jax.tree_util.tree_map_with_path(draw, t['params'])
    os.makedirs(path)
    t['config'].save_pretrained(path)
    with open(os.path.join(path, 'flax_model.msgpack'), 'wb') as f:
      f.write(serialization.to_bytes(self.params))
    with open(os.path.join(path, 'vocab.txt'), 'w') as f:
      f.write(t['voc'])
    self.path = path

  def log_probs(self, ids):
    """log p(. | sentence) at every position; ids: rows of token ids."""
    return np.asarray(_STATE['fn'](self.params, np.asarray(ids, np.int32)),
                      np.float64)

  def loglike(self, ids, pos):
    """Sum over the masked positions of log p(word there | all the others)."""
    rows = np.repeat(np.asarray([ids]), len(pos), axis=0)
    for k, p in enumerate(pos):
      rows[k, p] = MASK
    lp = self.log_probs(rows)
    return float(sum(lp[k, p, ids[p]] for k, p in enumerate(pos)))


SMALL = 1104


class StandIn:
  """A masked language model of few operations, called like the BERT."""

  def __init__(self, rs, path, sharp=1):
    d = 6
    g = lambda *sh: rs.normal(size=sh).astype(np.float32)
    self.emb = g(SMALL, d)
    self.pos = g(64, d)
    self.mix = g(64) / 3
    self.own = g(d, d) / 2
    self.out = g(d, SMALL) * np.float32(sharp / 3)
    os.makedirs(path)
    with open(os.path.join(path, 'vocab.txt'), 'w') as f:
      f.write('\n'.join(vocabulary(SMALL)) + '\n')
    self.path = path
    _stand_ins()[path] = self

  def _logits(self, np_, e):
    n = e.shape[1]
    c = np_.einsum('bld,l->bd', e, self.mix[:n])
    h = np_.tanh(c[:, None, :] + e @ self.own + self.pos[None, :n])
    return h @ self.out

  def __call__(self, input_ids=None, attention_mask=None, infill_one_hots=None,
               infill_pos=None, token_type_ids=None, **_):
    import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
    e = jnp.asarray(self.emb)[jnp.asarray(input_ids)]
    if infill_one_hots is not None:
      e = e.at[:, jnp.asarray(infill_pos), :].set(
          jnp.asarray(infill_one_hots, jnp.float32) @ self.emb)

    class Out:
      logits = self._logits(jnp, e)
    return Out

  def log_probs(self, ids):
    z = self._logits(np, self.emb[np.asarray(ids)].astype(np.float64))
    z = z - z.max(-1, keepdims=True)
    return z - np.log(np.exp(z).sum(-1, keepdims=True))

  loglike = Bert.loglike


def _stand_ins():
  """Checkpoints that are stand-ins; everything else is loaded as it is."""
  if 'stand' not in _STATE:
    install()
    from discs.common import customized_huggingface_flax_bert as mod  # pylint: disable=g-import-not-at-top
    _STATE['stand'] = {}
    cls = mod.FlaxBertForMaskedLM_Infilling
    real = cls.from_pretrained

    def from_pretrained(path, *a, **k):
      hit = _STATE['stand'].get(os.path.abspath(str(path)))
      return hit if hit is not None else real(path, *a, **k)
    cls.from_pretrained = staticmethod(from_pretrained)
  return _STATE['stand']


def tasks(rs, n, masks, lengths, size):
  """Sentences with masked words; some share the length, some are equal."""
  out = []
  for _ in range(n):
    if out and rs.rand() < 0.3:
      out.append(dict(out[rs.randint(len(out))]))
      continue
    ln = int(rs.choice(lengths))
    ids = rs.randint(FIRST, size, size=ln)
    pos = sorted(int(p) for p in rs.choice(np.arange(ln), size=masks,
                                           replace=False))
    words = [word(i) for i in ids]
    gt = ' '.join(words)
    for p in pos:
      words[p] = '[MASK]'
    out.append({'gt_sentence': gt, 'sentence': ' '.join(words),
                'infill_pos': [p + 1 for p in pos]})
  return out


def corpora(rs, root, data):
  used = [int(x[1:]) for d in data for x in d['gt_sentence'].split()]
  """Reference corpora and the task file the program reads."""
  for f in ('tbc_remove_infill.5k.txt', 'wiki103_remove_infill.5k.txt'):
    with open(os.path.join(root, f), 'w') as fh:
      for _ in range(3):
        fh.write(' '.join(word(i) for i in rs.choice(
            used, size=rs.randint(4, 9))) + '\n')
  with open(os.path.join(root, 'infilling_task.json'), 'w') as fh:
    json.dump(data, fh)


def token_ids(sentence):
  """Token ids of a saved sentence, [CLS] and [SEP] added; None if unknown."""
  ids = [101]
  special = {'[PAD]': 0, '[UNK]': 100, '[CLS]': 101, '[SEP]': 102,
             '[MASK]': 103}
  for t in sentence.split():
    if t in special:
      ids.append(special[t])
    elif t.startswith('[unused') and t.endswith(']'):
      ids.append(1 + int(t[7:-1]))
    elif t.startswith('w') and t[1:].isdigit():
      ids.append(int(t[1:]))
    else:
      return None
  return ids + [102]
