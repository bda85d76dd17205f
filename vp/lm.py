"""A tiny BERT on disk: real tokeniser, real (random) weights, 30522 tokens."""
import functools
import os

import numpy as np

from vp import core

V = 30522
MASK = 103
FIRST_WORD = 104 + 29 + 26     # ids from here on are the words w00000, ...
CHARS = 'abcdefghijklmnopqrstuvwxyz-,.'


def vocab():
  toks = ['[PAD]'] + ['[unused%d]' % i for i in range(1, 100)]
  toks += ['[UNK]', '[CLS]', '[SEP]', '[MASK]']
  toks += list(CHARS) + ['##' + c for c in CHARS[:26]]
  toks += ['w%05d' % i for i in range(V - len(toks))]
  return toks


def scratch_root():
  return os.environ.get('VP_SCRATCH', '/tmp')


@functools.lru_cache(None)
def tok_dir():
  """A directory holding the vocabulary; one per process tree."""
  d = os.path.join(scratch_root(), 'bert-vocab')
  f = os.path.join(d, 'vocab.txt')
  if not os.path.exists(f):
    os.makedirs(d, exist_ok=True)
    tmp = f + '.%d' % os.getpid()
    with open(tmp, 'w') as fh:
      fh.write('\n'.join(vocab()) + '\n')
    os.replace(tmp, f)
  return d


@functools.lru_cache(None)
def tokenizer():
  from transformers import BertTokenizer
  return BertTokenizer.from_pretrained(tok_dir())


def _cfg(hidden, layers):
  from transformers import BertConfig
  return BertConfig(vocab_size=V, hidden_size=hidden, num_hidden_layers=layers,
                    num_attention_heads=2, intermediate_size=hidden,
                    max_position_embeddings=48, initializer_range=0.7)


@functools.lru_cache(None)
def bert_dir(seed, hidden=8, layers=1, few=0):
  """Saves a stock masked-LM and returns its directory.

  few > 0: the output bias leaves only `few` tokens likely.
  """
  from transformers import FlaxBertForMaskedLM
  import jax
  d = os.path.join(scratch_root(), 'bert-%d-%d-%d-%d-%d' % (
      os.getpid(), seed, hidden, layers, few))
  os.makedirs(d, exist_ok=True)
  m = FlaxBertForMaskedLM(_cfg(hidden, layers), seed=seed)
  rng = core.rng_of('bert', seed, hidden, layers, few)

  def leaf(path, a):
    name = path[-1].key
    if name == 'scale':
      return np.asarray(1 + 0.3 * rng.normal(size=a.shape), np.float32)
    a = np.asarray(0.7 * rng.normal(size=a.shape), np.float32)
    if a.shape == (V,) and few:
      a[:] = -40
      a[likely(seed, few)] = 0.5 * rng.normal(size=few)
    return a

  m.params = jax.tree_util.tree_map_with_path(leaf, dict(m.params))
  m.save_pretrained(d)
  os.symlink(os.path.join(tok_dir(), 'vocab.txt'), os.path.join(d, 'vocab.txt'))
  return d


def likely(seed, few):
  return core.rng_of('likely', seed, few).choice(
      np.arange(FIRST_WORD, V), few, replace=False)


@functools.lru_cache(None)
def stock(path):
  from transformers import FlaxBertForMaskedLM
  return FlaxBertForMaskedLM.from_pretrained(path)


def ref_logits(path, ids, attention_mask=None, token_type_ids=None):
  """Logits of the unmodified library model for a batch of id rows."""
  out = stock(path)(input_ids=np.asarray(ids),
                    attention_mask=attention_mask,
                    token_type_ids=token_type_ids)
  return np.asarray(out.logits, np.float64)


def log_softmax(a):
  a = a - a.max(-1, keepdims=True)
  return a - np.log(np.exp(a).sum(-1, keepdims=True))


def ref_loglik(path, ids, pos, cand):
  """sum_i log p(cand_i at pos_i | pos_i masked, the other candidates placed)."""
  rows = []
  for i in range(len(pos)):
    r = np.array(ids)
    r[pos] = cand
    r[pos[i]] = MASK
    rows.append(r)
  while len(rows) < 4:           # one batch shape, so one compilation
    rows.append(rows[0])
  lp = log_softmax(ref_logits(path, np.stack(rows)))
  return sum(lp[i, pos[i], cand[i]] for i in range(len(pos)))


def warm():
  tokenizer()
