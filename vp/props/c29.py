"""C29: infilling datasets partition the corpora, mask the requested words."""
import json
import os
import shutil
import tempfile
from collections import Counter

import numpy as np

from vp import core, lm


def WARM():
  from discs.common import utils  # noqa: F401
  from discs.common import create_text_infilling_dataset  # noqa: F401
  lm.tokenizer()


def clean_tbc(l):
  return l.replace('``', '').replace("''", '')


def clean_wiki(l):
  return (l.replace('@@unknown@@', '[UNK]').replace('@@UNKNOWN@@', '[UNK]')
          .replace('@-@', '-'))


def read(path):
  with open(path) as f:
    t = f.read()
  return t[:-1].split('\n') if t.endswith('\n') else t.split('\n') if t else []


def run_script(d, n, lo, hi, k):
  """The dataset script under a model config asking for this dataset."""
  from unittest import mock
  from discs.common import create_text_infilling_dataset as script
  from discs.models.configs import text_infilling_config as conf
  cfg = conf.get_config()
  cfg.update(dict(shape=(k,), bert_model=lm.tok_dir(), data_root=d,
                  num_of_sentences=n, min_sentence_len=lo, max_sentence_len=hi))
  get = lambda *a, **kw: cfg
  with mock.patch.object(conf, 'get_config', get):
    if hasattr(script, 'get_config'):
      with mock.patch.object(script, 'get_config', get):
        script.main([''])
    else:
      script.main([''])


def check(case):
  from discs.common import utils
  d = tempfile.mkdtemp(prefix='inf-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  try:
    for name, lines, end in (('tbc', case['tbc'], case['tbc_end']),
                             ('wiki103', case['wiki'], case['wiki_end'])):
      with open(os.path.join(d, name + '.5k.txt'), 'w') as f:
        f.write('\n'.join(lines) + ('\n' if end else ''))
    np.random.seed(case['seed'])
    n, lo, hi, k = case['n'], case['lo'], case['hi'], case['masks']
    if case.get('script'):
      run_script(d, n, lo, hi, k)
    else:
      utils.create_infill_dataset(d, lm.tokenizer(), k, num_of_sentences=n,
                                  min_length=lo, max_length=hi)
    for name, lines, end in (('tbc', case['tbc'], case['tbc_end']),
                             ('wiki103', case['wiki'], case['wiki_end'])):
      with open(os.path.join(d, name + '.5k.txt')) as f:
        core.require(f.read() == '\n'.join(lines) + ('\n' if end else ''),
                     'the input corpus %s was changed', name)
    with open(os.path.join(d, 'infilling_task.json')) as f:
      task = json.load(f)
    left = dict(tbc=read(os.path.join(d, 'tbc_remove_infill.5k.txt')),
                wiki=read(os.path.join(d, 'wiki103_remove_infill.5k.txt')))
  finally:
    shutil.rmtree(d, ignore_errors=True)

  # how many
  fit = lambda s: lo <= len(s.split(' ')) <= hi
  cl_t = [clean_tbc(l) for l in case['tbc']]
  cl_w = [clean_wiki(l) for l in case['wiki']]
  nt = min(n, sum(map(fit, cl_t)))
  nw = min(2 * n - nt, sum(map(fit, cl_w)))
  core.require(len(task) == nt + nw,
               'the task has %d sentences instead of %d (%d from the first '
               'corpus, %d from the second)', len(task), nt + nw, nt, nw)
  # every line is either left or in the task
  for what, raw, cl, cleaner, part in (
      ('tbc', case['tbc'], cl_t, clean_tbc, task[:nt]),
      ('wiki', case['wiki'], cl_w, clean_wiki, task[nt:])):
    gone = Counter(raw) - Counter(left[what])
    extra = Counter(left[what]) - Counter(raw)
    core.require(not extra, '%s reference corpus has lines that the corpus does '
                 'not have (so often): %s', what, list(extra)[:3])
    core.require(Counter(cleaner(l) for l in gone.elements()) ==
                 Counter(t['gt_sentence'] for t in part),
                 '%s: lines missing from the reference corpus %s are not the '
                 'task sentences %s', what, sorted(gone.elements()),
                 [t['gt_sentence'] for t in part])
  tok = lm.tokenizer()
  for t in task:
    gt, s = t['gt_sentence'].split(' '), t['sentence'].split(' ')
    core.require(lo <= len(gt) <= hi, 'a task sentence has %d words', len(gt))
    core.require(len(gt) == len(s), 'masking changed the number of words')
    diff = [i for i in range(len(s)) if s[i] != gt[i]]
    core.require(len(diff) == k and all(s[i] == '[MASK]' for i in diff),
                 'masked %s for %s: not exactly %d words replaced', s, gt, k)
    core.require(all(0 < i < len(s) - 1 for i in diff),
                 'the first or last word was masked: %s', s)
    ids = tok(t['sentence'])['input_ids']
    core.require(t['infill_pos'] ==
                 [i for i, v in enumerate(ids) if v == lm.MASK],
                 'infill_pos %s of %r are not the mask positions in the model '
                 'input %s', t['infill_pos'], t['sentence'], ids)
  lab = 'tbc%d+wiki%d' % (min(nt, 3), min(nw, 3))
  return lab, len(task) > 0


def strategy(script=False):
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    words = st.sampled_from(
        ['ab', 'the', 'a-b', 'cat,', '.', 'w00001', 'xyz', 'Ab', 'é', '``',
         "''", '@@unknown@@', '@@UNKNOWN@@', '@-@', "``q''", '[UNK]', 'no'])
    k = draw(st.integers(1, 4))
    lo = draw(st.integers(k + 2, k + 5))
    hi = draw(st.integers(lo, lo + 5))

    def line():
      return st.lists(words, min_size=max(1, lo - 2), max_size=hi + 2).map(
          ' '.join)

    big = draw(st.booleans())
    tbc = draw(st.lists(line(), min_size=1, max_size=10 if big else 4))
    wiki = draw(st.lists(line(), min_size=1, max_size=10 if big else 4))
    if draw(st.booleans()):
      tbc = tbc + [tbc[0]]
    if draw(st.booleans()):
      wiki = wiki + [wiki[-1]]
    return dict(tbc=tbc, wiki=wiki, n=draw(st.integers(1, 6)), lo=lo, hi=hi,
                masks=k, seed=draw(st.integers(0, 2**31 - 1)),
                script=script, tbc_end=draw(st.booleans()),
                wiki_end=draw(st.booleans()))

  return s()


STRATA = [core.Stratum('infill', strategy, check, quick=2400, thorough=60000),
          core.Stratum('script', lambda: strategy(True), check, quick=96,
                       thorough=3000)]
RULE = ('Two corpora of 1-11 lines (quotes, unknown markers, hyphens, '
        'duplicates, with or without a final newline), sentence counts 1-6, '
        'length bounds and 1-4 masks are generated; the written task and '
        'reference corpora are compared with the corpora as multisets and the '
        'positions with the ids of a real BERT tokeniser. script: the same '
        'through the dataset script and a generated model config. Non-trivial: at '
        'least one task sentence; distinct = distinct generated case.')
ASSUMPTIONS = ['corpora are non-empty and contain no literal [MASK]',
               'min_length leaves at least num_of_masks interior words',
               'the tokeniser keeps [MASK] as one token']
