"""C27: language metrics equal their definitions."""
import math
import os
import shutil
import tempfile
from collections import Counter

import numpy as np

from vp import core


def WARM():
  from discs.evaluators import lm_eval  # noqa: F401


def ngrams(s, n):
  return [tuple(s[i:i + n]) for i in range(len(s) - n + 1)]


def bleu(hyps, refs_of):
  """Corpus BLEU-4 (uniform weights), no smoothing: 0 if an order has no match."""
  num, den = [0] * 5, [0] * 5
  hl = rl = 0
  for h, refs in zip(hyps, refs_of):
    for n in range(1, 5):
      c = Counter(ngrams(h, n))
      mx = Counter()
      for r in refs:
        for g, k in Counter(ngrams(r, n)).items():
          mx[g] = max(mx[g], k)
      num[n] += sum(min(k, mx[g]) for g, k in c.items())
      den[n] += max(1, sum(c.values()))
    hl += len(h)
    rl += min((abs(len(r) - len(h)), len(r)) for r in refs)[1]
  if any(num[n] == 0 for n in range(1, 5)):
    return 0.0
  bp = 1.0 if hl > rl else (0.0 if hl == 0 else math.exp(1 - rl / hl))
  return bp * math.exp(sum(math.log(num[n] / den[n]) for n in range(1, 5)) / 4)


def prep(lines, table):
  out = []
  for l in lines:
    toks = [t.lower() for t in l.split()]
    out.append([table.get(t, t) for t in toks])
  return out


def check(case):
  from ml_collections import config_dict
  from discs.evaluators import lm_eval
  d = tempfile.mkdtemp(prefix='lm-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
  try:
    def write(name, lines):
      with open(os.path.join(d, name), 'w') as f:
        f.write('\n'.join(lines) + ('\n' if case['final_newline'] else ''))

    write('wiki103_remove_infill.5k.txt', case['wiki'])
    write('tbc_remove_infill.5k.txt', case['tbc'])
    # the unfiltered corpora lie beside them and must not be used
    write('wiki103.5k.txt', case['sents'])
    write('tbc.5k.txt', case['sents'])
    cfg = config_dict.ConfigDict(dict(experiment=dict(
        max_n_grams=case['max_n'])))
    ev = lm_eval.build_evaluator(cfg)
    res = ev.evaluate(list(case['sents']), d)
    r = core.rng_of('order', case['seed'])
    for name in ('wiki', 'tbc'):
      ls = case[name] if case['final_newline'] or case[name][-1] else \
          case[name][:-1]
      with open(os.path.join(d, {'wiki': 'wiki103', 'tbc': 'tbc'}[name] +
                             '_remove_infill.5k.txt'), 'w') as f:
        f.write(''.join(ls[i] + '\n' for i in r.permutation(len(ls))))
    res2 = ev.evaluate(list(case['sents']), d)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  sents = [s.split() for s in case['sents']]
  # a last line without newline that is empty is no line
  drop = lambda c: c[:-1] if not case['final_newline'] and not c[-1] else c
  wiki = prep(drop(case['wiki']), {'@@unknown@@': '[UNK]'})
  tbc = prep(drop(case['tbc']), {'``': '"', "''": '"'})
  n = len(sents)
  want = {'tbc_bleu': bleu(sents, [tbc] * n),
          'wiki_bleu': bleu(sents, [wiki] * n),
          'tbc_wiki_bleu': bleu(sents, [tbc + wiki] * n)}
  if n > 1:
    want['self_bleu'] = bleu(sents, [
        [s for j, s in enumerate(sents) if j != i] for i in range(n)])
  for k in range(1, case['max_n'] + 1):
    mine = [g for s in sents for g in ngrams(s, k)]
    tot = max(1, len(mine))
    for name, ref in (('wiki', wiki), ('tbc', tbc)):
      rs = {g for s in ref for g in ngrams(s, k)}
      want['unique_%s_%d_grams' % (name, k)] = len(set(mine) - rs) / tot
    want['unique_self_%d_grams' % k] = sum(
        1 for c in Counter(mine).values() if c == 1) / tot
  core.require(list(res['infill_sents']) == list(case['sents']),
               'the evaluated sentences are reported as %r',
               res['infill_sents'])
  core.require(set(res) - {'infill_sents'} == set(want), 'reported metrics are '
               '%s, expected %s', sorted(res), sorted(want))
  for k, v in want.items():
    core.require(abs(res[k] - v) < 1e-9, '%s is %r, by definition %r', k,
                 res[k], v)
    core.require(-1e-12 <= res[k] <= 1 + 1e-9, '%s is %r', k, res[k])
    core.require(abs(res2[k] - v) < 1e-9, '%s changes from %r to %r with the '
                 'order of the reference sentences', k, res[k], res2[k])
  pos = want['tbc_wiki_bleu'] > 0
  return 'n%d%s' % (min(n, 3), '-overlap' if pos else ''), n > 1


def _strat():
  from hypothesis import strategies as st
  words = ['a', 'the', 'The', 'cat', 'dog', 'Sat', 'on', '``', "''", '"',
           '@@UNKNOWN@@', '@@unknown@@', '[UNK]', '.', 'mat']

  @st.composite
  def strat(draw):
    vocab = draw(st.sampled_from([words, words[:5], words[3:],
                                  ['a', 'cat', 'on']]))
    sent = st.lists(st.sampled_from(vocab), min_size=1, max_size=9).map(
        ' '.join)
    refs = st.lists(st.one_of(sent, sent, st.sampled_from(
        ['', '  padded   spaces ', 'a cat on a mat .'])), min_size=1,
                    max_size=6)
    wiki, tbc = draw(refs), draw(refs)
    for c in (wiki, tbc):          # a corpus has at least one real line
      if not any(l.strip() for l in c):
        c.append('a cat')
    pool = st.one_of(sent, st.sampled_from(wiki + tbc).map(str.lower))
    sents = draw(st.lists(pool, min_size=1, max_size=5))
    if draw(st.booleans()):        # long copies: high overlap
      sents[0] = ' '.join((wiki + tbc)[:2]).lower() or 'a'
    return dict(wiki=wiki, tbc=tbc, sents=sents, max_n=draw(st.integers(1, 5)),
                final_newline=draw(st.booleans()),
                seed=draw(st.integers(0, 999)))

  return strat()


STRATA = [core.Stratum('metrics', _strat, check, 1600, 60000)]
RULE = ('A case is a set of 1-5 sentences and two reference corpora of 1-6 '
        'lines over a small vocabulary with the special tokens, cases and '
        'blank lines, and a maximal n-gram order 1-5. The oracle is an '
        'independent implementation of corpus BLEU and n-gram counting; the '
        'corpora are also reordered. Non-trivial: more than one sentence.')
ASSUMPTIONS = ['Corpora have at least one line.',
               'BLEU without smoothing: zero when an order has no match.']
