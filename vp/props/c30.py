"""C30: infilling scores by masked pseudo-likelihood, decodes faithfully."""
import importlib
import json
import os
import pickle

import numpy as np

from vp import core, exper, lm


def WARM():
  exper.warm()
  lm.warm()
  from discs.models import text_infilling  # noqa: F401
  from discs.models.configs import text_infilling_config  # noqa: F401
  from discs.evaluators import lm_eval  # noqa: F401
  from discs.experiment.configs import lm_experiment  # noqa: F401
  from transformers import FlaxBertForMaskedLM  # noqa: F401


def task_of(words, masked):
  """A task entry as the dataset builder writes it."""
  s = list(words)
  for i in masked:
    s[i] = '[MASK]'
  sent = ' '.join(s)
  toks = lm.tokenizer().tokenize(sent)
  return dict(gt_sentence=' '.join(words), sentence=sent,
              infill_pos=[i + 1 for i, t in enumerate(toks) if t == '[MASK]'])


def write_tasks(d, tasks):
  with open(os.path.join(d, 'infilling_task.json'), 'w') as f:
    json.dump([task_of(t['words'], t['masked']) for t in tasks], f)


def bert(case):
  return lm.bert_dir(case['w'], 8, case['layers'], case.get('few', 0))


def build(case, d, random_init=False):
  from ml_collections import config_dict
  from discs.models import text_infilling
  from discs.models.configs import text_infilling_config
  m = text_infilling_config.get_config().to_dict()
  m.update(bert_model=bert(case), data_root=d,
           shape=(len(case['tasks'][0]['masked']),),
           random_init_sample=random_init)
  cfg = config_dict.ConfigDict(dict(model=m))
  return text_infilling.build_model(cfg), m


def ids_of(task):
  return np.asarray(lm.tokenizer()(task_of(task['words'], task['masked'])[
      'sentence'])['input_ids'])


def pos_of(task):
  return [i for i, v in enumerate(ids_of(task)) if v == lm.MASK]


def cands(case, n, p):
  r = core.rng_of('cand', case['seed'])
  c = r.integers(lm.FIRST_WORD, lm.V, size=(n, p))
  c[r.random((n, p)) < 0.2] = lm.MASK
  c[r.random((n, p)) < 0.2] = 104
  return c


def check_score(case):
  import jax
  import jax.numpy as jnp
  with exper.scratch() as d:
    write_tasks(d, case['tasks'])
    model, _ = build(case, d)
    key = jax.random.PRNGKey(0)
    for ti, task in enumerate(case['tasks']):
      params = model.make_init_params(key)
      core.require(params is not None, 'task %d of %d is missing', ti,
                   len(case['tasks']))
      ids, pos = ids_of(task), pos_of(task)
      core.require(np.array_equal(np.asarray(params['input_ids'])[0], ids),
                   'input ids %s instead of %s', params['input_ids'], ids)
      x = cands(case, case['B'], len(pos))
      want = np.array([lm.ref_loglik(bert(case), ids, pos, c) for c in x])
      if case['enc'] == 'int':
        z = jnp.asarray(x, jnp.int32)
      elif case['enc'] == 'float':
        z = jnp.asarray(x, jnp.float32)
      else:
        z = jax.nn.one_hot(x, lm.V)
      if case['enc'] == 'grad':
        got, g = model.get_value_and_grad(params, z)
        core.require(g.shape == z.shape, 'gradient shape %s', g.shape)
        r = core.rng_of('dir', case['seed'])
        v = np.zeros(z.shape, np.float32)
        for b in range(x.shape[0]):
          for _ in range(4):
            i = r.integers(len(pos))
            c = x[b, i] if r.random() < .5 else r.integers(lm.V)
            v[b, i, c] += r.normal()
        e = 0.02
        num = (np.asarray(model.forward(params, z + e * v), np.float64) -
               np.asarray(model.forward(params, z - e * v), np.float64)) / 2 / e
        num2 = (np.asarray(model.forward(params, z + e / 2 * v), np.float64) -
                np.asarray(model.forward(params, z - e / 2 * v), np.float64)
                ) / e
        ana = (np.asarray(g) * v).sum((1, 2))
        ok = np.abs(num - ana) <= 0.1 + 0.1 * np.abs(ana) + \
            3 * np.abs(num - num2)
        core.require(ok.all(), 'gradient along a direction is %s, the '
                     'log-likelihood changes by %s', ana, num)
      else:
        got = model.forward(params, z)
      got = np.asarray(got, np.float64)
      core.require(got.shape == (case['B'],), 'shape %s', got.shape)
      core.require(np.allclose(got, want, rtol=2e-4, atol=2e-3),
                   'log-likelihood of %s at %s of %s: %s instead of %s', x, pos,
                   ids, got, want)
      for b in range(case['B']):
        full = ids.copy()
        full[pos] = x[b]
        want_s = lm.tokenizer().decode(full[1:-1])
        got_s = model.decode(jnp.asarray(x[b:b + 1]), params)
        core.require(got_s == want_s, 'decoded %r instead of %r', got_s, want_s)
      core.require(np.array_equal(np.asarray(params['input_ids'])[0], ids),
                   'decoding changed the parameters')
    core.require(model.make_init_params(key) is None,
                 'more tasks are delivered than the dataset has')
  return '%s/p%d' % (case['enc'], len(pos)), True


def check_init(case):
  import jax
  with exper.scratch() as d:
    write_tasks(d, case['tasks'])
    model, _ = build(case, d, case['random'])
    model.make_init_params(jax.random.PRNGKey(1))
    task = case['tasks'][0]
    ids, pos = ids_of(task), pos_of(task)
    n = 600
    keys = jax.random.split(jax.random.PRNGKey(case['seed']), n)
    x = np.asarray(jax.jit(jax.vmap(
        lambda k: model.get_init_samples(k, 1)))(keys))
    core.require(x.shape == (n, 1, len(pos)) and
                 np.issubdtype(x.dtype, np.integer),
                 'initial samples of shape %s %s', x.shape, x.dtype)
    x = x[:, 0]
    core.require(x.min() >= 0 and x.max() < lm.V, 'initial token out of range')
    for i in range(len(pos)):
      if case['random']:
        b = x[:, i] // (lm.V // 6 + 1)
        p = np.array([lm.V // 6 + 1] * 5 + [lm.V - 5 * (lm.V // 6 + 1)]) / lm.V
      else:
        lp = lm.log_softmax(lm.ref_logits(bert(case), ids[None]))[0, pos[i]]
        tok = lm.likely(case['w'], case['few'])
        p = np.append(np.exp(lp[tok]), 0)
        p[-1] = max(0.0, 1 - p.sum())
        b = np.array([list(tok).index(v) if v in tok else len(tok)
                      for v in x[:, i]])
      cnt = np.bincount(b, minlength=len(p))
      keep = p * n > 3
      g = 0.0
      for c, q in list(zip(cnt[keep], p[keep])) + [
          (cnt[~keep].sum(), p[~keep].sum())]:
        if c:
          g += 2 * c * np.log(c / (n * max(q, 1e-12)))
      core.require(g < 70, 'the initial tokens at position %d follow %s instead '
                   'of %s (G = %.1f)', pos[i], cnt / n, np.round(p, 3), g)
  return 'random' if case['random'] else 'model', True


class Rec:
  """Records what is evaluated; otherwise the real evaluator."""

  def __init__(self, inner):
    self.inner, self.seen = inner, []

  def evaluate(self, sents, root):
    self.seen.append((list(sents), root))
    return self.inner.evaluate(sents, root)

  def __getattr__(self, name):
    return getattr(self.inner, name)


def check_run(case):
  from discs.common import configs as common_configs
  from discs.common import experiment_saver
  from discs.evaluators import lm_eval
  from discs.experiment import sampling
  from discs.experiment.configs import lm_experiment
  from discs.models import text_infilling
  from discs.models.configs import text_infilling_config
  P, T, R = len(case['tasks'][0]['masked']), case['T'], case['R']
  with exper.scratch() as d, exper.scratch() as out, exper.devices(1):
    write_tasks(d, case['tasks'])
    for n in ('wiki103_remove_infill.5k.txt', 'tbc_remove_infill.5k.txt'):
      with open(os.path.join(d, n), 'w') as f:
        f.write('a b c d w00001\nw00002 the a b\n')
    cfg = common_configs.get_config()
    if case['sampler'] != 'scripted':
      mod = importlib.import_module('discs.samplers.configs.%s_config' %
                                    case['sampler'])
      cfg.sampler.update(mod.get_config())
    m = text_infilling_config.get_config().to_dict()
    m.update(bert_model=bert(case), data_root=d, shape=(P,))
    cfg.model.update(m)
    cfg.update(lm_experiment.get_config())
    cfg.experiment.update(dict(
        chain_length=T, ess_ratio=case['ess'], num_same_resample=R,
        topk_num=case['topk'] or 1, use_topk=case['topk'] > 0, save_root=out,
        get_additional_metrics=case['extra']))
    model = text_infilling.build_model(cfg)
    if case['sampler'] == 'scripted':
      table = cands(case, (T + 2) * 5, P).reshape(1, T + 2, 5, P)
      inner = exper.Scripted(table.astype(np.int32))
    else:
      inner = importlib.import_module(
          'discs.samplers.%s' % cfg.sampler.name).build_sampler(cfg)
    sampler = exper.Observed(inner, ids=False)
    ev = Rec(lm_eval.build_evaluator(cfg))
    sampling.Text_Infilling_Experiment(cfg).get_results(
        model, sampler, ev, experiment_saver.build_saver(cfg))
    exper.flush()
    files = {f: pickle.load(open(os.path.join(out, f), 'rb'))
             for f in os.listdir(out) if f.endswith('.pkl')}
    again = [lm_eval.build_evaluator(cfg).evaluate(s, d) for s, _ in ev.seen]

  N = len(case['tasks'])
  evs = sampler.events
  core.require(len(evs) == N * R * T, '%d sampler steps instead of %d tasks x %d '
               'resamples x %d', len(evs), N, R, T)
  core.require(len(ev.seen) == 1 + (case['topk'] > 0), 'evaluated %d times',
               len(ev.seen))
  sents = ev.seen[0][0]
  core.require(len(sents) == N * R, '%d sentences instead of %d', len(sents),
               N * R)
  top = ev.seen[1][0] if case['topk'] else []
  k = min(case['topk'], R)
  core.require(len(top) == N * k, '%d most likely sentences instead of %d',
               len(top), N * k)
  nt = False
  for t, task in enumerate(case['tasks']):
    ids, pos = ids_of(task), pos_of(task)
    rows, keys, start = [], set(), None
    for r in range(R):
      e = evs[(t * R + r) * T:(t * R + r + 1) * T]
      core.require([v[1] for v in e] == list(range(1, T + 1)),
                   'the steps of a chain are numbered %s', [v[1] for v in e])
      for a, b in zip(e, e[1:]):
        core.require(np.array_equal(a[5], b[4]),
                     'a step does not start where the last ended')
      keys.add(e[0][0])
      rows.append(e[-1][5].reshape(-1))
    core.require(len(keys) == R, 'resamples share their random draws')
    exper.fresh([(0, q, kk[2]) for q, kk in enumerate(
        sampler.keys[t * R * T:(t + 1) * R * T])])
    want = []
    for c in rows:
      full = ids.copy()
      full[pos] = c.astype(int)
      want.append(lm.tokenizer().decode(full[1:-1]))
    got = sents[t * R:(t + 1) * R]
    core.require(got == want, 'task %d: sentences %s instead of %s', t, got,
                 want)
    nt = nt or len(set(want)) > 1
    if case['topk']:
      ll = [lm.ref_loglik(bert(case), ids, pos, c.astype(int)) for c in rows]
      best = sorted(ll)[-k:]
      mine = top[t * k:(t + 1) * k]
      val = []
      for s in mine:
        core.require(s in want, 'most likely sentence %r was never sampled', s)
      # match each reported sentence with its own likelihood
      pool = sorted(zip(ll, want), reverse=True)
      for s in mine:
        j = [i for i, (_, w) in enumerate(pool) if w == s]
        core.require(j, 'sentence %r is reported too often', s)
        val.append(pool.pop(j[0])[0])
      core.require(np.allclose(sorted(val), best, rtol=1e-3, atol=5e-3),
                   'the %d reported sentences have log-likelihoods %s, the most '
                   'likely have %s', k, sorted(val), best)
  core.require(_same(files.get('results.pkl'), again[0]),
               'saved results %s are not the evaluation %s',
               files.get('results.pkl'), again[0])
  if case['topk']:
    core.require(_same(files.get('results_topk.pkl'), again[1]),
                 'saved top-k results %s are not the evaluation %s',
                 files.get('results_topk.pkl'), again[1])
  else:
    core.require('results_topk.pkl' not in files, 'top-k results without top-k')
  return '%s/%s' % (case['sampler'], 'topk' if case['topk'] else 'all'), nt


def _same(a, b):
  if a is None or set(a) != set(b):
    return False
  return all(str(a[k]) == str(b[k]) for k in b)


COST = {'a': 1, 'b': 1, 'w00003': 1, 'w00777': 1, 'z': 1, ',': 1, 'ab': 2,
        'cde': 3, 'a-b': 3}


def _tasks(draw, st, p, n, L=9):
  """n sentences of one token length, p single-token masks each."""
  out = []
  for _ in range(n):
    words, left = [], L - 2 - p
    while left:
      w = draw(st.sampled_from([w for w in COST if COST[w] <= left]))
      words.append(w)
      left -= COST[w]
    if len(words) < 2:
      words = ['a', 'z'] + ['b'] * (L - 4 - p)
    for _ in range(p):
      words.insert(draw(st.integers(1, len(words) - 1)), None)
    masked = [i for i, w in enumerate(words) if w is None]
    out.append(dict(words=[w or 'q' for w in words], masked=masked))
  return out


def strat_score():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    p = draw(st.sampled_from([1, 3]))
    return dict(tasks=_tasks(draw, st, p, draw(st.integers(1, 3))),
                w=draw(st.integers(0, 1)), layers=draw(st.integers(1, 2)),
                seed=draw(st.integers(0, 10**6)), B=2,
                enc=draw(st.sampled_from(['int', 'float', 'onehot', 'grad'])))
  return s()


def strat_init():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    p = draw(st.sampled_from([1, 2]))
    return dict(tasks=_tasks(draw, st, p, 1), w=draw(st.integers(0, 2)),
                layers=1, few=5, seed=draw(st.integers(0, 10**6)),
                random=draw(st.sampled_from([False, False, True])))
  return s()


def strat_run():
  from hypothesis import strategies as st

  @st.composite
  def s(draw):
    p = draw(st.sampled_from([1, 2]))
    R = draw(st.sampled_from([2, 3, 12]))
    return dict(tasks=_tasks(draw, st, p, draw(st.integers(1, 3))),
                w=draw(st.integers(0, 1)), layers=1, few=0,
                seed=draw(st.integers(0, 10**6)), R=R,
                topk=draw(st.sampled_from([0, 1, 2, 3, 15])),
                T=draw(st.integers(1, 4)),
                ess=draw(st.sampled_from([0.0, 0.5, 0.3])),
                extra=draw(st.booleans()),
                sampler=draw(st.sampled_from(
                    ['scripted', 'scripted', 'randomwalk', 'dmala', 'path_auxiliary',
                     'gwg'])))
  return s()


STRATA = [core.Stratum('score', strat_score, check_score, quick=32,
                       thorough=1500),
          core.Stratum('init', strat_init, check_init, quick=8, thorough=600),
          core.Stratum('run', strat_run, check_run, quick=14, thorough=1200)]
RULE = ('A tiny BERT (random weights, full 30522-token vocabulary, real '
        'tokeniser) is saved to disk and loaded by the real model class. '
        'score: sentences, 1-4 infill positions and candidates (integer, '
        'float, one-hot; value-and-gradient) against the unmodified library '
        'BERT with one position masked at a time. init: starting tokens '
        'against the library\'s prediction with all positions masked (G-test). '
        'run: whole infilling experiments with scripted and real samplers; '
        'sentences, most likely sentences and saved results recomputed from '
        'the observed final states. Non-trivial: score/init every case, run: '
        'resamples of a task differ; distinct = distinct generated case.')
ASSUMPTIONS = ['transformers\' stock FlaxBertForMaskedLM and BertTokenizer are '
               'the reference language model and tokeniser']
