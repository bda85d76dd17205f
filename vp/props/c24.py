"""C24: sampling runs feed exactly the post-burn-in chain to the evaluation."""
import itertools
import os
import re

import numpy as np

from vp import core, ess, exper, mods, samp

WARM = exper.warm


def chains(case, run):
  """(T, B, dim) samples and (T, B, dim) predecessors, grouped per device."""
  T, B, D = case['T'], case['B'], max(1, case['devices'])
  by = {}
  for i, n, _, _, x, y, a, k in run.events:
    by.setdefault(n, []).append((i, x.reshape(-1, run.dim),
                                 y.reshape(-1, run.dim), a, k))
  core.require(set(by) == set(range(1, T + 1)), 'the run made steps %s, the '
               'chain length is %d', sorted(by), T)
  for n, ev in by.items():
    core.require(len(ev) == D, 'step %d ran %d times on %d devices', n, len(ev),
                 D)
    ev.sort(key=lambda e: e[0])
  ids = [e[0] for e in by[1]]
  if len(set(ids)) < D:
    return None
  X = np.stack([np.concatenate([e[1] for e in by[n]]) for n in range(1, T + 1)])
  Y = np.stack([np.concatenate([e[2] for e in by[n]]) for n in range(1, T + 1)])
  core.require(Y.shape == (T, B, run.dim), 'the run keeps samples of shape %s, '
               'expected %s', Y.shape, (T, B, run.dim))
  core.require(np.array_equal(X[1:], Y[:-1]), 'a step does not start from the '
               'sample the previous step produced')
  acc = np.array([np.mean([np.mean(e[3]) for e in by[n]])
                  for n in range(1, T + 1)])
  calls = {e[4] for e in by[T]}
  return X, Y, acc, calls


def _reference(run, Y, chain):
  """Is there a sample x0 with chain == sum |Y - x0| everywhere?"""
  cand = np.array(list(itertools.product(range(run.K), repeat=run.dim)))
  d = np.abs(Y.reshape(-1, 1, run.dim) - cand[None]).sum(-1)
  ok = np.isclose(d, chain.reshape(-1, 1), atol=1e-3).all(0)
  return cand[ok]


def _floats(text):
  return [float(v) for v in re.findall(r'[-+]?[0-9.]+(?:e[-+]?\d+)?', text)]


def check(case):
  if case['model'] == 'rbm':
    import shutil
    import tempfile
    from vp.props import c18
    d = tempfile.mkdtemp(prefix='ebm-', dir=os.environ.get('VP_SCRATCH',
                                                           '/tmp'))
    try:
      _, params = mods.build(dict(case, pmode='random'))
      nv = case['cfg']['shape'][0]
      C = case['cfg']['num_categories']
      mean = [0.5] * nv if C == 2 else [[1 / C] * C] * nv
      c18._save(d, dict(case, proto=4), {k: np.asarray(v) for k, v in
                                         dict(params).items()}, mean, {})
      return _check(case, dict(data_path=d))
    finally:
      shutil.rmtree(d, ignore_errors=True)
  return _check(case, {})


def _check(case, extra):
  run = exper.run_sampling(case, extra)
  exp = case['exp']
  T, B, ratio = case['T'], case['B'], exp['ess_ratio']
  got = chains(case, run)
  core.require(got is not None, 'two devices step with the same key')
  X, Y, acc, calls = got
  exper.fresh(run.keys)
  burn = int(T * ratio)
  core.require(len(run.seen) == 1, 'the evaluation ran %d times', len(run.seen))
  chain = run.seen[0].astype(np.float64)
  core.require(chain.shape == (T - burn, B), 'the evaluation got an array of '
               'shape %s: chain length %d, burn-in %d, %d chains', chain.shape,
               T, burn, B)
  # device order of the evaluated chains is free
  order = None
  D = max(1, case['devices'])
  blocks = np.arange(B).reshape(D, -1)
  for perm in itertools.permutations(range(D)):
    idx = np.concatenate([blocks[p] for p in perm])
    ref = _reference(run, Y[burn:][:, idx], chain)
    if len(ref):
      order = idx
      break
  core.require(order is not None, 'the evaluated chain is not the distance of '
               'the post-burn-in samples to a fixed sample: %s',
               chain[:, 0].tolist())
  # the saved figures
  lo, hi, std = ess.mean_ess(chain)
  vals = {k: _floats(run.row[k]) for k in ('ESS', 'ESS_M-H', 'ESS_T',
                                           'ESS_EE')}
  for k, v in vals.items():
    core.require(len(v) == 2, 'column %s is %r', k, run.row[k])
  e = vals['ESS']
  core.require(lo * (1 - 3e-3) - 1e-3 <= e[0] <= hi * (1 + 3e-3) + 1e-3,
               'saved ESS is %r, the evaluated chain has %r..%r', e[0], lo, hi)
  secs = float(run.row['Time'])
  core.require(len(calls) == 1, 'devices count %s energy evaluations', calls)
  nc = calls.pop()
  keep = 1 - ratio
  core.require(np.isclose(vals['ESS_M-H'][0], e[0] / (T * keep), rtol=1e-3),
               'saved ESS per step is %r for ESS %r over %d steps with burn-in '
               'share %r', vals['ESS_M-H'][0], e[0], T, ratio)
  core.require(np.isclose(vals['ESS_T'][0], e[0] / secs, rtol=1e-3),
               'saved ESS per second is %r for ESS %r in %r s',
               vals['ESS_T'][0], e[0], secs)
  core.require(np.isclose(vals['ESS_EE'][0], e[0] / (nc * keep), rtol=1e-3),
               'saved ESS per energy evaluation is %r for ESS %r and %d '
               'evaluations with burn-in share %r', vals['ESS_EE'][0], e[0], nc,
               ratio)
  for k, v in (('model', case['model']), ('batch_size', str(B)),
               ('chain_length', str(T)), ('ess_ratio', str(ratio)),
               ('num_categories', str(run.K)), ('shape', str(run.shape))):
    core.require(run.row[k] == v, 'column %r is %r, configured %r', k,
                 run.row[k], v)
  # acceptance and hop histories
  sr = [c for c in run.calls if c[0] == 'save_results']
  core.require(len(sr) == 1, 'results were saved %d times', len(sr))
  a, h = sr[0][1][0], sr[0][1][1]
  if exp['get_additional_metrics']:
    a, h = np.asarray(a, np.float64), np.asarray(h, np.float64)
    core.require(a.shape == (T,) and h.shape == (T,), 'acceptance and hop '
                 'histories have shapes %s and %s, the chain has %d steps',
                 a.shape, h.shape, T)
    core.require(np.allclose(a, acc, atol=1e-4), 'the acceptance history is '
                 '%s, the sampler reported %s', a.tolist(), acc.tolist())
    hops = np.abs(X - Y).sum((1, 2)) / B
    core.require(np.allclose(h, hops, atol=1e-4), 'the hop history is %s, the '
                 'chains moved by %s', h.tolist(), hops.tolist())
    for pre in ('Acc Ratio', 'Hops'):
      core.require(any(f.startswith(pre) for f in run.files),
                   'no %r plot among %s', pre, run.files)
  # snapshots
  want = (exp['save_samples'] and case['model'] in ('rbm', 'resnet')) or (
      exp['get_estimation_error'] and case['model'] == 'bernoulli')
  core.require((run.samples is not None) == want, 'sample snapshots are %s',
               'missing' if want else 'unexpected')
  if want:
    steps = [s for s in range(1, T + 1) if s % exp['save_every_steps'] == 0]
    tr = np.asarray(run.samples['trajectory'])
    rows = min(4, B)
    if steps:
      core.require(tr.shape == (len(steps), rows, run.dim), 'the snapshots have '
                   'shape %s for %d snapshot steps', tr.shape, len(steps))
      snap = Y[[s - 1 for s in steps]]
      match = (tr[:, :, None] == snap[:, None]).all((0, 3))     # rows x chains
      from scipy.optimize import linear_sum_assignment
      r, c = linear_sum_assignment(-match.astype(int))
      core.require(match[r, c].all(), 'the snapshots at steps %s are not the '
                   'samples of %d different chains', steps, rows)
    else:
      core.require(tr.size == 0, 'snapshots without a snapshot step')
    if case['model'] == 'bernoulli':
      p = np.asarray(run.params['params'])
      core.require(p.shape == run.shape, 'saved parameters have shape %s, the '
                   'model %s', p.shape, run.shape)
      core.require(np.allclose(p, np.asarray(run.made[0]['params'])),
                   'saved parameters %s are not those of the model %s',
                   p.tolist(), np.asarray(run.made[0]['params']).tolist())
  if case['again']:
    run2 = exper.run_sampling(case, extra)
    core.require(run2.row['ESS'] == run.row['ESS'], 'a second run gives ESS %s '
                 'after %s', run2.row['ESS'], run.row['ESS'])
    got2 = chains(case, run2)
    core.require(np.array_equal(got2[1], Y), 'a second run gives other samples')
    if run.samples is not None:
      core.require(np.array_equal(run.samples['trajectory'],
                                  run2.samples['trajectory']),
                   'a second run saves other samples')
  moved = bool((chain != chain[:1]).any()) if len(chain) else False
  return ('%s-%s%s' % (case['model'], case['sampler'], '-d%d' % case['devices']
                       if case['devices'] else ''), moved)


MODELS = ('bernoulli', 'ising', 'categorical', 'potts', 'fhmm', 'rbm')


def strategy(samplers, devs):
  def f():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
      name = draw(st.sampled_from(MODELS))
      case = draw(mods.draw((name,)))
      C = case['cfg']['num_categories']
      if name in ('ising', 'potts', 'fhmm'):
        case['cfg']['shape'] = draw(st.sampled_from(
            [[2, 3], [1, 4], [3, 2]] if C < 4 else [[2, 2], [1, 3]]))
      elif name == 'rbm':
        nv = 6 if C < 4 else 4
        case['cfg'].update(shape=[nv], num_visible=nv, num_hidden=3)
      else:
        case['cfg']['shape'] = draw(st.sampled_from(
            [[5], [2, 3], [1]] if C < 4 else [[4], [2, 2]]))
      case['devices'] = d = draw(st.sampled_from(devs))
      case['B'] = draw(st.integers(1, 6)) if not d else d * draw(
          st.integers(1, 3))
      case['T'] = T = draw(st.integers(2, 30))
      case['sampler'] = s = draw(st.sampled_from(samplers))
      if s != 'scripted':
        case['opts'] = draw(samp.opts_strategy(s, C, 4, st))
        case['opts'].pop('num_flips', None)
        case['opts'].pop('block_size', None)
      snap = draw(st.sampled_from([True, True, False]))
      case['exp'] = dict(
          ess_ratio=draw(st.sampled_from([0.5, 0.5, 0.0, 0.25, 0.9])),
          get_additional_metrics=draw(st.sampled_from([False, False, True])),
          save_samples=snap, get_estimation_error=snap,
          save_every_steps=draw(st.integers(1, T + 1)))
      case['again'] = draw(st.sampled_from([False, False, True]))
      return case

    return strat()
  return f


REAL = ('gwg', 'path_auxiliary', 'dmala', 'dlmc', 'randomwalk', 'gibbs',
        'hammingball')
STRATA = [
    core.Stratum('scripted', strategy(('scripted',), (0,)), check, 40, 1000,
                 shards=8),
    core.Stratum('scripted-devices', strategy(('scripted',), (2, 4)), check, 24,
                 600, shards=8),
    core.Stratum('samplers', strategy(REAL, (0, 0, 2)), check, 16, 400,
                 shards=8),
]
RULE = ('A case is a sampling run: a generated model (6 kinds), chain length '
        '2-30, burn-in share, batch size, devices, snapshot interval and a '
        'scripted or real sampler. All samples are observed at the sampler and '
        'compared with what the evaluator receives and the files say; some '
        'runs are repeated. Non-trivial: the evaluated chain is not constant.')
ASSUMPTIONS = ['At least one step remains after the burn-in.',
               'The reference sample may be any sample of the space.',
               'Several devices are emulated host devices.']
