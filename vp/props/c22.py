"""C22: optimisation runs report true, monotone best-so-far results."""
import numpy as np

from vp import comb, core, exper

WARM = exper.warm


def history(case, run):
  """{slot: {step: rows}} of everything the sampler produced."""
  hist = {}
  for i, n, _, _, _, y, _, _ in run.events:
    hist.setdefault(i, {}).setdefault(n, []).append(y.reshape(-1, run.n))
  for i, steps in hist.items():
    for n in steps:
      steps[n] = np.concatenate(steps[n])
  return hist


def flow(run):
  """Every step continues from the samples of the step before."""
  ends, starts = {}, {}
  for i, n, _, _, x, y, _, _ in run.events:
    rows = lambda v: [tuple(r) for r in
                      np.asarray(v).reshape(-1, run.n).astype(int).tolist()]
    ends.setdefault((i, n), []).extend(rows(y))
    starts.setdefault((i, n), []).extend(rows(x))
  for (i, n), x in starts.items():
    if (i, n - 1) in ends:
      core.require(sorted(x) == sorted(ends[i, n - 1]), 'step %d of the '
                   'instance in slot %d does not start from the samples of '
                   'step %d', n, i, n - 1)


def check(case):
  with comb.Dataset(case) as ds:
    return check_scores(case, ds, exper.run_co(case, ds))


def check_scores(case, ds, run):
  """Every saved number against the observed history."""
  real = [i for i in run.slots if i >= 0]
  core.require(real == list(range(len(ds.expected))), 'the run worked on '
               'instances %s of %d', real, len(ds.expected))
  hist = history(case, run)
  exper.fresh(run.keys, lambda i: i // case['num_models'])
  flow(run)
  T, L = case['T'], case['log_every']
  logged = [s for s in range(1, T + 1) if s % L == 0]
  res = run.results
  traj = np.asarray(res['trajectory'], np.float64)
  best = np.asarray(res['best_ratio'], np.float64)
  core.require(traj.shape == (len(logged), len(real)), 'the saved trajectory '
               'has shape %s for %d logging steps and %d instances',
               traj.shape, len(logged), len(real))
  core.require(best.shape == (len(real),), 'best_ratio has shape %s for %d '
               'instances', best.shape, len(real))
  core.require((np.diff(traj, axis=0) >= 0).all(), 'the saved trajectory '
               'decreases: %s', traj.tolist())
  core.require(np.array_equal(traj[-1], best), 'best_ratio is %s, the '
               'trajectory ends in %s', best.tolist(), traj[-1].tolist())
  core.require(abs(float(res['best_ratio_mean']) - best.mean()) <=
               1e-5 * (1 + abs(best.mean())), 'best_ratio_mean is %r, the '
               'mean of best_ratio is %r', res['best_ratio_mean'],
               best.mean())
  core.require(np.isfinite(res['running_time']) and res['running_time'] >= 0,
               'running time %r', res['running_time'])
  improved = 0
  want_samples = case['save_samples'] or ds.model_name == 'normcut'
  core.require(('best_samples' in res) == want_samples, 'best samples are '
               '%s in the results', 'present' if not want_samples else
               'missing')
  if want_samples:
    bs = np.asarray(res['best_samples'])
    core.require(bs.shape == (len(real), run.n), 'best_samples has shape %s '
                 'for %d instances of %d variables', bs.shape, len(real),
                 run.n)
  for slot, idx in enumerate(run.slots):
    core.require(set(hist.get(slot, {})) == set(range(1, T + 1)),
                 'instance %d was stepped at steps %s, chain length is %d',
                 idx, sorted(hist.get(slot, {})), T)
    for s, rows in hist[slot].items():
      core.require(len(rows) == case['B'], 'instance %d has %d samples at '
                   'step %d, batch size is %d', idx, len(rows), s, case['B'])
    if idx < 0:
      continue
    inst = ds.expected[idx]
    ref = 1.0 if ds.model_name == 'mis' else float(inst[2])
    cur = -np.inf
    col = real.index(idx)
    for k, s in enumerate(logged):
      val = max(comb.objective(ds, inst, row.astype(int), run.n)
                for row in hist[slot][s]) / ref
      improved += int(val > cur)
      cur = max(cur, val)
      core.require(abs(traj[k, col] - cur) <= 1e-4 * (1 + abs(cur)),
                   'instance %d after step %d: reported best ratio %r, the '
                   'best logged sample has %r', idx, s, traj[k, col], cur)
    if want_samples:
      row = bs[col]
      core.require(((row >= 0) & (row < run.K) & (row == np.round(row))).all(),
                   'best sample of instance %d is %s', idx, row.tolist())
      val = comb.objective(ds, inst, row.astype(int), run.n) / ref
      core.require(abs(val - best[col]) <= 1e-4 * (1 + abs(val)),
                   'the saved best sample of instance %d attains %r, the '
                   'reported best ratio is %r', idx, val, best[col])
  if case.get('extra'):
    check_extra(case, run)
  dum = len(run.slots) > len(real)
  batches = len(run.slots) // case['num_models']
  return ('%s-%s%s%s%s' % (ds.model_name, case['sampler'],
                           '-d%d' % case['devices'] if case['devices'] else '',
                           '+dummy' if dum else '',
                           '+batches' if batches > 1 else ''),
          improved > len(real) or len(real) > 1)


def check_extra(case, run):
  """Acceptance and jump histories of every batch of instances."""
  m, T = case['num_models'], case['T']
  sr = [c[1] for c in run.calls if c[0] == 'save_results']
  core.require(len(sr) == len(run.slots) // m, 'results were saved %d times '
               'for %d batches of instances', len(sr), len(run.slots) // m)
  for j, args in enumerate(sr):
    acc = [[] for _ in range(T)]
    hop = np.zeros(T)
    for i, n, _, _, x, y, a, _ in run.events:
      if i // m == j:
        acc[n - 1].append(float(np.mean(a)))
        hop[n - 1] += np.abs(x.astype(np.int64) - y.astype(np.int64)).sum()
    a, h = [np.asarray(v, np.float64) for v in args[:2]]
    core.require(a.shape == (T,) and h.shape == (T,), 'acceptance and hop '
                 'histories have shapes %s and %s, the chain has %d steps',
                 a.shape, h.shape, T)
    want = np.array([np.mean(v) for v in acc])
    core.require(np.allclose(a, want, atol=1e-4), 'the acceptance history is '
                 '%s, the sampler reported %s', a.tolist(), want.tolist())
    want = hop / case['B'] / m
    core.require(np.allclose(h, want, atol=1e-4, rtol=1e-4), 'the hop history '
                 'is %s, the chains moved by %s', h.tolist(), want.tolist())
  for pre in ('Acc Ratio', 'Hops'):
    core.require(any(f.startswith(pre) for f in run.files),
                 'no %r plot among %s', pre, run.files)


def strategy(samplers=('scripted',), devs=(0,), kinds=None, t_hi=12, g_hi=5):
  def f():
    from hypothesis import strategies as st
    from vp import samp

    @st.composite
    def strat(draw):
      case = draw(comb.draw_dataset(kinds or list(comb.KINDS), n_hi=6,
                                    g_hi=g_hi))
      c19_fix(case)
      case['devices'] = d = draw(st.sampled_from(devs))
      case['num_models'] = m = draw(st.integers(1, 4))
      b = draw(st.integers(1, 5))
      if d > 1:
        if m >= d:
          m -= m % d
          case['num_models'] = m
        if m < d:
          b = d * draw(st.integers(1, 2))
      case['B'] = b
      case['T'] = T = draw(st.integers(1, t_hi))
      case['log_every'] = draw(st.integers(1, T))
      case['ess_ratio'] = draw(st.sampled_from([0.5, 0.0, 1.0, 0.3]))
      case['save_samples'] = draw(st.booleans())
      case['extra'] = draw(st.sampled_from([False, False, True]))
      case['schedule'] = draw(st.sampled_from(['linear', 'constant',
                                               'exp_decay']))
      case['t0'] = draw(st.sampled_from([1.0, 0.3, 5.0]))
      case['t1'] = draw(st.sampled_from([0.05, 0.3, 0.001]))
      case['decay'] = draw(st.sampled_from([0.1, 0.9, 0.01]))
      case['sampler'] = s = draw(st.sampled_from(samplers))
      if s != 'scripted':
        K = case.get('K', 2)
        case['opts'] = draw(samp.opts_strategy(s, K, 4, st))
        case['opts'].pop('num_flips', None)
        case['opts'].pop('block_size', None)
      return case

    return strat()
  return f


def c19_fix(case):
  from vp.props import c19
  return c19._fix(case)


REAL = ('path_auxiliary', 'gwg', 'dlmc', 'dmala', 'randomwalk', 'gibbs')
STRATA = [
    core.Stratum('scripted', strategy(), check, 60, 1500, shards=8),
    core.Stratum('scripted-devices', strategy(devs=(2, 3, 4)), check, 40, 1000,
                 shards=8),
    core.Stratum('samplers', strategy(REAL, (0, 0, 2)), check, 12, 400,
                 shards=6),
]
RULE = ('A case is a generated dataset of 1-5 graphs (10 loader kinds), a '
        'batch split (1-4 instances at a time, dummies where it does not '
        'divide), a schedule, chain length 1-12, logging interval, device '
        'count, and a sampler: a real one, or a scripted one that produces '
        'arbitrary random samples. The real experiment, evaluator and saver '
        'run; all samples are observed at the sampler and re-scored by the '
        'objective\'s definition. Non-trivial: several instances, or the best '
        'value improved after the first logged step.')
ASSUMPTIONS = ['At least one logging step lies within the chain.',
               'Several devices are emulated host devices.']
