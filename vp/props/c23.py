"""C23: annealing temperatures follow the configured schedule."""
import numpy as np

from vp import comb, core, exper
from vp.props import c22

WARM = exper.warm


def expected(case, k):
  t0, t1, T = case['t0'], case['t1'], case['T']
  if case['schedule'] == 'constant':
    return t0
  if case['schedule'] == 'linear':
    return t0 + (t1 - t0) * k / T
  return max(t0 * case['decay'] ** (k / T), t1)


def check(case):
  with comb.Dataset(case) as ds:
    run = exper.run_co(case, ds)
    temps = {}
    for i, n, t, *_ in run.events:
      temps.setdefault(n, []).append((t, i))
    T = case['T']
    core.require(set(temps) == set(range(1, T + 1)), 'sampling steps %s were '
                 'made, the chain length is %d', sorted(temps), T)
    last = np.inf
    for k in range(1, T + 1):
      want = expected(case, k)
      core.require({i for _, i in temps[k]} == set(range(len(run.slots))),
                   'step %d was made on instances %s of %d', k,
                   sorted({i for _, i in temps[k]}), len(run.slots))
      for t, i in temps[k]:
        core.require(np.isfinite(t) and t > 0, 'step %d of instance %d is '
                     'sampled at temperature %r', k, run.slots[i], t)
        core.require(abs(t - want) <= 1e-4 * want, 'step %d of %d (%s from %r '
                     'to %r, decay %r): instance %d is sampled at temperature '
                     '%r, the schedule says %r', k, T, case['schedule'],
                     case['t0'], case['t1'], case['decay'], run.slots[i], t,
                     want)
      lo = min(t for t, _ in temps[k])
      core.require(max(t for t, _ in temps[k]) <= last * (1 + 1e-6),
                   'the temperature rises at step %d', k)
      last = lo
    # scoring does not depend on the temperature of the logged step
    c22.check_scores(case, ds, run)
    return ('%s%s' % (case['schedule'], '-d%d' % case['devices']
                      if case['devices'] else ''),
            T > 1 and case['schedule'] != 'constant')


def strategy(devs):
  def f():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
      case = draw(c22.strategy(devs=devs, t_hi=4, g_hi=3)())
      case['T'] = T = draw(st.integers(1, 40))
      case['log_every'] = draw(st.integers(1, T))
      case['ess_ratio'] = draw(st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.9]))
      case['t0'] = t0 = draw(st.floats(0.01, 20.0).map(lambda v: round(v, 4)))
      case['t1'] = round(t0 * draw(st.sampled_from(
          [0.1, 1.0, 0.5, 0.001, 0.9])), 8)
      case['decay'] = draw(st.sampled_from([0.1, 0.5, 0.05, 0.9, 0.001]))
      return case

    return strat()
  return f


STRATA = [
    core.Stratum('one-device', strategy((0,)), check, 72, 1500, shards=8),
    core.Stratum('devices', strategy((2, 4)), check, 24, 500, shards=8),
]
RULE = ('A case is an optimisation run (generated graphs, batch split, '
        'devices) with a schedule, initial and final temperature, decay rate, '
        'chain length 1-40 and burn-in fraction; the temperature each sampling '
        'step of each instance really received is compared with the '
        'schedule\'s closed form, and the reported values with the objective. '
        'Non-trivial: a non-constant schedule over several steps.')
ASSUMPTIONS = ['Temperatures are positive, final <= initial, decay < 1.',
               'Several devices are emulated host devices.']
