"""C01: every step stays inside the sample space and keeps the chain alive."""
import numpy as np

from vp import core, histories, samp

WARM = samp.warm


def check(case):
  tr = histories.run(case)
  C = case['C']
  bad = (tr.xs < 0) | (tr.xs >= C)
  if bad.any():
    g, t, b, i = [int(v[0]) for v in np.where(bad)]
    raise core.Violation(
        'history %d (energy scale %g): step %d put value %d on coordinate %d '
        'of chain %d, outside [0, %d)' %
        (g, case['scales'][g], t, tr.xs[g, t, b, i], i, b, C))
  for g in range(tr.acc.shape[0]):
    a = tr.acc[g]
    ok = np.isfinite(a) & (a >= 0) & (a <= 1 + 1e-6)
    if not ok.all():
      t = int(np.argmin(ok))
      raise core.Violation('history %d (energy scale %g): step %d reports '
                           'acceptance %r' % (g, case['scales'][g], t + 1,
                                              float(a[t])))
    for k, v in tr.state.items():
      fin = np.isfinite(v[g].astype(np.float64)).reshape(v.shape[1], -1).all(1)
      if not fin.all():
        raise core.Violation(
            'history %d (energy scale %g): sampler state %r is not finite '
            'after step %d' % (g, case['scales'][g], k, int(np.argmin(fin))))
  moved = (tr.xs[:, 1:] != tr.xs[:, :-1]).any((1, 2, 3))
  kind = 'bin' if C == 2 else 'cat'
  return '%s-%s' % (case['sampler'], kind), bool(moved.any()) and case['T'] > 1


def _mk(name):
  return lambda: histories.case_strategy(
      names=(name,), groups=16, co_opt=True,
      scales=(0.0, 0.5, 2.0, 8.0, 40.0, 150.0, 1000.0),
      steps=(25, 2, 60))


STRATA = [core.Stratum(n, _mk(n), check, q, th, shards=4) for n, q, th in [
    ('randomwalk', 12, 400), ('gibbs', 8, 300), ('blockgibbs', 8, 300),
    ('hammingball', 8, 300), ('gwg', 16, 500), ('path_auxiliary', 16, 500),
    ('dmala', 16, 500), ('dlmc', 16, 500)]]
STRATA += [
    core.Stratum('large', lambda: histories.large_strategy(
        scales=(0.5, 2.0, 0.0, 40.0, 1000.0)), check, 64, 800, shards=8),
    core.Stratum('long', lambda: histories.case_strategy(
        groups=4, steps=(450, 1300), scales=(0.5, 2.0, 0.0, 40.0, 150.0),
        co_opt=True), check, 40, 400, shards=8)]
RULE = ('A case is a sampler with options, number of categories (2-7), sample '
        'shape (1-12 coordinates, up to 3 axes), batch size and 16 random '
        'energies of scale 0 to 1000; 2, 25 or 60 real steps are run on each. '
        'large: up to 160 coordinates, 300 categories and 64 chains. long: 450 '
        'or 1300 steps. '
        'Non-trivial: more than one step, and at least one history moved.')
ASSUMPTIONS = ['Energies are finite in float32; JAX/XLA CPU.']
