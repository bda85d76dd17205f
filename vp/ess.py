"""Effective sample size from its definition, in float64."""
import numpy as np


def chain_ess(x, tie=1e-4):
  """(low, high): ESS of one chain; they differ only if the place where the
  autocorrelation first turns negative is within rounding."""
  x = np.asarray(x, np.float64)
  n = len(x)
  c = x - x.mean()
  var = (c * c).sum() / n
  if var <= 1e-12 * (1 + np.abs(x).max() ** 2):
    return 1.0, 1.0
  vals = []
  s = 0.0
  for k in range(n):
    rho = (c[:n - k] * c[k:]).sum() / (n - k) / var
    if k and rho < tie:
      vals.append(n / (-1 + 2 * s))
      if rho < -tie:
        break
    s += (n - k) / n * max(rho, 0.0)
  else:
    vals.append(n / (-1 + 2 * s))
  return min(vals), max(vals)


def mean_ess(chains):
  """chains: (T, B) -> (mean low, mean high, std or None)."""
  r = np.array([chain_ess(chains[:, b]) for b in range(chains.shape[1])])
  lo, hi = r[:, 0], r[:, 1]
  std = hi.std() if np.allclose(lo, hi, rtol=1e-4) else None
  return lo.mean(), hi.mean(), std
