"""C06: step-size adaptation is bounded and steers to the target acceptance."""
import numpy as np

from vp import core, histories, samp

WARM = samp.warm
TOL = 1e-4


def check(case):
  tr = histories.run(case)
  dim = int(np.prod(case['shape']))
  name = case['sampler']
  adaptive = histories.eff_adaptive(case) and not case.get('co_opt')
  target = case['opts'].get('target_acceptance_rate')
  ups = downs = 0
  if 'radius' in tr.state:
    r = tr.state['radius'].astype(np.float64)
    core.require(np.isfinite(r).all(), 'adapted number of flips not finite')
    if not adaptive:
      core.require((r == r[:, :1]).all(), 'non-adaptive %s changed its step '
                   'size: %s', name, r[0].tolist())
      return name + '-fixed', True
    core.require(((r >= 1 - 1e-6) & (r <= dim + 1e-6)).all(),
                 'adapted number of flips left [1, %d]: %s', dim,
                 [float(r.min()), float(r.max())])
    for g in range(r.shape[0]):
      for t in range(case['T']):
        a = float(tr.acc[g, t])
        d = r[g, t + 1] - r[g, t]
        if a > target + TOL:
          core.require(d >= -TOL, 'history %d step %d: acceptance %.4f above '
                       'the target %.3f but the step size fell %.5f -> %.5f',
                       g, t + 1, a, target, r[g, t], r[g, t + 1])
          core.require(d > 0 or r[g, t + 1] >= dim - TOL,
                       'history %d step %d: acceptance %.4f above the target '
                       '%.3f but the step size stayed at %.5f', g, t + 1, a,
                       target, r[g, t])
          ups += d > 0
        elif a < target - TOL:
          core.require(d <= TOL, 'history %d step %d: acceptance %.4f below '
                       'the target %.3f but the step size rose %.5f -> %.5f',
                       g, t + 1, a, target, r[g, t], r[g, t + 1])
          core.require(d < 0 or r[g, t + 1] <= 1 + TOL,
                       'history %d step %d: acceptance %.4f below the target '
                       '%.3f but the step size stayed at %.5f', g, t + 1, a,
                       target, r[g, t])
          downs += d < 0
    return '%s-%s' % (name, 'bin' if case['C'] == 2 else 'cat'), bool(
        ups and downs)
  if 'log_tau' in tr.state and 'log_z' in tr.state:
    tau = tr.state['log_tau'].astype(np.float64)
    z = tr.state['log_z'].astype(np.float64)
    core.require(np.isfinite(tau).all() and np.isfinite(z).all(),
                 'adapted step size not finite')
    # the state before the first step only says "not initialised"
    if not adaptive:
      core.require((tau[:, 1:] == tau[:, 1:2]).all(),
                   'non-adaptive %s changed its step size: %s', name,
                   tau[0].tolist())
      return name + '-fixed', case['T'] > 1
    n = tau[:, 1:] + z[:, 1:]
    eps = 1e-3 + 1e-5 * np.abs(tau[:, 1:]).max()
    core.require((n >= -eps).all(), 'the adapted step size asks for %.3g '
                 'expected flips, less than one', float(np.exp(n.min())))
    # the first step starts from the configured number of expected flips
    n0 = case['opts']['n'] if name == 'dlmc' else 3.0
    if case['opts']['schedule_step'] > 1:
      for g in range(tau.shape[0]):
        a, n1 = float(tr.acc[g, 0]), np.exp(min(30.0, n[g, 0]))
        e = 1e-3 * (1 + 0.1 * abs(z[g, 1])) * n0
        core.require(a > target + TOL or n1 <= n0 + e, 'history %d: the first '
                     'step used %.3g expected flips and accepted %.4f, below '
                     'the target %.3f, but the step size rose to %.4g expected '
                     'flips', g, n0, a, target, n1)
        core.require(a < target - TOL or n1 >= n0 - e, 'history %d: the first '
                     'step used %.3g expected flips and accepted %.4f, above '
                     'the target %.3f, but the step size fell to %.4g expected '
                     'flips', g, n0, a, target, n1)
    for g in range(tau.shape[0]):
      for t in range(1, case['T']):
        a = float(tr.acc[g, t])
        d = tau[g, t + 1] - tau[g, t]
        e = 1e-5 * max(1.0, abs(tau[g, t]), abs(z[g, t + 1]))
        bound = tau[g, t + 1] + z[g, t + 1] <= eps      # at one flip
        big = tau[g, t] + z[g, t + 1] > 12              # change below float
        if a > target + TOL:
          core.require(d >= -e, 'history %d step %d: acceptance %.4f above '
                       'the target %.3f but log step size fell %.6f -> %.6f',
                       g, t + 1, a, target, tau[g, t], tau[g, t + 1])
          core.require(d > 0 or big or a < target + 0.01,
                       'history %d step %d: acceptance '
                       '%.4f above the target %.3f but the log step size '
                       'stayed at %.6f', g, t + 1, a, target, tau[g, t])
          ups += d > 0
        elif a < target - TOL:
          core.require(bound or d <= e, 'history %d step %d: acceptance %.4f '
                       'below the target %.3f but log step size rose %.6f -> '
                       '%.6f', g, t + 1, a, target, tau[g, t], tau[g, t + 1])
          core.require(bound or d < 0 or big or a > target - 0.01,
                       'history %d step %d: acceptance '
                       '%.4f below the target %.3f but the log step size '
                       'stayed at %.6f', g, t + 1, a, target, tau[g, t])
          downs += d < 0
    return '%s-%s' % (name, 'bin' if case['C'] == 2 else 'cat'), bool(
        ups and downs)
  return name + '-none', False


def check_size(case):
  """The step size really drives the moves: first step of DMALA/DLMC at the
  configured size, and a bigger PAS/GWG/RW step size flips more."""
  tr = histories.run(case)
  name, dim = case['sampler'], int(np.prod(case['shape']))
  r = tr.state.get('radius')
  core.require(r is not None, 'the adaptive sampler lost its step size')
  flips = (tr.xs[:, 1:] != tr.xs[:, :-1]).sum(-1)        # G,T,B
  k = np.clip(np.round(r[:, :-1].astype(np.float64)), 1, dim)[:, :, None]
  near = np.abs(r[:, :-1] - np.floor(r[:, :-1]) - 0.5)[:, :, None] < 1e-3
  if name == 'path_auxiliary':
    ok = (flips == 0) | (flips == k) | near
    core.require(ok.all(), 'adaptive PAS flipped %s coordinates at step size '
                 '%s', flips[~ok][:3].tolist(),
                 np.broadcast_to(k, flips.shape)[~ok][:3].tolist())
  elif name == 'gwg':
    ok = (flips <= k) | near
    core.require(ok.all(), 'adaptive GWG flipped more coordinates than its '
                 'step size')
  else:
    # expected number of flips of an always-accepting random walk is radius
    f = flips.mean(-1)[:, 5:]
    e = r[:, 5:-1].astype(np.float64)
    z = (f - e).sum() / np.sqrt(
        (e * np.maximum(1 - e / dim, 1e-3)).sum() / case['B'] + 1e-9)
    core.require(abs(z) < 8, 'random walk with step size %.3f on a flat target '
                 'flips %.3f coordinates on average (z=%.1f)', float(e.mean()),
                 float(f.mean()), z)
  return name, True


def _strat(name):
  return lambda: histories.case_strategy(
      names=(name,), groups=12, steps=(40, 12, 80), batches=(2, 1, 4),
      scales=(1.0, 0.0, 0.3, 3.0, 8.0, 40.0), dims=[4, 1, 2, 3, 6, 9, 12],
      cats=(2, 2, 2, 3) if name == 'gwg' else (2, 3, 5), co_opt=True,
      adaptive=[True, True, True, True, False])


def _size():
  from hypothesis import strategies as st
  pas = histories.case_strategy(names=('path_auxiliary', 'gwg'), groups=8,
                                steps=(40,), batches=(3,), scales=(0.3, 1.0),
                                dims=[6, 9, 12], cats=(2, 3), adaptive=[True])
  rw = histories.case_strategy(names=('randomwalk',), groups=8, steps=(60,),
                               batches=(64,), scales=(0.0,), dims=[6, 9, 12],
                               cats=(2, 3), adaptive=[True])
  pas = pas.filter(lambda c: c['sampler'] != 'gwg' or c['C'] == 2)
  return st.one_of(rw, pas)


STRATA = [core.Stratum(n, _strat(n), check, q, th, shards=4) for n, q, th in [
    ('randomwalk', 10, 300), ('gwg', 14, 300), ('path_auxiliary', 16, 400),
    ('dmala', 20, 500), ('dlmc', 20, 500)]] + [
        core.Stratum('size-is-used', _size, check_size, 14, 200, shards=4),
        core.Stratum('large', lambda: histories.large_strategy(
            names=('randomwalk', 'gwg', 'path_auxiliary', 'dmala', 'dlmc'),
            steps=(40, 100), scales=(0.1, 0.5, 2.0, 0.0), batches=(2, 5, 17),
            adaptive=[True, True, True, False]), check, 32, 500, shards=8),
        core.Stratum('long', lambda: histories.case_strategy(
            names=('randomwalk', 'gwg', 'path_auxiliary', 'dmala', 'dlmc'),
            groups=3, steps=(450, 1100), batches=(2, 1, 4), co_opt=True,
            scales=(1.0, 0.0, 0.3, 3.0, 8.0), dims=[4, 3, 6, 9, 12],
            cats=(2, 2, 3, 5), adaptive=[True, True, True, False]),
                     check, 32, 500, shards=8)]
RULE = ('A case is a sampler with options and 12 energies of scale 0 to 40, '
        'run for 12-80 real steps (long: 450 or 1100; large: up to 160 '
        'coordinates or 300 values); after every step the new step size is '
        'compared with the old one and the acceptance reported by the step. '
        'Non-trivial: an adaptive history with both increases and decreases, '
        'or a non-adaptive one of several steps.')
ASSUMPTIONS = ['The step size is read from the sampler state entries radius, '
               'log_tau and log_z.']
