"""C26: effective sample size is computed correctly from any chain."""
import numpy as np

from vp import core, ess


def WARM():
  import jax  # noqa: F401
  from discs.evaluators import ess_eval  # noqa: F401
  from discs.common import configs  # noqa: F401


def chains_of(case):
  """(T, B) values of the generated kind."""
  r = core.rng_of('ess', case['seed'])
  T, B = case['T'], case['B']
  out = []
  for b in range(B):
    kind = case['kinds'][b % len(case['kinds'])]
    if kind == 'const':
      v = np.full(T, r.integers(0, 20))
    elif kind == 'iid':
      v = r.integers(0, case['range'] + 1, size=T)
    elif kind == 'ar':
      z = np.zeros(T)
      a = r.choice([0.3, 0.8, 0.97, -0.6])
      e = r.normal(size=T)
      for t in range(T):
        z[t] = (a * z[t - 1] if t else 0) + e[t]
      v = np.round(z * case['range'] / 4)
    elif kind == 'walk':
      v = np.cumsum(r.choice([-1, 0, 1], size=T))
    elif kind == 'alt':
      v = np.arange(T) % 2 * case['range']
    elif kind == 'step':
      v = (np.arange(T) >= r.integers(0, T + 1)) * case['range']
    elif kind == 'spike':
      v = np.zeros(T)
      v[r.integers(0, T)] = case['range']
    else:
      v = r.normal(size=T)
    out.append(v)
  return np.stack(out, 1).astype(np.float32)


def _eval(case, x, jit=True):
  import jax
  import jax.numpy as jnp
  from discs.common import configs
  from discs.evaluators import ess_eval
  cfg = configs.get_config()
  cfg.experiment.chain_length = case['chain_length']
  cfg.experiment.ess_ratio = case['ess_ratio']
  ev = ess_eval.build_evaluator(cfg)
  key = jax.random.PRNGKey(case['seed'])
  f = jax.jit(ev.evaluate) if jit else ev.evaluate
  return ev, np.asarray(f(samples=jnp.asarray(x), rnd=key), np.float64)


def check(case):
  import jax
  x = chains_of(case)
  T, B = x.shape
  if case['as_int'] and 'real' not in case['kinds']:
    xin = x.astype(np.int32)
  else:
    xin = x
  ev, got = _eval(case, xin)
  core.require(got.shape == (2,), 'evaluate gives shape %s', got.shape)
  lo, hi, std = ess.mean_ess(x)
  core.require(lo * (1 - 2e-3) - 1e-3 <= got[0] <= hi * (1 + 2e-3) + 1e-3,
               'ESS of %d chains of length %d is reported as %r, by definition '
               'it is %r..%r', B, T, got[0], lo, hi)
  core.require(0 < got[0] <= T * (1 + 1e-4), 'ESS %r of chains of length %d',
               got[0], T)
  if std is not None:
    core.require(abs(got[1] - std) <= 3e-3 * (1 + std) + 2e-3 * hi,
                 'the spread of ESS over chains is reported as %r, it is %r',
                 got[1], std)
  # order of chains, shift and scale
  r = core.rng_of('perm', case['seed'])
  if std is not None:
    y = x[:, r.permutation(B)] * 2.0 + 3.0
    _, g2 = _eval(case, y.astype(np.float32))
    core.require(np.allclose(g2, got, rtol=3e-3, atol=3e-3 * (1 + hi)),
                 'reordering, shifting and scaling the chains changes the '
                 'result from %s to %s', got.tolist(), g2.tolist())
  # derived metrics
  m = jax.jit(ev.get_eval_metrics)(got.astype(np.float32), case['time'],
                                   case['calls'])
  core.require(len(m) == 4, '%d metrics instead of 4', len(m))
  keep = 1 - case['ess_ratio']
  want = [got, got / (case['chain_length'] * keep), got / case['time'],
          got / (case['calls'] * keep)]
  for name, a, b in zip(('ESS', 'per step', 'per second',
                         'per energy evaluation'), m, want):
    core.require(np.allclose(np.asarray(a, np.float64), b, rtol=1e-4,
                             atol=1e-9), 'ESS %s is %s, expected %s', name,
                 np.asarray(a).tolist(), b.tolist())
  return '+'.join(sorted(set(case['kinds'][:B]))), lo < T * .999 and T > 2


def _strat(big=False):
  from hypothesis import strategies as st
  kinds = ['iid', 'ar', 'walk', 'const', 'alt', 'step', 'spike', 'real']
  return st.fixed_dictionaries(dict(
      T=st.sampled_from([513, 1000, 2500]) if big else st.one_of(
          st.integers(1, 12), st.integers(13, 120)),
      B=st.sampled_from([20, 7, 1, 41]) if big else st.integers(1, 6), range=st.sampled_from([10, 1, 3, 100]),
      kinds=st.lists(st.sampled_from(kinds), min_size=1, max_size=4),
      as_int=st.booleans(), seed=st.integers(0, 10**6),
      chain_length=st.integers(1, 5000),
      ess_ratio=st.sampled_from([0.5, 0.0, 0.25, 0.8, 0.95]),
      time=st.sampled_from([0.5, 0.001, 13.0]),
      calls=st.integers(1, 100000)))


STRATA = [core.Stratum('chains', _strat, check, 160, 6000),
          core.Stratum('long', lambda: _strat(True), check, 64, 1000)]
RULE = ('A case is a set of 1-6 chains of length 1-120 of generated kinds '
        '(long: up to 41 of length 2500; independent, autoregressive, random walk, constant, alternating, '
        'step, spike, real-valued), integer or float, with metric parameters. '
        'The oracle is a direct float64 autocorrelation sum. Non-trivial: ESS '
        'below the chain length and more than two samples.')
ASSUMPTIONS = ['Where an autocorrelation is zero within rounding, either side '
               'of the cut is accepted.']
