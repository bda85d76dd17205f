"""C12: factorial HMM posterior and generator."""
import itertools

import numpy as np

from vp import core, mods
from vp.props.c11 import _close

WARM = mods.warm


def check_ll(case):
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  x = mods.samples(case, case['B'] + 1)
  want, mag = mods.oracle(case, params, x)
  C = mods.n_categories(case)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  enc = [('integers', x)]
  if C == 2:
    enc.append(('floats', x.astype(np.float32)))
  else:
    enc.append(('one-hot', mods.one_hot(x, C)))
  for what, z in enc:
    got = np.asarray(model.forward(jp, jnp.asarray(z)), np.float64)
    core.require(got.shape == want.shape, '%s: shape %s, expected %s', what,
                 got.shape, want.shape)
    # equality up to one constant shared by all configurations
    _close(got - got[0], want - want[0], mag + mag[0],
           'log-likelihood differences, %s' % what)
  return 'C%d' % C, case['cfg']['shape'][0] > 1


def check_gen(case):
  """Shapes, alpha, and (decoding x from y with tiny noise) the chain's law."""
  import jax
  import jax.numpy as jnp
  model = mods.make(case)
  c = case['cfg']
  C, (l, k) = c['num_categories'], c['shape']
  n = case['n']
  keys = jax.random.split(mods.key('gen', case['seed']), n)
  ps = jax.vmap(model.make_init_params)(keys)
  ps = {a: np.asarray(b, np.float64) for a, b in ps.items()}
  core.require(ps['w'].shape == (n, k, 1 if C == 2 else C),
               'w has shape %s', ps['w'].shape[1:])
  core.require(ps['b'].size == n, 'b has shape %s', ps['b'].shape[1:])
  core.require(ps['y'].size == n * l, 'y has shape %s', ps['y'].shape[1:])
  for name in ('w', 'b', 'y'):
    core.require(np.isfinite(ps[name]).all(), '%s is not finite', name)
  if C > 2:
    a = np.exp(ps['alpha'])
    core.require(a.shape == (n, C), 'alpha has shape %s', a.shape[1:])
    core.require(np.abs(a.sum(1) - 1).max() < 1e-4,
                 'initial probabilities sum to %.6g', a.sum(1)[
                     np.abs(a.sum(1) - 1).argmax()])
    core.require(np.abs(a[:, 0] - (1 - c['alpha'])).max() < 1e-4,
                 'initial probability of category 0 is not 1 - alpha')
  # decode hidden states from y = sum_j w_j[x_j] + b + tiny noise
  confs = np.array(list(itertools.product(range(C), repeat=k)))
  y = ps['y'].reshape(n, l)
  w = ps['w'] if C > 2 else np.concatenate([0 * ps['w'], ps['w']], -1)
  means = sum(w[:, j, :][:, confs[:, j]] for j in range(k)) + ps['b'].reshape(
      n, 1)
  srt = np.sort(means, 1)
  gap = np.diff(srt, axis=1).min(1) if means.shape[1] > 1 else np.ones(n)
  ok = gap > 12 * c['sigma']
  d = np.abs(y[:, :, None] - means[:, None, :])
  idx = d.argmin(2)
  res = d.min(2)[ok]
  m = int(ok.sum())
  if m < n // 4:
    return 'undecodable', False
  core.require(res.max() < 6.5 * c['sigma'],
               'an observation is %.1f sigma away from every hidden state',
               res.max() / c['sigma'])
  x = confs[idx[ok]]                      # m, l, k
  sd = np.sqrt((res ** 2).mean()) / c['sigma']
  nn = res.size
  core.require(abs(sd - 1) < 6 / np.sqrt(nn) + 0.02,
               'observation noise is %.4f sigma over %d draws', sd, nn)

  def z(hits, tot, p):
    v = max(tot * p * (1 - p), 1e-9)
    return (hits - tot * p) / np.sqrt(v)

  if C == 2:
    s = z(x[:, 0].sum(), x[:, 0].size, c['alpha'])
    core.require(abs(s) < 6, 'initial states are one with frequency %.4f, '
                 'alpha=%g (z=%.1f)', x[:, 0].mean(), c['alpha'], s)
  else:
    # every draw has its own alpha: compare counts with the sum of the alphas
    pa = np.exp(ps['alpha'][ok])
    for q in range(C):
      hit = (x[:, 0] == q).sum()
      e = k * pa[:, q].sum()
      v = k * (pa[:, q] * (1 - pa[:, q])).sum()
      s = (hit - e) / np.sqrt(max(v, 1e-9))
      core.require(abs(s) < 6, 'initial states are category %d with frequency '
                   '%.4f, expected %.4f (z=%.1f)', q, hit / x[:, 0].size,
                   e / x[:, 0].size, s)
  if l > 1:
    stay = (x[:, 1:] == x[:, :-1])
    s = z(stay.sum(), stay.size, c['beta'])
    core.require(abs(s) < 6, 'hidden variables keep their value with frequency'
                 ' %.4f, beta=%g (z=%.1f)', stay.mean(), c['beta'], s)
    if C > 2:
      jump = ((x[:, 1:] - x[:, :-1]) % C)[~stay]
      for q in range(1, C):
        s = z((jump == q).sum(), len(jump), 1 / (C - 1))
        core.require(abs(s) < 6, 'moves go to the category %d further with '
                     'frequency %.4f instead of uniformly (z=%.1f)', q,
                     (jump == q).mean(), s)
  return 'C%d' % C, l > 1


def gen_strategy():
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    C = draw(st.sampled_from([2, 3, 4]))
    k = draw(st.sampled_from([1, 2] if C == 2 else [1]))
    return dict(model='fhmm', n=4000, seed=draw(st.integers(0, 10**6)),
                cfg=dict(num_categories=C, shape=[draw(st.integers(1, 5)), k],
                         sigma=0.002, alpha=draw(st.sampled_from(
                             [0.1, 0.3, 0.8])),
                         beta=draw(st.sampled_from([0.8, 0.95, 0.4]))))

  return strat()


STRATA = [
    core.Stratum('loglik-binary', lambda: mods.draw(
        ('fhmm',), cfg=dict(num_categories=2)), check_ll, 64, 2000),
    core.Stratum('loglik-categorical', lambda: mods.draw(('fhmm',)),
                 check_ll, 96, 3000),
    core.Stratum('loglik-large', lambda: mods.draw(('fhmm',), big=True),
                 check_ll, 32, 600),
    core.Stratum('generator', gen_strategy, check_gen, 24, 400),
]
RULE = ('loglik: generated length (1-6), width (1-4), categories (2-5), sigma, '
        'alpha, beta, arbitrary or self-generated parameters, 2-7 hidden '
        'configurations; non-trivial: length > 1. generator: 4000 independent '
        'parameter draws with tiny observation noise, hidden paths decoded '
        'from the observations; non-trivial: decodable and length > 1.')
ASSUMPTIONS = ['Statistical thresholds of the generator stratum: 6 sigma.']
