"""C11: Bernoulli, categorical, Ising and Potts energies equal their definition."""
import numpy as np

from vp import core, mods

WARM = mods.warm


def _close(got, want, mag, what, *args):
  got = np.asarray(got, np.float64)
  core.require(got.shape == want.shape, '%s: shape %s, expected %s',
               what % args, got.shape, want.shape)
  err = np.abs(got - want)
  bad = ~(err <= 2e-5 * mag)
  if bad.any():
    i = int(np.argmax(bad))
    raise core.Violation('%s: row %d gives %.7g, the definition gives %.7g' %
                         (what % args, i, got[i], want[i]))


def check(case):
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  x = mods.samples(case, case['B'])
  want, mag = mods.oracle(case, params, x)
  C = mods.n_categories(case)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  name = case['model']
  fwd = jax.jit(model.forward) if name in ('ising', 'potts') else model.forward
  _close(fwd(jp, jnp.asarray(x)), want, mag, '%s, integers', name)
  enc = x.astype(np.float32) if C == 2 else mods.one_hot(x, C)
  _close(fwd(jp, jnp.asarray(enc)), want, mag, '%s, %s', name,
         'floats' if C == 2 else 'one-hot')
  # row by row: other rows permuted / replaced, row i unchanged
  perm = core.rng_of('perm', case['seed']).permutation(len(x))
  _close(fwd(jp, jnp.asarray(x[perm])), want[perm], mag[perm],
         '%s, rows permuted', name)
  i = int(perm[0])
  other = mods.samples(case, case['B'], tag='other')
  other[i] = x[i]
  got = np.asarray(fwd(jp, jnp.asarray(other)))
  _close(got[i:i + 1], want[i:i + 1], mag[i:i + 1],
         '%s, other rows replaced', name)
  # the moments used by the Bernoulli evaluation
  if name == 'bernoulli':
    th = np.asarray(params['params'], np.float64)
    p = 1 / (1 + np.exp(-th))
    np_ok = lambda a, b: np.allclose(np.asarray(a, np.float64), b, rtol=1e-4,
                                     atol=1e-6)
    core.require(np_ok(model.get_expected_val(jp), p),
                 'expected value differs from the sigmoid of the parameters')
    core.require(np_ok(model.get_var(jp), p * (1 - p)),
                 'variance differs from p(1-p)')
  return name, x.size > x.shape[0]


def _mk(n):
  return lambda: mods.draw((n,))


STRATA = [core.Stratum(n, _mk(n), check, 64, 2000)
          for n in ('bernoulli', 'categorical', 'ising', 'potts')]
STRATA.append(core.Stratum('large', lambda: mods.draw(
    ('bernoulli', 'categorical', 'ising', 'potts'), big=True), check, 48,
                           800))
RULE = ('A case is a model with generated shape (1-3 axes for the factorised '
        'models, 1-5 x 1-5 lattices), 2-6 categories, generated configuration, '
        'arbitrary or self-initialised parameters and 1-6 sample rows. '
        'large: up to 257 coordinates, 40 categories, 40 rows. '
        'Non-trivial: more than one coordinate.')
ASSUMPTIONS = ['float32 rounding: relative error up to 2e-5 of the sum of '
               'absolute terms is tolerated.']
