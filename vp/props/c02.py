"""C02: random-walk / Gibbs-type samplers leave the target invariant."""
import itertools

import numpy as np

from vp import core, mods, samp, stationary


def WARM():
  samp.warm()
  mods.warm()


def _strat(*names, **kw):
  return lambda: stationary.case_strategy(list(names), **kw)


class _Enum:
  """Exact law of a small binary RBM, by enumeration of visible vectors."""

  def __init__(self, case, params):
    self.C = 2
    self.dim = case['cfg']['num_visible']
    self.case, self.params = case, params

  def states(self):
    return np.array(list(itertools.product((0, 1), repeat=self.dim)),
                    dtype=np.int32)

  def pi(self):
    ll, _ = mods.oracle(self.case, self.params, self.states())
    w = np.exp(ll - ll.max())
    return w / w.sum()

  def index_of(self, flat):
    return (flat @ (2 ** np.arange(self.dim)[::-1])).astype(np.int64)


def rbm_case(case):
  import jax
  import jax.numpy as jnp
  from discs.samplers import blockgibbs
  from ml_collections import config_dict
  model, params = mods.build(case)
  sampler = blockgibbs.RBMBlockGibbsSampler(config_dict.ConfigDict())
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  enum = _Enum(case, params)
  c = dict(B=case['B'], shape=case['cfg']['shape'], xseed=case['seed'])
  g = max(1, stationary.CHUNK // case['B'])
  st = sampler.make_init_state(mods.key('st', case['seed']))

  def one(x, k):
    return sampler.step(model=model, rng=k, x=x, model_param=jp,
                        state=st)[0].astype(jnp.int32)

  stepv = jax.jit(jax.vmap(one))
  moved = stationary.run(
      c, enum, lambda x, k: stepv(jnp.asarray(x, jnp.float32),
                                  jax.random.split(k, g)),
      what='RBM block Gibbs')
  return 'rbm', moved > 0.001


STRATA = [
    core.Stratum('randomwalk', _strat('randomwalk'), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('gibbs', _strat('gibbs', warm=[0, 1, 2, 3, 5, 12]), stationary.sampler_case, 16, 200, shards=4),
    core.Stratum('blockgibbs', _strat('blockgibbs', warm=[0, 1, 2, 3, 5, 12]), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('hammingball', _strat('hammingball', warm=[0, 1, 2, 3, 5, 12]), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('rbm', lambda: mods.draw(
        ('rbm',), pmodes=['random'], pscales=[0.7, 1.5, 0.3],
        cfg=dict(num_categories=2)), rbm_case, 8, 120, shards=4),
    core.Stratum('large', lambda: stationary.big_strategy(['randomwalk', 'gibbs', 'blockgibbs', 'hammingball']), stationary.big_case, 32, 500, shards=8),
]
RULE = ('A case is a sampler with options, 2-5 categories, a sample shape of '
        '1-6 coordinates, batch size, warm-up length (so that the sampler '
        'state is one the sampler reached itself) and two random energies; '
        '131072 chains start exactly from the target law, make one real step '
        'and the drift of energy, marginals, pair agreements and every state '
        'indicator is tested; a screen excess is confirmed on 2 million fresh '
        'chains at 7 sigma. Non-trivial: more than one coordinate and chains '
        'moved.')
ASSUMPTIONS = ['Spaces are enumerable (at most 125 states); drifts below about '
               '0.002 per step are not seen.',
               'Target energies are finite and of moderate scale.']
