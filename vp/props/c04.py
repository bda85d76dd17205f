"""C04: whole-vector gradient samplers (DMALA, DLMC) leave the target invariant."""
from vp import core, samp, stationary

WARM = samp.warm


def _strat(*names, **kw):
  return lambda: stationary.case_strategy(list(names), **kw)


STRATA = [
    core.Stratum('dmala-binary', _strat('dmala', cats=(2,)), stationary.sampler_case, 20, 400, shards=4),
    core.Stratum('dmala-categorical', _strat('dmala', cats=(3, 4, 5)), stationary.sampler_case, 16, 300, shards=4),
    core.Stratum('dlmc-binary', _strat('dlmc', cats=(2,)), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('dlmc-categorical', _strat('dlmc', cats=(3, 4, 5)), stationary.sampler_case, 20, 400, shards=4),
    core.Stratum('one-chain-co', _strat('dmala', 'dlmc', co_opt=True), stationary.sampler_case, 12, 200, shards=4),
    core.Stratum('large', lambda: stationary.big_strategy(['dmala', 'dlmc']), stationary.big_case, 32, 500, shards=8),
]
from vp.props.c02 import RULE, ASSUMPTIONS  # noqa: E402,F401
