"""C03: gradient-informed path samplers (GWG, PAS) leave the target invariant."""
from vp import core, samp, stationary

WARM = samp.warm


def _strat(*names, **kw):
  return lambda: stationary.case_strategy(list(names), **kw)


STRATA = [
    core.Stratum('gwg-binary', _strat('gwg', cats=(2,)), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('gwg-categorical', _strat('gwg', cats=(3, 4, 5)), stationary.sampler_case, 16, 300, shards=4),
    core.Stratum('pas-binary', _strat('path_auxiliary', cats=(2,)), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('pas-categorical', _strat('path_auxiliary', cats=(3, 4, 5)), stationary.sampler_case, 24, 400, shards=4),
    core.Stratum('large', lambda: stationary.big_strategy(['gwg', 'path_auxiliary']), stationary.big_case, 32, 500, shards=8),
]
from vp.props.c02 import RULE, ASSUMPTIONS  # noqa: E402,F401
