"""C08: each step moves exactly as configured; no coordinate is left out."""
import numpy as np

from vp import core, histories, samp

WARM = samp.warm


def _block(case, t, dim):
  """Coordinates step t (0-based) may change for the sweeping samplers."""
  bs = 1 if case['sampler'] == 'gibbs' else case['opts']['block_size']
  start = 0
  for _ in range(t):
    start = (start + bs) % dim
  return start, [i for i in range(start, start + bs) if i < dim]


def check_moves(case):
  tr = histories.run(case)
  dim, name = int(np.prod(case['shape'])), case['sampler']
  ch = tr.xs[:, 1:] != tr.xs[:, :-1]                      # G,T,B,dim
  flips = ch.sum(-1)
  if name in ('gibbs', 'blockgibbs', 'hammingball'):
    for t in range(case['T']):
      start, block = _block(case, t, dim)
      out = np.ones(dim, bool)
      out[block] = False
      bad = ch[:, t][..., out].any()
      core.require(not bad, 'step %d may only change coordinates %s but changed '
                   '%s', t + 1, block,
                   np.unique(np.where(ch[:, t])[-1]).tolist())
    if name == 'hammingball':
      core.require(flips.max() <= 2, 'Hamming ball step changed %d coordinates',
                   int(flips.max()))
  elif name == 'gwg':
    k = case['opts']['num_flips'] if case['C'] == 2 else 1
    if not histories.eff_adaptive(case):
      core.require(flips.max() <= k, 'GWG with %d flips changed %d coordinates',
                   k, int(flips.max()))
  elif name == 'path_auxiliary':
    if not histories.eff_adaptive(case):
      k = case['opts']['num_flips']
      ok = (flips == 0) | (flips == k)
      core.require(ok.all(), 'PAS with %d flips changed %s coordinates', k,
                   sorted(set(flips[~ok].tolist())))
  return '%s-%d' % (name, case['C']), bool(flips.max() > 0)


def check_cover(case):
  """From one common start every value of every coordinate is reached."""
  dim, C = int(np.prod(case['shape'])), case['C']
  g, b = len(case['scales']), case['B']
  one = core.rng_of('start', case['xseed']).integers(0, C, size=tuple(
      case['shape']))
  tr = histories.run(case, x0=np.broadcast_to(one, (g, b) + one.shape))
  for i in range(dim):
    seen = set(np.unique(tr.xs[..., i]).tolist())
    missing = sorted(set(range(C)) - seen)
    core.require(not missing, '%s never put coordinate %d (start value %d) to '
                 'value(s) %s in %d chains of %d steps on a nearly flat target',
                 case['sampler'], i, int(one.reshape(-1)[i]), missing, g * b,
                 case['T'])
  return '%s-%d' % (case['sampler'], C), True


def check_neighbours(case):
  """One step from one state: every single move the step allows is made."""
  dim, C, name = int(np.prod(case['shape'])), case['C'], case['sampler']
  g, b = len(case['scales']), case['B']
  one = core.rng_of('start', case['xseed']).integers(0, C, size=tuple(
      case['shape']))
  tr = histories.run(case, x0=np.broadcast_to(one, (g, b) + one.shape))
  flat = one.reshape(-1)
  y = tr.xs[:, 1].reshape(-1, dim)
  allowed = range(dim)
  if name in ('gibbs', 'blockgibbs', 'hammingball'):
    allowed = _block(case, 0, dim)[1]
  hits = {}
  for i in allowed:
    for v in range(C):
      if v != flat[i]:
        hits[(i, v)] = int((y[:, i] == v).sum())
  zero = [k for k, h in hits.items() if h == 0]
  core.require(not zero, '%s: from %s, %d one-step draws on a nearly flat '
               'target never gave (coordinate, value) %s', name, flat.tolist(),
               len(y), zero[:5])
  return '%s-%d' % (name, C), True


def _moves(names=('gwg', 'path_auxiliary')):
  return histories.case_strategy(names=names, steps=(13, 5, 30), groups=10,
                                 scales=(0.3, 1.0, 4.0, 0.0),
                                 dims=[5, 1, 2, 3, 4, 6, 8, 9, 12],
                                 cats=(2, 3, 4), batches=(3, 1, 2),
                                 adaptive=[False, False, True])


def _cover():
  s = histories.case_strategy(steps=(150,), groups=4, scales=(0.1, 0.2),
                              dims=[4, 1, 2, 3, 5, 6, 8, 9, 12],
                              cats=(2, 3, 4, 7), batches=(8,))
  return s.map(_no_all_flip)


def _big_cover():
  """Every coordinate of a long sample; every value of a large alphabet."""
  wide = histories.large_strategy(steps=(400,), groups=1, scales=(0.02,),
                                  batches=(64,), caps=[(2, 40), (2, 65)])
  deep = histories.large_strategy(steps=(500,), groups=1, scales=(0.02,),
                                  batches=(64,), caps=[(24, 1), (20, 2)])
  from hypothesis import strategies as st
  return st.one_of(wide, deep).map(_no_all_flip)


def _no_all_flip(c):
  # flipping every coordinate at once, or a step size below one flip per many
  # steps, has nothing to do with coverage
  c = dict(c, opts=dict(c['opts']))
  d = int(np.prod(c['shape']))
  if c['sampler'] == 'path_auxiliary':
    c['opts']['num_flips'] = min(c['opts']['num_flips'], max(1, d - 1))
  if c['sampler'] == 'gwg':
    c['opts']['num_flips'] = min(c['opts']['num_flips'], 3)
  if c['sampler'] == 'dmala':
    c['opts']['step_size'] = 2.0
  return c


def _neigh():
  s = histories.case_strategy(steps=(1,), groups=1, scales=(0.1,),
                              dims=[4, 1, 2, 3, 5, 6], cats=(2, 3, 4),
                              batches=(20000,))
  return s.filter(lambda c: c['sampler'] != 'hammingball').map(_no_all_flip)


STRATA = [
    core.Stratum('moves', _moves, check_moves, 32, 600, shards=8),
    core.Stratum('sweeps', lambda: _moves(('hammingball', 'blockgibbs',
                                           'gibbs')), check_moves, 48, 900,
                 shards=8),
    core.Stratum('large-moves', lambda: histories.large_strategy(
        names=('gwg', 'path_auxiliary', 'gibbs', 'blockgibbs', 'hammingball'),
        steps=(40, 170), groups=2, batches=(2, 5),
        caps=[(2, 64), (2, 129), (3, 40), (10, 9)],
        scales=(0.3, 1.0, 0.0), adaptive=[False, False, True]), check_moves,
                 40, 600, shards=8),
    core.Stratum('large-coverage', _big_cover, check_cover, 32, 400, shards=8),
    core.Stratum('coverage', _cover, check_cover, 40, 800, shards=8),
    core.Stratum('neighbours', _neigh, check_neighbours, 40, 600, shards=8),
]
RULE = ('moves, sweeps: 5-30 real steps of a random sampler/shape/options; the set and '
        'number of changed coordinates of every step is compared with what the '
        'options allow. coverage: 32 chains x 150 steps from one common start '
        'on a nearly flat energy must visit every value of every coordinate. '
        'neighbours: 20000 single steps from one state must make every allowed '
        'single-coordinate change. Non-trivial: something moved.')
ASSUMPTIONS = ['On a nearly flat target the probability of missing a value by '
               'chance is below 1e-9.']
