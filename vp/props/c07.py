"""C07: coordinates masked out of a step never change."""
import numpy as np

from vp import core, histories, samp, stationary

WARM = samp.warm


def _masks(case, g, dim):
  r = core.rng_of('mask', case['xseed'])
  free = case['free']
  m = np.zeros((g, dim), np.float32)
  for i in range(g):
    m[i, r.permutation(dim)[:free]] = 1.0
  return m


def check(case):
  dim = int(np.prod(case['shape']))
  g = len(case['scales'])
  masks = _masks(case, g, dim)
  tr = histories.run(case, mask=masks)
  diff = (tr.xs != tr.xs[:, :1]).any((1, 2))          # G, dim
  bad = diff & (masks == 0)
  if bad.any():
    gi, i = [int(v[0]) for v in np.where(bad)]
    raise core.Violation('history %d: coordinate %d is masked out (mask %s) '
                         'but changed' % (gi, i, masks[gi].tolist()))
  core.require(((tr.xs >= 0) & (tr.xs < case['C'])).all(),
               'a masked step left the sample space')
  core.require(np.isfinite(tr.acc).all(), 'a masked step reports acceptance '
               'that is not a number')
  if max(case['scales']) <= 1.0 and case['T'] >= 60:
    # allowed coordinates must not be frozen by the mask
    still = (~diff & (masks == 1)).mean()
    core.require(still < 0.5, '%d%% of the allowed coordinates never moved in '
                 '%d steps', int(100 * still), case['T'])
  return '%s-%d' % (case['sampler'], case['C']), bool((diff & (masks == 1)).any())


def check_inv(case):
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  model = samp.RefModel(case['shape'], case['C'], case['mseed'],
                        case['scales'][0])
  b, dim = case['B'], int(np.prod(case['shape']))
  g = max(1, stationary.CHUNK // b)
  mask = jnp.asarray(_masks(case, 1, dim)[0])
  params = model.params

  def one(x, key, st):
    nx, st2, _ = sampler.step(model=model, rng=key, x=x, model_param=params,
                              state=dict(st), x_mask=mask)
    return nx, st2

  stepv = jax.jit(jax.vmap(one))
  st0 = sampler.make_init_state(samp.key_of('i', case['xseed']))
  state = jax.tree_util.tree_map(
      lambda v: jnp.broadcast_to(v, (g,) + jnp.shape(v)), dict(st0))
  if 'radius' in state and case['opts']['adaptive']:
    # keep the number of flips within the allowed coordinates
    pass
  x = jnp.asarray(core.rng_of('x0', case['xseed']).integers(
      0, case['C'], size=(g, b) + tuple(case['shape'])).astype(np.int32))
  for t in range(case['T']):
    x, state = stepv(x, jax.random.split(
        samp.key_of('w', t, case['xseed']), g), state)

  def step_groups(x, key):
    y, _ = stepv(jnp.asarray(x), jax.random.split(key, g), state)
    y = np.asarray(y)
    fixed = np.asarray(mask).reshape(tuple(case['shape'])) == 0
    core.require((y[..., fixed] == x[..., fixed]).all(),
                 'a masked coordinate changed')
    return y

  moved = stationary.run(case, model, step_groups, what='masked %s %s' % (
      case['sampler'], case['opts']))
  return '%s-%d' % (case['sampler'], case['C']), moved > 0.001


def _strat(inv, which):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    name = 'gwg' if which == 'gwg' else 'path_auxiliary'
    d = draw(st.sampled_from([4, 3, 5, 6] if inv else [4, 2, 3, 6, 9, 12, 20]))
    C = 2
    if name == 'path_auxiliary':
      C = 2 if which == 'pas' else draw(st.sampled_from([3, 4]))
      if inv and C > 2:
        d = min(d, 3)
    opts = draw(samp.opts_strategy(name, C, d, st))
    steps = draw(st.sampled_from([1, 2, 3] if inv else [60, 5, 20]))
    if name == 'path_auxiliary':
      if opts['adaptive']:
        # radius starts at 1 and grows by less than 1-target per step
        opts['num_flips'] = 1
        lo = min(d, int(np.floor(
            1 + steps * (1 - opts['target_acceptance_rate']) + 0.51)))
        if not inv:
          # keep the history short enough that some coordinate can be masked
          while lo >= d and steps > 1:
            steps = max(1, steps // 2)
            lo = min(d, int(np.floor(
                1 + steps * (1 - opts['target_acceptance_rate']) + 0.51)))
      else:
        opts['num_flips'] = draw(st.integers(1, min(4, d)))
        lo = opts['num_flips']
    else:
      lo = 1
    if name == 'path_auxiliary' and C == 2 and draw(st.booleans()):
      opts['approx_with_grad'] = False
    free = draw(st.integers(lo, max(lo, d - 1)))
    case = dict(sampler=name, C=C, shape=[d], opts=opts, free=free,
                B=draw(st.sampled_from([2, 1, 3])), T=steps,
                mseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))
    if inv:
      case['scales'] = [draw(st.sampled_from([1.0, 0.5, 1.5]))]
    else:
      hi = draw(st.sampled_from([1.0, 40.0, 1000.0]))
      case['scales'] = [hi, 0.3, 1.0, hi, 0.5, hi, min(hi, 200.0), min(hi, 5.0)]
    return case

  return lambda: strat()


STRATA = [
    core.Stratum('histories-gwg', _strat(False, 'gwg'), check, 20, 400,
                 shards=4),
    core.Stratum('histories-pas', _strat(False, 'pas'), check, 24, 500,
                 shards=4),
    core.Stratum('histories-pas-categorical', _strat(False, 'cat'), check, 20,
                 400, shards=4),
    core.Stratum('invariance-gwg', _strat(True, 'gwg'), check_inv, 14, 200,
                 shards=2),
    core.Stratum('invariance-pas', _strat(True, 'pas'), check_inv, 16, 250,
                 shards=4),
    core.Stratum('invariance-pas-categorical', _strat(True, 'cat'), check_inv,
                 12, 200, shards=2),
]
RULE = ('histories-*: random masks over 2-20 coordinates (binary; PAS also categorical), energies '
        'of scale 0.3 to 1000, several real steps of masked GWG or PAS; no '
        'masked coordinate may ever differ from its start. invariance-*: '
        'exact draws from the target, one masked step, law of the result '
        'compared with the target. Non-trivial: an allowed coordinate moved.')
ASSUMPTIONS = ['At least as many coordinates are allowed as are flipped.']
