"""Runs real chains: G independent histories of T steps of one sampler.

All G histories share the sampler object and the compiled step but each has
its own energy (seed and scale), starting batch and keys, so one compilation
covers many energies, from flat to very steep.
"""
import numpy as np

from vp import core, samp


class Trace:
  """xs [G,T+1,B,dim], acc [G,T], state[k] [G,T+1,...]; all numpy."""


def run(case, x0=None, mask=None, keep=('radius', 'log_tau', 'log_z',
                                         'num_ll_calls', 'steps')):
  import jax
  import jax.numpy as jnp
  sampler = samp.build_sampler(case)
  shape = tuple(case['shape'])
  models = [samp.RefModel(shape, case['C'], case['mseed'] + i, s)
            for i, s in enumerate(case['scales'])]
  g, b, t = len(models), case['B'], case['T']
  params = jax.tree_util.tree_map(lambda *v: jnp.stack(v),
                                  *[m.params for m in models])
  model = models[0]
  if x0 is None:
    x0 = core.rng_of('x0', case['xseed']).integers(
        0, case['C'], size=(g, b) + shape)
  x0 = jnp.asarray(x0, jnp.int32)
  m = None if mask is None else jnp.asarray(mask)

  def one(x, st, key, p, mk):
    nx, st2, acc = sampler.step(model=model, rng=key, x=x, model_param=p,
                                state=dict(st), x_mask=mk)
    return nx, jax.tree_util.tree_map(jnp.asarray, dict(st2)), jnp.asarray(acc)

  st0 = sampler.make_init_state(samp.key_of('init', case['xseed']))
  shp = jax.eval_shape(one, x0[0], st0, jax.random.PRNGKey(0), models[0].params,
                       None if m is None else m[0])
  core.require(tuple(shp[0].shape) == (b,) + shape,
               'a step maps samples of shape %s to shape %s', (b,) + shape,
               tuple(shp[0].shape))
  core.require(jnp.issubdtype(shp[0].dtype, jnp.integer),
               'a step maps integer samples to dtype %s', shp[0].dtype)
  core.require(set(st0) <= set(shp[1]), 'a step dropped sampler state %s',
               sorted(set(st0) - set(shp[1])))
  st0 = {k: jnp.asarray(v).astype(shp[1][k].dtype) for k, v in st0.items()}
  # keys that appear only after the first step: start them at zero
  extra = {k: jnp.zeros(v.shape, v.dtype) for k, v in shp[1].items()
           if k not in st0}
  if extra:
    st0 = dict(st0, **extra)

  def chain(x, key, p, mk):
    def body(carry, k):
      x, st = carry
      nx, st2, acc = one(x, st, k, p, mk)
      nx = nx.astype(jnp.int32)
      return (nx, st2), (nx, {q: st2[q] for q in st2}, acc)
    _, out = jax.lax.scan(body, (x, st0), jax.random.split(key, t))
    return out

  keys = jax.random.split(samp.key_of('run', case['xseed']), g)
  if m is None:
    xs, sts, acc = jax.jit(jax.vmap(lambda x, k, p: chain(x, k, p, None)))(
        x0, keys, params)
  else:
    xs, sts, acc = jax.jit(jax.vmap(chain))(x0, keys, params, m)
  tr = Trace()
  tr.models = models
  tr.sampler = sampler
  tr.xs = np.concatenate([np.asarray(x0)[:, None], np.asarray(xs)], 1).reshape(
      g, t + 1, b, -1)
  tr.acc = np.broadcast_to(np.asarray(acc), (g, t))
  tr.state = {}
  for k, v in sts.items():
    v = np.asarray(v)
    first = np.broadcast_to(np.asarray(st0[k]), (g, 1) + v.shape[2:])
    tr.state[k] = np.concatenate([first, v], 1)
  return tr


NAMES = ('randomwalk', 'gibbs', 'blockgibbs', 'hammingball', 'gwg',
         'path_auxiliary', 'dmala', 'dlmc')


def case_strategy(names=NAMES, cats=(2, 3, 4, 5, 7), scales=(0.0, 0.5, 2.0, 8.0,
                  40.0, 200.0), groups=6, steps=(1, 2, 5, 12, 25), dims=None,
                  batches=(1, 2, 3, 5), co_opt=None, adaptive=None):
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    name = draw(st.sampled_from(names))
    C = draw(st.sampled_from(cats))
    d = draw(st.sampled_from(dims or [3, 1, 2, 4, 5, 6, 8, 9, 12]))
    shapes = [[d]]
    for r in (2, 3):
      if d % r == 0 and d > r:
        shapes.append([r, d // r])
    if d == 8:
      shapes.append([2, 2, 2])
    shape = draw(st.sampled_from(shapes))
    opts = draw(samp.opts_strategy(name, C, d, st))
    if name in ('gwg', 'path_auxiliary'):
      opts['num_flips'] = draw(st.integers(1, d if name == 'path_auxiliary'
                                           else d + 2))
    if adaptive is not None and 'adaptive' in opts:
      opts['adaptive'] = draw(st.sampled_from(adaptive))
    case = dict(sampler=name, C=C, shape=shape, opts=opts,
                scales=draw(st.lists(st.sampled_from(scales),
                                     min_size=groups, max_size=groups)),
                B=draw(st.sampled_from(batches)),
                T=draw(st.sampled_from(steps)),
                mseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))
    if co_opt and name in ('dmala', 'dlmc') and draw(
        st.sampled_from([False, False, False, True])):
      case['co_opt'] = True
    return case

  return strat()


def eff_adaptive(case):
  """Does the library build an adaptive sampler for this case?"""
  a = bool(case['opts'].get('adaptive', False))
  if case['sampler'] == 'gwg' and case['C'] != 2:
    return False
  return a


def large_strategy(names=NAMES, steps=(10,), groups=3, scales=(0.5, 2.0, 0.0,
                   40.0), adaptive=None, batches=(17, 5, 33, 64), caps=None):
  """Sizes far beyond the enumerable ones: up to 160 coordinates, 300 values,
  64 chains."""
  from hypothesis import strategies as st

  @st.composite
  def strat(draw):
    name = draw(st.sampled_from(names))
    big = caps or ([(2, 64), (2, 129), (2, 160), (3, 40), (10, 9), (130, 2),
                    (300, 1), (257, 2)])
    C, d = draw(st.sampled_from(big))
    b = draw(st.sampled_from(batches))
    opts = draw(samp.opts_strategy(name, C, min(d, 12), st))
    if name in ('blockgibbs', 'hammingball', 'gibbs'):
      b = min(b, 6)
      hi = 1
      while name != 'gibbs' and hi < 6 and hi < d and \
          (C ** (hi + 1) if name == 'blockgibbs' else (C - 1) * (hi + 1)) <= 64:
        hi += 1
      if name != 'gibbs':
        opts['block_size'] = draw(st.integers(1, hi))
    if name in ('gwg', 'path_auxiliary'):
      opts['num_flips'] = draw(st.sampled_from([k for k in (1, 2, 5, 17, 40)
                                                if k <= d]))
    if adaptive is not None and 'adaptive' in opts:
      opts['adaptive'] = draw(st.sampled_from(adaptive))
    shapes = [[d]] + [[r, d // r] for r in (2, 3, 8) if d % r == 0 and d > r]
    return dict(sampler=name, C=C, shape=draw(st.sampled_from(shapes)),
                opts=opts, scales=draw(st.lists(
                    st.sampled_from(scales), min_size=groups,
                    max_size=groups)),
                B=b, T=draw(st.sampled_from(steps)),
                mseed=draw(st.integers(0, 10**6)),
                xseed=draw(st.integers(0, 10**6)))

  return strat()
