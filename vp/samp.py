"""Shared pieces for the sampler properties."""
import functools
import importlib
import itertools

import numpy as np

from vp import core


def warm():
  import jax  # noqa: F401
  import jax.numpy  # noqa: F401
  import ml_collections  # noqa: F401
  for n in ('randomwalk', 'gibbs', 'blockgibbs', 'hammingball', 'gwg',
            'path_auxiliary', 'dmala', 'dlmc', 'locallybalanced'):
    importlib.import_module('discs.samplers.%s' % n)


def build_sampler(case):
  """Builds a sampler from the shipped config plus the case's overrides."""
  from ml_collections import config_dict
  name = case['sampler']
  cfg = config_dict.ConfigDict(dict(
      model=dict(shape=tuple(case['shape']), num_categories=case['C']),
      sampler=dict(name=''),
      experiment=dict(co_opt_prob=bool(case.get('co_opt', False)))))
  base = importlib.import_module('discs.samplers.configs.%s_config' % name)
  cfg.sampler.update(base.get_config())
  for k, v in case.get('opts', {}).items():
    cfg.sampler[k] = v
  mod = importlib.import_module('discs.samplers.%s' % name)
  return mod.build_sampler(cfg)


class RefModel:
  """An energy model of our own, independent of the repository's models.

  log p(x) = h.z + z'Jz + c * tanh(a.z)   with z the {0,1} (binary) or one-hot
  (categorical) encoding: not linear in a single coordinate, so gradients only
  approximate flip differences, as in the repository's deep EBMs.
  Accepts integer, float or one-hot samples of shape (B,)+shape[+(C,)].
  """

  def __init__(self, shape, num_categories, seed, scale):
    self.shape = tuple(shape)
    self.C = num_categories
    self.dim = int(np.prod(shape))
    self.zdim = self.dim if self.C == 2 else self.dim * self.C
    r = core.rng_of('refmodel', list(shape), num_categories, seed)
    n = self.zdim
    h = r.normal(size=n)
    j = np.triu(r.normal(size=(n, n)), 1) / np.sqrt(max(1, self.dim))
    a = r.normal(size=n)
    c = r.normal()
    f32 = lambda v: np.asarray(v, dtype=np.float32)
    self.params = dict(h=f32(scale * h), j=f32(scale * j), a=f32(a),
                       c=f32(scale * c))

  def encode(self, x):
    import jax
    import jax.numpy as jnp
    x = jnp.asarray(x)
    core.require(x.ndim in (len(self.shape) + 1, len(self.shape) + 2),
                 'the sampler queried the model with an array of shape %s for '
                 'samples of shape %s', tuple(x.shape), self.shape)
    if self.C != 2 and x.ndim == len(self.shape) + 1:
      x = jax.nn.one_hot(x.astype(jnp.int32), self.C)
    return jnp.reshape(x.astype(jnp.float32), (x.shape[0], self.zdim))

  def _ll(self, params, z):
    import jax.numpy as jnp
    lin = jnp.sum(z * params['h'], -1)
    quad = jnp.sum((z[:, :, None] * params['j'][None]) * z[:, None, :],
                   (-1, -2))
    return lin + quad + params['c'] * jnp.tanh(jnp.sum(z * params['a'], -1))

  def forward(self, params, x):
    return self._ll(params, self.encode(x))

  def get_value_and_grad(self, params, x):
    import jax
    import jax.numpy as jnp
    x = jnp.asarray(x).astype(jnp.float32)

    def fun(v):
      ll = self.forward(params, v)
      return jnp.sum(ll), ll

    (_, ll), g = jax.value_and_grad(fun, has_aux=True)(x)
    return ll, g

  def logratio_in_neighborhood(self, params, x):
    """Exact flip ratios, as the graph models provide."""
    import jax.numpy as jnp
    x = jnp.asarray(x)
    ll = self.forward(params, x)
    flat = x.reshape(x.shape[0], -1)
    out = []
    for i in range(self.dim):
      y = flat.at[:, i].set(1 - flat[:, i])
      out.append(self.forward(params, y.reshape(x.shape)) - ll)

    def neighbor(params, x, i):
      f = x.reshape(x.shape[0], -1)
      r = jnp.arange(x.shape[0])
      return f.at[r, i].set(1 - f[r, i]).reshape(x.shape)

    return ll, jnp.stack(out, -1).reshape(x.shape), self.dim + 1, neighbor

  # ----- exact numpy side
  def states(self):
    return np.array(list(itertools.product(range(self.C), repeat=self.dim)),
                    dtype=np.int32)

  def np_ll(self, flat):
    p = {k: np.asarray(v, np.float64) for k, v in self.params.items()}
    if self.C == 2:
      z = flat.astype(np.float64)
    else:
      z = np.eye(self.C)[flat].reshape(len(flat), -1)
    return (z @ p['h'] + np.einsum('ni,ij,nj->n', z, p['j'], z)
            + p['c'] * np.tanh(z @ p['a']))

  def pi(self):
    ll = self.np_ll(self.states())
    w = np.exp(ll - ll.max())
    return w / w.sum()

  def index_of(self, flat):
    return (flat @ (self.C ** np.arange(self.dim)[::-1])).astype(np.int64)


def key_of(*parts):
  import jax
  return jax.random.PRNGKey(core.int_hash(*parts))


def init_batch(case, model, tag='x0', n=None):
  r = core.rng_of(tag, case['xseed'])
  b = n or case['B']
  return r.integers(0, case['C'], size=(b,) + tuple(case['shape'])).astype(
      np.int32)


def warm_state(sampler, model, case, steps, x=None, params=None, x_mask=None):
  """Sampler state reached by really running `steps` steps (opaque pytree)."""
  import jax
  import jax.numpy as jnp
  state = sampler.make_init_state(key_of('init', case['xseed']))
  x = jnp.asarray(init_batch(case, model) if x is None else x)
  if not steps:
    return x, state
  params = model.params if params is None else params

  def body(carry, key):
    x, st = carry
    nx, st2, acc = sampler.step(model=model, rng=key, x=x, model_param=params,
                                state=st, x_mask=x_mask)
    st2 = jax.tree_util.tree_map(jnp.asarray, st2)
    return (nx, st2), acc

  # first step outside the scan: it may change the state's structure/dtypes
  step1 = jax.jit(lambda x, st, k: body((x, st), k)[0])
  keys = jax.random.split(key_of('warm', case['xseed']), steps)
  x, state = step1(x, state, keys[0])
  if steps > 1:
    def scan(x, st, ks):
      (x, st), acc = jax.lax.scan(body, (x, st), ks)
      return x, st
    try:
      x, state = jax.jit(scan)(x, state, keys[1:])
    except TypeError:
      for k in keys[1:]:   # state dtypes still moving: plain loop
        x, state = step1(x, state, k)
  return x, state


BALANCE = ('SQRT', 'RATIO', 'MAX', 'MIN')


def opts_strategy(name, C, dim, st, batch=None):
  """Hypothesis strategy for a sampler's tunable options."""
  rate = st.sampled_from([0.234, 0.5, 0.574, 0.9])
  bal = st.sampled_from(BALANCE)
  if name == 'randomwalk':
    return st.fixed_dictionaries(dict(adaptive=st.booleans(),
                                      target_acceptance_rate=rate))
  if name == 'gibbs':
    return st.just({})
  if name == 'blockgibbs':
    hi = dim
    while C ** hi > 300:
      hi -= 1
    return st.fixed_dictionaries(dict(block_size=st.integers(1, max(1, hi))))
  if name == 'hammingball':
    return st.fixed_dictionaries(dict(block_size=st.integers(1, dim)))
  if name == 'gwg':
    return st.fixed_dictionaries(dict(
        adaptive=st.booleans(), num_flips=st.integers(1, 4),
        target_acceptance_rate=rate, balancing_fn_type=bal))
  if name == 'path_auxiliary':
    return st.fixed_dictionaries(dict(
        adaptive=st.booleans(), num_flips=st.integers(1, min(4, dim)),
        target_acceptance_rate=rate, balancing_fn_type=bal))
  if name == 'dmala':
    return st.fixed_dictionaries(dict(
        adaptive=st.booleans(), step_size=st.sampled_from([0.1, 0.2, 0.5, 2.0]),
        target_acceptance_rate=rate, balancing_fn_type=bal,
        schedule_step=st.sampled_from([1, 3, 10, 100]),
        reset_z_est=st.sampled_from([-1, 2, 7, 20])))
  if name == 'dlmc':
    return st.fixed_dictionaries(dict(
        adaptive=st.booleans(), n=st.sampled_from([1.0, 1.5, 3.0]),
        solver=st.sampled_from(['interpolate', 'euler_forward']),
        target_acceptance_rate=rate, balancing_fn_type=bal,
        schedule_step=st.sampled_from([1, 3, 10, 200]),
        reset_z_est=st.sampled_from([-1, 2, 7, 20])))
  raise core.HarnessError(name)
