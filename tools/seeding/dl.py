"""Helpers for the demonstrations of planted changes."""
import itertools, sys
import numpy as np, jax, jax.numpy as jnp
import ml_collections


class Quad:
  """ll(x) = b.x + x.A.x over 0/1 vectors or over flattened one-hot encodings, plus a rugged table (no gradient)."""

  def __init__(self, d, k=2, seed=0, scale=1.0):
    r = np.random.RandomState(seed)
    n = d if k == 2 else d * k
    self.d, self.k = d, k
    self.b = jnp.array(r.randn(n) * scale, jnp.float32)
    a = r.randn(n, n) * scale
    self.a = jnp.array((a + a.T) / 2, jnp.float32)

  def enc(self, x):
    if self.k == 2:
      return jnp.reshape(x, (x.shape[0], -1)).astype(jnp.float32)
    if x.ndim == 2:
      x = jax.nn.one_hot(x, self.k)
    return jnp.reshape(x, (x.shape[0], -1)).astype(jnp.float32)

  def forward(self, p, x):
    z = self.enc(x)
    return z @ self.b + jnp.einsum('bi,ij,bj->b', z, self.a, z)

  def get_value_and_grad(self, p, x):
    x = x.astype(jnp.float32)
    def f(z):
      v = self.forward(p, z)
      return jnp.sum(v), v
    (_, v), g = jax.value_and_grad(f, has_aux=True)(x)
    return v, g


def config(d, k=2, sampler=None, **exp):
  c = ml_collections.ConfigDict()
  c.model = ml_collections.ConfigDict(dict(shape=(d,), num_categories=k, name='m'))
  c.sampler = ml_collections.ConfigDict(sampler or {})
  c.experiment = ml_collections.ConfigDict(dict(co_opt_prob=False, **exp))
  return c


def gap(sampler, model, state, n=20000, d=None, k=2, mask=None, free=None, seed=0):
  """Largest |pi P - pi| entry in units of its standard error, and raw."""
  d, k = model.d, model.k
  xs = np.array(list(itertools.product(range(k), repeat=d)))
  if free is not None:  # states reachable from the first one with a mask
    xs = xs[np.all(xs[:, ~free] == 0, axis=1)]
  ll = np.array(model.forward(None, jnp.array(xs)), np.float64)
  pi = np.exp(ll - ll.max()); pi /= pi.sum()
  idx = {tuple(x): i for i, x in enumerate(xs)}
  P = np.zeros((len(xs), len(xs)))
  st = jax.tree_util.tree_map(jnp.asarray, state)
  kw = {} if mask is None else {'x_mask': mask}
  f = jax.jit(jax.vmap(lambda key, x: sampler.step(model, key, x[None], None, dict(st), **kw)[0][0], in_axes=(0, None)))
  for i, x in enumerate(xs):
    keys = jax.random.split(jax.random.PRNGKey(seed * 1000 + i), n)
    ys = np.array(f(keys, jnp.array(x, jnp.int32)))
    u, c = np.unique(ys, axis=0, return_counts=True)
    for y, m in zip(u, c):
      P[i, idx[tuple(int(v) for v in y)]] += m / n
  dif = np.abs(pi @ P - pi)
  se = np.sqrt((pi[:, None] ** 2 * P * (1 - P) / n).sum(0)) + 1e-9
  return (dif / se).max(), dif.max()


def expect(cond, msg):
  if not cond:
    print('PROPERTY BROKEN:', msg)
    sys.exit(1)
