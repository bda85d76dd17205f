"""C13: deep EBM energies marginalise and temper correctly."""
import numpy as np

from vp import core, imgnet, mods
from vp.props.c11 import _close

WARM = mods.warm


def check_rbm(case):
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  x = mods.samples(case, case['B'])
  want, mag = mods.oracle(case, params, x)
  C = mods.n_categories(case)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  fwd = jax.jit(model.forward)
  what = '%s RBM' % ('binary' if C == 2 else 'categorical')
  _close(fwd(jp, jnp.asarray(x)), want, mag, what + ', integers')
  enc = x.astype(np.float32) if C == 2 else mods.one_hot(x, C)
  _close(fwd(jp, jnp.asarray(enc)), want, mag, what + ', encoded')
  perm = core.rng_of('perm', case['seed']).permutation(len(x))
  _close(fwd(jp, jnp.asarray(x[perm])), want[perm], mag[perm],
         what + ', rows permuted')
  return 'rbm-C%d' % C, case['cfg']['num_hidden'] > 1


def check_half(case):
  """step_h / step_v draw from the exact conditionals of the joint."""
  import jax
  import jax.numpy as jnp
  model, params = mods.build(case)
  p = mods.f64(params)
  jp = jax.tree_util.tree_map(jnp.asarray, params)
  nv, nh = case['cfg']['num_visible'], case['cfg']['num_hidden']
  v = mods.samples(case, case['B'])
  h = core.rng_of('h', case['seed']).integers(0, 2, size=(case['B'], nh))

  def cond(given, free_n, joint):
    """P(unit i = 1 | given) from differences of the joint log-weight."""
    out = np.zeros(free_n)
    base = np.zeros(free_n)
    for i in range(free_n):
      one = base.copy()
      one[i] = 1
      d = joint(one) - joint(base)
      out[i] = 1 / (1 + np.exp(-d))
    return out

  ph = np.array([cond(r, nh, lambda q: mods.rbm_joint(case, p, r.astype(float),
                                                      q)) for r in v])
  pv = np.array([cond(r, nv, lambda q: mods.rbm_joint(case, p, q,
                                                      r.astype(float)))
                 for r in h])

  def freq(fn, given, reps, tag):
    big = np.repeat(given, reps, 0)
    out = np.asarray(fn(jp, mods.key(tag, case['seed']), jnp.asarray(big)))
    core.require(((out == 0) | (out == 1)).all(), '%s returned other values '
                 'than 0 and 1', tag)
    return out.reshape(len(given), reps, -1).astype(np.float64)

  for tag, fn, given, want in (
      ('step_h', model.step_h, v.astype(np.float32), ph),
      ('step_v', model.step_v, h.astype(np.float32), pv)):
    def zmax(reps, t):
      out = freq(fn, given, reps, t)
      core.require(out.shape[2] == want.shape[1], '%s returned %d units, '
                   'expected %d', tag, out.shape[2], want.shape[1])
      sd = np.sqrt(np.maximum(want * (1 - want) / reps, 1e-7))
      z = np.abs(out.mean(1) - want) / sd
      # units are drawn independently given the other layer
      zc = np.zeros(1)
      if out.shape[2] > 1:
        res = (out - want[:, None]) / np.sqrt(
            np.maximum(want * (1 - want), 1e-3))[:, None]
        zc = np.abs((res[:, :, :-1] * res[:, :, 1:]).mean(1)) * np.sqrt(reps)
      return z.max(), np.max(zc), out.mean(1), z
    z1, zc1, _, _ = zmax(3000, tag)
    if z1 > 4.5 or zc1 > 6:
      z2, zc2, got, z = zmax(60000, tag + '-2')
      if z2 > 7:
        b, i = np.unravel_index(z.argmax(), z.shape)
        raise core.Violation('%s: unit %d is one with frequency %.4f, the '
                             'conditional of the joint is %.4f (z=%.1f)' %
                             (tag, i, got[b, i], want[b, i], z2))
      core.require(zc2 < 12, '%s: units are not independent given the other '
                   'layer (z=%.1f)', tag, zc2)
  return 'half-steps', nh > 1 and nv > 1


def check_resnet(case):
  import jax
  import jax.numpy as jnp
  r = core.rng_of('resnet', case['seed'])
  n = case['cfg']['shape'][0]
  mean = r.uniform(0.02, 0.98, size=n)
  mean[r.random(n) < case['zeros']] = 0.0
  mean[r.random(n) < case['ones']] = 1.0
  plain = mods.make(case)
  cfg = dict(case, cfg=dict(case['cfg'], data_mean=tuple(mean.tolist())))
  based = mods.make(cfg)
  params = dict(plain.make_init_params(mods.key('p', case['seed'])))
  leaves, tree = jax.tree_util.tree_flatten(params)
  leaves = [jnp.asarray(np.asarray(v) + r.normal(size=np.shape(v)) * 0.1,
                        jnp.float32) for v in leaves]
  params = jax.tree_util.tree_unflatten(tree, leaves)
  x = r.integers(0, 2, size=(case['B'], n)).astype(np.int32)
  x[:, mean == 0] *= (r.random((case['B'], int((mean == 0).sum()))) < .2)
  x[:, mean == 1] |= (r.random((case['B'], int((mean == 1).sum()))) < .8)
  m32 = np.asarray(mean, np.float32).astype(np.float64)
  terms = np.where(x > 0, np.log(m32 + 1e-20), np.log(1 - m32 + 1e-20))
  base = terms.sum(1)
  mag = np.abs(terms).sum(1) + 1
  f0, f1 = jax.jit(plain.forward), jax.jit(based.forward)
  net = np.asarray(f0(params, jnp.asarray(x)), np.float64)
  core.require(net.shape == (case['B'],), 'energies have shape %s', net.shape)
  mag = mag + np.abs(net)
  ck = imgnet.from_flax(params)
  deep = imgnet.net(ck, x.reshape((-1, 1) + tuple(
      case['cfg']['image_shape'])).astype(np.float64))
  _close(net, deep, (1 + np.abs(deep)) * 5, 'the residual network')
  _close(f1(params, jnp.asarray(x)), net + base, mag, 'resnet + base')
  _close(f1(params, jnp.asarray(x, jnp.float32)), net + base, mag,
         'resnet + base, floats')
  perm = r.permutation(len(x))
  y = np.concatenate([x[perm[:1]], r.integers(0, 2, size=(case['B'] - 1, n))])
  got = np.asarray(f0(params, jnp.asarray(y, jnp.int32)), np.float64)
  _close(got[:1], net[perm[:1]], mag[perm[:1]] * 5,
         'resnet, same image in another batch')
  # 0/1 images at different places give different energies in general
  for beta in [0.0, 1.0] + case['betas']:
    tp = dict(params, temperature=jnp.float32(beta))
    _close(f1(tp, jnp.asarray(x)), base + beta * net, mag,
           'tempered energy at %g', beta)
  return 'resnet', case['B'] > 1


def resnet_strategy(**kw):
  from hypothesis import strategies as st
  return st.builds(
      lambda c, z, o, b: dict(c, zeros=z, ones=o, betas=b), mods.draw(('resnet',), **kw),
      st.sampled_from([0.0, 0.2, 0.6]), st.sampled_from([0.0, 0.15]),
      st.lists(st.one_of(st.floats(0, 1), st.sampled_from(
          [1e-4, 1e-3, 3e-3, 6e-3, 0.995, 0.9995])), min_size=2, max_size=5))


STRATA = [
    core.Stratum('rbm-binary', lambda: mods.draw(
        ('rbm',), cfg=dict(num_categories=2)), check_rbm, 64, 2000),
    core.Stratum('rbm-categorical', lambda: mods.draw(('rbm',)), check_rbm,
                 96, 3000),
    core.Stratum('rbm-large', lambda: mods.draw(('rbm',), big=True), check_rbm,
                 32, 600),
    core.Stratum('half-steps', lambda: mods.draw(
        ('rbm',), cfg=dict(num_categories=2), pmodes=['random'],
        pscales=[0.7, 0.2, 1.5]), check_half, 40, 800),
    core.Stratum('resnet', resnet_strategy, check_resnet, 16, 300),
    core.Stratum('resnet-large', lambda: resnet_strategy(big=True),
                 check_resnet, 6, 40),
]
RULE = ('rbm: 1-8 visible and 1-6 hidden units, 2-5 categories, arbitrary '
        'parameters, all hidden vectors enumerated; half-steps: frequencies '
        'of each unit against conditionals derived from the joint; resnet: '
        'image shapes, channels, perturbed parameters, data mean (including '
        'pixels that are never or always on), the network against a direct '
        'float64 evaluation, several temperatures. Non-trivial: more '
        'than one hidden unit / image.')
ASSUMPTIONS = []
