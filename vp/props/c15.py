"""C15: model initialisation yields valid parameters and starting samples."""
import numpy as np

from vp import core, comb, mods


def WARM():
  mods.warm()
  comb.warm()


def _samples_ok(name, x, n, shape, K):
  x = np.asarray(x)
  core.require(x.shape == (n,) + tuple(shape), '%s: initial samples have shape '
               '%s, expected %s', name, x.shape, (n,) + tuple(shape))
  core.require(np.issubdtype(x.dtype, np.integer), '%s: initial samples are %s',
               name, x.dtype)
  core.require(((x >= 0) & (x < K)).all(), '%s: initial samples leave [0, %d)',
               name, K)
  return x


def _tree_equal(a, b):
  import jax
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  return len(la) == len(lb) and all(
      np.array_equal(np.asarray(u), np.asarray(v)) for u, v in zip(la, lb))


def _freq(name, model, want, n, seed, chunk=4000):
  """Two-stage test that coordinates of initial samples have law `want`.

  want: dim x K probabilities.
  """
  def z(m, tag):
    x = np.asarray(model.get_init_samples(mods.key(tag, seed), m)).reshape(m, -1)
    out = []
    for c in range(want.shape[1]):
      p = want[:, c]
      sd = np.sqrt(np.maximum(p * (1 - p), 1e-5) / m)
      out.append(((x == c).mean(0) - p) / sd)
    zz = np.array(out)
    cor = np.zeros(1)
    if x.shape[1] > 1:
      e = (want * np.arange(want.shape[1])).sum(1)
      v = (want * np.arange(want.shape[1]) ** 2).sum(1) - e ** 2
      ok = v > 1e-3
      if ok.sum() > 1:
        s = ((x - e) / np.sqrt(np.maximum(v, 1e-3)))[:, ok]
        cor = (s[:, :-1] * s[:, 1:]).mean(0) * np.sqrt(m)
    # rows are independent as well
    e = (want * np.arange(want.shape[1])).sum(1)
    c = (x - e)
    row = (c[:-1] * c[1:]).sum(1)
    sd = row.std() + 1e-9
    rz = row.mean() / sd * np.sqrt(len(row)) if len(row) > 10 else 0.0
    return np.abs(zz).max(), np.abs(cor).max(), abs(rz)
  a = z(chunk, 'f1')
  if max(a) > 4.5:
    b = z(chunk * 16, 'f2')
    core.require(b[0] < 7, '%s: initial samples do not follow the configured '
                 'distribution (z=%.1f)', name, b[0])
    core.require(b[1] < 9, '%s: coordinates of initial samples are correlated '
                 '(z=%.1f)', name, b[1])
    core.require(b[2] < 9, '%s: initial samples are correlated with each other'
                 ' (z=%.1f)', name, b[2])


def check_classic(case):
  import jax
  import jax.numpy as jnp
  name = case['model']
  C = mods.n_categories(case)
  shape = case['cfg']['shape']
  model = mods.make(case)
  k = mods.key('k', case['seed'])
  params = model.make_init_params(k)
  core.require(_tree_equal(params, mods.make(case).make_init_params(k)),
               '%s: the same key gives different parameters', name)
  for leaf in jax.tree_util.tree_leaves(params):
    core.require(np.isfinite(np.asarray(leaf)).all(),
                 '%s: initial parameters are not finite', name)
  n = case['n']
  x = _samples_ok(name, model.get_init_samples(k, n), n, shape, C)
  core.require(np.array_equal(x, np.asarray(model.get_init_samples(k, n))),
               '%s: the same key gives different samples', name)
  ll = np.asarray(model.forward(params, jnp.asarray(x)))
  core.require(ll.shape == (n,) and np.isfinite(ll).all(), '%s: the model '
               'scores its own initial samples as %s', name, ll[:3])
  if name in ('ising', 'potts'):
    w_h, w_v, b = np.asarray(params['params'], np.float64)
    full = tuple(shape) + ((C,) if name == 'potts' else ())
    core.require(b.shape == full, '%s: parameters have shape %s', name, b.shape)
    lam = case['cfg']['lambdaa']
    core.require(np.allclose(w_h, -lam) and np.allclose(w_v, -lam),
                 '%s: couplings are not -lambda', name)
    i, j = np.indices(shape)
    inside = ((i / shape[0] - .5) ** 2 + (j / shape[1] - .5) ** 2)
    sgn = np.where(inside < 0.5 / np.pi, 1.0, -1.0)
    clear = np.abs(inside - 0.5 / np.pi) > 1e-5
    mu, sig = case['cfg']['mu'], case['cfg']['init_sigma']
    base = mu * sgn
    if name == 'potts':
      base, clear = base[..., None] + 0 * b, (clear[..., None] & (b == b))
    dev = (b - base)[clear]
    core.require((np.abs(dev) <= sig + 1e-5).all(), '%s: the external field is '
                 'off its centre by %.4g, sigma is %g', name,
                 np.abs(dev).max() if dev.size else 0, sig)
    # noise: centred, spread over [-sigma, sigma]
    if sig > 0:
      ks = jax.random.split(k, 300)
      bs = np.asarray(jax.vmap(model.make_init_params)(ks)['params'])[:, 2]
      u = (bs - base)[:, clear] / sig
      m = u.size
      if m:
        core.require(abs(u.mean()) < 6 * np.sqrt(1 / 3 / m) + 1e-3, '%s: field '
                     'noise has mean %.4f sigma', name, u.mean())
        core.require(abs((u ** 2).mean() - 1 / 3) < 6 * 0.3 / np.sqrt(m) + 1e-3,
                     '%s: field noise has second moment %.4f', name,
                     (u ** 2).mean())
  elif name in ('bernoulli', 'categorical'):
    p = np.asarray(params['params'], np.float64)
    full = tuple(shape) + ((C,) if name == 'categorical' else ())
    core.require(p.shape == full, '%s: parameters have shape %s', name, p.shape)
    sig = case['cfg']['init_sigma']
    if sig == 0:
      core.require((p == 0).all(), '%s: sigma 0 gives nonzero parameters', name)
    else:
      ks = jax.random.split(k, 400)
      ps = np.asarray(jax.vmap(model.make_init_params)(ks)['params']) / sig
      m = ps.size
      core.require(abs(ps.mean()) < 6 / np.sqrt(m) + 1e-3, '%s: parameters have '
                   'mean %.4f sigma', name, ps.mean())
      core.require(abs((ps ** 2).mean() - 1) < 6 * 1.5 / np.sqrt(m) + 1e-3,
                   '%s: parameters have variance %.4f sigma^2', name,
                   (ps ** 2).mean())
  d = int(np.prod(shape))
  _freq(name, model, np.full((d, C), 1.0 / C), n, case['seed'])
  return '%s-C%d' % (name, C), d > 1


def check_mean(case):
  """EBMs with a stored data mean start from it."""
  import flax
  import jax
  import jax.numpy as jnp
  name, C = case['model'], mods.n_categories(case)
  d = case['cfg']['shape'][0]
  r = core.rng_of('mean', case['seed'])
  _, params = mods.build(dict(case, pmode='random'))
  if C == 2:
    m = r.uniform(0.03, 0.97, size=d)
    want = np.stack([1 - m, m], 1)
    stored = m.tolist()
  else:
    want = r.dirichlet(np.ones(C), size=d) * .9 + .1 / C
    stored = want.tolist()
  full = dict(jax.tree_util.tree_map(np.asarray, params))
  full['data_mean'] = stored
  cfg = mods.config(case)
  with cfg.unlocked():
    cfg.model.params = flax.core.frozen_dict.freeze(full)
  import importlib
  model = importlib.import_module('discs.models.%s' % name).build_model(cfg)
  k = mods.key('k', case['seed'])
  p = model.make_init_params(k)
  for key_, v in params.items():
    core.require(_tree_equal(p[key_], v), '%s: stored parameter %r changed',
                 name, key_)
  n = case['n']
  x = _samples_ok(name, model.get_init_samples(k, n), n, [d], C)
  ll = np.asarray(model.forward(p, jnp.asarray(x)))
  core.require(ll.shape == (n,) and np.isfinite(ll).all(),
               '%s: the model scores its own initial samples as %s', name,
               ll[:3])
  _freq(name, model, want, n, case['seed'])
  return '%s-C%d-mean' % (name, C), d > 1


def check_comb(case):
  import jax.numpy as jnp
  with comb.Dataset(case) as ds:
    model, cfg = ds.model()
    total, K = cfg.model.max_num_nodes, cfg.model.num_categories
    core.require(tuple(cfg.model.shape) == (total,), '%s: the configured sample'
                 ' shape is %s for %d nodes', ds.kind, cfg.model.shape, total)
    k = mods.key('k', case['seed'])
    n = case['n']
    x = _samples_ok(ds.kind, model.get_init_samples(k, n), n, [total], K)
    core.require(np.array_equal(x, np.asarray(model.get_init_samples(k, n))),
                 '%s: the same key gives different samples', ds.kind)
    if ds.model_name == 'normcut':
      for row in x:
        core.require(len(set(row.tolist())) == K, 'normcut: the starting '
                     'partition %s leaves a group empty', row.tolist())
      xs = np.asarray(model.get_init_samples(mods.key('s', case['seed']), 4000))
      want = 1.0 / K
      z = np.abs((xs[..., None] == np.arange(K)).mean(0) - want) / np.sqrt(
          want * (1 - want) / 4000)
      core.require(z.max() < 6.5, 'normcut: starting partitions prefer a group '
                   'for some node (z=%.1f)', z.max())
    else:
      _freq(ds.kind, model, np.full((total, 2), .5), n, case['seed'])
    insts = ds.instances(model)
    core.require(insts, '%s: no instance', ds.kind)
    for _, p, _ in insts:
      p = dict(p, temperature=jnp.float32(1.0))
      ll = np.asarray(model.forward(p, jnp.asarray(x)))
      core.require(ll.shape == (n,) and np.isfinite(ll).all(),
                   '%s: the model scores its own initial samples as %s',
                   ds.kind, ll[:3])
    return ds.kind, total > 1


def _n(s):
  from hypothesis import strategies as st
  return lambda: st.builds(lambda c, n: dict(c, n=n), s(),
                           st.sampled_from([1, 2, 3, 7, 16]))


STRATA = [core.Stratum(n, _n(lambda n=n: mods.draw((n,))), check_classic, q,
                       q * 25) for n, q in [
                           ('bernoulli', 16), ('categorical', 16),
                           ('ising', 16), ('potts', 16), ('fhmm', 16),
                           ('rbm', 24), ('resnet', 8)]] + [
    core.Stratum('rbm-mean', _n(lambda: mods.draw(('rbm',))), check_mean, 32,
                 600),
    core.Stratum('resnet-mean', _n(lambda: mods.draw(('resnet',))), check_mean,
                 8, 200),
    core.Stratum('comb', _n(lambda: comb.draw_dataset(
        [k for k in comb.KINDS if k not in ('nets', 'gap_rand')])),
                 check_comb, 40, 800),
    core.Stratum('normcut', _n(lambda: comb.draw_dataset(('nets', 'gap_rand'))),
                 check_comb, 24, 500),
]
RULE = ('A case is a model with generated configuration (with or without a '
        'stored data mean; combinatorial models on generated datasets), a key '
        'and a number of samples from 1 to 16. Shapes, ranges, determinism, '
        'scoring of the own start, configured couplings and fields, and (two '
        'stage, 7 sigma) the distribution and independence of starting samples'
        ' are checked. Non-trivial: more than one coordinate.')
ASSUMPTIONS = ['Without a stored mean, starting samples are uniform over the '
               'categories.']
